#!/usr/bin/env python3
"""Mutation sweep over /repo: which small changes do the checks not see?

tools/mutate.py [--files a,b] [--jobs 4] [--percent 20] [--out /tmp/mut/result.jsonl]
Every mutant is built in a scratch copy; the checks of its file are run with a part of their quick budget. What survives
is tried against the repository's own tests. The result is for reading: many survivors are equivalent to the original.
"""
import argparse, json, os, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 'src/utils/mod.rs': 'C01 C03 C05 C04 C02 C27', 'src/sample_format/mod.rs': 'C01 C03 C05 C27', 'src/sample_format/mono.rs': 'C21 C08', 'src/sample_format/stereo.rs': 'C21',
 'src/utils/mono_resampler.rs': 'C08 C09 C23', 'src/generators/mono_wav.rs': 'C08 C27 C23', 'src/generators/noise.rs': 'C11', 'src/generators/zero.rs': 'C16 C23',
 'src/generators/sine.rs': 'C10 C23', 'src/generators/sawtooth.rs': 'C10 C23', 'src/generators/square.rs': 'C10 C23', 'src/generators/triangle.rs': 'C10 C23',
 'src/modifiers/adsr.rs': 'C12 C23', 'src/modifiers/bandpass.rs': 'C14 C13 C23', 'src/modifiers/lowpass.rs': 'C14 C13 C23', 'src/modifiers/highpass.rs': 'C14 C13 C23',
 'src/modifiers/envelope.rs': 'C14 C13 C23', 'src/modifiers/delay.rs': 'C15 C23', 'src/modifiers/echo.rs': 'C15 C13 C23', 'src/modifiers/generic.rs': 'C14 C23',
 'src/modifiers/gain.rs': 'C14 C23', 'src/modifiers/passthrough.rs': 'C14 C23', 'src/sounds/simple_sound.rs': 'C16 C17 C20 C22', 'src/sounds/standard_block.rs': 'C16 C20 C18',
 'src/sounds/complex_sound.rs': 'C18 C17 C19 C20 C22', 'src/channels/standard_channel.rs': 'C21 C22 C20 C26', 'src/debug.rs': 'C06', 'utility/bin2str/src/main.rs': 'C07',
}
# lines (from 0) that only belong to properties not decided here (N01-N04)
SKIP = {'src/utils/mod.rs': range(0, 92), 'src/sample_format/mono.rs': range(60, 999), 'src/sample_format/stereo.rs': range(60, 999)}
OPS = [(r' \+ ', [' - ']), (r' - ', [' + ']), (r'(?<=[\w\)\]])\*(?=[\w\(])', ['/']), (r' \* ', [' / ']), (r' / ', [' * ']), (r'(?<=[\w\)\]])/(?=[\w\(])', ['*']), (r'(?<=[\w\)\]])-(?=[\w\(])', ['+']), (r'(?<=[\w\)\]])\+(?=[\w\(])', ['-']),
 (r' % ', [' * ']), (r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
 (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']), (r' \*= ', [' /= ']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']), (r'\.round\(\)', ['', '.floor()']), (r'\.floor\(\)', ['.ceil()']), (r'\.trunc\(\)', ['.round()']), (r'\.fract\(\)', ['.floor()']),
 (r'\.abs\(\)', ['']), (r'\.rev\(\)', ['']), (r'push_back', ['push_front']), (r'push_front', ['push_back']), (r'pop_back', ['pop_front']), (r'pop_front', ['pop_back']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
 (r'(?<![\w.\[])0\.0\b', ['1.0']), (r'(?<![\w.])1\.0\b', ['1.001', '0.0']), (r'(?<![\w.])2\.0\b', ['2.001', '1.0']), (r'(?<![\w.\[])(?<!\w)0(?![\w.xu])', ['1']), (r'(?<![\w.\[])1(?![\w.\]u])', ['2', '0']), (r'(?<![\w.])2(?![\w.\]u])', ['3']),
 (r'\bif (?!let)([^{]+) \{', [r'if !(\1) {']), (r'\? *;', [';']), (r'unwrap_or_default', ['unwrap'])]

def code_lines(f, text):
    out, skip, test = [], 0, False
    for n, l in enumerate(text.split('\n')):
        s = l.strip()
        if n in SKIP.get(f, ()): continue
        if s.startswith('#[cfg(test)]'): test = True
        if test or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub use') or not s: continue
        out.append(n)
    return out

def mutants(f, text):
    lines = text.split('\n')
    for n in code_lines(f, text):
        l = lines[n]
        body = l.split('//')[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, body):
                for r in reps:
                    if 'fn ' in body and pat.startswith('(?<!'): continue
                    new = body[:m.start()] + m.expand(r) + body[m.end():]
                    if new != body: yield n, new
        s = body.strip()
        if s.endswith(';') and not s.startswith(('let ', 'return', 'pub ', 'const ', 'type ', 'struct ', 'static ', 'mod ')) and s not in ('};', ');'):
            yield n, ''

def main():
    a = argparse.ArgumentParser(); a.add_argument('--files'); a.add_argument('--jobs', type=int, default=4); a.add_argument('--percent', default='20'); a.add_argument('--out', default='/tmp/mut/result.jsonl')
    a = a.parse_args()
    W = '/tmp/mut'; os.makedirs(W, exist_ok=True)
    files = a.files.split(',') if a.files else list(MAP)
    q = queue.Queue(); total = 0
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l); done.add((d['file'], d['line'], d['new']))
    for f in files:
        t = open('/repo/' + f).read()
        seen = set()
        for n, new in mutants(f, t):
            if (n, new) in seen or (f, n, new) in done: continue
            seen.add((n, new)); q.put((f, n, new)); total += 1
    print(total, 'mutants', flush=True)
    lock = threading.Lock(); out = open(a.out, 'a'); count = {}
    base = dict(os.environ, HOME='/root', CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', RUSTC_WRAPPER='')
    def work(j):
        d = f'{W}/{j}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        os.makedirs(d + '/verif/evidence'); os.makedirs(d + '/verif/replays')
        for x in ('check.sh', 'sim', 'shim', 'known_findings.txt', 'properties.jsonl'): subprocess.run(['cp', '-a', f'{V}/{x}', d + '/verif/'], check=True)
        subprocess.run(['sed', '-i', f's#path = "/repo"#path = "{d}/repo"#', d + '/verif/sim/Cargo.toml'], check=True)
        k = os.cpu_count() // a.jobs; cpus = ','.join(str(j * k + i) for i in range(k))
        env = dict(base, VERIF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick', BAESIM_PERCENT=a.percent, TMPDIR=d)
        env.pop('VERIF_ROOT', None)
        while True:
            try: f, n, new = q.get_nowait()
            except queue.Empty: return
            orig = open('/repo/' + f).read(); lines = orig.split('\n'); old = lines[n]; lines[n] = new
            open(f'{d}/repo/{f}', 'w').write('\n'.join(lines))
            res, by = 'survived', None
            try:
                for c in MAP[f].split():
                    r = subprocess.run(['taskset', '-c', cpus, './check.sh', c], cwd=d + '/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                    if r.returncode == 2: res = 'nobuild'; break
                    if r.returncode == 1: res, by = 'killed', c; break
                    if r.returncode != 0: res, by = 'noanswer', c; break
                if res == 'survived' and 'bin2str' not in f:
                    os.makedirs(d + '/repo/.junk', exist_ok=True)
                    for x in ('modifiers', 'sounds', 'utils', 'some/path'): os.makedirs(d + '/repo/.junk/' + x, exist_ok=True)
                    r = subprocess.run(['taskset', '-c', cpus, 'cargo', 'test', '--offline', '-q'], cwd=d + '/repo', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                    if r.returncode != 0: res = 'tests'
            except subprocess.TimeoutExpired: res = 'timeout'
            open(f'{d}/repo/{f}', 'w').write(orig)
            with lock:
                count[res] = count.get(res, 0) + 1
                out.write(json.dumps({'file': f, 'line': n, 'old': old.strip(), 'new': new, 'result': res, 'by': by}) + '\n'); out.flush()
                if res in ('survived', 'noanswer', 'timeout'): print(res, f, n + 1, '|', old.strip(), '=>', new.strip(), flush=True)
    ts = [threading.Thread(target=work, args=(j,)) for j in range(a.jobs)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(count)
main()
