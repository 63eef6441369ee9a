#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of properties the simulator knows."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = subprocess.run([root + '/check.sh', 'list'], capture_output=True, text=True).stdout.split()
NA = {
 'N01': 'Pure functions of their arguments: no state, schedule, clock, stream, entropy or fault for a simulator to control; only input generation would be left.',
 'N02': 'A pure function of sample and position; nothing a schedule or fault could influence.',
 'N03': 'Pure functions of one or five numbers; nothing a schedule or fault could influence.',
 'N04': 'A pure in-memory function of one track and level; it reads no stream and keeps no state, so no schedule, crash or fault can reach it.',
}
TECH = 'deterministic simulation: seeded search over %s, replayable minimised traces'
WHAT = {
 'C01': ('short/interrupted writes and requests', 'independent WAV parser and f64 quantisation'),
 'C02': ('sink failures at every byte', 'prefix of the fault-free run, bounded retries'),
 'C03': ('read schedules, interruptions and chunk layouts', 'independent WAV encoder'),
 'C04': ('truncation, read failures and corruption', 'refusal, termination, stack and allocation budget'),
 'C05': ('power cuts between save and reload', 'the recording itself'),
 'C06': ('read schedules over the in-memory source', 'payload and sentinel bytes'),
 'C07': ('short, interrupted and failing file I/O of the real tool', 'parse of the produced table'),
 'C08': ('live speed-change schedules', 'f64 position reference'),
 'C09': ('live speed-change schedules over looping clips', 'f64 loop reference'),
 'C10': ('live retuning schedules', 'ideal waveform at the accumulated phase'),
 'C11': ('entropy supplies and interleavings of generators', 'statistical thresholds, stream distinctness'),
 'C12': ('release schedules over envelopes', 'piecewise linear envelope reference'),
 'C13': ('automation schedules', 'bounded settling and decay after the last change'),
 'C14': ('retuning schedules', 'difference equation recomputed in f64, frequency response'),
 'C15': ('signals and call histories', 'index arithmetic over the recorded history'),
 'C16': ('interleavings of priming, processing and editing', 'instrumented parts and reference chain'),
 'C17': ('toggle schedules over a lossy, duplicating transport', 'twin sound processed only when not paused'),
 'C18': ('random graphs and insertion orders', 'instrumented blocks and delivery accounting'),
 'C19': ('graph edits between samples over a lossy, duplicating transport', 'instrumented blocks and delivery accounting'),
 'C20': ('handle hold/release schedules', 'instrumented parts, reference mix'),
 'C21': ('channel edit schedules', 'reference mixer over instrumented sounds'),
 'C22': ('registration histories with duplicated and late removals', 'registration ledger, drop tracking'),
 'C23': ('clone instants and interleavings', 'freshly built twins, allocation budget'),
 'C24': ('thread interleavings decided by a baton scheduler', 'bitwise comparison with solo runs'),
 'C25': ('entropy, thread and interleaving variations of one session', 'bitwise comparison between executions and processes'),
 'C26': ('endlessly repeated cycles of control events', 'counting allocator'),
 'C27': ('sessions, transfer faults and power cuts', 'the rendered samples themselves'),
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        over, oracle = WHAT[i]
        checks.append({
            'property': i,
            'quick_cmd': f'./check.sh {i}',
            'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': TECH % over,
            'level': 'exploration',
            'level_note': f'Sampled executions of the real code under the simulator; oracle: {oracle}. A clean batch is evidence, not proof; trusts the simulated environment, the oracle and the compiler.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Check not built yet.')})
m = {'version': 1, 'setup_cmd': './check.sh build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam is a Read/Write argument, a user-supplied part, OS entropy, the allocator or libc I/O. Repairs are listed in known_findings.txt.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'n/a')
