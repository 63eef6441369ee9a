#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + table of planted bugs + tools/design_tail.md"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
 'c03-many-channels': 'channel counts up to 65 535', 'c13-resonance-floor': 'resonances far outside the range',
 'c23-generic-history': 'filters that overflow before they are cloned', 'c24-coefficient-cache': 'several instances with almost equal settings',
 'c25-hash-order': 'graphs with feedback in the session', 'c22-id-wraps': 'crowds, and sounds that come and go', 'c15-delay-cap': 'delays up to 300 s',
 'c25-pointer-order': 'blocks side by side and another heap layout', 'c22-paused-stays': 'paused and muted members', 'c26-pitch-memo': 'values that differ from cycle to cycle',
 'c06-first-buffer': 'scattered reads', 'c06-append': 'reading to the end behind existing bytes', 'c07-nowhere': 'more errnos when opening',
 'c16-input-limit': 'signal levels and far gains', 'c18-silent-skip': 'signal levels and far gains', 'c20-weak': 'weak handles',
 'c24-millionth': 'violations that need the cases before them are replayed with this history', 'c25-thread': 'replay with the history of cases',
 'c14-far-pole': 'taps thousands of samples back', 'c14-quality-deadband': 'settings that crawl', 'c15-nan-scrub': 'samples that are no number',
 'c16-gain-steps': 'gains that are no multiple of a thousandth', 'c21-gain-steps': 'gains that are no multiple of a thousandth', 'c23-far-history': 'large instances',
 'c12-floor': 'a held level is compared relative to itself', 'c26-double-silence': 'allocations are counted besides bytes',
 'c16-modifier-cap': 'crowds added one by one', 'c18-stages-only': 'graphs without blocks', 'c19-connection-cap': 'denser large graphs', 'c14-tiny-pole': 'tiny taps',
 'c11-dead-zone': 'no value more often than on a 16-bit grid', 'c15-echo-overload': 'odd samples through echoes',
 'c24-thread-count': 'instances of one kind that share one thread for up to 400 000 samples',
 'c11-clock-seed': 'the check did not compile without `Default`; it now takes what the type offers',
}
rows = ''
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    n = m['needs'].replace('|', '/').replace('\n', ' ')
    if d in MISSED: n += f' — **missed first**; added: {MISSED[d]}'
    rows += f"| {d} | {m['property']} | {n} |\n"
open(V + '/DESIGN.md', 'w').write(open(V + '/tools/design_head.md').read() + '| bug | property | needs |\n|-----|----------|-------|\n' + rows + open(V + '/tools/design_tail.md').read())
