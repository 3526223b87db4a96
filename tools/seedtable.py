#!/usr/bin/env python3
# Writes the table of planted changes in DESIGN.md.
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
MISSED = {'archive-path-ascii', 'archive-read-yields', 'rans-edge-word', 'codec-first-symbol',
          'mtf-wide-alphabet', 'zigzag-narrow-cell', 'delta-short-length', 'word-bytes-unwritten',
          'colour-wide-plane', 'config-port-narrow', 'archive-zero-remainder', 'token-long-password',
          'mstate-list-long-name', 'semaphore-narrow-count'}
rows = ['| change | property, caught by | needs |', '|---|---|---|']
for d in sorted(os.listdir(f'{H}/seeded')):
    m = json.load(open(f'{H}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']}{' (missed first, check extended)' if d in MISSED else ''} | {m['needs']} |")
p = f'{H}/DESIGN.md'
t = open(p).read()
a, b = t.index('<!-- seeds -->') + len('<!-- seeds -->'), t.index('<!-- end -->')
open(p, 'w').write(t[:a] + '\n' + '\n'.join(rows) + '\n' + t[b:])
