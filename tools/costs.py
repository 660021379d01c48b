#!/usr/bin/env python3
"""tools/costs.py LOG... > COSTS.md: the table of section 6 of DESIGN.md, out of what the checks
print (a later line for a suite replaces an earlier one)."""
import re, sys

LINE = re.compile(r'(C\d\d) (\S+): (\d+) cases \((\d+) non-trivial\), (\d+) states, (\d+) transitions, '
                  r'(\d+) traces, (\d+) distinct outcomes, ([\d.]+) s')
rows, sums = {}, {}
for f in sys.argv[1:]:
    for l in open(f, errors='replace'):
        m = LINE.match(l)
        if m:
            rows[m[1], m[2]] = m.groups()[2:]

def num(n):
    return f'{int(n):,}'.replace(',', ' ')

print('# Suites and their costs\n')
print('The quick tier, eight cores, written by `tools/costs.py`; seconds are wall-clock times of the')
print('exploration, "traces" are comparisons of the implementation with the reference.\n')
print('| property | suite | cases | non-trivial | states | transitions | traces | outcomes | s |')
print('|---|---|---|---|---|---|---|---|---|')
for (p, s), r in sorted(rows.items(), key=lambda x: x[0][0]):
    print('|', ' | '.join([p, s] + [num(n) for n in r[:-1]] + [r[-1]]), '|')
    sums[p] = sums.get(p, 0) + float(r[-1])
print('\nSeconds per check: ' + ', '.join(f'{p} {t:.0f}' for p, t in sorted(sums.items())) + '.')
