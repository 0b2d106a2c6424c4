#!/usr/bin/env python3
"""seedtable.py LOG: turn the output of tools/trybugs.sh into the table of DESIGN.md section 8."""
import re, sys
rows, cur = [], None
for l in open(sys.argv[1]):
    m = re.match(r'(c\d\d-\S+) (C\d\d) rc=(\d+) (.*)', l)
    if m:
        fi = re.search(r'failing input: hex=(\S*)', l)
        cur = [m[1], m[2], 'caught' if m[3] == '1' else 'MISSED', ('`%s`' % fi[1] if fi and fi[1] != '' else 'empty') if fi else '-', '-']
        rows.append(cur)
    elif cur and (o := re.match(r'obligation not discharged in (.*?):?$', l.strip())):
        cur[4] = '`%s`' % o[1]
print('| planted bug | check | result | failing input (hex) | failed obligation in |\n|---|---|---|---|---|')
for r in rows: print('| ' + ' | '.join(r) + ' |')
