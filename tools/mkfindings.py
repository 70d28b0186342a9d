#!/usr/bin/env python3
"""Writes known-findings.txt: one 'fixed:' line per repair commit of /repo (message 'fix: ...'),
the property taken from the table below, and the open findings (none of which is ever added at run time)."""
import subprocess
PROP = {
 'cut negative': 'C01', 'amounts of any size': 'C01', 'one-character tag': 'C13', 'FindEqual': 'C15', 'a converted amount': 'C14',
 'currencies of a commodity': 'C20', 'account patterns': 'C11', 'transaction and posting lines': 'C28', 'read empty notes': 'C07',
 'include, test and commodity lines': 'C21', 'account notes of one': 'C24', 'definition of an Unbalanced': 'C24', 'load prices.coin once': 'C10',
 'include loops': 'C21', 'year closest': 'C12', 'dates that do not exist': 'C12', 'replace rewritten files': 'C08', 'modify all selected': 'C09',
 'added tag': 'C09', 'coin test sums up': 'C22', 'format and modify test clauses': 'C22', 'inverted payee': 'C04', 'Other column': 'C05',
 'without a payee': 'C05', 'totals of aggregated': 'C14', 'one posting in the register': 'C04', 'unbalanced transaction once': 'C23',
 'amounts of different precision': 'C01',
}
OPEN = []
import os, re
here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here, 'findings_extra.py')).read())
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    ps = [p for k, p in PROP.items() if k in s]
    assert len(ps) == 1, (s, ps)
    out.append(f"fixed: property={ps[0]} {h} {s[5:]}")
out += OPEN
open(os.path.join(here, '..', 'known-findings.txt'), 'w').write('\n'.join(out) + '\n')
