#!/usr/bin/env python3
"""addfix.py HASH=PROP ... : append 'fixed:' lines for /repo fix commits that are not recorded yet"""
import subprocess, sys
m = dict(a.split('=') for a in sys.argv[1:])
k = open('/verif/known_findings.txt').read()
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '--grep=^fix:'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if h in k: continue
    if h not in m: print('unassigned', l); continue
    open('/verif/known_findings.txt', 'a').write(f"fixed: property={m[h]} {h} {s[5:]}\n")
