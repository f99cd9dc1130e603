#!/usr/bin/env python3
"""refresh the table of planted bugs in DESIGN.md"""
import glob, json, re
rows = []
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[-2]
    rows.append(f"| {i} | {m['property']} | {m['needs']} |")
t = "<!-- seeded -->\n| bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeded -->"
p = '/verif/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, s, flags=re.S) if '<!-- seeded -->' in s else s.replace('SEEDED', t)
open(p, 'w').write(s)
