#!/bin/bash
# rewrites the table of planted bugs in DESIGN.md
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P'
import json,glob,os,re
rows=[]
for d in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(d)); rows.append('| %s | %s | %s |'%(d.split('/')[1],m['property'],m['needs'].replace('|','/')))
t=open('DESIGN.md').read()
head='| bug | property | needs |\n|---|---|---|\n'
i=t.index(head)+len(head); j=t.index('\n\n',i)
open('DESIGN.md','w').write(t[:i]+'\n'.join(rows)+t[j:])
P
