#!/usr/bin/env python3
# addscn.py P24 p24 setup 2500 "rule": registers a scenario in main.rs
import sys,re
i,m,f,q,rule=sys.argv[1:6]
p='/verif/sim/src/main.rs'; s=open(p).read()
if f'mod {m};' not in s: s=s.replace('mod p01;',f'mod p01;\nmod {m};')
line=f'    Scn {{ id: "{i}", setup: {m}::{f}, quick: {q}, thorough: 100_000, rule: "{rule}" }},\n'
if f'id: "{i}"' not in s:
    s=s.replace('];\n\nfn main',line+'];\n\nfn main')
ls=s.split('\n'); a=[k for k,l in enumerate(ls) if l.startswith('    Scn {')]
ls[a[0]:a[-1]+1]=sorted(ls[a[0]:a[-1]+1])
open(p,'w').write('\n'.join(ls))
