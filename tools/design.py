"""Fills the generated tables of DESIGN.md (from tools/design.txt, properties.jsonl, seeded/)."""
import json,os,glob,re
R='/verif/'
props=[json.loads(l) for l in open(R+'properties.jsonl')]
m=json.load(open(R+'MANIFEST.json'))
na={x['property'] if 'property' in x else x.get('id'):x for x in m.get('not_applicable',[])}
claimed={c['property'] for c in m['checks']}
txt={}
cur=None
for l in open(R+'tools/design.txt'):
    g=re.match(r'^## (P\d\d)',l)
    if g: cur=g.group(1); txt[cur]=''
    elif cur: txt[cur]+=l
out=''
for p in props:
    i=p['id']
    out+='### %s — %s\n\n'%(i,p['title'])
    if i in txt: out+=txt[i].strip()+'\n\n'
    elif i in na: out+='Not applicable: %s\n\n'%na[i].get('reason','')
    elif i not in claimed: out+='No check yet.\n\n'
d=open(R+'tools/design.md').read()
s='| seeded bug | property | needs | caught by |\n|---|---|---|---|\n'
caught={}
if os.path.exists(R+'tools/caught.txt'):
    for l in open(R+'tools/caught.txt'):
        a=l.strip().split(' ',1)
        if len(a)==2: caught[a[0]]=a[1]
for f in sorted(glob.glob(R+'seeded/*/meta.json')):
    j=json.load(open(f)); n=f.split('/')[-2]
    s+='| %s | %s | %s | %s |\n'%(n,j['property'],j['needs'],caught.get(n,'?'))
d=d.replace('@@PROPS@@',out.strip()).replace('@@SEEDS@@',s)
open(R+'DESIGN.md','w').write(d)
