#!/usr/bin/env python3
# Writes /verif/DESIGN.md: tools/design.md with the tables filled in from properties.jsonl, engine/specs.go, seeded/.
import json,re,glob
spec=open('/verif/engine/specs.go').read()
bounds={}
for m in re.finditer(r'"(C\d\d)": \{\n(?:.*\n)*?\t\},',spec):
    b=m.group(0)
    g=lambda k:(re.search(k+r':\s*(?:\[\]string\{(.*)\}|"(.*)")',b) or [None,None,None])
    q=re.search(r'Quick:\s*\[\]string\{(.*)\}',b); t=re.search(r'Thorough:\s*\[\]string\{(.*)\}',b)
    bounds[m.group(1)]=(re.search(r'Bounds:\s*"(.*)"',b).group(1),q.group(1).replace('"','') if q else '',t.group(1).replace('"','') if t else '')
how={}
cur=None
for l in open('/verif/tools/oracles.md'):
    m=re.match(r'## (C\d\d)',l)
    if m: cur=m.group(1); how[cur]=''
    elif cur: how[cur]+=l
out=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); i=p['id']; b,q,t=bounds[i]
    out.append(f"### {i} {p['title']}\n\n{how[i].strip()}\n\n*Bounds*: {b}\n\n*Harnesses*: quick {q}; thorough, in addition, {t}.\n\n*Why tests cannot*: {p['why_tests_cant']}\n")
seeds=["| change | property | needs | breaks |","|---|---|---|---|"]
for f in sorted(glob.glob('/verif/seeded/*/meta.json'),key=lambda f:(json.load(open(f))['property'],f)):
    d=json.load(open(f)); seeds.append(f"| {f.split('/')[3]} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |")
fixed='\n'.join('- '+x.replace('fixed: ','') for x in json.load(open('/verif/known-findings.json'))['fixed'])
s=open('/verif/tools/design.md').read()
s=s.replace('@PROPERTIES@','\n'.join(out)).replace('@SEEDS@','\n'.join(seeds)).replace('@FIXED@',fixed)
open('/verif/DESIGN.md','w').write(s)
