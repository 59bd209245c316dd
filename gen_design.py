#!/usr/bin/env python3
"""Rewrites the per-property part of DESIGN.md from props.json, properties.jsonl and seeded/ (run by hand)."""
import json,glob,os,re
P=json.load(open('/verif/props.json')); out=[]
man=json.load(open('/verif/MANIFEST.json')); na={x['property_id'] if 'property_id' in x else x.get('property',x.get('id')):x.get('reason','') for x in man['not_applicable']}
def fns(u):
    t=open(f'/verif/units/{u}.vu').read(); f=re.findall(r'^//@fn (\S+)',t,re.M)
    for inc in re.findall(r'^//@include (\S+)',t,re.M):
        pass
    return f
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); q=P.get(d['id'])
    out.append(f"### {d['id']} {d['title']}")
    if not q or d['id'] in na:
        out.append(f"Not applicable: {na.get(d['id'],'')}\n"); continue
    for u in q['units']:
        f=fns(u)
        names=', '.join(f[:14])+(f', … ({len(f)} in all)' if len(f)>14 else '')
        out.append(f"- unit `{u}`: " + (names if f else 'contracts over included units'))
    out.append(f"- decides: {q.get('note','')}")
    out.append(f"- search `{q.get('search')}` (bounded): {q.get('bounded','')}\n")
s=open('/verif/DESIGN.md').read()
a,b='<!-- properties -->','<!-- /properties -->'
i,j=s.index(a)+len(a),s.index(b)
s=s[:i]+'\n'+'\n'.join(out)+s[j:]
rows=['| seeded bug | property | needs |','|---|---|---|']
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} |")
a,b='<!-- seeded -->','<!-- /seeded -->'
i,j=s.index(a)+len(a),s.index(b)
s=s[:i]+'\n'+'\n'.join(rows)+'\n'+s[j:]
open('/verif/DESIGN.md','w').write(s)
