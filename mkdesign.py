"""Fills the generated tables of DESIGN.md (between markers) from props.py and seeded/."""
import json, os, re, props
from build import load_overlay
def table():
    out=[]
    for p in sorted(props.PROPS):
        c=props.PROPS[p]; fns=[]
        for un,mods in c['units']:
            u=props.UNITS[un]('/repo'); ov=load_overlay(u.ovs); m={}
            for k in ov.order:
                if p in ' '.join(s['arg'] for s in ov.fns[k]['secs'] if s['name']=='props').split(): fns.append(k)
        out.append('| %s | %s | %s | %s |'%(p,'deductive (level proof)' if c['level']=='proof' else ('deductive for the functions listed, bounded for the rest (level exploration)' if fns else 'bounded execution of the contracts (level exploration)'),', '.join(fns).replace('ForestState::','') or '-',', '.join(c.get('bounded_for',[])) or ('conformance run only' if c['level']=='proof' else 'all functions of the property')))
    return '\n'.join(out)
def seeds():
    cat=json.load(open('caught.json')) if os.path.exists('caught.json') else {}
    out=['| bug | property | caught by | how |','|---|---|---|---|']
    for d in sorted(os.listdir('seeded')):
        m=json.load(open('seeded/%s/meta.json'%d)); c=cat.get(d,{})
        out.append('| %s | %s | %s | %s |'%(d,m['property'],m['property'] if c.get('caught') else ('not caught' if c else 'not run'),c.get('how','')))
    return '\n'.join(out)
s=open('DESIGN.md').read()
def put(s,tag,txt):
    a,b='<!-- %s -->'%tag,'<!-- /%s -->'%tag
    if '@@%s@@'%tag in s: return s.replace('@@%s@@'%tag,a+'\n'+txt+'\n'+b)
    return s[:s.index(a)]+a+'\n'+txt+'\n'+b+s[s.index(b)+len(b):]
t=table()
if '@@TABLE@@' in s: # a table cannot have a comment line inside
    s=s.replace('| id | deciding method | functions under contract (Verus) | bounded stand-in |\n|----|----|----|----|\n@@TABLE@@','@@TABLE@@')
s=put(s,'TABLE','| id | deciding method | functions under contract (Verus) | bounded stand-in |\n|----|----|----|----|\n'+t); s=put(s,'SEEDS',seeds())
open('DESIGN.md','w').write(s)
