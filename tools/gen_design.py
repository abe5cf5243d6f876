#!/usr/bin/env python3
"""Writes DESIGN.md: handwritten text plus, per property, the bounds as stated beside its harnesses."""
import json,os,re,glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
HEAD=open(root+'/tools/design_head.md').read()
ns={}; exec(open(root+'/tools/design_oracles.py').read(),ns)
out=[HEAD.rstrip(),'','## The properties, one by one','',
 'For each: what is executed symbolically, against what oracle, and within what bounds. The bounds are those stated beside',
 'each harness (and repeated in the evidence); everything beyond them is outside the claim. Times are of the quick tier on 8 cores.','']
for p in props:
    i=p['id']
    out+=['### %s %s'%(i,p['title']),'',p['statement'],'']
    o=ns['ORACLE'].get(i)
    if o: out+=['*Real code executed.* '+o[0],'','*Oracle.* '+o[1],'']
    if o and len(o)>2: out+=['*Why tests cannot reach it, limits.* '+o[2],'']
    h=[]
    for f in sorted(glob.glob(root+'/harness/%s/*.go'%i.lower())):
        for m in re.finditer(r'((?:^//[^\n]*\n)+)func (Check\w+)',open(f).read(),re.M):
            t=' '.join(x[2:].strip() for x in m.group(1).strip().split('\n'))
            h.append('- '+re.sub(r'^(Check\w+): ?',r'`\1`: ',t))
    if h: out+=['*Bounds.*','']+h+['']
out+=[open(root+'/tools/design_tail.md').read().rstrip(),'','## Planted bugs','',
 'Each was written from the property text and the code, validated (builds, passes the tests, demonstration fails with it and passes without it),','and run against its check.','',
 '| bug | property | needs | caught by |','|---|---|---|---|']
for d in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    out.append('| %s | %s | %s | %s |'%(n,m['property'],m['needs'],ns['CAUGHT'].get(n,m['property'])))
out+=['',"## Repairs in /repo",'','One `fix:` commit each; the property named did not hold before, and its check reports the defect again when the commit is reverted.','']
for l in open(root+'/KNOWN_FINDINGS.txt'):
    m=re.match(r'fixed: property=(\w+) (\w+) (?:did not hold before: )?(.*)',l)
    if m: out.append('- %s `%s` %s'%m.groups())
open(root+'/DESIGN.md','w').write('\n'.join(out)+'\n')
