#!/usr/bin/env python3
"""mkseed.py SPEC.py: for each bug in SPEC (list B of dicts id, prop, file, subs [(old,new)..], needs, breaks, demo):
make the change in the scratch copy, save it under seeded/ID, undo it."""
import sys, os, json, subprocess
ns={}; exec(open(sys.argv[1]).read(), ns); only=sys.argv[2:]
R='/tmp/sc/repo'; V='/verif'
for b in ns['B']:
    if only and b['id'] not in only: continue
    edits=b['edits'] if 'edits' in b else [(b['file'],b['subs'])]
    ok=True
    for f,subs in edits:
        p=f'{R}/src/{f}'; s=open(p).read()
        for x in subs:
            o,n=x[0],x[1]; k=x[2] if len(x)>2 else None
            c=s.count(o)
            if c==0 or (c>1 and k is None): print(b['id'],'match count',c,repr(o)[:80]); ok=False; break
            if k is None: s=s.replace(o,n)
            else:
                i=-1
                for _ in range(k+1): i=s.index(o,i+1)
                s=s[:i]+n+s[i+len(o):]
        open(p,'w').write(s)
    if ok:
        d=f'{V}/seeded/{b["id"]}'; os.makedirs(d,exist_ok=True)
        demo=b['demo'].lstrip()
        if demo.startswith('//c++'):
            open(d+'/demo.cc','w').write('#include <cstdio>\n#include <vector>\n#include "calObj.hh"\n'+demo)
            open(d+'/demo.sh','w').write(open(V+'/tools/seedlib/demo.sh').read().replace('gcc -w -O1','g++ -std=c++17 -w -O1').replace('demo.c"','demo.cc"'))
        else: open(d+'/demo.c','w').write('#include "tt.h"\n'+demo)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        subprocess.run([f'{V}/tools/seed.sh','new',b['id']])
    subprocess.run(['git','-C',R,'checkout','-q','--','.'])
