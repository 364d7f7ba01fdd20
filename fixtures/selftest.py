import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(20000)
import json
from tsa import facts, check, interp as I, terms as T
F=facts.Facts(json.load(open(sys.argv[1])))
ctx=check.Ctx(F)
flt=sys.argv[2:] 
for f in F.fns:
    if f.get('inst') is None or f.get('owner') or flt and f['name'] not in flt: continue
    I.Interp.unknown.clear(); ctx.undec.clear()
    r=ctx.run(f, ok=False, unroll=12, tag=f['name'])
    if r is None: print('GAVEUP', f['name'], ctx.undec[:1]); continue
    bad=[]
    for st,v in r.exits:
        v=st.simp(v)
        d=st.decide(v)
        if d is not True: bad.append((T.show(v)[:200]))
    if not r.exits: bad.append('no exits')
    ob=[(o.kind,o.desc[:60]) for o in r.ip.obls if o.ok is not True]
    if bad or I.Interp.unknown or ob: print('NO' if bad else 'ok', f['name'], bad[:1], sorted(I.Interp.unknown)[:3], ob[:3])
