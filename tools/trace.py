import sys,time
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))))
from sa import facts, mir
from sa.terms import *
F=facts.load()
def go(n, **kw):
    e=mir.Engine(F, **kw)
    t=time.time()
    r=e.run(n)
    print('==',n,len(r),'paths',len(e.diverged),'div',"%.2fs"%(time.time()-t),'steps',e.steps)
    for s,v in r:
        print('  ret',show(v)[:600]); print('    conds',{show(k)[:90]:w for k,w in s.conds.items()}); [print('    alt',[{show(k)[:90]:w for k,w in a} for a in g]) for g in s.groups]; print('    ev',[show(x)[:150] for x in s.ev])
    for L,rec in e.loops.items():
        print('  loop',L,rec.key[:2]); 
        for c in rec.conts: print('     cont',{show(k)[:100]:w for k,w in c.conds.items()},'\n        ev',[show(x)[:200] for x in c.ev],'\n        upd',{show(p):show(v)[:200] for p,v in c.upd.items()})
        for x in rec.exits: print('     exit',x[0],{show(k)[:100]:w for k,w in x[1].items()})
    print('  unmodelled',e.unmodelled)
    return e,r
for a in sys.argv[1:]: go(a)
