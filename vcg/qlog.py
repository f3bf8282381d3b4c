import sys, time
sys.setrecursionlimit(100000)
import cast, execu, solver, terms, signal
spec, h = sys.argv[1], sys.argv[2]
prog = cast.Program(spec); ex = execu.Exec(prog)
log=[]
orig=solver.check_sat
def cs(conds, timeout=2.0, **kw):
    t=time.time(); r=orig(conds,timeout,**kw); dt=time.time()-t
    log.append((dt, r[0], conds[-1], len(conds), conds)); return r
solver.check_sat=cs
signal.alarm(int(sys.argv[3]))
def al(*a): raise KeyboardInterrupt
signal.signal(signal.SIGALRM, al)
try: ex.run(h)
except KeyboardInterrupt: pass
print(len(log), sum(x[0] for x in log))
from collections import Counter, defaultdict
c=defaultdict(float); n=Counter(); 
for dt,r,g,k,cc in log: c[(r,g)]+=dt; n[(r,g)]+=1
for (r,g),v in sorted(c.items(), key=lambda x:-x[1])[:25]:
    print('%.2f %d %s  NEG: %s'%(v,n[(r,g)],r,terms.show(g,8)[:400]))
for dt,r,g,k,cc in sorted(log,key=lambda x:-x[0])[:3]:
    print('=====',dt,r)
    for x in cc: print('   ', terms.show(x,7)[:250])
