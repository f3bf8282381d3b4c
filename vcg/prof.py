import sys, cProfile, pstats, time
sys.setrecursionlimit(100000)
import cast, execu, solver
spec, h = sys.argv[1], sys.argv[2]
prog = cast.Program(spec)
ex = execu.Exec(prog)
p = cProfile.Profile(); t=time.time()
p.enable(); 
try: ex.run(h)
finally:
    p.disable()
    print('gen', time.time()-t, len(ex.obs), solver.STATS)
    pstats.Stats(p).sort_stats('cumtime').print_stats(45)
