import sys
sys.setrecursionlimit(100000)
import cast, execu, solver, terms, loops
spec, h = sys.argv[1], sys.argv[2]
prog = cast.Program(spec); ex = execu.Exec(prog)
o=loops.summarise
def s2(ex,node,cond,inc,body,st0):
    import arrays
    c0=arrays.CHEAP[0]
    r=o(ex,node,cond,inc,body,st0)
    print('SUM', ex.where(node), 'cheap', c0, list(r), [len(x.pc) for x in [r.get('n')] if x], len(st0.pc), r['n'].pc[-1:] if 'n' in r else '')
    return r
loops.summarise=s2
ex.run(h)
