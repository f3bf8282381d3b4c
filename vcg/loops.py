"""Loop rule: inferred closed-form invariants for loops of the real code.

For every loop the body is executed once for an arbitrary iteration t.  Scalars modified by
the loop get an invariant x(t) (affine, prefix sum, running max/min, last assignment, value of
the previous iteration) and arrays get the set of writes of iterations < t, under
non-interference conditions that are proved (SMT) for all pairs of iterations.  Whatever
fits none of these is havocked (plus sign invariants that are checked inductively)."""
from terms import *
import terms as tm
from solver import valid, FACTS
import solver
from arrays import *
from arrays import Node, Open, Base, Store, AddStore, IteArr, LoopArr, Write
import execu
import arrays
from execu import State, Ptr, PtrIte, Obj, Dead, veq, StrLit, FuncRef, StructVal

_ln = [0]


class Poison:
    def __init__(self, what):
        self.what = what

    def vsubst(self, m):
        return self


class Start(Node):
    """array at the beginning of iteration t when iterations do not interfere: reads see the pre-loop value"""
    __slots__ = ('base',)

    def __init__(self, base):
        self.init(None, base.rank, base.sort)
        self.base = base

    def _read(self, idx, pc):
        return self.base.read(idx, pc)

    def subst(self, m, memo):
        return self


def terms_in_value(v, out):
    """collect all terms inside a value"""
    if isinstance(v, T):
        out.append(v)
    elif isinstance(v, Ptr):
        out.extend(p for p in v.path if isinstance(p, T))
    elif isinstance(v, PtrIte):
        out.append(v.c)
        terms_in_value(v.a, out)
        terms_in_value(v.b, out)
    elif isinstance(v, Node):
        seen = set()
        st = [v]
        while st:
            n = st.pop()
            if id(n) in seen:
                continue
            seen.add(id(n))
            if isinstance(n, arrays.Named):
                n = n.inner
            if isinstance(n, (Store, AddStore)):
                out.extend(n.idx)
                terms_in_value(n.val, out)
            elif isinstance(n, IteArr):
                out.append(n.c)
                st += [n.a, n.b]
            elif isinstance(n, LoopArr):
                for w in n.writes:
                    out.append(w.guard)
                    out.extend(w.idx)
                    out.extend(w.n)
                    terms_in_value(w.val, out)
            elif isinstance(n, Base):
                out.extend(n.pre)
            if n.prev is not None:
                st.append(n.prev)


def bound_ranges(v, out):
    """ranges of the bound variables of quantified writes inside an array value"""
    seen = set()
    st = [v]
    while st:
        n = st.pop()
        if not isinstance(n, Node) or id(n) in seen:
            continue
        seen.add(id(n))
        if isinstance(n, LoopArr):
            for w in n.writes:
                for b, m in zip(w.bv, w.n):
                    out[b.val] = (b, m)
        if isinstance(n, IteArr):
            st += [n.a, n.b]
        if n.prev is not None:
            st.append(n.prev)


def open_reads(vals, prefix):
    """(array symbol, index, range conditions of sum binders) of every read of an open array"""
    out = []
    seen = set()

    def go(x, rng):
        stk = [x]
        while stk:
            y = stk.pop()
            if (y, rng) in seen:
                continue
            seen.add((y, rng))
            if y.op == 'sum':
                stk.append(y.args[1])
                bv, n, body = open_sum(y)
                go(body, rng + (le(I(0), bv), lt(bv, n)))
                continue
            if y.op == 'f' and y.val.startswith(prefix):
                out.append((y.val, y.args, rng))
            stk.extend(y.args)
    for v in vals:
        go(v, ())
    return out


def open_reads_guarded(pairs, prefix, limit=4000):
    """like open_reads, but each read comes with the conditions under which it matters; None when too large"""
    out = []
    seen = set()
    cnt = [0]
    hm = {}

    def has(y):
        r = hm.get(y)
        if r is None:
            r = hm[y] = (y.op == 'f' and y.val.startswith(prefix)) or any(has(a) for a in y.args)
        return r

    def own(g):
        return any(x.op == 'f' and x.val.startswith('open@') for x in subterms([g]))

    def go(y, rng):
        if (y, rng) in seen:
            return
        seen.add((y, rng))
        cnt[0] += 1
        if cnt[0] > limit:
            raise OverflowError
        if not has(y):
            return
        if y.op == 'sum':
            go(y.args[1], rng)
            bv, n, body = open_sum(y)
            go(body, rng + (le(I(0), bv), lt(bv, n)))
            return
        if y.op == 'ite':
            c, a, b = y.args
            go(c, rng)
            if own(c):
                go(a, rng)
                go(b, rng)
            else:
                go(a, rng + (c,))
                go(b, rng + (not_(c),))
            return
        if y.op in ('and', 'or'):
            # an operand matters only while the others do not decide the result
            pure = tuple(a if y.op == 'and' else not_(a) for a in y.args if not own(a))
            for a in y.args:
                if has(a):
                    go(a, rng + pure)
            return
        if y.op == 'f' and y.val.startswith(prefix):
            out.append((y.val, y.args, rng))
        for a in y.args:
            go(a, rng)
    try:
        for v, g in pairs:
            go(v, g)
    except (OverflowError, RecursionError):
        return None
    return out


def flatten(node, stop):
    if node is stop:
        return []
    if isinstance(node, Store):
        return flatten(node.prev, stop) + [Write((), (), TRUE, node.idx, node.val, 'set')]
    if isinstance(node, AddStore):
        return flatten(node.prev, stop) + [Write((), (), TRUE, node.idx, node.val, 'add')]
    if isinstance(node, arrays.Named):
        return flatten(node.inner, stop)
    if isinstance(node, LoopArr):
        return flatten(node.prev, stop) + list(node.writes)
    if isinstance(node, IteArr):
        if node.prev is None:
            raise Unsupported('array merge without common ancestor')
        out = flatten(node.prev, stop)
        for g, x in ((node.c, node.a), (not_(node.c), node.b)):
            for w in flatten(x, node.prev):
                out.append(Write(w.bv, w.n, and_(g, w.guard), w.idx, w.val, w.kind))
        return out
    raise Unsupported('flatten %s' % type(node).__name__)


def sdelta(out, xin):
    if xin.val not in out.fv:
        return None
    if out.op == 'ite':
        if xin.val in out.args[0].fv:
            return None
        a, b = out.args[1], out.args[2]
        da = const(0, xin.sort) if a is xin else sdelta(a, xin)
        db = const(0, xin.sort) if b is xin else sdelta(b, xin)
        if da is None or db is None:
            return None
        return ite(out.args[0], da, db)
    d = sub(out, xin)
    if xin.val in d.fv:
        # nested ites inside sums:  xin + ite(..)
        return None
    return d


def depends(t, names):
    return not names.isdisjoint(t.fv)


def solve_trip(c, t, pc):
    """number of iterations T such that c(s) holds exactly for s < T (c monotone in t); None if not solvable"""
    if c is TRUE:
        return None
    if c.op == 'lt' and c.args[0].sort == 'I':
        d = sub(c.args[1], c.args[0])
    elif c.op in ('not',) and c.args[0].op == 'eq' and c.args[0].args[0].sort == 'I':
        e = sub(c.args[0].args[0], c.args[0].args[1])
        ln = lin_in(e, t)
        if ln is None or not isc(ln[0]) or ln[0].val not in (1, -1):
            return None
        d = e if ln[0].val == -1 else neg(e)
        d0 = lin_in(d, t)[1]
        if valid(pc, le(I(0), d0), 1.0):
            return d0
        return None
    elif c.op in ('lt', 'le') and c.args[0].sort == 'R':
        return None
    else:
        return None
    ln = lin_in(d, t)
    if ln is None:
        return None
    k, d0 = ln
    if t.val in d0.fv or not isc(k) or k.val >= 0:
        return None
    m = -k.val
    # d0 - m*s > 0
    if m == 1:
        T_ = d0
    else:
        T_ = idiv(add(d0, I(m - 1)), I(m))
        if valid(pc, le(I(0), d0), 1.0):
            return T_
        return ite(lt(I(0), d0), T_, I(0))
    if valid(pc, le(I(0), d0), 1.0):
        return T_
    return ite(lt(I(0), d0), T_, I(0))


def reg_range(t, n):
    FACTS[t.val] = lambda a, t=t, n=n: [le(I(0), t), lt(t, n)]
    solver._factmemo.pop(t, None)


class Ctx:
    pass


def summarise(ex, node, cond, inc, body, st0):
    _ln[0] += 1
    L = _ln[0]
    t = var('t@%d' % L, 'I')
    outer = tuple(ex.loopstack)
    emit = ex.emit
    W = {}
    cache = ex.loopW.setdefault(id(node), set())
    oid0 = execu._oid[0]

    def entry(arrays=None, scalars=None):
        s = st0.copy()
        for k in W:
            v = st0.mem.get(k)
            if isinstance(v, Node):
                s.mem[k] = arrays[k] if arrays and k in arrays else Open('open@%d@%s' % (L, kname(ex, k)), v.rank, v.sort)
            elif isinstance(v, T):
                s.mem[k] = scalars[k] if scalars and k in scalars else var('in@%d@%s' % (L, kname(ex, k)), v.sort)
            else:
                s.mem[k] = Poison(k)
        return s

    def run(s):
        ex.loopstack.append(t)
        try:
            try:
                c = ex.cond(cond, s) if cond is not None else TRUE
            except Dead:
                c = FALSE
            c = ex.feasible(s, c)
            at = dict(s.mem)
            if c is not TRUE:
                s.assume(c)
            mark = len(s.pc)
            o = ex.exec_stmt(body, s)
            e = ex.merge(o.get('n'), o.get('c'))
            if e is not None and inc is not None:
                ex.eval(inc, e)
            return c, e, o.get('b'), o.get('r', []), mark, at
        finally:
            ex.loopstack.pop()

    pre = {}
    preN = None

    def discover(states, ent):
        new = False
        for x in states:
            for k, v in x.mem.items():
                if k[0] > oid0 or k[0] == -1:
                    continue
                if k[1] == '*':
                    continue
                if k in ent:
                    if ent[k] is v or veq(ent[k], v):
                        continue
                    if isinstance(v, Poison):
                        continue
                else:
                    init = None
                    ob = ex.objs.get(k[0])
                    if isinstance(v, (Node, T)):
                        init = ex.init_like(st0, ob, k[1], v)
                    if isinstance(v, Base) and not str(v.name).startswith('cheap@') or v is init or not isinstance(v, (Node, T)):
                        # merely materialised (or pointer to lazily created object)
                        if k not in st0.mem:
                            st0.mem[k] = v
                        continue
                    if isinstance(v, Node):
                        root = v
                        while root.prev is not None:
                            root = root.prev
                        init = root if isinstance(root, Base) and not root.name.startswith('cheap@') else init
                    if init is None:
                        raise Unsupported('loop modifies unknown location')
                    st0.mem[k] = init
                if k not in W:
                    W[k] = 1
                    new = True
        return new

    ex.emit = False
    cheap0 = arrays.CHEAP[0]
    try:
        for k in cache:
            if k in st0.mem and k[1] != '*':
                W[k] = 1
        arrays.CHEAP[0] = True
        for rnd in range(14):
            s = entry(None, {k: f(t) for k, f in pre.items()})
            ent = dict(s.mem)
            base_pc = s.pc + (le(I(0), t),)
            if preN is not None:
                base_pc = base_pc + (lt(t, preN),)
            s.pc = base_pc
            c, e, brk, rets, mark, at = run(s)
            states = [x for x in [e, brk] + [r[0] for r in rets] if x is not None]
            if not states:
                # body never completes normally
                break
            if discover(states, ent):
                continue
            if arrays.CHEAP[0] and not cheap0:
                # affine counters are known now; continue with exact reads
                arrays.CHEAP[0] = False
                if e is not None:
                    own = 'in@%d@' % L
                    for k in W:
                        x0, o = st0.mem.get(k), e.mem.get(k)
                        if not isinstance(x0, T) or not isinstance(o, T):
                            continue
                        xi = var('in@%d@%s' % (L, kname(ex, k)), x0.sort)
                        if xi.val not in o.fv:
                            continue
                        d = sub(o, xi)
                        if any(n.startswith(own) or n == t.val for n in d.fv) or any(
                                x.op == 'f' and (x.val.startswith('open@%d@' % L) or x.val.startswith('cheap@')) for x in subterms([d])):
                            continue
                        pre[k] = lambda tt, x0=x0, d=d: add(x0, mul(toR(tt) if x0.sort == 'R' else tt, d))
                    if c is not TRUE and c is not FALSE:
                        m = {var('in@%d@%s' % (L, kname(ex, k)), st0.mem[k].sort): f(t) for k, f in pre.items()}
                        cc = subst(c, m)
                        if not any(n.startswith(own) for n in cc.fv) and not any(x.op == 'f' and (x.val.startswith('open@%d@' % L) or x.val.startswith('cheap@')) for x in subterms([cc])):
                            preN = solve_trip(cc, t, st0.pc)
                            if preN is not None:
                                reg_range(t, preN)
                continue
            break
        else:
            raise Unsupported('loop write-set does not stabilise')
        cache |= set(W)
    finally:
        ex.emit = emit
        arrays.CHEAP[0] = cheap0

    if cheap0 and states:
        # only the write set matters to the enclosing pass: havoc
        s = st0.copy()
        tag = 'cheap@%d' % L
        for k in W:
            v = st0.mem[k]
            if isinstance(v, Node):
                if v.sort == 'P':
                    s.mem[k] = v
                else:
                    s.mem[k] = Base(tag + kname(ex, k), v.rank, v.sort, None, outer)
            elif isinstance(v, T):
                s.mem[k] = app(tag + kname(ex, k), outer, v.sort)
            else:
                s.mem[k] = Poison(k)
        out = {'n': s}
        if rets:
            h = eq(app(tag + 'how', outer, 'I'), I(0))
            for i, r in enumerate(rets):
                b = s.copy()
                b.assume(eq(app(tag + 'how', outer, 'I'), I(i + 1)))
                val = r[1]
                if isinstance(val, T):
                    val = app(tag + 'ret%d' % i, outer, val.sort)
                out.setdefault('r', []).append((b, val))
            s.assume(h)
        return out

    if not states:
        # the body always aborts: only the zero-iteration path survives
        s = st0.copy()
        cc = ex.cond(cond, s) if cond is not None else TRUE
        if c is not FALSE and emit:
            # re-run once emitting so that the abort obligation is recorded
            s2 = entry()
            run(s2)
        s.assume(not_(cc))
        if cc is TRUE:
            return {}
        return {'n': s}

    # ---------------- scalars
    sk = [k for k in W if isinstance(st0.mem[k], T)]
    ak = [k for k in W if isinstance(st0.mem[k], Node)]
    pk = [k for k in W if k not in sk and k not in ak]
    xin = {k: var('in@%d@%s' % (L, kname(ex, k)), st0.mem[k].sort) for k in sk}
    xout = {}
    for k in sk:
        xout[k] = e.mem[k] if e is not None else xin[k]
        if not isinstance(xout[k], T):
            raise Unsupported('scalar became non-term')
    innames = {xin[k].val: k for k in sk}
    closed = dict(pre)      # k -> function(tt term) -> value at the start of iteration tt
    kinds = {k: 'affine' for k in pre}
    hasbrk = brk is not None or bool(rets)

    def unres(tm_):
        return [innames[n] for n in tm_.fv if n in innames and innames[n] not in closed]

    def sub_res(tm_, tt):
        m = {xin[k]: closed[k](tt) for k in closed if xin[k].val in tm_.fv}
        m[t] = tt
        return subst(tm_, m)

    opens = tuple('open@%d@' % L)

    def has_own_open(tm_):
        for x in subterms([tm_]):
            if x.op == 'f' and x.val.startswith('open@%d@' % L):
                return True
        return False

    # usage of x_in anywhere else
    def used_elsewhere(k):
        nm = xin[k].val
        vals = []
        for kk in W:
            if e is not None and kk is not k:
                terms_in_value(e.mem[kk], vals)
        vals.append(c)
        for x in ([e] if e is not None else []) + ([brk] if brk is not None else []) + [r[0] for r in rets]:
            vals += [p for p in x.pc[len(st0.pc):]]
        for x in ([brk] if brk is not None else []) + [r[0] for r in rets]:
            for kk in W:
                terms_in_value(x.mem[kk], vals)
        for r in rets:
            if r[1] is not None:
                terms_in_value(r[1], vals)
        return any(nm in v.fv for v in vals)

    dead = set()
    pend = [k for k in sk if k not in pre]

    def close_scalars():
        progress = True
        while progress and pend:
            progress = False
            for k in list(pend):
                o = xout[k]
                x0 = st0.mem[k]
                xi = xin[k]
                if has_own_open(o):
                    continue
                others = [u for u in unres(o) if u != k]
                if others:
                    continue
                if xi.val not in o.fv:
                    # value fixed by the (previous) iteration
                    f = o

                    def cl(tt, f=f, x0=x0):
                        prev = sub(tt, I(1))
                        if isc(tt) and tt.val == 0:
                            return x0
                        return ite(lt(I(0), tt), sub_res(f, prev), x0)
                    closed[k] = cl
                    kinds[k] = 'last'
                    if not used_elsewhere(k):
                        dead.add(k)
                else:
                    d = sdelta(o, xi)
                    if d is not None:
                        ds = sub_res(d, t)
                        if t.val not in ds.fv:
                            def cl(tt, ds=ds, x0=x0):
                                return add(x0, mul(toR(tt) if x0.sort == 'R' else tt, ds))
                            closed[k] = cl
                            kinds[k] = 'affine'
                        else:
                            def cl(tt, ds=ds, x0=x0):
                                bv = fresh('sb', 'I')
                                return add(x0, mksum(bv, tt, subst(ds, {t: bv}), x0.sort))
                            closed[k] = cl
                            kinds[k] = 'sum'
                    else:
                        cl = match_ite(ex, L, k, o, xi, x0, t, outer, sub_res)
                        if cl is None and not used_elsewhere(k):
                            cl = opaque_scalar(ex, L, k, x0, outer, node)
                            dead.add(k)
                        if cl is None:
                            continue
                        closed[k] = cl
                        kinds[k] = 'ite'
                pend.remove(k)
                progress = True

    close_scalars()

    # ---------------- trip count
    cc = sub_res(c, t) if not unres(c) else None
    if preN is not None:
        N = preN
    else:
        N = solve_trip(cc, t, st0.pc) if cc is not None and not has_own_open(cc) else None
    if N is None and cc is not None and cc.op == 'and':
        pass
    opaqueT = N is None or hasbrk
    if N is not None:
        reg_range(t, N)
    # opaque scalars
    opq = list(pend)
    for k in opq:
        closed[k] = opaque_scalar(ex, L, k, st0.mem[k], outer, node)
        kinds[k] = 'opaque'
    if opq and not any(has_own_open(xout[k]) for k in opq):
        houdini(ex, L, opq, st0, xin, xout, sub_res, t, N, outer, c, base_pc, e)
        opq = []
    cc = sub_res(c, t)
    if opaqueT:
        Tn = 'T@%d' % L
        TT = app(Tn, outer, 'I') if outer else var(Tn, 'I')
        if N is not None:
            FACTS[Tn] = lambda a, TT=TT, N=N, outer=outer: [subst(le(I(0), TT), dict(zip(outer, a))), subst(le(TT, N), dict(zip(outer, a)))]
        else:
            FACTS[Tn] = lambda a, TT=TT, outer=outer: [subst(le(I(0), TT), dict(zip(outer, a)))]
            FACTS[t.val] = lambda a, t=t, TT=TT: [le(I(0), t), le(t, TT)]
            solver._factmemo.pop(t, None)
    else:
        TT = N
    rng = (le(I(0), t),) + ((lt(t, N),) if N is not None else ((le(t, TT),)))

    # ---------------- arrays
    amode = {}
    if e is not None:
        astates = [e] + ([brk] if brk is not None else []) + [r[0] for r in rets]
        vals = []
        for x in astates:
            for kk in W:
                terms_in_value(x.mem[kk], vals)
            vals += list(x.pc[len(st0.pc):])
        vals.append(c)
        vals = [sub_res(v, t) for v in set(vals)]
        oreads = {}
        brs = {}
        for x in astates:
            for kk in W:
                if isinstance(x.mem[kk], Node):
                    bound_ranges(x.mem[kk], brs)
        def by_array(reads):
            res = {}
            for nm, args, rg in reads:
                todo, have = set().union(*[a.fv for a in args]), set()
                while todo:
                    b = todo.pop()
                    if b in brs and b not in have:
                        have.add(b)
                        n_ = sub_res(brs[b][1], t)
                        rg = rg + (le(I(0), brs[b][0]), lt(brs[b][0], n_))
                        todo |= n_.fv
                if (args, rg) not in res.setdefault(nm, []):
                    res[nm].append((args, rg))
            return res
        oreads = by_array(open_reads(vals, 'open@%d@' % L))
        gr = []

        def guarded(nm):
            if not gr:
                pairs = []
                for x in astates:
                    for kk in W:
                        v = x.mem[kk]
                        try:
                            ws_ = flatten(v, ent[kk]) if isinstance(v, Node) else None
                        except Unsupported:
                            ws_ = None
                        if ws_ is None:
                            o_ = []
                            terms_in_value(v, o_)
                            pairs += [(sub_res(y, t), ()) for y in o_]
                            continue
                        for w in ws_:
                            g = sub_res(w.guard, t)
                            gg = () if any(y.op == 'f' and y.val.startswith('open@') for y in subterms([g])) else (g,)
                            o_ = []
                            terms_in_value(w.val, o_)
                            pairs += [(g, ())] + [(sub_res(y, t), gg) for y in o_ + list(w.idx) + list(w.n)]
                    pairs += [(sub_res(y, t), ()) for y in x.pc[len(st0.pc):]]
                pairs.append((sub_res(c, t), ()))
                r_ = open_reads_guarded(pairs, 'open@%d@' % L)
                gr.append(None if r_ is None else by_array(r_))
            return None if gr[0] is None else gr[0].get(nm, [])
        hy = st0.pc + rng
        for k in ak:
            opn = ent[k]
            try:
                ws = flatten(e.mem[k], opn)
                wsb = []
                for x in astates[1:]:
                    wsb += flatten(x.mem[k], opn)
            except Unsupported:
                amode[k] = ('opaque', None)
                continue
            rds = oreads.get(opn.name, [])
            amode[k] = classify(ex, k, ws, wsb, rds, t, hy, sub_res, rng, N, TT, lambda nm=opn.name: guarded(nm))
            if amode[k][0] == 'opaque' and not wsb:
                opaque_facts(ex, L, k, ws, st0, outer, t, TT)
    if opq:
        # scalars that read arrays written by the loop: retry once the arrays are known not to interfere
        arrs = {k: Start(st0.mem[k]) for k in ak if amode.get(k, ('',))[0] in ('map', 'const')}
        if arrs and any(has_own_open(xout[k]) for k in opq):
            ex.emit = False
            try:
                s = entry(arrs, {k: closed[k](t) for k in sk if k not in opq})
                s.pc = st0.pc + rng
                _, e2, _, _, _, _ = run(s)
            finally:
                ex.emit = emit
            if e2 is not None:
                for k in opq:
                    if isinstance(e2.mem[k], T):
                        xout[k] = e2.mem[k]
                    del closed[k]
                pend = list(opq)
                close_scalars()
                opq = pend
                for k in opq:
                    closed[k] = opaque_scalar(ex, L, k, st0.mem[k], outer, node)
                e_ = e2
            else:
                e_ = e
        else:
            e_ = e
        if opq:
            houdini(ex, L, opq, st0, xin, xout, sub_res, t, N, outer, c, base_pc, e_)
    ex.loops_info.append((ex.frames[-1]['name'], ex.frames[-1].get('line'), {kname(ex, k): kinds.get(k) for k in sk},
                          {kname(ex, k): amode[k][0] for k in ak if k in amode}, repr(TT)))

    # ---------------- final pass with the invariants in place
    scal = {k: (xin[k] if k in dead else closed[k](t)) for k in sk}
    arrs = {}
    for k in ak:
        m = amode.get(k, ('opaque', None))[0]
        base = st0.mem[k]
        if m in ('map', 'const'):
            arrs[k] = Start(base)
        elif m == 'rec':
            tb = fresh('t@', 'I')
            wr = []
            for i, w in enumerate(amode[k][1]):
                nm = 'rec@%d@%s@%d' % (L, kname(ex, k), i)
                w2 = w.rename()
                mm = {t: tb}
                wr.append(Write((tb,) + w2.bv, (t,) + tuple(subst(x, mm) for x in w2.n), subst(w2.guard, mm),
                                [subst(x, mm) for x in w2.idx], app(nm, outer + (tb,) + w2.bv, base.sort), 'set'))
            arrs[k] = LoopArr(base, wr)
        elif m == 'add':
            arrs[k] = Open('open@%d@%s' % (L, kname(ex, k)), base.rank, base.sort)
        else:
            if base.sort == 'P':
                raise Unsupported('pointer array havocked')
            arrs[k] = Base('arr@%d@%s' % (L, kname(ex, k)), base.rank, base.sort, None, outer + (t,))
    s = entry(arrs, scal)
    s.pc = st0.pc + rng
    ent = dict(s.mem)
    c, e, brk, rets, mark, at = run(s)

    # heap objects created in the iteration survive as families
    heapk = []
    if e is not None:
        for k, v in e.mem.items():
            if k[0] > oid0 and k[1] != '*':
                ob = ex.objs.get(k[0])
                if ob is not None and getattr(ob, 'pre', 0) > len(outer) and isinstance(v, Node):
                    heapk.append(k)

    recvals = {}
    for k in ak:
        if amode.get(k, ('',))[0] == 'rec':
            if e is None:
                raise Unsupported('recurrence without normal exit')
            recvals[k] = close_rec(ex, L, k, ent[k], e, t, outer, rng, st0)

    def exit_mem(tt, guardT):
        """memory after tt completed iterations"""
        mem = dict(st0.mem)
        for k in sk:
            mem[k] = closed[k](tt)
        for k in pk:
            v = e.mem[k] if e is not None else None
            vals = []
            if v is not None and not isinstance(v, Poison):
                terms_in_value(v, vals)
            if v is not None and not isinstance(v, Poison) and all(t.val not in x.fv for x in vals) and valid(st0.pc, lt(I(0), tt), 1.0):
                mem[k] = v
            else:
                mem[k] = Poison(k)
        for k in ak + heapk:
            base = st0.mem.get(k)
            if e is None:
                continue
            m = amode.get(k, ('map' if k in heapk else 'opaque', None))[0]
            if m == 'rec':
                if len(recvals[k]) == 0:
                    mem[k] = base
                    continue
                out = []
                for w, f in recvals[k]:
                    tb = fresh('t@', 'I')
                    w2 = w.rename()
                    mm = {t: tb}
                    out.append(Write((tb,) + w2.bv, (tt,) + tuple(subst(x, mm) for x in w2.n), subst(w2.guard, mm),
                                     [subst(x, mm) for x in w2.idx], f(tb, w2.bv), 'set'))
                mem[k] = LoopArr(base, out)
                continue
            if m in ('map', 'add', 'const') or k in heapk:
                root = ent.get(k)
                if k in heapk:
                    root = e.mem[k]
                    while root.prev is not None:
                        root = root.prev
                    base = root
                ws = flatten(e.mem[k], root)
                if m == 'const':
                    out = base
                    for w in ws:
                        last = sub(tt, I(1))
                        mm = {t: last}
                        w2 = w.subst(mm, {})
                        out = LoopArr(out, [Write(w2.bv, w2.n, and_(lt(I(0), tt), w2.guard), w2.idx, w2.val, 'set')])
                    mem[k] = out
                    continue
                out = []
                for w in ws:
                    if m == 'add' and w.kind != 'add':
                        raise Unsupported('add/set mismatch')
                    # rename the iteration variable so that the write set is closed
                    tb = fresh('t@', 'I')
                    mm = {t: tb}
                    out.append(Write((tb,) + w.bv, (tt,) + tuple(subst(x, mm) for x in w.n), subst(w.guard, mm),
                                     [subst(i, mm) for i in w.idx], vsubst(w.val, mm, {}), w.kind))
                mem[k] = LoopArr(base, out) if out else base
                nt = ex.opts.get('name')
                if nt and out and not outer and m == 'map' and base.sort != 'P' and not arrays.CHEAP[0]:
                    vs_ = []
                    terms_in_value(mem[k], vs_)
                    if len(subterms(vs_)) > nt:
                        mem[k] = arrays.Named(mem[k], 'def!%d!%s' % (L, kname(ex, k)))
            else:
                mem[k] = Base('arr@%d@%s' % (L, kname(ex, k)), base.rank, base.sort, None, outer + (tt,))
        return mem

    out = {}
    nstate = State(exit_mem(TT, None), st0.pc)
    cexit = sub_res(cc, TT) if cond is not None else TRUE
    if not opaqueT:
        nstate.assume(le(I(0), TT))
        out['n'] = nstate
    else:
        how = app('how@%d' % L, outer, 'I') if outer else var('how@%d' % L, 'I')
        nexits = (1 if brk is not None else 0) + len(rets)
        states_ = []
        if c is not TRUE or cond is not None:
            if N is not None:
                nstate.assume(eq(TT, N))
            else:
                nstate.assume(not_(cexit))
            if nexits:
                nstate.assume(eq(how, I(0)))
            if FALSE not in nstate.pc:
                out['n'] = nstate
        idx = 1
        exits = ([(brk, None, 'b')] if brk is not None else []) + [(r[0], r[1], 'r') for r in rets]
        m = {t: TT}
        for xs, val, kd in exits:
            mem = exit_mem(TT, None)
            memo = {}
            for k in ak:
                memo[id(ent[k])] = (ent[k], mem[k])
            for k, v in xs.mem.items():
                if k[0] > oid0 and k not in heapk:
                    continue
                if k in W:
                    mem[k] = asubst(v, m, memo) if isinstance(v, Node) else vsubst(v, m)
                elif k == (-1, ('ret',)):
                    mem[k] = vsubst(v, m)
            b = State(mem, st0.pc)
            # the literal that selects this exit comes first
            others = [ne(how, I(j)) for j in range(0, idx)]
            if idx < nexits:
                b.assume(eq(how, I(idx)))
            else:
                # complement of all the previous ones
                b.assume(and_(*others))
            idx += 1
            if N is not None:
                b.assume(lt(TT, N))
            elif cond is not None:
                b.assume(cexit)
            for p in xs.pc[len(st0.pc):]:
                b.assume(subst(p, m))
            if kd == 'b':
                out['n'] = ex.merge(out.get('n'), b) if out.get('n') is not None else b
            else:
                out.setdefault('r', []).append((b, vsubst(val, m) if val is not None else None))
    return out


def constants_written(ws):
    cs = set()
    for w in ws:
        if w.kind != 'set' or not isinstance(w.val, T):
            return None
        st = [w.val]
        while st:
            v = st.pop()
            if v.op == 'ite':
                st += v.args[1:]
            elif isc(v):
                cs.add(v)
            else:
                return None
    return cs if len(cs) <= 6 else None


def footprint(ws, cell, t, TT):
    """condition (an over-approximation, guards ignored) for one of the writes to touch a cell in some iteration"""
    hs = []
    for w in ws:
        w2 = Write(w.bv + (t,), w.n + (TT,), TRUE, w.idx, I(0), 'set')
        sol, un, c = arrays.unify(w2, cell, (), True)
        if sol is None or any(v.val in c.fv for v in un) or any(y.op == 'f' and y.val.startswith('open@') for y in subterms([c])):
            return None
        hs.append(c)
    return or_(*hs)


def opaque_facts(ex, L, k, ws, st0, outer, t, TT):
    """a havocked array: a cell outside the footprint of the writes keeps its value; where only constants are
    written each cell keeps its value or holds one of them"""
    cs = constants_written(ws)
    base = st0.mem[k]
    nm = 'arr@%d@%s' % (L, kname(ex, k))
    n = len(outer)
    cell = tuple(fresh('cell', 'I') for _ in range(base.rank))
    try:
        fp = footprint(ws, cell, t, TT)
    except Unsupported:
        fp = None
    if cs is None and fp is None:
        return

    def facts(a):
        x = app(nm, a, base.sort)
        b = base.read(a[n + 1:], ())
        while True:
            bb = arrays.expand_defs([b])
            if bb is None:
                break
            b = bb[0]
        m = dict(zip(outer, a[:n]))
        if n:
            b = subst(b, m)
        out = []
        if cs is not None:
            out.append(or_(eq(x, b), *[eq(x, c) for c in cs]))
        if fp is not None:
            out.append(or_(eq(x, b), subst(subst(fp, m) if n else fp, dict(zip(cell, a[n + 1:])))))
        return out
    FACTS[nm] = facts


def close_rec(ex, L, k, entry, e, t, outer, rng, st0):
    """recurrence over iterations: unfolding equations and, when the step is an increment, a closed form"""
    ws = flatten(e.mem[k], entry)
    out = []
    srt = st0.mem[k].sort
    for i, w in enumerate(ws):
        nm = 'rec@%d@%s@%d' % (L, kname(ex, k), i)
        if not isinstance(w.val, T):
            raise Unsupported('recurrence of pointers')
        me = app(nm, outer + (t,) + w.bv, srt)
        val = toR(w.val) if srt == 'R' else w.val
        prev = app(nm, outer + (sub(t, I(1)),) + w.bv, srt)
        hyp = st0.pc + rng + tuple(w.rng()) + ((w.guard,) if w.guard is not TRUE else ())
        cf = None
        # value for t >= 1 and for t = 0
        v1 = simp_under(val, hyp + (le(I(1), t),))
        X = fresh('rx', srt)
        v1x = subst(v1, {prev: X})
        isrec = lambda x: any(y.op == 'f' and y.val.startswith('rec@%d@%s@' % (L, kname(ex, k))) for y in subterms([x]))
        if X.val in v1x.fv and t.val not in w.guard.fv:
            d = sdelta(v1x, X)
            if d is not None and not isrec(d):
                v0 = simp_under(subst(val, {t: I(0)}), st0.pc + tuple(subst(x, {t: I(0)}) for x in w.rng()))
                if not isrec(v0):
                    if t.val not in d.fv:
                        def cf(tb, bv, d=d, v0=v0, w=w, srt=srt):
                            m = dict(zip(w.bv, bv))
                            return add(subst(v0, m), mul(toR(tb) if srt == 'R' else tb, subst(d, m)))
                    else:
                        def cf(tb, bv, d=d, v0=v0, w=w, srt=srt):
                            m = dict(zip(w.bv, bv))
                            b = fresh('sb', 'I')
                            return add(subst(v0, m), mksum(b, tb, subst(subst(d, m), {t: add(b, I(1))}), srt))
        ex.notes.setdefault('rec', []).append((nm, cf is not None))
        if cf is None:
            cond = and_(*(list(rng) + w.rng() + [w.guard]))
            fact = implies(cond, eq(me, val))
            keys = outer + (t,) + w.bv

            def facts(a, fact=fact, keys=keys):
                return [subst(fact, dict(zip(keys, a)))]
            solver.RECF[nm] = facts

            def cf(tb, bv, nm=nm, srt=srt):
                return app(nm, outer + (tb,) + tuple(bv), srt)
        else:
            # the symbol may also occur in other values of the body: give it its closed form
            keys = outer + (t,) + w.bv

            def facts(a, cf=cf, nm=nm, srt=srt, keys=keys, n=len(outer)):
                m = dict(zip(outer, a[:n]))
                return [eq(app(nm, a, srt), subst(cf(a[n], a[n + 1:]), m))]
            FACTS[nm] = facts
        out.append((w, cf))
    return out


def simp_under(v, hyp):
    """decide the conditions of ites under hyp"""
    for _ in range(30):
        cs = [x.args[0] for x in subterms([v], into_sums=False) if x.op == 'ite']
        hit = False
        for c in cs:
            if valid(hyp, c, 0.5):
                v = solver.assume_in(v, c, True)
                hit = True
                break
            if valid(hyp, not_(c), 0.5):
                v = solver.assume_in(v, c, False)
                hit = True
                break
        if not hit:
            break
    return v


def kname(ex, k):
    ob = ex.objs.get(k[0])
    return '%s%s' % (ob.name if ob else k[0], '.'.join(k[1]) if k[1] != '*' else '')


def match_ite(ex, L, k, o, xi, x0, t, outer, sub_res):
    """running max/min and conditional last assignment"""
    if o.op != 'ite':
        return None
    c, a, b = o.args
    if b is xi:
        v, g = a, c
    elif a is xi:
        v, g = b, not_(c)
    else:
        return None
    if xi.val in v.fv:
        return None
    lits = list(g.args) if g.op == 'and' else [g]
    dep = [l for l in lits if xi.val in l.fv]
    rest = and_(*[l for l in lits if xi.val not in l.fv])
    vt = sub_res(v, t)
    gt_ = sub_res(rest, t)
    tag = '%d@%s' % (L, kname(ex, k))
    for x in subterms([vt, gt_]):
        if x.op == 'f' and x.val.startswith('open@%d@' % L):
            return None
    if not dep:
        # last assignment
        ln, wn = 'hit@' + tag, 'lastw@' + tag

        def cl(tt):
            args = outer + (tt,)
            h = eq(app(ln, args, 'I'), I(1))
            w = app(wn, args, 'I')
            return ite(h, subst(vt, {t: w}), x0)

        def facts(a):
            m = dict(zip(outer, a[:-1]))
            h = eq(app(ln, a, 'I'), I(1))
            w = app(wn, a, 'I')
            g2 = subst(subst(gt_, m), {t: w})
            return [implies(h, and_(le(I(0), w), lt(w, a[-1]), g2)), implies(le(a[-1], I(0)), not_(h))]
        FACTS[ln] = facts

        def univ(a, s):
            m = dict(zip(outer, a[:-1]))
            h = eq(app(ln, a, 'I'), I(1))
            w = app(wn, a, 'I')
            return implies(and_(le(I(0), s), lt(s, a[-1]), subst(subst(gt_, m), {t: s})), and_(h, le(s, w)))
        solver.UNIV[ln] = univ
        return cl
    if len(dep) != 1:
        return None
    l = dep[0]
    if l.op not in ('lt', 'le'):
        return None
    p, q = l.args
    if p is xi and q is v:
        up = True
    elif q is xi and p is v:
        up = False
    else:
        # compare via difference
        d1 = sub(sub(q, p), sub(v, xi))
        d2 = sub(sub(q, p), sub(xi, v))
        if isc(d1) and d1.val == 0:
            up = True
        elif isc(d2) and d2.val == 0:
            up = False
        else:
            return None
    en, mn, wn = 'some@' + tag, 'ext@' + tag, 'extw@' + tag
    srt = xi.sort

    def cl(tt):
        args = outer + (tt,)
        h = eq(app(en, args, 'I'), I(1))
        M = app(mn, args, srt)
        return ite(and_(h, lt(x0, M) if up else lt(M, x0)), M, x0)

    def facts(a):
        m = dict(zip(outer, a[:-1]))
        h = eq(app(en, a, 'I'), I(1))
        M = app(mn, a, srt)
        w = app(wn, a, 'I')
        return [implies(h, and_(le(I(0), w), lt(w, a[-1]), subst(subst(gt_, m), {t: w}), eq(M, subst(subst(vt, m), {t: w})))),
                implies(le(a[-1], I(0)), not_(h))]
    FACTS[en] = facts

    def univ(a, s):
        m = dict(zip(outer, a[:-1]))
        h = eq(app(en, a, 'I'), I(1))
        M = app(mn, a, srt)
        vs = subst(subst(vt, m), {t: s})
        return implies(and_(le(I(0), s), lt(s, a[-1]), subst(subst(gt_, m), {t: s})), and_(h, le(vs, M) if up else le(M, vs)))
    solver.UNIV[en] = univ
    return cl


def opaque_scalar(ex, L, k, x0, outer, node):
    nm = 'opq@%d@%s' % (L, kname(ex, k))

    def cl(tt):
        if isc(tt) and tt.val == 0:
            return x0
        return app(nm, outer + (tt,), x0.sort)

    def facts(a):
        m = dict(zip(outer, a[:-1]))
        return [implies(eq(a[-1], I(0)), eq(app(nm, a, x0.sort), subst(x0, m)))]
    FACTS[nm] = facts
    ex.notes.setdefault('havocked', []).append(nm)
    return cl


def houdini(ex, L, pend, st0, xin, xout, sub_res, t, N, outer, c, base_pc, e):
    """sign/monotonicity candidates for scalars without closed form, checked inductively together"""
    cands = []
    for k in pend:
        x0 = st0.mem[k]
        z_ = const(0, x0.sort)
        for nm, f in (('ge0', lambda x, z_=z_: le(z_, x)), ('gt0', lambda x, z_=z_: lt(z_, x)), ('le0', lambda x, z_=z_: le(x, z_)),
                      ('gex0', lambda x, x0=x0: le(x0, x)), ('lex0', lambda x, x0=x0: le(x, x0)),
                      ('le1', lambda x, x0=x0: le(x, const(1, x0.sort)))):
            if valid(st0.pc, f(x0), 1.0):
                cands.append((k, f))
        for h in solver.HINTS:
            if x0.sort == 'R':
                for f in (lambda x, h=h: le(h, x), lambda x, h=h: le(x, h)):
                    if valid(st0.pc, f(x0), 1.0):
                        cands.append((k, f))
    if not cands or e is None:
        return
    own = {xin[k]: 1 for k in pend}

    def part(tm_):
        # substitute resolved scalars only; keep pending as in-symbols
        m = {}
        return tm_
    changed = True
    while changed and cands:
        changed = False
        hyp = [f(xin[k]) for k, f in cands]
        for (k, f) in list(cands):
            if not valid(tuple(base_pc) + tuple(e.pc[len(st0.pc):]) + tuple(hyp), f(xout[k]), 2.0):
                cands.remove((k, f))
                changed = True
                break
    for k, f in cands:
        nm = 'opq@%d@%s' % (L, kname(ex, k))
        old = FACTS.get(nm)

        def facts(a, old=old, f=f, nm=nm, srt=st0.mem[k].sort):
            m = dict(zip(outer, a[:-1]))
            return old(a) + [implies(le(I(0), a[-1]), subst(f(app(nm, a, srt)), m))]
        FACTS[nm] = facts


def neq_fast(h, a, b, t, tp):
    """a != b by splitting a-b = q*n + r with |r| < n, |q| >= 1"""
    if t.val not in a.fv and tp.val not in b.fv:
        return False
    ln = lin_in(a, t) if t.val in a.fv else lin_in(b, tp)
    if ln is None:
        return False
    n = ln[0]
    d = sub(a, b)
    if isc(n):
        if n.val < 0:
            n = neg(n)
        if isc(n) and n.val == 0:
            return False
        if n.val == 1:
            return False
    q, r = pdivide(d, n)
    if isc(q) and q.val == 0:
        return False
    h = [x for x in h]
    if valid(tuple(h), and_(le(I(1), q), lt(neg(n), r)), 1.0):
        return True
    if valid(tuple(h), and_(le(q, I(-1)), lt(r, n)), 1.0):
        return True
    return False


def ex_sort_ok(ws):
    return all(isinstance(w.val, T) for w in ws)


def classify(ex, k, ws, wsb, rds, t, hy, sub_res, rng, N, TT, guarded=None):
    """'map' (iterations do not interfere), 'add' (scatter-add), 'const' (same cells every iteration) or 'opaque'"""
    for w in ws + wsb:
        w.guard = sub_res(w.guard, t)
        w.idx = tuple(sub_res(i, t) for i in w.idx)
        w.n = tuple(sub_res(i, t) for i in w.n)
        if isinstance(w.val, T):
            w.val = sub_res(w.val, t)
    if not ws and not wsb:
        return ('map', None)
    tp = fresh('t@', 'I')
    rp = tuple(subst(x, {t: tp}) for x in rng)

    def prime(w):
        w2 = w.rename()
        return w2.subst({t: tp}, {})
    ok = True
    own = lambda g: not any(x.op == 'f' and x.val.startswith('open@') for x in subterms([g]))

    def dis(w1, w2p, order):
        h = list(hy) + list(rp) + [order] + w1.rng() + w2p.rng()
        for g in (w1.guard, w2p.guard):
            if own(g):
                h.append(g)
        if any(neq_fast(h, a, b, t, tp) for a, b in zip(w1.idx, w2p.idx)):
            return True
        g = or_(*[ne(a, b) for a, b in zip(w1.idx, w2p.idx)])
        if valid(tuple(h), g, 2.0):
            return True
        # both iterations write the same value: their order does not matter
        v1, v2 = w1.val, w2p.val
        if w1.kind == 'set' and w2p.kind == 'set' and isinstance(v1, T) and isinstance(v2, T) and own(v1) and own(v2) and own(w1.guard) and own(w2p.guard):
            return v1 is v2 or valid(tuple(h) + (idx_eq(w1.idx, w2p.idx),), eq(v1, v2), 2.0)
        return False
    allw = ws + wsb
    order = lt(tp, t)
    for i, w1 in enumerate(allw):
        for j, w2 in enumerate(allw):
            if j < i:
                # (w1 at t, w2 at t' < t) and (w1 at t', w2 at t): both orders are covered by i,j and j,i
                pass
            if not dis(w1, prime(w2), order):
                ok = False
                break
        if not ok:
            break
    if ok:
        def reads_ok(rds):
            for r, rrng in rds:
                for w in allw:
                    wp = prime(w)
                    h = list(hy) + list(rp) + [order] + wp.rng() + list(rrng)
                    if own(wp.guard):
                        h.append(wp.guard)
                    if any(neq_fast(h, a, b, t, tp) for a, b in zip(r, wp.idx)):
                        continue
                    if not valid(tuple(h), or_(*[ne(a, b) for a, b in zip(r, wp.idx)]), 2.0):
                        return False
            return True
        ok = reads_ok(rds)
        if not ok and guarded is not None:
            g = guarded()
            ok = g is not None and set(g) != set(rds) and reads_ok(g)
        if ok:
            return ('map', None)
        if not wsb and all(w.kind == 'set' for w in ws) and ex_sort_ok(ws) and all(own(w.guard) for w in ws) and all(own(i) for w in ws for i in w.idx + w.n):
            return ('rec', ws)
        return ('opaque', None)
    if all(w.kind == 'add' for w in allw) and not rds:
        if any(not own(w.guard) for w in allw):
            return ('opaque', None)
        return ('add', None)
    # same cells in every iteration, unconditional, no reads of earlier values
    if not rds and not wsb and all(w.kind == 'set' for w in ws) and \
            all(t.val not in i.fv for w in ws for i in w.idx) and all(t.val not in w.guard.fv for w in ws) and \
            all(t.val not in x.fv for w in ws for x in w.n):
        return ('const', None)
    return ('opaque', None)
