"""Functional array values as chains of nodes; reading produces terms."""
from terms import *
from solver import valid, FACTS
import solver
import fast


CHEAP = [False]     # write-set discovery pass: reads are approximated by opaque symbols


class Unsupported(Exception):
    pass


class Node:
    __slots__ = ('prev', 'depth', 'rank', 'sort', '_mem', '_tb')

    def init(self, prev, rank, sort):
        self.prev = prev
        self.rank = rank
        self.sort = sort
        self.depth = 0 if prev is None else prev.depth + 1
        self._mem = {}

    def read(self, idx, pc):
        if CHEAP[0] and self.sort != 'P' and isinstance(self, LoopArr):
            return app('cheap@r%d' % id(self), idx, self.sort)
        key = tuple(i.id for i in idx)
        # context dependent simplification: memo per pc identity
        k2 = (key, pc, CHEAP[0])
        r = self._mem.get(k2)
        if r is None:
            r = self._read(idx, pc)
            self._mem[k2] = r
        return r


def vite(c, a, b):
    """ite over values (terms or pointers)"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, T) and isinstance(b, T):
        return ite(c, a, b)
    from execu import PtrIte, Ptr, veq
    if veq(a, b):
        return a
    if isinstance(a, T) or isinstance(b, T):
        # undefined on one side
        if isinstance(a, T):
            return b
        return a
    return PtrIte(c, a, b)


class Base(Node):
    """uninterpreted or constant initial contents.  f(idx)->value"""
    __slots__ = ('name', 'f', 'pre')

    def __init__(self, name, rank, sort, f=None, pre=()):
        self.init(None, rank, sort)
        self.name = name
        self.f = f
        self.pre = tuple(pre)

    def _read(self, idx, pc):
        if self.f:
            return self.f(self.pre + tuple(idx))
        return app(self.name, self.pre + tuple(idx), self.sort)

    def subst(self, m, memo):
        pre = tuple(subst(p, m) for p in self.pre)
        if all(a is b for a, b in zip(pre, self.pre)):
            return self
        return Base(self.name, self.rank, self.sort, self.f, pre)


class Open(Node):
    """array contents at the start of an arbitrary iteration of a loop being summarised"""
    __slots__ = ('name',)

    def __init__(self, name, rank, sort):
        self.init(None, rank, sort)
        self.name = name

    def _read(self, idx, pc):
        if self.sort == 'P':
            raise Unsupported('read of pointer array modified in loop')
        return app(self.name, idx, self.sort)

    def subst(self, m, memo):
        return self


def idx_eq(a, b):
    return and_(*[eq(x, y) for x, y in zip(a, b)])


def decide(c, pc):
    """TRUE/FALSE if c is decided by pc, else c"""
    if c is TRUE or c is FALSE:
        return c
    if c in pc:
        return TRUE
    if not_(c) in pc:
        return FALSE
    if CHEAP[0]:
        return c
    k = (c, pc)
    r = _dec.get(k)
    if r is None:
        r = _dec[k] = _decide(c, pc)
    return r


_dec = {}
BRANCH = [0.5]     # seconds spent on deciding a branch condition while executing


def _decide(c, pc):
    n = not_(c)
    if fast.prove(pc, c):
        return TRUE
    if fast.prove(pc, n):
        return FALSE
    if fast.isint(c) and fast.both_ways(pc, c):
        return c
    if valid(pc, c, BRANCH[0]):
        return TRUE
    if valid(pc, n, BRANCH[0]):
        return FALSE
    return c


class Store(Node):
    __slots__ = ('idx', 'val')

    def __init__(self, prev, idx, val):
        self.init(prev, prev.rank, prev.sort)
        self.idx = tuple(idx)
        self.val = val

    def _read(self, idx, pc):
        c = decide(idx_eq(self.idx, idx), pc)
        if c is TRUE:
            return self.val
        r = self.prev.read(idx, pc)
        return r if c is FALSE else vite(c, self.val, r)

    def subst(self, m, memo):
        return Store(asubst(self.prev, m, memo), [subst(i, m) for i in self.idx], vsubst(self.val, m, memo))


class AddStore(Node):
    """prev with val added at idx"""
    __slots__ = ('idx', 'val')

    def __init__(self, prev, idx, val):
        self.init(prev, prev.rank, prev.sort)
        self.idx = tuple(idx)
        self.val = val

    def _read(self, idx, pc):
        r = self.prev.read(idx, pc)
        c = decide(idx_eq(self.idx, idx), pc)
        return add(r, ite(c, self.val, const(0, self.sort)))

    def subst(self, m, memo):
        return AddStore(asubst(self.prev, m, memo), [subst(i, m) for i in self.idx], subst(self.val, m))


class IteArr(Node):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        x, y = a, b
        while x is not y:
            if x is None or y is None:
                x = None
                break
            if x.depth >= y.depth:
                x = x.prev
            else:
                y = y.prev
            if x is None or y is None:
                x = None
                break
        self.init(x, a.rank, a.sort if a.sort == b.sort else ('R' if 'R' in (a.sort, b.sort) else a.sort))
        self.depth = max(a.depth, b.depth) + 1
        self.c, self.a, self.b = c, a, b

    def _read(self, idx, pc):
        c = decide(self.c, pc) if self.c.sh == 0 else self.c
        if c is TRUE:
            return self.a.read(idx, pc)
        if c is FALSE:
            return self.b.read(idx, pc)
        return vite(c, self.a.read(idx, pc + (c,)), self.b.read(idx, pc + (not_(c),)))

    def subst(self, m, memo):
        c = subst(self.c, m)
        if c is TRUE:
            return asubst(self.a, m, memo)
        if c is FALSE:
            return asubst(self.b, m, memo)
        return IteArr(c, asubst(self.a, m, memo), asubst(self.b, m, memo))


class Write:
    """guarded quantified write:  for all bvars in range, guard: A[idx] (=|+=) val"""
    __slots__ = ('bv', 'n', 'guard', 'idx', 'val', 'kind')

    def __init__(self, bv, n, guard, idx, val, kind):
        self.bv = tuple(bv)       # tuple of variable terms
        self.n = tuple(n)         # ranges: 0 <= bv[i] < n[i]
        self.guard = guard
        self.idx = tuple(idx)
        self.val = val
        self.kind = kind

    def rng(self):
        out = []
        for b, n in zip(self.bv, self.n):
            out += [le(I(0), b), lt(b, n)]
        return out

    def rename(self):
        m = {b: fresh(b.val.split('!')[0], 'I') for b in self.bv}
        return self.subst(m, {}, bound=True)

    def subst(self, m, memo, bound=False):
        if not bound:
            # capture is impossible: bound variables are globally unique names
            m = {k: v for k, v in m.items() if k not in self.bv}
        return Write([m.get(b, b) if bound else b for b in self.bv], [subst(x, m) for x in self.n], subst(self.guard, m),
                     [subst(i, m) for i in self.idx], vsubst(self.val, m, {}), self.kind)


class LoopArr(Node):
    """array after a summarised loop; writes as Write objects (t among the bound vars)"""
    __slots__ = ('writes',)

    def __init__(self, prev, writes):
        self.init(prev, prev.rank, prev.sort)
        self.writes = writes

    def _read(self, idx, pc):
        r = self.prev.read(idx, pc)
        for w in self.writes:
            if w.kind == 'add':
                body = ite(and_(w.guard, idx_eq(w.idx, idx)), w.val, const(0, self.sort))
                # inner-most bound variables first; try to eliminate by solving the index equation
                s = _sum_elim(w, idx, pc, body, self.sort)
                r = add(r, s)
            else:
                sol, cond = unify(w, idx, pc)
                if sol is None:
                    c, val = guard_read(w, idx, pc)
                    if c is FALSE:
                        continue
                else:
                    c = and_(cond, subst(w.guard, sol))
                    val = None
                    c = decide(c, pc)
                    if c is FALSE:
                        continue
                    val = vsubst(w.val, sol, {})
                if isinstance(val, T):
                    val = simp_dm(val, pc + ((c,) if c is not TRUE else ()))
                r = vite(c, val, r)
        return r

    def subst(self, m, memo):
        return LoopArr(asubst(self.prev, m, memo), [w.subst(m, memo) for w in self.writes])


DEFS = {}       # name of a named array -> its contents


class Named(Node):
    """array after a top-level loop whose contents are read through a name; the definition is
    substituted only when a proof needs it"""
    __slots__ = ('inner', 'name')

    def __init__(self, inner, name):
        self.init(inner.prev, inner.rank, inner.sort)
        self.depth = inner.depth
        self.inner = inner
        self.name = name
        DEFS[name] = inner

    def _read(self, idx, pc):
        return app(self.name, tuple(idx), self.sort)

    def subst(self, m, memo):
        x = asubst(self.inner, m, memo)
        for a, b in zip(x.writes, self.inner.writes):
            if a.guard is not b.guard or a.val is not b.val or a.n != b.n or any(p is not q for p, q in zip(a.idx, b.idx)):
                return x
        return self


def expand_defs(ts, pc=()):
    """one level: the most recent names replaced by their definitions; None when there is none"""
    ds = [x for x in subterms(ts) if x.op == 'f' and x.val in DEFS]
    if not ds:
        return None
    last = max(int(x.val.split('!')[1]) for x in ds)
    m = {x: DEFS[x.val].read(x.args, pc) for x in ds if int(x.val.split('!')[1]) == last}
    return [subst(t, m) for t in ts]


def _sum_elim(w, idx, pc, body, sort):
    b = body
    for v, n in reversed(list(zip(w.bv, w.n))):
        b = mksum(v, n, b, sort)
    return b


_dm = {}


def simp_dm(v, pc):
    """(k + l*n) div n -> l, mod n -> k when 0 <= k < n follows from pc"""
    ds = [x for x in subterms([v], into_sums=False) if x.op in ('idiv', 'imod')]
    if not ds:
        return v
    m = {}
    for x in ds:
        a, n = x.args
        q, r = pdivide(a, n)
        if q is I(0) and r is a and a.op in ('v', 'f'):
            continue
        for k in (0, 1, -1):
            aa = add(r, mul(I(k), n))
            if valid(pc, and_(le(I(0), aa), lt(aa, n)), 0.7):
                m[x] = aa if x.op == 'imod' else sub(q, I(k))
                break
    if not m:
        return v
    return simp_dm(subst(v, m), pc)


def guard_read(w, idx, pc):
    """the index does not determine every bound variable: look for the writing iteration in the guard.
    At most one iteration writes a given cell (non-interference was proved), so an iteration that
    certainly writes it is the one that determines its value."""
    if not CHEAP[0]:
        sol, un, cond = unify(w, idx, pc, partial=True)
        if sol is not None and len(un) == 1:
            v = un[0]
            n = subst(dict(zip(w.bv, w.n))[v], sol)
            g = subst(w.guard, sol)
            cands = []
            for x in subterms([g], into_sums=False):
                if x.op in ('lt', 'le', 'eq') and x.args[0].sort == 'I' and v.val in x.fv:
                    ln = lin_in(sub(x.args[0], x.args[1]), v)
                    if ln is None or not isc(ln[0]) or ln[0].val not in (1, -1):
                        continue
                    r = mul(I(-ln[0].val), ln[1])
                    if v.val in r.fv:
                        continue
                    for k in (0, 1, -1):
                        cands.append(add(r, I(k)))
            cands = list(dict.fromkeys(cands))[:9]
            best = None
            for cnd in cands:
                s = dict(sol)
                s[v] = cnd
                full = {k: subst(x, {v: cnd}) for k, x in s.items()}
                c = and_(subst(cond, full), le(I(0), cnd), lt(cnd, subst(n, full)), subst(w.guard, full))
                if fast.prove(pc, c) or valid(pc, c, 0.5):
                    return TRUE, vsubst(w.val, full, {})
                # the candidate is the only possible one
                if best is None and valid(tuple(pc) + (cond, g, le(I(0), v), lt(v, n)), eq(v, cnd), 0.7):
                    best = (c, vsubst(w.val, full, {}))
            if best is not None:
                return best
    return skolem_read(w, idx, pc)


_sk = {}


def skolem_read(w, idx, pc):
    fvs = set()
    for t in list(idx) + [w.guard] + list(w.idx) + list(w.n) + ([w.val] if isinstance(w.val, T) else []):
        fvs |= t.fv
    fvs -= {b.val for b in w.bv}
    key = (id(w), tuple(i.id for i in idx))
    if key in _sk:
        return _sk[key][1]
    tag = len(_sk)
    deps = [var(v, 'I') for v in sorted(fvs) if v.startswith('t@') or v.startswith('sb!') or v.startswith('$b')]
    P = eq(app('hit!%d' % tag, deps, 'I'), I(1))
    wit = {b: app('wit!%d_%d' % (tag, i), deps, 'I') for i, b in enumerate(w.bv)}
    fact = implies(P, and_(*([subst(x, wit) for x in w.rng()] + [subst(w.guard, wit), idx_eq([subst(i, wit) for i in w.idx], idx)])))
    FACTS['hit!%d' % tag] = lambda a, fact=fact, deps=deps: [subst(fact, dict(zip(deps, a)))]
    r = (P, vsubst(w.val, wit, {}))
    _sk[key] = (w, r)
    return r


def poly_split(t, n):
    """t = A + n*B for int polynomials"""
    ts = t.args if t.op == 'add' else (t,)
    A, Bs = [], []
    for x in ts:
        if isc(n):
            c, r = (x.val, None) if x.op == 'c' else __import__('terms')._coef(x)
            if r is not None and c % n.val == 0:
                Bs.append(__import__('terms')._scale(c // n.val, r, 'I'))
            else:
                A.append(x)
            continue
        q = mono_div(x, n)
        if q is None:
            A.append(x)
        else:
            Bs.append(q)
    return (add(*A) if A else I(0)), (add(*Bs) if Bs else I(0))


def mono_div(x, n):
    """x / n if the monomial x is divisible by the polynomial n having a single monomial, else None"""
    fs = list(x.args) if x.op == 'mul' else [x]
    ns = list(n.args) if n.op == 'mul' else [n]
    for f in ns:
        if f in fs:
            fs.remove(f)
        else:
            return None
    return mul(*fs) if fs else I(1)


def pdivide(t, n):
    """divide int polynomial t by polynomial n: t = n*q + r (multivariate, greedy). returns (q, r)"""
    if n.op != 'add':
        r, q = poly_split(t, n)
        return q, r
    # leading monomial of n: first non-constant
    lead = [x for x in n.args if not isc(x)]
    if not lead:
        return I(0), t
    # choose a unit-coefficient monomial
    q = I(0)
    r = t
    ld = None
    for x in lead:
        if __import__('terms')._coef(x)[0] == 1:
            ld = x
            break
    if ld is None:
        return I(0), t
    for _ in range(12):
        ts = r.args if r.op == 'add' else (r,)
        hit = None
        for x in ts:
            if isc(x):
                continue
            c, base = __import__('terms')._coef(x)
            m = mono_div(base, ld)
            if m is not None:
                hit = mul(I(c), m)
                break
        if hit is None:
            break
        q = add(q, hit)
        r = sub(r, mul(hit, n))
    return q, r


def lin_in(e, v):
    """e = c*v + rest with c, rest free of v; returns (c, rest) or None"""
    ts = e.args if e.op == 'add' else (e,)
    c, rest = [], []
    for x in ts:
        if v.val not in x.fv:
            rest.append(x)
            continue
        fs = list(x.args) if x.op == 'mul' else [x]
        if fs.count(v) != 1:
            return None
        fs.remove(v)
        if any(v.val in f.fv for f in fs):
            return None
        c.append(mul(*fs) if fs else I(1))
    return (add(*c) if c else I(0)), (add(*rest) if rest else I(0))


def unify(w, idx, pc, partial=False):
    """solve w.idx(bv) = idx for the bound variables.
    returns (solution map, condition) or (None, None); partial: (solution, unsolved variables, condition)"""
    pc = tuple(pc)
    sol = {}
    conds = []
    un = list(w.bv)
    ranges = dict(zip(w.bv, w.n))
    eqs = list(zip(w.idx, idx))
    gl = [x for x in (w.guard.args if w.guard.op == 'and' else (w.guard,)) if x.op in ('lt', 'le', 'eq', 'not') and fast.isint(x) and x.sh == 0
          and not any(y.op == 'f' for y in subterms([x]))]
    progress = True
    while eqs and progress:
        progress = False
        for (e, r) in list(eqs):
            e = subst(e, sol)
            vs = [v for v in un if v.val in e.fv]
            if not vs:
                conds.append(eq(e, r))
                eqs.remove(next(x for x in eqs if subst(x[0], sol) is e and x[1] is r))
                progress = True
                break
            if len(vs) == 1:
                v = vs[0]
                ln = lin_in(e, v)
                if ln is None:
                    continue
                c, rest = ln
                d = sub(r, rest)
                if isc(c) and c.val in (1, -1):
                    sol[v] = mul(c, d)
                else:
                    q = _exact(d, c)
                    sol[v] = q
                    conds.append(eq(mul(c, q), d))
                    if not isc(c):
                        conds.append(ne(c, I(0)))
                un.remove(v)
                eqs.remove(next(x for x in eqs if subst(x[0], {k: s for k, s in sol.items() if k is not v}) is e and x[1] is r))
                progress = True
                break
            if len(vs) == 2:
                res = _solve2(e, r, vs, ranges, sol, pc)
                if res is None and gl:
                    res = _solve2(e, r, vs, ranges, sol, pc, tuple(subst(x, sol) for x in gl))
                if res is None:
                    continue
                s2, c2 = res
                old = dict(sol)
                sol.update(s2)
                conds += c2
                for v in vs:
                    un.remove(v)
                eqs.remove(next(x for x in eqs if subst(x[0], old) is e and x[1] is r))
                progress = True
                break
            if len(vs) >= 3:
                res = _peel(e, r, vs, ranges, sol, pc)
                if res is None:
                    continue
                u, su, e2, r2, c2 = res
                old = dict(sol)
                eqs.remove(next(x for x in eqs if subst(x[0], old) is e and x[1] is r))
                sol[u] = su
                conds += c2
                un.remove(u)
                eqs.append((e2, r2))
                progress = True
                break
    if eqs:
        return (None, None, None) if partial else (None, None)
    if un and not partial:
        return None, None
    # bound variables solved in terms of each other: close the substitution
    for _ in range(4):
        sol = {k: subst(v, sol) for k, v in sol.items()}
    for b, n in zip(w.bv, w.n):
        if b in sol:
            conds += [le(I(0), sol[b]), lt(sol[b], subst(n, sol))]
    conds = [decide(subst(c, sol), pc) for c in conds]
    if partial:
        return sol, un, and_(*conds)
    return sol, and_(*conds)


def _exact(d, c):
    q, r = pdivide(d, c)
    if r is I(0):
        return q
    return idiv(d, c)


def _peel(e, r, vs, ranges, sol, pc):
    """mixed radix: e = u + n*e2(others) + ra with 0 <= u < n: returns (u, solution, e2, r2, conds)"""
    for u in vs:
        lu = lin_in(e, u)
        if lu is None or lu[0] is not I(1):
            continue
        n = subst(ranges[u], sol)
        if isc(n) and n.val <= 1 or any(v.val in n.fv for v in vs):
            continue
        e2, ra = pdivide(lu[1], n)
        if any(v.val in ra.fv for v in vs):
            continue
        dd = sub(r, ra)
        q, a = pdivide(dd, n)
        for k in (0, 1, -1):
            aa = add(a, mul(I(k), n))
            if valid(pc, and_(le(I(0), aa), lt(aa, n)), 0.7):
                return u, aa, e2, sub(q, I(k)), []
        rng = ()
        for v in vs:
            rng += (le(I(0), v), lt(v, subst(ranges[v], sol)))
        if valid(pc + rng, le(I(0), e2), 0.7):       # then a hit has dd >= 0
            return u, imod(dd, n), e2, idiv(dd, n), [le(I(0), dd), lt(I(0), n)]
    return None


def _solve2(e, r, vs, ranges, sol, pc, gl=()):
    for u, v in ((vs[0], vs[1]), (vs[1], vs[0])):
        lu = lin_in(e, u)
        if lu is None or not isc(lu[0]) or lu[0].val not in (1, -1):
            continue
        s = lu[0].val
        lv = lin_in(lu[1], v)
        if lv is None:
            continue
        n, rest = lv
        if isc(n) and n.val in (0, 1, -1):
            continue
        # s*u + n*v + rest = r ; u in [0,Tu)
        Tu = subst(ranges[u], sol)
        # choose shift so that s*u + sh in [0,n)
        d = sub(r, rest)            # = s*u + n*v
        rb, ra = pdivide(rest, n)   # rest = n*rb + ra
        for sh in (I(0), ra):
            lo = add(mul(I(s), u), sh)
            rngu = (le(I(0), u), lt(u, Tu))
            ctx = pc + rngu + (lt(I(0), Tu),) + gl
            if not (valid(ctx, and_(le(I(0), lo), lt(lo, n)), 1.0)):
                continue
            dd = add(d, sh)         # = (s*u+sh) + n*v
            q, a = pdivide(dd, n)
            # adjust a into [0,n)
            okc = None
            for k in (0, 1, -1):
                aa = add(a, mul(I(k), n))
                if valid(pc, and_(le(I(0), aa), lt(aa, n)), 0.7):
                    okc = (sub(q, I(k)), aa)
                    break
            if okc is None:
                if not valid(pc, le(I(0), dd), 0.7):
                    cnd = [le(I(0), dd)]
                else:
                    cnd = []
                qq, mm = idiv(dd, n), imod(dd, n)
                return {u: mul(I(s), sub(mm, sh)), v: qq}, cnd + [lt(I(0), n)]
            qq, mm = okc
            return {u: mul(I(s), sub(mm, sh)), v: qq}, []
    return None


def asubst(node, m, memo=None):
    if memo is None:
        memo = {}
    if not m:
        return node
    r = memo.get(id(node))
    if r is None:
        r = (node, node.subst(m, memo))
        memo[id(node)] = r
    return r[1]


def vsubst(v, m, memo=None):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, Node):
        return asubst(v, m, memo if memo is not None else {})
    if hasattr(v, 'vsubst'):
        return v.vsubst(m)
    return v
