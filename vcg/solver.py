"""Discharging of verification conditions: rational normal form + case splitting, z3, cvc5."""
import time
import z3
from terms import *
import terms as tm

FACTS = {}          # function/symbol name -> callable(args tuple) -> list of Bool terms
STATS = {'z3_s': 0.0, 'z3_n': 0, 'rat_n': 0, 'cvc5_n': 0, 'cvc5_s': 0.0, 'memo': 0}
UNIV = {}           # function name -> callable(args, s): instance of a universally quantified loop fact
HINTS = []          # candidate constants used in sum lemmas

_z = {}


def zsort(s):
    return {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[s]


_funcs = {}


def z(t):
    r = _z.get(t.id)
    if r is not None:
        return r
    # iterative post-order to avoid deep recursion
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in _z:
            stack.pop()
            continue
        if x.op == 'sum':
            _z[x.id] = z3.Const('sum!%d' % x.id, zsort(x.sort))
            stack.pop()
            continue
        todo = [a for a in x.args if a.id not in _z]
        if todo:
            stack.extend(todo)
            continue
        _z[x.id] = _z1(x, [_z[a.id] for a in x.args])
        stack.pop()
    return _z[t.id]


def _z1(t, a):
    op = t.op
    if op == 'c':
        if t.sort == 'B':
            return z3.BoolVal(t.val)
        if t.sort == 'I':
            return z3.IntVal(t.val)
        return z3.RealVal(str(t.val))
    if op == 'v':
        return z3.Const(t.val, zsort(t.sort))
    if op == 'f':
        key = (t.val, tuple(x.sort for x in t.args), t.sort)
        if not a:
            return z3.Const(t.val, zsort(t.sort))
        f = _funcs.get(key)
        if f is None:
            f = z3.Function(t.val, *([zsort(x.sort) for x in t.args] + [zsort(t.sort)]))
            _funcs[key] = f
        return f(*a)
    if op == 'add':
        return z3.Sum(a)
    if op == 'mul':
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r
    if op == 'pow':
        n = t.val
        r = a[0]
        for _ in range(abs(n) - 1):
            r = r * a[0]
        if n > 0:
            return r
        return z3.RealVal(1) / r
    if op == 'idiv':
        return z3.Const('idiv!%d' % t.id, z3.IntSort())
    if op == 'imod':
        return z3.Const('imod!%d' % t.id, z3.IntSort())
    if op == 'i2r':
        return z3.ToReal(a[0])
    if op in ('trunc', 'rfloor', 'rceil'):
        return z3.Const('%s!%d' % (op, t.id), z3.IntSort())
    if op == 'ite':
        return z3.If(a[0], a[1], a[2])
    if op == 'eq':
        return a[0] == a[1]
    if op == 'lt':
        return a[0] < a[1]
    if op == 'le':
        return a[0] <= a[1]
    if op == 'not':
        return z3.Not(a[0])
    if op == 'and':
        return z3.And(*a)
    if op == 'or':
        return z3.Or(*a)
    raise ValueError(op)


_factmemo = {}


def _mono(op, t, apps):
    """pairwise monotonicity is only needed rarely; functions are otherwise free"""
    return []


def facts_of(t):
    r = _factmemo.get(t)
    if r is not None:
        return r
    out = []
    if t.op == 'f':
        n, a = t.val, t.args
        if n == 'sqrt':
            out.append(implies(le(R(0), a[0]), and_(le(R(0), t), eq(mul(t, t), a[0]))))
            out.append(implies(lt(R(0), a[0]), lt(R(0), t)))
        elif n == 'exp':
            out.append(lt(R(0), t))
            out.append(eq(lt(R(0), a[0]), lt(R(1), t)))
            out.append(eq(lt(a[0], R(0)), lt(t, R(1))))
        elif n == 'fpow':
            out.append(implies(lt(R(0), a[0]), lt(R(0), t)))
            out.append(implies(eq(a[1], R(0)), eq(t, R(1))))
            out.append(implies(eq(a[1], R(1)), eq(t, a[0])))
            out.append(implies(and_(eq(a[0], R(0)), lt(R(0), a[1])), eq(t, R(0))))
            out.append(implies(le(R(0), a[0]), le(R(0), t)))
        elif n in ('sin', 'cos'):
            s, c = app('sin', a, 'R'), app('cos', a, 'R')
            out.append(eq(add(mul(s, s), mul(c, c)), R(1)))
            out.append(and_(le(R(-1), t), le(t, R(1))))
        elif n == 'log':
            out.append(implies(lt(R(1), a[0]), lt(R(0), t)))
            out.append(implies(and_(lt(R(0), a[0]), lt(a[0], R(1))), lt(t, R(0))))
        elif n in ('tanh', 'erf'):
            out.append(and_(lt(R(-1), t), lt(t, R(1))))
            out.append(implies(le(R(0), a[0]), le(R(0), t)))
            out.append(implies(le(a[0], R(0)), le(t, R(0))))
        elif n == 'erfc':
            out.append(and_(lt(R(0), t), lt(t, R(2))))
        elif n == 'cosh':
            out.append(le(R(1), t))
        f = FACTS.get(n)
        if f:
            out += f(a)
    elif t.op == 'v':
        f = FACTS.get(t.val)
        if f:
            out += f(())
    elif t.op == 'trunc':
        x = t.args[0]
        it = i2r(t)
        out.append(implies(le(R(0), x), and_(le(it, x), lt(x, add(it, R(1))), le(I(0), t))))
        out.append(implies(lt(x, R(0)), and_(le(x, it), lt(sub(it, R(1)), x), le(t, I(0)))))
    elif t.op == 'rfloor':
        it = i2r(t)
        out += [le(it, t.args[0]), lt(t.args[0], add(it, R(1)))]
    elif t.op == 'rceil':
        it = i2r(t)
        out += [le(t.args[0], it), lt(sub(it, R(1)), t.args[0])]
    elif t.op in ('idiv', 'imod'):
        a, b = t.args
        q, r = mk('idiv', (a, b), None, 'I'), mk('imod', (a, b), None, 'I')
        r = var('imod!%d' % r.id, 'I')      # same SMT constant; avoids the div/mod recombination of add()
        out.append(implies(ne(b, I(0)), eq(a, add(mul(b, q), r))))
        out.append(implies(and_(le(I(0), a), lt(I(0), b)), and_(le(I(0), r), lt(r, b), le(I(0), q))))
        out.append(implies(and_(lt(a, I(0)), lt(I(0), b)), and_(le(r, I(0)), lt(neg(b), r), le(q, I(0)))))
    _factmemo[t] = out
    return out


RECF = {}           # loop-recurrence symbols: name -> callable(args) -> unfolding equations


def closure(ts, rounds=2):
    facts, seen = closure0(ts)
    done = set()
    for _ in range(rounds):
        new = []
        for t in sorted((t for t in seen if t.op == 'f' and t.val in RECF and t not in done), key=lambda x: x.id):
            done.add(t)
            new += RECF[t.val](t.args)
        if not new:
            break
        f2, seen = closure0(list(ts) + facts + new)
        have = set(facts)
        facts = facts + new + [x for x in f2 if x not in have]
    return facts, seen


def closure0(ts):
    """all facts relevant for the atoms in ts (not descending into sum bodies)"""
    seen = set()
    facts = []
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ('f', 'v', 'trunc', 'rfloor', 'rceil', 'idiv', 'imod'):
            for f in facts_of(t):
                facts.append(f)
                stack.append(f)
        if t.op == 'sum':
            stack.append(t.args[1])
        else:
            stack.extend(t.args)
    return facts, seen


def univ_inst(conds, facts, seen, level=2):
    """instances of the universal loop facts. level 0: none; 1: at the free index variables; 2: also at witnesses"""
    done = set()
    extra = []
    for rnd in range(3 if level else 0):
        apps = [t for t in seen if t.op == 'f' and t.val in UNIV]
        if not apps:
            break
        if level == 1:
            # only symbols of the query itself or reached from instances, not those of witnesses
            apps = [t for t in apps if not any(x.op == 'f' and (x.val.startswith('extw@') or x.val.startswith('lastw@') or x.val.startswith('wit')) for x in subterms(t.args))]
        idx = [t for t in seen if t.sort == 'I' and ((t.op == 'v' and (t.val.startswith('q!') or t.val.startswith('t@'))) or
                                                     (level > 1 and t.op == 'f' and (t.val.startswith('extw@') or t.val.startswith('lastw@') or t.val.startswith('wit'))))]
        idx += [I(0)] if level > 1 or not idx else []
        if rnd == 0:
            # flattened loops: the index expressions of the query
            for t in subterms(conds, into_sums=False):
                if t.op == 'f' and t.val.startswith('nd:') and len(t.args) == 1 and t.args[0].op == 'add' and t.args[0].sort == 'I' \
                        and any(x.op == 'mul' and not isc(x.args[0]) for x in t.args[0].args) and t.args[0] not in extra and len(extra) < 4 \
                        and not any(x.op == 'f' for x in subterms([t.args[0]])):
                    extra.append(t.args[0])
        idx += extra
        if len(apps) * len(idx) > 2000:
            break
        apps.sort(key=lambda x: x.id)
        idx.sort(key=lambda x: x.id)
        new = []
        for a in apps:
            for s in idx:
                if (a, s) in done:
                    continue
                done.add((a, s))
                f = UNIV[a.val](a.args, s)
                if f is not TRUE:
                    new.append(f)
        if not new:
            break
        f2, s2 = closure(conds + facts + new)
        facts = facts + new + [x for x in f2 if x not in set(facts)]
        seen = s2
    return facts, seen


def sign_of(t):
    """cheap syntactic sign: returns True when t is known >= 0 (constants, products, squares)"""
    return None


_pr = {}


def _prod(d, e):
    k = (d, e)
    r = _pr.get(k)
    if r is None:
        p = mul(d, e)
        ms = [tuple(sorted(x.id for x in m.args if x.op != 'c')) for m in (p.args if p.op == 'add' else (p,)) if m.op == 'mul']
        r = _pr[k] = (le(I(0), p), ms)
    return r


def product_lemmas(hyps, seen):
    """for int products x*y in the query: multiply linear hypotheses by factors known >= 0"""
    prods = set()
    for t in seen:
        if t.op == 'mul' and t.sort == 'I':
            fs = [a for a in t.args if a.op != 'c']
            if len(fs) >= 2:
                prods.add(tuple(sorted(x.id for x in fs)))
    if not prods:
        return []
    ids = set(i for p in prods for i in p)
    lin = []
    nonneg = {}
    flat = []
    stack = list(hyps)
    while stack:
        h = stack.pop()
        if h.op == 'and':
            stack.extend(h.args)
        else:
            flat.append(h)
    for h in flat:
        if h.op == 'lt' and h.args[0].sort == 'I':
            d = add(h.args[1], neg(h.args[0]), I(-1))   # d >= 0
            lin.append(d)
            ts = d.args if d.op == 'add' else (d,)
            nc = [tm._coef(x) for x in ts]
            nv = [x for x in nc if x[1] is not None]
            if len(nv) == 1 and nv[0][0] > 0 and nv[0][1].op != 'mul':
                kk = sum(c for c, r in nc if r is None)
                if kk <= 0:      # c*v >= -kk >= 0  => v >= 0 
                    nonneg[nv[0][1]] = 1
        elif h.op == 'eq' and h.args[0].sort == 'I':
            d = sub(h.args[0], h.args[1])
            lin.append(d)
            lin.append(neg(d))
    out = []
    ds = [d for d in lin if len((d.args if d.op == 'add' else (d,))) <= 6]
    for d in ds:
        for n in nonneg:
            if n.id not in ids:
                continue
            g, ms = _prod(d, n)
            if any(m in prods for m in ms):
                out.append(g)
        if len(out) > 400:
            break
    # d1*d2 >= 0 for small hypotheses whose variables occur in a product
    small = [d for d in ds if d.op != 'c' and len((d.args if d.op == 'add' else (d,))) <= 3 and d.fv]
    small = [d for d in small if any(x.id in ids for x in subterms([d]))]
    if len(small) <= 24:
        for i, d in enumerate(small):
            for e in small[i + 1:]:
                g, ms = _prod(d, e)
                if any(len(m) >= 2 and m in prods for m in ms):
                    out.append(g)
    return out[:800]


def _mksolver(timeout):
    # the limit is a deterministic amount of work, so that a busy machine does not change a verdict
    s = z3.Solver()
    s.set('rlimit', int(timeout * 2.5e6))
    s.set('timeout', int(timeout * 5000))
    return s


_memo = {}
_nq = [0]


def has_univ(conds):
    return any(t.op == 'f' and t.val in UNIV for t in closure(conds)[1])


def check_sat(conds, timeout=2.0, want_model=False, lemmas=True, level=2):
    """'unsat' | 'sat' | 'unknown' for the conjunction"""
    conds = [c for c in conds if c is not TRUE]
    if any(c is FALSE for c in conds):
        return ('unsat', None)
    facts, seen = closure(conds)
    facts, seen = univ_inst(conds, facts, seen, level)
    sl = sum_lemmas(conds, seen) if lemmas else []
    if sl:
        f2, s2 = closure(conds + facts + sl)
        facts = sl + f2
        seen = s2
    pl = product_lemmas(conds + facts, seen)
    s = _mksolver(timeout)
    for c in conds + facts + pl:
        s.add(z(c))
    t0 = time.time()
    r = s.check()
    STATS['z3_s'] += time.time() - t0
    STATS['z3_n'] += 1
    if r == z3.unsat:
        return ('unsat', None)
    if r == z3.sat:
        return ('sat', s.model() if want_model else None)
    return ('unknown', None)


def valid(hyps, goal, timeout=1.0):
    """quick validity test used inside the executor (cached)"""
    if goal is TRUE:
        return True
    if goal is FALSE and not hyps:
        return False
    key = (tuple(sorted(h.id for h in hyps)), goal.id)
    r = _memo.get(key)
    if r is None:
        if goal.op == 'and':
            r = all(valid(hyps, g, timeout) for g in goal.args)
        elif goal in hyps:
            r = True
        elif fast.prove(hyps, goal):
            r = True
        else:
            hy = relevant(hyps, goal)
            r = check_sat(hy + [not_(goal)], timeout, level=0)[0] == 'unsat'
        _memo[key] = r
    else:
        STATS['memo'] += 1
    return r


def relevant(hyps, goal):
    """cone of influence by shared non-constant atoms (sound: dropping hypotheses)"""
    if len(hyps) <= 6:
        return list(hyps)
    return list(hyps)


import fast


# ---------------------------------------------------------------- sums
def sum_lemmas(conds, seen):
    """inductive lemmas on Sum terms, each proved by a pointwise obligation"""
    sums = [t for t in seen if t.op == 'sum']
    if not sums:
        return []
    out = []
    bools = [c for c in conds if c.op != 'sum']
    # one-sided bounds of the body, pointwise, for fresh index
    for s in sums:
        out += _sum_basic(s)
    # comparisons between sums over the same range
    cand = [h for h in HINTS]
    for a in sums:
        for b in sums:
            if a is b or a.sort != 'R' or b.sort != 'R' or a.args[1] is not b.args[1]:
                continue
            for h in cand:
                out += _sum_cmp(a, b, h, conds)
    out += _sum_prefix(sums, seen)
    return out


_sb = {}


def _sum_basic(s):
    r = _sb.get(s)
    if r is not None:
        return r
    out = []
    _sb[s] = out
    bv, n, body = open_sum(s)
    rng = [le(I(0), bv), lt(bv, n)]
    zero = const(0, s.sort)
    out.append(implies(le(n, I(0)), eq(s, zero)))
    if valid(rng, le(zero, body), 1.0):
        out.append(le(zero, s))
        if valid(rng, lt(zero, body), 1.0):
            out.append(implies(lt(I(0), n), lt(zero, s)))
    if valid(rng, le(body, const(1, s.sort)), 1.0):
        nn = toR(n) if s.sort == 'R' else n
        out.append(implies(le(I(0), n), le(s, nn)))
    return out


_sc = {}


def _sum_cmp(a, b, h, conds):
    """sum a >= h * sum b  /  <= when pointwise"""
    key = (a, b, h)
    if key in _sc:
        return _sc[key]
    out = []
    bv = fresh('sk', 'I')
    rng = [le(I(0), bv), lt(bv, a.args[1])]
    fa, fb = sum_inst(a, bv), sum_inst(b, bv)
    if fa.fv == fb.fv or True:
        if valid(rng, le(mul(h, fb), fa), 1.0):
            out.append(le(mul(h, b), a))
        if valid(rng, le(fa, mul(h, fb)), 1.0):
            out.append(le(a, mul(h, b)))
    _sc[key] = out
    return out


def _sum_prefix(sums, seen):
    """prefix sums of the same body: S(n) with n<=m, body>=0 => S(n)<=S(m); and unfolding S(n+1)=S(n)+f(n)"""
    out = []
    by = {}
    for s in sums:
        by.setdefault((s.args[0], s.sort), []).append(s)
    for (body, sort), ss in by.items():
        if len(ss) < 2:
            continue
        zero = const(0, sort)
        bv, n, b = open_sum(ss[0])
        nonneg = valid([le(I(0), bv)], le(zero, b), 0.5)
        for x in ss:
            for y in ss:
                if x is y:
                    continue
                nx, ny = x.args[1], y.args[1]
                # y = x + f(nx) when ny = nx+1
                out.append(implies(and_(eq(ny, add(nx, I(1))), le(I(0), nx)), eq(y, add(x, sum_inst(x, nx)))))
                out.append(implies(eq(nx, ny), eq(x, y)))
                if nonneg:
                    # x(nx) + f(nx) <= y(ny) when 0<=nx<ny
                    out.append(implies(and_(le(I(0), nx), lt(nx, ny)), le(add(x, sum_inst(x, nx)), y)))
                    out.append(implies(lt(nx, ny), le(x, y)))
    return out


# ---------------------------------------------------------------- goals
def ite_conds(t):
    """conditions of ites in t that are themselves ite-free (innermost first)"""
    out = []
    for x in subterms([t], into_sums=False):
        if x.op == 'ite' and not any(y.op == 'ite' for y in subterms([x.args[0]], into_sums=False)):
            out.append(x.args[0])
    return out


def assume_in(t, c, val):
    """replace boolean atom(s) c by its value in t, simplifying"""
    m = {c: B(val), not_(c): B(not val)}
    if val and c.op == 'and':
        for x in c.args:
            m[x] = TRUE
            m[not_(x)] = FALSE
    if not val and c.op == 'or':
        for x in c.args:
            m[x] = FALSE
            m[not_(x)] = TRUE
    return subst(t, m)


class Result:
    def __init__(self, status, backend, model=None, hyps=None, goal=None):
        self.status = status
        self.backend = backend
        self.model = model
        self.hyps = hyps
        self.goal = goal


def prove(hyps, goal, timeout=10.0, budget=None):
    """full prover for an obligation."""
    t0 = time.process_time()
    budget = budget or [timeout * 4]
    r = _prove(list(hyps), goal, timeout, t0 + budget[0], 0)
    if r.status != 'proved' and any(x.op == 'sum' for x in subterms([goal], into_sums=False)):
        for how in (nest_sums, flat_sums):
            g2 = how(hyps, goal)
            if g2 is goal:
                continue
            r2 = _prove(list(hyps), g2, timeout, time.process_time() + budget[0], 0)
            if r2.status == 'proved':
                r2.backend += '+row-major-sums'
                return r2
    return r


def linear_goals(goal, fn):
    """an equation between expressions that are linear in the values of the array fn follows from the equality of
    the coefficients of each value; returns these equations, or None when the expressions are not of that form"""
    if goal.op != 'eq' or goal.args[0].sort != 'R':
        return None
    fn = 'nd:' + fn
    memo = {}

    def has(t):
        return any(x.op == 'f' and x.val == fn for x in subterms([t]))

    def lin(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'f' and t.val == fn:
            r = {t: R(1)}
        elif t.op == 'add':
            r = {}
            for a in t.args:
                for k, c in lin(a).items():
                    r[k] = add(r[k], c) if k in r else c
        elif t.op == 'mul' and has(t):
            x = [a for a in t.args if has(a)]
            if len(x) != 1:
                raise ValueError
            rest = mul(*[a for a in t.args if a is not x[0]])
            r = {k: mul(rest, c) for k, c in lin(x[0]).items()}
        elif t.op == 'ite' and has(t):
            if has(t.args[0]):
                raise ValueError
            a, b = lin(t.args[1]), lin(t.args[2])
            r = {k: ite(t.args[0], a.get(k, R(0)), b.get(k, R(0))) for k in list(a) + [k for k in b if k not in a]}
        elif has(t):
            raise ValueError
        else:
            r = {None: t}
        memo[t] = r
        return r
    try:
        a, b = lin(toR(goal.args[0])), lin(toR(goal.args[1]))
    except ValueError:
        return None
    ks = list(a) + [k for k in b if k not in a]
    return [eq(a.get(k, R(0)), b.get(k, R(0))) for k in ks] if len(ks) > 1 else None


def linear_split(goal, fns):
    gs = [goal]
    for fn in fns:
        gs = [x for g in gs for x in (linear_goals(g, fn) or [g])]
    return list(dict.fromkeys(g for g in gs if g is not TRUE)) or [TRUE]


def nest_sums(hyps, goal):
    """a sum over a whole range whose terms use the row and column of the index becomes a sum over rows and columns"""
    import arrays
    hyps = tuple(hyps)

    def f(t):
        if t.op != 'sum':
            return None
        kk, n, body = open_sum(t)
        ms = [x.args[1] for x in subterms([body]) if x.op in ('idiv', 'imod') and kk.val in x.args[0].fv and kk.val not in x.args[1].fv]
        for M in dict.fromkeys(ms):
            if M.sort != 'I' or any(b.startswith('$b') or b.startswith('sb!') for b in M.fv) or (isc(M) and M.val <= 1):
                continue
            q, r = arrays.pdivide(n, M)
            if not valid(hyps, and_(le(I(0), r), lt(r, M), le(I(0), q)), 1.0):
                continue
            i, j = fresh('sb', 'I'), fresh('sb', 'I')
            rng = (le(I(0), i), lt(i, M), le(I(0), j), lt(I(0), M))
            b = arrays.simp_dm(subst(body, {kk: add(i, mul(M, j))}), hyps + rng)
            if any(x.op in ('idiv', 'imod') for x in subterms([b])):
                continue
            out = mksum(j, q, mksum(i, M, b, t.sort), t.sort)
            if not (isc(r) and r.val == 0):
                out = add(out, mksum(i, r, subst(b, {j: q}), t.sort))
            return out
        return None
    return rewrite(goal, f)


def flat_sums(hyps, goal):
    """nested sums over the rows of an array become one sum over the whole range; adjacent ranges are joined"""
    hyps = tuple(hyps)
    coef = __import__('terms')._coef

    def nonneg(x):
        return valid(hyps, le(I(0), x), 1.0)

    def f(t):
        if t.op == 'sum':
            j, n, body = open_sum(t)
            if body.op == 'sum' and j.val not in body.args[1].fv:
                i, m, b = open_sum(body)
                kk = fresh('sb', 'I')
                b2 = subst(b, {i: sub(kk, mul(m, j))})
                if j.val not in b2.fv and nonneg(m) and nonneg(n):
                    return mksum(kk, mul(m, n), b2, t.sort)
            return None
        if t.op == 'add':
            args = list(t.args)
            changed = True
            hit = False
            while changed:
                changed = False
                sums = [(x,) + tuple(coef(x)) for x in args if coef(x)[1] is not None and coef(x)[1].op == 'sum']
                for x, cx, a in sums:
                    for y, cy, b in sums:
                        if x is y or cx != cy:
                            continue
                        q = fresh('sb', 'I')
                        if sum_inst(b, q) is sum_inst(a, add(q, a.args[1])) and nonneg(a.args[1]) and nonneg(b.args[1]):
                            args.remove(x)
                            args.remove(y)
                            args.append(mul(const(cx, t.sort), mksum(q, add(a.args[1], b.args[1]), sum_inst(a, q), t.sort)))
                            changed = hit = True
                            break
                    if changed:
                        break
            return add(*args) if hit else None
        return None
    g = goal
    for _ in range(4):
        g2 = rewrite(g, f)
        if g2 is g:
            break
        g = g2
    return g


def _combine(rs):
    for r in rs:
        if r.status == 'refuted':
            return r
    for r in rs:
        if r.status != 'proved':
            return r
    return rs[0] if rs else Result('proved', 'trivial')


def _prove(hyps, goal, timeout, deadline, depth):
    if goal is TRUE:
        return Result('proved', 'simplifier')
    if FALSE in hyps:
        return Result('proved', 'simplifier')
    if goal.op == 'and':
        best = None
        for g in goal.args:
            r = _prove(hyps, g, timeout, deadline, depth)
            if r.status == 'refuted':
                return r
            if r.status != 'proved' or best is None:
                best = r
        return best
    if goal.op == 'or' and depth == 0:
        # move all but the last disjunct to hypotheses, preferring a real equality as goal
        args = list(goal.args)
        args.sort(key=lambda x: 1 if (x.op in ('eq', 'le', 'lt') and x.args[0].sort == 'R') else 0)
        return _prove(hyps + [not_(x) for x in args[:-1]], args[-1], timeout, deadline, depth + 1)
    if goal in hyps:
        return Result('proved', 'simplifier')
    if fast.isint(goal) and fast.prove(hyps, goal):
        return Result('proved', 'bound-substitution')
    goal, hyps = round_values(hyps, goal)
    goal = unify_sums(hyps, simp_sums(hyps, goal), timeout, deadline)
    if goal is TRUE:
        return Result('proved', 'simplifier')
    # real equality: rational normal form with case splitting
    if goal.op == 'eq' and goal.args[0].sort == 'R' or goal.op == 'le' and goal.args[0].sort == 'R':
        r = _split(hyps, goal, timeout, deadline, 0, [4000])
        if r is not None:
            return r
    return smt(hyps, goal, timeout, deadline)


def _ratok(goal):
    try:
        if ratzero(sub(goal.args[0], goal.args[1])):
            STATS['rat_n'] += 1
            return True
    except TooBig:
        pass
    return False


def _pure(c):
    return fast.isint(c) and not any(x.op == 'f' for x in subterms([c], into_sums=False))


def _split(hyps, goal, timeout, deadline, depth, fuel):
    if goal is TRUE:
        return Result('proved', 'simplifier')
    if goal.op not in ('eq', 'le') or not goal.args or goal.args[0].sort != 'R':
        return smt(hyps, goal, timeout, deadline)
    if _ratok(goal):
        return Result('proved', 'rational-normal-form')
    cs = ite_conds(goal)
    if not cs:
        return smt(hyps, goal, timeout, deadline)
    if depth == 0 and (goal.op == 'le' or has_univ(hyps + [goal])):
        # inequalities and loop extrema: let SMT try first
        r = smt(hyps, goal, min(timeout, 3.0) if goal.op == 'le' else timeout, deadline)
        if r.status != 'unknown':
            return r
    if fuel[0] <= 0 or time.process_time() > deadline:
        return Result('unknown', 'split-limit', hyps=hyps, goal=goal)
    # choose the condition occurring most often, atoms first
    atoms = []
    for c in cs:
        if c.op in ('and', 'or'):
            atoms.extend(c.args)
        else:
            atoms.append(c)
    cnt = {}
    for a in atoms:
        cnt[a] = cnt.get(a, 0) + 1
    # index conditions first: once they are decided the two sides often agree syntactically
    c = max(cnt, key=lambda x: (_pure(x), cnt[x], -x.id))
    best = None
    for v in (True, False):
        fuel[0] -= 1
        lit = c if v else not_(c)
        g2 = assume_in(goal, c, v)
        if g2 is TRUE:
            best = best or Result('proved', 'rational-normal-form')
            continue
        if _pure(c) and fast.prove(hyps, not_(lit)):
            best = best or Result('proved', 'rational-normal-form+bound-substitution')
            continue
        st, _ = check_sat(hyps + [lit], 1.0, lemmas=False, level=0)
        if st == 'unsat':
            best = best or Result('proved', 'rational-normal-form+z3')
            continue
        r = _split(hyps + [lit], g2, timeout, deadline, depth + 1, fuel)
        if r.status == 'refuted':
            return r
        if r.status != 'proved' or best is None:
            best = r
    return best


def round_values(hyps, goal):
    """replace rounding atoms whose value follows from real bounds of their argument"""
    ats = sorted((t for t in subterms([goal], into_sums=False) if t.op in ('trunc', 'rfloor', 'rceil')), key=lambda t: t.id)
    m = {}
    for t in ats[:12]:
        x = t.args[0]
        if len(subterms([x], into_sums=False)) > 12:
            continue
        for k in (0, 1):
            if t.op == 'rceil':
                c = and_(lt(R(k - 1), x), le(x, R(k)))
            else:
                c = and_(le(R(k), x), lt(x, R(k + 1)))
            if check_sat(list(hyps) + [not_(c)], 0.5, level=0)[0] == 'unsat':
                m[t] = I(k)
                break
    if not m:
        return goal, hyps
    return subst(goal, m), list(hyps)


_ss = {}


def simp_sums(hyps, goal):
    """simplify the bodies of sums under the range of their index: rounding atoms, decided conditions, nested equalities"""
    for _ in range(3):
        sums = sorted((t for t in subterms([goal], into_sums=False) if t.op == 'sum'), key=lambda t: t.id)
        m = {}
        for a in sums[:40]:
            n = simp_body(hyps, a)
            if n is not a:
                m[a] = n
        if not m:
            return goal
        goal = subst(goal, m)
    return goal


def simp_body(hyps, a):
    key = (a, tuple(h.id for h in hyps))
    if key in _ss:
        return _ss[key]
    bv = fresh('sk', 'I')
    h2 = list(hyps) + [le(I(0), bv), lt(bv, a.args[1])]
    body = sum_inst(a, bv)
    b0 = body
    if any(t.op in ('trunc', 'rfloor', 'rceil') for t in subterms([body], into_sums=False)):
        body, _ = round_values(h2, body)
        body = decide_conds(h2, body)
        body = simp_sums(h2, body)
    body = canon_conds(h2, body)
    r = a if body is b0 else mksum(bv, a.args[1], body, a.sort)
    _ss[key] = r
    return r


_pos = {}


def _positive(hyps, a):
    k = (a, tuple(h.id for h in hyps))
    if k not in _pos:
        _pos[k] = check_sat(list(hyps) + [not_(lt(const(0, a.sort), a))], 0.3, level=0)[0] == 'unsat'
    return _pos[k]


def _radixes(hyps):
    out = []
    for h in hyps:
        if h.op == 'lt' and h.args[0].sort == 'I' and not isc(h.args[1]) and h.args[1] not in out:
            out.append(h.args[1])
    for n in list(out):
        if add(n, I(1)) not in out:
            out.append(add(n, I(1)))
    return out


def _nonlin(c):
    """an equality with a product or conditional at its polynomial level"""
    st = list(c.args)
    while st:
        x = st.pop()
        if x.op == 'add':
            st.extend(x.args)
        elif x.op == 'ite' or x.op == 'mul' and (len([a for a in x.args if not isc(a)]) > 1 or any(a.op == 'ite' for a in x.args)):
            return True
    return False


def canon_guard(hyps, c, depth=0):
    """equalities of two-dimensional indices are split, conditionals in them lifted, impossible alternatives dropped"""
    from arrays import pdivide
    if depth > 6:
        return c
    if c.op == 'and':
        args = list(c.args)
        for i, x in enumerate(args):
            args[i] = canon_guard(hyps + args[:i] + args[i + 1:], x, depth + 1)
        return and_(*args)
    if c.op == 'or':
        out = []
        args = [canon_guard(hyps, x, depth + 1) for x in c.args]
        if all(x is y for x, y in zip(args, c.args)):
            return c
        for x in args:
            if x is FALSE or check_sat(hyps + [x], 0.5, level=0)[0] == 'unsat':
                continue
            if check_sat(hyps + [not_(x)], 0.5, level=0)[0] == 'unsat':
                return TRUE
            out.append(x)
        return or_(*out)
    if c.op == 'eq' and c.args[0].sort == 'I':
        ic = [x for x in ite_conds(c) if not ite_conds(x)] if _nonlin(c) else None
        if ic:
            p = ic[0]
            return canon_guard(hyps, or_(and_(p, assume_in(c, p, True)), and_(not_(p), assume_in(c, p, False))), depth + 1)
        if _nonlin(c):
            d = sub(c.args[0], c.args[1])
            for n in _radixes(hyps):
                q, r = pdivide(d, n)
                if isc(q) or r is d:
                    continue
                if check_sat(hyps + [not_(and_(lt(mul(I(-1), n), r), lt(r, n)))], 0.5, level=0)[0] == 'unsat':
                    return and_(eq(q, I(0)), eq(r, I(0)))
    return c


def canon_conds(hyps, t):
    """conditions of conditionals: divide real comparisons by positive factors, split equalities of two-dimensional indices"""
    from arrays import pdivide
    for _ in range(6):
        m = {}
        for c in ite_conds(t):
            for x in subterms([c], into_sums=False):
                if x in m:
                    continue
                if x.op in ('le', 'lt') and x.args[0].sort == 'R':
                    try:
                        p = topoly(sub(x.args[1], x.args[0]))
                    except TooBig:
                        continue
                    if not p:
                        m[x] = B(x.op == 'le')
                        continue
                    ms = [dict(k) for k in p]
                    com = {a: min(d.get(a, 0) for d in ms) for a in ms[0] if all(d.get(a, 0) * ms[0][a] > 0 for d in ms)}
                    com = {a: (e if e > 0 else max(d.get(a, 0) for d in ms)) for a, e in com.items()}
                    com = {a: e for a, e in com.items() if e and _positive(hyps, a)}
                    if com:
                        q = {}
                        for k, v in p.items():
                            d = dict(k)
                            for a, e in com.items():
                                d[a] = d.get(a, 0) - e
                            q[tuple((a, d[a]) for a, _ in k if d[a] != 0)] = v
                        y = (le if x.op == 'le' else lt)(R(0), frompoly(q))
                        if y is not x:
                            m[x] = y
            if any(x.op == 'eq' and x.args[0].sort == 'I' and _nonlin(x) for x in subterms([c], into_sums=False)):
                g = canon_guard(list(hyps), c)
                if g is not c:
                    m[c] = g
        if not m:
            return t
        t = subst(t, m)
    return t


def decide_conds(hyps, t, limit=40):
    """replace conditions (of conditionals, or atoms of such conditions) that the hypotheses decide"""
    for _ in range(limit):
        atoms = []
        for c in ite_conds(t):
            for x in (c.args if c.op in ('and', 'or') else (c,)):
                if x.op == 'not':
                    x = x.args[0]
                if x not in atoms:
                    atoms.append(x)
        atoms = [x for x in atoms if (hyps and True) and not ite_conds(x) and not any(y.op == 'sum' for y in subterms([x], into_sums=False))]
        done = True
        for x in sorted(atoms, key=lambda x: x.id):
            k = (x, tuple(h.id for h in hyps))
            d = _dc.get(k)
            if d is None:
                d = 'n'
                if check_sat(list(hyps) + [not_(x)], 0.5, level=0)[0] == 'unsat':
                    d = True
                elif check_sat(list(hyps) + [x], 0.5, level=0)[0] == 'unsat':
                    d = False
                _dc[k] = d
            if d != 'n':
                t = assume_in(t, x, d)
                done = False
                break
        if done:
            return t
    return t


_dc = {}
_us_depth = [0]


def _eqs(a):
    g = a.args[0] if a.args[0].op != 'ite' else a.args[0].args[0]
    out = {}
    for c in (g.args if g.op == 'and' else (g,)):
        if c.op == 'eq' and c.args[0].sort == 'I':
            try:
                p = topoly(sub(c.args[0], c.args[1]))
            except TooBig:
                continue
            k = p.pop((), 0)
            if not p:
                continue
            it = sorted(p.items(), key=str)
            f = 1 if it[0][1] > 0 else -1
            out[tuple((m, f * v) for m, v in it)] = f * k
    return out


def _unlike(a, b):
    """heuristic: the two sums clearly select different elements, or are made of different quantities"""
    bv = var('$unlike', 'I')
    ea, eb = [_eqs(T_(sum_inst(x, bv))) for x in (a, b)]
    if any(k in eb and eb[k] != v for k, v in ea.items()):
        return True
    fa, fb = [{t.val for t in subterms([sum_inst(x, bv)], into_sums=False) if t.op == 'f'} for x in (a, b)]
    return fa != fb


class T_:
    def __init__(self, body):
        self.args = (body,)


def unify_sums(hyps, goal, timeout, deadline):
    """sums over the same range whose bodies agree pointwise are the same sum"""
    if _us_depth[0] > 2:
        return goal
    bad = set()
    for _ in range(24):
        sums = sorted((t for t in subterms([goal], into_sums=False) if t.op == 'sum'), key=lambda t: t.id)
        if len(sums) < 2 or len(sums) > 40:
            return goal
        done = True
        for i, a in enumerate(sums):
            for b in sums[i + 1:]:
                if a.sort != b.sort or (a, b) in bad or time.process_time() > deadline:
                    continue
                if len(sums) > 12 and _unlike(a, b):
                    continue
                if a.args[1] is not b.args[1] and not fast.prove(list(hyps), eq(a.args[1], b.args[1])):
                    continue
                bv = fresh('sk', 'I')
                _us_depth[0] += 1
                try:
                    r = _prove(list(hyps) + [le(I(0), bv), lt(bv, a.args[1])], eq(sum_inst(a, bv), sum_inst(b, bv)), min(timeout, 4.0), min(deadline, time.process_time() + 8.0), 1)
                finally:
                    _us_depth[0] -= 1
                if r.status == 'proved':
                    goal = subst(goal, {b: a})
                    done = False
                    break
                bad.add((a, b))
            if not done:
                break
        if done:
            return goal
    return goal


_rl = {}
_rl_busy = [False]


def round_lemmas(hyps, goal):
    """integer bounds of rounding atoms, from real bounds of their arguments proved separately"""
    if _rl_busy[0]:
        return []
    ats = sorted((t for t in subterms(list(hyps) + [goal], into_sums=False) if t.op in ('trunc', 'rfloor', 'rceil')), key=lambda t: t.id)
    if not ats or len(ats) > 12:
        return []
    out = []
    _rl_busy[0] = True
    try:
        for t in ats:
            x = t.args[0]
            hk = (t, tuple(h.id for h in hyps))
            r = _rl.get(hk)
            if r is None:
                r = []
                for lo in (1, 0, -1):
                    b = R(lo) if t.op != 'rceil' else R(lo - 1)
                    strict = t.op == 'rceil'
                    if _prove_real(hyps, lt(b, x) if strict else le(b, x)):
                        r.append(le(I(lo), t))
                        break
                ints = sorted({y.args[0] for y in subterms([x], into_sums=False) if y.op == 'i2r'} |
                              {y for h in hyps if fast.isint(h) for y in subterms([h], into_sums=False) if y.op == 'v' and y.sort == 'I' and y.val.startswith('nd:')}, key=lambda y: y.id)
                for n in ints[:4]:
                    for k in (-2, -1, 0):
                        U = add(n, I(k))
                        if t.op == 'rceil':
                            g = le(x, toR(U))
                        else:
                            g = lt(x, add(toR(U), R(1)))
                        if _prove_real(hyps, g):
                            r.append(le(t, U))
                            break
                _rl[hk] = r
            out += r
    finally:
        _rl_busy[0] = False
    return out


def _prove_real(hyps, g):
    st = check_sat(list(hyps) + [not_(g)], 0.5, level=0)[0]
    if st == 'unsat':
        return True
    if st == 'sat':
        return False
    try:
        ch = [canon(h) for h in hyps] + [canon(not_(g))]
        return nlsat(ch, 1.0)[0] == 'unsat'
    except TooBig:
        return False


def smt(hyps, goal, timeout, deadline):
    rl = round_lemmas(hyps, goal)
    if rl:
        hyps = list(hyps) + rl
    left = deadline - time.process_time()
    if left <= 0:
        return Result('unknown', 'deadline', hyps=hyps, goal=goal)
    timeout = min(timeout, left)
    neg_goal = not_(goal)
    hu = has_univ(hyps + [neg_goal])
    st, m = check_sat(hyps + [neg_goal], timeout, want_model=True, level=1)
    if st == 'unsat':
        return Result('proved', 'z3')
    if hu and st != 'unsat':
        st2, m2 = check_sat(hyps + [neg_goal], timeout, want_model=True, level=2)
        if st2 == 'unsat':
            return Result('proved', 'z3')
        if st2 == 'sat':
            st, m = st2, m2
        elif st == 'sat':
            st = 'unknown'
    if st == 'sat':
        return Result('refuted', 'z3', m, hyps, goal)
    # nlsat on canonical polynomial form
    try:
        ch = [canon(h) for h in hyps] + [canon(neg_goal)]
        st, m = nlsat(ch, min(timeout, 5.0))
        if st == 'unsat':
            return Result('proved', 'z3-nlsat')
    except TooBig:
        pass
    st = cvc5_check(hyps + [neg_goal], min(timeout, 10.0))
    if st == 'unsat':
        return Result('proved', 'cvc5')
    return Result('unknown', 'z3+cvc5', hyps=hyps, goal=goal)


def int_simplify(conds):
    """decide integer atoms by bound substitution so that the rest is a purely real problem"""
    hy = [c for c in conds if fast.isint(c)]
    ints = {}
    for c in conds:
        for x in subterms([c], into_sums=False):
            if x.sort == 'B' and x.op in ('lt', 'le', 'eq') and x not in ints and fast.isint(x):
                ints[x] = None
    m = {}
    for x in sorted(ints, key=lambda x: x.id):
        if fast.prove(hy, x):
            m[x] = TRUE
        elif fast.prove(hy, not_(x)):
            m[x] = FALSE
    out = []
    for c in conds:
        if c in hy:
            continue
        c2 = subst(c, m)
        if c2 is not TRUE:
            out.append(c2)
    return out + hy


def nlsat(conds, timeout):
    """purify: replace non-arithmetic atoms by variables, use the qfnra tactic"""
    facts, seen = closure(conds)
    facts, seen = univ_inst(conds, facts, seen, 1)
    conds = int_simplify(conds + facts)
    m = {}
    bv = {}

    def f(t):
        if t.op in ('f', 'sum', 'i2r', 'trunc') and t.sort in 'RI':
            x = m.get(t)
            if x is None:
                x = m[t] = var('pf!%d' % t.id, t.sort)
            return x
        return None
    # integer comparisons are relaxed to the reals (a < b becomes a + 1 <= b)
    ic = {}
    for c in conds:
        for x in subterms([c], into_sums=False):
            if x.op in ('lt', 'le', 'eq') and x.args[0].sort == 'I' and x not in ic:
                a_, b_ = toR(x.args[0]), toR(x.args[1])
                ic[x] = eq(a_, b_) if x.op == 'eq' else le(add(a_, R(1)), b_) if x.op == 'lt' else le(a_, b_)
    if ic:
        conds = [rewrite(c, lambda t_: ic.get(t_)) for c in conds]
    pc = [rewrite(c, f) for c in conds]
    if any(x.sort == 'I' for c in pc for x in subterms([c])):
        pc = [c for c in pc if not any(x.sort == 'I' for x in subterms([c]))]
    s = z3.Tactic('qfnra-nlsat').solver()
    s.set('rlimit', int(timeout * 2.5e6))
    s.set('timeout', int(timeout * 5000))
    for c in pc:
        s.add(z(c))
    t0 = time.time()
    r = s.check()
    STATS['z3_s'] += time.time() - t0
    STATS['z3_n'] += 1
    return (str(r), None)


def cvc5_check(conds, timeout):
    import subprocess
    facts, seen = closure(conds)
    facts, seen = univ_inst(conds, facts, seen, 1)
    s = z3.Solver()
    for c in conds + facts + product_lemmas(conds + facts, seen):
        s.add(z(c))
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(check-sat)', '') + '\n(check-sat)\n'
    t0 = time.time()
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '-'], input=txt,
                           capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
    except Exception:
        o = 'unknown'
    STATS['cvc5_s'] += time.time() - t0
    STATS['cvc5_n'] += 1
    return o if o in ('sat', 'unsat') else 'unknown'


# ---------------------------------------------------------------- signs by interval arithmetic
INF = float('inf')
_iv = {}


def _leaf(hyps, hk, a):
    k = (a, hk)
    r = _iv.get(k)
    if r is None:
        def holds(c):
            return check_sat(list(hyps) + [not_(c)], 0.3, level=0)[0] == 'unsat'
        z, o = const(0, a.sort), const(1, a.sort)
        lo = -INF
        if holds(lt(z, a)):
            lo = 1e-300
        elif holds(le(z, a)):
            lo = 0.0
        hi = 1.0 if lo >= 0 and holds(le(a, o)) else INF
        r = _iv[k] = (lo, hi)
    return r


def _imul(a, b):
    ps = [0.0 if x == 0 or y == 0 else x * y for x in a for y in b]
    lo, hi = min(ps), max(ps)
    if a[0] > 0 and b[0] > 0:
        lo = max(lo, 1e-300)
    if (a[0] > 0 and b[1] < 0) or (b[0] > 0 and a[1] < 0):
        hi = min(hi, -1e-300)
    if a[1] < 0 and b[1] < 0:
        lo = max(lo, 1e-300)
    return lo, hi


def interval(hyps, hk, pos, t):
    """enclosure of a real term; pos: products the hypotheses make positive. 1e-300 stands for 'greater than zero'"""
    if t.op == 'c':
        v = float(t.val)
        return v, v
    if t.op == 'i2r':
        return interval(hyps, hk, pos, t.args[0]) if t.args[0].op in ('c', 'ite', 'add', 'mul') else _leaf(hyps, hk, t.args[0])
    if t.op == 'ite':
        a, b = interval(hyps, hk, pos, t.args[1]), interval(hyps, hk, pos, t.args[2])
        return min(a[0], b[0]), max(a[1], b[1])
    if t.op == 'add':
        lo = hi = 0.0
        for x in t.args:
            a = interval(hyps, hk, pos, x)
            lo += a[0]
            hi += a[1]
        return lo, hi
    if t.op == 'mul':
        fs = list(t.args)
        r = (1.0, 1.0)
        for p in pos:
            ps = list(p.args) if p.op == 'mul' else [p]
            rest = list(fs)
            for x in ps:
                if x not in rest:
                    break
                rest.remove(x)
            else:
                fs, r = rest, (1e-300, INF)
                break
        for x in fs:
            r = _imul(r, interval(hyps, hk, pos, x))
        return r
    if t.op == 'pow':
        a = interval(hyps, hk, pos, t.args[0])
        if a[0] > 0:
            return 1e-300, INF
        if t.val > 0 and t.val % 2 == 0:
            return 0.0, INF
        return (0.0, INF) if a[0] >= 0 and t.val > 0 else (-INF, INF)
    return _leaf(hyps, hk, t)


def decide_signs(hyps, t):
    """real comparisons in conditions of conditionals that interval arithmetic decides"""
    hk = tuple(h.id for h in hyps)
    pos = []
    for h in hyps:
        for x in (h.args if h.op == 'and' else (h,)):
            if x.op == 'lt' and x.args[0].op == 'c' and x.args[0].val == 0 and x.args[0].sort == 'R' and x.args[1].op in ('mul', 'add'):
                pos.append(x.args[1])
    for _ in range(20):
        m = {}
        for c in [x.args[0] for x in subterms([t], into_sums=False) if x.op == 'ite']:
            for x in subterms([c], into_sums=False):
                if x.op in ('le', 'lt') and x.args[0].sort == 'R' and x not in m and any(y.op == 'ite' for y in subterms([x], into_sums=False)):
                    lo, hi = interval(hyps, hk, pos, sub(x.args[1], x.args[0]))
                    if lo > 0 or (lo >= 0 and x.op == 'le'):
                        m[x] = TRUE
                    elif hi < 0 or (hi <= 0 and x.op == 'lt'):
                        m[x] = FALSE
        if not m:
            return t
        t = subst(t, m)
    return t
