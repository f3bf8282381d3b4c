"""Hash-consed first-order terms over Int / Real / Bool with light normalisation.

Ints are mathematical integers, reals are mathematical reals.  Every term is
immutable and interned, so equality is identity.  Integer sums/products are kept
in expanded polynomial form; real ones are flattened and like terms collected.
"""
from fractions import Fraction as Fr
import sys
sys.setrecursionlimit(20000)

_tab = {}
_ids = [0]


class T:
    __slots__ = ('op', 'args', 'val', 'sort', 'id', 'fv', 'sh')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __bool__(self):
        raise TypeError('term used as python bool: %s' % show(self))


def mk(op, args, val, sort):
    key = (op, tuple(a.id for a in args), val, sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = tuple(args)
        t.val = val
        t.sort = sort
        _ids[0] += 1
        t.id = _ids[0]
        if op == 'v':
            t.fv = frozenset((val,))
            t.sh = 0
        else:
            f = frozenset()
            sh = 0
            for a in args:
                if a.fv:
                    f = f | a.fv if f else a.fv
                if a.sh > sh:
                    sh = a.sh
            if op == 'sum':
                f = f - frozenset((val,))
                sh += 1
            t.fv = f
            t.sh = sh
        _tab[key] = t
    return t


def I(n):
    return mk('c', (), int(n), 'I')


def R(x):
    return mk('c', (), Fr(x), 'R')


TRUE = mk('c', (), True, 'B')
FALSE = mk('c', (), False, 'B')


def B(b):
    return TRUE if b else FALSE


def var(name, sort):
    return mk('v', (), name, sort)


_fresh = [0]


def fresh(pfx, sort):
    _fresh[0] += 1
    return var('%s!%d' % (pfx, _fresh[0]), sort)


def app(name, args, sort):
    return mk('f', tuple(args), name, sort)


def isc(t):
    return t.op == 'c'


def const(v, sort):
    return mk('c', (), Fr(v) if sort == 'R' else int(v), sort)


# ---------------------------------------------------------------- arithmetic
def _coef(t):
    """split t into (coefficient, rest or None)"""
    if t.op == 'c':
        return t.val, None
    if t.op == 'mul' and t.args[0].op == 'c':
        r = t.args[1:]
        return t.args[0].val, (r[0] if len(r) == 1 else mk('mul', r, None, t.sort))
    return 1, t


def _scale(c, rest, sort):
    if rest is None:
        return const(c, sort)
    if c == 1:
        return rest
    if c == 0:
        return const(0, sort)
    if rest.op == 'mul':
        return mk('mul', (const(c, sort),) + rest.args, None, sort)
    return mk('mul', (const(c, sort), rest), None, sort)


def add(*args):
    sort = 'R' if any(a.sort == 'R' for a in args) else 'I'
    acc = {}
    k = 0
    stack = list(args)
    stack.reverse()
    while stack:
        a = stack.pop()
        if a.sort == 'B':
            a = b2i(a)
        if sort == 'R' and a.sort == 'I':
            a = i2r(a)
        if a.op == 'add':
            stack.extend(reversed(a.args))
            continue
        c, r = _coef(a)
        if r is None:
            k += c
        elif r.op == 'add':      # coefficient times a sum: distribute
            for x in r.args:
                stack.append(mul(const(c, sort), x))
        else:
            acc[r] = acc.get(r, 0) + c
    if sort == 'I':
        for r in list(acc):
            c = acc.get(r, 0)
            if r.op == 'imod' and c != 0:
                # c*(a mod n) + c*n*(a div n) = c*a
                a, n = r.args
                p = mul(n, mk('idiv', (a, n), None, 'I'))
                ms = [_coef(x) for x in (p.args if p.op == 'add' else (p,))]
                lead = ms[0]
                for m in ms:
                    if m[1] is not None and m[1].op == 'mul' and len(m[1].args) > len(lead[1].args if lead[1].op == 'mul' else (1,)):
                        lead = m
                if lead[1] is not None and acc.get(lead[1], 0) == c * lead[0]:
                    rest = [_scale(v, x, 'I') for x, v in acc.items() if x is not r and v != 0]
                    return add(const(k, 'I'), mul(const(c, 'I'), a), mul(const(-c, 'I'), p), *rest)
    out = []
    for r in sorted(acc, key=lambda t: t.id):
        c = acc[r]
        if c != 0:
            out.append(_scale(c, r, sort))
    if k != 0 or not out:
        out.append(const(k, sort))
    if len(out) == 1:
        return out[0]
    return mk('add', out, None, sort)


def neg(a):
    if a.sort == 'B':
        a = b2i(a)
    return mul(const(-1, a.sort), a)


def sub(a, b):
    return add(a, neg(b))


def mul(*args):
    sort = 'R' if any(a.sort == 'R' for a in args) else 'I'
    k = Fr(1) if sort == 'R' else 1
    pw = {}
    sums = []
    stack = list(args)
    while stack:
        a = stack.pop()
        if a.sort == 'B':
            a = b2i(a)
        if sort == 'R' and a.sort == 'I':
            a = i2r(a)
        if a.op == 'c':
            k *= a.val
        elif a.op == 'mul':
            stack.extend(a.args)
        elif a.op == 'pow':
            pw[a.args[0]] = pw.get(a.args[0], 0) + a.val
        else:
            pw[a] = pw.get(a, 0) + 1
    if k == 0:
        return const(0, sort)
    if sort == 'I':
        # expand sums
        sums = [(b, e) for b, e in pw.items() if b.op == 'add' and e > 0]
        if sums:
            rest = [(b, e) for b, e in pw.items() if not (b.op == 'add' and e > 0)]
            terms = [mul(const(k, sort), *[b for b, e in rest for _ in range(e)])]
            for b, e in sums:
                for _ in range(e):
                    terms = [mul(x, y) for x in terms for y in b.args]
            return add(*terms)
    fs = []
    for b in sorted(pw, key=lambda t: t.id):
        e = pw[b]
        if e == 0:
            continue
        if e == 1:
            fs.append(b)
        elif sort == 'I':
            fs.extend([b] * e)
        else:
            fs.append(mk('pow', (b,), e, sort))
    if not fs:
        return const(k, sort)
    if len(fs) == 1 and fs[0].op == 'add' and k != 1:
        return add(*[mul(const(k, sort), x) for x in fs[0].args])
    if k == 1 and len(fs) == 1:
        return fs[0]
    if k != 1:
        fs = [const(k, sort)] + fs
    return mk('mul', fs, None, sort)


def ipow(a, n):
    a = toR(a)
    if n == 0:
        return R(1)
    if a.op == 'c' and (a.val != 0 or n > 0):
        return R(a.val ** n)
    if a.op == 'pow':
        return ipow(a.args[0], a.val * n)
    if a.op == 'mul':
        return mul(*[ipow(x, n) for x in a.args])
    if n == 1:
        return a
    return mk('pow', (a,), n, 'R')


def div(a, b):
    """real division"""
    return mul(toR(a), ipow(toR(b), -1))


def idiv(a, b):
    if isc(a) and isc(b) and b.val != 0:
        q = abs(a.val) // abs(b.val)
        return I(q if (a.val >= 0) == (b.val > 0) else -q)
    if isc(b) and b.val == 1:
        return a
    if isc(b) and b.val > 0:
        # exact division of all coefficients
        ts = a.args if a.op == 'add' else (a,)
        if all(_coef(x)[0] % b.val == 0 for x in ts):
            return add(*[_scale(_coef(x)[0] // b.val, _coef(x)[1], 'I') for x in ts])
    if a is b:
        return I(1)
    # exact division by a symbol appearing in all monomials
    if b.op == 'v':
        ts = a.args if a.op == 'add' else (a,)
        if all(b in (x.args if x.op == 'mul' else (x,)) for x in ts):
            out = []
            for x in ts:
                fs = list(x.args) if x.op == 'mul' else [x]
                fs.remove(b)
                out.append(mul(*fs) if fs else I(1))
            return add(*out)
    return mk('idiv', (a, b), None, 'I')


def imod(a, b):
    if isc(a) and isc(b) and b.val != 0:
        r = abs(a.val) % abs(b.val)
        return I(r if a.val >= 0 else -r)
    return mk('imod', (a, b), None, 'I')


def i2r(a):
    if a.sort == 'R':
        return a
    if a.sort == 'B':
        return ite(a, R(1), R(0))
    if isc(a):
        return R(a.val)
    if a.op == 'add':
        return add(*[i2r(x) for x in a.args])
    if a.op == 'mul':
        return mul(*[i2r(x) for x in a.args])
    if a.op == 'ite':
        return ite(a.args[0], i2r(a.args[1]), i2r(a.args[2]))
    if a.op == 'sum':
        bv = fresh('sb', 'I')
        return mksum(bv, a.args[1], i2r(subst(a.args[0], {var(a.val, 'I'): bv})), 'R')
    return mk('i2r', (a,), None, 'R')


def toR(a):
    return a if a.sort == 'R' else i2r(a)


def toI(a):
    """C conversion double -> int (truncation)"""
    if a.sort == 'I':
        return a
    if a.sort == 'B':
        return b2i(a)
    if isc(a):
        return I(int(a.val))
    r = r2i_exact(a)
    if r is not None:
        return r
    if a.op == 'ite':
        return ite(a.args[0], toI(a.args[1]), toI(a.args[2]))
    return mk('trunc', (a,), None, 'I')


def r2i_exact(a):
    if a.op == 'i2r':
        return a.args[0]
    if isc(a) and a.val.denominator == 1:
        return I(int(a.val))
    if a.op in ('add', 'mul'):
        xs = [r2i_exact(x) for x in a.args]
        if all(x is not None for x in xs):
            return add(*xs) if a.op == 'add' else mul(*xs)
    if a.op == 'ite':
        x, y = r2i_exact(a.args[1]), r2i_exact(a.args[2])
        if x is not None and y is not None:
            return ite(a.args[0], x, y)
    if a.op == 'floor':
        return a.args[0] if False else mk('rfloor', a.args, None, 'I')
    if a.op == 'ceil':
        return mk('rceil', a.args, None, 'I')
    return None


_rn = {}


def rnorm(a):
    """a = integer part + rest, after cancelling denominators.  returns (Int term, Real term)"""
    r = _rn.get(a)
    if r is not None:
        return r
    x = a
    if any(y.op == 'pow' and y.val < 0 for y in subterms([a], into_sums=False)):
        try:
            x = frompoly(cancel(_reduce(topoly(a))))
        except (TooBig, RecursionError):
            x = a
    ts = x.args if x.op == 'add' else (x,)
    ip, rest = [], []
    for y in ts:
        e = r2i_exact(y)
        if e is not None:
            ip.append(e)
        elif isc(y) and y.val.denominator != 1:
            rest.append(y)
        else:
            rest.append(y)
    r = (add(*ip) if ip else I(0), add(*rest) if rest else R(0))
    _rn[a] = r
    return r


def cancel(p):
    """exact division of the terms sharing a sum denominator by that denominator"""
    for _ in range(6):
        dens = []
        for m in p:
            for a, e in m:
                if e < 0 and a.op == 'add' and a not in dens:
                    dens.append(a)
        done = True
        for den in sorted(dens, key=lambda t: -len(t.args)):
            sel = {m: v for m, v in p.items() if dict(m).get(den, 0) == -1}
            oth = {m: v for m, v in p.items() if dict(m).get(den, 0) != -1}
            if not sel:
                continue
            n = {}
            for m, v in sel.items():
                n = padd(n, {tuple((a, e) for a, e in m if a is not den): v})
            q = pdiv(n, topoly(den))
            if q is None and len(sel) > 1:
                # factor by factor (monomials that share the same cofactor)
                continue
            if q is not None:
                p = padd(oth, q)
                done = False
                break
        if done:
            break
    return p


def pdiv(n, d):
    """exact Laurent-polynomial quotient n/d or None"""
    key = lambda m: tuple(sorted(((a.id, e) for a, e in m), reverse=True))
    atoms_ = {a for m in d for a, e in m}
    if not d:
        return None
    lead = max(d, key=key)
    lc = d[lead]
    inv = tuple((a, -e) for a, e in lead)
    q = {}
    for _ in range(40):
        if not n:
            return q
        m = max(n, key=lambda x: (sum(e for a, e in x if a in dict(lead)), key(x)))
        t = {mmul(m, inv): n[m] / lc}
        q = padd(q, t)
        n = padd(n, pmul(t, d), -1)
    return None


def _round(op, a):
    if isc(a):
        v = a.val
        return R(v.numerator // v.denominator) if op == 'rfloor' else R(-((-v.numerator) // v.denominator))
    if a.op == 'ite':
        return ite(a.args[0], _round(op, a.args[1]), _round(op, a.args[2]))
    if r2i_exact(a) is not None:
        return a
    n, r = rnorm(a)
    if isc(r):
        return add(i2r(n), _round(op, r))
    return add(i2r(n), i2r(mk(op, (r,), None, 'I')))


def floor(a):
    return _round('rfloor', a)


def ceil(a):
    return _round('rceil', a)


def b2i(a):
    return ite(a, I(1), I(0)) if a.sort == 'B' else a


def tobool(a):
    if a.sort == 'B':
        return a
    return ne(a, const(0, a.sort))


# ---------------------------------------------------------------- booleans
_notm = {}


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    r = _notm.get(a)
    if r is not None:
        return r
    if a.op == 'lt':
        r = le(a.args[1], a.args[0])
    elif a.op == 'le':
        r = lt(a.args[1], a.args[0])
    elif a.op == 'and':
        r = or_(*[not_(x) for x in a.args])
    elif a.op == 'or':
        r = and_(*[not_(x) for x in a.args])
    elif a.op == 'ite':
        r = ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    else:
        r = mk('not', (a,), None, 'B')
    _notm[a] = r
    return r


def _flat(op, args):
    seen = {}
    for a in args:
        if a.op == op:
            for x in a.args:
                seen[x] = 1
        else:
            seen[a] = 1
    return seen


def and_(*args):
    s = _flat('and', args)
    if FALSE in s:
        return FALSE
    s.pop(TRUE, None)
    drop = []
    for x in s:
        if x.op == 'or':
            if any(y in s for y in x.args):
                drop.append(x)
            elif all(not_(y) in s for y in x.args):
                return FALSE
        elif not_(x) in s:
            return FALSE
    for x in drop:
        s.pop(x)
    xs = sorted(s, key=lambda t: t.id)
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return mk('and', xs, None, 'B')


def or_(*args):
    s = _flat('or', args)
    if TRUE in s:
        return TRUE
    s.pop(FALSE, None)
    drop = []
    for x in s:
        if x.op == 'and':
            if any(y in s for y in x.args):
                drop.append(x)
            elif all(not_(y) in s for y in x.args):
                return TRUE
        elif not_(x) in s:
            return TRUE
    for x in drop:
        s.pop(x)
    xs = sorted(s, key=lambda t: t.id)
    if not xs:
        return FALSE
    if len(xs) == 1:
        return xs[0]
    return mk('or', xs, None, 'B')


def implies(a, b):
    return or_(not_(a), b)


def _unify_sort(a, b):
    if a.sort == b.sort:
        return a, b
    if a.sort == 'B':
        a = b2i(a)
    if b.sort == 'B':
        b = b2i(b)
    if a.sort != b.sort:
        a, b = toR(a), toR(b)
    return a, b


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'B' and b.sort == 'B':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if a.id > b.id:
            a, b = b, a
        return mk('eq', (a, b), None, 'B')
    a, b = _unify_sort(a, b)
    if isc(a) and isc(b):
        return B(a.val == b.val)
    d = sub(a, b)
    if isc(d):
        return B(d.val == 0)
    # ite with constant branches
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and isc(y) and (isc(x.args[1]) or isc(x.args[2])):
            c, p, q = x.args
            return ite(c, eq(p, y), eq(q, y))
    if a.sort == 'I':
        # both sides integer valued: canonical sign and gcd test
        ts = d.args if d.op == 'add' else (d,)
        cs = [_coef(x) for x in ts]
        from math import gcd
        g = 0
        k = 0
        for c, r in cs:
            if r is None:
                k = c
            else:
                g = gcd(g, abs(c))
        if g > 1 and k % g:
            return FALSE
    r = r2i_pair(a, b)
    if r:
        return eq(*r)
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), None, 'B')


def r2i_pair(a, b):
    if a.sort == 'R':
        x, y = r2i_exact(a), r2i_exact(b)
        if x is not None and y is not None:
            return x, y
    return None


def ne(a, b):
    return not_(eq(a, b))


def lt(a, b):
    if a is b:
        return FALSE
    a, b = _unify_sort(a, b)
    if isc(a) and isc(b):
        return B(a.val < b.val)
    d = sub(a, b)
    if isc(d):
        return B(d.val < 0)
    if a.op == 'ite' and isc(b) and isc(a.args[1]) and isc(a.args[2]):
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == 'ite' and isc(a) and isc(b.args[1]) and isc(b.args[2]):
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    r = r2i_pair(a, b)
    if r:
        return lt(*r)
    return mk('lt', (a, b), None, 'B')


def le(a, b):
    if a is b:
        return TRUE
    a, b = _unify_sort(a, b)
    if a.sort == 'I':
        return lt(a, add(b, I(1)))
    if isc(a) and isc(b):
        return B(a.val <= b.val)
    d = sub(a, b)
    if isc(d):
        return B(d.val <= 0)
    if a.op == 'ite' and isc(b) and isc(a.args[1]) and isc(a.args[2]):
        return ite(a.args[0], le(a.args[1], b), le(a.args[2], b))
    if b.op == 'ite' and isc(a) and isc(b.args[1]) and isc(b.args[2]):
        return ite(b.args[0], le(a, b.args[1]), le(a, b.args[2]))
    r = r2i_pair(a, b)
    if r:
        return le(*r)
    return mk('le', (a, b), None, 'B')


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        a, b = _unify_sort(a, b)
        if a is b:
            return a
    if a.sort == 'B':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    nc = not_(c)
    if a.op == 'ite' and a.args[0] is nc:
        a = a.args[2]
    if b.op == 'ite' and b.args[0] is nc:
        b = b.args[1]
    if a is b:
        return a
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if SUMITE and a.sort == 'R' and (a.op == 'add' or b.op == 'add'):
        # what both alternatives have in common is added unconditionally
        xa, xb = (a.args if a.op == 'add' else (a,)), (b.args if b.op == 'add' else (b,))
        com = [x for x in xa if x in xb]
        if com:
            return add(*com, ite(c, add(*[x for x in xa if x not in com]), add(*[x for x in xb if x not in com])))
    return mk('ite', (c, a, b), None, a.sort)


SUMITE = False      # OPTION("sums", 1)


# ---------------------------------------------------------------- sums
def mksum(bv, n, body, sort=None):
    """Sum_{bv=0}^{n-1} body, bv a variable term, n an Int term (max(0,n) terms)"""
    sort = sort or body.sort
    if sort == 'R':
        body = toR(body)
    if isc(n):
        if n.val <= 0:
            return const(0, sort)
        if n.val <= 16:
            return add(*[subst(body, {bv: I(k)}) for k in range(n.val)])
    if isc(body) and body.val == 0:
        return body
    if body.op == 'add':
        return add(*[mksum(bv, n, x, sort) for x in body.args])
    if body.op == 'mul':
        inn = [x for x in body.args if bv.val in x.fv]
        out = [x for x in body.args if bv.val not in x.fv]
        if out:
            return mul(*(out + [mksum(bv, n, mul(*inn) if inn else const(1, sort), sort)]))
    if bv.val not in body.fv:
        cnt = ite(lt(I(0), n), n, I(0))
        return mul(body, toR(cnt) if sort == 'R' else cnt)
    if body.op == 'ite' and bv.val not in body.args[0].fv:
        return ite(body.args[0], mksum(bv, n, body.args[1], sort), mksum(bv, n, body.args[2], sort))
    if body.op == 'ite' and isc(body.args[2]) and body.args[2].val == 0:
        c = body.args[0]
        cs = list(c.args) if c.op == 'and' else [c]
        hoist = [x for x in cs if bv.val not in x.fv]
        if hoist:
            rest = [x for x in cs if bv.val in x.fv]
            zero = const(0, sort)
            return ite(and_(*hoist), mksum(bv, n, ite(and_(*rest), body.args[1], zero), sort), zero)
        for x in cs:
            t = _solve_for(x, bv) if x.op == 'eq' and x.args[0].sort == 'I' else None
            if t is not None:
                m = {bv: t}
                rest = [subst(y, m) for y in cs if y is not x]
                return ite(and_(le(I(0), t), lt(t, n), *rest), subst(body.args[1], m), const(0, sort))
    h = body.sh + 1
    nm = '$b%d' % h
    if nm != bv.val:
        body = subst(body, {bv: var(nm, 'I')})
    return mk('sum', (body, n), nm, sort)


def _solve_for(e, bv):
    """t with (bv == t) equivalent to the integer equation e, or None"""
    d = sub(e.args[0], e.args[1])
    for sg in (1, -1):
        t = sub(bv, d) if sg == 1 else add(bv, d)
        if bv.val not in t.fv:
            return t
    return None


def open_sum(t, name=None):
    """returns (fresh bound var, n, body)"""
    bv = fresh(name or 'sb', 'I')
    return bv, t.args[1], subst(t.args[0], {var(t.val, 'I'): bv})


def sum_inst(t, idx):
    return subst(t.args[0], {var(t.val, 'I'): idx})


# ---------------------------------------------------------------- rebuild / substitution
def rebuild(t, args):
    op = t.op
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'pow':
        return ipow(args[0], t.val)
    if op == 'idiv':
        return idiv(*args)
    if op == 'imod':
        return imod(*args)
    if op == 'i2r':
        return i2r(args[0])
    if op == 'trunc':
        return toI(args[0])
    if op == 'rfloor':
        x = floor(args[0])
        r = r2i_exact(x)
        return r if r is not None else mk('rfloor', args, None, 'I')
    if op == 'rceil':
        x = ceil(args[0])
        r = r2i_exact(x)
        return r if r is not None else mk('rceil', args, None, 'I')
    if op == 'ite':
        return ite(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'lt':
        return lt(*args)
    if op == 'le':
        return le(*args)
    if op == 'not':
        return not_(args[0])
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'f':
        h = APP_SIMP.get(t.val)
        if h:
            r = h(args)
            if r is not None:
                return r
        return mk('f', args, t.val, t.sort)
    raise ValueError(op)


APP_SIMP = {}


def subst(t, m):
    """simultaneous substitution {term(var or app): term}"""
    if not m:
        return t
    names = set()
    allv = True
    for k in m:
        if k.op == 'v':
            names.add(k.val)
        else:
            allv = False
    memo = {}

    def go(t):
        if t in m:
            return m[t]
        if not t.args:
            return t
        if allv and names.isdisjoint(t.fv):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'sum':
            bv = fresh('sb', 'I')
            body = subst(t.args[0], {var(t.val, 'I'): bv})
            r = mksum(bv, go(t.args[1]), subst(body, m), t.sort)
        else:
            na = [go(a) for a in t.args]
            if all(x is y for x, y in zip(na, t.args)):
                r = t
            else:
                r = rebuild(t, na)
        memo[t] = r
        return r
    return go(t)


def rewrite(t, f, memo=None):
    """bottom-up rewriting: f(term) -> term or None after children are rewritten.
    Bodies of sums are opened with fresh variables."""
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if not t.args:
            r = t
        elif t.op == 'sum':
            bv, n, body = open_sum(t)
            r = mksum(bv, go(n), go(body), t.sort)
        else:
            na = [go(a) for a in t.args]
            r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
        x = f(r)
        if x is not None:
            r = x
        memo[t] = r
        return r
    return go(t)


def subterms(ts, into_sums=True):
    seen = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen[t] = 1
        if t.op == 'sum' and not into_sums:
            stack.append(t.args[1])
            continue
        stack.extend(t.args)
    return seen


# ---------------------------------------------------------------- polynomial / rational normal form
class TooBig(Exception):
    pass


LIMIT = 60000


def padd(p, q, c=1):
    r = dict(p)
    for m, v in q.items():
        x = r.get(m, 0) + c * v
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for t, e in b:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e), key=lambda x: x[0].id))


def pmul(p, q):
    r = {}
    if len(p) * len(q) > LIMIT * 20:
        raise TooBig()
    for m1, v1 in p.items():
        for m2, v2 in q.items():
            m = mmul(m1, m2)
            x = r.get(m, 0) + v1 * v2
            if x:
                r[m] = x
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def topoly(t, memo=None):
    """expand t (Real/Int) into {monomial: coeff}; monomial = tuple((atom,exp)).
    Negative exponents only on atoms (single atoms or canonical 'add' denominators)."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'c':
        r = {(): Fr(t.val)} if t.val else {}
    elif t.op == 'add':
        r = {}
        for a in t.args:
            r = padd(r, topoly(a, memo))
    elif t.op == 'mul':
        r = {(): Fr(1)}
        for a in t.args:
            r = pmul(r, topoly(a, memo))
    elif t.op == 'pow':
        b = topoly(t.args[0], memo)
        n = t.val
        if n > 0:
            r = {(): Fr(1)}
            for _ in range(n):
                r = pmul(r, b)
        else:
            if len(b) == 1:
                (m, v), = b.items()
                r = {tuple((x, e * n) for x, e in m): Fr(v) ** n}
            elif not b:
                r = {((t, 1),): Fr(1)}
            else:
                # canonical denominator: leading coefficient 1
                lead = max(b, key=lambda m: tuple((x.id, e) for x, e in m))
                lc = b[lead]
                d = frompoly({m: v / lc for m, v in b.items()})
                r = {((d, n),): Fr(lc) ** n}
    else:
        r = {((t, 1),): Fr(1)}
    memo[t] = r
    return r


def frompoly(p, sort='R'):
    ts = []
    for m, v in p.items():
        ts.append(mul(const(v, sort), *[ipow(a, e) if e != 1 else a for a, e in m]))
    return add(*ts) if ts else const(0, sort)


def ratzero(t, nz=None):
    """True iff t is identically zero as a rational function of its atoms."""
    p = topoly(canon(t))
    for _ in range(60):
        if not p:
            return True
        # find a sum denominator
        den = None
        for m in p:
            for a, e in m:
                if e < 0 and a.op == 'add':
                    den = a
                    break
            if den is not None:
                break
        if den is None:
            return False
        k = max(-e for m in p for a, e in m if a is den)
        D = topoly(den)
        q = {}
        powers = {0: {(): Fr(1)}}
        for m, v in p.items():
            e = dict(m).get(den, 0)
            rest = tuple((a, x) for a, x in m if a is not den)
            n = k + e
            if n not in powers:
                x = powers[0]
                for _ in range(n):
                    x = pmul(x, D)
                powers[n] = x
            q = padd(q, pmul({rest: v}, powers[n]))
        p = q
    return False


_canon = {}


def canon(t):
    """deep canonicalisation: polynomial-normalise every real subterm"""
    r = _canon.get(t)
    if r is not None:
        return r

    def f(x):
        if x.sort == 'R' and x.op in ('add', 'mul', 'pow'):
            try:
                p = topoly(x)
            except TooBig:
                return x
            p = _reduce(p)
            return frompoly(p)
        if x.op in ('eq', 'lt', 'le') and x.args[0].sort == 'R':
            d = sub(x.args[0], x.args[1])
            try:
                p = _reduce(topoly(d))
            except TooBig:
                return None
            if not p:
                return B(x.op != 'lt')
            lead = max(p, key=lambda m: tuple((y.id, e) for y, e in m))
            lc = abs(p[lead]) if x.op != 'eq' else p[lead]
            return mk(x.op, (frompoly({m: v / lc for m, v in p.items()}), R(0)), None, 'B') \
                if not (len(p) == 1 and () in p) else B(eval(str(p[()]) + {'eq': '==0', 'lt': '<0', 'le': '<=0'}[x.op], {'Fraction': Fr}) if False else
                                                    {'eq': p[()] == 0, 'lt': p[()] < 0, 'le': p[()] <= 0}[x.op])
        return None
    r = rewrite(t, f)
    _canon[t] = r
    return r


def _reduce(p):
    """rewrite sqrt(a)^2 -> a, cos^2 -> 1-sin^2, ind^2 -> ind"""
    for _ in range(20):
        ch = False
        q = {}
        for m, v in p.items():
            hit = None
            for a, e in m:
                if e >= 2 and ((a.op == 'f' and a.val in ('sqrt', 'cos')) or
                               (a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]) and a.args[1].val == 1 and a.args[2].val == 0)):
                    hit = (a, e)
                    break
                if e <= -2 and a.op == 'f' and a.val == 'sqrt':
                    hit = (a, e)
                    break
            if hit is None:
                q = padd(q, {m: v})
                continue
            ch = True
            a, e = hit
            rest = tuple((x, y) for x, y in m if x is not a)
            if a.op == 'ite':
                q = padd(q, {mmul(rest, ((a, 1),)): v})
            elif a.val == 'sqrt':
                s = 1 if e > 0 else -1
                inner = topoly(ipow(a.args[0], s))
                left = {mmul(rest, ((a, e - 2 * s),) if e != 2 * s else ()): v}
                q = padd(q, pmul(left, inner))
            else:
                sn = app('sin', a.args, 'R')
                left = {mmul(rest, ((a, e - 2),) if e != 2 else ()): v}
                q = padd(q, left)
                q = padd(q, pmul(left, {((sn, 2),): Fr(-1)}))
        p = q
        if not ch:
            break
    return p


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if depth == 0:
        return '...'
    op = t.op
    if op == 'c':
        if t.sort == 'R':
            f = float(t.val)
            return ('%g' % f) if Fr(repr(f)) == t.val else str(t.val)
        return str(t.val)
    if op == 'v':
        return t.val
    a = [show(x, depth - 1) for x in t.args]
    if op == 'f':
        return '%s(%s)' % (t.val, ', '.join(a))
    if op == 'add':
        return '(' + ' + '.join(a) + ')'
    if op == 'mul':
        return '*'.join(a)
    if op == 'pow':
        return '%s^%d' % (a[0], t.val)
    if op == 'sum':
        return 'SUM[%s<%s](%s)' % (t.val, a[1], a[0])
    if op == 'i2r':
        return a[0]
    if op == 'ite':
        return '(%s ? %s : %s)' % tuple(a)
    if op in ('eq', 'lt', 'le'):
        return '(%s %s %s)' % (a[0], {'eq': '==', 'lt': '<', 'le': '<='}[op], a[1])
    if op == 'and':
        return '(' + ' && '.join(a) + ')'
    if op == 'or':
        return '(' + ' || '.join(a) + ')'
    if op == 'not':
        return '!' + a[0]
    return '%s(%s)' % (op, ', '.join(a))
