"""Fast prover for integer index conditions: bound substitution over polynomial atoms.

To show D >= 0 pick an atom v occurring linearly in D = c*v + d; when the sign of c is known
replace v by one of its known bounds.  Sound; incomplete (callers fall back to SMT)."""
from terms import *
import terms as tm
import solver

_db = {}
_pr = {}
STAT = {'q': 0, 'hit': 0, 'pool_skip': 0}


def lin(e, v):
    ts = e.args if e.op == 'add' else (e,)
    c, rest = [], []
    for x in ts:
        if x is v:
            c.append(I(1))
            continue
        if x.op == 'mul':
            n = x.args.count(v)
            if n == 0:
                rest.append(x)
            elif n == 1:
                fs = list(x.args)
                fs.remove(v)
                c.append(mul(*fs))
            else:
                return None
        else:
            rest.append(x)
    return (add(*c) if c else I(0)), (add(*rest) if rest else I(0))


def atoms(e):
    out = []
    for x in (e.args if e.op == 'add' else (e,)):
        for f in (x.args if x.op == 'mul' else (x,)):
            if f.op != 'c' and f not in out:
                out.append(f)
    return out


def lits(h):
    """polynomials known >= 0"""
    if h.op == 'and':
        for a in h.args:
            yield from lits(a)
    elif h.op == 'lt' and h.args[0].sort == 'I':
        yield add(h.args[1], neg(h.args[0]), I(-1))
    elif h.op == 'eq' and h.args[0].sort == 'I':
        d = sub(h.args[0], h.args[1])
        yield d
        yield neg(d)


def polysimple(d):
    return all(a.op in ('v', 'f', 'idiv', 'imod', 'trunc', 'rfloor', 'rceil', 'sum') for a in atoms(d)) and len(d.args if d.op == 'add' else (d,)) <= 12


class DB:
    def __init__(self, hyps):
        self.lo, self.up = {}, {}
        self.nes = set()
        self.loaded = set()
        self.memo = {}
        for h in hyps:
            self.add(h)

    def add(self, h):
        for d in lits(h):
            self.addpoly(d)
        if h.op == 'not' and h.args[0].op == 'eq' and h.args[0].args[0].sort == 'I':
            self.nes.add(sub(*h.args[0].args))
            self.nes.add(sub(h.args[0].args[1], h.args[0].args[0]))

    def addpoly(self, d):
        if isc(d) or not polysimple(d):
            return
        for x in (d.args if d.op == 'add' else (d,)):
            c, r = tm._coef(x)
            if r is None or r.op == 'mul':
                continue
            if c == 1:
                self.lo.setdefault(r, []).append(sub(r, d))
            elif c == -1:
                self.up.setdefault(r, []).append(add(d, r))
            elif len(d.args if d.op == 'add' else (d,)) <= 2:
                k = d.args[1].val if d.op == 'add' and isc(d.args[1]) else (d.args[0].val if d.op == 'add' and isc(d.args[0]) else (0 if d.op != 'add' else None))
                if k is None:
                    continue
                if c > 1:
                    self.lo.setdefault(r, []).append(I(-((k) // c)))
                else:
                    self.up.setdefault(r, []).append(I(k // -c))

    def load(self, v):
        """facts attached to the atom"""
        if v in self.loaded:
            return
        self.loaded.add(v)
        if v.op in ('v', 'f'):
            for f in solver.facts_of(v):
                self.add(f)
            if v.op == 'f':
                for f in solver.facts_of(v):
                    if f.op == 'or':
                        pass
        elif v.op in ('idiv', 'imod'):
            a, n = v.args
            pos = self.nonneg(sub(n, I(1)), 20) and self.nonneg(a, 20)
            if not pos:
                return
            if v.op == 'imod':
                self.lo.setdefault(v, []).append(I(0))
                self.up.setdefault(v, []).append(sub(n, I(1)))
                return
            self.lo.setdefault(v, []).append(I(0))
            # upper bounds of a
            from arrays import pdivide
            if a.op in ('v', 'f'):
                self.load(a)
                for u in list(self.up.get(a, [])):
                    q, r = pdivide(u, n)
                    for k in (0, 1, -1):
                        rr = add(r, mul(I(k), n))
                        if self.nonneg(sub(sub(n, I(1)), rr), 20):
                            self.up.setdefault(v, []).append(sub(q, I(k)))
                            break

    def nonneg(self, d, fuel=60):
        f = [fuel]
        return self._nn(d, f, 0)

    def _nn(self, d, fuel, depth):
        if isc(d):
            return d.val >= 0
        r = self.memo.get(d)
        if r is not None:
            return r
        if fuel[0] <= 0 or depth > 9 or not polysimple(d):
            return False
        fuel[0] -= 1
        self.memo[d] = False       # cut cycles
        ok = self._nn1(d, fuel, depth)
        if ok:
            self.memo[d] = True
        elif fuel[0] > 0:
            self.memo[d] = False
        else:
            self.memo.pop(d, None)
        return ok

    def _nn1(self, d, fuel, depth):
        ats = atoms(d)
        for a in ats:
            self.load(a)
        ats.sort(key=lambda a: (a.op == 'v' and a.val.startswith('nd:'), -a.id))
        tried = 0
        for v in ats:
            l = lin(d, v)
            if l is None:
                continue
            c, r = l
            if isc(c):
                s = 1 if c.val > 0 else -1
            elif self._nn(c, fuel, depth + 1):
                s = 1
            elif self._nn(neg(c), fuel, depth + 1):
                s = -1
            else:
                continue
            bs = self.lo.get(v, ()) if s > 0 else self.up.get(v, ())
            if not bs:
                if len(ats) == 1:
                    return False
                continue
            tried += 1
            for b in bs[-6:]:
                if v in atoms(b):
                    continue
                if self._nn(add(mul(c, b), r), fuel, depth + 1):
                    return True
            if tried >= 3:
                break
        return False


def db(hyps):
    k = tuple(h.id for h in hyps)
    r = _db.get(k)
    if r is None:
        if len(_db) > 20000:
            _db.clear()
        r = _db[k] = DB(hyps)
    return r


def isint(c):
    """conditions over integer comparisons only"""
    if c.op in ('and', 'or', 'not'):
        return all(isint(a) for a in c.args)
    return c.op in ('lt', 'eq') and c.args[0].sort == 'I'


def true(c, D):
    if c is TRUE:
        return True
    if c.op == 'and':
        return all(true(a, D) for a in c.args)
    if c.op == 'or':
        return any(true(a, D) for a in c.args)
    if c.op == 'lt' and c.args[0].sort == 'I':
        return D.nonneg(add(c.args[1], neg(c.args[0]), I(-1)))
    if c.op == 'eq' and c.args[0].sort == 'I':
        d = sub(*c.args)
        return D.nonneg(d) and D.nonneg(neg(d))
    if c.op == 'not' and c.args[0].op == 'eq' and c.args[0].args[0].sort == 'I':
        d = sub(*c.args[0].args)
        if d in D.nes:
            return True
        if D.nonneg(sub(d, I(1))) or D.nonneg(sub(neg(d), I(1))):
            return True
        return stride_ne(d, D)
    return False


def stride_ne(d, D):
    """d = q*n + r with 0 < |r| < n"""
    from arrays import pdivide
    cand = []
    for x in (d.args if d.op == 'add' else (d,)):
        if x.op == 'mul':
            fs = [f for f in x.args if f.op == 'v' and f.val.startswith('nd:')]
            for f in fs:
                if f not in cand:
                    cand.append(f)
    for X in cand:
        for k in (0, -1, 1, -2, 2):
            n = add(X, I(k))
            q, r = pdivide(d, n)
            if isc(q) or any(x.op == 'mul' and sum(1 for f in x.args if f.op != 'c') > 1 for x in (r.args if r.op == 'add' else (r,))):
                continue
            for rr in (r, add(r, n), sub(r, n)):
                if (D.nonneg(sub(rr, I(1))) and D.nonneg(sub(sub(n, I(1)), rr))) or (D.nonneg(sub(neg(rr), I(1))) and D.nonneg(add(sub(n, I(1)), rr))):
                    return True
    return False


def prove(hyps, c):
    """True when c provably follows (False: do not know)"""
    STAT['q'] += 1
    r = true(c, db(hyps))
    if r:
        STAT['hit'] += 1
    return r


# ---------------------------------------------------------------- sample pool (only used to skip hopeless SMT calls)
_pool = {}


def ev(t, m):
    op = t.op
    if op == 'c':
        return t.val
    if op in ('v', 'f', 'trunc', 'rfloor', 'rceil', 'sum'):
        if t not in m:
            raise KeyError
        return m[t]
    a = [ev(x, m) for x in t.args]
    if op == 'add':
        return sum(a)
    if op == 'mul':
        p = 1
        for x in a:
            p *= x
        return p
    if op == 'lt':
        return a[0] < a[1]
    if op == 'eq':
        return a[0] == a[1]
    if op == 'not':
        return not a[0]
    if op == 'and':
        return all(a)
    if op == 'or':
        return any(a)
    if op == 'idiv':
        return a[0] // a[1] if a[1] > 0 and a[0] >= 0 else 0
    if op == 'imod':
        return a[0] % a[1] if a[1] > 0 and a[0] >= 0 else 0
    if op == 'ite':
        return a[1] if a[0] else a[2]
    raise KeyError


def int_atoms(ts):
    out = {}
    st = list(ts)
    seen = set()
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ('v', 'f', 'trunc', 'rfloor', 'rceil', 'sum'):
            if t.sort == 'I':
                out[t] = 1
            continue
        st.extend(t.args)
    return sorted(out, key=lambda t: t.id)


def both_ways(hyps, c):
    """True when sampled integer assignments satisfying the integer hypotheses make c both true and false"""
    import random
    hy = [h for h in hyps if isint(h)]
    ats = int_atoms([c])
    # transitive atoms through hyps and facts
    facts = []
    for _ in range(3):
        n0 = len(ats)
        facts = []
        for a in ats:
            facts += [f for f in solver.facts_of(a) if isint(f)]
        s = set(ats)
        rel = [h for h in hy + facts if not s.isdisjoint(int_atoms([h]))]
        ats = int_atoms([c] + rel)
        if len(ats) == n0:
            break
    if len(ats) > 14:
        return False
    rnd = random.Random(1)
    got = set()
    hs = list(dict.fromkeys(rel))
    # order: constants first, simple rejection with narrowing
    byatom = []
    done = set()
    for a in ats:
        done.add(a)
        byatom.append((a, [h for h in hs if a in set(int_atoms([h])) and set(int_atoms([h])) <= done]))
    tries = 0
    for _ in range(60):
        m = {}
        ok = True
        for a, chk in byatom:
            for _ in range(12):
                m[a] = rnd.choice((0, 1, 2, 3, 4, 5, 6, 7, 30, 31, -1, 12, 9)) if rnd.random() < 0.85 else rnd.randint(-2, 40)
                try:
                    if all(ev(h, m) for h in chk):
                        break
                except KeyError:
                    return False
            else:
                ok = False
                break
        tries += 1
        if ok:
            try:
                got.add(bool(ev(c, m)))
            except KeyError:
                return False
            if len(got) == 2:
                STAT['pool_skip'] += 1
                return True
    return False
