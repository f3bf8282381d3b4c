"""Built-in models: specification intrinsics and trusted library functions."""
from terms import *
from solver import FACTS
import solver
from arrays import Base, Unsupported
from execu import *
import execu

TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def sval(ex, a, st):
    v = ex.eval(a, st)
    if isinstance(v, StrLit):
        return v.s
    raise Unsupported('string literal expected')


# ------------------------------------------------------------ spec intrinsics
@reg('__v_forall')
def _forall(ex, args, n, st):
    lo = ex.eval(args[0], st)
    hi = ex.eval(args[1], st)
    q = fresh('q', 'I')
    st.assume(le(lo, q))
    st.assume(lt(q, hi))
    return q


@reg('__v_assume')
def _assume(ex, args, n, st):
    c = ex.cond(args[0], st)
    st.assume(c)
    return I(0)


@reg('__v_check')
def _check(ex, args, n, st):
    nm = sval(ex, args[0], st)
    c = ex.cond(args[1], st)
    ex.oblige(nm, st, c, 'ensures', n)
    return I(0)


@reg('__v_verifies')
def _verifies(ex, args, n, st):
    ex.no_stub.add(sval(ex, args[0], st))
    return I(0)


@reg('__v_opt')
def _opt(ex, args, n, st):
    nm = sval(ex, args[0], st)
    v = ex.eval(args[1], st)
    ex.opts[nm] = v.val
    if nm == 'sums':
        import terms
        terms.SUMITE = bool(v.val)
    if nm == 'branch':
        import arrays
        arrays.BRANCH[0] = v.val/1000.0
    if nm == 'bounds':
        ex.bounds = bool(v.val)
    if nm == 'noexit':
        ex.noexit = bool(v.val)
    return I(0)


@reg('__v_hint')
def _hint(ex, args, n, st):
    v = ex.eval(args[0], st)
    solver.HINTS.append(toR(v))
    return I(0)


def _nd(ex, name, idx, sort, lo, hi, mode):
    """mode: 'n' unconstrained (bounds native only), 'g' >= lo only, 'p' > lo, 'r' both"""
    t = app('nd:' + name, idx, sort) if idx else var('nd:' + name, sort)
    ex.ndsites[name] = (sort, len(idx))
    if lo is not None:
        def facts(a, lo=lo, hi=hi, mode=mode, name=name, sort=sort):
            t = app('nd:' + name, a, sort) if a else var('nd:' + name, sort)
            if mode == 'n':
                return []
            if mode == 'g':
                return [le(lo, t)]
            if mode == 'p':
                return [lt(lo, t)]
            return [le(lo, t), le(t, hi)]
        key = 'nd:' + name
        if key not in FACTS:
            FACTS[key] = facts
            ex.assumes.append('input %s: %s' % (name, {'n': 'unconstrained', 'g': '>= %s' % lo, 'p': '> %s' % lo,
                                                      'r': 'in [%s, %s]' % (lo, hi)}[mode]))
    return t


@reg('__v_nd')
def _ndcall(ex, args, n, st):
    """__v_nd(kind, mode, name, nidx, i, j, lo, hi)"""
    kind = sval(ex, args[0], st)
    mode = sval(ex, args[1], st)
    name = sval(ex, args[2], st)
    ni = ex.eval(args[3], st).val
    idx = [ex.eval(a, st) for a in args[4:4 + ni]]
    lo = ex.eval(args[6], st)
    hi = ex.eval(args[7], st)
    s = kind
    lo = toR(lo) if s == 'R' else toI(lo)
    hi = toR(hi) if s == 'R' else toI(hi)
    return _nd(ex, name, idx, s, lo, hi, mode)


@reg('__v_in')
def _in(ex, args, n, st):
    """__v_in(kind, name, nidx, i, j): value of a declared nondeterministic input"""
    kind = sval(ex, args[0], st)
    name = sval(ex, args[1], st)
    ni = ex.eval(args[2], st).val
    idx = [ex.eval(a, st) for a in args[3:3 + ni]]
    return app('nd:' + name, idx, kind) if idx else var('nd:' + name, kind)


def ex_objs(ex, ob):
    ex.objs[ob.id] = ob


@reg('__v_ndarr_R', '__v_ndarr_I', '__v_ndarr_C')
def _ndarr(ex, args, n, st):
    """__v_ndarr(mode, name, n, lo, hi)"""
    fn = n['inner'][0]
    while 'referencedDecl' not in fn:
        fn = fn['inner'][0]
    fname = fn['referencedDecl']['name']
    sort = 'R' if fname.endswith('R') else 'I'
    mode = sval(ex, args[0], st)
    name = sval(ex, args[1], st)
    ln = ex.eval(args[2], st)
    lo = ex.eval(args[3], st)
    hi = ex.eval(args[4], st)
    lo = toR(lo) if sort == 'R' else toI(lo)
    hi = toR(hi) if sort == 'R' else toI(hi)
    _nd(ex, name, [I(0)], sort, lo, hi, mode)
    ob = Obj(name, lens=[ln], spec=True, heap=True)
    ex_objs(ex, ob)
    st.mem[(ob.id, ('[]',))] = Base('nd:' + name, 1, sort)
    return Ptr(ob, (I(0),))


@reg('__v_arr_R', '__v_arr_I', '__v_arr_C')
def _arr(ex, args, n, st):
    """__v_arr(name, n): uninitialised array"""
    fn = n['inner'][0]
    while 'referencedDecl' not in fn:
        fn = fn['inner'][0]
    sort = 'R' if fn['referencedDecl']['name'].endswith('R') else 'I'
    name = sval(ex, args[0], st)
    ln = ex.eval(args[1], st)
    ob = Obj(name, lens=[ln], spec=True, heap=True)
    ob.name = name
    ex_objs(ex, ob)
    st.mem[(ob.id, ('[]',))] = Base('un:' + name, 1, sort)
    return Ptr(ob, (I(0),))


@reg('__v_arr2_R')
def _arr2(ex, args, n, st):
    """__v_arr2(mode, name, P, n, lo, hi): array of P rows of length n, contents nd name(p,i)"""
    mode = sval(ex, args[0], st)
    name = sval(ex, args[1], st)
    P = ex.eval(args[2], st)
    ln = ex.eval(args[3], st)
    lo, hi = toR(ex.eval(args[4], st)), toR(ex.eval(args[5], st))
    _nd(ex, name, [I(0), I(0)], 'R', lo, hi, mode)
    rows = Obj(name + '.rows', lens=[P, ln], spec=True, heap=True)
    ex_objs(ex, rows)
    st.mem[(rows.id, ('[]', '[]'))] = Base('nd:' + name, 2, 'R')
    tab = Obj(name, lens=[P], spec=True, heap=True)
    ex_objs(ex, tab)
    st.mem[(tab.id, ('[]',))] = Base(name + '*', 1, 'P', lambda idx, rows=rows: Ptr(rows, tuple(idx) + (I(0),)))
    return Ptr(tab, (I(0),))


@reg('__v_free')
def _vfree(ex, args, n, st):
    return I(0)


# ------------------------------------------------------------ allocation
def alloc(ex, args, n, st, zero, cnt_bytes):
    ob = Obj('heap', zero=zero, heap=True)
    fr = ex.frames[-1]
    ob.name = 'heap@%s:%s#%d' % (fr['name'], fr.get('line', '?'), ob.id)
    ob.bytes = cnt_bytes
    ob.lens = None
    ex_objs(ex, ob)
    pre = tuple(ex.loopstack)
    ob.pre = len(pre)
    return HeapPtr(ob, pre)


class HeapPtr:
    """fresh allocation whose element type is not known until it is cast/assigned"""
    __slots__ = ('ob', 'pre')

    def __init__(self, ob, pre):
        self.ob = ob
        self.pre = pre


def settle(ex, hp, elemty):
    """turn HeapPtr into Ptr once the element type is known"""
    ob = hp.ob
    k, e = tkind(elemty)
    try:
        sz = ex.sizeof(elemty)
    except Exception:
        sz = None
    if ob.lens is None and ob.bytes is not None and sz is not None:
        b = ob.bytes
        q = None
        if isc(sz):
            q = idiv(b, sz)
            if q.op == 'idiv':
                q = None
        else:
            q = idiv(b, sz)
            if q.op == 'idiv':
                q = None
        ob.lens = [None] * len(hp.pre) + [q]
    return Ptr(ob, hp.pre + (I(0),))


@reg('malloc', 'DoodzMalloc')
def _malloc(ex, args, n, st):
    return alloc(ex, args, n, st, False, ex.eval(args[0], st))


@reg('calloc', 'DoodzCalloc')
def _calloc(ex, args, n, st):
    return alloc(ex, args, n, st, True, mul(toI(ex.eval(args[0], st)), ex.eval(args[1], st)))


@reg('DoodzRealloc', 'realloc')
def _realloc(ex, args, n, st):
    p = ex.eval(args[0], st)
    sz = ex.eval(args[1], st)
    if isinstance(p, Ptr) and p.obj is not None:
        ob = Obj('realloc', heap=True)
        ob.name = 'realloc#%d' % ob.id
        ob.bytes = sz
        ob.pre = 0
        ex_objs(ex, ob)
        k = (p.obj.id, ('[]',))
        if k in st.mem:
            st.mem[(ob.id, ('[]',))] = st.mem[k]
        return HeapPtr(ob, ())
    return alloc(ex, args, n, st, False, sz)


@reg('memset')
def _memset(ex, args, n, st):
    p = ex.eval(args[0], st)
    v = ex.eval(args[1], st)
    if not (isc(v) and v.val == 0):
        raise Unsupported('memset non-zero')
    if isinstance(p, Ptr) and not (p.path and isinstance(p.path[-1], T)):
        dk = ex.pathkey(p.path)
        for key in [k for k in st.mem if k[0] == p.obj.id and (k[2] if k[1] == '*' else k[1])[:len(dk)] == dk]:
            del st.mem[key]
        st.mem[(p.obj.id, '*', dk)] = 'zero'
        ex_objs(ex, p.obj)
        return p
    raise Unsupported('memset')


# ------------------------------------------------------------ control
@reg('exit', 'abort', '__assert_fail')
def _exit(ex, args, n, st):
    if ex.noexit and ex.in_repo():
        ex.oblige('no-abort', st, FALSE, 'safety', n)
    raise Dead()


# ------------------------------------------------------------ libm
def m1(name):
    def f(ex, args, n, st):
        return math1(ex, name, toR(ex.eval(args[0], st)))
    TABLE[name] = f


def math1(ex, name, x):
    ex.trusted.setdefault('libm:' + name, 0)
    ex.trusted['libm:' + name] += 1
    if isc(x):
        v = x.val
        if name == 'sqrt' and v in (0, 1, 4):
            return R({0: 0, 1: 1, 4: 2}[int(v)])
        if name in ('exp', 'cosh', 'cos') and v == 0:
            return R(1)
        if name in ('sin', 'tan', 'atan', 'asin', 'log1p', 'sinh', 'tanh', 'asinh', 'erf') and v == 0:
            return R(0)
        if name in ('log', 'log10', 'acosh') and v == 1:
            return R(0)
    return app(name, [x], 'R')


for _n in ('sqrt', 'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh',
           'erf', 'erfc', 'cbrt'):
    m1(_n)


@reg('fabs', 'fabsf')
def _fabs(ex, args, n, st):
    x = toR(ex.eval(args[0], st))
    if isc(x):
        return R(abs(x.val))
    if ex.opts.get('ratbranch'):
        try:
            if ratzero(x):
                return R(0)
        except TooBig:
            pass
    return ite(le(R(0), x), x, neg(x))


@reg('abs', 'labs')
def _abs(ex, args, n, st):
    x = toI(ex.eval(args[0], st))
    return ite(le(I(0), x), x, neg(x))


@reg('fmax')
def _fmax(ex, args, n, st):
    a, b = toR(ex.eval(args[0], st)), toR(ex.eval(args[1], st))
    return ite(lt(a, b), b, a)


@reg('fmin')
def _fmin(ex, args, n, st):
    a, b = toR(ex.eval(args[0], st)), toR(ex.eval(args[1], st))
    return ite(lt(b, a), b, a)


@reg('floor')
def _floor(ex, args, n, st):
    return floor(toR(ex.eval(args[0], st)))


@reg('ceil')
def _ceil(ex, args, n, st):
    return ceil(toR(ex.eval(args[0], st)))


@reg('round')
def _round(ex, args, n, st):
    x = toR(ex.eval(args[0], st))
    return ite(le(R(0), x), floor(add(x, R(Fr(1, 2)))), ceil(sub(x, R(Fr(1, 2)))))


def fpow(x, y):
    if isc(y) and y.val.denominator == 1 and abs(y.val) <= 12:
        return ipow(x, int(y.val))
    if isc(y) and y.val == Fr(1, 2):
        return app('sqrt', [x], 'R')
    if isc(x) and x.val == 1:
        return R(1)
    return app('fpow', [x, y], 'R')


@reg('pow', 'powf')
def _pow(ex, args, n, st):
    x, y = toR(ex.eval(args[0], st)), toR(ex.eval(args[1], st))
    ex.trusted.setdefault('libm:pow', 0)
    ex.trusted['libm:pow'] += 1
    return fpow(x, y)


APP_SIMP['fpow'] = lambda a: (lambda r: r if not (r.op == 'f' and r.val == 'fpow') else None)(fpow(a[0], a[1]))


@reg('atan2')
def _atan2(ex, args, n, st):
    return app('atan2', [toR(ex.eval(a, st)) for a in args], 'R')


@reg('hypot')
def _hypot(ex, args, n, st):
    x, y = [toR(ex.eval(a, st)) for a in args]
    return app('sqrt', [add(mul(x, x), mul(y, y))], 'R')


@reg('__isnan', 'isnan', '__builtin_isnan', '__isinf', 'isinf', '__builtin_isinf_sign', '__isnanf', '__builtin_isinf', '__isinff')
def _isnan(ex, args, n, st):
    ex.eval(args[0], st)
    return I(0)


@reg('clock', 'omp_get_wtime', 'time')
def _clock(ex, args, n, st):
    k = tkind(tstr(n))[0]
    return fresh('clock', k if k in 'RI' else 'I')


@reg('omp_get_thread_num')
def _tn(ex, args, n, st):
    return I(0)


@reg('omp_get_num_threads', 'omp_get_max_threads')
def _nt(ex, args, n, st):
    return I(1)


@reg('rand', 'random')
def _rand(ex, args, n, st):
    r = fresh('rand', 'I')
    FACTS[r.val] = lambda a, r=r: [le(I(0), r), le(r, I(2147483647))]
    return r


@reg('strcmp')
def _strcmp(ex, args, n, st):
    a, b = ex.eval(args[0], st), ex.eval(args[1], st)
    if isinstance(a, StrLit) and isinstance(b, StrLit):
        return I((a.s > b.s) - (a.s < b.s))
    raise Unsupported('strcmp')
