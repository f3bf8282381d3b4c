"""Symbolic executor / verification-condition generator over the clang AST of the real code."""
import re
from terms import *
from cast import ENUM_TYPES
import terms as tm
from solver import valid, FACTS
import solver
from arrays import *
from arrays import Node, Unsupported

_oid = [0]


class Obj:
    def __init__(self, name, zero=False, lens=None, spec=False, heap=False):
        _oid[0] += 1
        self.id = _oid[0]
        self.name = name
        self.zero = zero
        self.lens = lens            # list of length terms for leading '[]' dims
        self.spec = spec
        self.heap = heap
        self.elem = None
        self.lazy = None

    def __repr__(self):
        return 'Obj(%s#%d)' % (self.name, self.id)


class Ptr:
    __slots__ = ('obj', 'path')

    def __init__(self, obj, path=()):
        self.obj = obj
        self.path = tuple(path)

    def vsubst(self, m):
        return Ptr(self.obj, [subst(p, m) if isinstance(p, T) else p for p in self.path])

    def __repr__(self):
        return '&%s%s' % (self.obj.name if self.obj else 'NULL', list(self.path))


NULL = Ptr(None)


class PtrIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def vsubst(self, m):
        return vite(subst(self.c, m), vsubst(self.a, m), vsubst(self.b, m))


class FuncRef:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class StrLit:
    __slots__ = ('s', 'off')

    def __init__(self, s, off=0):
        self.s = s
        self.off = off


class StructVal:
    """rvalue of struct type: snapshot of a location"""
    __slots__ = ('lv', 'mem')

    def __init__(self, lv, mem):
        self.lv = lv
        self.mem = mem


class StructIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


UNDEF = StrLit('<undef>')


def veq(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and len(a.path) == len(b.path) and all(x is y or x == y for x, y in zip(a.path, b.path))
    if isinstance(a, FuncRef) and isinstance(b, FuncRef):
        return a.name == b.name
    if isinstance(a, StrLit) and isinstance(b, StrLit):
        return a.s == b.s and a.off == b.off
    if isinstance(a, PtrIte) and isinstance(b, PtrIte):
        return a.c is b.c and veq(a.a, b.a) and veq(a.b, b.b)
    return False


class LV:
    __slots__ = ('obj', 'path')

    def __init__(self, obj, path=()):
        self.obj = obj
        self.path = tuple(path)


class LVIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class State:
    __slots__ = ('mem', 'pc')

    def __init__(self, mem=None, pc=()):
        self.mem = mem if mem is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.mem), self.pc)

    def assume(self, c):
        if c is TRUE or c in self.pc:
            return
        self.pc = self.pc + (c,)
        if c.op == 'and':
            for x in c.args:
                self.assume(x)


class Dead(Exception):
    pass


# ---------------------------------------------------------------- types
def tstr(n):
    t = n['type']
    return t.get('desugaredQualType') or t['qualType']


def norm(t):
    t = re.sub(r'\b(const|volatile|restrict|struct|register|static)\b', '', t)
    return ' '.join(t.split())


RTY = {'double', 'float', 'DoodzFP', 'long double'}
ITY = {'int', 'char', 'unsigned int', 'long', 'unsigned long', 'size_t', 'bool', '_Bool', 'short', 'unsigned char',
       'signed char', 'long long', 'unsigned long long', 'unsigned short', 'uint8_t', 'int32_t', 'uint32_t'}
SIZES = {'double': 8, 'float': 4, 'int': 4, 'char': 1, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'size_t': 8, 'bool': 1,
         '_Bool': 1, 'short': 2, 'unsigned char': 1, 'signed char': 1, 'long long': 8, 'unsigned long long': 8, 'DoodzFP': 8,
         'long double': 16, 'unsigned short': 2}


def tkind(t):
    """('R'|'I'|'P'|'A'|'F'|'S'|'V', extra)"""
    t = norm(t)
    if t in RTY:
        return ('R', None)
    if t in ITY or t in ENUM_TYPES or t.startswith('enum '):
        return ('I', None)
    if t == 'void':
        return ('V', None)
    if t.endswith(']'):
        return ('A', t)
    if t.endswith('*'):
        return ('P', t[:-1].strip())
    if '(*)' in t:
        return ('F', None)
    if re.match(r'.*\(.*\)$', t):
        return ('F', None)
    return ('S', t)


def arr_elem(t):
    """'double[4][3]' -> ('double[3]', 4)"""
    m = re.match(r'^(.*?)\[([^\]]*)\](.*)$', norm(t))
    n = m.group(2)
    return (m.group(1).strip() + m.group(3)), (int(n) if n.isdigit() else None)


class Ob:
    """one proof obligation"""
    __slots__ = ('name', 'hyps', 'goal', 'kind', 'where', 'harness', 'result', 'secs')

    def __init__(self, name, hyps, goal, kind, where):
        self.name, self.hyps, self.goal, self.kind, self.where = name, hyps, goal, kind, where
        self.result = None
        self.secs = 0.0


IGNORED = {'printf', 'fprintf', 'puts', 'fflush', 'putchar', 'free', 'DoodzFree', 'perror', 'fclose', 'omp_set_num_threads',
           'setbuf', 'srand'}


class Exec:
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.opts = opts or {}
        self.obs = []
        self.emit = True
        self.frames = []
        self.globals = {}
        self.loopstack = []       # iteration symbols of enclosing summarised loops
        self.funcs_seen = {}
        self.no_stub = set()
        self.trusted = {}         # external functions treated by contract
        self.notes = {}
        self.loopW = {}
        self.loops_info = []
        self.calldepth = 0
        self.bounds = True
        self.noexit = True
        self.streams = {}
        self.record_types = {}
        self.ndsites = {}
        self.assumes = []
        self.steps = 0

    # ------------------------------------------------------------ utilities
    def where(self, node):
        loc = node.get('range', {}).get('begin', {})
        for k in ('expansionLoc', 'spellingLoc'):
            if k in loc:
                loc = loc[k]
        ln = loc.get('line')
        if ln is not None:
            self.frames[-1]['line'] = ln
        fr = self.frames[-1]
        return '%s:%s' % (fr['name'], fr.get('line', '?'))

    def in_repo(self):
        return self.frames and self.frames[-1]['tu'] is not self.prog.spec

    def oblige(self, name, st, goal, kind, node, extra=()):
        if not self.emit:
            return
        if goal is TRUE and kind != 'ensures':
            self.obs.append(Ob(name, (), TRUE, kind, self.where(node)))
            return
        self.obs.append(Ob(name, tuple(st.pc) + tuple(extra), goal, kind, self.where(node)))

    def unsupported(self, msg, node=None):
        raise Unsupported('%s at %s' % (msg, self.where(node) if node else '?'))

    # ------------------------------------------------------------ memory
    def pathkey(self, path):
        return tuple('[]' if isinstance(p, T) else p for p in path)

    def idxs(self, path):
        return tuple(p for p in path if isinstance(p, T))

    def default_origin(self, st, obj, path):
        """resolve struct-copy defaults: which object/path gives the initial symbolic value"""
        for i in range(len(path), -1, -1):
            d = st.mem.get((obj.id, '*', self.pathkey(path[:i])))
            if d is not None:
                if d == 'zero':
                    return 'zero', path
                if d == 'undef':
                    return obj, path
                src, spath, smem = d
                # value at the time of the copy
                return self.default_origin_mem(smem, src, tuple(spath) + tuple(path[i:]))
        return obj, path

    def default_origin_mem(self, mem, obj, path):
        return self.default_origin(State(mem, ()), obj, path)

    def initial(self, st, obj, path, ty):
        """initial value of an unmaterialised location (no indices in path: scalar; else array node)"""
        o, p = self.default_origin(st, obj, path)
        k, ex = tkind(ty)
        n = len(self.idxs(path))
        zero = o == 'zero' or (o != 'zero' and o.zero)
        nm = None if o == 'zero' else o.name + ''.join('[]' if isinstance(x, T) else '.' + x for x in p)
        if n == 0:
            if k in ('R', 'I'):
                return const(0, k) if zero else var(nm, k)
            if k == 'P':
                if zero:
                    return NULL
                return self.lazy_ptr(o, p, ex, nm)
            if k == 'F':
                return NULL if zero else FuncRef('?' + nm)
            raise Unsupported('initial value of type %s' % ty)
        if k in ('R', 'I'):
            if zero:
                return Base(nm, n, k, lambda idx, k=k: const(0, k))
            return Base(nm, n, k)
        if k == 'P':
            if zero:
                return Base(nm, n, 'P', lambda idx: NULL)
            ob = Obj(nm + '*', lens=None)
            ob.fam = n
            return Base(nm, n, 'P', lambda idx, ob=ob: Ptr(ob, tuple(idx) + (I(0),)))
        if k == 'F':
            return Base(nm, n, 'P', lambda idx: NULL)
        raise Unsupported('initial array of type %s' % ty)

    def lazy_ptr(self, o, p, elemty, nm):
        key = ('lazy', o.id, tuple(str(x) for x in p))
        if not hasattr(self, '_lazy'):
            self._lazy = {}
        if key not in self._lazy:
            ob = Obj(nm + '->', lens=None)
            ob.lazy = True
            self._lazy[key] = ob
        ob = self._lazy[key]
        if tkind(elemty)[0] in ('S',):
            return Ptr(ob, ())
        return Ptr(ob, (I(0),))

    def load(self, st, lv, ty, node=None):
        if isinstance(lv, LVIte):
            return vite(lv.c, self.load(st, lv.a, ty, node), self.load(st, lv.b, ty, node))
        k, ex = tkind(ty)
        if k == 'S':
            return StructVal(lv, st.mem.copy() if False else st.mem)
        if k == 'A':
            return Ptr(lv.obj, lv.path + (I(0),))
        path = self.fixpath(lv.path)
        self.check_bounds(st, lv.obj, path, node, 'read')
        key = (lv.obj.id, self.pathkey(path))
        idx = self.idxs(path)
        v = st.mem.get(key)
        if v is None:
            v = self.materialise(st, lv.obj, path, ty)
        if idx and isinstance(v, Node):
            v = v.read(idx, st.pc)
            if isinstance(v, T) and k in ('R', 'I') and v.sort != k:
                v = toR(v) if k == 'R' else v
        return v

    def materialise(self, st, obj, path, ty):
        v = self.initial(st, obj, path, ty)
        st.mem[(obj.id, self.pathkey(path))] = v
        if not hasattr(self, 'objs'):
            self.objs = {}
        self.objs[obj.id] = obj
        return v

    def fixpath(self, path):
        """collapse [i][0] pointer artefacts: nothing to do, hook"""
        return path

    def check_bounds(self, st, obj, path, node, what):
        if not self.emit or not self.bounds or obj is None:
            return
        if obj.lens is None:
            return
        if not self.in_repo():
            return
        j = 0
        for p in path:
            if isinstance(p, T):
                if j >= len(obj.lens):
                    break
                n = obj.lens[j]
                j += 1
                if n is None:
                    continue
                g = and_(le(I(0), p), lt(p, n))
                if g is TRUE:
                    continue
                self.oblige('index-in-bounds(%s)' % obj.name, st, g, 'safety', node)
            else:
                break

    def store(self, st, lv, val, ty, node=None):
        if isinstance(lv, LVIte):
            oa = self.load(st, lv.a, ty, node)
            ob = self.load(st, lv.b, ty, node)
            self.store(st, lv.a, vite(lv.c, val, oa), ty, node)
            # b evaluated before a was written; a and b are distinct locations
            self.store(st, lv.b, vite(lv.c, ob, val), ty, node)
            return
        if lv.obj is None:
            if self.emit:
                self.oblige('null-dereference', st, FALSE, 'safety', node)
            raise Dead()
        k, ex = tkind(ty)
        if k == 'S':
            self.copy_struct(st, lv, val, ty)
            return
        if isinstance(val, T) and k in ('R', 'I'):
            if k == 'R':
                val = toR(val)
            else:
                val = toI(val) if val.sort != 'I' else val
        path = lv.path
        self.check_bounds(st, lv.obj, path, node, 'write')
        key = (lv.obj.id, self.pathkey(path))
        idx = self.idxs(path)
        if not hasattr(self, 'objs'):
            self.objs = {}
        self.objs[lv.obj.id] = lv.obj
        if not idx:
            st.mem[key] = val
            return
        a = st.mem.get(key)
        if a is None:
            a = self.materialise(st, lv.obj, path, ty)
        if isinstance(val, T) and val.sort in ('R', 'I') and a.sort in ('R', 'I') and self.loopstack:
            cur = a.read(idx, st.pc)
            if has_open(cur):
                d = delta(val, cur)
                if d is not None:
                    st.mem[key] = AddStore(a, idx, d)
                    return
        st.mem[key] = Store(a, idx, val)

    def copy_struct(self, st, dst, val, ty):
        if isinstance(val, StructIte):
            # materialise by known record fields
            tmpa, tmpb = LV(Obj('sa')), LV(Obj('sb'))
            self.copy_struct(st, tmpa, val.a, ty)
            self.copy_struct(st, tmpb, val.b, ty)
            keys = set()
            for (o, *r) in list(st.mem):
                if o in (tmpa.obj.id, tmpb.obj.id) and r[0] != '*':
                    keys.add(r[0])
            for f in self.leaf_fields(ty):
                if not any(k[:len(f[0])] == f[0] for k in keys):
                    keys.add(f[0])
            types = dict(self.leaf_fields(ty))
            for kk in keys:
                fty = types.get(kk)
                if fty is None:
                    continue
                va = self.load_key(st, tmpa.obj, kk, fty)
                vb = self.load_key(st, tmpb.obj, kk, fty)
                v = IteArr(val.c, va, vb) if isinstance(va, Node) else vite(val.c, va, vb)
                st.mem[(dst.obj.id, self.pathkey(dst.path) + kk)] = v
            self.objs[dst.obj.id] = dst.obj
            return
        if not isinstance(val, StructVal):
            raise Unsupported('struct assignment from %r' % (val,))
        src, smem = val.lv, val.mem
        if isinstance(src, LVIte):
            return self.copy_struct(st, dst, StructIte(src.c, StructVal(src.a, smem), StructVal(src.b, smem)), ty)
        di, si = self.idxs(dst.path), self.idxs(src.path)
        dk, sk = self.pathkey(dst.path), self.pathkey(src.path)
        if di or si:
            # element of an array of structs: field-wise
            for f, fty in self.leaf_fields(ty):
                if '[]' in f:
                    raise Unsupported('struct array with array field')
                v = self.load(State(smem, st.pc), LV(src.obj, src.path + f), fty)
                self.store(st, LV(dst.obj, dst.path + f), v, fty)
            return
        for key in [k for k in st.mem if k[0] == dst.obj.id and k[1] != '*' and k[1][:len(dk)] == dk]:
            del st.mem[key]
        for key in [k for k in st.mem if k[0] == dst.obj.id and k[1] == '*' and k[2][:len(dk)] == dk]:
            del st.mem[key]
        for key, v in list(smem.items()):
            if key[0] != src.obj.id:
                continue
            if key[1] == '*':
                if key[2][:len(sk)] == sk and len(key[2]) > len(sk):
                    st.mem[(dst.obj.id, '*', dk + key[2][len(sk):])] = v
                continue
            if key[1][:len(sk)] == sk:
                st.mem[(dst.obj.id, dk + key[1][len(sk):])] = v
        self.objs = getattr(self, 'objs', {})
        self.objs[dst.obj.id] = dst.obj
        # default for unmaterialised fields
        st.mem[(dst.obj.id, '*', dk)] = (src.obj, src.path, {k: v for k, v in smem.items() if k[0] == src.obj.id and k[1] == '*'})

    def load_key(self, st, obj, kk, ty):
        v = st.mem.get((obj.id, kk))
        if v is None:
            path = tuple(var('_', 'I') if x == '[]' else x for x in kk)
            v = self.materialise(st, obj, path, ty)
        return v

    def leaf_fields(self, ty):
        """[(path tuple, type)] of leaf fields of a struct type"""
        t = norm(ty)
        rec = self.records().get(t)
        if rec is None:
            raise Unsupported('unknown record %s' % t)
        out = []
        for n, fty in rec:
            q = fty.get('desugaredQualType') or fty['qualType']
            k, ex = tkind(q)
            pth = (n,)
            while k == 'A':
                q, _ = arr_elem(q)
                pth = pth + ('[]',)
                k, ex = tkind(q)
            if k == 'S':
                if norm(q) in self.records():
                    out += [(pth + p, t2) for p, t2 in self.leaf_fields(q)]
            else:
                out.append((pth, q))
        return out

    def records(self):
        if not self.record_types:
            for tu in [self.prog.spec] + list(self.prog.tus.values()):
                for k, v in tu.records.items():
                    self.record_types.setdefault(k, v)
        return self.record_types

    # ------------------------------------------------------------ merging
    def merge(self, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        p1, p2 = s1.pc, s2.pc
        n = 0
        while n < len(p1) and n < len(p2) and p1[n] is p2[n]:
            n += 1
        a, b = p1[n:], p2[n:]
        bs = set(b)
        disc = None
        for x in a:
            if not_(x) in bs:
                disc = x
                break
        if disc is None:
            if not a and not b:
                raise Unsupported('merge of identical path conditions')
            ca, cb = and_(*a), and_(*b)
            # second state may be the complement expressed differently
            disc = ca
            pc = p1[:n] + ((or_(ca, cb),) if or_(ca, cb) is not TRUE else ())
            # require exclusivity: cb is false whenever ca holds
            if and_(ca, cb) is not FALSE and not valid(p1[:n], not_(and_(ca, cb)), 2.0):
                raise Unsupported('merge: overlapping paths')
        else:
            ra = and_(*[x for x in a if x is not disc])
            nd = not_(disc)
            rb = and_(*[x for x in b if x is not nd])
            pc = p1[:n]
            for e in (implies(disc, ra), implies(nd, rb)):
                if e is not TRUE:
                    pc = pc + (e,)
        mem = {}
        for k in s1.mem.keys() | s2.mem.keys():
            v1, v2 = s1.mem.get(k), s2.mem.get(k)
            if v1 is v2:
                mem[k] = v1
                continue
            if k[1] == '*':
                if v1 == v2:
                    mem[k] = v1
                elif v1 is None or v2 is None:
                    o = self.objs.get(k[0])
                    mem[k] = v1 if v1 is not None else v2     # lazily-initialised object known on one side only
                else:
                    mem[k] = v1
                continue
            if v1 is None or v2 is None:
                o = self.objs.get(k[0])
                if getattr(o, 'freed', False):
                    continue
                # location materialised on one side only: initial value on the other
                v = v1 if v1 is not None else v2
                other = s2 if v1 is None else s2
                st = s1 if v1 is None else s2
                init = self.init_like(st, o, k[1], v)
                if init is None:
                    mem[k] = v
                    continue
                if v1 is None:
                    v1 = init
                else:
                    v2 = init
                if v1 is v2:
                    mem[k] = v1
                    continue
            if isinstance(v1, Node):
                mem[k] = IteArr(disc, v1, v2)
            elif isinstance(v1, (StructVal, StructIte)):
                mem[k] = StructIte(disc, v1, v2)
            else:
                mem[k] = vite(disc, v1, v2)
        return State(mem, pc)

    def init_like(self, st, o, key, v):
        """initial value of location key of object o in state st, same kind as v"""
        if o is None:
            return None
        if isinstance(v, Node):
            ty = {'R': 'double', 'I': 'int', 'P': 'void *'}[v.sort]
        elif isinstance(v, T):
            ty = {'R': 'double', 'I': 'int', 'B': 'int'}[v.sort]
        else:
            return None
        path = tuple(var('_', 'I') if x == '[]' else x for x in key)
        # memoised per object so both sides agree
        try:
            r = self.initial(st, o, path, ty)
        except Unsupported:
            return None
        if isinstance(v, Node):
            root = v
            while root.prev is not None:
                root = root.prev
            if isinstance(root, Base) and isinstance(r, Base) and root.name == r.name:
                return root
        return r

    # ------------------------------------------------------------ statements
    def exec_stmt(self, n, st):
        """returns dict kind -> State (n: normal, b: break, c: continue), 'r': list[(State, value)]"""
        self.steps += 1
        k = n.get('kind')
        m = getattr(self, 's_' + k, None) if k else None
        if m:
            return m(n, st)
        if k is None or k == 'NullStmt':
            return {'n': st}
        # expression statement
        try:
            self.eval(n, st)
        except Dead:
            return {}
        return {'n': st}

    def join(self, o1, o2):
        out = {}
        for kind in 'nbc':
            a, b = o1.get(kind), o2.get(kind)
            r = self.merge(a, b)
            if r is not None:
                out[kind] = r
        rs = o1.get('r', []) + o2.get('r', [])
        if rs:
            out['r'] = rs
        return out

    def seq(self, stmts, st):
        out = {}
        cur = st
        for s in stmts:
            if cur is None:
                break
            o = self.exec_stmt(s, cur)
            cur = o.pop('n', None)
            for kind in 'bc':
                if kind in o:
                    out[kind] = self.merge(out.get(kind), o[kind])
            if 'r' in o:
                out['r'] = out.get('r', []) + o['r']
        if cur is not None:
            out['n'] = cur
        return out

    def s_CompoundStmt(self, n, st):
        return self.seq(n.get('inner', []), st)

    def s_DeclStmt(self, n, st):
        try:
            for d in n.get('inner', []):
                if d.get('kind') == 'VarDecl':
                    self.decl(d, st)
        except Dead:
            return {}
        return {'n': st}

    def decl(self, d, st):
        fr = self.frames[-1]
        ty = tstr(d)
        static = d.get('storageClass') == 'static'
        k, ex = tkind(ty)
        lens = None
        ob = Obj(d['name'], spec=not self.in_repo(), zero=static)
        ob.name = '%s#%d' % (d['name'], ob.id)
        if k == 'A':
            lens = []
            q = ty
            vla = d.get('_vla')
            while tkind(q)[0] == 'A':
                q, cnt = arr_elem(q)
                if cnt is None:
                    cnt = None
                    for c in d.get('inner', []):
                        pass
                lens.append(I(cnt) if cnt is not None else None)
            ob.lens = lens
        fr['env'][d['id']] = ob
        if not static:
            fr['locals'].add(ob.id)
        if not hasattr(self, 'objs'):
            self.objs = {}
        self.objs[ob.id] = ob
        init = [c for c in d.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr')]
        if init and d.get('init'):
            self.init_var(LV(ob), ty, init[-1], st)

    def init_var(self, lv, ty, n, st):
        k, ex = tkind(ty)
        while n['kind'] in ('ExprWithCleanups', 'ParenExpr', 'ConstantExpr'):
            n = n['inner'][0]
        if n['kind'] == 'InitListExpr':
            dk = self.pathkey(lv.path)
            st.mem[(lv.obj.id, '*', dk)] = 'zero'
            self.objs[lv.obj.id] = lv.obj
            inner = n.get('inner', [])
            if 'array_filler' in n:
                inner = [c for c in n['array_filler'] if c.get('kind') != 'ImplicitValueInitExpr']
            if k == 'A':
                et, cnt = arr_elem(ty)
                for i, c in enumerate(inner):
                    if c['kind'] == 'ImplicitValueInitExpr':
                        continue
                    self.init_var(LV(lv.obj, lv.path + (I(i),)), et, c, st)
            elif k == 'S':
                rec = self.records().get(norm(ty))
                if rec is None:
                    raise Unsupported('record %s' % ty)
                for (fn, fty), c in zip(rec, inner):
                    if c['kind'] == 'ImplicitValueInitExpr':
                        continue
                    self.init_var(LV(lv.obj, lv.path + (fn,)), fty.get('desugaredQualType') or fty['qualType'], c, st)
            else:
                self.init_var(lv, ty, inner[0], st)
            return
        if k == 'A' and n['kind'] in ('StringLiteral',):
            v = self.eval(n, st)
            s = v.s
            for i, ch in enumerate(s + '\0'):
                self.store(st, LV(lv.obj, lv.path + (I(i),)), I(ord(ch)), 'char')
            return
        v = self.eval(n, st)
        self.store(st, lv, v, ty, n)

    def truth(self, v, st, node):
        if isinstance(v, T):
            return tobool(v)
        if isinstance(v, Ptr):
            return B(v.obj is not None)
        if isinstance(v, PtrIte):
            return ite(v.c, self.truth(v.a, st, node), self.truth(v.b, st, node))
        if isinstance(v, FuncRef):
            if v.name.startswith('?'):
                return eq(var('isset:' + v.name, 'I'), I(1))
            return TRUE
        if isinstance(v, StrLit):
            return TRUE
        self.unsupported('condition value', node)

    def cond(self, n, st):
        return self.truth(self.eval(n, st), st, n)

    def feasible(self, st, c):
        """syntactic + cheap semantic decision of a branch condition"""
        if c is TRUE or c is FALSE:
            return c
        if c in st.pc:
            return TRUE
        if not_(c) in st.pc:
            return FALSE
        if c.op == 'and' and any(not_(x) in st.pc for x in c.args):
            return FALSE
        if c.op == 'or' and any(x in st.pc for x in c.args):
            return TRUE
        return decide(c, st.pc)

    def s_IfStmt(self, n, st):
        inner = [c for c in n['inner']]
        ci = 0
        if n.get('hasInit') or n.get('hasVar'):
            self.unsupported('if with init', n)
        try:
            c = self.cond(inner[0], st)
        except Dead:
            return {}
        c = self.feasible(st, c)
        if c is TRUE:
            return self.exec_stmt(inner[1], st)
        if c is FALSE:
            if len(inner) > 2:
                return self.exec_stmt(inner[2], st)
            return {'n': st}
        s1 = st
        s2 = st.copy()
        s1.assume(c)
        s2.assume(not_(c))
        # keep a single discriminating literal for merging
        o1 = self.exec_stmt(inner[1], s1)
        o2 = self.exec_stmt(inner[2], s2) if len(inner) > 2 else {'n': s2}
        return self.join(o1, o2)

    def s_ReturnStmt(self, n, st):
        v = None
        if n.get('inner'):
            try:
                v = self.eval(n['inner'][0], st)
            except Dead:
                return {}
            if isinstance(v, StructVal):
                v = StructVal(v.lv, dict(v.mem))
        return {'r': [(st, v)]}

    def s_BreakStmt(self, n, st):
        return {'b': st}

    def s_ContinueStmt(self, n, st):
        return {'c': st}

    def s_SwitchStmt(self, n, st):
        v = self.eval(n['inner'][0], st)
        body = n['inner'][-1]
        # flatten cases
        items = []          # (list of labels or 'default', stmt)

        def unpack(s, labels):
            if s['kind'] == 'CaseStmt':
                val = self.eval(s['inner'][0], st)
                labels.append(val)
                return unpack(s['inner'][-1], labels)
            if s['kind'] == 'DefaultStmt':
                labels.append('default')
                return unpack(s['inner'][-1], labels)
            return s, labels
        for s in body.get('inner', []):
            ss, labs = unpack(s, [])
            items.append((labs, ss))
        alll = [l for labs, _ in items for l in labs if l != 'default']
        out = {}
        entries = []
        for i, (labs, _) in enumerate(items):
            for l in labs:
                if l == 'default':
                    entries.append((and_(*[ne(v, x) for x in alll]), i))
                else:
                    entries.append((eq(v, l), i))
        if not any('default' in labs for labs, _ in items):
            entries.append((and_(*[ne(v, x) for x in alll]), len(items)))
        res = {}
        for c, i in entries:
            c = self.feasible(st, c)
            if c is FALSE:
                continue
            s1 = st.copy()
            s1.assume(c)
            o = self.seq([x for _, x in items[i:]], s1)
            if 'b' in o:
                b = o.pop('b')
                o['n'] = self.merge(o.get('n'), b)
            res = self.join(res, o) if res else o
            if c is TRUE:
                break
        return res

    def s_ForStmt(self, n, st):
        init, _, cond, inc, body = n['inner']
        if init.get('kind'):
            o = self.exec_stmt(init, st)
            st = o.get('n')
            if st is None:
                return {}
        return self.loop(n, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body, st)

    def s_WhileStmt(self, n, st):
        inner = n['inner']
        return self.loop(n, inner[0], None, inner[-1], st)

    def s_DoStmt(self, n, st):
        body, cond = n['inner']
        o = self.exec_stmt(body, st)
        cur = self.merge(o.get('n'), o.get('c'))
        out = {}
        brk = o.get('b')
        rs = o.get('r', [])
        if cur is not None:
            o2 = self.loop(n, cond, None, body, cur)
            brk2 = o2.pop('n', None)
            nn = self.merge(brk2, brk) if brk is not None else brk2
            rs = rs + o2.get('r', [])
        else:
            nn = brk
        if nn is not None:
            out['n'] = nn
        if rs:
            out['r'] = rs
        return out

    def s_LabelStmt(self, n, st):
        self.unsupported('label', n)

    def s_GotoStmt(self, n, st):
        self.unsupported('goto', n)

    def s_OMPParallelForDirective(self, n, st):
        self.unsupported('omp', n)

    # ------------------------------------------------------------ loops
    UNROLL = 80

    def loop(self, node, cond, inc, body, st):
        if self.opts.get('last') and self.in_repo() and has_break(body):
            r = self.last_iteration(node, cond, inc, body, st)
            if r is not None:
                return r
        r = self.try_unroll(node, cond, inc, body, st)
        if r is not None:
            return r
        from loops import summarise
        return summarise(self, node, cond, inc, body, st)

    def last_iteration(self, node, cond, inc, body, st):
        """A loop over scalars with early exits, summarised by its last iteration started in an arbitrary state
        (variables the body assigns only under a loop-invariant condition keep their initial value otherwise).
        The body's obligations are generated for that arbitrary state, so they cover every iteration."""
        import loops
        loops._ln[0] += 1
        L = loops._ln[0]
        outer = tuple(self.loopstack)
        emit = self.emit
        W, guard = {}, {}
        oid0 = _oid[0]

        def entry():
            s = st.copy()
            for k in W:
                v = app('last@%d@%s' % (L, loops.kname(self, k)), outer, st.mem[k].sort)
                s.mem[k] = ite(guard[k], v, st.mem[k]) if k in guard else v
            return s

        def run(s):
            try:
                c = self.cond(cond, s) if cond is not None else TRUE
            except Dead:
                c = FALSE
            s.assume(c)
            o = self.exec_stmt(body, s)
            e = self.merge(o.get('n'), o.get('c'))
            if e is not None and inc is not None:
                self.eval(inc, e)
            return e, o.get('b'), o.get('r', [])

        self.emit = False
        try:
            for rnd in range(12):
                s = entry()
                ent = dict(s.mem)
                e, brk, rets = run(s)
                xs = [x for x in [e, brk] + [r[0] for r in rets] if x is not None]
                if not xs:
                    return None
                new = False
                for x in xs:
                    for k, v in x.mem.items():
                        if k[0] > oid0 or k[0] == -1 or k[1] == '*':
                            continue
                        if k in ent:
                            if ent[k] is v or veq(ent[k], v):
                                continue
                        else:
                            init = self.init_like(st, self.objs.get(k[0]), k[1], v) if isinstance(v, (Node, T)) else None
                            if v is init or not isinstance(v, (Node, T)) or isinstance(v, Node) and isinstance(v, Base):
                                st.mem.setdefault(k, v)
                                continue
                            if init is None:
                                return None
                            st.mem[k] = init
                        if not isinstance(v, T) or not isinstance(st.mem[k], T):
                            return None
                        if k not in W:
                            W[k] = new = True
                if not new:
                    break
            else:
                return None
            own = 'last@%d@' % L
            for k in W:
                gs = set()
                for x in xs:
                    v, xi = x.mem.get(k), ent[k]
                    g = None
                    if isinstance(v, T) and v.op == 'ite' and v.args[2] is xi:
                        g = v.args[0]
                    elif isinstance(v, T) and v.op == 'ite' and v.args[1] is xi:
                        g = not_(v.args[0])
                    elif v is xi:
                        g = FALSE
                    gs.add(g)
                gs.discard(FALSE)
                if len(gs) == 1:
                    g = gs.pop()
                    if g is not None and not any(y.op == 'f' and str(y.val).startswith(own) for y in subterms([g])):
                        guard[k] = g
        finally:
            self.emit = emit
        zero = st.copy()
        s = entry()
        e, brk, rets = run(s)
        if e is not None:
            e.assume(not_(self.cond(cond, e)) if cond is not None else FALSE)
        out = {}
        fin = self.merge(e, brk)
        z = self.cond(cond, zero) if cond is not None else TRUE
        z = self.feasible(zero, z)
        if z is not TRUE:
            zero.assume(not_(z))
            fin = self.merge(zero, fin)
        if fin is not None:
            out['n'] = fin
        if rets:
            out['r'] = rets
        return out

    def try_unroll(self, node, cond, inc, body, st):
        saved = len(self.obs)
        cur = st.copy()
        brk = None
        rets = []
        unlim = self.opts.get('unroll', self.UNROLL)
        for it in range(unlim + 1):
            if cur is None:
                break
            try:
                c = self.cond(cond, cur) if cond is not None else TRUE
            except Dead:
                return {}
            if c is not TRUE and c is not FALSE:
                c = self.feasible(cur, c) if it > 0 else c
            if c is not TRUE and c is not FALSE and it <= self.opts.get('once', 0) > 0:
                # a loop that provably runs exactly this many times (symbolic bounds) is executed, not summarised
                from solver import valid
                if it < self.opts['once'] and valid(cur.pc, c, 2.0):
                    c = TRUE
                elif it == self.opts['once'] and valid(cur.pc, not_(c), 2.0):
                    c = FALSE
            if c is FALSE:
                break
            if c is not TRUE or it == unlim:
                del self.obs[saved:]
                return None
            o = self.exec_stmt(body, cur)
            cur = self.merge(o.get('n'), o.get('c'))
            if 'b' in o:
                brk = self.merge(brk, o['b'])
            rets += o.get('r', [])
            if cur is not None and inc is not None:
                self.eval(inc, cur)
        out = {}
        fin = self.merge(cur, brk)
        if fin is not None:
            out['n'] = fin
        if rets:
            out['r'] = rets
        return out

    # ------------------------------------------------------------ expressions
    def eval(self, n, st):
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            self.unsupported('expression ' + n['kind'], n)
        return m(n, st)

    def e_ParenExpr(self, n, st):
        return self.eval(n['inner'][0], st)

    def e_ConstantExpr(self, n, st):
        return self.eval(n['inner'][0], st)

    def e_ExprWithCleanups(self, n, st):
        return self.eval(n['inner'][0], st)

    def e_IntegerLiteral(self, n, st):
        return I(int(n['value']))

    def e_CharacterLiteral(self, n, st):
        return I(int(n['value']))

    def e_FloatingLiteral(self, n, st):
        return R(Fr(n['value']))

    def e_StringLiteral(self, n, st):
        import ast as pyast
        try:
            return StrLit(pyast.literal_eval(n['value']))
        except Exception:
            return StrLit(n['value'].strip('"'))

    def e_ImplicitValueInitExpr(self, n, st):
        k = tkind(tstr(n))[0]
        return const(0, k) if k in 'RI' else NULL

    def e_StmtExpr(self, n, st):
        self.unsupported('stmtexpr', n)

    def e_PredefinedExpr(self, n, st):
        return StrLit('<func>')

    def cast(self, v, ty, n, st):
        k, ex = tkind(ty)
        if v.__class__.__name__ == 'HeapPtr':
            if k == 'P' and norm(ex) != 'void':
                import builtins_
                return builtins_.settle(self, v, ex)
            return v
        if isinstance(v, T):
            if k == 'R':
                return toR(v)
            if k == 'I':
                t = norm(ty)
                if t in ('bool', '_Bool'):
                    return b2i(tobool(v))
                v = toI(v)
                if v.op == 'trunc' and self.opts.get('once'):
                    from solver import valid
                    w = I(self.opts['once'])
                    if valid(st.pc, eq(v, w), 2.0):
                        return w
                return v
            if k == 'P':
                if isc(v) and v.val == 0:
                    return NULL
                self.unsupported('int to pointer', n)
            if k == 'V':
                return v
        return v

    def e_ImplicitCastExpr(self, n, st):
        ck = n['castKind']
        sub_ = n['inner'][0]
        if ck == 'LValueToRValue':
            lv = self.lval(sub_, st)
            return self.load(st, lv, tstr(sub_), n)
        if ck == 'ArrayToPointerDecay':
            if sub_['kind'] in ('StringLiteral', 'PredefinedExpr'):
                return self.eval(sub_, st)
            lv = self.lval(sub_, st)
            return self.addr_arr(lv)
        if ck == 'FunctionToPointerDecay':
            return self.eval(sub_, st)
        v = self.eval(sub_, st)
        if v.__class__.__name__ == 'HeapPtr':
            return self.cast(v, tstr(n), n, st)
        if ck in ('NoOp', 'BitCast', 'ToVoid', 'BuiltinFnToFnPtr'):
            return v
        if ck == 'NullToPointer':
            return NULL
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.truth(v, st, n)
        return self.cast(v, tstr(n), n, st)

    def addr_arr(self, lv):
        if isinstance(lv, LVIte):
            return PtrIte(lv.c, self.addr_arr(lv.a), self.addr_arr(lv.b))
        return Ptr(lv.obj, lv.path + (I(0),))

    def e_CStyleCastExpr(self, n, st):
        ck = n.get('castKind')
        if ck == 'LValueToRValue' or ck == 'ArrayToPointerDecay':
            return self.e_ImplicitCastExpr(n, st)
        v = self.eval(n['inner'][0], st)
        if ck == 'NullToPointer':
            return NULL
        if ck == 'ToVoid':
            return v
        return self.cast(v, tstr(n), n, st)

    def e_DeclRefExpr(self, n, st):
        rd = n['referencedDecl']
        if rd['kind'] == 'EnumConstantDecl':
            v = self.frames[-1]['tu'].enums.get(rd['name'])
            if v is None:
                self.unsupported('enum ' + rd['name'], n)
            return I(v)
        if rd['kind'] == 'FunctionDecl':
            return FuncRef(rd['name'])
        # struct rvalue in odd contexts
        lv = self.lval(n, st)
        return self.load(st, lv, tstr(n), n)

    def e_MemberExpr(self, n, st):
        lv = self.lval(n, st)
        return self.load(st, lv, tstr(n), n)

    e_ArraySubscriptExpr = e_MemberExpr

    def e_CompoundLiteralExpr(self, n, st):
        ob = Obj('lit')
        ob.name = 'lit#%d' % ob.id
        self.objs = getattr(self, 'objs', {})
        self.objs[ob.id] = ob
        self.init_var(LV(ob), tstr(n), n['inner'][0], st)
        return self.load(st, LV(ob), tstr(n), n)

    def e_InitListExpr(self, n, st):
        ob = Obj('lit')
        self.objs[ob.id] = ob
        self.init_var(LV(ob), tstr(n), n, st)
        return self.load(st, LV(ob), tstr(n), n)

    # lvalues
    def lval(self, n, st):
        k = n['kind']
        if k in ('ParenExpr', 'ConstantExpr'):
            return self.lval(n['inner'][0], st)
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            ob = self.frames[-1]['env'].get(rd['id'])
            if ob is None:
                ob = self.global_obj(rd['name'], st, n)
            return LV(ob)
        if k == 'MemberExpr':
            base = n['inner'][0]
            if n.get('isArrow'):
                p = self.eval(base, st)
                return self.field(p, n['name'], st, n)
            b = self.lval_or_temp(base, st)
            return self.lvfield(b, n['name'])
        if k == 'ArraySubscriptExpr':
            p = self.eval(n['inner'][0], st)
            i = self.eval(n['inner'][1], st)
            if isinstance(p, T) and not isinstance(i, T):
                p, i = i, p
            return self.deref(self.padd(p, i, n), st, n)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.eval(n['inner'][0], st)
            return self.deref(p, st, n)
        if k == 'ImplicitCastExpr' and n['castKind'] in ('NoOp', 'LValueBitCast'):
            return self.lval(n['inner'][0], st)
        if k == 'CompoundLiteralExpr' or k == 'CallExpr':
            return self.lval_or_temp(n, st)
        if k == 'CStyleCastExpr':
            return self.lval(n['inner'][0], st)
        self.unsupported('lvalue ' + k, n)

    def lval_or_temp(self, n, st):
        while n['kind'] == 'ParenExpr':
            n = n['inner'][0]
        if n['kind'] in ('CallExpr', 'CompoundLiteralExpr') or (n['kind'] == 'ImplicitCastExpr' and n['castKind'] == 'LValueToRValue'):
            v = self.eval(n, st)
            ob = Obj('tmp')
            ob.name = 'tmp#%d' % ob.id
            self.objs[ob.id] = ob
            self.copy_struct(st, LV(ob), v, tstr(n))
            return LV(ob)
        return self.lval(n, st)

    def lvfield(self, b, name):
        if isinstance(b, LVIte):
            return LVIte(b.c, self.lvfield(b.a, name), self.lvfield(b.b, name))
        return LV(b.obj, b.path + (name,))

    def field(self, p, name, st, n):
        if isinstance(p, PtrIte):
            c = self.feasible(st, p.c)
            if c is TRUE:
                return self.field(p.a, name, st, n)
            if c is FALSE:
                return self.field(p.b, name, st, n)
            for c, x, y in ((p.c, p.a, p.b), (not_(p.c), p.b, p.a)):
                if isinstance(y, Ptr) and y.obj is None:
                    self.oblige('null-dereference', st, c, 'safety', n)
                    st.assume(c)
                    return self.field(x, name, st, n)
            return LVIte(p.c, self.field(p.a, name, st, n), self.field(p.b, name, st, n))
        if not isinstance(p, Ptr):
            self.unsupported('-> on %r' % (p,), n)
        if p.obj is None:
            self.oblige('null-dereference', st, FALSE, 'safety', n)
            raise Dead()
        path = p.path
        if path and isinstance(path[-1], T) and isc(path[-1]) and path[-1].val == 0 and p.obj.lens is None and len(path) == 1 and not p.obj.heap:
            path = ()
        return LV(p.obj, path + (name,))

    def deref(self, p, st, n):
        if isinstance(p, PtrIte):
            c = self.feasible(st, p.c)
            if c is TRUE:
                return self.deref(p.a, st, n)
            if c is FALSE:
                return self.deref(p.b, st, n)
            for c, x, y in ((p.c, p.a, p.b), (not_(p.c), p.b, p.a)):
                if isinstance(y, Ptr) and y.obj is None:
                    self.oblige('null-dereference', st, c, 'safety', n)
                    st.assume(c)
                    return self.deref(x, st, n)
            return LVIte(p.c, self.deref(p.a, st, n), self.deref(p.b, st, n))
        if isinstance(p, StrLit):
            ob = self.str_obj(p, st)
            return LV(ob, (I(p.off),))
        if not isinstance(p, Ptr):
            self.unsupported('deref of %r' % (p,), n)
        if p.obj is None:
            self.oblige('null-dereference', st, FALSE, 'safety', n)
            raise Dead()
        return LV(p.obj, p.path)

    def str_obj(self, s, st):
        key = 'str:' + s.s
        if key not in self.globals:
            ob = Obj(key, lens=[I(len(s.s) + 1)])
            self.objs[ob.id] = ob
            data = s.s + '\0'

            def f(idx, data=data):
                if isc(idx[0]) and 0 <= idx[0].val < len(data):
                    return I(ord(data[idx[0].val]))
                return app('str:' + data, idx, 'I')
            self.globals[key] = (ob, Base(key, 1, 'I', f))
        ob, base = self.globals[key]
        st.mem.setdefault((ob.id, ('[]',)), base)
        return ob

    def padd(self, p, i, n, sign=1):
        if isinstance(i, T) and i.sort == 'B':
            i = b2i(i)
        if sign < 0:
            i = neg(i)
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.padd(p.a, i, n), self.padd(p.b, i, n))
        if isinstance(p, StrLit):
            if isc(i):
                return StrLit(p.s, p.off + i.val)
            self.unsupported('string index', n)
        if not isinstance(p, Ptr):
            self.unsupported('pointer arithmetic on %r' % (p,), n)
        if p.obj is None:
            return p
        if p.path and isinstance(p.path[-1], T):
            return Ptr(p.obj, p.path[:-1] + (add(p.path[-1], i),))
        if isc(i) and i.val == 0:
            return p
        # pointer to a single object treated as array element 0
        self.unsupported('pointer arithmetic on scalar object', n)

    def global_obj(self, name, st, n):
        if name not in self.globals:
            g = self.frames[-1]['tu'].globals.get(name)
            ob = Obj('g:' + name, zero=False)
            self.objs = getattr(self, 'objs', {})
            self.objs[ob.id] = ob
            self.globals[name] = ob
            if g is not None and g.get('init'):
                init = [c for c in g.get('inner', []) if c.get('kind')]
                if init and ('const' in g['type']['qualType']):
                    self.init_var(LV(ob), tstr(g), init[-1], st)
        return self.globals[name]

    def e_UnaryOperator(self, n, st):
        op = n['opcode']
        s = n['inner'][0]
        if op == '&':
            if s['kind'] == 'DeclRefExpr' and s['referencedDecl']['kind'] == 'FunctionDecl':
                return FuncRef(s['referencedDecl']['name'])
            lv = self.lval(s, st)
            return self.addr(lv)
        if op == '*':
            p = self.eval(s, st)
            if isinstance(p, FuncRef):
                return p
            lv = self.deref(p, st, n)
            return self.load(st, lv, tstr(n), n)
        if op in ('++', '--'):
            lv = self.lval(s, st)
            ty = tstr(s)
            old = self.load(st, lv, ty, n)
            one = I(1) if op == '++' else I(-1)
            if isinstance(old, T):
                new = add(old, one)
            else:
                new = self.padd(old, one, n)
            self.store(st, lv, new, ty, n)
            return old if n.get('isPostfix') else new
        v = self.eval(s, st)
        if op == '-':
            return neg(v)
        if op == '+':
            return v
        if op == '!':
            return not_(self.truth(v, st, n))
        if op == '~':
            self.unsupported('~', n)
        if op == '__extension__':
            return v
        self.unsupported('unary ' + op, n)

    def addr(self, lv):
        if isinstance(lv, LVIte):
            return PtrIte(lv.c, self.addr(lv.a), self.addr(lv.b))
        return Ptr(lv.obj, lv.path)

    def with_pc(self, st, c, f):
        """evaluate f(st) assuming c; pure evaluation (memory writes leak only if none happen)"""
        s2 = State(st.mem, st.pc)
        s2 = st.copy()
        s2.assume(c)
        v = f(s2)
        return v, s2

    def mem_changed(self, a, b):
        if len(a.mem) != len(b.mem):
            # materialisation of initial values is not a change
            pass
        for k, v in b.mem.items():
            o = a.mem.get(k)
            if o is not v and o is not None and not veq(o, v):
                return True
        return False

    def e_BinaryOperator(self, n, st):
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            ty = tstr(l)
            v = self.eval(r, st)
            lv = self.lval(l, st)
            self.store(st, lv, v, ty, n)
            return v
        if op == ',':
            self.eval(l, st)
            return self.eval(r, st)
        if op in ('&&', '||'):
            a = self.truth(self.eval(l, st), st, n)
            a2 = self.feasible(st, a)
            if op == '&&':
                if a2 is FALSE:
                    return FALSE
                if a2 is TRUE:
                    return self.truth(self.eval(r, st), st, n)
                b, s2 = self.with_pc(st, a, lambda s: self.truth(self.eval(r, s), s, n))
            else:
                if a2 is TRUE:
                    return TRUE
                if a2 is FALSE:
                    return self.truth(self.eval(r, st), st, n)
                b, s2 = self.with_pc(st, not_(a), lambda s: self.truth(self.eval(r, s), s, n))
            if self.mem_changed(st, s2):
                s3 = st.copy()
                s3.assume(not_(a) if op == '&&' else a)
                m, b = self.merge_ret(s2, b, s3, TRUE if op == '&&' else FALSE)
                st.mem, st.pc = m.mem, m.pc
            return and_(a, b) if op == '&&' else or_(a, b)
        a = self.eval(l, st)
        b = self.eval(r, st)
        return self.binop(op, a, b, n, st)

    def binop(self, op, a, b, n, st):
        if not (isinstance(a, T) and isinstance(b, T)):
            if op in ('==', '!='):
                e = self.ptr_eq(a, b, n)
                return e if op == '==' else not_(e)
            if op == '+':
                return self.padd(a, b, n) if not isinstance(a, T) else self.padd(b, a, n)
            if op == '-' and isinstance(b, T):
                return self.padd(a, b, n, -1)
            if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                return sub(a.path[-1], b.path[-1])
            self.unsupported('pointer binop %s %r %r' % (op, a, b), n)
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if 'R' in (a.sort, b.sort):
                if self.opts.get('divcheck') and self.in_repo():
                    self.oblige('division-by-zero', st, ne(toR(b), R(0)), 'safety', n)
                return div(a, b)
            return self.c_idiv(b2i(a), b2i(b), st)
        if op == '%':
            return self.c_imod(b2i(a), b2i(b), st)
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return le(a, b)
        if op == '>=':
            return le(b, a)
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return ne(a, b)
        if op in ('<<', '>>', '&', '|', '^'):
            if isc(a) and isc(b):
                return I({'<<': a.val << b.val, '>>': a.val >> b.val, '&': a.val & b.val, '|': a.val | b.val, '^': a.val ^ b.val}[op])
            if op == '&' and a.sort == 'B' and b.sort == 'B':
                return and_(a, b)
            if op == '|' and a.sort == 'B' and b.sort == 'B':
                return or_(a, b)
        self.unsupported('binop ' + op, n)

    def c_idiv(self, a, b, st):
        r = idiv(a, b)
        if r.op == 'idiv' and not isc(a):
            q, m = pdivide(a, b)
            if m is I(0):
                return q
            if q is not I(0) or True:
                if valid(st.pc, and_(le(I(0), m), lt(m, b), le(I(0), q)), 0.5):
                    return q
        return r

    def c_imod(self, a, b, st):
        r = imod(a, b)
        if r.op == 'imod':
            q, m = pdivide(a, b)
            if m is I(0):
                return I(0)
            if valid(st.pc, and_(le(I(0), m), lt(m, b), le(I(0), q)), 0.5):
                return m
        return r

    def ptr_eq(self, a, b, n):
        if isinstance(a, PtrIte):
            return ite(a.c, self.ptr_eq(a.a, b, n), self.ptr_eq(a.b, b, n))
        if isinstance(b, PtrIte):
            return self.ptr_eq(b, a, n)
        if isinstance(a, T):
            a = NULL
        if isinstance(b, T):
            b = NULL
        if isinstance(a, FuncRef) or isinstance(b, FuncRef):
            if isinstance(a, FuncRef) and isinstance(b, FuncRef):
                return B(a.name == b.name)
            f = a if isinstance(a, FuncRef) else b
            if f.name.startswith('?'):
                return ne(var('isset:' + f.name, 'I'), I(1))
            return FALSE
        if isinstance(a, StrLit) or isinstance(b, StrLit):
            return B(veq(a, b))
        if a.obj is not b.obj:
            return FALSE
        if len(a.path) != len(b.path):
            return FALSE
        return and_(*[eq(x, y) if isinstance(x, T) else B(x == y) for x, y in zip(a.path, b.path)])

    def e_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        l, r = n['inner']
        ty = tstr(l)
        v = self.eval(r, st)
        lv = self.lval(l, st)
        old = self.load(st, lv, ty, n)
        new = self.binop(op, old, v, n, st)
        self.store(st, lv, new, ty, n)
        return new

    def e_ConditionalOperator(self, n, st):
        c, a, b = n['inner']
        cv = self.cond(c, st)
        cv = self.feasible(st, cv)
        if cv is TRUE:
            return self.eval(a, st)
        if cv is FALSE:
            return self.eval(b, st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(cv)
        s2.assume(not_(cv))
        va = self.eval(a, s1)
        vb = self.eval(b, s2)
        if self.mem_changed(st, s1) or self.mem_changed(st, s2):
            if isinstance(va, (StructVal, StructIte)):
                self.unsupported('side effect in ?:', n)
            m, v = self.merge_ret(s1, va, s2, vb)
            st.mem, st.pc = m.mem, m.pc
            return v
        if isinstance(va, (StructVal, StructIte)):
            return StructIte(cv, va, vb)
        return vite(cv, va, vb)

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        t = n.get('argType')
        if t:
            ty = t.get('desugaredQualType') or t['qualType']
        else:
            ty = tstr(n['inner'][0])
        return self.sizeof(ty)

    def sizeof(self, ty):
        k, ex = tkind(ty)
        if k == 'P' or k == 'F':
            return I(8)
        if k == 'A':
            et, c = arr_elem(ty)
            return mul(I(c), self.sizeof(et))
        t = norm(ty)
        if t in SIZES:
            return I(SIZES[t])
        if k == 'I':
            return I(4)
        s = var('sizeof:' + t, 'I')
        FACTS['sizeof:' + t] = lambda a, s=s: [lt(I(0), s)]
        return s

    # ------------------------------------------------------------ calls
    def e_CallExpr(self, n, st):
        f = self.eval(n['inner'][0], st)
        args = n['inner'][1:]
        if isinstance(f, PtrIte):
            self.unsupported('call through conditional function pointer', n)
        if not isinstance(f, FuncRef):
            self.unsupported('indirect call', n)
        return self.call(f.name, args, n, st)

    def call(self, name, args, n, st):
        import builtins_ as bi
        if name in bi.TABLE:
            return bi.TABLE[name](self, args, n, st)
        if name in ('free', 'DoodzFree'):
            try:
                v = self.eval(args[0], st)
            except Unsupported:
                v = None
            if isinstance(v, Ptr) and v.obj is not None and v.obj.heap and v.obj.name.startswith('heap@') and self.in_repo():
                v.obj.freed = True
                for k in [k for k in st.mem if k[0] == v.obj.id]:
                    del st.mem[k]
            return I(0)
        if name in IGNORED:
            for a in args:
                # evaluate pure arguments for safety obligations only when cheap
                pass
            return I(0)
        if name.startswith('?'):
            self.unsupported('call of unknown function pointer ' + name, n)
        vals = [self.eval(a, st) for a in args]
        tys = [tstr(a) for a in args]
        stub = 'CONTRACT_' + name
        if stub in self.prog.spec.funcs and name not in self.no_stub and not self.frames[-1]['name'].startswith('CONTRACT_'):
            self.trusted.setdefault('callee-contract:' + name, 0)
            self.trusted['callee-contract:' + name] += 1
            return self.invoke(self.prog.spec, self.prog.spec.funcs[stub], vals, n, st)
        r = None
        tu = self.frames[-1]['tu']
        if name in tu.funcs:
            r = (tu, tu.funcs[name])
        else:
            r = self.prog.find(name)
        if r is None:
            return self.external(name, vals, n, st)
        if r[0] is not self.prog.spec:
            self.funcs_seen[name] = r[0].path
        return self.invoke(r[0], r[1], vals, n, st)

    def external(self, name, vals, n, st):
        k, ex = tkind(tstr(n))
        if any(not isinstance(v, T) for v in vals):
            self.unsupported('external function %s' % name, n)
        self.trusted.setdefault('uninterpreted:' + name, 0)
        self.trusted['uninterpreted:' + name] += 1
        if k in ('R', 'I'):
            return app('ext:' + name, [b2i(v) for v in vals], k)
        self.unsupported('external function %s' % name, n)

    def invoke(self, tu, fn, vals, n, st):
        if self.calldepth > 40:
            self.unsupported('recursion', n)
        fr = {'name': fn['name'], 'tu': tu, 'env': {}, 'locals': set(), 'line': fn.get('loc', {}).get('line')}
        params = [c for c in fn['inner'] if c['kind'] == 'ParmVarDecl']
        body = next(c for c in fn['inner'] if c['kind'] == 'CompoundStmt')
        self.frames.append(fr)
        self.calldepth += 1
        try:
            for p, v in zip(params, vals):
                ob = Obj(p.get('name', 'arg'), spec=tu is self.prog.spec)
                ob.name = '%s#%d' % (p.get('name', 'arg'), ob.id)
                fr['env'][p['id']] = ob
                fr['locals'].add(ob.id)
                self.objs = getattr(self, 'objs', {})
                self.objs[ob.id] = ob
                ty = tstr(p)
                if isinstance(v, (StructVal, StructIte)):
                    self.copy_struct(st, LV(ob), v, ty)
                else:
                    self.store(st, LV(ob), v, ty, n)
            w = State(st.mem, st.pc)
            out = self.exec_stmt(body, w)
        finally:
            self.frames.pop()
            self.calldepth -= 1
        rs = out.get('r', [])
        if 'n' in out:
            rs = rs + [(out['n'], None)]
        if not rs:
            raise Dead()
        # merge all returning states
        cur, val = rs[0]
        RK = ('ret',)
        for s, v in rs[1:]:
            cur, val = self.merge_ret(cur, val, s, v)
        dead = fr['locals']
        st.mem = {k: v for k, v in cur.mem.items() if k[0] not in dead}
        st.pc = cur.pc
        if val is None:
            return I(0)
        rt = fn['type']['qualType'].split('(')[0].strip()
        if isinstance(val, T):
            k = tkind(tstr(n))[0] if 'type' in n else None
            if k == 'R':
                val = toR(val)
            elif k == 'I' and val.sort != 'I':
                val = toI(val)
        return val

    def merge_ret(self, s1, v1, s2, v2):
        K = (-1, ('ret',))
        if isinstance(v1, (StructVal, StructIte)) or isinstance(v2, (StructVal, StructIte)):
            a, b = dict(s1.mem), dict(s2.mem)
            s1.mem = dict(s1.mem)
            s2.mem = dict(s2.mem)
            v1 = _freeze(v1, a)
            v2 = _freeze(v2, b)
        if v1 is not None:
            s1.mem[K] = v1
        if v2 is not None:
            s2.mem[K] = v2
        m = self.merge(s1, s2)
        v = m.mem.pop(K, None)
        return m, v

    # ------------------------------------------------------------ entry
    def run(self, name):
        fn = self.prog.spec.funcs[name]
        self.frames = [{'name': name, 'tu': self.prog.spec, 'env': {}, 'locals': set(), 'line': 0}]
        self.objs = {}
        st = State()
        try:
            self.invoke(self.prog.spec, fn, [], {'kind': 'x'}, st)
        except Dead:
            pass
        return st


def _freeze(v, mem):
    return v


def has_break(n):
    k = n.get('kind')
    if k == 'BreakStmt':
        return True
    if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'SwitchStmt'):
        return False
    return any(has_break(c) for c in n.get('inner', []) if isinstance(c, dict))


def has_open(t):
    for x in subterms([t]):
        if x.op == 'f' and x.val.startswith('open@'):
            return True
    return False


def delta(v, cur):
    """v - cur if expressible without the open reads of cur being left over; else None"""
    if v is cur:
        return const(0, v.sort)
    if v.op == 'ite':
        a, b = delta(v.args[1], cur), delta(v.args[2], cur)
        if a is None or b is None:
            return None
        return ite(v.args[0], a, b)
    d = sub(v, cur)
    if v.sort != cur.sort:
        return None
    atoms = [x for x in subterms([cur]) if x.op == 'f' and x.val.startswith('open@')]
    sb = subterms([d])
    # the added part must not contain the current cell value itself
    if cur in sb:
        return None
    if cur.op == 'f' and cur in sb:
        return None
    if any(a in sb for a in atoms):
        if cur.op == 'add':
            return None
        return None
    return d
