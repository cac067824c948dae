"""Symbolic execution of the clang AST over families of cells, with loop
summarisation.  The state maps (root, path) to a term over the index variables
@0, @1, ... (one per '[]' in the path)."""
import itertools
from . import term as tm
from .term import *
from . import oracle as orc
from .oracle import Oracle, UINT_FN
from .cast import Unsupported

AT = [var('@%d' % i, 'I') for i in range(8)]
_ser = itertools.count(1)
ARITH = ('+', '-', '*', '/', '%')


class Place:
    __slots__ = ('root', 'path', 'idx', 'ty')

    def __init__(self, root, path, idx, ty):
        self.root, self.path, self.idx, self.ty = root, path, idx, ty

    def f(self, name, ty):
        return Place(self.root, self.path + (name,), self.idx, ty)

    def el(self, i, ty):
        return Place(self.root, self.path + ('[]',), self.idx + (i,), ty)

    def cast(self, ty):
        return Place(self.root, self.path, self.idx, ty)

    @property
    def key(self):
        return (self.root, self.path)

    def same(self, o):
        return isinstance(o, Place) and self.root == o.root and self.path == o.path and self.idx == o.idx

    def __repr__(self):
        return 'P(%s.%s%s)' % (self.root, '.'.join(self.path), list(self.idx))


class Ptr:
    """pointer to element `off` of the array of elements arr (a Place whose path
    ends with '[]' but whose idx lacks the last index), or, with off None, to
    the object at arr"""
    __slots__ = ('arr', 'off')

    def __init__(self, arr, off=None):
        self.arr, self.off = arr, off

    def deref(self):
        a = self.arr
        if self.off is None:
            return a
        return Place(a.root, a.path, a.idx + (self.off,), a.ty)

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.arr, self.off)


class Null:
    def __repr__(self):
        return 'null'


NULL = Null()


class PIte:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class MapIt:
    def __init__(self, m, pos):
        self.m, self.pos = m, pos   # Place of the map/set, position term


class Str:
    pass


class FnVal:
    def __init__(self, node, this=None):
        self.node, self.this = node, this


class RvTmp(Place):
    __slots__ = ()


_strid = {}


def strid(s):
    if s not in _strid:
        _strid[s] = len(_strid)
    return I(1000 + _strid[s]) if s else I(0)


strid('')


class St:
    __slots__ = ('fams', 'pc')

    def __init__(self, fams, pc):
        self.fams, self.pc = fams, pc

    def copy(self):
        return St(dict(self.fams), self.pc)


class Exit:
    __slots__ = ('kind', 'pc', 'fams', 'val', 'info')

    def __init__(self, kind, pc, fams, val=None, info=None):
        self.kind, self.pc, self.fams, self.val, self.info = kind, pc, fams, val, info


class Frame:
    def __init__(self, fn, this, engine):
        self.fn, self.this = fn, this
        self.env = {}
        self.exits = []     # Exit objects: return / throw / break / continue
        self.pc0 = 0


def sort_of(ty):
    k = ty[0]
    if k in ('int', 'uint', 'enum', 'str'):
        return 'I'
    if k == 'real':
        return 'R'
    if k == 'bool':
        return 'B'
    return None


SCALAR = ('int', 'uint', 'enum', 'str', 'real', 'bool', 'ptr', 'sptr')


def default(ty):
    k = ty[0]
    if k in ('int', 'uint', 'enum', 'str'):
        return I(0)
    if k == 'real':
        return R(0)
    if k == 'bool':
        return FALSE
    return NULL


class Engine:
    def __init__(self, ast, mode='A'):
        self.ast = ast
        self.mode = mode
        self.o = Oracle()
        self.obls = []          # (name, goal, hyps)
        self.invs = []          # (name, want, got, hyps, n): loop invariants to re-check
        self.obl_on = True
        self.contracts = {}
        self.trusted = set()
        self.inlined = set()
        self.used_contracts = set()
        self.facts = {}         # fname -> callable(args) -> [facts]   (recursive symbols)
        self.recdefs = {}
        self.loopks = ()
        self.stack = []
        self.dyn = {}
        self.heapn = itertools.count(1)
        self.dyntypes = {}      # root -> dynamic class
        self.unroll_limit = 40
        self.depth = 0
        self.steps = 0
        self.callstack = []
        self.objects = {}       # named external objects
        self.callbacks = True
        self.track_cb = False
        tm.FDIV_HOOK[0] = self.fdiv_hook
        tm.RAG_HOOK[0] = self.rag_hook
        self.curpc = ()

    # ------------------------------------------------------------ decode
    def fdiv_hook(self, a, b):
        # 0 <= a < b  -> 0 ; -b <= a < 0 -> -1
        if fv(a) | fv(b):
            pass
        if any(v.a[0][0] in '@#' for v in fv(a)):
            return None
        if self.o.check(and_(le(ZERO, a), lt(a, b)), self.curpc):
            return ZERO
        return None

    def rag_hook(self, S, x):
        if any(v.a[0][0] in '@#' for v in fv(x)):
            return None
        W = S.a[2]
        for m, c in monomials(x).items():
            if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0].op == 'sum' and m[0][0].a[2] is W:
                s = m[0][0]
                r = sub(x, s)
                w = open_(S, s.a[1])
                if self.o.check(and_(le(ZERO, r), lt(r, w)), self.curpc):
                    return s.a[1]
        w = open_(S, ZERO)
        if self.o.check(and_(le(ZERO, x), lt(x, w)), self.curpc):
            return ZERO
        # concrete number of blocks
        return None

    # ------------------------------------------------------------- state
    def known(self, st, c):
        self.curpc = st.pc
        return self.o.decide(c, st.pc)

    def fam(self, st, key, ty, n):
        f = st.fams.get(key)
        if f is None:
            f = self.init_fam(key, ty, n)
            st.fams[key] = f
        return f

    def init_fam(self, key, ty, n):
        name = self.famname(key)
        s = sort_of(ty)
        if s is None:
            if ty[0] in ('ptr', 'sptr'):
                if n == 0:
                    return self.init_ptr(key, ty)
            raise Unsupported('initial family %s of type %s' % (key, ty))
        if ty[0] == 'uint':
            UINT_FN.add(name)
        return app(name, AT[:n], s)

    def init_ptr(self, key, ty):
        """initial value of a pointer cell that was never written"""
        return self.heap_ptr(ty, app(self.famname(key) + '#id', (), 'I'), app(self.famname(key) + '#off', (), 'I'))

    def famname(self, key):
        root, path = key
        r = root if isinstance(root, str) else '_'.join(str(x) for x in root) if isinstance(root, tuple) else 'L%d' % root
        return r + ''.join(('.' + p) if p != '[]' else '[]' for p in path)

    def heap_ptr(self, ty, i, off):
        e = ty[1]
        if ty[0] == 'sptr' or e[0] == 'cls':
            return Ptr(Place(('H', repr(e)), ('[]',), (i,), e), None)
        return Ptr(Place(('H', repr(e)), ('[]', '[]'), (i,), e), off)

    def read(self, st, p):
        ty = p.ty
        k = ty[0]
        if k not in SCALAR:
            return p
        if k in ('ptr', 'sptr'):
            return self.read_ptr(st, p)
        f = self.fam(st, p.key, ty, len(p.idx))
        if p.idx:
            self.curpc = st.pc
            f = subst(f, dict(zip(AT, p.idx)))
        return f

    def read_ptr(self, st, p):
        if not p.idx:
            v = st.fams.get(p.key)
            if v is None:
                v = self.init_ptr(p.key, p.ty)
                st.fams[p.key] = v
            return v
        pid = Place(p.root, p.path + ('#id',), p.idx, ('uint',))
        poff = Place(p.root, p.path + ('#off',), p.idx, ('uint',))
        i = self.read(st, pid)
        if isnum(i, 0):
            return NULL
        return self.heap_ptr(p.ty, i, self.read(st, poff))

    def enc_ptr(self, v):
        """(id, off) terms of a heap pointer"""
        if v is NULL:
            return ZERO, ZERO
        if isinstance(v, Ptr) and isinstance(v.arr.root, tuple) and v.arr.root[0] == 'H':
            if v.off is None and v.arr.path == ('[]',):
                return v.arr.idx[0], ZERO
            if v.off is not None and v.arr.path == ('[]', '[]'):
                return v.arr.idx[0], v.off
        if isinstance(v, PIte):
            a, b = self.enc_ptr(v.a), self.enc_ptr(v.b)
            return ite(v.c, a[0], b[0]), ite(v.c, a[1], b[1])
        raise Unsupported('pointer into a non-heap object stored in an indexed cell: %r' % (v,))

    def write(self, st, p, v, guard=TRUE):
        ty = p.ty
        k = ty[0]
        if k not in SCALAR:
            return self.copy(st, p, v, guard)
        if k in ('ptr', 'sptr'):
            if not p.idx:
                if guard is TRUE:
                    st.fams[p.key] = v
                else:
                    st.fams[p.key] = self.merge_val(guard, v, self.read_ptr(st, p))
                return
            i, off = self.enc_ptr(v)
            self.write(st, Place(p.root, p.path + ('#id',), p.idx, ('uint',)), i, guard)
            self.write(st, Place(p.root, p.path + ('#off',), p.idx, ('uint',)), off, guard)
            return
        v = self.conv(v, ty)
        n = len(p.idx)
        c = guard
        if n or guard is not TRUE:
            old = self.fam(st, p.key, ty, n)
        if n:
            c = and_(guard, *[eq(a, i) for a, i in zip(AT, p.idx)])
        if c is TRUE:
            st.fams[p.key] = v
        else:
            st.fams[p.key] = ite(c, v, old)

    def conv(self, v, ty):
        k = ty[0]
        if not isinstance(v, T):
            return v
        if k == 'real':
            return toreal(v)
        if k == 'bool':
            return v if v.s == 'B' else ne(v, num(0, v.s))
        if k in ('int', 'uint', 'enum', 'str'):
            if v.s == 'B':
                return ite(v, I(1), I(0))
            if v.s == 'R':
                if v.op == 'num':
                    f = v.a[0]
                    n = abs(f.numerator) // f.denominator
                    return I(n if f >= 0 else -n)
                return trunc(v)
        return v

    # leaves of a type: (relpath, ty)
    def leaves(self, ty):
        c = getattr(self, '_lv', None)
        if c is None:
            c = self._lv = {}
        if ty in c:
            if c[ty] is None:
                return []   # recursive type (map of itself): cut
            return c[ty]
        c[ty] = None
        r = self._leaves(ty)
        c[ty] = r
        return r

    def _leaves(self, ty):
        k = ty[0]
        if k in ('ptr', 'sptr'):
            return [((), ty)]
        if k in SCALAR:
            return [((), ty)]
        if k == 'vec':
            return [(('#size',), ('uint',))] + [(('[]',) + p, t) for p, t in self.leaves(ty[1])]
        if k == 'arr':
            return [(('[]',) + p, t) for p, t in self.leaves(ty[1])]
        if k == 'map':
            return [(('#size',), ('uint',))] + [(('[]', 'first') + p, t) for p, t in self.leaves(ty[1])] + \
                [(('[]', 'second') + p, t) for p, t in self.leaves(ty[2])]
        if k == 'set':
            return [(('#size',), ('uint',))] + [(('[]',) + p, t) for p, t in self.leaves(ty[1])]
        if k == 'pair':
            return [(('first',) + p, t) for p, t in self.leaves(ty[1])] + [(('second',) + p, t) for p, t in self.leaves(ty[2])]
        if k == 'cls':
            r = []
            for n, t, _ in self.ast.fields(ty[1]):
                if t[0] == 'opaque' or (t[0] == 'cls' and t[1].startswith('EventGenerator')):
                    continue
                r += [((n,) + p, q) for p, q in self.leaves(t)]
            return r
        if k == 'opaque' or k == 'void':
            return []
        raise Unsupported('leaves of %r' % (ty,))

    def copy(self, st, dst, src, guard=TRUE):
        """dst := src for class / container values"""
        if src is None:
            raise Unsupported('copy from nothing')
        if not isinstance(src, Place):
            raise Unsupported('copy from %r' % (src,))
        if dst.same(src):
            return
        ty = dst.ty if dst.ty[0] != 'opaque' else src.ty
        self.curpc = st.pc
        nd, ns = len(dst.idx), len(src.idx)
        new = {}
        for p, t in self.leaves(ty):
            r = p.count('[]')
            dk, sk = (dst.root, dst.path + p), (src.root, src.path + p)
            if t[0] in ('ptr', 'sptr'):
                if nd + r == 0 and ns + r == 0:
                    new[dk] = self.read_ptr(st, Place(src.root, src.path + p, (), t)) if guard is TRUE else \
                        self.merge_val(guard, self.read_ptr(st, Place(src.root, src.path + p, (), t)),
                                       self.read_ptr(st, Place(dst.root, dst.path + p, (), t)))
                    continue
                for suf in ('#id', '#off'):
                    self._copy1(st, new, (dk[0], dk[1] + (suf,)), (sk[0], sk[1] + (suf,)), ('uint',), dst, src, r, guard,
                                (p, t, suf))
                continue
            self._copy1(st, new, dk, sk, t, dst, src, r, guard)
        st.fams.update(new)

    def _copy1(self, st, new, dk, sk, t, dst, src, r, guard, ptr=None):
        nd, ns = len(dst.idx), len(src.idx)
        if ptr and ns + r == 0:
            i, off = self.enc_ptr(self.read_ptr(st, Place(src.root, src.path + ptr[0], (), ptr[1])))
            v = i if ptr[2] == '#id' else off
        else:
            sf = self.fam(st, sk, t, ns + r)
            m = dict(zip(AT, src.idx))
            for j in range(r):
                m[AT[ns + j]] = AT[nd + j]
            v = subst(sf, m)
        if ptr and nd + r == 0:
            if ptr[2] == '#id':
                v2 = self.heap_ptr(ptr[1], v, ZERO)
                new[(dst.root, dst.path + ptr[0])] = v2
            return
        c = and_(guard, *[eq(a, i) for a, i in zip(AT, dst.idx)])
        if c is TRUE:
            new[dk] = v
        else:
            new[dk] = ite(c, v, self.fam(st, dk, t, nd + r))

    def new_root(self):
        return next(_ser)

    def local(self, ty):
        return Place(self.new_root(), (), (), ty)

    # default construction of elements in range [lo, hi) of the last index
    def fill_default(self, st, arr, lo, hi, ety):
        """arr: Place of the container; elements lo..hi set to default"""
        n = len(arr.idx)
        for p, t in self.leaves(ety):
            key = (arr.root, arr.path + ('[]',) + p)
            r = p.count('[]')
            if t[0] in ('ptr', 'sptr'):
                for suf in ('#id', '#off'):
                    self._fill1(st, (key[0], key[1] + (suf,)), ('uint',), arr, n, r, lo, hi, ZERO)
                continue
            self._fill1(st, key, t, arr, n, r, lo, hi, default(t))

    def _fill1(self, st, key, t, arr, n, r, lo, hi, v):
        old = self.fam(st, key, t, n + 1 + r)
        c = and_(*[eq(a, i) for a, i in zip(AT, arr.idx)])
        c = and_(c, le(lo, AT[n]) if lo is not ZERO else TRUE, lt(AT[n], hi) if hi is not None else TRUE)
        st.fams[key] = ite(c, v, old)

    # ---------------------------------------------------------- obligations
    def oname(self, name):
        return (self.callstack[-1] if self.callstack else self.topname) + ': ' + name

    topname = '?'

    def oblige(self, st, name, goal):
        if goal is TRUE or not self.obl_on:
            return
        name = self.oname(name)
        self.curpc = st.pc
        if self.o.decide(goal, st.pc) is True:
            self.obls.append((name, TRUE, ()))
            return
        self.obls.append((name, goal, tuple(st.pc)))

    # ------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.arr.root == b.arr.root and a.arr.path == b.arr.path and \
                (a.off is None) == (b.off is None):
            idx = tuple(ite(c, x, y) for x, y in zip(a.arr.idx, b.arr.idx))
            off = None if a.off is None else ite(c, a.off, b.off)
            return Ptr(Place(a.arr.root, a.arr.path, idx, a.arr.ty), off)
        if isinstance(a, (Ptr, Null, PIte)) and isinstance(b, (Ptr, Null, PIte)):
            # heap pointers: encode null as id 0
            try:
                ia, oa = self.enc_ptr(a)
                ib, ob = self.enc_ptr(b)
                t = a if isinstance(a, Ptr) else b
                if isinstance(t, Ptr):
                    return Ptr(Place(t.arr.root, t.arr.path, (ite(c, ia, ib),) + t.arr.idx[1:], t.arr.ty),
                               None if t.off is None else ite(c, oa, ob))
            except Unsupported:
                pass
            return PIte(c, a, b)
        if isinstance(a, MapIt) and isinstance(b, MapIt) and a.m.same(b.m):
            return MapIt(a.m, ite(c, a.pos, b.pos))
        if a is None or b is None:
            return a if b is None else b
        raise Unsupported('merge of %r and %r' % (a, b))

    def merge_fams(self, c, A, B):
        """c -> A else B"""
        if A is B:
            return A
        r = {}
        for k, a in A.items():
            b = B.get(k)
            if b is a:
                r[k] = a
            elif b is None:
                if isinstance(k[0], int):
                    r[k] = a        # local of a branch or still initial there
                    b = self.try_init(k, a)
                    if b is not None and b is not a:
                        r[k] = self.merge_val(c, a, b)
                else:
                    b = self.try_init(k, a)
                    r[k] = self.merge_val(c, a, b) if b is not None else a
            else:
                r[k] = self.merge_val(c, a, b)
        for k, b in B.items():
            if k not in A:
                a = self.try_init(k, b)
                r[k] = self.merge_val(c, a, b) if a is not None else b
        return r

    def try_init(self, k, other):
        if isinstance(other, T):
            n = k[1].count('[]')
            return app(self.famname(k), AT[:n], other.s)
        if isinstance(other, Ptr) and isinstance(other.arr.root, tuple) and other.arr.root[0] == 'H':
            nm = self.famname(k)
            if other.arr.idx and other.arr.idx[0] is app(nm + '#id', (), 'I') and \
                    (other.off is None or other.off is app(nm + '#off', (), 'I')):
                return other
        return None

    def merge_states(self, c, A, B):
        """A under c, B under not c; either may be None"""
        if A is None:
            return B
        if B is None:
            return A
        # pc: common prefix
        n = 0
        while n < len(A.pc) and n < len(B.pc) and A.pc[n] is B.pc[n]:
            n += 1
        ra, rb = A.pc[n:], B.pc[n:]
        pc = A.pc[:n]
        extra = []
        nc = not_(c)
        for x in ra:
            if x is not c:
                extra.append(implies(c, x))
        for x in rb:
            if x is not nc:
                extra.append(implies(nc, x))
        return St(self.merge_fams(c, A.fams, B.fams), pc + tuple(x for x in extra if x is not TRUE))

    # ---------------------------------------------------------- statements
    def run_body(self, fr, node, st):
        k = node['kind']
        if k == 'CXXTryStmt':
            return self.x_try(fr, node, st)
        return self.x(fr, node, st)

    def x(self, fr, n, st):
        if st is None:
            return None
        self.steps += 1
        k = n.get('kind')
        if k is None:
            return st
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(fr, n, st)
        # expression statement
        self.ev(fr, n, st)
        if fr.exits and fr.exits[-1].kind == 'dead':
            pass
        return None if self.is_dead(st) else st

    def is_dead(self, st):
        return FALSE in st.pc[-3:]

    def s_CompoundStmt(self, fr, n, st):
        for c in n.get('inner', []):
            st = self.x(fr, c, st)
            if st is None:
                return None
        return st

    def s_NullStmt(self, fr, n, st):
        return st

    def s_DeclStmt(self, fr, n, st):
        for d in n.get('inner', []):
            if d['kind'] == 'VarDecl':
                self.declare(fr, d, st)
        return None if self.is_dead(st) else st

    def declare(self, fr, d, st):
        q = d['type']['qualType']
        ty = self.ast.ty(d)
        init = [c for c in d.get('inner', []) if 'Comment' not in c.get('kind', '')]
        if q.endswith('&') or q.endswith('&&'):
            v = self.ev(fr, init[0], st)
            if isinstance(v, T) or isinstance(v, (Ptr, Null, PIte, MapIt)):
                p = self.local(ty)
                self.setlocal(st, p, v)
                fr.env[d['id']] = p
            else:
                fr.env[d['id']] = v
            return
        p = self.local(ty)
        fr.env[d['id']] = p
        if init:
            e = init[0]
            while e.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') or \
                    e.get('kind') == 'CXXConstructExpr' and e.get('elidable') and len(e.get('inner', [])) == 1:
                e = e['inner'][0]
            if e.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and ty[0] in ('cls',):
                # constructed in place (members may point into the object)
                self.construct(fr, st, p, e)
                return
            v = self.ev(fr, init[0], st)
            self.init_from(st, p, v)
        else:
            self.default_init(fr, st, p)

    def setlocal(self, st, p, v):
        if isinstance(v, T) and p.ty[0] in SCALAR:
            st.fams[p.key] = self.conv(v, p.ty)
        else:
            st.fams[p.key] = v

    def init_from(self, st, p, v):
        if isinstance(v, Place):
            if p.ty[0] in SCALAR:
                v = self.read(st, v)
                self.setlocal(st, p, v)
            else:
                if p.ty[0] == 'opaque':
                    p.ty = v.ty
                self.copy(st, p, v)
        elif v is None:
            pass
        else:
            self.setlocal(st, p, v)

    def default_init(self, fr, st, p):
        k = p.ty[0]
        if k in ('vec', 'map', 'set'):
            self.write(st, p.f('#size', ('uint',)), ZERO)

    def s_ReturnStmt(self, fr, n, st):
        inn = n.get('inner', [])
        v = None
        if inn:
            v = self.ev(fr, inn[0], st)
            if self.is_dead(st):
                return None
            if not fr.retref:
                v = self.rv(st, v)
                if isinstance(v, Place):
                    t = self.local(v.ty)
                    self.copy(st, t, v)
                    v = t
                elif isinstance(v, T):
                    v = self.conv(v, fr.retty)
        fr.exits.append(Exit('return', st.pc, st.fams, v))
        return None

    def s_IfStmt(self, fr, n, st):
        inn = n['inner']
        i = 0
        if n.get('hasInit'):
            st = self.x(fr, inn[0], st)
            i = 1
        if n.get('hasVar'):
            st = self.x(fr, inn[i], st)
            i += 1
        c = self.cond(fr, inn[i], st)
        if self.is_dead(st):
            return None
        th = inn[i + 1]
        el = inn[i + 2] if n.get('hasElse') else None
        d = self.known(st, c)
        if d is True:
            return self.x(fr, th, st)
        if d is False:
            return self.x(fr, el, st) if el else st
        a = St(dict(st.fams), st.pc + (c,))
        b = St(dict(st.fams), st.pc + (not_(c),))
        a = self.x(fr, th, a)
        if el:
            b = self.x(fr, el, b)
        return self.merge_states(c, a, b)

    def s_SwitchStmt(self, fr, n, st):
        v = self.rv(st, self.ev(fr, n['inner'][0], st))
        body = n['inner'][1]
        # flatten into (labels, stmts)
        groups = []

        def flat(x):
            k = x['kind']
            if k == 'CaseStmt':
                lab = [self.const_int(x['inner'][0])]
                s = x['inner'][-1]
                while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                    if s['kind'] == 'CaseStmt':
                        lab.append(self.const_int(s['inner'][0]))
                    else:
                        lab.append(None)
                    s = s['inner'][-1]
                groups.append((lab, [s]))
            elif k == 'DefaultStmt':
                s = x['inner'][-1]
                groups.append(([None], [s]))
            else:
                groups[-1][1].append(x)
        for c in body.get('inner', []):
            flat(c)
        allc = [l for g in groups for l in g[0] if l is not None]
        res = None
        fall = None
        m0 = len(fr.exits)
        for lab, stmts in groups:
            cs = [eq(v, I(l)) for l in lab if l is not None]
            if None in lab:
                cs.append(and_(*[ne(v, I(l)) for l in allc]))
            c = or_(*cs)
            d = self.known(st, c)
            ent = None
            if d is not False:
                ent = St(dict(st.fams), st.pc + ((c,) if d is None else ()))
            if fall is not None:
                ent = self.merge_states(c, ent, fall) if ent is not None else fall
            cur = ent
            for s in stmts:
                cur = self.x(fr, s, cur)
                if cur is None:
                    break
            fall = cur
        out = fall
        if not any(None in g[0] for g in groups):
            c = and_(*[ne(v, I(l)) for l in allc])
            if self.known(st, c) is not False:
                skip = St(dict(st.fams), st.pc + (c,))
                out = self.merge_states(c, skip, out) if out is not None else skip
        # breaks inside the switch
        brk = [e for e in fr.exits[m0:] if e.kind == 'break']
        fr.exits[m0:] = [e for e in fr.exits[m0:] if e.kind != 'break']
        n0 = len(st.pc)
        for e in brk:
            rel = and_(*e.pc[n0:])
            s = St(e.fams, e.pc)
            out = s if out is None else self.merge_states(rel, s, out)
        if out is not None and len(out.pc) > n0 and False:
            out.pc = st.pc
        return out

    def const_int(self, n):
        v = self.ev(None, n, None)
        return int(v.a[0])

    def s_BreakStmt(self, fr, n, st):
        fr.exits.append(Exit('break', st.pc, st.fams))
        return None

    def s_ContinueStmt(self, fr, n, st):
        fr.exits.append(Exit('continue', st.pc, st.fams))
        return None

    def s_CXXTryStmt(self, fr, n, st):
        return self.x_try(fr, n, st)

    def x_try(self, fr, n, st):
        inn = n['inner']
        m0 = len(fr.exits)
        n0 = len(st.pc)
        out = self.x(fr, inn[0], St(dict(st.fams), st.pc))
        throws = [e for e in fr.exits[m0:] if e.kind == 'throw']
        fr.exits[m0:] = [e for e in fr.exits[m0:] if e.kind != 'throw']
        if not throws:
            return out
        for e in throws:
            handled = False
            for h in inn[1:]:
                var_ = h['inner'][0] if h['inner'][0].get('kind') == 'VarDecl' else None
                if var_ is not None:
                    q = var_['type']['qualType']
                    if not self.exc_match(e.val, q):
                        continue
                    fr.env[var_['id']] = Place('exc', (), (), ('opaque', 'exc'))
                body = h['inner'][-1]
                rel = and_(*e.pc[n0:])
                s = St(dict(e.fams), e.pc)
                old, fr.curexc = fr.curexc, e.val
                s = self.x(fr, body, s)
                fr.curexc = old
                if s is not None:
                    out = s if out is None else self.merge_states(rel, s, out)
                handled = True
                break
            if not handled:
                fr.exits.append(e)
        return out

    HIER = {'std::domain_error': 'std::logic_error', 'std::invalid_argument': 'std::logic_error',
            'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error',
            'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'JsonException': 'std::exception'}

    def exc_match(self, cls, q):
        q = q.replace('const', '').replace('&', '').replace('xmm::', '').strip()
        if not q.startswith('std::') and 'std::' + q in self.HIER or q == 'exception':
            q = 'std::' + q
        c = cls
        while c:
            if c == q:
                return True
            c = self.HIER.get(c)
        return False

    def throw(self, fr, st, cls):
        fr.exits.append(Exit('throw', st.pc, dict(st.fams), cls))
        st.pc = st.pc + (FALSE,)

    def throw_if(self, fr, st, c, cls):
        d = self.known(st, c)
        if d is False:
            return
        if d is True:
            self.throw(fr, st, cls)
            return
        fr.exits.append(Exit('throw', st.pc + (c,), dict(st.fams), cls))
        st.pc = st.pc + (not_(c),)

    # ------------------------------------------------------------- loops
    def s_ForStmt(self, fr, n, st):
        init, _, cnd, inc, body = n['inner']
        st = self.x(fr, init, st) if init.get('kind') else st
        if st is None:
            return None
        return self.loop(fr, n, st, cnd if cnd.get('kind') else None, inc if inc.get('kind') else None, body)

    def s_WhileStmt(self, fr, n, st):
        inn = n['inner']
        return self.loop(fr, n, st, inn[-2], None, inn[-1])

    def s_DoStmt(self, fr, n, st):
        body, cnd = n['inner']
        m0 = len(fr.exits)
        n0 = len(st.pc)
        st = self.x(fr, body, st)
        st, brk = self.collect(fr, m0, st, n0)
        if brk:
            raise Unsupported('break in first iteration of do')
        if st is None:
            return None
        return self.loop(fr, n, st, cnd, None, body)

    def s_CXXForRangeStmt(self, fr, n, st):
        inn = n['inner']
        for i in range(1, 4):
            if inn[i].get('kind'):
                st = self.x(fr, inn[i], st)
        cnd, inc, lv, body = inn[4], inn[5], inn[6], inn[7]
        return self.loop(fr, n, st, cnd, inc, body, lv)

    def collect(self, fr, m0, st, n0):
        """merge continues into st; return (st, breaks)"""
        new = fr.exits[m0:]
        conts = [e for e in new if e.kind == 'continue']
        brks = [e for e in new if e.kind == 'break']
        fr.exits[m0:] = [e for e in new if e.kind not in ('continue', 'break')]
        for e in conts:
            s = St(e.fams, e.pc)
            rel = and_(*e.pc[n0:])
            st = s if st is None else self.merge_states(rel, s, st)
        return st, brks

    def one_iter(self, fr, st, inc, body, lv):
        """execute body (+inc) from st; (st', breaks); other exits go to fr"""
        m0 = len(fr.exits)
        n0 = len(st.pc)
        s = st
        if lv is not None:
            s = self.x(fr, lv, s)
        s = self.x(fr, body, s)
        s, brks = self.collect(fr, m0, s, n0)
        if s is not None and inc is not None:
            self.ev(fr, inc, s)
            if self.is_dead(s):
                s = None
        return s, brks

    def loop(self, fr, n, st, cnd, inc, body, lv=None):
        n0 = len(st.pc)
        outs = []       # (rel cond, state) of broken states, in order
        it = 0
        while True:
            base = len(st.pc)
            s1 = St(dict(st.fams), st.pc)
            m0 = len(fr.exits)
            c = self.cond(fr, cnd, s1) if cnd is not None else TRUE
            if self.is_dead(s1):
                del fr.exits[m0:]
                raise Unsupported('loop condition throws')
            d = self.known(s1, c) if not (c is TRUE or c is FALSE) else (c is TRUE)
            if it == 0 and d is not False and self.mode == 'A' and c is not TRUE:
                # summarise unless the loop is concretely bounded
                if not self.concrete_loop(fr, st, cnd, inc, body, lv):
                    del fr.exits[m0:]
                    return self.summarise(fr, n, st, cnd, inc, body, lv)
            if d is False:
                fin = s1
                break
            if d is None:
                if self.mode == 'A' and it == 0:
                    del fr.exits[m0:]
                    return self.summarise(fr, n, st, cnd, inc, body, lv)
                # fork: leave now under not c
                outs.append((not_(c), St(dict(s1.fams), s1.pc + (not_(c),))))
                s1.pc = s1.pc + (c,)
            it += 1
            if it > self.unroll_limit:
                raise Unsupported('unroll limit')
            nb = len(s1.pc)
            s2, brks = self.one_iter(fr, s1, inc, body, lv)
            for e in brks:
                outs.append((and_(*e.pc[n0:]), St(e.fams, e.pc)))
            if s2 is None:
                fin = None
                break
            st = s2
        for rel, s in reversed(outs):
            rel = and_(*s.pc[n0:])
            fin = s if fin is None else self.merge_states(rel, s, fin)
        return fin

    def concrete_loop(self, fr, st, cnd, inc, body, lv):
        """try to see whether the loop runs a small concrete number of times"""
        s = St(dict(st.fams), st.pc)
        m0 = len(fr.exits)
        env = dict(fr.env)
        save, self.obl_on = self.obl_on, False
        try:
            c = self.cond(fr, cnd, s)
            # only if the condition folds without the oracle
            if c is not TRUE:
                return False
            # peek: advance only the counter
            for i in range(self.unroll_limit + 1):
                if inc is None:
                    return True
                self.ev(fr, inc, s)
                c = self.cond(fr, cnd, s)
                if c is FALSE:
                    return True
                if c is not TRUE:
                    return False
            return False
        except Unsupported:
            return False
        finally:
            self.obl_on = save
            del fr.exits[m0:]
            fr.env = env

    # ---- summarisation
    def summarise(self, fr, node, st0, cnd, inc, body, lv):
        from .loops import summarise
        return summarise(self, fr, node, st0, cnd, inc, body, lv)

    # ---------------------------------------------------------- conditions
    def cond(self, fr, n, st):
        v = self.rv(st, self.ev(fr, n, st))
        return self.truth(v)

    def truth(self, v):
        if isinstance(v, T):
            return v if v.s == 'B' else ne(v, num(0, v.s))
        if v is NULL:
            return FALSE
        if isinstance(v, Ptr):
            a = v.arr
            if isinstance(a.root, tuple) and a.root[0] == 'H':
                return ne(a.idx[0], ZERO)
            return TRUE
        if isinstance(v, PIte):
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, FnVal):
            return TRUE
        raise Unsupported('truth of %r' % (v,))

    # ---------------------------------------------------------- expressions
    def rv(self, st, v):
        """lvalue to rvalue"""
        if isinstance(v, Place) and v.ty[0] in SCALAR:
            return self.read(st, v)
        if isinstance(v, Place) and v.ty[0] == 'opaque' and v.key in st.fams and not v.idx:
            return st.fams[v.key]
        if isinstance(v, Place) and v.ty[0] in ('mapit', 'setit') and v.key in st.fams:
            return st.fams[v.key]
        return v

    def ev(self, fr, n, st):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(fr, n, st)

    def _sub(self, fr, n, st):
        return self.ev(fr, n['inner'][0], st)

    e_ParenExpr = _sub
    e_ExprWithCleanups = _sub
    e_MaterializeTemporaryExpr = _sub
    e_CXXBindTemporaryExpr = _sub

    def e_SubstNonTypeTemplateParmExpr(self, fr, n, st):
        return self.ev(fr, n['inner'][-1], st)

    e_CXXStdInitializerListExpr = _sub

    def e_ConstantExpr(self, fr, n, st):
        if 'value' in n and n['value'].lstrip('-').isdigit():
            return I(int(n['value']))
        return self._sub(fr, n, st)

    def e_IntegerLiteral(self, fr, n, st):
        return I(int(n['value']))

    def e_FloatingLiteral(self, fr, n, st):
        # the shortest decimal that denotes the same double: the constant as written
        x = float(n['value'])
        return R(Fraction(repr(x)) if abs(x) < 1e15 else Fraction(n['value']))

    def e_CXXBoolLiteralExpr(self, fr, n, st):
        return B(n['value'])

    def e_CharacterLiteral(self, fr, n, st):
        return I(int(n['value']))

    def e_StringLiteral(self, fr, n, st):
        import json
        try:
            return strid(json.loads(n['value']))
        except Exception:
            return strid(n['value'])

    def e_CXXNullPtrLiteralExpr(self, fr, n, st):
        return NULL

    def e_GNUNullExpr(self, fr, n, st):
        return NULL

    def e_CXXThisExpr(self, fr, n, st):
        return Ptr(fr.this)

    def e_ImplicitValueInitExpr(self, fr, n, st):
        return default(self.ast.ty(n))

    def e_CXXScalarValueInitExpr(self, fr, n, st):
        return default(self.ast.ty(n))

    def e_UnaryExprOrTypeTraitExpr(self, fr, n, st):
        raise Unsupported('sizeof')

    def e_CXXDefaultArgExpr(self, fr, n, st):
        raise Unsupported('default arg without context')

    def e_CXXDefaultInitExpr(self, fr, n, st):
        raise Unsupported('default init')

    def e_LambdaExpr(self, fr, n, st):
        return Place('lambda', (), (), ('opaque', 'lambda'))

    def e_DeclRefExpr(self, fr, n, st):
        d = n['referencedDecl']
        i = d['id']
        if d['kind'] == 'EnumConstantDecl':
            v = self.ast.enumval.get(i)
            if v is None:
                q = n['type']['qualType'].replace('xmm::', '')
                v = self.ast.enumval.get(q + '::' + d['name'])
            if v is None:
                raise Unsupported('enum constant ' + d['name'])
            return I(v)
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return FnVal(d)
        if fr is not None and i in fr.env:
            return fr.env[i]
        nm = d.get('name')
        dn = self.ast.byid.get(i)
        if dn is not None and dn.get('inner'):
            # constant with initialiser
            ini = [c for c in dn['inner'] if 'Comment' not in c.get('kind', '')]
            if ini and dn.get('kind') == 'VarDecl':
                return self.ev(fr, ini[-1], st)
        raise Unsupported('reference to ' + str(nm))

    def e_MemberExpr(self, fr, n, st):
        base = self.ev(fr, n['inner'][0], st)
        name = n['name']
        if n.get('isArrow'):
            base = self.rv(st, base)
            base = self.deref(st, base)
        if isinstance(base, MapIt):
            raise Unsupported('member of iterator')
        ty = self.ast.ty(n)
        mid = n.get('referencedMemberDecl')
        dn = self.ast.byid.get(mid) if mid else None
        if dn is not None and dn.get('kind') in ('CXXMethodDecl', 'CXXConversionDecl', 'CXXDestructorDecl'):
            return FnVal(dn, base)
        if dn is not None and dn.get('kind') == 'VarDecl':
            ini = [c for c in dn.get('inner', []) if 'Comment' not in c.get('kind', '')]
            return self.ev(fr, ini[-1], st)
        if ty[0] == 'opaque' and 'bound member' in ty[1]:
            return FnVal({'name': name, 'id': mid, 'kind': 'ext'}, base)
        if isinstance(base, PlaceIte):
            return PlaceIte(base.c, base.a.f(name, ty), base.b.f(name, ty))
        if not isinstance(base, Place):
            raise Unsupported('member %s of %r' % (name, base))
        return base.f(name, ty)

    def deref(self, st, v):
        if isinstance(v, Ptr):
            if isinstance(v.arr.root, tuple) and v.arr.root[0] == 'H' and st is not None:
                self.oblige(st, 'non-null pointer', ne(v.arr.idx[0], ZERO))
            return v.deref()
        if isinstance(v, PIte):
            d = self.known(st, v.c)
            if d is True:
                return self.deref(st, v.a)
            if d is False:
                return self.deref(st, v.b)
            if v.a is NULL:
                self.oblige(st, 'non-null pointer', not_(v.c))
                return self.deref(st, v.b)
            if v.b is NULL:
                self.oblige(st, 'non-null pointer', v.c)
                return self.deref(st, v.a)
            return PlaceIte(v.c, self.deref(st, v.a), self.deref(st, v.b))
        if isinstance(v, MapIt):
            m = v.m
            self.oblige(st, 'iterator in range', and_(le(ZERO, v.pos), lt(v.pos, self.read(st, m.f('#size', ('uint',))))))
            if m.ty[0] == 'map':
                return m.el(v.pos, ('pair', m.ty[1], m.ty[2]))
            return m.el(v.pos, m.ty[1])
        if isinstance(v, Place) and v.ty[0] in ('sptr', 'ptr'):
            return self.deref(st, self.read(st, v))
        raise Unsupported('dereference of %r' % (v,))

    def e_ImplicitCastExpr(self, fr, n, st):
        ck = n['castKind']
        v = self.ev(fr, n['inner'][0], st)
        return self.cast(fr, n, st, ck, v)

    def cast(self, fr, n, st, ck, v):
        if ck == 'LValueToRValue':
            if isinstance(v, PlaceIte):
                return self.rv_ite(st, v)
            return self.rv(st, v)
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'BuiltinFnToFnPtr'):
            return v
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'BitCast', 'Dynamic'):
            return v
        if ck == 'ArrayToPointerDecay':
            if isinstance(v, T):
                return v
            return Ptr(Place(v.root, v.path + ('[]',), v.idx, v.ty[1]), ZERO)
        if ck in ('IntegralToFloating', 'FloatingCast', 'IntegralCast', 'FloatingToIntegral', 'IntegralToBoolean',
                  'FloatingToBoolean', 'BooleanToSignedIntegral'):
            v = self.rv(st, v)
            ty = self.ast.ty(n)
            if ck == 'IntegralCast' and ty[0] == 'uint' and v.s == 'I' and v.op != 'num':
                src = self.ast.ty(n['inner'][0])
                if src[0] == 'int':
                    self.wrapchk(st, n, v)
            if ck == 'IntegralCast' and ty[0] == 'uint' and v.op == 'num' and v.a[0] < 0:
                return I(v.a[0] + 2 ** 32)
            return self.conv(v, ty)
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return self.truth(self.rv(st, v))
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULL
        if ck == 'ToVoid':
            return v
        raise Unsupported('cast ' + ck)

    def wrapchk(self, st, n, v):
        """signed value converted to unsigned: value must be >= 0 for the
        mathematical reading; comparisons and subtractions rely on it"""
        if st is not None:
            self.oblige(st, 'no wrap-around', le(ZERO, v))

    def _ccast(self, fr, n, st):
        ck = n.get('castKind')
        v = self.ev(fr, n['inner'][0], st)
        return self.cast(fr, n, st, ck, v)

    e_CXXStaticCastExpr = _ccast
    e_CStyleCastExpr = _ccast
    e_CXXFunctionalCastExpr = _ccast
    e_CXXConstCastExpr = _ccast
    e_CXXDynamicCastExpr = _ccast

    def rv_ite(self, st, p):
        if isinstance(p, PlaceIte):
            return self.merge_val(p.c, self.rv_ite(st, p.a), self.rv_ite(st, p.b))
        return self.rv(st, p)

    def e_UnaryOperator(self, fr, n, st):
        op = n['opcode']
        if op == '&':
            sub_ = n['inner'][0]
            while sub_['kind'] in ('ParenExpr', 'ImplicitCastExpr') and sub_['kind'] == 'ParenExpr':
                sub_ = sub_['inner'][0]
            v = self.ev(fr, n['inner'][0], st)
            return self.addr(v)
        v = self.ev(fr, n['inner'][0], st)
        if op == '*':
            return self.deref(st, self.rv(st, v))
        if op in ('++', '--'):
            old = self.rv(st, v)
            d = 1 if op == '++' else -1
            new = self.padd(old, I(d)) if not isinstance(old, T) else add(old, num(d, old.s))
            self.assign(fr, st, v, new)
            return old if n.get('isPostfix') else v
        v = self.rv(st, v)
        if op == '!':
            return not_(self.truth(v))
        if op == '-':
            return neg(v)
        if op == '+':
            return v
        raise Unsupported('unary ' + op)

    def addr(self, v):
        if isinstance(v, Place):
            if v.path and v.path[-1] == '[]' and v.idx:
                return Ptr(Place(v.root, v.path, v.idx[:-1], v.ty), v.idx[-1])
            return Ptr(v)
        if isinstance(v, FnVal):
            return v
        if isinstance(v, PlaceIte):
            return PIte(v.c, self.addr(v.a), self.addr(v.b))
        raise Unsupported('address of %r' % (v,))

    def padd(self, p, d):
        if isinstance(p, Ptr):
            if p.off is None:
                raise Unsupported('pointer arithmetic on object')
            return Ptr(p.arr, add(p.off, d))
        if isinstance(p, MapIt):
            return MapIt(p.m, add(p.pos, d))
        if isinstance(p, PIte):
            return PIte(p.c, self.padd(p.a, d), self.padd(p.b, d))
        if p is NULL and isnum(d, 0):
            return p
        raise Unsupported('pointer arithmetic on %r' % (p,))

    def assign(self, fr, st, lv, v):
        if isinstance(lv, PlaceIte):
            a, b = lv.a, lv.b
            self.write(st, a, v, lv.c)
            self.write(st, b, v, not_(lv.c))
            return
        if not isinstance(lv, Place):
            raise Unsupported('assignment to %r' % (lv,))
        if lv.ty[0] in SCALAR or isinstance(v, Place):
            if lv.ty[0] in SCALAR:
                v = self.rv(st, v)
            self.write(st, lv, v)
        else:
            st.fams[lv.key] = v

    def e_BinaryOperator(self, fr, n, st):
        op = n['opcode']
        l, r = n['inner']
        if op in ('&&', '||'):
            a = self.cond(fr, l, st)
            d = self.known(st, a)
            if op == '&&':
                if d is False:
                    return FALSE
                s2 = St(dict(st.fams), st.pc + ((a,) if d is None else ()))
                b = self.cond(fr, r, s2)
                self._sideeffects(st, s2, a)
                return and_(a, b) if d is None else b
            if d is True:
                return TRUE
            s2 = St(dict(st.fams), st.pc + ((not_(a),) if d is None else ()))
            b = self.cond(fr, r, s2)
            self._sideeffects(st, s2, not_(a))
            return or_(a, b) if d is None else b
        if op == ',':
            self.ev(fr, l, st)
            return self.ev(fr, r, st)
        if op == '=':
            lv = self.ev(fr, l, st)
            v = self.ev(fr, r, st)
            v = self.rv(st, v) if not isinstance(v, PlaceIte) else self.rv_ite(st, v)
            self.assign(fr, st, lv, v)
            return lv
        a = self.rv_ite(st, self.ev(fr, l, st))
        b = self.rv_ite(st, self.ev(fr, r, st))
        return self.binop(fr, st, n, op, a, b)

    def _sideeffects(self, st, s2, c):
        for k, v in s2.fams.items():
            o = st.fams.get(k)
            if o is None:
                st.fams[k] = v
            elif o is not v:
                st.fams[k] = self.merge_val(c, v, o)

    def binop(self, fr, st, n, op, a, b):
        ty = self.ast.ty(n) if n is not None else None
        if not isinstance(a, T) or not isinstance(b, T):
            return self.ptrop(fr, st, op, a, b)
        if op == '+':
            return add(a, b)
        if op == '-':
            r = sub(a, b)
            if ty and ty[0] == 'uint' and st is not None:
                if r.op == 'num':
                    if r.a[0] < 0:
                        return I(r.a[0] + 2 ** 32)
                else:
                    self.oblige(st, 'no unsigned wrap-around', le(b, a))
            return r
        if op == '*':
            return mul(a, b)
        if op == '/':
            if a.s == 'R' or b.s == 'R':
                return div(a, b)
            self.oblige(st, 'division by zero', ne(b, ZERO))
            if ty and ty[0] == 'uint' or self.known(st, and_(le(ZERO, a), lt(ZERO, b))) is True:
                self.curpc = st.pc
                return fdiv(a, b)
            return idiv(a, b)
        if op == '%':
            self.oblige(st, 'division by zero', ne(b, ZERO))
            if ty and ty[0] == 'uint' or self.known(st, and_(le(ZERO, a), lt(ZERO, b))) is True:
                self.curpc = st.pc
                return sub(a, mul(b, fdiv(a, b)))
            return imod(a, b)
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return le(a, b)
        if op == '>=':
            return le(b, a)
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return ne(a, b)
        raise Unsupported('operator ' + op)

    def ptrop(self, fr, st, op, a, b):
        if op in ('+', '-') and isinstance(b, T):
            return self.padd(a, b if op == '+' else neg(b))
        if op == '+' and isinstance(a, T):
            return self.padd(b, a)
        if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr):
            return sub(a.off, b.off)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if op in ('==', '!='):
                r = self.ptreq(a, b)
                return r if op == '==' else not_(r)
            x, y = (a.off, b.off) if isinstance(a, Ptr) else (a.pos, b.pos)
            return {'<': lt, '>': gt, '<=': le, '>=': ge}[op](x, y)
        raise Unsupported('pointer operator ' + op)

    def ptreq(self, a, b):
        if isinstance(a, MapIt) and isinstance(b, MapIt):
            return eq(a.pos, b.pos)
        if isinstance(a, PIte):
            return ite(a.c, self.ptreq(a.a, b), self.ptreq(a.b, b))
        if isinstance(b, PIte):
            return self.ptreq(b, a)
        if a is NULL and b is NULL:
            return TRUE
        if a is NULL:
            return not_(self.truth(b))
        if b is NULL:
            return not_(self.truth(a))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.arr.root != b.arr.root or a.arr.path != b.arr.path:
                return FALSE
            c = [eq(x, y) for x, y in zip(a.arr.idx, b.arr.idx)]
            if a.off is not None:
                c.append(eq(a.off, b.off))
            return and_(*c)
        if isinstance(a, T) and isinstance(b, T):
            return eq(a, b)
        raise Unsupported('pointer comparison %r %r' % (a, b))

    def e_CompoundAssignOperator(self, fr, n, st):
        op = n['opcode'][:-1]
        l, r = n['inner']
        lv = self.ev(fr, l, st)
        b = self.rv(st, self.ev(fr, r, st))
        a = self.rv_ite(st, lv)
        if isinstance(a, T) and isinstance(b, T):
            ct = n.get('computeLHSType', {}).get('qualType', '')
            if ct in ('float', 'double'):
                a, b = toreal(a), toreal(b)
        v = self.binop(fr, st, n, op, a, b)
        self.assign(fr, st, lv, v)
        return lv

    def e_ConditionalOperator(self, fr, n, st):
        c, a, b = n['inner']
        cc = self.cond(fr, c, st)
        d = self.known(st, cc)
        if d is True:
            return self.ev(fr, a, st)
        if d is False:
            return self.ev(fr, b, st)
        s1 = St(dict(st.fams), st.pc + (cc,))
        s2 = St(dict(st.fams), st.pc + (not_(cc),))
        x, y = self.ev(fr, a, s1), self.ev(fr, b, s2)
        m = self.merge_states(cc, None if self.is_dead(s1) else s1, None if self.is_dead(s2) else s2)
        st.fams, st.pc = m.fams, m.pc
        if self.is_dead(s1):
            return y
        if self.is_dead(s2):
            return x
        if isinstance(x, Place) and isinstance(y, Place):
            if x.ty[0] in SCALAR:
                # lvalue conditional used as rvalue
                return self.merge_val(cc, self.rv(st, x), self.rv(st, y))
            t = self.local(x.ty)
            self.copy(st, t, y)
            self.copy(st, t, x, cc)
            return t
        return self.merge_val(cc, self.rv(st, x), self.rv(st, y))

    def e_ArraySubscriptExpr(self, fr, n, st):
        b = self.rv(st, self.ev(fr, n['inner'][0], st))
        i = self.rv(st, self.ev(fr, n['inner'][1], st))
        if isinstance(b, T):
            b, i = i, b
        return self.index_ptr(st, b, i)

    def index_ptr(self, st, b, i):
        if isinstance(b, PIte):
            d = self.known(st, b.c)
            if d is True:
                return self.index_ptr(st, b.a, i)
            if d is False:
                return self.index_ptr(st, b.b, i)
            if b.a is NULL or b.b is NULL:
                return self.deref(st, self.padd(b.a if b.b is NULL else b.b, i))
        p = self.padd(b, i)
        pl = self.deref(st, p)
        if isinstance(p, Ptr):
            self.chk_ptr(st, p)
        return pl

    def chk_ptr(self, st, p):
        """bounds of an element access through a pointer"""
        a = p.arr
        key = (a.root, a.path[:-1] + ('#size',))
        if key in st.fams or key in self.sized:
            s = self.read(st, Place(a.root, a.path[:-1] + ('#size',), a.idx, ('uint',)))
            self.oblige(st, 'index in bounds', and_(le(ZERO, p.off), lt(p.off, s)))
        if (('H', 'live'), ('[]',)) in st.fams and isinstance(a.root, tuple) and a.root[0] == 'H' and a.path == ('[]', '[]'):
            self.oblige(st, 'access to live memory', self.read(st, Place(('H', 'live'), ('[]',), (a.idx[0],), ('bool',))))

    sized = set()

    def e_InitListExpr(self, fr, n, st):
        ty = self.ast.ty(n)
        inn = n.get('inner', [])
        if ty[0] in SCALAR:
            return self.ev(fr, inn[0], st) if inn else default(ty)
        t = self.local(ty)
        vals = [self.ev(fr, c, st) for c in inn]
        self.initlist(st, t, vals)
        return t

    def initlist(self, st, t, vals):
        ty = t.ty
        if ty[0] in ('vec', 'arr', 'opaque') or ty[0] == 'set':
            if ty[0] != 'arr':
                self.write(st, t.f('#size', ('uint',)), I(len(vals)))
            e = ty[1] if ty[0] != 'opaque' else None
            for i, v in enumerate(vals):
                self.init_at(st, t.el(I(i), e), v)
        elif ty[0] == 'pair':
            self.init_at(st, t.f('first', ty[1]), vals[0])
            self.init_at(st, t.f('second', ty[2]), vals[1])
        elif ty[0] == 'cls':
            fs = self.ast.fields(ty[1])
            for (nm, fty, _), v in zip(fs, vals):
                self.init_at(st, t.f(nm, fty), v)
        else:
            raise Unsupported('init list of %r' % (ty,))

    def init_at(self, st, p, v):
        v = self.rv(st, v)
        if isinstance(v, Place):
            self.copy(st, p, v)
        else:
            self.write(st, p, v)

    # ------------------------------------------------------------ new/delete
    def new_heap_id(self):
        return I(1000000 + next(self.heapn))

    def e_CXXNewExpr(self, fr, n, st):
        ty = self.ast.ty(n)          # pointer type
        e = ty[1]
        if n.get('isArray'):
            cnt = None
            for c in n.get('inner', []):
                if c['kind'] not in ('CXXConstructExpr', 'InitListExpr'):
                    cnt = self.rv(st, self.ev(fr, c, st))
                    break
            if e[0] in ('real', 'int', 'uint', 'bool', 'ptr'):
                hid = self.new_heap_id()
                p = Ptr(Place(('H', repr(e)), ('[]', '[]'), (hid,), e), ZERO)
                self.write(st, Place(('H', repr(e)), ('[]', '#size'), (hid,), ('uint',)), cnt)
                self.on_alloc(st, hid, cnt)
                return p
            r = ('new', next(self.heapn))
            st.fams[(r, ('#size',))] = cnt
            return Ptr(Place(r, ('[]',), (), e), ZERO)
        if e[0] == 'cls':
            obj = Place(('new', next(self.heapn)), (), (), e)
            for c in n.get('inner', []):
                if c['kind'] == 'CXXConstructExpr':
                    self.construct(fr, st, obj, c)
            return Ptr(obj)
        raise Unsupported('new of %r' % (e,))

    def on_alloc(self, st, hid, cnt):
        self.write(st, Place(('H', 'live'), ('[]',), (hid,), ('bool',)), TRUE)

    def e_CXXDeleteExpr(self, fr, n, st):
        v = self.rv(st, self.ev(fr, n['inner'][0], st))
        self.on_delete(st, v)
        return None

    def on_delete(self, st, v):
        if v is NULL:
            return
        if isinstance(v, PIte):
            return
        if isinstance(v, Ptr) and isinstance(v.arr.root, tuple) and v.arr.root[0] == 'H' and v.off is not None:
            i = v.arr.idx[0]
            lv = Place(('H', 'live'), ('[]',), (i,), ('bool',))
            cur = self.read(st, lv)
            nn = ne(i, ZERO)
            self.oblige(st, 'delete of live memory', implies(nn, cur))
            self.write(st, lv, FALSE, nn)

    # ------------------------------------------------------------ throw
    def e_CXXThrowExpr(self, fr, n, st):
        inn = n.get('inner', [])
        if not inn:
            cls = fr.curexc or 'std::exception'
        else:
            q = inn[0]
            while q['kind'] in ('ExprWithCleanups', 'CXXFunctionalCastExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ImplicitCastExpr') or \
                    (q['kind'] == 'CXXConstructExpr' and len(q.get('inner', [])) == 1 and q['inner'][0]['kind'] in
                     ('MaterializeTemporaryExpr', 'CXXFunctionalCastExpr', 'ImplicitCastExpr') and False):
                q = q['inner'][0]
            cls = q['type']['qualType'].replace('xmm::', '').replace('const', '').strip()
            if cls.startswith('std::') is False and 'std::' + cls in self.HIER:
                cls = 'std::' + cls
            if fr.curexc and q['kind'] == 'DeclRefExpr':
                cls = fr.curexc
        self.throw(fr, st, cls)
        return None

    def s_CXXThrowExpr(self, fr, n, st):
        self.e_CXXThrowExpr(fr, n, st)
        return None

    # ------------------------------------------------------------ construct
    def e_CXXConstructExpr(self, fr, n, st):
        ty = self.ast.ty(n)
        if ty[0] in SCALAR:
            inn = [c for c in n.get('inner', [])]
            args = [c for c in inn if c['kind'] != 'CXXDefaultArgExpr']
            if not args:
                return default(ty)
            v = self.ev(fr, args[0], st)
            v = self.rv(st, v)
            if isinstance(v, (T, Ptr, Null, PIte)):
                return v
            if ty[0] in ('str', 'sptr', 'ptr'):
                return v
            raise Unsupported('construct scalar')
        if ty[0] in ('mapit', 'setit'):
            inn = n.get('inner', [])
            return self.rv(st, self.ev(fr, inn[0], st)) if inn else None
        if n.get('elidable') and len(n.get('inner', [])) == 1:
            return self.ev(fr, n['inner'][0], st)
        t = self.local(ty)
        self.construct(fr, st, t, n)
        return t

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, fr, st, obj, n):
        ty = obj.ty
        if ty[0] == 'opaque':
            ty = self.ast.ty(n)
        args = n.get('inner', [])
        k = ty[0]
        if k == 'arr':
            # array member default-constructed element-wise
            for i in range(ty[2]):
                self.construct_default(fr, st, obj.el(I(i), ty[1]))
            return
        if k in ('vec', 'map', 'set', 'pair'):
            return self.lib_construct(fr, st, obj, ty, args, n)
        if k == 'cls':
            ct = n['type']['qualType']
            fn = self.find_ctor(ty[1], n)
            if fn is None:
                vals = [self.rv(st, self.ev(fr, a, st)) for a in args if a['kind'] != 'CXXDefaultArgExpr']
                if len(vals) == 1 and isinstance(vals[0], Place):
                    self.copy(st, obj, vals[0])
                    return
                if not vals:
                    return
                raise Unsupported('constructor of ' + ty[1])
            self.call_ctor(fr, st, obj, fn, args)
            return
        if k == 'opaque':
            return
        raise Unsupported('construct %r' % (ty,))

    def construct_default(self, fr, st, p):
        k = p.ty[0]
        if k in ('vec', 'map', 'set'):
            self.write(st, p.f('#size', ('uint',)), ZERO)
        elif k == 'cls':
            fn = self.default_ctor(p.ty[1])
            if fn is not None:
                self.call_ctor(fr, st, p, fn, [])
        elif k == 'str':
            self.write(st, p, I(0))

    def default_ctor(self, cls):
        for f in self.ctors(cls):
            ps = self.ast.params(f)
            if all(c.get('init') or any('Comment' not in z.get('kind', '') for z in c.get('inner', [])) for c in ps):
                return self.ast.definition(f['id'])
        return None

    def ctors(self, cls):
        n = self.ast.classes[cls]
        r = []
        for c in n.get('inner', []):
            if c.get('kind') == 'CXXConstructorDecl':
                r.append(c)
        return r

    def find_ctor(self, cls, n):
        want = n.get('ctorType', {}).get('qualType')
        for c in self.ctors(cls):
            if c['type']['qualType'] == want:
                d = self.ast.definition(c['id'])
                return d or None
        return None

    def call_ctor(self, fr, st, obj, fn, args):
        vals = self.eval_args(fr, st, fn, args)
        if self.is_dead(st):
            return
        self.run_ctor(fr, st, obj, fn, vals)

    def run_ctor(self, fr, st, obj, fn, vals):
        cls = self.ast.owner.get(fn['id'], '?')
        qn = cls + '::' + fn['name']
        h = self.contracts.get(qn)
        if h:
            self.curfn = fn
            r = h(self, st, obj, vals, fr)
            if r is not NotImplemented:
                self.used_contracts.add(qn)
                return
        body = self.ast.body(fn)
        if body is None and (fn.get('explicitlyDefaulted') or fn.get('isImplicit')):
            if len(vals) == 1 and isinstance(vals[0], Place):
                self.copy(st, obj, vals[0])
                return
        self.inlined.add(qn)
        f2 = self.newframe(fn, obj)
        self.bind_params(f2, st, fn, vals)
        n0 = len(st.pc)
        for c in fn.get('inner', []):
            if c.get('kind') == 'CXXCtorInitializer':
                if 'anyInit' in c:
                    fld = c['anyInit']
                    name = fld.get('name')
                    fty = self.ast.ty(fld)
                    p = obj.f(name, fty)
                else:
                    p = obj
                    bt = self.ast.T.parse(c['baseInit'].get('desugaredQualType') or c['baseInit']['qualType']) if 'baseInit' in c else obj.ty
                    if bt[0] == 'opaque':
                        continue
                ini = c['inner'][0]
                self.ctor_init(f2, st, p, ini, base='baseInit' in c)
                if self.is_dead(st):
                    break
        if not self.is_dead(st) and body is not None:
            s = self.run_body(f2, body, St(st.fams, st.pc))
            if s is not None:
                f2.exits.append(Exit('return', s.pc, s.fams, None))
        elif not self.is_dead(st):
            f2.exits.append(Exit('return', st.pc, st.fams, None))
        self.finish_call(fr, st, f2, n0)

    def ctor_init(self, f2, st, p, ini, base=False):
        q = ini
        while q['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') and q.get('inner'):
            q = q['inner'][0]
        if q['kind'] in ('CXXConstructExpr', 'CXXInheritedCtorInitExpr'):
            ty = self.ast.ty(q)
            if base and ty[0] == 'cls':
                dyn = p.ty
                self.construct(f2, st, p.cast(ty), q)
                return
            if ty[0] in SCALAR:
                self.write(st, p, self.rv(st, self.ev(f2, q, st)))
                return
            self.construct(f2, st, p, q)
            return
        if p.ty[0] == 'arr' and q['kind'] == 'ArrayInitLoopExpr':
            # copy of an array member: find the source object: src.<field>
            src = self.arrayloop_src(f2, st, q)
            self.copy(st, p, src)
            return
        v = self.rv(st, self.ev(f2, q, st))
        if v is None:
            return
        if isinstance(v, Place) and p.ty[0] not in SCALAR:
            self.copy(st, p, v)
        elif p.ty[0] in SCALAR:
            self.write(st, p, v)

    def arrayloop_src(self, fr, st, q):
        # inner[0]: OpaqueValueExpr with the source array
        def find(n):
            if n.get('kind') == 'OpaqueValueExpr' and n.get('inner'):
                return n['inner'][0]
            for c in n.get('inner', []):
                r = find(c)
                if r:
                    return r
        s = find(q)
        if s is None:
            raise Unsupported('array init loop')
        return self.ev(fr, s, st)

    # ------------------------------------------------------------ calls
    def newframe(self, fn, this):
        f = Frame(fn, this, self)
        f.curexc = None
        q = fn['type']['qualType']
        rt = q[:q.index('(')].strip() if '(' in q else 'void'
        f.retref = rt.endswith('&')
        if fn['kind'] in ('CXXConstructorDecl', 'CXXDestructorDecl'):
            f.retty = ('void',)
        else:
            f.retty = self.ast.T.parse(rt)
        return f

    def eval_args(self, fr, st, fn, args):
        ps = self.ast.params(fn)
        vals = []
        for i, a in enumerate(args):
            if a['kind'] == 'CXXDefaultArgExpr':
                vals.append(self.default_arg(fr, st, fn, i))
            else:
                vals.append(self.ev(fr, a, st))
        for i in range(len(args), len(ps)):
            vals.append(self.default_arg(fr, st, fn, i))
        return vals

    def default_arg(self, fr, st, fn, i):
        # default lives on some redeclaration
        cands = [fn]
        r = self.ast.root(fn['id'])
        if r in self.ast.byid:
            cands.append(self.ast.byid[r])
        for c in cands:
            ps = self.ast.params(c)
            if i < len(ps):
                ini = [z for z in ps[i].get('inner', []) if 'Comment' not in z.get('kind', '')]
                if ini:
                    f2 = self.newframe(c, None)
                    v = self.ev(f2, ini[0], st)
                    return v
        raise Unsupported('default argument %d of %s' % (i, fn.get('name')))

    def bind_params(self, f2, st, fn, vals):
        for p, v in zip(self.ast.params(fn), vals):
            q = p['type'].get('desugaredQualType') or p['type']['qualType']
            ty = self.ast.ty(p)
            if p['type']['qualType'].rstrip().endswith('&') or q.rstrip().endswith('&'):
                if isinstance(v, (Place, PlaceIte)):
                    f2.env[p['id']] = v
                else:
                    t = self.local(ty)
                    self.setlocal(st, t, v)
                    f2.env[p['id']] = t
            else:
                v = self.rv(st, v) if not isinstance(v, PlaceIte) else self.rv_ite(st, v)
                t = self.local(ty)
                if isinstance(v, Place):
                    if ty[0] == 'opaque':
                        t = v
                    else:
                        self.copy(st, t, v)
                else:
                    self.setlocal(st, t, v)
                f2.env[p['id']] = t

    def call(self, fr, st, fn, this, vals):
        """call a function of the repository"""
        own = self.ast.owner.get(fn['id'])
        qn = (own + '::' if own else '') + fn['name']
        h = self.contracts.get(qn + '/%d' % len(vals)) or self.contracts.get(qn)
        if h:
            self.curfn = fn
            r = h(self, st, this, vals, fr)
            if r is not NotImplemented:
                self.used_contracts.add(qn)
                return r
        if own and own.startswith('EventGenerator') and fn['name'] in ('addListener', 'removeListener', 'removeListeners'):
            self.trusted.add('registration of event listeners has no effect on the observed state')
            return None
        body = self.ast.body(fn)
        if body is None:
            if fn['name'] == 'operator=' and len(vals) == 1:
                self.copy(st, this, vals[0])
                return this
            raise Unsupported('no body for ' + qn)
        if len(self.callstack) > 60:
            raise Unsupported('recursion too deep in ' + qn)
        self.inlined.add(qn)
        f2 = self.newframe(fn, this)
        self.bind_params(f2, st, fn, vals)
        n0 = len(st.pc)
        self.callstack.append(qn)
        try:
            s = self.run_body(f2, body, St(dict(st.fams), st.pc))
        finally:
            self.callstack.pop()
        if s is not None:
            f2.exits.append(Exit('return', s.pc, s.fams, None))
        return self.finish_call(fr, st, f2, n0)

    def finish_call(self, fr, st, f2, n0):
        rets = [e for e in f2.exits if e.kind == 'return']
        thr = [e for e in f2.exits if e.kind == 'throw']
        base = st.pc[:n0]
        if not self.callstack:
            self.toprets = list(rets)
        if fr is not None:
            for e in thr:
                fr.exits.append(e)
        if not rets:
            st.pc = base + (FALSE,)
            return None
        out = rets[-1]
        val = out.val
        cur = St(out.fams, out.pc)
        for e in reversed(rets[:-1]):
            c = and_(*e.pc[n0:])
            if isinstance(e.val, Place) and isinstance(val, Place):
                if not e.val.same(val):
                    if f2.retref:
                        val = PlaceIte(c, e.val, val)
                        cur = self.merge_states(c, St(e.fams, e.pc), cur)
                    else:
                        cur = self.merge_states(c, St(e.fams, e.pc), cur)
                        t = self.local(val.ty)
                        self.copy(cur, t, val)
                        self.copy(cur, t, e.val, c)
                        val = t
                else:
                    cur = self.merge_states(c, St(e.fams, e.pc), cur)
            else:
                cur = self.merge_states(c, St(e.fams, e.pc), cur)
                val = self.merge_val(c, e.val, val)
        st.fams = cur.fams
        st.pc = cur.pc
        return val

    def e_CallExpr(self, fr, n, st):
        f = n['inner'][0]
        args = n['inner'][1:]
        fv_ = self.ev(fr, f, st)
        if not isinstance(fv_, FnVal):
            raise Unsupported('call of %r' % (fv_,))
        return self.do_call(fr, n, st, fv_, args)

    def do_call(self, fr, n, st, fv_, args):
        d = self.ast.definition(fv_.node['id']) if fv_.node.get('id') else None
        name = fv_.node.get('name')
        if d is None and fv_.node.get('kind') != 'ext':
            full = self.ast.byid.get(fv_.node['id'])
            own = self.ast.owner.get(fv_.node['id'])
            qn = (own + '::' if own else '') + (name or '')
            h = self.contracts.get(qn)
            if h:
                vals = [self.ev(fr, a, st) for a in args if a['kind'] != 'CXXDefaultArgExpr']
                r = h(self, st, fv_.this, vals, fr)
                if r is not NotImplemented:
                    self.used_contracts.add(qn)
                    return r
        if d is None:
            from .lib import libcall
            return libcall(self, fr, n, st, name, fv_.this, args)
        vals = self.eval_args(fr, st, d, args)
        if self.is_dead(st):
            return None
        return self.call(fr, st, d, fv_.this, vals)

    def e_CXXMemberCallExpr(self, fr, n, st):
        me = n['inner'][0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        args = n['inner'][1:]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call through ' + me['kind'])
        base = self.ev(fr, me['inner'][0], st)
        if me.get('isArrow'):
            base = self.rv(st, base)
            base = self.deref(st, base)
        if self.is_dead(st):
            return None
        mid = me.get('referencedMemberDecl')
        dn = self.ast.byid.get(mid)
        name = me['name']
        d = self.ast.definition(mid) if mid in self.ast.byid else None
        if dn is not None and isinstance(base, Place) and base.ty[0] == 'cls':
            root = self.ast.byid.get(self.ast.root(mid), dn)
            if (root.get('virtual') or dn.get('virtual') or self.isvirtual(name, base.ty[1], len(self.ast.params(root)))) and \
                    not self.qualified(me):
                dyn = self.dyntypes.get((base.root, base.path), base.ty[1])
                o = self.ast.find_override(dyn, name, len(self.ast.params(root)), root['type']['qualType'])
                if o is not None:
                    d = self.ast.definition(o['id']) or d
                    dn = o
        if d is None or self.ast.body(d) is None and not d.get('explicitlyDefaulted'):
            own = self.ast.owner.get(mid)
            qn = (own + '::' if own else '') + name
            h = self.contracts.get(qn)
            self.curcall = n.get('id')
            if h:
                vals = [self.ev(fr, a, st) for a in args if a['kind'] != 'CXXDefaultArgExpr']
                r = h(self, st, base, vals, fr)
                if r is not NotImplemented:
                    self.used_contracts.add(qn)
                    return r
            from .lib import libcall
            return libcall(self, fr, n, st, name, base, args)
        vals = self.eval_args(fr, st, d, args)
        if self.is_dead(st):
            return None
        self.curcall = n.get('id')
        return self.call(fr, st, d, base, vals)

    def isvirtual(self, name, cls, np):
        for b in self.ast.bases(cls):
            o = self.ast.find_override(b, name, np)
            if o is not None and (o.get('virtual') or self.isvirtual(name, b, np)):
                return True
        n = self.ast.classes.get(cls, {})
        for c in n.get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == name and c.get('virtual'):
                return True
        return False

    def qualified(self, me):
        """Base::method() call (no virtual dispatch): source text has '::'"""
        r = me.get('range', {})
        b, e = r.get('begin', {}), r.get('end', {})
        try:
            bo = b.get('offset', b.get('expansionLoc', {}).get('offset'))
            eo = e.get('offset', e.get('expansionLoc', {}).get('offset'))
            # implicit this: begins at the nested-name-specifier
            inner = me['inner'][0]
            if inner.get('kind') in ('CXXThisExpr', 'ImplicitCastExpr') and me.get('isArrow'):
                x = inner
                while x['kind'] == 'ImplicitCastExpr':
                    x = x['inner'][0]
                if x['kind'] == 'CXXThisExpr' and x.get('implicit'):
                    return eo is not None and bo is not None and eo > bo
        except Exception:
            pass
        return False

    def e_CXXOperatorCallExpr(self, fr, n, st):
        f = n['inner'][0]
        x = f
        while x['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            x = x['inner'][0]
        rd = x['referencedDecl']
        name = rd['name']
        args = n['inner'][1:]
        d = self.ast.definition(rd['id']) if rd['id'] in self.ast.byid else None
        if d is not None and (self.ast.body(d) is not None or d.get('explicitlyDefaulted') or d.get('isImplicit')):
            if d['kind'] == 'CXXMethodDecl':
                # evaluation order: right operand first for assignment
                if name == 'operator=':
                    vals = self.eval_args(fr, st, d, args[1:])
                    base = self.ev(fr, args[0], st)
                else:
                    base = self.ev(fr, args[0], st)
                    vals = self.eval_args(fr, st, d, args[1:])
                if self.is_dead(st):
                    return None
                if self.ast.body(d) is None:
                    self.copy(st, base, vals[0])
                    return base
                return self.call(fr, st, d, base, vals)
            vals = self.eval_args(fr, st, d, args)
            return self.call(fr, st, d, None, vals)
        from .lib import libop
        return libop(self, fr, n, st, name, args, rd)

    # ------------------------------------------------------------ library
    def lib_construct(self, fr, st, obj, ty, args, n):
        from .lib import lib_construct
        return lib_construct(self, fr, st, obj, ty, args, n)


def trunc(v):
    if v.op == 'num':
        f = v.a[0]
        n = abs(f.numerator) // f.denominator
        return I(n if f >= 0 else -n)
    if v.op == 'i2r':
        return v.a[0]
    if v.op == 'ite':
        a, b = trunc(v.a[1]), trunc(v.a[2])
        if not (a.op == 'app' and a.a[0] == 'trunc' and b.op == 'app' and b.a[0] == 'trunc'):
            return ite(v.a[0], a, b)
    if v.op == 'poly' and all(c.denominator == 1 and all(a.op == 'i2r' for a, p in m) for m, c in v.a):
        r = ZERO
        for m, c in v.a:
            x = num(c, 'I')
            for a, p in m:
                for _ in range(p):
                    x = mul(x, a.a[0])
            r = add(r, x)
        return r
    return app('trunc', (v,), 'I')


class PlaceIte:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def f(self, name, ty):
        return PlaceIte(self.c, self.a.f(name, ty), self.b.f(name, ty))

    @property
    def ty(self):
        return self.a.ty
