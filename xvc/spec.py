"""Contracts.  A contract is an abstract description of what a function does:
pre(c) states what it requires, post(c) performs the specified update on a
copy of the state and returns the specified result.  Verification runs the
real body (from the AST of the current sources) and compares every observable
cell, the result and the exceptions; at call sites the same pre/post replace
the body."""
import time
from . import term as tm
from .term import *
from . import exec as ex
from . import lib
from .exec import Place, Ptr, Null, NULL, PIte, St, Exit, Frame, Engine, AT, SCALAR, sort_of
from .cast import Unsupported
from .oracle import UINT_FN, POSR

DEFS = {}       # opaque symbol -> (params, body)
_tmpl = {}
U = ('uint',)


class V:
    """view of a place in a state"""

    def __init__(self, c, st, p):
        object.__setattr__(self, '_c', c)
        object.__setattr__(self, '_st', st)
        object.__setattr__(self, '_p', p)

    def _res(self, p):
        en = self._c.en
        while p.ty[0] in ('ptr', 'sptr'):
            v = en.read_ptr(self._st, p)
            if not isinstance(v, Ptr):
                raise Unsupported('contract dereferences %r' % (v,))
            p = v.deref() if v.off is not None or v.arr.ty[0] != 'x' else v.arr
            if v.off is None:
                p = v.arr
        return p

    def __getattr__(self, name):
        return self.field(name)

    def field(self, name):
        """member of that name (also those hidden by properties of views)"""
        p = self._p
        en = self._c.en
        p = self._res(p)
        t = p.ty
        if t[0] == 'cls':
            for n, ty, _ in en.ast.fields(t[1]):
                if n == name:
                    q = p.f(n, ty)
                    return V(self._c, self._st, q)
            raise AttributeError('%s has no field %s' % (t[1], name))
        if t[0] == 'pair':
            return V(self._c, self._st, p.f(name, t[1] if name == 'first' else t[2]))
        raise AttributeError('%s of %r' % (name, t))

    def __getitem__(self, i):
        p = self._p
        i = I(i) if isinstance(i, int) else i
        if p.ty[0] == 'ptr':
            v = self._c.en.read_ptr(self._st, p)
            if v.off is None:
                raise Unsupported('index of object pointer')
            q = self._c.en.padd(v, i).deref()
            return V(self._c, self._st, q)
        p = self._res(p)
        if p.ty[0] in ('vec', 'arr', 'set'):
            return V(self._c, self._st, p.el(i, p.ty[1]))
        if p.ty[0] == 'map':
            return V(self._c, self._st, p.el(i, ('pair', p.ty[1], p.ty[2])))
        raise Unsupported('index of %r' % (p.ty,))

    @property
    def size(self):
        p = self._res(self._p)
        return self._c.en.read(self._st, p.f('#size', U))

    @property
    def t(self):
        p = self._p
        if p.ty[0] == 'cls':
            p = p.f('value_', dict((n, t) for n, t, _ in self._c.en.ast.fields(p.ty[1]))['value_'])
        return self._c.en.read(self._st, p)

    @property
    def p(self):
        return self._res(self._p)

    @property
    def id(self):
        """identifier of the pointed-to object"""
        v = self._c.en.read_ptr(self._st, self._p)
        return self._c.en.enc_ptr(v)[0]


    @property
    def nonnull(self):
        v = self._c.en.read_ptr(self._st, self._p)
        return nonnull(self._c.en, v)

    @property
    def data(self):
        """pointer to the first element of the container"""
        p = self.p
        return Ptr(Place(p.root, p.path + ('[]',), p.idx, p.ty[1]), ZERO)


def nonnull(en, v):
    if isinstance(v, (Null,)):
        return FALSE
    if isinstance(v, Ptr) and not (isinstance(v.arr.root, tuple) and v.arr.root[0] == 'H'):
        return TRUE
    if isinstance(v, PIte):
        return ite(v.c, nonnull(en, v.a), nonnull(en, v.b))
    return ne(en.enc_ptr(v)[0], ZERO)


class C:
    def __init__(self, en, st, this, vals, fr, mode, fn=None):
        self.en, self.st, self.fr, self.mode, self.fn = en, st, fr, mode, fn
        self.oldst = st.copy() if mode == 'call' else st
        self.thisp = this
        self.vals = vals
        self.hyps = []
        self.throws_ = []
        self.goals = []
        self.ignore = set()
        self.valid = {}
        self.names = []

    # ---- views
    @property
    def this(self):
        return V(self, self.oldst, self.thisp)

    @property
    def new(self):
        return V(self, self.st, self.thisp)

    def at(self, place, old=True):
        return V(self, self.oldst if old else self.st, place)

    def arg(self, i):
        v = self.vals[i]
        if isinstance(v, Place):
            if v.ty[0] in SCALAR and v.ty[0] not in ('ptr', 'sptr'):
                return self.en.read(self.oldst, v)
            return V(self, self.oldst, v)
        if isinstance(v, (Ptr, Null, PIte)):
            t = ex.Place(('argp', id(self), i), (), (), ('ptr', v.arr.ty if isinstance(v, Ptr) else ('void',)))
            self.oldst.fams[t.key] = v
            self.st.fams[t.key] = v
            return V(self, self.oldst, t)
        return v

    def argval(self, i):
        """pointer argument as a value"""
        v = self.vals[i]
        if isinstance(v, Place):
            return self.en.read_ptr(self.oldst, v)
        return v

    # ---- preconditions
    def assume(self, t, name='precondition'):
        if t is TRUE:
            return
        if self.mode == 'call':
            self.en.oblige(self.st, name + ' of ' + self.cname, t)
        else:
            self.hyps.append(t)

    def set(self, v, val):
        """the cell holds val on entry"""
        val = I(val) if isinstance(val, int) and not isinstance(val, bool) else B(val) if isinstance(val, bool) else val
        p = v._p
        if p.ty[0] == 'cls':
            p = p.f('value_', dict((n, t) for n, t, _ in self.en.ast.fields(p.ty[1]))['value_'])
        if self.mode == 'call':
            self.en.oblige(self.st, 'precondition of ' + self.cname, eq(self.en.read(self.st, p), val))
        else:
            self.en.write(self.st, p, val)
            self.names.append((p, val))

    def setsize(self, v, val):
        p = v.p.f('#size', U)
        val = I(val) if isinstance(val, int) else val
        if self.mode == 'call':
            self.en.oblige(self.st, 'precondition of ' + self.cname, eq(self.en.read(self.st, p), val))
        else:
            # sizes of nested containers: all indices
            if p.idx and all(i.op == 'var' and i.a[0][0] == '@' for i in p.idx):
                self.st.fams[p.key] = val
            elif p.idx:
                self.en.write(self.st, p, val)
            else:
                self.en.write(self.st, p, val)

    def allset(self, v, val):
        """every element of the family that v (indexed with c.ix) lies in holds
        val(indices) on entry; v's indices must be generic"""
        p = v._p
        if p.ty[0] == 'cls':
            p = p.f('value_', dict((n, t) for n, t, _ in self.en.ast.fields(p.ty[1]))['value_'])
        if self.mode == 'call':
            return
        self.st.fams[p.key] = val

    # ---- effects
    def throw_or_require(self, cond, cls='std::runtime_error'):
        """the function throws when cond; callers have to exclude cond"""
        if self.mode == 'call':
            self.assume(not_(cond))
        else:
            self.throw_if(cond, cls)

    def throw_if(self, cond, cls='std::runtime_error'):
        if self.mode == 'value':
            return
        if self.mode == 'call':
            self.en.throw_if(self.fr, self.st, cond, cls)
        else:
            self.throws_.append((cls, and_(cond, *[not_(x) for _, x in self.throws_])))

    def write(self, v, val):
        p = v._p
        if p.ty[0] == 'cls':
            p = p.f('value_', dict((n, t) for n, t, _ in self.en.ast.fields(p.ty[1]))['value_'])
        self.en.write(self.st, p, val)

    def resize(self, v, n):
        p = v.p
        self.en.write(self.st, p.f('#size', U), n)

    def fill(self, v, n, f, lo=ZERO, resize=False):
        """elements lo..n of container v := f(i)"""
        p = v.p if v._p.ty[0] not in ('ptr',) else None
        n = I(n) if isinstance(n, int) else n
        if p is None:
            pv = self.en.read_ptr(self.st, v._p)
            arr, off = pv.arr, pv.off
            ety = arr.ty
            key = (arr.root, arr.path)
            idx = arr.idx
        else:
            ety = p.ty[1]
            key = (p.root, p.path + ('[]',))
            idx, off = p.idx, ZERO
        k = len(idx)
        old = self.en.fam(self.st, key, ety, k + 1)
        i = AT[k]
        c = and_(*[eq(a, x) for a, x in zip(AT, idx)], le(add(lo, off), i), lt(i, add(n, off)))
        val = self.en.conv(f(sub(i, off)), ety)
        self.st.fams[key] = ite(c, val, old)
        if resize:
            self.resize(v, n)

    def fill2(self, v, n, m, f, resize=False):
        """v[i][j] := f(i, j) for i < n, j < m (m may be a function of i)"""
        p = v.p
        n = I(n) if isinstance(n, int) else n
        ety = p.ty[1][1]
        key = (p.root, p.path + ('[]', '[]'))
        k = len(p.idx)
        i, j = AT[k], AT[k + 1]
        mm = m(i) if callable(m) else I(m) if isinstance(m, int) else m
        old = self.en.fam(self.st, key, ety, k + 2)
        c = and_(*[eq(a, x) for a, x in zip(AT, p.idx)], le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, mm))
        self.st.fams[key] = ite(c, self.en.conv(f(i, j), ety), old)
        if resize:
            self.resize(v, n)
            sk = (p.root, p.path + ('[]', '#size'))
            so = self.en.fam(self.st, sk, U, k + 1)
            self.st.fams[sk] = ite(and_(*[eq(a, x) for a, x in zip(AT, p.idx)], le(ZERO, i), lt(i, n)), mm, so)

    def each(self, v, n, name, f, sub_=()):
        """field `name` of the objects v[0..n) := f(i)"""
        p = v.p
        n = I(n) if isinstance(n, int) else n
        i = AT[len(p.idx)]
        x = v[i]
        for s in name.split('.'):
            x = getattr(x, s)
        q = x._p
        if q.ty[0] == 'cls':
            q = q.f('value_', dict((a, t) for a, t, _ in self.en.ast.fields(q.ty[1]))['value_'])
        old = self.en.fam(self.st, q.key, q.ty, len(q.idx))
        c = and_(*[eq(a, y) for a, y in zip(AT, p.idx)], le(ZERO, i), lt(i, n))
        self.st.fams[q.key] = ite(c, self.en.conv(f(i), q.ty), old)

    def each1(self, v, n, name, m, f):
        """v[i].name[j] := f(i, j) for i < n, j < m(i)"""
        p = v.p
        i = AT[len(p.idx)]
        j = AT[len(p.idx) + 1]
        x = v[i]
        for s in name.split('.'):
            x = getattr(x, s)
        q = x.p
        ety = q.ty[1]
        key = (q.root, q.path + ('[]',))
        mmv = m(i) if callable(m) else m
        old = self.en.fam(self.st, key, ety, len(q.idx) + 1)
        c = and_(*[eq(a, y) for a, y in zip(AT, p.idx)], le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, mmv))
        self.st.fams[key] = ite(c, self.en.conv(f(i, j), ety), old)

    def run(self, st, name, this, vals):
        """effects of another contract on the state st (specification only)"""
        h = REG[name]
        c2 = C(self.en, st, this._p, [v._p if isinstance(v, V) else v for v in vals], None, 'value')
        c2.oldst = st.copy()
        c2.cname = h.fn
        r = h.post(c2)
        return r

    def forall(self, lo, n, build):
        """the effects of build(st, i) for every i in lo..n, i being the first
        index of every cell it changes; returns the state with generic i"""
        i = fresh('$i', 'I')
        st = self.st.copy()
        build(st, i)
        for key, v in list(st.fams.items()):
            old = self.st.fams.get(key)
            if v is old:
                continue
            if not isinstance(v, T):
                if isinstance(key[0], int):
                    continue
                raise Unsupported('pointer effects')
            if old is None:
                if isinstance(key[0], int):
                    continue
                old = self.en.try_init(key, v)
            nv = ite(and_(le(lo, AT[0]), lt(AT[0], n)), subst(v, {i: AT[0]}), old)
            self.st.fams[key] = nv
        return st, i

    def ensure(self, name, goal):
        """relational postcondition: proved on the final state of the body; at
        call sites it becomes a fact"""
        if self.mode == 'call':
            self.st.pc = self.st.pc + (goal,)
        else:
            self.goals.append((name, goal))

    def newobj(self, ty):
        return Place(('new', next(self.en.heapn)), (), (), ty)

    # result containers
    def result_vec(self, ety, n, f):
        t = self.en.local(('vec', ety))
        n = I(n) if isinstance(n, int) else n
        self.en.write(self.st, t.f('#size', U), n)
        self.st.fams[(t.root, t.path + ('[]',))] = self.en.conv(f(AT[0]), ety)
        return t

    def call(self, name, this, vals):
        """result of another contract (opaque value), read only"""
        h = REG[name]
        vs = []
        for v in vals:
            if isinstance(v, V):
                v = self.en.read_ptr(self.oldst, v._p) if v._p.ty[0] == 'ptr' else v._p
            vs.append(v)
        return h.value(self.en, self.oldst, this._p if isinstance(this, V) else this, vs)


def sigma(n, f, lo=ZERO):
    k = fresh('s', 'I')
    n = I(n) if isinstance(n, int) else n
    tm.RANGE[k] = (lo, n)
    return close('sum', lo, n, k, toreal(f(k)))


def isum(n, f, lo=ZERO):
    k = fresh('s', 'I')
    tm.RANGE[k] = (lo, n)
    return close('sum', lo, n, k, f(k))


def all_(n, f, lo=ZERO):
    k = fresh('s', 'I')
    n = I(n) if isinstance(n, int) else n
    tm.RANGE[k] = (lo, n)
    return close('forall', lo, n, k, f(k))


def ex_(n, f, lo=ZERO):
    k = fresh('s', 'I')
    n = I(n) if isinstance(n, int) else n
    tm.RANGE[k] = (lo, n)
    return close('exists', lo, n, k, f(k))


def big(op, n, f, lo=ZERO):
    k = fresh('s', 'I')
    n = I(n) if isinstance(n, int) else n
    tm.RANGE[k] = (lo, n)
    return close(op, lo, n, k, f(k))


def opaque(name, body):
    """name the value `body`: a symbol applied to its free variables; equal
    bodies (up to the variables) get the same symbol"""
    vs = sorted(fv(body), key=lambda v: v.id)
    # canonical order: order of occurrence in the printed structure
    order = []
    seen = set()
    st = [body]
    vis = set()
    while st:
        x = st.pop()
        if x in vis:
            continue
        vis.add(x)
        if x.op == 'var' and x in fv(body) and x not in seen:
            seen.add(x)
            order.append(x)
        st.extend(reversed([y for y in kids(x)]))
    for v in vs:
        if v not in seen:
            order.append(v)
    ps = [var('$%s%d' % (v.s, i), v.s) for i, v in enumerate(order)]
    tmpl = subst(body, dict(zip(order, ps)))
    k = (name, tmpl)
    sym = _tmpl.get(k)
    if sym is None:
        sym = '%s~%d' % (name, len([1 for a in _tmpl if a[0] == name]))
        _tmpl[k] = sym
        DEFS[sym] = (ps, tmpl)
    return app(sym, order, body.s)


def opaque_at(name, args, build):
    """as opaque, with the terms args abstracted first (index expressions)"""
    vs = [fresh('$a', a.s) for a in args]
    body = build(*vs)
    order = [v for v in vs]
    def made(v):
        h, _, n = v.a[0].rpartition('!')
        return (1, int(n), h) if h and n.isdigit() else (0, 0, v.a[0])
    extra = sorted([v for v in fv(body) if v not in vs], key=made)     # order of creation
    ps = [var('$%s%d' % (v.s, i), v.s) for i, v in enumerate(order + extra)]
    tmpl = subst(body, dict(zip(order + extra, ps)))
    k = (name, tmpl)
    sym = _tmpl.get(k)
    if sym is None:
        sym = '%s~%d' % (name, len([1 for a in _tmpl if a[0] == name]))
        _tmpl[k] = sym
        DEFS[sym] = (ps, tmpl)
    return app(sym, list(args) + extra, body.s)


def unfold(t):
    """replace opaque symbols by their definitions (recursively)"""
    fm = {}
    while True:
        syms = [f for f in fns(t) if f in DEFS and f not in fm]
        syms = [f for f in fns(t) if f in DEFS]
        if not syms:
            return t
        f = syms[0]
        ps, body = DEFS[f]
        t = subst(t, {}, {f: lambda a, ps=ps, body=body: subst(body, dict(zip(ps, a)))})


REG = {}


class Contract:
    """base class; subclasses define fn, pre, post"""
    fn = None
    sel = None              # None or predicate on the parameter type strings
    uses = ()               # contracts used at the calls in the body
    props = ()

    def __init__(self):
        self.name = type(self).__name__

    def pre(self, c):
        pass

    def post(self, c):
        return None

    # contracts with an opaque result: val(c) is its definition
    opaque_name = None

    def post_value(self, c):
        if c.mode == 'call':
            return self.value(c.en, c.oldst, c.thisp, c.vals)
        return self.val(c)

    def value(self, en, st, this, vals):
        args, vs = [], []
        spec = [this] + list(vals)
        for v in spec:
            if isinstance(v, Place):
                if v.ty[0] in SCALAR and v.ty[0] not in ('ptr', 'sptr'):
                    v = en.read(st, v)
                elif v.ty[0] in ('ptr', 'sptr'):
                    v = en.read_ptr(st, v)
            vs.append(v)
            if isinstance(v, Place):
                args += list(v.idx)
            elif isinstance(v, Ptr):
                args += list(v.arr.idx) + ([v.off] if v.off is not None else [])
            elif isinstance(v, T):
                args.append(v)
            else:
                raise Unsupported('opaque result for argument %r' % (v,))

        def build(*xs):
            xs = list(xs)
            out = []
            for v in vs:
                if isinstance(v, Place):
                    n = len(v.idx)
                    out.append(Place(v.root, v.path, tuple(xs[:n]), v.ty))
                    del xs[:n]
                elif isinstance(v, Ptr):
                    n = len(v.arr.idx)
                    a = Place(v.arr.root, v.arr.path, tuple(xs[:n]), v.arr.ty)
                    del xs[:n]
                    o = None
                    if v.off is not None:
                        o = xs.pop(0)
                    out.append(Ptr(a, o))
                else:
                    out.append(xs.pop(0))
            c = C(en, st, out[0], out[1:], None, 'value')
            c.cname = self.fn
            return self.val(c)
        r = opaque_at(self.opaque_name or self.name, args, build)
        if getattr(self, 'positive', False) and r.op == 'app':
            POSR.add(r.a[0])
        return r

    def check(self, c, ret):
        """additional goals on the final state (relational): use c.ensure"""

    def handler(self, en, st, this, vals, fr):
        if isinstance(self.sel, int) and self.sel != len(vals):
            return NotImplemented
        if isinstance(self.sel, str) and self.sel not in en.curfn['type']['qualType']:
            return NotImplemented
        c = C(en, st, this, vals, fr, 'call')
        c.cname = self.fn
        self.pre(c)
        r = self.post(c)
        for k in [k for k in st.fams if isinstance(k[0], tuple) and k[0][0] == 'argp']:
            del st.fams[k]
        en.used_contracts.add(self.fn)
        return r


def contract(cls):
    o = cls()
    REG[o.name] = o
    return cls
