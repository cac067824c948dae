"""Hash-consed terms with polynomial normal forms, binders (sum, prod, forall,
exists) in alpha-canonical form, and substitution of variables and functions."""
from fractions import Fraction
import itertools, sys
sys.setrecursionlimit(100000)

_tab = {}
_ids = itertools.count(1)


class T:
    __slots__ = ('op', 'a', 's', 'id', '_h', '_fv', '_fn', '_hb')

    def __repr__(self):
        return pp(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, a, s):
    k = (op, a, s)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.s = op, a, s
        t.id = next(_ids)
        t._fv = None
        t._fn = None
        t._hb = None
        _tab[k] = t
    return t


_fresh = itertools.count(1)


def fresh(name, s):
    return mk('var', ('%s!%d' % (name, next(_fresh)),), s)


def var(name, s):
    return mk('var', (name,), s)


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')


def num(v, s='I'):
    if isinstance(v, T):
        return v
    return mk('num', (Fraction(v),), s)


def isnum(t, v=None):
    return t.op == 'num' and (v is None or t.a[0] == v)


def I(v):
    return num(v, 'I')


def R(v):
    return num(v, 'R')


ZERO, ONE = I(0), I(1)


# ---------------------------------------------------------------- polynomials
# numeric term: 'num' | 'poly' (((mono),coef),...) | atom
# mono: tuple of (atom, power), sorted by atom id
def _pd(t):
    if t.op == 'num':
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'poly':
        return dict(t.a)
    return {((t, 1),): Fraction(1)}


def _mk(d, s):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return num(0, s)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c, s)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    it = tuple(sorted(d.items(), key=lambda x: (len(x[0]), tuple((a.id, p) for a, p in x[0]))))
    return mk('poly', it, s)


def _sort2(a, b):
    return 'R' if a.s == 'R' or b.s == 'R' else 'I'


def toreal(t):
    """int term used as a real"""
    if t.s == 'R':
        return t
    if t.s == 'B':
        return ite(t, R(1), R(0))
    if t.op == 'num':
        return R(t.a[0])
    if t.op == 'poly':
        d = {}
        for m, c in t.a:
            mm = tuple(sorted(((toreal(a), p) for a, p in m), key=lambda x: x[0].id))
            d[mm] = d.get(mm, 0) + c
        return _mk(d, 'R')
    if t.op == 'ite':
        return ite(t.a[0], toreal(t.a[1]), toreal(t.a[2]))
    if t.op == 'sum':
        return bind('sum', t.a[0], t.a[1], lambda k: toreal(open_(t, k)))
    return mk('i2r', (t,), 'R')


def _co(a, b):
    if a.s == 'B':
        a = ite(a, I(1), I(0))
    if b.s == 'B':
        b = ite(b, I(1), I(0))
    s = _sort2(a, b)
    if s == 'R':
        a, b = toreal(a), toreal(b)
    return a, b, s


def add(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = _add(r, t)
    return r


def _add(a, b):
    a, b, s = _co(a, b)
    if isnum(a, 0):
        return b
    if isnum(b, 0):
        return a
    d = _pd(a)
    for m, c in _pd(b).items():
        d[m] = d.get(m, 0) + c
    return _mk(d, s)


def neg(a):
    if a.s == 'B':
        a = ite(a, I(1), I(0))
    return _mk({m: -c for m, c in _pd(a).items()}, a.s)


def sub(a, b):
    return _add(a, neg(b))


def _mm(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, p in m2:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(((a, p) for a, p in d.items() if p), key=lambda x: x[0].id))


def mul(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = _mul(r, t)
    return r


def _mul(a, b):
    a, b, s = _co(a, b)
    if isnum(a, 0) or isnum(b, 0):
        return num(0, s)
    if isnum(a, 1):
        return b
    if isnum(b, 1):
        return a
    # keep {ite(c,x,y)} distribution out; ite(c,x,0)*y -> ite(c,x*y,0)
    for p, q in ((a, b), (b, a)):
        if p.op == 'ite' and (isnum(p.a[1], 0) or isnum(p.a[2], 0)):
            return ite(p.a[0], _mul(p.a[1], q), _mul(p.a[2], q))
    pa, pb = _pd(a), _pd(b)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mm(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _mk(d, s)


def inv(a):
    a = toreal(a)
    if a.op == 'num':
        return R(1 / a.a[0]) if a.a[0] else mk('inv', (a,), 'R')
    if a.op == 'inv':
        return a.a[0]
    if a.op == 'ite':
        return ite(a.a[0], inv(a.a[1]), inv(a.a[2]))
    if a.op == 'poly' and len(a.a) == 1:
        m, c = a.a[0]
        r = R(1 / c)
        for at, p in m:
            for _ in range(p):
                r = _mul(r, inv(at))
        return r
    if a.op == 'poly':
        # normalise the leading coefficient
        c = a.a[0][1]
        if c != 1:
            return _mul(R(1 / c), inv(_mk({m: k / c for m, k in a.a}, 'R')))
    return mk('inv', (a,), 'R')


def div(a, b):
    return _mul(toreal(a), inv(b))


def idiv(a, b):
    if a.op == 'num' and b.op == 'num' and b.a[0]:
        q = abs(int(a.a[0])) // abs(int(b.a[0]))
        return I(q if (a.a[0] >= 0) == (b.a[0] > 0) else -q)
    if isnum(b, 1):
        return a
    if isnum(a, 0):
        return a
    if a.op == 'ite':
        return ite(a.a[0], idiv(a.a[1], b), idiv(a.a[2], b))
    return mk('idiv', (a, b), 'I')


FDIV_HOOK = [None]


def fdiv(a, b):
    """floor division, b > 0"""
    if a.op == 'num' and b.op == 'num' and b.a[0]:
        return I(a.a[0] // b.a[0])
    if isnum(b, 1):
        return a
    if isnum(a, 0):
        return a
    # pull out multiples of b
    if b.op == 'num' or b.op != 'poly' or len(b.a) == 1:
        bm, bc = ((), b.a[0]) if b.op == 'num' else (((b, 1),), Fraction(1)) if b.op != 'poly' else b.a[0]
        q = {}
        r = {}
        bd = dict(bm)
        for m, c in _pd(a).items():
            md = dict(m)
            if all(md.get(x, 0) >= p for x, p in bd.items()):
                k = c / bc
                kf = Fraction(k.numerator // k.denominator)
                if k.denominator == 1 or not bm:
                    mm = tuple(sorted(((x, p - bd.get(x, 0)) for x, p in md.items() if p - bd.get(x, 0)),
                                      key=lambda z: z[0].id))
                    if kf:
                        q[mm] = q.get(mm, 0) + kf
                        c = c - kf * bc
            if c:
                r[m] = r.get(m, 0) + c
        if q:
            return add(_mk(q, 'I'), fdiv(_mk(r, 'I'), b))
    elif b.op == 'poly':
        # a = q*b + r by a single symbolic quotient on the leading monomial
        for m, c in _pd(a).items():
            lm, lc = b.a[-1]
            md, ld = dict(m), dict(lm)
            if lm and all(md.get(x, 0) >= p for x, p in ld.items()) and (c / lc).denominator == 1:
                mm = tuple(sorted(((x, p - ld.get(x, 0)) for x, p in md.items() if p - ld.get(x, 0)),
                                  key=lambda z: z[0].id))
                q = _mk({mm: c / lc}, 'I')
                r = sub(a, mul(q, b))
                if len(_pd(r)) < len(_pd(a)):
                    return add(q, fdiv(r, b))
    h = FDIV_HOOK[0]
    if h is not None:
        r = h(a, b)
        if r is not None:
            return r
    return mk('fdiv', (a, b), 'I')


RAG_HOOK = [None]


def rag(S, x):
    """S = sum_{q<N} W(q), W >= 0: the k with sum_{q<k} W <= x < sum_{q<=k} W"""
    h = RAG_HOOK[0]
    if h is not None:
        r = h(S, x)
        if r is not None:
            return r
    return mk('rag', (S, x), 'I')


def imod(a, b):
    if a.op == 'num' and b.op == 'num' and b.a[0]:
        q = idiv(a, b)
        return I(a.a[0] - q.a[0] * b.a[0])
    if isnum(b, 1):
        return I(0)
    if a.op == 'ite':
        return ite(a.a[0], imod(a.a[1], b), imod(a.a[2], b))
    return mk('imod', (a, b), 'I')


# ------------------------------------------------------------------- booleans
def B(v):
    return TRUE if v else FALSE


def not_(a):
    o = a.op
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if o == 'not':
        return a.a[0]
    if o == 'le0':
        p = a.a[0]
        if p.s == 'I':
            return le(I(1), p)
        return lt(R(0), p)
    if o == 'lt0':
        return le(R(0), a.a[0])
    if o == 'and':
        return or_(*[not_(x) for x in a.a])
    if o == 'or':
        return and_(*[not_(x) for x in a.a])
    if o == 'forall':
        return bind('exists', a.a[0], a.a[1], lambda k: not_(open_(a, k)))
    if o == 'exists':
        return bind('forall', a.a[0], a.a[1], lambda k: not_(open_(a, k)))
    if o == 'ite':
        return ite(a.a[0], not_(a.a[1]), not_(a.a[2]))
    return mk('not', (a,), 'B')


def and_(*xs):
    s = {}
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            for y in x.a:
                s[y] = 1
        else:
            s[x] = 1
    for x in s:
        if not_(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk('and', tuple(sorted(s, key=lambda t: t.id)), 'B')


def or_(*xs):
    s = {}
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == 'or':
            for y in x.a:
                s[y] = 1
        else:
            s[x] = 1
    for x in s:
        if not_(x) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return mk('or', tuple(sorted(s, key=lambda t: t.id)), 'B')


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return and_(or_(not_(a), b), or_(not_(b), a))


def _intnorm(p):
    """p <= 0 over ints: divide by the gcd of non-constant coefs, round"""
    import math
    d = _pd(p)
    g = 0
    for m, c in d.items():
        if c.denominator != 1:
            return p
        if m != ():
            g = math.gcd(g, int(abs(c)))
    if g > 1:
        nd = {}
        for m, c in d.items():
            if m == ():
                nd[m] = Fraction(-((-int(c)) // g))
            else:
                nd[m] = c / g
        return _mk(nd, 'I')
    return p


def le(a, b):
    a, b, s = _co(a, b)
    p = sub(a, b)
    if p.op == 'num':
        return B(p.a[0] <= 0)
    if s == 'I':
        p = _intnorm(p)
        if p.op == 'num':
            return B(p.a[0] <= 0)
    else:
        p = _posnorm(p)
    if p.op == 'ite':
        return ite(p.a[0], le(p.a[1], num(0, s)), le(p.a[2], num(0, s)))
    return mk('le0', (p,), 'B')


def _posnorm(p):
    d = _pd(p)
    if p.op != 'poly':
        return p
    c = abs(p.a[0][1])
    if p.a[0][0] == () and len(p.a) > 1:
        c = abs(p.a[1][1])
    if c == 1:
        return p
    return _mk({m: k / c for m, k in d.items()}, p.s)


def lt(a, b):
    a, b, s = _co(a, b)
    if s == 'I':
        if b.op == 'ite' and (b.a[1].op == 'num' or b.a[2].op == 'num'):
            return ite(b.a[0], lt(a, b.a[1]), lt(a, b.a[2]))
        return le(add(a, I(1)), b)
    p = sub(a, b)
    if p.op == 'num':
        return B(p.a[0] < 0)
    if p.op == 'ite':
        return ite(p.a[0], lt(p.a[1], num(0, s)), lt(p.a[2], num(0, s)))
    return mk('lt0', (_posnorm(p),), 'B')


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.s == 'B' and b.s == 'B':
        return ite(a, b, not_(b))
    a, b, s = _co(a, b)
    p = sub(a, b)
    if p.op == 'num':
        return B(p.a[0] == 0)
    if p.op == 'ite':
        return ite(p.a[0], eq(p.a[1], num(0, s)), eq(p.a[2], num(0, s)))
    if a.op == 'ite' and b.op == 'num':
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == 'ite' and a.op == 'num':
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if p.op == 'poly':
        c = p.a[0][1]
        if p.a[0][0] == () and len(p.a) > 1:
            c = p.a[1][1]
        if c != 1:
            p = _mk({m: k / c for m, k in p.a}, s)
        if s == 'I':
            d = _pd(p)
            k = d.get((), Fraction(0))
            if all(x.denominator == 1 for m, x in d.items() if m != ()) and k.denominator != 1:
                return FALSE
    return mk('eq0', (p,), 'B')


def ne(a, b):
    return not_(eq(a, b))


def _given(a, c):
    """a, knowing c"""
    if a is c:
        return TRUE
    n = not_(c)
    if a is n:
        return FALSE
    if a.op == 'and':
        if n in a.a:
            return FALSE
        if c in a.a:
            return and_(*[x for x in a.a if x is not c])
    elif a.op == 'or':
        if c in a.a:
            return TRUE
        if n in a.a:
            return or_(*[x for x in a.a if x is not n])
    return a


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a.s == 'B' or b.s == 'B':
        if a.s == 'B' and b.s == 'B':
            a, b = _given(a, c), _given(b, not_(c))
            if a is b:
                return a
            if a is TRUE:
                return or_(c, b)
            if a is FALSE:
                return and_(not_(c), b)
            if b is TRUE:
                return or_(not_(c), a)
            if b is FALSE:
                return and_(c, a)
            return mk('ite', (c, a, b), 'B')
        if a.s == 'B':
            a = ite(a, I(1), I(0))
        else:
            b = ite(b, I(1), I(0))
    s = _sort2(a, b)
    if s == 'R':
        a, b = toreal(a), toreal(b)
        if a is b:
            return a
    if a.op == 'ite':
        if a.a[0] is c:
            a = a.a[1]
        elif a.a[0] is not_(c):
            a = a.a[2]
    if b.op == 'ite':
        if b.a[0] is c:
            b = b.a[2]
        elif b.a[0] is not_(c):
            b = b.a[1]
    if a is b:
        return a
    # orient: prefer the canonical polarity with the smaller id
    nc = not_(c)
    if nc.id < c.id and c.op in ('le0', 'lt0', 'or', 'not'):
        c, a, b = nc, b, a
    return mk('ite', (c, a, b), s)


# --------------------------------------------------------------------- apps
def app(f, args, s):
    return mk('app', (f,) + tuple(args), s)


def arr_sort_real(x):
    return x if x.s == 'R' else toreal(x)


def tmin(a, b):
    return ite(lt(b, a), b, a)


def tmax(a, b):
    return ite(lt(a, b), b, a)


def tabs(a):
    return ite(le(num(0, a.s), a), a, neg(a))


# ------------------------------------------------------------------- binders
# a = (lo, hi, body, h); body uses var '#h' of sort I
def hb(t):
    """1 + highest bound index loose or bound in t"""
    if t._hb is None:
        if t.op == 'var':
            n = t.a[0]
            t._hb = int(n[1:]) + 1 if n[0] == '#' else 0
        elif t.op in BINDERS:
            t._hb = max(hb(t.a[0]), hb(t.a[1]), hb(t.a[2]))
        else:
            t._hb = max([hb(x) for x in kids(t)] or [0])
    return t._hb


BINDERS = ('sum', 'prod', 'forall', 'exists', 'minof', 'maxof', 'amax', 'amin')
RANGE = {}  # int var -> (lo, hi): lo <= var < hi


def kids(t):
    if t.op in ('var', 'num', 'true', 'false'):
        return ()
    if t.op == 'poly':
        return tuple(a for m, c in t.a for a, p in m)
    if t.op == 'app':
        return t.a[1:]
    if t.op in BINDERS:
        return t.a[:3]
    if t.op == 'rec':
        return t.a[:3]
    return t.a


def fv(t):
    if t._fv is None:
        if t.op == 'var':
            t._fv = frozenset((t,))
        elif t.op in BINDERS:
            b = var('#%d' % t.a[3], 'I')
            t._fv = fv(t.a[0]) | fv(t.a[1]) | (fv(t.a[2]) - {b})
        else:
            r = frozenset()
            for k in kids(t):
                r |= fv(k)
            t._fv = r
    return t._fv


def fns(t):
    """function symbols applied in t"""
    if t._fn is None:
        r = frozenset()
        for k in kids(t):
            r |= fns(k)
        if t.op == 'app':
            r |= {t.a[0]}
        t._fn = r
    return t._fn


def open_(t, k):
    """body of binder t with bound variable := k"""
    b = var('#%d' % t.a[3], 'I')
    return subst(t.a[2], {b: k})


def bind(op, lo, hi, f, hint=None):
    k = hint if hint is not None else fresh('k', 'I')
    if k not in RANGE:
        RANGE[k] = (lo, hi)
    body = f(k)
    return close(op, lo, hi, k, body)


def close(op, lo, hi, k, body):
    if not isnum(lo, 0) and not (lo.op == 'num' and hi.op == 'num'):
        r = close(op, ZERO, sub(hi, lo), k, subst(body, {k: add(k, lo)}))
        return add(r, lo) if op in ('amax', 'amin') else r
    if op in ('prod', 'minof', 'maxof', 'amax', 'amin'):
        if lo.op == 'num' and hi.op == 'num' and 0 < hi.a[0] - lo.a[0] <= 64:
            xs = [(I(i), subst(body, {k: I(i)})) for i in range(int(lo.a[0]), int(hi.a[0]))]
            bi, bv = xs[0]
            for i, v in xs[1:]:
                if op == 'prod':
                    bv = mul(bv, v)
                elif op in ('minof', 'amin'):
                    c = lt(v, bv)
                    bi, bv = ite(c, i, bi), ite(c, v, bv)
                else:
                    c = lt(bv, v)
                    bi, bv = ite(c, i, bi), ite(c, v, bv)
            return bi if op in ('amax', 'amin') else bv
        if op == 'prod' and (lo is hi or (lo.op == 'num' and hi.op == 'num')):
            return num(1, body.s)
    if op in ('forall', 'exists'):
        return _quant(op, lo, hi, k, body)
    if op == 'sum':
        return _sum(lo, hi, k, body)
    return _raw(op, lo, hi, k, body)


def _raw(op, lo, hi, k, body):
    h = hb(body)
    b = var('#%d' % h, 'I')
    nb = subst(body, {k: b})
    s = 'I' if op in ('amax', 'amin') else body.s
    return mk(op, (lo, hi, nb, h), s)


EXPAND = 12


def _quant(op, lo, hi, k, body):
    if lo.op == 'num' and hi.op == 'num' and hi.a[0] - lo.a[0] <= 64:
        n0, n1 = int(lo.a[0]), int(hi.a[0])
        xs = [subst(body, {k: I(i)}) for i in range(n0, n1)]
        return and_(*xs) if op == 'forall' else or_(*xs)
    if k not in fv(body):
        if op == 'forall':
            return or_(le(hi, lo), body)
        return and_(lt(lo, hi), body)
    # parts without k
    if body.op == 'ite' and k not in fv(body.a[0]):
        return ite(body.a[0], _quant(op, lo, hi, k, body.a[1]), _quant(op, lo, hi, k, body.a[2]))
    if body.op == ('or' if op == 'forall' else 'and'):
        out = [x for x in body.a if k not in fv(x)]
        if out:
            ins = [x for x in body.a if k in fv(x)]
            if op == 'forall':
                return or_(*out, _quant(op, lo, hi, k, or_(*ins)))
            return and_(*out, _quant(op, lo, hi, k, and_(*ins)))
    # a bound on k: decided at one end of the range
    if body.op == 'le0' and body.a[0].s == 'I':
        d = _pd(body.a[0])
        c = d.get(((k, 1),))
        if c is not None and not any(k in fv(a) for m in d if m != ((k, 1),) for a, p in m):
            end = sub(hi, ONE) if (c > 0) == (op == 'forall') else lo
            x = subst(body, {k: end})
            return or_(le(hi, lo), x) if op == 'forall' else and_(lt(lo, hi), x)
    # one-point: exists k. k==e and rest
    if op == 'exists':
        cs = body.a if body.op == 'and' else (body,)
        for c in cs:
            e = _solve_eq(c, k)
            if e is not None:
                rest = and_(*[x for x in cs if x is not c])
                return and_(le(lo, e), lt(e, hi), subst(rest, {k: e}))
        if body.op == 'or':
            return or_(*[_quant(op, lo, hi, k, x) for x in body.a])
    else:
        cs = body.a if body.op == 'or' else (body,)
        for c in cs:
            e = _solve_eq(not_(c), k)
            if e is not None:
                rest = or_(*[x for x in cs if x is not c])
                return implies(and_(le(lo, e), lt(e, hi)), subst(rest, {k: e}))
        if body.op == 'and':
            return and_(*[_quant(op, lo, hi, k, x) for x in body.a])
    return _raw(op, lo, hi, k, body)


def _solve_eq(c, k):
    """c is k == e (k not in e): return e"""
    if c.op != 'eq0' or c.a[0].s != 'I' or k not in fv(c):
        return None
    p = c.a[0]
    d = _pd(p)
    m = ((k, 1),)
    co = d.get(m)
    if co is None or abs(co) != 1:
        return None
    rest = _mk({x: v for x, v in d.items() if x != m}, 'I')
    if k in fv(rest):
        return None
    return neg(rest) if co == 1 else rest


def _sum(lo, hi, k, body):
    if hi.op == 'ite' and (hi.a[1] is lo or hi.a[2] is lo) and k not in fv(hi.a[0]):
        z = num(0, body.s)
        return ite(hi.a[0], z if hi.a[1] is lo else _sum(lo, hi.a[1], k, body),
                   z if hi.a[2] is lo else _sum(lo, hi.a[2], k, body))
    if isnum(body, 0):
        return num(0, body.s)
    if lo.op == 'num' and hi.op == 'num' and hi.a[0] - lo.a[0] <= 64:
        r = num(0, body.s)
        for i in range(int(lo.a[0]), int(hi.a[0])):
            r = _add(r, subst(body, {k: I(i)}))
        return r
    if lo is hi:
        return num(0, body.s)
    s = body.s
    if k not in fv(body):
        n = sub(hi, lo)
        n = ite(le(lo, hi), n, I(0)) if not _nonneg(n) else n
        return _mul(n if s == 'I' else toreal(n), body)
    if body.op in ('poly',):
        # split terms, pull out factors free of k
        r = num(0, s)
        for m, c in body.a:
            out, inn = [], []
            for a, p in m:
                (inn if k in fv(a) else out).append((a, p))
            co = _mk({tuple(out): c}, s)
            bi = _mk({tuple(inn): Fraction(1)}, s)
            r = _add(r, _mul(co, _sum1(lo, hi, k, bi)))
        return r
    return _sum1(lo, hi, k, body)


NONNEG = set()  # atoms known >= 0 (sizes, counts): used only for (hi-lo) counts


def _nonneg(n):
    if n.op == 'num':
        return n.a[0] >= 0
    d = _pd(n)
    return all(c >= 0 and all(a in NONNEG or a.op == 'num' for a, p in m) for m, c in d.items())


def _sum1(lo, hi, k, body):
    if k not in fv(body):
        return _sum(lo, hi, k, body)
    if body.op == 'poly' and len(body.a) != 1:
        return _sum(lo, hi, k, body)
    if body.op == 'ite':
        c, a, b = body.a
        if k not in fv(c):
            return ite(c, _sum(lo, hi, k, a), _sum(lo, hi, k, b))
        for cc, x, y in ((c, a, b), (not_(c), b, a)):
            if isnum(y, 0):
                cs = cc.a if cc.op == 'and' else (cc,)
                # hoist conditions free of k
                ind = [z for z in cs if k not in fv(z)]
                if ind:
                    rest = and_(*[z for z in cs if k in fv(z)])
                    return ite(and_(*ind), _sum(lo, hi, k, ite(rest, x, y)), num(0, body.s))
                for z in cs:
                    e = _solve_eq(z, k)
                    if e is not None:
                        rest = and_(*[w for w in cs if w is not z])
                        return ite(and_(le(lo, e), lt(e, hi), subst(rest, {k: e})),
                                   subst(x, {k: e}), num(0, body.s))
                # pull out factors free of k
                if x.op == 'poly' and len(x.a) == 1:
                    m, co = x.a[0]
                    out = tuple(z for z in m if k not in fv(z[0]))
                    if out or co != 1:
                        inn = tuple(z for z in m if k in fv(z[0]))
                        v = _mk({inn: Fraction(1)}, body.s)
                        return _mul(_mk({out: co}, body.s), _sum1(lo, hi, k, ite(cc, v, num(0, body.s))))
        return _raw('sum', lo, hi, k, body)
    return _raw('sum', lo, hi, k, body)


# --------------------------------------------------------------- substitution
def subst(t, vm, fm=None):
    """vm: {var: term}; fm: {fname: callable(args)->term}"""
    vks = frozenset(vm)
    fks = frozenset(fm) if fm else frozenset()
    memo = {}

    def go(t):
        if not (fv(t) & vks) and not (fks and (fns(t) & fks)):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        o = t.op
        if o == 'var':
            r = vm[t]
        elif o == 'poly':
            r = num(0, t.s)
            for m, c in t.a:
                x = num(c, t.s)
                for a, p in m:
                    b = go(a)
                    for _ in range(p):
                        x = _mul(x, b)
                r = _add(r, x)
        elif o == 'app':
            args = [go(x) for x in t.a[1:]]
            if t.a[0] in fks:
                r = fm[t.a[0]](args)
                if t.s == 'R':
                    r = toreal(r)
            else:
                r = app(t.a[0], args, t.s)
        elif o == 'ite':
            c = go(t.a[0])
            r = ite(c, go(t.a[1]) if c is not FALSE else t.a[1], go(t.a[2]) if c is not TRUE else t.a[2])
        elif o == 'and':
            r = and_(*[go(x) for x in t.a])
        elif o == 'or':
            r = or_(*[go(x) for x in t.a])
        elif o == 'not':
            r = not_(go(t.a[0]))
        elif o == 'le0':
            r = le(go(t.a[0]), num(0, t.a[0].s))
        elif o == 'lt0':
            r = lt(go(t.a[0]), num(0, t.a[0].s))
        elif o == 'eq0':
            r = eq(go(t.a[0]), num(0, t.a[0].s))
        elif o == 'inv':
            r = inv(go(t.a[0]))
        elif o == 'i2r':
            r = toreal(go(t.a[0]))
        elif o == 'idiv':
            r = idiv(go(t.a[0]), go(t.a[1]))
        elif o == 'imod':
            r = imod(go(t.a[0]), go(t.a[1]))
        elif o == 'fdiv':
            r = fdiv(go(t.a[0]), go(t.a[1]))
        elif o == 'rag':
            r = rag(go(t.a[0]), go(t.a[1]))
        elif o in BINDERS:
            k = fresh('k', 'I')
            b = var('#%d' % t.a[3], 'I')
            RANGE[k] = (t.a[0], t.a[1])
            body = subst(t.a[2], {b: k})
            lo, hi = go(t.a[0]), go(t.a[1])
            RANGE[k] = (lo, hi)
            r = close(o, lo, hi, k, go(body))
        else:
            r = mk(o, tuple(go(x) if isinstance(x, T) else x for x in t.a), t.s)
        memo[t] = r
        return r
    return go(t)


def simp_under(t, lits):
    """replace known literals by constants"""
    m = {}
    for l in lits:
        m[l] = TRUE
        m[not_(l)] = FALSE
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.s == 'B' and t in m:
            r = m[t]
        elif t.op == 'ite':
            c = go(t.a[0])
            if c is TRUE:
                r = go(t.a[1])
            elif c is FALSE:
                r = go(t.a[2])
            else:
                r = ite(c, go(t.a[1]), go(t.a[2]))
        elif t.op == 'poly':
            r = num(0, t.s)
            for mo, c in t.a:
                x = num(c, t.s)
                for a, p in mo:
                    b = go(a)
                    for _ in range(p):
                        x = _mul(x, b)
                r = _add(r, x)
        elif t.op in ('and', 'or', 'not', 'le0', 'lt0', 'eq0', 'inv', 'i2r', 'idiv', 'imod', 'fdiv', 'rag'):
            ks = [go(x) for x in t.a]
            if t.op == 'and':
                r = and_(*ks)
            elif t.op == 'or':
                r = or_(*ks)
            elif t.op == 'not':
                r = not_(ks[0])
            elif t.op == 'le0':
                r = le(ks[0], num(0, ks[0].s))
            elif t.op == 'lt0':
                r = lt(ks[0], num(0, ks[0].s))
            elif t.op == 'eq0':
                r = eq(ks[0], num(0, ks[0].s))
            elif t.op == 'inv':
                r = inv(ks[0])
            elif t.op == 'i2r':
                r = toreal(ks[0])
            elif t.op == 'idiv':
                r = idiv(*ks)
            elif t.op == 'fdiv':
                r = fdiv(*ks)
            elif t.op == 'rag':
                r = rag(*ks)
            else:
                r = imod(*ks)
        elif t.op == 'app':
            r = app(t.a[0], [go(x) for x in t.a[1:]], t.s)
        elif t.op in BINDERS:
            k = fresh('k', 'I')
            lo, hi = go(t.a[0]), go(t.a[1])
            RANGE[k] = (lo, hi)
            r = close(t.op, lo, hi, k, go(open_(t, k)))
        else:
            r = t
        if r.s != t.s and t.s == 'R':
            r = toreal(r)
        memo[t] = r
        return r
    return go(t)


def size(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(kids(x))
    return len(seen)


def pp(t, d=0):
    o = t.op
    if d > 14:
        return '…'
    if o == 'var':
        return t.a[0]
    if o == 'num':
        v = t.a[0]
        return str(v) if v.denominator == 1 else '%s/%s' % (v.numerator, v.denominator)
    if o == 'poly':
        r = []
        for m, c in t.a:
            f = [pp(a, d + 1) + ('^%d' % p if p > 1 else '') for a, p in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            r.append('*'.join(f))
        return '(' + ' + '.join(r) + ')'
    if o == 'app':
        return '%s(%s)' % (t.a[0], ', '.join(pp(x, d + 1) for x in t.a[1:]))
    if o in BINDERS:
        return '%s[#%d in %s..%s](%s)' % (o, t.a[3], pp(t.a[0], d + 1), pp(t.a[1], d + 1), pp(t.a[2], d + 1))
    if o == 'le0':
        return '%s<=0' % pp(t.a[0], d + 1)
    if o == 'lt0':
        return '%s<0' % pp(t.a[0], d + 1)
    if o == 'eq0':
        return '%s==0' % pp(t.a[0], d + 1)
    if o in ('true', 'false'):
        return o
    return '%s(%s)' % (o, ', '.join(pp(x, d + 1) if isinstance(x, T) else str(x) for x in t.a))


def monomials(t):
    return _pd(t)


def from_monomials(d, s):
    return _mk(d, s)
