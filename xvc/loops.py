"""Loop summaries.  For every cell family modified by the body the value after
k iterations is guessed in closed form from the symbolic step of one generic
iteration; the closed form is an inductive invariant (checked again in the
final generic run: closed(k+1) == step(closed(k)))."""
from .term import *
from .term import _pd, _mk, _solve_eq
from . import term as tm
from .cast import Unsupported
from .exec import St, Exit, Ptr, MapIt, AT, _ser, Null, PIte, Place
from .oracle import UINT_FN, isint
import itertools

_xn = itertools.count(1)
import os
DEBUG = [bool(os.environ.get('XVC_DEBUG'))]


class Cell:
    __slots__ = ('key', 'n', 'init', 'kind', 'X', 'closed', 'res', 'sort', 'tmpl', 'how', 'last', 'outer')

    def __init__(self, key, n, init, kind, sort, tmpl=None, outer=()):
        self.outer = outer      # counters of the enclosing loops
        self.key, self.n, self.init, self.kind, self.sort, self.tmpl = key, n, init, kind, sort, tmpl
        self.X = 'X%d.%s' % (next(_xn), '.'.join(key[1]) or str(key[0]))
        self.closed = None      # function k -> term
        self.how = None
        self.last = None        # function N -> term, when different from closed

    def gen(self, k):
        t = app(self.X, (k,) + tuple(AT[:self.n]) + self.outer, self.sort) if self.closed is None else self.closed(k)
        return self.wrap(t)

    def fin(self, N, Nmax):
        if self.closed is None:
            t = app(self.X, (Nmax,) + tuple(AT[:self.n]) + self.outer, self.sort)
        elif self.how == 'counter':
            t = self.closed(Nmax)
        else:
            t = self.closed(N)
        return self.wrap(t)

    def wrap(self, t):
        if self.kind == 'T':
            return t
        if self.kind == 'ptr':
            return Ptr(self.tmpl, t)
        return MapIt(self.tmpl, t)


def samev(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Ptr):
        return a.arr.same(b.arr) and a.off is b.off
    if isinstance(a, MapIt):
        return a.m.same(b.m) and a.pos is b.pos
    if isinstance(a, Null):
        return True
    if isinstance(a, PIte):
        return a.c is b.c and samev(a.a, b.a) and samev(a.b, b.b)
    return False


def split(v):
    """(kind, term, template)"""
    if isinstance(v, T):
        return 'T', v, None
    if isinstance(v, Ptr) and v.off is not None:
        return 'ptr', v.off, v.arr
    if isinstance(v, MapIt):
        return 'it', v.pos, v.m
    return None, None, None


def summarise(en, fr, node, st0, cnd, inc, body, lv):
    mark = next(_ser)
    k = fresh('k', 'I')
    cells = {}
    n0 = len(st0.pc)
    outer = tuple(en.loopks)
    save_obl = en.obl_on
    env0 = dict(fr.env)

    def islocal(key):
        return isinstance(key[0], int) and key[0] > mark

    def run(obl, N=None, before=()):
        fr.env = dict(env0)
        st = St(dict(st0.fams), st0.pc + (le(ZERO, k),) + ((lt(k, N),) if N is not None else ()) + before)
        for c in cells.values():
            st.fams[c.key] = c.gen(k)
        start = dict(st.fams)
        m0 = len(fr.exits)
        en.obl_on = obl and save_obl
        en.loopks = outer + (k,)
        try:
            c = en.cond(fr, cnd, st) if cnd is not None else TRUE
            if en.is_dead(st):
                raise Unsupported('loop condition throws')
            cst = dict(st.fams)
            if c is not TRUE and not (N is not None and en.o.check(c, st.pc)):
                st.pc = st.pc + (c,)
            nb = len(st.pc)
            s, brks = en.one_iter(fr, st, inc, body, lv)
            ex = fr.exits[m0:]
            del fr.exits[m0:]
        finally:
            en.obl_on = save_obl
            en.loopks = outer
        return c, nb, s, brks, ex, start

    def modified(fams, start):
        r = {}
        for key, v in fams.items():
            if islocal(key):
                continue
            o = start.get(key)
            if o is None:
                if isinstance(key[0], int) and key not in st0.fams:
                    # local declared outside but first written here
                    o = None
                else:
                    o = en.try_init(key, v)
            if samev(o, v):
                continue
            r[key] = (o, v)
        return r

    rounds = 0
    while True:
        rounds += 1
        if rounds > 12:
            raise Unsupported('loop does not stabilise')
        c, nb, s, brks, ex, start = run(False)
        if s is None and not cells:
            # the body always leaves the loop: at most one iteration
            return once(en, fr, st0, cnd, inc, body, lv)
        new = {}
        for src in ([s.fams] if s is not None else []) + [e.fams for e in brks] + [e.fams for e in ex]:
            for key, (o, v) in modified(src, start).items():
                if key not in cells:
                    new[key] = (o, v)
        added = False
        for key, (o, v) in new.items():
            kind, t, tmpl = split(v)
            if o is None:
                # uninitialised local: any value
                if kind is None:
                    raise Unsupported('loop modifies %s' % (key,))
                n = key[1].count('[]')
                o = v if kind != 'T' else app('undef.%s' % (en.famname(key)), AT[:n], v.s)
            ko, to, tmo = split(o)
            if kind is None or ko != kind:
                raise Unsupported('loop modifies pointer %s: %r -> %r' % (key, o, v))
            if kind == 'ptr' and not tmpl.same(tmo) or kind == 'it' and not tmpl.same(tmo):
                raise Unsupported('loop changes what %s points to' % (key,))
            n = key[1].count('[]')
            srt = 'R' if 'R' in (to.s, t.s) else to.s
            if srt == 'R':
                to = toreal(to)
            cell = Cell(key, n, to, kind, srt, tmo, outer)
            cells[key] = cell
            added = True
            # guess counters at once
            if n == 0 and srt in ('I', 'R'):
                d = sub(t, to)
                if d.op == 'num':
                    cell.closed = counter(to, d)
                    cell.how = 'counter'
        if added:
            continue
        # steps
        if s is None:
            raise Unsupported('body never completes')
        steps = {}
        bad = False
        for key, cell in cells.items():
            v = s.fams.get(key)
            kind, t, tmpl = split(v)
            if kind != cell.kind or (tmpl is not None and not tmpl.same(cell.tmpl)):
                raise Unsupported('loop changes the kind of %s' % (key,))
            if cell.sort == 'R':
                t = toreal(t)
            elif t.s == 'R':
                cell.sort, cell.init = 'R', toreal(cell.init)
                bad = True
            steps[key] = t
        if bad:
            continue
        # flags decided by the path condition of a completed iteration
        bn = {x.X for x in cells.values() if x.sort == 'B' and x.closed is None}
        if bn:
            from .prover import replace
            lits = {}
            for h in s.pc[n0:]:
                for l in (h.a if h.op == 'and' else (h,)):
                    if l.op == 'app':
                        lits[l] = TRUE
                    elif l.op == 'not' and l.a[0].op == 'app':
                        lits[l.a[0]] = FALSE
            if any(fns(l) & bn for l in lits):
                for key in steps:
                    steps[key] = replace(steps[key], lits)
        # wrong counter guesses
        for key, cell in cells.items():
            if cell.how == 'counter':
                want = cell.closed(add(k, ONE))
                if steps[key] is not want and not en.o.check(eq(steps[key], want), s.pc):
                    cell.closed, cell.how = None, None
                    bad = True
        if bad:
            continue
        # resolve others
        if any(x.closed is None for x in cells.values()):
            names = {x.X: x for x in cells.values() if x.closed is None}
            progress = False
            # the second time with conditions decided by the ranges of sums
            for again in (False, True):
                for key, cell in cells.items():
                    if cell.closed is not None:
                        continue
                    try:
                        x = narrow(steps[key]) if again else hoist(steps[key], cell.X)
                        if again and x is steps[key]:
                            continue
                        steps[key] = x
                        if cell.n:
                            steps[key] = alias(en, cell, steps[key], k, s.pc)
                        ok = solve(en, cell, steps[key], k, names, cells, steps, s.pc)
                    except Unsupported:
                        ok = False
                    if ok:
                        progress = True
                        if DEBUG[0]:
                            print('   loop', cell.X, cell.how)
                if progress:
                    break
            if progress:
                continue
            if DEBUG[0]:
                for key, cell in cells.items():
                    if cell.closed is None:
                        print('   UNSOLVED', cell.X, key, 'step', str(steps[key])[:1500])
        break
    # trip count
    stops = [(and_(*e.pc[nb:]), e) for e in brks] + [(and_(*e.pc[nb:]), e) for e in ex]
    N, Nmax, exact = trip(en, st0, c, k, cells)
    # final run, with obligations
    c2, nb, s, brks, ex, start = run(True, N, tuple(notyet(c, k) for c, e in stops))
    stops = [(and_(*e.pc[nb:]), e, True) for e in brks] + [(and_(*e.pc[nb:]), e, False) for e in ex]
    # induction check of the closed forms
    if save_obl:
        fn = fr.fn.get('name') if fr.fn else '?'
        for key, cell in cells.items():
            if cell.closed is None:
                continue
            kind, t, tmpl = split(s.fams[key])
            want = cell.closed(add(k, ONE))
            if t is want:
                en.obls.append((en.oname('loop invariant %s preserved' % nice(key)), TRUE, ()))
            else:
                en.invs.append((en.oname('loop invariant %s preserved' % nice(key)), want, t, tuple(s.pc), cell.n))
            z = cell.closed(ZERO)
            if z is cell.init:
                en.obls.append((en.oname('loop invariant %s initially' % nice(key)), TRUE, ()))
            else:
                en.invs.append((en.oname('loop invariant %s initially' % nice(key)), z, cell.init, tuple(st0.pc), cell.n))
    out = St(dict(st0.fams), st0.pc)
    for cell in cells.values():
        if cell.closed is None:
            st_ = split(s.fams[cell.key])[1]
            if cell.sort == 'R':
                st_ = toreal(st_)
            en.recdefs[cell.X] = (cell, k, st_, tuple(s.pc), N)
        out.fams[cell.key] = cell.fin(N, Nmax)
    # families first read inside the loop
    facts = []
    if exact is not None:
        facts += exact
    if not stops:
        out.pc = out.pc + tuple(facts)
        fr.env = env0
        return out
    g = or_(*[c for c, e, b in stops])
    anyg = bind('exists', ZERO, N, lambda t: subst(g, {k: t}))
    first = bind('amin', ZERO, N, lambda t: ite(subst(g, {k: t}), I(0), I(1)))
    sub_ = {k: first}
    base = (anyg, le(ZERO, first), lt(first, N),
            bind('forall', ZERO, first, lambda t: not_(subst(g, {k: t}))))
    fin = St(out.fams, st0.pc + (not_(anyg),) + tuple(facts))
    if en.o.check(not_(anyg), st0.pc):
        return fin
    for cnd_, e, isb in stops:
        pc = st0.pc + base + tuple(subst(x, sub_) for x in e.pc[n0:])
        fams = {}
        for key, v in e.fams.items():
            if islocal(key):
                continue
            fams[key] = substv(v, sub_)
        if isb:
            sb = St(fams, pc)
            # conditional on any stop; several kinds of stop: chosen by their guards
            gc = and_(anyg, subst(cnd_, sub_)) if len(stops) > 1 else anyg
            fin = en.merge_states(gc, sb, fin) if fin is not None else sb
        else:
            fr.exits.append(Exit(e.kind, pc, fams, substv(e.val, sub_), e.info))
            # the normal path excludes this stop (already in the facts of fin)
    fr.env = env0
    return fin


NARROW = {}


def narrow(t):
    """conditions of ite inside a binder that its range decides"""
    r = NARROW.get(t)
    if r is not None:
        return r
    todo = [x for x in _subt(t) if x.op in ('sum', 'forall', 'exists')]
    m = {}
    for x in todo:
        if any(y.op == 'ite' for y in _subt(x.a[2])) and not any(v.a[0][0] == '#' for v in fv(x)):
            y = narrow1(x)
            if y is not x:
                m[x] = y
    r = t
    if m:
        from .prover import replace
        # outermost first: they contain the others
        out = {x: y for x, y in m.items() if not any(z is not x and x in set(_subt(z)) for z in m)}
        r = replace(t, out)
    NARROW[t] = r
    return r


def narrow1(x):
    k = fresh('nr', 'I')
    lo, hi = x.a[0], x.a[1]
    tm.RANGE[k] = (lo, hi)
    b = open_(x, k)
    lits = {}
    for y in _subt(b):
        if y.op != 'ite':
            continue
        st = [y.a[0]]
        while st:
            l = st.pop()
            if l.op in ('and', 'or', 'not'):
                st.extend(l.a)
            elif l.op in ('le0', 'eq0') and l.a[0].s == 'I' and k in fv(l) and l not in lits:
                e = l.a[0]
                low, top = sub(lo, k), add(sub(k, hi), ONE)   # both <= 0 in the range

                def nonpos(e):
                    return any(d.op == 'num' and d.a[0] <= 0 for d in (sub(e, low), sub(e, top)))
                if l.op == 'le0' and nonpos(e):
                    lits[l] = TRUE
                elif l.op == 'le0' and isnum(lo, 0) and e is sub(ONE, k):
                    lits[l] = not_(eq(k, ZERO))
                elif l.op == 'le0' and nonpos(sub(ONE, e)) or l.op == 'eq0' and (nonpos(add(e, ONE)) or nonpos(sub(ONE, e))):
                    lits[l] = FALSE
    if lits:
        from .prover import replace
        b = replace(b, lits)
    b = merge_ites(narrow(b))
    return tm.close(x.op, lo, hi, k, b) if x.op != 'sum' else tm._sum(lo, hi, k, b)


def merge_ites(t):
    """ite(c, a, b) + ite(c, d, e) as ite(c, a + d, b + e)"""
    from .prover import replace
    m = {}
    for x in _subt(t):
        if x.op != 'poly' or x.s != 'R':
            continue
        by, rest = {}, []
        for mono, c in x.a:
            its = [a for a, p in mono if a.op == 'ite' and p == 1]
            if len(its) == 1 and len(mono) == 1:
                i = its[0]
                cc, a, b = i.a
                if not_(cc) in by:
                    cc, a, b = not_(cc), b, a
                co = num(c, 'R')
                by.setdefault(cc, []).append((mul(co, a), mul(co, b)))
            else:
                rest.append((mono, c))
        if any(len(v) > 1 for v in by.values()):
            y = _mk(dict(rest), 'R') if rest else num(0, 'R')
            for c, v in by.items():
                y = add(y, ite(c, add(*[a for a, b in v]), add(*[b for a, b in v])))
            m[x] = y
    if not m:
        return t
    out = {x: y for x, y in m.items() if not any(z is not x and x in set(_subt(z)) for z in m)}
    return replace(t, out)


def notyet(g, k):
    """no iteration before k left the loop (guard g): the instance at the only
    iteration that satisfies an equation of g"""
    cs = g.a if g.op == 'and' else (g,)
    for c in cs:
        if c.op == 'eq0' and c.a[0].s == 'I' and k in fv(c):
            e = _solve_eq(c, k)
            if e is not None and k not in fv(e):
                r = subst(and_(*[x for x in cs if x is not c]), {k: e})
                return not_(and_(le(ZERO, e), lt(e, k), r))
    return TRUE


def nice(key):
    r = key[0] if isinstance(key[0], str) else ''
    return r + '.'.join(key[1])


def counter(init, d):
    return lambda kk: add(init, mul(d, toreal(kk) if init.s == 'R' else kk))


def substv(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, Ptr):
        a = v.arr
        return Ptr(Place(a.root, a.path, tuple(subst(x, m) for x in a.idx), a.ty),
                   None if v.off is None else subst(v.off, m))
    if isinstance(v, MapIt):
        return MapIt(Place(v.m.root, v.m.path, tuple(subst(x, m) for x in v.m.idx), v.m.ty), subst(v.pos, m))
    if isinstance(v, Place):
        return Place(v.root, v.path, tuple(subst(x, m) for x in v.idx), v.ty)
    if isinstance(v, PIte):
        return PIte(subst(v.c, m), substv(v.a, m), substv(v.b, m))
    return v


def once(en, fr, st0, cnd, inc, body, lv):
    s1 = St(dict(st0.fams), st0.pc)
    c = en.cond(fr, cnd, s1) if cnd is not None else TRUE
    n0 = len(s1.pc)
    out = St(dict(s1.fams), s1.pc + (not_(c),)) if c is not TRUE else None
    s1.pc = s1.pc + (c,)
    s, brks = en.one_iter(fr, s1, inc, body, lv)
    for e in brks:
        sb = St(e.fams, e.pc)
        out = sb if out is None else en.merge_states(and_(*e.pc[n0:]), sb, out)
    return out


# ------------------------------------------------------------- trip count
def trip(en, st0, c, k, cells):
    """(N raw, N clipped at 0, facts)"""
    names = {x.X for x in cells.values() if x.closed is None}
    if c is TRUE:
        raise Unsupported('endless loop')
    lits = c.a if c.op == 'and' else (c,)
    bound = None
    rest = []
    for l in lits:
        b = None
        if not (fns(l) & names):
            b = bound_of(en, l, k, st0.pc)
        if b is None:
            rest.append(l)
        elif bound is None:
            bound = b
        else:
            bound = tmin(bound, b)
    # conditions that do not change from one iteration to the next
    fixed = [l for l in rest if bound is not None and k not in fv(l) and not (fns(l) & names)]
    rest = [l for l in rest if l not in fixed]
    if fixed:
        bound = ite(and_(*fixed), bound, ZERO)
    if rest:
        # data-dependent exit: N is the first iteration at which the condition fails
        if any(fns(l) & names for l in rest) or bound is None:
            N = fresh('N', 'I')
            if en.loopks:
                N = app(N.a[0], en.loopks, 'I')
            UINT_FN.add(N.a[0])
            cc = c
            facts = [le(ZERO, N), not_(subst(cc, {k: N})),
                     bind('forall', ZERO, N, lambda t: subst(cc, {k: t}))]
            en.trusted.add('termination of a data-dependent loop')
            return N, N, facts
        r = and_(*rest)
        if any(x.s == 'R' for x in _subt(r)):
            N = fresh('N', 'I')
            if en.loopks:
                N = app(N.a[0], en.loopks, 'I')
            UINT_FN.add(N.a[0])
            top = ite(le(ZERO, bound), bound, ZERO)
            facts = [le(ZERO, N), le(N, top), not_(subst(c, {k: N})),
                     bind('forall', ZERO, N, lambda t: subst(r, {k: t}))]
            return N, N, facts
        anyg = bind('exists', ZERO, bound, lambda t: not_(subst(r, {k: t})))
        first = bind('amin', ZERO, bound, lambda t: ite(subst(r, {k: t}), I(1), I(0)))
        N = ite(anyg, first, bound)
        bound = N
    en.curpc = st0.pc
    if en.o.check(le(ZERO, bound), st0.pc):
        return bound, bound, None
    if en.o.check(le(bound, ZERO), st0.pc):
        return ZERO, ZERO, None
    return bound, ite(le(ZERO, bound), bound, ZERO), None


def bound_of(en, l, k, pc):
    if l.op == 'le0' and l.a[0].s == 'I':
        d = _pd(l.a[0])
        a = d.get(((k, 1),))
        if a is None:
            return None
        r = _mk({m: c for m, c in d.items() if m != ((k, 1),)}, 'I')
        if k in fv(r):
            return None
        if a == 1:
            return sub(ONE, r)
        if a > 1:
            return add(fdiv(neg(r), I(a)), ONE)
        return None
    if l.op == 'not' and l.a[0].op == 'eq0':
        e = _solve_eq(l.a[0], k)
        if e is None:
            return None
        if en.o.check(le(ZERO, e), pc):
            return e
        raise Unsupported('loop until equal: bound may be negative')
    return None


# ------------------------------------------------------------- solving
def has(t, names):
    return bool(fns(t) & names.keys())


def delta(t, self_, names):
    """d with t == self_ + d, d free of unresolved symbols"""
    if t is self_:
        return num(0, t.s)
    if t.op == 'ite':
        if has(t.a[0], names):
            return None
        a = delta(t.a[1], self_, names)
        if a is None:
            return None
        b = delta(t.a[2], self_, names)
        if b is None:
            return None
        return ite(t.a[0], a, b)
    if t.op == 'poly':
        d = dict(t.a)
        m = ((self_, 1),)
        if d.get(m) != 1:
            return None
        r = _mk({x: c for x, c in d.items() if x != m}, t.s)
        if has(r, names):
            return None
        return r
    return None


def hoist(t, X, depth=0):
    """a sum with conditional reads of the own symbol X: conditions outside"""
    if t.op == 'ite' and X in fns(t):
        return ite(t.a[0], hoist(t.a[1], X, depth), hoist(t.a[2], X, depth))
    if t.op != 'poly' or X not in fns(t) or depth > 6:
        return t
    for m, c in t.a:
        for a, p in m:
            if a.op == 'ite' and X in fns(a):
                cnd = a.a[0]
                x = subst_ite(t, cnd, True)
                y = subst_ite(t, cnd, False)
                return ite(cnd, hoist(x, X, depth + 1), hoist(y, X, depth + 1))
    return t


def subst_ite(t, c, val):
    """top-level summands ite(c, a, b) of t -> a (or b)"""
    r = num(0, t.s)
    for m, co in t.a:
        x = num(co, t.s)
        for a, p in m:
            if a.op == 'ite' and a.a[0] is c:
                a = a.a[1] if val else a.a[2]
            for _ in range(p):
                x = mul(x, a)
        r = add(r, x)
    return r


def leafs(t, self_, names, pc=()):
    """decision leaves [(conds, leaf)] splitting only at conditions needed to
    separate leaves that are self_ from the others"""
    if t is self_:
        return [(pc, t)]
    if t.op == 'ite' and self_ in subterms(t) and not has(t.a[0], names):
        return leafs(t.a[1], self_, names, pc + (t.a[0],)) + leafs(t.a[2], self_, names, pc + (not_(t.a[0]),))
    return [(pc, t)]


def alias(en, cell, t, k, pc):
    """in branches where the cell written is known to be the cell read, read
    the cell itself"""
    self_ = app(cell.X, (k,) + tuple(AT[:cell.n]) + cell.outer, cell.sort)
    if t is self_ or cell.X not in fns(t):
        return t
    if t.op == 'ite':
        c, a, b = t.a

        def br(x, c):
            if x is self_ or cell.X not in fns(x):
                return x
            lits = [l for l in (c.a if c.op == 'and' else (c,)) if l.op == 'eq0' and l.a[0].s == 'I']
            m = {}
            for l in lits:
                for i in range(cell.n):
                    if AT[i] in fv(l) and AT[i] not in m:
                        e = _solve_eq(l, AT[i])
                        if e is not None and not (fv(e) & set(AT)):
                            m[AT[i]] = e
                            break
            if m:
                at = [m.get(v, v) for v in AT[:cell.n]]

                def rd(args):
                    kk, idx = args[0], tuple(args[1:])
                    if kk is k and tuple(idx[cell.n:]) == cell.outer and all(p is q for p, q in zip(idx, at)):
                        return self_
                    return app(cell.X, (kk,) + idx, cell.sort)
                x = subst(x, {}, {cell.X: rd})
            return alias(en, cell, x, k, pc)
        return ite(c, br(a, c), br(b, not_(c)))
    return t


def _subt(t):
    return subterms(t)


_sb = {}


def subterms(t):
    r = _sb.get(t)
    if r is None:
        out = {t}
        for x in kids(t):
            out |= subterms(x)
        r = _sb[t] = frozenset(out)
    return r


def solve_k(en, C, k, pc):
    """the only t with C(t): (t*, remaining condition at t*) or None"""
    cs = C.a if C.op == 'and' else (C,)
    for c in cs:
        if c.op == 'eq0' and c.a[0].s == 'I' and k in fv(c):
            d = _pd(c.a[0])
            co = d.get(((k, 1),))
            if co is None or co.denominator != 1 or any(k in fv(a) for m in d if m != ((k, 1),) for a, p in m):
                # symbolic coefficient: k * w + r == 0
                r = _symlin(d, k)
                if r is not None:
                    w, rest = r
                    if en.o.check(lt(ZERO, w), pc):
                        t = fdiv(neg(rest), w)
                        return t, and_(subst(and_(*cs), {k: t}))
                    if en.o.check(lt(w, ZERO), pc):
                        t = fdiv(rest, neg(w))
                        return t, and_(subst(and_(*cs), {k: t}))
                continue
            rest = _mk({m: v for m, v in d.items() if m != ((k, 1),)}, 'I')
            if k in fv(rest):
                continue
            if abs(co) == 1:
                t = neg(rest) if co == 1 else rest
                return t, subst(and_(*[x for x in cs if x is not c]), {k: t})
            t = fdiv(neg(rest) if co > 0 else rest, I(abs(co)))
            return t, subst(and_(*cs), {k: t})
    # interval: lo(k) <= x < lo(k) + w(k)
    los, his = [], []
    for c in cs:
        if c.op == 'le0' and c.a[0].s == 'I' and k in fv(c):
            for a in c.a[0].op == 'poly' and [m[0][0] for m, v in c.a[0].a if len(m) == 1 and m[0][1] == 1 and
                                              m[0][0].op == 'var' and m[0][0].a[0][0] == '@'] or []:
                d = _pd(c.a[0])
                v = d.get(((a, 1),))
                r = _mk({m: x for m, x in d.items() if m != ((a, 1),)}, 'I')
                if a in fv(r):
                    continue
                if v == -1:
                    los.append((a, r, c))           # r <= a
                elif v == 1:
                    his.append((a, sub(ONE, r), c))      # a < 1 - r
    for a, lo, c1 in los:
        for b, hi, c2 in his:
            if a is not b:
                continue
            w = sub(hi, lo)
            if k not in fv(w):
                # lo(k) = w*k + c
                c0 = sub(lo, mul(w, k))
                if k not in fv(c0):
                    t = fdiv(sub(a, c0), w)
                    pos = lt(ZERO, w)
                    rest = and_(*[x for x in cs if x is not c1 and x is not c2])
                    return t, and_(pos, subst(rest, {k: t}))
                # lo(k) = s*k + c0 with a stride s not smaller than w
                sl = _symlin(_pd(lo), k)
                if sl is not None and en.o.check(and_(lt(ZERO, sl[0]), le(w, sl[0])), pc):
                    t = fdiv(sub(a, sl[1]), sl[0])
                    return t, subst(and_(*cs), {k: t})
            else:
                # ragged: lo(k+1) == lo(k) + w(k)
                if subst(lo, {k: add(k, ONE)}) is hi:
                    for m, co in _pd(lo).items():
                        if len(m) == 1 and m[0][1] == 1 and co == 1 and m[0][0].op == 'sum' and m[0][0].a[1] is k:
                            S = m[0][0]
                            off = sub(lo, S)
                            if k in fv(off):
                                continue
                            t = rag(S, sub(a, off))
                            return None
    return None


def _symlin(d, k):
    """polynomial linear in k with symbolic coefficient"""
    w, r = {}, {}
    for m, c in d.items():
        md = dict(m)
        if k in md:
            if md[k] != 1:
                return None
            mm = tuple((a, p) for a, p in m if a is not k)
            if any(k in fv(a) for a, p in mm):
                return None
            w[mm] = w.get(mm, 0) + c
        else:
            if any(k in fv(a) for a, p in m):
                return None
            r[m] = c
    if not w:
        return None
    return _mk(w, 'I'), _mk(r, 'I')


def invlits(t, k, names):
    """conditions of ite subterms (outside binders) that no iteration changes"""
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x in seen or x.op in tm.BINDERS:
            continue
        seen.add(x)
        if x.op == 'ite':
            c = x.a[0]
            for l in (c.a if c.op in ('and', 'or') else (c,)):
                l = l.a[0] if l.op == 'not' else l
                if k not in fv(l) and not has(l, names) and l not in out and not_(l) not in out and \
                        l.op in ('le0', 'lt0', 'eq0', 'app'):
                    out.append(l)
        st.extend(kids(x))
    return out


def nest(t, en=None, path=(), pc=()):
    """conditions already decided by the enclosing ones replaced"""
    m, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if x in seen or x.op in tm.BINDERS:
            continue
        seen.add(x)
        if x.op == 'ite':
            c, a, b = x.a
            n = not_(c)
            pa = c.a if c.op == 'and' else (c,)
            pb = n.a if n.op == 'and' else (n,)
            pai, pbi = tuple(l for l in pa if isint(l)), tuple(l for l in pb if isint(l))
            y = None
            if en is not None and path and isint(c) and any(v.a[0][0] == '@' for h in path + (c,) for v in fv(h)):
                if en.o.check(c, path + pc):
                    y = nest(a, en, path, pc)
                elif en.o.check(n, path + pc):
                    y = nest(b, en, path, pc)
            if y is None:
                y = ite(c, nest(tm.simp_under(a, pa), en, path + pai, pc), nest(tm.simp_under(b, pb), en, path + pbi, pc))
            if y is not x:
                m[x] = y
            continue
        st.extend(kids(x))
    if not m:
        return t
    from .prover import replace
    return replace(t, m)


def solve(en, cell, step, k, names, cells, steps, pc, depth=0):
    """closed form of the cell; case split on conditions the loop leaves alone"""
    if not depth:
        step = nest(step, en, (), tuple(h for h in pc if isint(h)))
    try:
        if solve1(en, cell, step, k, names, cells, steps, pc):
            return True
    except Unsupported:
        pass
    if DEBUG[0] and depth:
        print('    case', depth, [str(h) for h in pc[-depth:]], str(step)[:1200])
    if depth > 3 or not has(step, names) or cell.sort == 'B':
        return False
    self_ = app(cell.X, (k,) + tuple(AT[:cell.n]) + cell.outer, cell.sort)
    for l in invlits(step, k, names)[:4]:
        fs = []
        for x in (l, not_(l)):
            y = prune(en, tm.simp_under(step, (x,)), (x,), tuple(h for h in pc if isint(h)))
            if y is self_:
                fs.append(lambda K: cell.init)
                continue
            sv = (cell.closed, cell.how)
            steps2 = {kk: z if z is None else tm.simp_under(z, (x,)) for kk, z in steps.items()}
            steps2[cell.key] = y
            inits = {kk: z.init for kk, z in cells.items()}
            for kk, z in cells.items():
                if isinstance(z.init, T):
                    z.init = tm.simp_under(z.init, (x,))
            ok = solve(en, cell, y, k, names, cells, steps2, pc + (x,), depth + 1) and cell.how != 'counter'
            for kk, z in cells.items():
                z.init = inits[kk]
            if not ok:
                cell.closed, cell.how = sv
                fs = None
                break
            fs.append(cell.closed)
            cell.closed, cell.how = sv
        if fs:
            f, g = fs
            cell.closed = lambda K: ite(l, f(K), g(K))
            cell.how = 'cases'
            return True
    return False


def prune(en, t, path, pc, depth=0):
    """t with the ite conditions decided by the path replaced"""
    seen, todo = set(), [t]
    m = {}
    while todo:
        x = todo.pop()
        if x in seen or x.op in tm.BINDERS:
            continue
        seen.add(x)
        if x.op == 'ite':
            for l in (x.a[0].a if x.a[0].op in ('and', 'or') else (x.a[0],)):
                if l in m or not isint(l) or not any(v.a[0][0] == '@' for v in fv(l)):
                    continue
                if en.o.check(l, path + pc):
                    m[l] = TRUE
                elif en.o.check(not_(l), path + pc):
                    m[l] = FALSE
        todo.extend(kids(x))
    if m:
        from .prover import replace
        t = replace(t, m)
    return t


def solve1(en, cell, step, k, names, cells, steps, pc):
    self_ = app(cell.X, (k,) + tuple(AT[:cell.n]) + cell.outer, cell.sort)
    init = cell.init
    own = {cell.X: cell}
    # plain overwrite with a value free of unresolved symbols
    if not has(step, names):
        cell.closed = lambda K, step=step: ite(le(K, ZERO), init, subst(step, {k: sub(K, ONE)}))
        cell.how = 'last'
        return True
    if cell.sort != 'B':
        d = delta(step, self_, names)
        if d is not None:
            if cell.sort in ('I', 'R') and cell.n == 0 and d.op == 'num':
                cell.closed, cell.how = counter(init, d), 'counter'
                return True
            if cell.n and d.op in ('ite', 'poly'):
                fs = blocks(en, d, k, pc)
                if fs is not None:
                    def closed(K, fs=fs):
                        r = init
                        for t, rest, v in fs:
                            if t is None:
                                r = add(r, close('sum', ZERO, K, k, ite(rest, v, num(0, v.s))))
                                continue
                            r = add(r, ite(and_(le(ZERO, t), lt(t, K), rest), subst(v, {k: t}), num(0, v.s)))
                        return r
                    cell.closed, cell.how = closed, 'sum at one index'
                    return True
            if DEBUG[0]:
                print('   delta', cell.X, str(k), str(d)[:600])
            cell.closed = lambda K, d=d: add(init, close('sum', ZERO, K, k, d))
            cell.how = 'sum'
            return True
        # product
        f = factor(step, self_, names)
        if f is not None and k not in fv(f) or f is not None and not f.op == 'ite':
            cell.closed = lambda K, f=f: mul(init, close('prod', ZERO, K, k, f))
            cell.how = 'prod'
            return True
        if extremum(en, cell, step, self_, k, names, cells, steps):
            return True
    else:
        if step.op == 'or' and self_ in step.a:
            c = or_(*[x for x in step.a if x is not self_])
            if not has(c, names):
                cell.closed = lambda K, c=c: or_(init, close('exists', ZERO, K, k, c))
                cell.how = 'exists'
                return True
        if step.op == 'and' and self_ in step.a:
            c = and_(*[x for x in step.a if x is not self_])
            if not has(c, names):
                cell.closed = lambda K, c=c: and_(init, close('forall', ZERO, K, k, c))
                cell.how = 'forall'
                return True
    # overwrite of cells selected by the iteration
    ls = leafs(step, self_, names)
    wr = [(cs, v) for cs, v in ls if v is not self_]
    if not wr or len(wr) > 12:
        return False
    sols = []
    weak = []

    def places(t, cs):
        """conditions (free of unresolved symbols) under which t is not self"""
        if t is self_:
            return
        if t.op == 'ite':
            places(t.a[1], cs + conj(t.a[0]))
            places(t.a[2], cs + conj(not_(t.a[0])))
        else:
            weak.append(and_(*[c for c in cs if not has(c, names)]))

    def conj(c):
        return c.a if c.op == 'and' else (c,)
    if any(cell.X in fns(c) for cs, v in wr for c in cs) or any(v.op == 'ite' for cs, v in wr):
        places(step, ())
        s2 = unwritten(en, cell, k, weak, TRUE, step, pc)
        if s2 is not step:
            step = s2
            ls = leafs(step, self_, names)
            wr = [(cs, v) for cs, v in ls if v is not self_]
            if not wr:
                return False
    conds = [and_(*cs) for cs, v in wr]
    if not any(has(C, names) for C in conds) and any(cell.X in fns(v) for cs, v in wr):
        wr = [(cs, unwritten(en, cell, k, conds, and_(*cs), v, pc)) for cs, v in wr]
    for cs, v in wr:
        C = and_(*cs)
        if C is FALSE:
            continue
        if has(C, names):
            return False
        # own cell only
        others = {x: y for x, y in names.items() if x != cell.X}
        if has(v, others):
            return False
        if has(v, own):
            vv = subst(v, {}, {cell.X: lambda a: init_at(cell, a, k)})
            if vv is None or has(vv, own):
                return False
            v2 = vv
            selfread = True
        else:
            v2 = v
            selfread = False
        for D in disjuncts(C):
            if k not in fv(D):
                if selfread:
                    return False
                sols.append((sub_last, D, v2, D))
                continue
            r = solve_k(en, D, k, pc)
            if r is None:
                return False
            t, rest = r
            sols.append((t, rest, v2, D))
    # cells written at most once, or the last write wins
    for i in range(len(sols)):
        for j in range(i):
            ti, tj = sols[i][0], sols[j][0]
            if ti is sub_last and tj is sub_last or ti is tj:
                continue
            if ti is sub_last or tj is sub_last:
                return False
            # facts of the two iterations
            ki = tuple(subst(h, {k: ti}) for h in pc if k in fv(h) and isint(h)) + tuple(subst(h, {k: tj}) for h in pc if k in fv(h) and isint(h))
            if not en.o.check(not_(and_(sols[i][1], sols[j][1], ne(ti, tj), le(ZERO, ti), le(ZERO, tj))),
                              tuple(h for h in pc if k not in fv(h)) + ki):
                return False

    def closed(K):
        r = init
        for t, rest, v, D in reversed(sols):
            tt = sub(K, ONE) if t is sub_last else t
            cond = and_(le(ZERO, tt), lt(tt, K), rest if t is not sub_last else subst(rest, {k: tt}))
            if cond is FALSE:
                continue
            r = ite(cond, subst(v, {k: tt}), r)
        return r
    cell.closed = closed
    cell.how = 'write'
    return True


sub_last = object()


class _Bad(Exception):
    pass


def blocks(en, d, k, pc):
    """sum over k of d, as a list of addends (t, rest, value) contributing for
    the only iteration t, and (None, cond, value) contributing for all; None if
    there are none of the first kind"""
    out = []

    def go(t, cs):
        if isnum(t, 0):
            return
        if t.op == 'ite' and (k in fv(t.a[0]) or isnum(t.a[1], 0) or isnum(t.a[2], 0) or t.a[1].op == 'ite' or t.a[2].op == 'ite'):
            branch(t.a[0], t.a[1], t.a[2], cs)
            return
        if cs and leaf(t, cs, True):
            return
        if t.op == 'ite':
            branch(t.a[0], t.a[1], t.a[2], cs)
            return
        if t.op == 'poly':
            ps = []
            for m, c in t.a:
                x = next((a for a, p in m if a.op == 'ite' and p == 1), None)
                ps.append((m, c, x))
            if any(x is not None for m, c, x in ps):
                plain = {m: c for m, c, x in ps if x is None}
                if plain:
                    leaf(_mk(plain, t.s), cs)
                for m, c, x in ps:
                    if x is not None:
                        rest = _mk({tuple(y for y in m if y[0] is not x): c}, t.s)
                        branch(x.a[0], mul(rest, x.a[1]), mul(rest, x.a[2]), cs)
                return
        leaf(t, cs)

    def branch(c, a, b, cs):
        n = not_(c)
        h = tuple(pc) + cs
        if not isnum(a, 0) and not en.o.check(n, h):
            go(a, cs + (c,))
        if not isnum(b, 0) and not en.o.check(c, h):
            go(b, cs + (n,))

    def leaf(t, cs, must=False):
        C = and_(*cs)
        if C is FALSE:
            return True
        try:
            r = solve_k(en, C, k, pc) if k in fv(C) else None
        except Unsupported:
            r = None
        if must and r is None:
            return False
        out.append((r[0], r[1], t) if r is not None else (None, C, t))
        return True
    go(d, ())
    if len(out) > 12:
        return None
    return out if out and all(t is not None for t, c, v in out) else None


def unwritten(en, cell, k, conds, C, v, pc):
    """reads of the own cell at places that no earlier iteration has written:
    initial values"""
    j = fresh('k', 'I')
    memo = {}

    def rd(args):
        args = tuple(args)
        idx = args[1:1 + cell.n]
        if args[0] is not k or any(cell.X in fns(a) for a in idx) or args[1 + cell.n:] != cell.outer:
            return app(cell.X, args, cell.sort)
        if all(a is b for a, b in zip(idx, AT)):
            return app(cell.X, args, cell.sort)
        if args not in memo:
            m = dict(zip(AT, idx))
            m[k] = j
            # ranges of the variables bound around the access
            h, todo, seen = (), [x for a in idx for x in fv(a)], set()
            while todo:
                x = todo.pop()
                if x not in seen and x in tm.RANGE:
                    seen.add(x)
                    lo, hi = tm.RANGE[x]
                    h += (le(lo, x), lt(x, hi))
                    todo += list(fv(lo) | fv(hi))
            ok = all(en.o.check(not_(subst(D, m)), tuple(pc) + h + (C, le(ZERO, j), lt(j, k))) for D in conds)
            memo[args] = subst(cell.init, dict(zip(AT, idx))) if ok else app(cell.X, args, cell.sort)
        return memo[args]
    return subst(v, {}, {cell.X: rd})


def init_at(cell, args, k):
    """value of the own cell before its only write: its initial value, when the
    access is the cell itself"""
    if args[0] is k and all(a is b for a, b in zip(args[1:1 + cell.n], AT)) and tuple(args[1 + cell.n:]) == cell.outer:
        return cell.init
    return app(cell.X, args, cell.sort)


def disjuncts(C, lim=8):
    """DNF of C (limited)"""
    cs = C.a if C.op == 'and' else (C,)
    res = [()]
    for c in cs:
        if c.op == 'or':
            # keep disjunctions that do not select cells
            if not any(v.a[0][0] == '@' for v in fv(c)):
                res = [r + (c,) for r in res]
                continue
            res = [r + (x,) for r in res for x in c.a]
            if len(res) > lim:
                raise Unsupported('too many disjuncts')
        else:
            res = [r + (c,) for r in res]
    return [and_(*r) for r in res if and_(*r) is not FALSE]


def factor(t, self_, names):
    if t is self_:
        return num(1, t.s)
    if t.op == 'ite':
        if has(t.a[0], names):
            return None
        a, b = factor(t.a[1], self_, names), factor(t.a[2], self_, names)
        if a is None or b is None:
            return None
        return ite(t.a[0], a, b)
    if t.op == 'poly' and len(t.a) == 1:
        m, c = t.a[0]
        md = dict(m)
        if md.get(self_) != 1:
            return None
        r = _mk({tuple((a, p) for a, p in m if a is not self_): c}, t.s)
        return None if has(r, names) else r
    return None


def extremum(en, cell, step, self_, k, names, cells, steps):
    """running minimum / maximum, with its argument"""
    if step.op != 'ite':
        return False
    c, a, b = step.a
    # in the cells that satisfy a condition only
    if k not in fv(c) and not has(c, names) and (a is self_ or b is self_):
        g, inner = (c, a) if b is self_ else (not_(c), b)
        if inner.op == 'ite' and extremum(en, cell, inner, self_, k, names, cells, 
                                          {**steps, cell.key: inner}):
            f = cell.closed
            cell.closed = lambda K: ite(g, f(K), cell.init)
            return True
    if b is not self_:
        if a is not self_:
            return False
        c, a, b = not_(c), b, a
    while a.op == 'ite' and self_ in a.a[1:]:
        c2, a2, b2 = a.a
        if b2 is not self_:
            c2, a2 = not_(c2), b2
        c, a = and_(c, c2), a2
    # iterations that do not take part count as the initial value
    if c.op == 'and':
        gs = [x for x in c.a if not has(x, names)]
        rest = and_(*[x for x in c.a if has(x, names)])
        if any(v.a[0][0] == '@' for x in gs for v in fv(x)):
            return False        # selects the cell that is written
        if gs and rest.op in ('le0', 'lt0') and not has(a, names):
            a2 = ite(and_(*gs), a, cell.init)
            for x in (lt(self_, a), le(self_, a), lt(a, self_), le(a, self_)):
                if rest is x:
                    op = lt if x.op == 'lt0' else le
                    up = rest is op(self_, a)
                    inner = ite(op(self_, a2) if up else op(a2, self_), a2, self_)
                    return inner.op == 'ite' and extremum(en, cell, inner, self_, k, names, cells, {**steps, cell.key: inner})
    # c -> a, else self
    lits = list(c.a) if c.op == 'or' else [c]
    first0 = eq(k, ZERO)
    f0 = first0 in lits
    if f0:
        lits.remove(first0)
    if len(lits) != 1:
        return False
    l = lits[0]
    # l compares the leader with a value; leader may be this cell or another
    for key2, lead in cells.items():
        if lead.closed is not None and not (lead.how == 'ext'):
            continue
        lself = app(lead.X, (k,) + tuple(AT[:lead.n]) + lead.outer, lead.sort)
        st = steps[key2]
        if st.op != 'ite':
            continue
        c2, a2, b2 = st.a
        if b2 is not lself:
            if a2 is not lself:
                continue
            c2, a2, b2 = not_(c2), b2, a2
        if c2 is not c or has(a2, names):
            continue
        if l is lt(lself, a2):
            kind, strict = 'max', True
        elif l is le(lself, a2):
            kind, strict = 'max', False
        elif l is lt(a2, lself):
            kind, strict = 'min', True
        elif l is le(a2, lself):
            kind, strict = 'min', False
        else:
            continue
        if has(a, names):
            return False
        init2 = lead.init
        v = a2
        ext = 'maxof' if kind == 'max' else 'minof'
        arg = 'amax' if kind == 'max' else 'amin'
        if lead.n != cell.n:
            return False
        better = (lambda x, y: lt(y, x) if strict else le(y, x)) if kind == 'max' else \
            (lambda x, y: lt(x, y) if strict else le(x, y))
        shift = not f0 and subst(v, {k: I(-1)}) is init2
        if cell is lead:
            if f0:
                cell.closed = lambda K: ite(le(K, ZERO), init2, close(ext, ZERO, K, k, v))
            elif shift:
                cell.closed = lambda K: close(ext, ZERO, add(K, ONE), k, subst(v, {k: sub(k, ONE)}))
            else:
                def cl(K):
                    m = close(ext, ZERO, K, k, v)
                    return ite(le(K, ZERO), init2, ite(better(m, init2), m, init2))
                cell.closed = cl
            cell.how = 'ext'
            return True
        if not strict:
            return False
        if f0:
            cell.closed = lambda K: ite(le(K, ZERO), cell.init, subst(a, {k: close(arg, ZERO, K, k, v)}))
        elif shift and subst(a, {k: I(-1)}) is cell.init:
            cell.closed = lambda K: subst(a, {k: sub(close(arg, ZERO, add(K, ONE), k, subst(v, {k: sub(k, ONE)})), ONE)})
        else:
            def cl2(K):
                m = close(ext, ZERO, K, k, v)
                return ite(le(K, ZERO), cell.init,
                           ite(better(m, init2), subst(a, {k: close(arg, ZERO, K, k, v)}), cell.init))
            cell.closed = cl2
        cell.how = 'arg'
        return True
    return False
