"""Discharging obligations: contextual simplification, prenex normal form of
sums, case splits, z3 (and cvc5) for the rest; numeric refutation."""
import time, itertools, random, math
from fractions import Fraction
import z3
from .term import *
from .term import _pd, _mk, _mul, _add, simp_under
from . import term as tm
from .oracle import Oracle, STATS, UINT_FN, POSR, side, atomset, isint

BACK = {'normal form': 0, 'z3': 0, 'cvc5': 0, 'case split': 0}


class Timeout(Exception):
    pass


EXT = ('minof', 'maxof', 'amin', 'amax')


def extfacts(ts):
    """defining facts of the minima / maxima (and their first places) in ts"""
    out, done = [], set()
    todo = list(ts)
    while todo and len(out) < 80:
        t = todo.pop()
        if not hasext(t):
            continue
        for e in subterms(t):
            if e.op not in EXT or e in done or any(v.a[0][0] == '#' for v in fv(e)):
                continue
            done.add(e)
            lo, hi = e.a[0], e.a[1]
            k = fresh('u', 'I')
            RANGE[k] = (lo, hi)
            v = open_(e, k)
            mn = e.op in ('minof', 'amin')
            m = tm.close('minof' if mn else 'maxof', lo, hi, k, v)
            w = tm.close('amin' if mn else 'amax', lo, hi, k, v)
            if m.op not in EXT or w.op not in EXT:
                continue
            done |= {m, w}
            none = le(hi, lo)
            at = subst(v, {k: w})
            fs = [close('forall', lo, hi, k, le(m, v) if mn else le(v, m)),
                  or_(none, and_(le(lo, w), lt(w, hi), eq(at, m))),
                  or_(none, le(m, subst(v, {k: lo})) if mn else le(subst(v, {k: lo}), m)),
                  or_(none, close('forall', lo, w, k, lt(m, v) if mn else lt(v, m)))]
            for f in fs:
                if f is not TRUE:
                    out.append(f)
            todo.append(at)
    return out


def hasext(t):
    r = _he.get(t)
    if r is None:
        r = _he[t] = t.op in EXT or any(hasext(x) for x in kids(t))
    return r


_he = {}


class Prover:
    def __init__(self, oracle, budget=20.0, facts=None):
        self.o = oracle
        self.budget = budget
        self.deadline = 0
        self.solver_s = 0.0
        self.last = None
        self.failed = set()
        self.facts = facts      # callable(list of terms) -> extra hypotheses

    # ---------------------------------------------------------- simplify
    def simp(self, t, hyps):
        """contextual simplification: conditions of ite and literals decided"""
        memo = {}
        hset = set(hyps)

        def dec(c):
            return self.o.decide(c, hyps)

        def go(t):
            if time.time() > self.deadline:
                raise Timeout()
            r = memo.get(t)
            if r is not None:
                return r
            r = go1(t)
            if t.s == 'R' and r.s != 'R':
                r = toreal(r)
            memo[t] = r
            return r

        def go1(t):
            o = t.op
            if o in ('num', 'var', 'true', 'false'):
                return t
            if t.s == 'B' and o in ('le0', 'lt0', 'eq0', 'not', 'app'):
                if t in hset:
                    return TRUE
                if not_(t) in hset:
                    return FALSE
            if o == 'ite':
                c = go(t.a[0])
                d = dec(c) if c not in (TRUE, FALSE) else c is TRUE
                if d is True:
                    return go(t.a[1])
                if d is False:
                    return go(t.a[2])
                a = self.simp(t.a[1], hyps + (c,)) if needs(t.a[1]) else t.a[1]
                b = self.simp(t.a[2], hyps + (not_(c),)) if needs(t.a[2]) else t.a[2]
                return ite(c, a, b)
            if o in BINDERS:
                lo, hi = go(t.a[0]), go(t.a[1])
                if self.o.decide(le(hi, lo), hyps) is True:
                    if o == 'sum':
                        return num(0, t.s)
                    if o == 'prod':
                        return num(1, t.s)
                    if o == 'forall':
                        return TRUE
                    if o == 'exists':
                        return FALSE
                k = fresh('k', 'I')
                RANGE[k] = (lo, hi)
                body = self.simp(open_(t, k), hyps + (le(lo, k), lt(k, hi)))
                return close(o, lo, hi, k, body)
            if o == 'poly':
                r = num(0, t.s)
                for m, c in t.a:
                    x = num(c, t.s)
                    for a, p in m:
                        b = go(a)
                        for _ in range(p):
                            x = _mul(x, b)
                    r = _add(r, x)
                return r
            ks = [go(x) if isinstance(x, T) else x for x in kids(t)]
            if o == 'app':
                return app(t.a[0], ks, t.s)
            if o == 'and':
                r = and_(*ks)
            elif o == 'or':
                r = or_(*ks)
            elif o == 'not':
                r = not_(ks[0])
            elif o == 'le0':
                r = le(ks[0], num(0, ks[0].s))
            elif o == 'lt0':
                r = lt(ks[0], num(0, ks[0].s))
            elif o == 'eq0':
                r = eq(ks[0], num(0, ks[0].s))
            elif o == 'inv':
                return inv(ks[0])
            elif o == 'i2r':
                return toreal(ks[0])
            elif o == 'idiv':
                return idiv(*ks)
            elif o == 'imod':
                return imod(*ks)
            elif o == 'fdiv':
                return self.fdiv(ks[0], ks[1], hyps)
            elif o == 'rag':
                return rag(*ks)
            else:
                return mk(o, tuple(ks), t.s)
            if r not in (TRUE, FALSE) and isint(r):
                d = dec(r)
                if d is not None:
                    return B(d)
            return r
        return go(t)

    def fdiv(self, a, b, hyps):
        t = fdiv(a, b)
        if t.op == 'fdiv':
            a, b = t.a
            if self.o.check(and_(le(ZERO, a), lt(a, b)), hyps):
                return ZERO
            if self.o.check(and_(le(neg(b), a), lt(a, ZERO)), hyps):
                return I(-1)
            # quotients that occur as factors of the divisor
            if b.op != 'num':
                bs = {x for m, c in _pd(b).items() for x, p in m}
                cand = []
                for h in hyps:
                    if h.op in ('le0', 'eq0') and h.a[0].op == 'poly' and h.a[0].s == 'I':
                        for m, c in h.a[0].a:
                            fs = [x for x, p in m for _ in range(p)]
                            if len(fs) == 2:
                                for w, q in ((fs[0], fs[1]), (fs[1], fs[0])):
                                    if w in bs and q not in cand and q is not t:
                                        cand.append(q)
                for q in cand[:6]:
                    bq = mul(b, q)
                    if self.o.check(and_(le(bq, a), lt(a, add(bq, b))), hyps):
                        return q
        elif t.op == 'poly':
            # q + fdiv(r, b)
            r = ZERO
            for m, c in t.a:
                x = num(c, 'I')
                for at, p in m:
                    y = at
                    if at.op == 'fdiv':
                        aa, bb = at.a
                        if self.o.check(and_(le(ZERO, aa), lt(aa, bb)), hyps):
                            y = ZERO
                    for _ in range(p):
                        x = mul(x, y)
                r = add(r, x)
            return r
        return t

    # --------------------------------------------------- prenex normal form
    def prenex(self, t):
        """sums distributed outwards, canonical order of binders"""
        memo = {}

        def go(t):
            if time.time() > self.deadline:
                raise Timeout()
            r = memo.get(t)
            if r is None:
                r = memo[t] = go1(t)
                if t.s == 'R' and r.s != 'R':
                    r = memo[t] = toreal(r)
            return r

        def go1(t):
            o = t.op
            if o in ('num', 'var', 'true', 'false'):
                return t
            if o == 'poly' or o == 'sum':
                ms = self.flat(t, go)
                return self.unflat(ms, t.s)
            if o in BINDERS:
                k = fresh('k', 'I')
                lo, hi = go(t.a[0]), go(t.a[1])
                RANGE[k] = (lo, hi)
                return close(o, lo, hi, k, go(open_(t, k)))
            ks = [go(x) if isinstance(x, T) else x for x in kids(t)]
            if o == 'ite':
                return ite(*ks)
            if o == 'app':
                return app(t.a[0], ks, t.s)
            if o == 'and':
                return and_(*ks)
            if o == 'or':
                return or_(*ks)
            if o == 'not':
                return not_(ks[0])
            if o == 'le0':
                return le(ks[0], num(0, ks[0].s))
            if o == 'lt0':
                return lt(ks[0], num(0, ks[0].s))
            if o == 'eq0':
                return eq(ks[0], num(0, ks[0].s))
            if o == 'inv':
                return inv(ks[0])
            if o == 'i2r':
                return toreal(ks[0])
            if o == 'fdiv':
                return fdiv(*ks)
            if o == 'idiv':
                return idiv(*ks)
            if o == 'imod':
                return imod(*ks)
            return mk(o, tuple(ks), t.s)
        return go(t)

    def flat(self, t, go, depth=0):
        """[(binders [(var, lo, hi)], monomial {atom: power}, coef)]"""
        out = []
        for m, c in _pd(t).items():
            parts = [([], {}, c)]
            for a, p in m:
                if a.op == 'sum':
                    for _ in range(p):
                        k = fresh('k', 'I')
                        lo, hi = a.a[0], a.a[1]
                        RANGE[k] = (lo, hi)
                        inner = self.flat(open_(a, k), go, depth + 1)
                        parts = [(b1 + [(k, go(lo), go(hi))] + b2, mm(m1, m2), c1 * c2)
                                 for b1, m1, c1 in parts for b2, m2, c2 in inner]
                elif a.op == 'i2r' and a.a[0].op == 'sum':
                    b = toreal(a.a[0])
                    inner = self.flat(b, go, depth + 1)
                    for _ in range(p):
                        parts = [(b1 + b2, mm(m1, m2), c1 * c2) for b1, m1, c1 in parts for b2, m2, c2 in inner]
                elif a.op == 'ite' and (isnum(a.a[1], 0) or isnum(a.a[2], 0)) and depth:
                    # guard * poly: distribute the guard over the sum
                    g, x = (a.a[0], a.a[1]) if isnum(a.a[2], 0) else (not_(a.a[0]), a.a[2])
                    inner = self.flat(x, go, depth + 1)
                    gi = ite(go(g), num(1, t.s), num(0, t.s))
                    for _ in range(p):
                        parts = [(b1 + b2, mm(m1, mm(m2, {gi: 1})), c1 * c2) for b1, m1, c1 in parts for b2, m2, c2 in inner]
                else:
                    a2 = go(a)
                    if a2.op == 'poly' or a2.op == 'num':
                        for _ in range(p):
                            parts = [(b1, mm(m1, dict(m2)), c1 * c2) for b1, m1, c1 in parts for m2, c2 in _pd(a2).items()]
                    else:
                        parts = [(b1, mm(m1, {a2: p}), c1) for b1, m1, c1 in parts]
            if len(parts) > 400:
                raise Timeout()
            out += parts
        return out

    def unflat(self, ms, s):
        r = num(0, s)
        for bs, m, c in ms:
            # drop guards represented as ite(.,1,0) powers
            body = num(1, s)
            for a, p in m.items():
                if a.op == 'ite' and isnum(a.a[1], 1) and isnum(a.a[2], 0):
                    p = 1
                for _ in range(p):
                    body = _mul(body, a)
            r = _add(r, _mul(num(c, s), self.bindall(bs, body, s)))
        return r

    def bindall(self, bs, body, s):
        # drop binders not occurring; canonical permutation
        if not bs:
            return body
        best = None
        n = len(bs)
        orders = itertools.permutations(range(n)) if n <= 3 else [tuple(range(n))] if n > 5 else itertools.permutations(range(n))
        for o in orders:
            ok = True
            seen = set()
            vs = {bs[i][0] for i in range(n)}
            for i in o:
                need = (fv(bs[i][1]) | fv(bs[i][2])) & vs
                if not need <= seen:
                    ok = False
                    break
                seen.add(bs[i][0])
            if not ok:
                continue
            t = body
            for i in reversed(o):
                k, lo, hi = bs[i]
                t = rawsum(lo, hi, k, t)
            key = (size(t), pp_full(t))
            if best is None or key < best[0]:
                best = (key, t)
            if n > 4:
                break
        return best[1] if best else body

    # ------------------------------------------------------------- proving
    def prove(self, goal, hyps, name=''):
        """('proved', how) | ('undecided', why)"""
        t0 = time.time()
        self.failed = set()
        self.deadline = t0 + self.budget
        try:
            hyps = tuple(h for h in hyps if h is not TRUE)
            # split conjunctions
            hs = []
            for h in hyps:
                hs += list(h.a) if h.op == 'and' else [h]
            if hasext(goal):
                g = goal
                for _ in range(2):
                    g = self.lastsplit(self.simp(g, tuple(hs)), tuple(hs))
                if g is TRUE or self.z3real(self.simp(g, tuple(hs)), tuple(hs)):
                    return ('proved', 'z3')
                goal = g
            hs += extfacts([goal] + hs)
            r = self.go(goal, tuple(dict.fromkeys(hs)), 0)
            return ('proved', r) if r else ('undecided', 'no proof found')
        except Timeout:
            return ('undecided', 'timeout')
        except RecursionError:
            return ('undecided', 'recursion')
        finally:
            self.solver_s += time.time() - t0

    def go(self, goal, hyps, depth):
        if time.time() > self.deadline:
            raise Timeout()
        if goal is TRUE or goal in hyps or FALSE in hyps:
            return 'normal form'
        hyps = unitprop(hyps)
        if FALSE in hyps:
            return 'normal form'
        hs = set(hyps)
        if any(h.op == 'not' and h.a[0] in hs for h in hyps):
            return 'normal form'
        les = {h.a[0] for h in hyps if h.op == 'le0' and h.a[0].s == 'I'}
        for x in les:
            if x.op != 'num' and neg(x) in les:
                e = eq(x, ZERO)
                if e not in hyps:
                    hyps = tuple(h for h in hyps if not (h.op == 'le0' and (h.a[0] is x or h.a[0] is neg(x)))) + (e,)
                    return self.go(goal, hyps, depth)
        # equations between integers: substitute
        for h in hyps:
            if h.op == 'eq0' and h.a[0].s == 'I':
                e = None
                for v in sorted(fv(h), key=lambda x: (x.a[0][0] == '@', -x.id)):
                    e = tm._solve_eq(h, v)
                    if e is not None and v not in fv(e):
                        break
                    e = None
                if e is None:
                    d = _pd(h.a[0])
                    for m0, c0 in d.items():
                        if len(m0) == 1 and m0[0][1] == 1 and abs(c0) == 1 and m0[0][0].op == 'app':
                            at = m0[0][0]
                            e0 = _mk({m1: (-c1 if c0 == 1 else c1) for m1, c1 in d.items() if m1 != m0}, 'I')
                            if at not in subterms(e0):
                                m = {at: e0}
                                hs = []
                                keep = bool(fv(at))
                                if keep and not any(x is not h and at in subterms(x) for x in hyps + (goal,)):
                                    continue
                                for x in hyps:
                                    if x is h:
                                        # its index may be replaced later
                                        hs += [h] if keep else []
                                        continue
                                    y = replace(x, m)
                                    if y is not TRUE:
                                        hs += list(y.a) if y.op == 'and' else [y]
                                return self.go(replace(goal, m), tuple(dict.fromkeys(hs)), depth)
                if e is None:
                    v, e = multiple(h.a[0], False)
                if e is not None:
                    m = {v: e}
                    hs = []
                    for x in hyps:
                        if x is h:
                            continue
                        y = subst(x, m)
                        if y is not TRUE:
                            hs += list(y.a) if y.op == 'and' else [y]
                    return self.go(subst(goal, m), tuple(dict.fromkeys(hs)), depth)
            elif h.op == 'not' and h.a[0].op == 'eq0' and h.a[0].a[0].s == 'I':
                v, e = multiple(h.a[0].a[0], True)
                if e is not None:
                    m = {v: e}
                    hs = []
                    for x in hyps:
                        y = subst(x, m)
                        if y is not TRUE:
                            hs += list(y.a) if y.op == 'and' else [y]
                    return self.go(subst(goal, m), tuple(dict.fromkeys(hs)), depth)
        if depth and self.o.check(FALSE, hyps):
            return 'normal form'
        # integer variables with a small concrete range: enumerate
        b = {}
        for h in hyps:
            if h.op == 'le0' and h.a[0].s == 'I':
                d = _pd(h.a[0])
                ms = [m for m in d if m != ()]
                if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and ms[0][0][0].op == 'var':
                    v, c, k = ms[0][0][0], d[ms[0]], d.get((), 0)
                    lo, hi = b.get(v, (None, None))
                    if c == 1:
                        hi = -k if hi is None else min(hi, -k)
                    elif c == -1:
                        lo = k if lo is None else max(lo, k)
                    b[v] = (lo, hi)
        gv = fv(goal)
        for v, (lo, hi) in b.items():
            if v in gv and lo is not None and hi is not None and hi - lo <= 4:
                for x in range(int(lo), int(hi) + 1):
                    if not self.go(subst(goal, {v: I(x)}), tuple(dict.fromkeys(subst(h, {v: I(x)}) for h in hyps)), depth):
                        return None
                return 'case split'
        if goal.op == 'and':
            for g in goal.a:
                if not self.go(g, hyps, depth):
                    return None
            return 'normal form'
        if goal.op == 'forall':
            k = fresh('q', 'I')
            lo, hi = goal.a[0], goal.a[1]
            RANGE[k] = (lo, hi)
            return self.go(open_(goal, k), hyps + (le(lo, k), lt(k, hi)), depth)
        if goal.op == 'or':
            # prove one disjunct assuming the negation of the others
            for i, g in enumerate(goal.a):
                if g.op in ('eq0', 'forall', 'lt0', 'le0') or g.op == 'and' and depth < 3 and hasext(g):
                    rest = tuple(not_(x) for j, x in enumerate(goal.a) if j != i)
                    r = self.go(g, hyps + rest, depth + 1)
                    if r:
                        return r
        if goal.op == 'exists' or goal.op == 'or' and all(x.op == 'exists' for x in goal.a):
            # witness among the known elements: refute the negation
            nots = tuple(not_(x) for x in (goal.a if goal.op == 'or' else (goal,)))
            inst = self.instantiate(FALSE, hyps + nots)[len(hyps) + len(nots):]
            if inst and self.z3real(or_(*[not_(x) for x in inst]), hyps, True):
                return 'z3'
        if isint(goal) and self.o.check(goal, hyps):
            return 'z3'
        if goal.op == 'eq0' and hasext(goal) and depth < 6:
            # minima / maxima: decide the cases first
            g = self.lastsplit(self.simp(goal, hyps), hyps)
            g = self.simp(g, hyps)
            if g is TRUE or self.z3real(g, hyps):
                return 'z3'
            if g.op == 'eq0':
                c = self.pick(g, hyps)
                if c is not None and isint(c):
                    a = self.go(g, hyps + (c,), depth + 1)
                    return a and self.go(g, hyps + (not_(c),), depth + 1)
        hyps = self.instantiate(goal, hyps)
        g = self.simp(goal, hyps)
        if g is TRUE:
            return 'normal form'
        if g is not goal and g.op in ('and', 'forall', 'or'):
            return self.go(g, hyps, depth)
        if g.op == 'eq0':
            d = self.prenex(g.a[0])
            d = self.simp(d, hyps)
            if isnum(d, 0):
                return 'normal form'
            d2 = self.split_sums(d, hyps)
            if isnum(d2, 0):
                return 'normal form'
            if d2 is not d:
                d2 = self.simp(self.prenex(d2), hyps)
                if isnum(d2, 0):
                    return 'normal form'
            d3 = self.clear_denoms(d2, hyps)
            if d3 is not None and isnum(d3, 0):
                return 'normal form'
            for h in self.breakpoints(d2, hyps):
                d3 = self.break_sums(d2, h, hyps)
                if isnum(d3, 0):
                    return 'normal form'
                d3 = self.simp(self.prenex(d3), hyps)
                if isnum(d3, 0):
                    return 'normal form'
            d3 = self.telescope(d2, hyps)
            if d3 is not None and isnum(d3, 0):
                return 'normal form'
            self.last = d2
            g = eq(d2, num(0, d2.s))
            if g is FALSE and not hyps:
                return None
        g2 = self.lastsplit(g, hyps)
        if g2 is not g:
            if hasext(g2) and depth < 3 and self.z3real(self.simp(g2, hyps), hyps):
                return 'z3'
            return self.go(g2, hyps, depth)
        if hasext(g) and depth < 2 and self.z3real(g, hyps):
            return 'z3'
        g2 = self.congruence(g, hyps, depth)
        if g2 is TRUE:
            return 'normal form'
        if g2 is not g:
            return self.go(g2, hyps, depth)
        c = self.pick(g, hyps) if depth < 7 else None
        r = self.z3real(g, hyps, c is not None)
        if r:
            return r
        g2 = self.normconds(g, hyps)
        if g2 is not g:
            return self.go(g2, hyps, depth)
        # case split on a condition without bound variables
        if c is not None:
            if self.go(g, self.under(hyps, c), depth + 1) and self.go(g, self.under(hyps, not_(c)), depth + 1):
                return 'case split'
            if depth == 0:
                return self.z3real(g, hyps)
        return None

    def under(self, hyps, c):
        """hyps and c, with c decided inside hyps"""
        n = not_(c)
        m = {c: TRUE, n: FALSE}
        if c.op == 'not':
            m = {c.a[0]: FALSE, c: TRUE}
        out = []
        for h in hyps:
            if h.s == 'B' and h is not c and h.op != 'app' and hb(h) and (c in subterms(h) or n in subterms(h)):
                h = replace(h, m)
                if h is TRUE:
                    continue
                out += list(h.a) if h.op == 'and' else [h]
            else:
                out.append(h)
        return tuple(dict.fromkeys(out)) + (c,)

    def normconds(self, g, hyps):
        """sums in the conditions of ite in normal form"""
        m, seen, st = {}, set(), [g]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'ite':
                c = x.a[0]
                for l in (c.a if c.op in ('and', 'or') else (c,)):
                    l = l.a[0] if l.op == 'not' else l
                    if l.op in ('le0', 'lt0', 'eq0') and l.a[0].s == 'R' and hb(l) and l not in m and \
                            not any(v.a[0][0] == '#' for v in fv(l)):
                        d = self.simp(self.prenex(l.a[0]), hyps)
                        d2 = self.split_sums(d, hyps)
                        if d2 is not d:
                            d = self.simp(self.prenex(d2), hyps)
                        z = num(0, d.s)
                        y = {'le0': le, 'lt0': lt, 'eq0': eq}[l.op](d, z)
                        if y is not l:
                            m[l] = y
            st.extend(kids(x))
        if not m:
            return g
        y = replace(g, m)
        return g if (g, y) in self.failed else (self.failed.add((y, g)), y)[1]

    def lastsplit(self, g, hyps):
        """forall[lo..hi+1] P next to forall[lo..hi] P: split off the last instance"""
        if not (fns(g) or True):
            return g
        bs = [t for t in subterms(g) if t.op in ('forall', 'exists') or t.op in EXT]
        if len(bs) < 2:
            return g
        from .term import open_
        k = fresh('q', 'I')
        key = lambda t: (t.op, t.a[0], open_(t, k))
        by = {}
        for t in bs:
            by.setdefault(key(t), []).append(t)
        m = {}
        for (op, lo, body), ts in by.items():
            for t in ts:
                for u in ts:
                    if t is not u and t not in m and sub(t.a[1], u.a[1]) is ONE and self.o.check(le(lo, u.a[1]), hyps):
                        last = subst(body, {k: u.a[1]})
                        if op in EXT:
                            if any(v.a[0][0] == '#' for v in fv(t)):
                                continue
                            mn = op in ('minof', 'amin')
                            b = tm.close('minof' if mn else 'maxof', lo, u.a[1], k, body)
                            x = ite(lt(last, b) if mn else lt(b, last), u.a[1] if op[0] == 'a' else last, u)
                            m[t] = ite(le(u.a[1], lo), lo if op[0] == 'a' else subst(body, {k: lo}), x)
                            continue
                        m[t] = and_(u, last) if op == 'forall' else or_(u, last)
        return replace(g, m) if m else g

    def congruence(self, g, hyps, depth):
        """applications of the same function to provably equal real arguments"""
        aps = {}
        for a in groundapps(g):
            if len(a.a) == 2 and a.a[1].s == 'R' and a.a[0] in ('exp', 'log', 'sqrt', 'fabs', 'isfinite'):
                aps.setdefault(a.a[0], []).append(a)
            elif a.op == 'app' and a.a[0] == 'pow':
                aps.setdefault('pow', []).append(a)
        m = {}
        for f, l in aps.items():
            if len(l) < 2 or len(l) > 6:
                continue
            for i in range(1, len(l)):
                for j in range(i):
                    if l[j] in m:
                        continue
                    if (i, j, l[i], l[j]) in self.failed:
                        continue
                    if depth < 6 and all(x is y or self.go(eq(x, y), hyps, depth + 1) for x, y in zip(l[i].a[1:], l[j].a[1:])):
                        m[l[i]] = l[j]
                        break
                    self.failed.add((i, j, l[i], l[j]))
        if not m:
            return g
        return replace(g, m)

    # ---------------------------------------------- universal hypotheses
    def instantiate(self, goal, hyps):
        fa = [h for h in hyps if h.op == 'forall']
        if not fa:
            return hyps
        have = set(hyps)
        new = []
        ground = None
        for rnd in range(2):
            gs = [goal] + [h for h in list(hyps) + new if h.op != 'forall']
            ground = {}
            for t in gs:
                for a in groundapps(t):
                    ground.setdefault((a.a[0], len(a.a)), []).append(a)
            n0 = len(new)
            for h in fa + [x for x in new if x.op == 'forall']:
                k = fresh('u', 'I')
                body = open_(h, k)
                cand = set()
                for a in boundapps(body, k):
                    for g in ground.get((a.a[0], len(a.a)), ()):
                        for x, y in zip(a.a[1:], g.a[1:]):
                            if x is k:
                                cand.add(y)
                            elif k in fv(x) and x.s == 'I':
                                d = sub(x, y)
                                e = tm._solve_eq(eq(x, y), k)
                                if e is not None and k not in fv(e):
                                    cand.add(e)
                for e in sorted(cand, key=lambda x: x.id)[:12]:
                    b = subst(body, {k: e})
                    i = implies(and_(le(h.a[0], e), lt(e, h.a[1])), b)
                    # range known: only the body
                    if self.o.check(and_(le(h.a[0], e), lt(e, h.a[1])), tuple(x for x in hyps if isint(x))):
                        i = b
                    for x in (i.a if i.op == 'and' else (i,)):
                        if x is not TRUE and x not in have:
                            have.add(x)
                            new.append(x)
            if len(new) == n0 or len(new) > 60:
                break
        return hyps + tuple(new)

    def pick(self, g, hyps):
        """an ite condition to split on"""
        best = None
        seen = set()
        st = [g]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'ite':
                c = x.a[0]
                lits = c.a if c.op in ('and', 'or') else (c,)
                for l in lits:
                    l = l.a[0] if l.op == 'not' else l
                    if hb(l) and any(v.a[0][0] == '#' for v in fv(l)):
                        continue
                    if l in hyps or not_(l) in hyps:
                        continue
                    sc = (size(l), l.id)
                    if best is None or sc < best[0]:
                        best = (sc, l)
            elif x.s == 'B' and x.op in ('le0', 'lt0', 'eq0') and x is not g and not any(v.a[0][0] == '#' for v in fv(x)):
                pass
            st.extend(kids(x))
        return best[1] if best else None

    # split sums at constants of their guards, peel last elements
    def split_sums(self, d, hyps):
        """sums with the same body over ranges 0..a and 0..b (b <= a): rewrite
        sum_{<a} = sum_{<b} + sum_{b..a}; guards t<e restrict the range"""
        memo = {}

        def range_guard(t):
            """sum over ite(k<e & rest, x, 0) -> sum over 0..min(e,hi)"""
            lo, hi, body, h = t.a
            k = fresh('k', 'I')
            RANGE[k] = (lo, hi)
            b = open_(t, k)
            s = t.s
            coef = None
            if b.op != 'ite':
                z = guardlit(b, k)
                if z is not None:
                    b = _mk3(z, simp_under(b, (z,)), simp_under(b, (not_(z),)))
            if isinstance(b, tuple) or b.op == 'ite':
                c, x, y = b.a if not isinstance(b, tuple) else b
                for cc, xx, yy in ((c, x, y), (not_(c), y, x)):
                    lits = cc.a if cc.op == 'and' else (cc,)
                    for z in lits:
                        r = klit(z, k)
                        if r is None:
                            continue
                        kind, e = r
                        rest = and_(*[w for w in lits if w is not z])
                        inn = ite(rest, xx, yy)
                        # cc is a conjunction with z: false part is yy
                        if kind == 'lt':      # k < e
                            e1 = tmax(lo, tmin(hi, e))
                            e1 = self.simp(e1, hyps)
                            return _add(close('sum', lo, e1, k, inn), close('sum', e1, hi, k, yy))
                        if kind == 'ge':
                            e1 = tmax(lo, tmin(hi, e))
                            e1 = self.simp(e1, hyps)
                            return _add(close('sum', e1, hi, k, inn), close('sum', lo, e1, k, yy))
                        if kind == 'ne':
                            # k != e : all minus one
                            ok = and_(le(lo, e), lt(e, hi))
                            return _add(close('sum', lo, hi, k, inn),
                                        ite(ok, _add(subst(yy, {k: e}), neg(subst(inn, {k: e}))), num(0, s)))
            return None

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            r = t
            if t.op == 'sum':
                k = fresh('k', 'I')
                RANGE[k] = (t.a[0], t.a[1])
                b0 = open_(t, k)
                b = go(b0)
                x = close('sum', t.a[0], t.a[1], k, b) if b is not b0 else t
                if x.op == 'sum':
                    g = range_guard(x)
                    r = go2(g) if g is not None else x
                else:
                    r = x
            elif t.op == 'poly':
                r = num(0, t.s)
                for m, c in t.a:
                    x = num(c, t.s)
                    for a, p in m:
                        b = go(a)
                        for _ in range(p):
                            x = _mul(x, b)
                    r = _add(r, x)
            elif t.op == 'ite':
                r = ite(t.a[0], go(t.a[1]), go(t.a[2]))
            elif t.op == 'inv':
                r = inv(go(t.a[0]))
            memo[t] = r
            return r

        cnt = [0]

        def go2(t):
            cnt[0] += 1
            if cnt[0] > 40:
                return t
            return go(t)
        d = go(d)
        # align ranges of sums with equal bodies
        sums = {}
        st = [d]
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'sum' and isnum(x.a[0], 0):
                sums.setdefault((x.a[2], x.a[3]), []).append(x)
            if x.op not in BINDERS:
                st.extend(kids(x))
        m = {}
        for body, l in sums.items():
            if len(l) < 2:
                continue
            base = l[0]
            for x in l[1:]:
                if self.o.check(le(x.a[1], base.a[1]), hyps):
                    base = x
            for x in l:
                if x is base:
                    continue
                if self.o.check(and_(le(base.a[1], x.a[1]), le(ZERO, base.a[1])), hyps):
                    k = fresh('k', 'I')
                    df = sub(x.a[1], base.a[1])
                    if df.op == 'num' and 0 <= df.a[0] <= 8:
                        extra = num(0, x.s)
                        for i in range(int(df.a[0])):
                            extra = _add(extra, open_(x, add(base.a[1], I(i))))
                    else:
                        extra = close('sum', base.a[1], x.a[1], k, open_(x, k))
                    m[x] = _add(base, extra)
        if m:
            d = replace(d, m)
        return d

    def telescope(self, d, hyps):
        """sums over consecutive ranges of the same terms: S(lo..hi) = F(hi) - F(lo)"""
        groups = {}
        rest = num(0, d.s)
        n = 0
        for m, c in _pd(d).items():
            sums = [a for a, p in m if a.op == 'sum' and p == 1]
            if len(sums) != 1:
                rest = _add(rest, _mk({m: c}, d.s))
                continue
            x = sums[0]
            co = _mk({tuple((a, p) for a, p in m if a is not x): c}, d.s)
            j = var('$tele', 'I')
            body = open_(x, j)
            e = None
            cand = {}
            for y in subterms(body):
                if y.op == 'app':
                    for p, a in enumerate(y.a[1:]):
                        if a.s == 'I' and j in fv(a):
                            z = sub(a, j)
                            if j not in fv(z) and not any(v.a[0][0] == '#' for v in fv(z)):
                                cand.setdefault((str(y.a[0]), p), []).append(z)
            for key in sorted(cand):
                # the same choice for a shifted copy of the body
                e = cand[key][0]
                for z in cand[key][1:]:
                    q = sub(z, e)
                    if q.op != 'num':
                        e = None
                        break
                    if q.a[0] > 0:
                        e = z
                if e is not None:
                    break
            lo, hi = x.a[0], x.a[1]
            if e is None or not self.o.check(le(lo, hi), hyps):
                rest = _add(rest, _mk({m: c}, d.s))
                continue
            n += 1
            b2 = subst(body, {j: sub(j, e)})
            g = groups.setdefault(b2, {})
            for pt, sg in ((add(hi, e), 1), (add(lo, e), -1)):
                g[pt] = _add(g.get(pt, num(0, d.s)), _mul(num(sg, d.s), co))
        if n < 2:
            return None
        j = var('$tele', 'I')
        for b2, g in groups.items():
            bases = []
            for pt, co in g.items():
                if isnum(co, 0):
                    continue
                for i, (bp, bc) in enumerate(bases):
                    df = sub(pt, bp)
                    if df.op == 'num' and abs(df.a[0]) <= 8:
                        k = int(df.a[0])
                        for t in range(min(k, 0), max(k, 0)):
                            v = subst(b2, {j: add(bp, I(t))})
                            rest = _add(rest, _mul(_mul(num(1 if k > 0 else -1, d.s), co), v))
                        bases[i] = (bp, _add(bc, co))
                        break
                else:
                    bases.append((pt, co))
            if not all(isnum(self.simp(bc, hyps), 0) for bp, bc in bases):
                return None
        return self.simp(rest, hyps)

    def breakpoints(self, d, hyps):
        """upper bounds of sums that lie inside the range of other sums"""
        B = set()
        seen = set()
        st = [d]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'sum' and isnum(x.a[0], 0) and not any(v.a[0][0] == '#' for v in fv(x.a[1])):
                B.add(x.a[1])
            st.extend(kids(x))
        if len(B) < 2 or len(B) > 6:
            return []
        r = []
        for h in sorted(B, key=lambda x: (size(x), x.id)):
            for H in B:
                if H is not h and sub(H, h).op != 'num' and h.op != 'num' and sub(H, h) in B \
                        and self.o.check(and_(le(ZERO, h), le(h, H)), hyps):
                    r.append(h)
                    break
        return r[:3]

    def break_sums(self, d, h, hyps):
        memo = {}

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            r = t
            if t.op == 'sum':
                k = fresh('k', 'I')
                RANGE[k] = (t.a[0], t.a[1])
                b = go(open_(t, k))
                H = t.a[1]
                if isnum(t.a[0], 0) and H is not h and not any(v.a[0][0] == '#' for v in fv(H)) and sub(H, h).op != 'num' \
                        and self.o.check(and_(le(ZERO, h), le(h, H)), hyps):
                    r = _add(close('sum', ZERO, h, k, b), close('sum', h, H, k, b))
                else:
                    r = close('sum', t.a[0], H, k, b)
            elif t.op == 'poly':
                r = num(0, t.s)
                for m, c in t.a:
                    x = num(c, t.s)
                    for a, p in m:
                        b = go(a)
                        for _ in range(p):
                            x = _mul(x, b)
                    r = _add(r, x)
            elif t.op == 'ite':
                r = ite(t.a[0], go(t.a[1]), go(t.a[2]))
            elif t.op == 'inv':
                r = inv(go(t.a[0]))
            memo[t] = r
            return r
        return go(d)

    def clear_denoms(self, d, hyps):
        """multiply by denominators known to be non-zero (those appearing as inv)"""
        ds = set()
        st = [d]
        for m, c in _pd(d).items():
            for a, p in m:
                if a.op == 'inv':
                    ds.add(a)
        if not ds or len(ds) > 4:
            return None
        # a*inv(a) is 1 when a != 0; need it for every denominator
        for x in ds:
            nz = ne(x.a[0], R(0))
            if not (nz in hyps or self.nonzero(x.a[0], hyps)):
                return None
        cur = d
        for x in ds:
            mx = max((p for m, c in _pd(cur).items() for a, p in m if a is x), default=0)
            r = R(0)
            for m, c in _pd(cur).items():
                md = dict(m)
                p = md.pop(x, 0)
                tmono = R(c)
                for a, q in md.items():
                    for _ in range(q):
                        tmono = _mul(tmono, a)
                for _ in range(mx - p):
                    tmono = _mul(tmono, x.a[0])
                r = _add(r, tmono)
            cur = r
        try:
            cur = self.simp(self.prenex(cur), hyps)
        except Timeout:
            raise
        return cur

    def nonzero(self, t, hyps):
        if lt(R(0), t) in hyps or lt(t, R(0)) in hyps:
            return True
        i = i2r_poly(t)
        if i is not None:
            return self.o.check(ne(i, ZERO), hyps)
        if t.op == 'app' and t.a[0] == 'exp':
            return True
        return False

    # -------------------------------------------------------------- z3
    def z3real(self, g, hyps, quick=False):
        t0 = time.time()
        conv = Z3Conv()
        s = z3.Solver()
        left = max(0.2, min(4.0, self.deadline - time.time()))
        s.set('timeout', 300 if quick else int(left * 1000))
        try:
            goal = conv(g)
            # only hypotheses sharing atoms
            want = set(conv.atoms)
            hz = []
            pool = list(hyps)
            if self.facts:
                pool += self.facts([g] + pool)
            ch = True
            used = set()
            while ch:
                ch = False
                for h in pool:
                    if h in used:
                        continue
                    at = conv.atoms_of(h)
                    if at & want or not at:
                        used.add(h)
                        hz.append(conv(h))
                        want |= at
                        ch = True
            for h in hz:
                s.add(h)
            for f in conv.side():
                s.add(f)
            s.add(z3.Not(goal))
        except NotImplementedError:
            return None
        r = s.check()
        self.solver_s += 0
        if r == z3.unsat:
            return 'z3'
        if r == z3.unknown and self.budget > 10 and not quick:
            if cvc5_unsat(s, 3000):
                return 'cvc5'
        return None


def cvc5_unsat(s, ms):
    try:
        import cvc5
        sm = s.to_smt2()
        sv = cvc5.Solver()
        sv.setOption('tlimit-per', str(ms))
        parser = cvc5.InputParser(sv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + sm, 'q')
        symm = parser.getSymbolManager()
        res = None
        while True:
            c = parser.nextCommand()
            if c.isNull():
                break
            out = c.invoke(sv, symm)
            if 'unsat' in str(out):
                return True
        return False
    except Exception:
        return False


class Z3Conv:
    def __init__(self):
        self.c = {}
        self.atoms = set()
        self.extra = []

    def atoms_of(self, t):
        conv = Z3Conv()
        try:
            conv(t)
        except NotImplementedError:
            return set()
        return conv.atoms

    def __call__(self, t):
        r = self.c.get(t)
        if r is None:
            r = self.c[t] = self.go(t)
        return r

    def go(self, t):
        o = t.op
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        if o == 'num':
            f = t.a[0]
            return z3.IntVal(int(f)) if t.s == 'I' else z3.RealVal('%d/%d' % (f.numerator, f.denominator))
        if o == 'poly':
            r = None
            for m, c in t.a:
                x = z3.IntVal(int(c)) if t.s == 'I' else z3.RealVal('%d/%d' % (c.numerator, c.denominator))
                for a, p in m:
                    for _ in range(p):
                        x = x * self(a)
                r = x if r is None else r + x
            return r
        if o == 'and':
            return z3.And(*[self(x) for x in t.a])
        if o == 'or':
            return z3.Or(*[self(x) for x in t.a])
        if o == 'not':
            return z3.Not(self(t.a[0]))
        if o == 'le0':
            return self(t.a[0]) <= 0
        if o == 'lt0':
            return self(t.a[0]) < 0
        if o == 'eq0':
            return self(t.a[0]) == 0
        if o == 'ite':
            return z3.If(self(t.a[0]), self(t.a[1]), self(t.a[2]))
        if o == 'i2r':
            return z3.ToReal(self(t.a[0]))
        self.atoms.add(t)
        srt = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[t.s]
        return z3.Const('a%d' % t.id, srt)

    def side(self):
        r = []
        done = set()
        todo = list(self.atoms)
        apps = {}
        while todo:
            a = todo.pop()
            if a in done:
                continue
            done.add(a)
            for f in side(a):
                r.append(self(f))
            if a.op == 'inv':
                x, y = self(a.a[0]), self(a)
                r.append(z3.Implies(x != 0, x * y == 1))
                r.append(z3.Implies(x > 0, y > 0))
            elif a.op == 'app':
                if a.a[0] in POSR:
                    r.append(self(a) > 0)
                if a.a[0] == 'exp':
                    x, y = self(a.a[1]), self(a)
                    r.append(y > 0)
                    r.append(z3.Implies(x <= 0, y <= 1))
                elif a.a[0] == 'sqrt':
                    x, y = self(a.a[1]), self(a)
                    r.append(z3.Implies(x >= 0, z3.And(y * y == x, y >= 0)))
                if len(a.a) > 1:
                    apps.setdefault((a.a[0], len(a.a)), []).append(a)
            for x in self.atoms - done:
                if x not in todo:
                    todo.append(x)
        # congruence between applications of the same symbol
        for l in apps.values():
            for i in range(len(l)):
                for j in range(i):
                    if len(l) > 8:
                        break
                    try:
                        es = [self(x) == self(y) for x, y in zip(l[i].a[1:], l[j].a[1:])]
                        r.append(z3.Implies(z3.And(*es), self(l[i]) == self(l[j])))
                    except NotImplementedError:
                        pass
        return r


def multiple(t, odd):
    """t is A - c * (A / c) up to sign, and zero (A == c * q), or not zero with
    c == 2 (A == 2 * q + 1): a variable of A and its value for a new q"""
    for m0 in _pd(t):
        F = m0[0][0] if len(m0) == 1 and m0[0][1] == 1 else None
        if F is None or F.op != 'fdiv' or F.a[1].op != 'num' or odd and F.a[1].a[0] != 2:
            continue
        r = sub(F.a[0], mul(F.a[1], F))
        if t is not r and t is not neg(r):
            continue
        q = fresh('q', 'I')
        for v in sorted(fv(F.a[0]), key=lambda x: (x.a[0][0] == '@', -x.id)):
            e = tm._solve_eq(eq(F.a[0], add(mul(F.a[1], q), I(int(odd)))), v)
            if e is not None and v not in fv(e):
                return v, e
    return None, None


def _mk3(c, a, b):
    return (c, a, b)


def guardlit(t, k):
    """a range literal on k guarding something inside t"""
    seen = set()
    st = [t]
    best = None
    while st:
        x = st.pop()
        if x in seen or k not in fv(x):
            continue
        seen.add(x)
        if x.op == 'ite':
            c = x.a[0]
            for l in (c.a if c.op in ('and', 'or') else (c,)):
                if k in fv(l) and not any(v.a[0][0] == '#' for v in fv(l)):
                    for z in (l, not_(l)):
                        r = klit(z, k)
                        if r is not None and (best is None or z.id < best.id):
                            best = z
        st.extend(kids(x))
    return best


def unitprop(hyps):
    """unit propagation among the hypotheses"""
    while True:
        pos = set(hyps)
        ch = False
        out = []
        for h in hyps:
            if h.op == 'ite' and (h.a[0] in pos or not_(h.a[0]) in pos):
                ch = True
                h = h.a[1] if h.a[0] in pos else h.a[2]
                if h is FALSE:
                    return (FALSE,)
                if h is not TRUE:
                    out += list(h.a) if h.op == 'and' else [h]
                continue
            if h.op == 'or':
                xs = []
                sat = False
                for x in h.a:
                    if x in pos or x.op == 'and' and all(y in pos for y in x.a):
                        sat = True
                        break
                    if not_(x) in pos or x.op == 'and' and any(not_(y) in pos for y in x.a):
                        continue
                    xs.append(x)
                if sat:
                    ch = True
                    continue
                if len(xs) != len(h.a):
                    ch = True
                    h = or_(*xs)
                    if h is FALSE:
                        return (FALSE,)
                    out += list(h.a) if h.op == 'and' else [h]
                    continue
            out.append(h)
        hyps = tuple(dict.fromkeys(out))
        if not ch:
            return hyps


_ga = {}


def groundapps(t):
    """applications in t without bound variables"""
    r = _ga.get(t)
    if r is None:
        s = set()
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'app' and len(x.a) > 1 and not any(v.a[0][0] == '#' for v in fv(x)):
                s.add(x)
            st.extend(kids(x))
        r = _ga[t] = sorted(s, key=lambda x: x.id)
    return r


def boundapps(t, k):
    s = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen or k not in fv(x):
            continue
        seen.add(x)
        if x.op == 'app':
            s.append(x)
        st.extend(kids(x))
    return s


def i2r_poly(t):
    """integer polynomial whose real image is t (integer coefficients only)"""
    if t.s != 'R':
        return None
    r = ZERO
    for m, c in _pd(t).items():
        if c.denominator != 1:
            return None
        x = num(c, 'I')
        for a, p in m:
            if a.op != 'i2r':
                return None
            for _ in range(p):
                x = mul(x, a.a[0])
        r = add(r, x)
    return r


_sb = {}


def subterms(t):
    r = _sb.get(t)
    if r is None:
        out = {t}
        for x in kids(t):
            out |= subterms(x)
        r = _sb[t] = frozenset(out)
    return r


def needs(t):
    return t.op not in ('num', 'var', 'true', 'false')


def mm(a, b):
    r = dict(a)
    for k, p in b.items():
        r[k] = r.get(k, 0) + p
    # x * 1/x stays as is (x may be zero)
    return r


def rawsum(lo, hi, k, body):
    return close('sum', lo, hi, k, body) if not isnum(lo, 0) or k not in fv(body) or body.op == 'ite' else tm._raw('sum', lo, hi, k, body)


_pf = {}


def pp_full(t):
    r = _pf.get(t)
    if r is None:
        r = _pf[t] = pp(t, -1000)
    return r


def klit(z, k):
    """literal over k alone: ('lt', e) k<e ; ('ge', e) k>=e ; ('ne', e)"""
    if z.op == 'le0' and z.a[0].s == 'I':
        d = _pd(z.a[0])
        co = d.get(((k, 1),))
        if co is None or abs(co) != 1:
            return None
        r = _mk({m: c for m, c in d.items() if m != ((k, 1),)}, 'I')
        if k in fv(r):
            return None
        if co == 1:     # k + r <= 0
            return 'lt', sub(ONE, r)
        return 'ge', r  # r <= k
    if z.op == 'not' and z.a[0].op == 'eq0' and z.a[0].a[0].s == 'I':
        e = tm._solve_eq(z.a[0], k)
        if e is not None:
            return 'ne', e
    return None


def replace(t, m):
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            r = m[t]
        elif t.op == 'poly':
            r = num(0, t.s)
            for mo, c in t.a:
                x = num(c, t.s)
                for a, p in mo:
                    b = go(a)
                    for _ in range(p):
                        x = _mul(x, b)
                r = _add(r, x)
        elif t.op == 'ite':
            r = ite(go(t.a[0]), go(t.a[1]), go(t.a[2]))
        elif t.op == 'inv':
            r = inv(go(t.a[0]))
        elif t.op == 'app':
            r = app(t.a[0], [go(x) for x in t.a[1:]], t.s)
        elif t.op in ('le0', 'lt0', 'eq0'):
            x = go(t.a[0])
            z = num(0, x.s)
            r = le(x, z) if t.op == 'le0' else lt(x, z) if t.op == 'lt0' else eq(x, z)
        elif t.op == 'and':
            r = and_(*[go(x) for x in t.a])
        elif t.op == 'or':
            r = or_(*[go(x) for x in t.a])
        elif t.op == 'not':
            r = not_(go(t.a[0]))
        elif t.op in BINDERS and not any(v.a[0][0] == '#' for x in m for v in fv(x)):
            k = fresh('k', 'I')
            lo, hi = go(t.a[0]), go(t.a[1])
            RANGE[k] = (lo, hi)
            r = close(t.op, lo, hi, k, go(open_(t, k)))
        elif t.op in ('idiv', 'imod', 'fdiv'):
            r = {'idiv': idiv, 'imod': imod, 'fdiv': fdiv}[t.op](go(t.a[0]), go(t.a[1]))
        elif t.op == 'i2r':
            r = toreal(go(t.a[0]))
        elif t.op == 'rag':
            r = rag(*[go(x) if isinstance(x, T) else x for x in kids(t)])
        else:
            r = t
        memo[t] = r
        return r
    return go(t)
