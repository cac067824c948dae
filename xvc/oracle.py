"""z3 bridge: quick integer oracle used while executing, and the prover used
for obligations."""
import z3, time
from . import term as tm
from .term import *

POSR = set()     # real valued symbols whose values are positive
UINT_FN = set()     # integer function symbols that are >= 0
STATS = dict(oracle=0, oracle_s=0.0, prove=0, prove_s=0.0)
_zc = {}
_keep = []


def zint(t):
    """term (I or B) -> z3, real atoms abstracted"""
    r = _zc.get(t)
    if r is None:
        r = _zint(t)
        _zc[t] = r
        _keep.append(t)
    return r


def _zint(t):
    o = t.op
    if o == 'true':
        return z3.BoolVal(True)
    if o == 'false':
        return z3.BoolVal(False)
    if t.s == 'R':
        raise ValueError('real')
    if o == 'num':
        return z3.IntVal(int(t.a[0]))
    if o == 'poly':
        r = None
        for m, c in t.a:
            x = z3.IntVal(int(c))
            for a, p in m:
                for _ in range(p):
                    x = x * zint(a)
            r = x if r is None else r + x
        return r
    if o == 'and':
        return z3.And(*[zint(x) for x in t.a])
    if o == 'or':
        return z3.Or(*[zint(x) for x in t.a])
    if o == 'not':
        return z3.Not(zint(t.a[0]))
    if o in ('le0', 'eq0') and t.a[0].s == 'I':
        z = zint(t.a[0])
        return z <= 0 if o == 'le0' else z == 0
    if o == 'ite':
        return z3.If(zint(t.a[0]), zint(t.a[1]), zint(t.a[2]))
    return z3.Const('t%d' % t.id, z3.BoolSort() if t.s == 'B' else z3.IntSort())


def atoms(t, out, seen):
    """int/bool atoms of t (as abstracted by zint)"""
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('poly', 'and', 'or', 'not', 'ite') or (x.op in ('le0', 'eq0') and x.a[0].s == 'I'):
            st.extend(kids(x))
        elif x.op not in ('num', 'true', 'false'):
            out.add(x)


_at = {}


def atomset(t):
    r = _at.get(t)
    if r is None:
        s = set()
        atoms(t, s, set())
        r = _at[t] = frozenset(s)
    return r


def side(a):
    """facts about an atom"""
    r = []
    if a.op == 'var' and a in tm.RANGE:
        lo, hi = tm.RANGE[a]
        r.append(le(lo, a))
        r.append(lt(a, hi))
    elif a.op == 'app' and a.a[0] in UINT_FN:
        r.append(le(ZERO, a))
    elif a.op == 'fdiv':
        x, b = a.a
        # b*q <= x < b*q + b  (b > 0)
        r.append(or_(le(b, ZERO), and_(le(mul(b, a), x), lt(x, mul(b, add(a, ONE))))))
        if b.op != 'num':
            r.append(or_(le(b, ZERO), lt(x, ZERO), le(ZERO, a)))
    elif a.op == 'sum' and a.s == 'I':
        b = a.a[2]
        if b.op == 'app' and b.a[0] in UINT_FN:
            r.append(le(ZERO, a))
            # strict prefix monotonicity instances are added by the caller
    elif a.op in ('amax', 'amin'):
        r.append(or_(le(a.a[1], a.a[0]), and_(le(a.a[0], a), lt(a, a.a[1]))))
    return r


def products(want, ts):
    """instances of a < b -> w*a + w <= w*b for the products that occur"""
    ms = {}
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'poly' and x.s == 'I':
            for m, c in x.a:
                fs = [a for a, p in m for _ in range(p)]
                if len(fs) == 2:
                    for w, a in ((fs[0], fs[1]), (fs[1], fs[0])):
                        ms.setdefault(w, set()).add(a)
        if x.op in ('poly', 'and', 'or', 'not', 'ite') or (x.op in ('le0', 'eq0') and x.a[0].s == 'I'):
            st.extend(kids(x))
    r = []
    for w, s in ms.items():
        l = sorted(s, key=lambda a: a.id)
        if len(l) > 5:
            continue
        for a in l:
            r.append(or_(lt(w, ZERO), le(a, ZERO), le(w, mul(w, a))))
        for a in l:
            for b in l:
                if a is not b:
                    r.append(or_(lt(w, ZERO), le(b, a), le(add(mul(w, a), w), mul(w, b))))
    return r[:40]


class Oracle:
    def __init__(self):
        self.cache = {}
        self.hyps = []          # global facts

    def relevant(self, goal, hyps):
        """closure of facts connected with the goal's atoms"""
        want = set(atomset(goal))
        if goal is FALSE:
            # inconsistent facts: start from the latest ones
            for h in hyps[-3:]:
                want |= atomset(h)
        used, out = set(), []
        pool = [(h, atomset(h)) for h in hyps]
        todo = list(want)
        seenat = set()
        while True:
            ch = False
            while todo:
                a = todo.pop()
                if a in seenat:
                    continue
                seenat.add(a)
                for f in side(a):
                    if f is TRUE:
                        continue
                    out.append(f)
                    for x in atomset(f):
                        if x not in want:
                            want.add(x)
                            todo.append(x)
            for h, at in pool:
                if h in used:
                    continue
                if at & want:
                    used.add(h)
                    out.append(h)
                    for x in at:
                        if x not in want:
                            want.add(x)
                            todo.append(x)
                    ch = True
            if not ch and not todo:
                break
        # prefix-sum monotonicity: sum_{q<a} W vs sum_{q<b} W
        sums = [a for a in want if a.op == 'sum' and a.s == 'I']
        for i in range(len(sums)):
            for j in range(len(sums)):
                if i != j and sums[i].a[2] is sums[j].a[2] and sums[i].a[3] == sums[j].a[3]:
                    x, y = sums[i], sums[j]
                    b = open_(x, x.a[1])
                    if b.op == 'app' and b.a[0] in UINT_FN:
                        # hi_x < hi_y  ->  S_x + W(hi_x) <= S_y
                        out.append(or_(le(y.a[1], x.a[1]), lt(x.a[1], ZERO), le(add(x, b), y)))
        out += products(want, out + [goal])
        return out

    def check(self, goal, hyps, timeout=400):
        """True if hyps |- goal"""
        if goal is TRUE:
            return True
        k = (goal, frozenset(hyps), len(self.hyps))
        r = self.cache.get(k)
        if r is not None:
            return r
        t0 = time.time()
        rel = self.relevant(goal, list(hyps) + self.hyps)
        s = z3.Solver()
        s.set('timeout', timeout)
        for h in rel:
            s.add(zint(h))
        s.add(z3.Not(zint(goal)))
        r = s.check() == z3.unsat
        self.cache[k] = r
        STATS['oracle'] += 1
        STATS['oracle_s'] += time.time() - t0
        return r

    def decide(self, c, hyps):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        hs = set(hyps)
        if c in hs:
            return True
        if not_(c) in hs:
            return False
        if not isint(c):
            return None
        if self.check(c, hyps):
            return True
        if self.check(not_(c), hyps):
            return False
        return None


_ii = {}


def isint(c):
    """c has at least one integer literal (so that asking z3 makes sense)"""
    r = _ii.get(c)
    if r is None:
        o = c.op
        if o in ('le0', 'eq0'):
            r = c.a[0].s == 'I'
        elif o == 'lt0':
            r = False
        elif o in ('and', 'or', 'not'):
            r = any(isint(x) for x in c.a)
        elif o == 'ite':
            r = any(isint(x) for x in c.a)
        else:
            r = c.s == 'B' and o in ('var', 'app')
        _ii[c] = r
    return r
