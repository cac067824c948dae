"""Numeric refutation: look for an interpretation of the state in which all
hypotheses of an obligation hold and its goal is false.  Sums and loops are
evaluated concretely, opaque symbols by their definitions."""
import math, random, time
from fractions import Fraction
from .term import *
from . import term as tm
from .oracle import UINT_FN


class Undef(Exception):
    pass


INTERP = {'exp': math.exp, 'sqrt': math.sqrt, 'log': math.log, 'pow': lambda a, b: a ** b, 'tan': math.tan, 'atan': math.atan}
MAXR = 12


class Ev:
    def __init__(self, rnd, defs, rec):
        self.rnd, self.defs, self.rec = rnd, defs, rec
        self.val = {}
        self.read = set()
        self.memo = {}
        self.steps = 0

    def base(self, key, s, nm):
        r = self.val.get(key)
        if r is None:
            R_ = self.rnd
            if s == 'B':
                r = R_.random() < .5
            elif s == 'I':
                r = R_.choice((0, 1, 1, 2, 2, 3, 4)) if nm in UINT_FN or not nm.startswith('~') else R_.randint(-3, 4)
            else:
                r = R_.choice((0.25, 0.5, 1.0, 2.0, -1.0, 1.5, 0.125, -0.75, 3.0)) * R_.choice((1.0, 1.0, 0.7, 1.3))
            self.val[key] = r
        self.read.add(key)
        return r

    def ev(self, t, env):
        self.steps += 1
        if self.steps > 300000:
            raise Undef()
        if t.op == 'num':
            return int(t.a[0]) if t.s == 'I' else float(t.a[0])
        if not env and t.op != 'var':
            r = self.memo.get(t)
            if r is not None:
                v, rd = r
                self.read |= rd
                return v
            save = self.read
            self.read = set()
            v = self.ev1(t, env)
            self.memo[t] = (v, self.read)
            save |= self.read
            self.read = save
            return v
        return self.ev1(t, env)

    def monos(self, t, env):
        out = []
        for m, c in t.a:
            x = int(c) if t.s == 'I' and c.denominator == 1 else float(c)
            for a, p in m:
                x = x * self.ev(a, env) ** p
                if x == 0:
                    break
            out.append(x)
        return out

    def ev1(self, t, env):
        o = t.op
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'var':
            if t in env:
                return env[t]
            return self.base(t, t.s, t.a[0])
        if o == 'poly':
            v = sum(self.monos(t, env))
            if isinstance(v, float) and not math.isfinite(v):
                raise Undef()
            return v
        if o == 'and':
            return all(self.ev(x, env) for x in t.a)
        if o == 'or':
            return any(self.ev(x, env) for x in t.a)
        if o == 'not':
            return not self.ev(t.a[0], env)
        if o in ('le0', 'lt0', 'eq0'):
            p = t.a[0]
            ms = self.monos(p, env) if p.op == 'poly' else [self.ev(p, env)]
            v = sum(ms)
            if p.s == 'I':
                return v <= 0 if o == 'le0' else v < 0 if o == 'lt0' else v == 0
            if not math.isfinite(v):
                raise Undef()
            tol = 1e-7 * max([1e-6] + [abs(x) for x in ms])
            if o == 'eq0':
                return abs(v) <= tol
            if abs(v) <= tol and v != 0:
                raise Undef()
            return v <= 0 if o == 'le0' else v < 0
        if o == 'ite':
            return self.ev(t.a[1] if self.ev(t.a[0], env) else t.a[2], env)
        if o == 'i2r':
            return float(self.ev(t.a[0], env))
        if o == 'inv':
            x = self.ev(t.a[0], env)
            if abs(x) < 1e-12:
                raise Undef()
            return 1.0 / x
        if o == 'fdiv':
            a, b = self.ev(t.a[0], env), self.ev(t.a[1], env)
            if b <= 0:
                raise Undef()
            return a // b
        if o in ('idiv', 'imod'):
            a, b = self.ev(t.a[0], env), self.ev(t.a[1], env)
            if b == 0:
                raise Undef()
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if o == 'idiv' else a - q * b
        if o in BINDERS:
            lo, hi = self.ev(t.a[0], env), self.ev(t.a[1], env)
            if hi - lo > 60:
                raise Undef()
            k = fresh('z', 'I')
            body = open_(t, k)
            if o in ('sum', 'prod'):
                r = 0 if o == 'sum' else 1
                for x in range(lo, hi):
                    v = self.ev(body, {**env, k: x})
                    r = r + v if o == 'sum' else r * v
                return float(r) if t.s == 'R' else r
            if o == 'forall':
                return all(self.ev(body, {**env, k: x}) for x in range(lo, hi))
            if o == 'exists':
                return any(self.ev(body, {**env, k: x}) for x in range(lo, hi))
            if hi <= lo:
                if o in ('amax', 'amin'):
                    return lo
                raise Undef()
            vs = [self.ev(body, {**env, k: x}) for x in range(lo, hi)]
            if o == 'maxof':
                return max(vs)
            if o == 'minof':
                return min(vs)
            b = max(vs) if o == 'amax' else min(vs)
            return lo + vs.index(b)
        if o == 'rag':
            S, x = t.a[0], self.ev(t.a[1], env)
            k = 0
            acc = 0
            W = fresh('z', 'I')
            body = open_(S, W)
            while k < 60:
                w = self.ev(body, {**env, W: k})
                if x < acc + w:
                    return k
                acc += w
                k += 1
            raise Undef()
        if o == 'app':
            f = t.a[0]
            if f in self.defs:
                ps, body = self.defs[f]
                return self.ev(body, {**{}, **dict(zip(ps, [self.ev(x, env) for x in t.a[1:]]))})
            args = [self.ev(x, env) for x in t.a[1:]]
            if f in INTERP:
                try:
                    v = INTERP[f](*args)
                except (ValueError, OverflowError, ZeroDivisionError):
                    raise Undef()
                if isinstance(v, complex):
                    raise Undef()
                return v
            if f == 'trunc':
                return int(args[0])
            if f in self.rec:
                cell, k, step, names, N = self.rec[f]
                K = args[0]
                key = ('rec', f, tuple(args))
                r = self.memo.get(key)
                if r is not None:
                    return r
                from .exec import AT
                e = dict(zip(tuple(AT[:cell.n]) + cell.outer, args[1:]))
                if K <= 0:
                    v = self.ev(cell.init, e)
                else:
                    e[k] = K - 1
                    v = self.ev(step, e)
                v = float(v) if t.s == 'R' else v
                self.memo[key] = v
                return v
            if f.startswith('undef') or f.startswith('LOWEST') or f.startswith('MAX') or f.startswith('MIN'):
                raise Undef()
            return self.base((f,) + tuple(args), t.s, f)
        raise Undef()

    def setv(self, key, v):
        self.val[key] = v
        self.memo = {}

    def truth(self, t):
        self.read = set()
        self.steps = 0
        return self.ev(t, {})


def clean(t):
    """no symbols whose value is arbitrary (uninitialised locals, ...)"""
    for f in fns(t):
        if f[0] == 'L' and len(f) > 1 and f[1].isdigit():
            return False
    return True


def refute(goal, hyps, seconds=5, defs=None, rec=None, seed=1, tries=4000):
    from . import spec
    defs = spec.DEFS if defs is None else defs
    rec = rec or {}
    if not clean(goal):
        return None
    end = time.time() + seconds
    rnd = random.Random(seed)
    hyps = [h for h in hyps if h is not TRUE]
    # only hypotheses (all must hold); the goal must be false
    n = 0
    while time.time() < end and n < tries:
        n += 1
        e = Ev(rnd, defs, rec)
        try:
            if not satisfy(e, hyps, end):
                continue
            if e.truth(goal) is False:
                # confirm: all hypotheses still true
                if all(e.truth(h) for h in hyps):
                    e.truth(goal)
                    rd = set(e.read)
                    return describe(e, rd, goal)
        except (Undef, RecursionError, OverflowError, ZeroDivisionError):
            continue
    return None


def satisfy(e, hyps, end):
    for rounds in range(40):
        if time.time() > end:
            return False
        bad = None
        for h in hyps:
            if not e.truth(h):
                bad = h
                break
        if bad is None:
            return True
        if not repair(e, bad):
            return False
    return False


def repair(e, h):
    e.truth(h)
    o = h.op
    if o == 'and':
        for x in h.a:
            if not e.truth(x):
                return repair(e, x)
        return True
    if o == 'or':
        return repair(e, e.rnd.choice(h.a))
    if o == 'forall':
        lo, hi = e.ev(h.a[0], {}), e.ev(h.a[1], {})
        for x in range(lo, hi):
            b = open_(h, I(x))
            if not e.truth(b):
                return repair(e, b)
        return True
    if o == 'not' and h.a[0].op == 'forall':
        f = h.a[0]
        return repair(e, bind('exists', f.a[0], f.a[1], lambda t: not_(open_(f, t))))
    if o == 'exists':
        lo, hi = e.ev(h.a[0], {}), e.ev(h.a[1], {})
        if hi <= lo:
            return repair(e, lt(h.a[0], h.a[1]))
        return repair(e, open_(h, I(e.rnd.randint(lo, hi - 1))))
    e.truth(h)
    keys = list(e.read)
    if not keys:
        return False
    e.rnd.shuffle(keys)
    if o in ('eq0', 'le0', 'lt0'):
        p = h.a[0]
        for k in keys[:6]:
            old = e.val[k]
            if isinstance(old, bool):
                continue
            try:
                v0 = e.truth(p)
                d = 1 if isinstance(old, int) else 1.0
                e.setv(k, old + d)
                v1 = e.truth(p)
                s = v1 - v0
                if s == 0:
                    e.setv(k, old)
                    continue
                x = old - v0 * d / s
                if o != 'eq0':
                    m = e.rnd.choice((0, 1, 2)) if isinstance(old, int) else e.rnd.random() * 2 + .1
                    x = x - m if s > 0 else x + m
                if isinstance(old, int):
                    if x != int(x):
                        x = math.floor(x) if s > 0 else math.ceil(x)
                    x = int(x)
                    nm = k[0] if isinstance(k, tuple) else ''
                    if x < 0 and (nm in UINT_FN):
                        e.setv(k, old)
                        continue
                    if x > MAXR:
                        e.setv(k, old)
                        continue
                e.setv(k, x)
                if e.truth(h):
                    return True
            except Undef:
                pass
            e.setv(k, old)
    # random change
    k = keys[0]
    del e.val[k]
    e.memo = {}
    return True


def describe(e, rd, goal):
    out = []
    for k in sorted(rd, key=str)[:30]:
        nm = k.a[0] if isinstance(k, T) else k[0] + (str(tuple(k[1:])) if len(k) > 1 else '')
        v = e.val.get(k)
        out.append('%s = %s' % (nm, round(v, 6) if isinstance(v, float) else v))
    return ', '.join(out)
