"""Verify the contracts of one property against the current sources.
   python -m xvc.prove PROP [--out f.json] [--limit s] [--tier quick|thorough] [-v]"""
import sys, os, time, json, traceback, signal, multiprocessing as mp
from . import term as tm
from .term import *
from . import cast, spec
from . import exec as ex
from .exec import Engine, Place, St, Frame, AT, SCALAR, Ptr, Null, PIte, MapIt, sort_of
from .cast import Unsupported
from .prover import Prover
from .loops import samev
from . import loops
from .oracle import UINT_FN, STATS


def params_of(A, f):
    return [A.ty(p) for p in A.params(f)]


def find_fn(A, ct):
    l = A.funcs.get(ct.fn) or []
    if isinstance(ct.sel, int):
        l = [f for f in l if len(A.params(f)) == ct.sel]
    elif isinstance(ct.sel, str):
        l = [f for f in l if ct.sel in f['type']['qualType']]
    if not l:
        raise Unsupported('function %s not found in the sources' % ct.fn)
    return l[0]


class Obl:
    __slots__ = ('name', 'goal', 'hyps', 'kind', 'status', 'how', 's')

    def __init__(self, name, goal, hyps, kind):
        self.name, self.goal, self.hyps, self.kind = name, goal, hyps, kind
        self.status, self.how, self.s = None, '', 0.0


class Run:
    """symbolic execution of one contract: obligations"""

    def __init__(self, A, ct, verbose=False):
        self.A, self.ct, self.v = A, ct, verbose
        self.obls = []
        self.en = None

    def go(self):
        A, ct = self.A, self.ct
        en = self.en = Engine(A)
        en.topname = ct.fn
        en.track_cb = getattr(ct, 'listener', False)
        for u in ct.uses:
            h = spec.REG[u]
            k = h.fn + ('/%d' % h.sel if isinstance(h.sel, int) else '')
            if k in en.contracts:
                a, b = en.contracts[k], h.handler

                def both(*z, a=a, b=b):
                    r = a(*z)
                    return b(*z) if r is NotImplemented else r
                en.contracts[k] = both
            else:
                en.contracts[k] = h.handler
        f = find_fn(A, ct)
        cls = A.owner.get(f['id'])
        this = Place('this', (), (), ('cls', cls))
        st = St({}, ())
        vals = []
        for i, p in enumerate(A.params(f)):
            ty = A.ty(p)
            vals.append(Place(p.get('name') or 'arg%d' % i, (), (), ty))
        # argument names may change: canonical names by position
        vals = [Place('arg%d' % i, (), (), v.ty) for i, v in enumerate(vals)]
        if hasattr(ct, 'values'):
            vals = ct.values(en, this, vals)
        c = spec.C(en, st, this, vals, None, 'verify', f)
        c.cname = ct.fn
        ct.pre(c)
        hyps = []
        for h in c.hyps:
            hyps += list(h.a) if h.op == 'and' else [h]
        st.pc = tuple(hyps)
        en.o.hyps = []
        self.ctx = c
        # the body
        st1 = St(dict(st.fams), st.pc)
        fr0 = Frame(None, None, en)
        fr0.curexc = None
        if f['kind'] == 'CXXConstructorDecl':
            en.run_ctor(fr0, st1, this, f, list(vals))
            ret1 = None
        else:
            ret1 = en.call(fr0, st1, f, this, list(vals))
        thr = [e for e in fr0.exits if e.kind == 'throw']
        # the contract
        st2 = St(dict(st.fams), st.pc)
        c2 = spec.C(en, st2, this, vals, None, 'verify', f)
        c2.cname = ct.fn
        c2.oldst = St(dict(st.fams), st.pc)
        ret2 = ct.post(c2)
        self.c2 = c2
        H = tuple(hyps)
        n0 = len(H)
        short = ct.fn
        O = self.obls
        # exceptions
        specthr = {}
        for cl, cond in c2.throws_:
            specthr[cl] = or_(specthr[cl], cond) if cl in specthr else cond
        got = {}
        for e in thr:
            cl = e.val if isinstance(e.val, str) else str(e.val)
            cond = and_(*e.pc[n0:])
            got[cl] = or_(got[cl], cond) if cl in got else cond
        for cl in sorted(set(specthr) | set(got)):
            if cl in getattr(ct, 'maythrow', ()):
                continue
            a, b = got.get(cl, FALSE), specthr.get(cl, FALSE)
            if a is FALSE and b is FALSE:
                continue
            sh = cl.split('::')[-1]
            if b is FALSE:
                O.append(Obl('%s: never throws %s' % (short, sh), not_(a), H, 'post'))
            else:
                O.append(Obl('%s: throws %s only when specified' % (short, sh), implies(a, b), H, 'post'))
                O.append(Obl('%s: throws %s whenever specified' % (short, sh), implies(b, a), H, 'post'))
        # state after a throw: nothing observable changed
        if getattr(ct, 'throw_unchanged', True):
            for e in thr:
                for key, v in e.fams.items():
                    if isinstance(key[0], int) or key in c2.ignore:
                        continue
                    o = st.fams.get(key)
                    if o is None:
                        o = en.try_init(key, v)
                    if o is None or samev(o, v):
                        continue
                    g, hs = self.famgoal(en, key, v, o, e.fams)
                    O.append(Obl('%s: %s unchanged when %s is thrown' % (short, dotted(key), str(e.val).split('::')[-1]),
                                 g, H + tuple(e.pc[n0:]) + hs, 'frame'))
        dead = FALSE in st1.pc
        if not dead:
            nothrow = tuple(not_(x) for x in specthr.values())
            H1 = H + nothrow
            extra = tuple(x for x in st1.pc[n0:] if x not in H1)
            self.value(ret1, st1, ret2, st2, H1, short)
            keys = [] if getattr(ct, 'anyframe', False) else [k for k in list(st1.fams) + [k for k in st2.fams if k not in st1.fams]
                    if not isinstance(k[0], int)]
            for key in sorted(keys, key=lambda k: (str(k[0]), k[1])):
                if key in c2.ignore or any(key[1][:len(i[1])] == i[1] and key[0] == i[0] for i in c2.ignore):
                    continue
                if isinstance(key[0], tuple) and key[0][0] in ('argp', 'new'):
                    continue
                a, b = st1.fams.get(key), st2.fams.get(key)
                if a is None:
                    a = st.fams.get(key) or en.try_init(key, b)
                if b is None:
                    b = st.fams.get(key)
                    if b is None:
                        b = en.try_init(key, a)
                if a is None or b is None:
                    if a is b:
                        continue
                    O.append(Obl('%s: %s' % (short, dotted(key)), FALSE, H1, 'post'))
                    continue
                if samev(a, b):
                    o = st.fams.get(key)
                    if o is None:
                        o = en.try_init(key, a)
                    if o is not None and not samev(o, a):
                        O.append(Obl('%s: new value of %s' % (short, dotted(key)), TRUE, H1, 'post'))
                    continue
                if isinstance(key[0], str) and key[0].startswith('arg') and not key[1]:
                    continue
                g, hs = self.famgoal(en, key, a, b, st1.fams)
                o = st.fams.get(key)
                if o is None:
                    o = en.try_init(key, b)
                fr = o is not None and samev(o, b)
                O.append(Obl('%s: %s' % (short, ('%s unchanged' if fr else 'new value of %s') % dotted(key)), g, H1 + hs,
                             'frame' if fr else 'post'))
        # relational goals
        paths = [(st1, ret1)]
        if getattr(ct, 'per_path', False):
            paths = [(St(dict(e.fams), e.pc), e.val) for e in en.toprets]
        for stp, retp in paths:
            c3 = spec.C(en, stp, this, vals, None, 'verify', f)
            c3.cname = ct.fn
            c3.oldst = St(dict(st.fams), st.pc)
            c3.pre, c3.thr = H, thr
            ct.check(c3, retp)
            for nm, g, *hh in c3.goals:
                O.append(Obl('%s: %s' % (short, nm), g, hh[0] if hh else tuple(x for x in stp.pc), 'post'))
        for nm, g, *hh in c2.goals:
            O.append(Obl('%s: %s' % (short, nm), g, hh[0] if hh else tuple(x for x in st1.pc), 'post'))
        for nm, g, h in en.obls:
            O.append(Obl(nm, g, H + tuple(x for x in h if x not in H), 'safety'))
        for nm, want, got_, h, n in en.invs:
            if isinstance(want, T) and isinstance(got_, T):
                g = eq(want, got_)
            else:
                g = TRUE if samev(want, got_) else FALSE
            O.append(Obl(nm, g, H + tuple(x for x in h if x not in H), 'invariant'))
        # number the duplicates
        cnt = {}
        for o in O:
            n = cnt.get(o.name, 0) + 1
            cnt[o.name] = n
            if n > 1:
                o.name += ' #%d' % n
        return O

    def famgoal(self, en, key, a, b, fams):
        n = key[1].count('[]')
        if not isinstance(a, T) or not isinstance(b, T):
            if isinstance(a, (Ptr, Null, PIte)) and isinstance(b, (Ptr, Null, PIte)):
                return en.ptreq(a, b), ()
            return (TRUE if samev(a, b) else FALSE), ()
        ix = [fresh('i', 'I') for _ in range(n)]
        m = dict(zip(AT, ix))
        hs = []
        depth = 0
        for j, s in enumerate(key[1]):
            if s != '[]':
                continue
            sk = (key[0], key[1][:j] + ('#size',))
            hs.append(le(ZERO, ix[depth]))
            f = fams.get(sk)
            isheap = isinstance(key[0], tuple) and key[0][0] == 'H' and j < 2 and \
                not (j == 1 and key[1][0] == '[]' and len(key[1]) > 2 and False)
            if f is None and not isheap and sized(self.A, en, key, j):
                UINT_FN.add(en.famname(sk))
                f = app(en.famname(sk), AT[:depth], 'I')
            if f is not None:
                hs.append(lt(ix[depth], subst(f, m)))
            depth += 1
        # canonical encodings: written cells beyond an array are not observable
        g = eq(subst(a, m), subst(b, m))
        return g, tuple(hs)

    def value(self, r1, st1, r2, st2, H, short):
        O = self.obls
        en = self.en
        if r2 is None:
            return
        if isinstance(r1, T) and isinstance(r2, T):
            g = eq(r1, r2) if r1.s != 'B' else and_(implies(r1, r2), implies(r2, r1))
            O.append(Obl('%s: result' % short, g, H, 'post'))
            return
        if isinstance(r1, Place) and isinstance(r2, Place):
            if r1.same(r2) and isinstance(r1.root, str):
                O.append(Obl('%s: result' % short, TRUE, H, 'post'))
                return
            for p, t in en.leaves(r2.ty):
                n = p.count('[]')
                if n == 0:
                    a = en.read(st1, Place(r1.root, r1.path + p, r1.idx, t))
                    b = en.read(st2, Place(r2.root, r2.path + p, r2.idx, t))
                    O.append(Obl('%s: result%s' % (short, ''.join('.' + x for x in p)), eq(a, b), H, 'post'))
                else:
                    ix = [fresh('i', 'I') for _ in range(n)]
                    hs = []
                    d = 0
                    for j, s in enumerate(p):
                        if s == '[]':
                            hs.append(le(ZERO, ix[d]))
                            sz = en.read(st2, Place(r2.root, r2.path + p[:j] + ('#size',), r2.idx + tuple(ix[:d]), ('uint',)))
                            hs.append(lt(ix[d], sz))
                            d += 1
                    a = en.read(st1, Place(r1.root, r1.path + p, r1.idx + tuple(ix), t))
                    b = en.read(st2, Place(r2.root, r2.path + p, r2.idx + tuple(ix), t))
                    O.append(Obl('%s: result%s' % (short, ''.join('.' + x for x in p)), eq(a, b), H + tuple(hs), 'post'))
            return
        def isnew(v):
            return isinstance(v, Ptr) and v.off is None and isinstance(v.arr.root, tuple) and v.arr.root[0] == 'new'
        if isnew(r1) and isnew(r2):
            self.newobj(r1.arr, st1, r2.arr, st2, H, short)
            return
        if isinstance(r1, (Ptr, Null, PIte)) and isinstance(r2, (Ptr, Null, PIte)):
            O.append(Obl('%s: result' % short, en.ptreq(r1, r2), H, 'post'))
            return
        O.append(Obl('%s: result' % short, FALSE, H, 'post'))


    def newobj(self, a, st1, b, st2, H, short):
        """two freshly allocated objects are equal, member by member"""
        en, O = self.en, self.obls
        for p, t in en.leaves(b.ty):
            nm = '%s: result%s' % (short, ''.join(x if x == '[]' else '.' + x for x in p))
            pa, pb = Place(a.root, a.path + p, a.idx, t), Place(b.root, b.path + p, b.idx, t)
            if t[0] in ('ptr', 'sptr'):
                x, y = en.read_ptr(st1, pa), en.read_ptr(st2, pb)
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.arr.root == a.root and y.arr.root == b.root:
                    ok = x.arr.path == y.arr.path and x.arr.idx == y.arr.idx
                    O.append(Obl(nm, (eq(x.off, y.off) if x.off is not None and y.off is not None else TRUE) if ok else FALSE, H, 'post'))
                else:
                    O.append(Obl(nm, en.ptreq(x, y), H, 'post'))
                continue
            ix, hs = [], []
            for j, s in enumerate(p):
                if s == '[]':
                    i = fresh('i', 'I')
                    hs.append(le(ZERO, i))
                    hs.append(lt(i, en.read(st2, Place(b.root, b.path + p[:j] + ('#size',), b.idx + tuple(ix), ('uint',)))))
                    ix.append(i)
            x = en.read(st1, Place(a.root, a.path + p, a.idx + tuple(ix), t))
            y = en.read(st2, Place(b.root, b.path + p, b.idx + tuple(ix), t))
            O.append(Obl(nm, eq(x, y), H + tuple(hs), 'post'))


def sized(A, en, key, j):
    """the '[]' at position j of the path belongs to a vector / map / set"""
    root, path = key
    if isinstance(root, tuple) and root[0] == 'H':
        if j == 0:
            return False
        import ast as pyast
        ty = pyast.literal_eval(root[1])
        steps = path[1:j]
    elif root == 'this' or isinstance(root, str):
        return True
    else:
        return True
    if not steps and ty[0] not in ('vec', 'map', 'set'):
        return False
    return True


def dotted(key):
    r, p = key
    s = r if isinstance(r, str) else ':'.join(str(x) for x in r) if isinstance(r, tuple) else str(r)
    for x in p:
        s += x if x == '[]' else '.' + x
    return s


def vacuity(P, run):
    """the preconditions are satisfiable: FALSE is not derivable from them"""
    return P.o.check(FALSE, tuple(run.ctx.hyps)) is not True


def one(args):
    name, repo, budget, verbose, lim = args
    ct = spec.REG[name]
    t0 = time.time()
    out = dict(contract=name, fn=ct.fn, obligations=[], unsupported=None, inlined=[], trusted=[], solver_s=0.0, used=[])

    def al(*a):
        raise TimeoutError('time limit')
    signal.signal(signal.SIGALRM, al)
    signal.alarm(int(lim))
    run = None
    P = None
    try:
        run = Run(AST[0], ct, verbose)
        O = run.go()
        P = Prover(run.en.o, budget)
        P.facts = getattr(ct, 'facts', None) and (lambda ts: ct.facts(run.ctx, ts))
        out['vacuous'] = not vacuity(P, run)
        for o in O:
            t1 = time.time()
            P.last = None
            try:
                st, how = P.prove(o.goal, o.hyps, o.name)
            except (Unsupported, NotImplementedError, KeyError, ValueError, IndexError) as e:
                st, how = 'undecided', 'prover: %s %s' % (type(e).__name__, e)
            if st == 'undecided' and how == 'timeout' and time.time() - t0 < lim / 2:
                P.budget = budget * 4
                try:
                    st, how = P.prove(o.goal, o.hyps, o.name)
                except (Unsupported, NotImplementedError, KeyError, ValueError, IndexError) as e:
                    st, how = 'undecided', 'prover: %s %s' % (type(e).__name__, e)
                P.budget = budget
            o.status, o.how, o.s = st, how, time.time() - t1
            rec = dict(name=o.name, status=st, how=how, s=round(o.s, 3), kind=o.kind)
            if st == 'undecided':
                from . import refute
                try:
                    r = refute.refute(o.goal, o.hyps, seconds=6, rec=run.en.recdefs)
                except TimeoutError:
                    raise
                except Exception:
                    r = None
                if r:
                    rec['status'] = 'refuted'
                    rec['how'] = 'the obligation is false for: ' + r
                if verbose:
                    from .prover import pp_full
                    if P.last is not None:
                        print('   REST', pp_full(P.last)[:int(os.environ.get("W2","3000"))])
                    print('UNDECIDED' if not r else 'REFUTED', o.name, o.how, '\n   goal', str(o.goal)[:1500], '\n   hyps',
                          [str(h)[:160] for h in o.hyps][:14], r or '')
                rec['goal'] = str(o.goal)[:3000]
            out['obligations'].append(rec)
    except TimeoutError as e:
        out['unsupported'] = '%s: time limit of %d s' % (ct.fn, lim)
    except Exception as e:
        if verbose:
            traceback.print_exc(limit=-3)
        tb = traceback.extract_tb(e.__traceback__)
        out['unsupported'] = '%s: %s: %s (%s)' % (ct.fn, type(e).__name__, str(e)[:300],
                                                  ' '.join('%s:%d' % (x.name, x.lineno) for x in tb[-2:]))
    finally:
        signal.alarm(0)
    if run is not None and run.en is not None:
        out['inlined'] = sorted(run.en.inlined)
        out['trusted'] = sorted(run.en.trusted)
        out['used'] = sorted(run.en.used_contracts)
        out['opaque'] = [str(x) for x in run.en.recdefs]
    out['solver_s'] = round((P.solver_s if P else 0) + STATS['oracle_s'], 2)
    out['s'] = round(time.time() - t0, 2)
    return out


AST = [None]


def main():
    a = sys.argv[1:]
    prop = a[0]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    verbose = '-v' in a
    loops.DEBUG[0] = '-d' in a
    limit = float(opt('--limit', '300'))
    from . import contracts
    repo = os.environ.get('XVC_REPO', '/repo')
    names = [n for n, c in spec.REG.items() if prop in c.props or n == prop or c.fn == prop]
    t0 = time.time()
    AST[0] = cast.load(repo)
    res = []
    budget = float(opt('--budget', '20'))
    lim = max(20, limit - 10)
    jobs = [(n, repo, budget, verbose, lim) for n in names]
    if '-1' in a:
        res = [one(j) for j in jobs]
    else:
        with mp.Pool(int(opt('-j', '8')), maxtasksperchild=1) as pool:
            res = pool.map(one, jobs, chunksize=1)
    out = dict(property=prop, obligations=[], functions=[], inlined=[], trusted=[], unsupported=[], solver_s=0.0,
               assumptions=[], backends={}, vacuity='preconditions satisfiable (checked)', contracts=[])
    for r in res:
        out['functions'].append(r['fn'])
        out['contracts'].append(dict(contract=r['contract'], fn=r['fn'], obligations=len(r['obligations']),
                                     open=[o['name'] for o in r['obligations'] if o['status'] != 'proved'], s=r['s'],
                                     unsupported=r['unsupported']))
        out['obligations'] += r['obligations']
        out['solver_s'] += r['solver_s']
        out['inlined'] += [x for x in r['inlined'] if x not in out['inlined']]
        out['trusted'] += [x for x in r['trusted'] if x not in out['trusted']]
        if r.get('vacuous'):
            out['vacuity'] = 'VACUOUS: ' + r['fn']
            out['unsupported'].append('vacuous precondition of ' + r['fn'])
        if r['unsupported']:
            out['unsupported'].append(r['unsupported'])
        for o in r['obligations']:
            if o['status'] == 'proved':
                out['backends'][o['how']] = out['backends'].get(o['how'], 0) + 1
    out['wall_s'] = round(time.time() - t0, 1)
    if verbose or '--out' not in a:
        for c in out['contracts']:
            print('%-45s %-40s obligations %3d  open %d  %.1fs %s' % (c['contract'], c['fn'], c['obligations'], len(c['open']), c['s'],
                                                              c['unsupported'] or ''))
            for o in c['open'][:20]:
                print('      open:', o)
        print('wall', out['wall_s'])
    if '--out' in a:
        json.dump(out, open(opt('--out', ''), 'w'), indent=1)


if __name__ == '__main__':
    main()
