"""SingleClassHMM: forward / backward recursions, filtering, regression, training"""
from fractions import Fraction
from ..spec import *
from ..term import R
from .gmm import wfShared, wfGMM, wfComponents, wfBuffer, push_log, notraining, OBS

H = 'SingleClassHMM'


def fam_ptr(c, v, w):
    """on entry every pointer of v's family equals the pointer w"""
    if c.mode == 'call':
        return
    a, b = c.en.enc_ptr(c.en.read_ptr(c.st, w._p))
    p = v._p
    c.st.fams[(p.root, p.path + ('#id',))] = a
    c.st.fams[(p.root, p.path + ('#off',))] = b


def erg(m):
    return eq(m.parameters.transition_mode.t, ZERO)


def wfHMM(c, m, states=True, alpha=True, det=False):
    """class invariant of a single-class HMM"""
    D, DI, bim = wfShared(c, m)
    N = m.parameters.states.t
    mode = m.parameters.covariance_mode.t
    G = m.parameters.gaussians.t
    c.assume(le(ONE, N))
    c.assume(le(ONE, G))
    c.assume(or_(eq(mode, ZERO), eq(mode, ONE)))
    c.assume(or_(erg(m), eq(m.parameters.transition_mode.t, ONE)))
    c.setsize(m.transition, ite(erg(m), mul(N, N), mul(I(2), N)))
    c.setsize(m.prior, ite(erg(m), N, m.prior.size))
    c.setsize(m.exit_probabilities_, ite(m.is_hierarchical_.t, N, m.exit_probabilities_.size))
    if alpha:
        c.setsize(m.alpha, N)
    if states:
        c.setsize(m.states, N)
        s = m.states[AT[len(m.states.p.idx)]]
        fam_ptr(c, s.shared_parameters, m.shared_parameters)
        c.allset(s.parameters.gaussians, G)
        c.allset(s.parameters.covariance_mode, mode)
        c.allset(s.is_training_, FALSE)
        s = m.states[AT[len(m.states.p.idx)]]
        c.setsize(s.mixture_coeffs, G)
        c.setsize(s.beta, G)
        c.setsize(s.components, G)
        wfComponents(c, s, G, mode, D, DI, bim)
        if det:
            c.assume(all_(N, lambda i: all_(G, lambda g: ne(m.states[i].components[g].covariance_determinant_.t, R(0)))))
            c.assume(implies(bim, all_(N, lambda i: all_(G, lambda g: ne(
                m.states[i].components[g].covariance_determinant_input_.t, R(0))))))
    return D, DI, bim, N, G, mode


def obs(c, m, x, y, j):
    """observation probability of state j: joint, or given the input only"""
    s = m.states[j]
    l = c.call(OBS[0], s, [x, I(-1)])
    li = c.call(OBS[1], s, [x, I(-1)])
    if y is NULL:
        return ite(m.shared_parameters.bimodal.t, li, l)
    lb = c.call(OBS[2], s, [x, y, I(-1)])
    return ite(m.shared_parameters.bimodal.t, ite(nonnull(c.en, y), lb, li), l)


def propagate(m, p, j):
    """probability of state j one transition after the distribution p"""
    N = m.parameters.states.t
    a = m.transition
    full = sigma(N, lambda i: mul(p(i), a[add(mul(i, N), j)].t))
    stay = mul(p(j), a[mul(I(2), j)].t)
    enter = ite(le(j, ZERO), mul(p(sub(N, ONE)), a[sub(mul(I(2), N), ONE)].t),
                mul(p(sub(j, ONE)), a[sub(mul(I(2), j), ONE)].t))
    return ite(erg(m), full, add(stay, enter))




@contract
class HmmForwardInit(Contract):
    fn = H + '::forward_init'
    props = ('C12',)
    uses = OBS

    def pre(self, c):
        if c.mode == 'verify':
            wfHMM(c, c.this, det=True)
        c.assume(nonnull(c.en, c.argval(0)))

    def post(self, c):
        m = c.this
        N = m.parameters.states.t
        x, y = c.argval(0), c.argval(1)
        o = lambda j: obs(c, m, x, y, j)
        e = erg(m)
        w = lambda j: ite(e, mul(m.prior[j].t, o(j)), ite(eq(j, ZERO), o(ZERO), R(0)))
        s = ite(e, sigma(N, lambda i: mul(m.prior[i].t, o(i))), o(ZERO))
        c.fill(c.new.alpha, N, lambda j: ite(lt(R(0), s), div(w(j), s), div(R(1), toreal(N))), resize=True)
        return ite(lt(R(0), s), div(R(1), s), R(1))

    def check(self, c, ret):
        m = c.this
        N = m.parameters.states.t
        x, y = c.argval(0), c.argval(1)
        o = lambda j: obs(c, m, x, y, j)
        s = ite(erg(m), sigma(N, lambda i: mul(m.prior[i].t, o(i))), o(ZERO))
        c.ensure('state probabilities sum to one', eq(sigma(N, lambda i: c.new.alpha[i].t), R(1)))
        c.ensure('the normaliser is the inverse of the likelihood', implies(lt(R(0), s), eq(mul(ret, s), R(1))))


class Forward(Contract):
    props = ('C12',)

    def post(self, c):
        return self.step(c, lambda j: self.obs(c, j))

    def step(self, c, o):
        m = c.this
        N = m.parameters.states.t
        w = lambda j: mul(propagate(m, lambda i: m.alpha[i].t, j), o(j))
        s = sigma(N, w)
        big = lt(R(Fraction(1, 10 ** 300)), s)
        c.fill(c.new.previous_alpha_, N, lambda j: m.alpha[j].t, resize=True)
        c.fill(c.new.alpha, N, lambda j: ite(big, div(w(j), s), w(j)))
        return ite(big, div(R(1), s), R(0))


@contract
class HmmForwardUpdate(Forward):
    fn = H + '::forward_update'
    uses = OBS

    def pre(self, c):
        if c.mode == 'verify':
            wfHMM(c, c.this, det=True)
        c.assume(nonnull(c.en, c.argval(0)))

    def obs(self, c, j):
        return obs(c, c.this, c.argval(0), c.argval(1), j)


def wfAlpha(c, m):
    N = m.parameters.states.t
    h = m.is_hierarchical_.t
    c.setsize(m.alpha, ite(h, m.alpha.size, N))
    for k in range(3):
        c.setsize(m.alpha_h[k], ite(h, N, m.alpha_h[k].size))


def weight(m, i):
    """probability of state i (inside the gesture)"""
    return ite(m.is_hierarchical_.t, add(m.alpha_h[0][i].t, m.alpha_h[1][i].t), m.alpha[i].t)


def wfWindow(c, m):
    N = m.parameters.states.t
    a, b = m.window_minindex_.t, m.window_maxindex_.t
    c.assume(and_(le(ZERO, a), le(a, N), le(ZERO, b), le(b, N)))


@contract
class HmmWindow(Contract):
    fn = H + '::updateAlphaWindow'
    props = ('C12', 'C19')

    def pre(self, c):
        m = c.this
        if c.mode == 'verify':
            c.assume(le(ONE, m.parameters.states.t))
            wfAlpha(c, m)

    def post(self, c):
        m = c.this
        N = m.parameters.states.t
        notraining(c)
        l = big('amax', N, lambda i: weight(m, i))
        c.write(c.new.results.likeliest_state, l)
        half = fdiv(N, I(2))
        lo = tmax(sub(l, half), ZERO)
        hi = tmin(add(l, half), N)
        c.write(c.new.window_minindex_, lo)
        c.write(c.new.window_maxindex_, hi)
        c.write(c.new.window_normalization_constant_, sigma(hi, lambda i: weight(m, i), lo))


@contract
class HmmUpdateResults(Contract):
    fn = H + '::updateResults'
    props = ('C11', 'C12')
    uses = ('CircDoublePush', 'CircDoubleCount', 'CircDoubleRead')

    def pre(self, c):
        m = c.this
        if c.mode == 'verify':
            wfBuffer(c, m.likelihood_buffer_)
            c.assume(le(ONE, m.parameters.states.t))
            wfAlpha(c, m)
            wfWindow(c, m)

    def post(self, c):
        m = c.this
        N = m.parameters.states.t
        mean = push_log(c, m.likelihood_buffer_, app('log', (m.results.instant_likelihood.t,), 'R'))
        c.write(c.new.results.log_likelihood, mean)
        w = lambda i: add(weight(m, i), ite(m.is_hierarchical_.t, m.alpha_h[2][i].t, R(0)))
        lo, hi, n = m.window_minindex_.t, m.window_maxindex_.t, m.window_normalization_constant_.t
        centre = div(sigma(hi, lambda i: mul(w(i), toreal(i)), lo), n)
        c.write(c.new.results.progress, ite(eq(N, ONE), centre, div(centre, toreal(sub(N, ONE)))))


@contract
class BwForwardUpdate(Forward):
    fn = H + '::baumWelch_forward_update'
    props = ('C13',)

    def pre(self, c):
        if c.mode == 'verify':
            wfHMM(c, c.this, states=False)
        c.assume(c.arg(0).nonnull)

    def obs(self, c, j):
        return c.arg(0)[j].t


@contract
class BwBackwardInit(Contract):
    fn = H + '::backward_init'
    props = ('C13',)

    def pre(self, c):
        c.setsize(c.this.beta_, c.this.parameters.states.t)

    def post(self, c):
        c.fill(c.new.beta_, c.this.parameters.states.t, lambda i: c.arg(0))


@contract
class BwBackwardUpdate(Contract):
    fn = H + '::baumWelch_backward_update'
    props = ('C13',)

    def pre(self, c):
        m = c.this
        wfHMM(c, m, states=False, alpha=False)
        c.setsize(m.beta_, m.parameters.states.t)
        c.assume(c.arg(1).nonnull)

    def post(self, c):
        m = c.this
        N = m.parameters.states.t
        ct, o, b, a = c.arg(0), c.arg(1), m.beta_, m.transition
        c.fill(c.new.previous_beta_, N, lambda j: b[j].t, resize=True)
        full = lambda i: sigma(N, lambda j: mul(a[add(mul(i, N), j)].t, b[j].t, o[j].t))
        lr = lambda i: add(mul(a[mul(I(2), i)].t, b[i].t, o[i].t),
                           ite(lt(i, sub(N, ONE)), mul(a[add(mul(I(2), i), ONE)].t, b[add(i, ONE)].t, o[add(i, ONE)].t), R(0)))
        c.fill(c.new.beta_, N, lambda i: mul(ct, ite(erg(m), full(i), lr(i))))


@contract
class HmmNormalize(Contract):
    fn = H + '::normalizeTransitions'
    props = ('C13',)

    def pre(self, c):
        wfHMM(c, c.this, states=False, alpha=False)

    def post(self, c):
        m = c.this
        N = m.parameters.states.t
        a, p = m.transition, m.prior
        e = erg(m)
        row = lambda i: ite(e, sigma(N, lambda j: a[add(mul(i, N), j)].t),
                            add(a[mul(I(2), i)].t, a[add(mul(I(2), i), ONE)].t))
        i = lambda x: fdiv(x, ite(e, N, I(2)))
        c.fill(c.new.transition, ite(e, mul(N, N), mul(I(2), N)), lambda x: ite(
            and_(e, le(row(i(x)), R(0))), div(R(1), toreal(N)), div(a[x].t, row(i(x)))))
        c.fill(c.new.prior, ite(e, N, ZERO), lambda j: div(p[j].t, sigma(N, lambda q: p[q].t)))


@contract
class HmmErgodic(Contract):
    fn = H + '::setErgodic'
    props = ('C13',)

    def pre(self, c):
        m = c.this
        c.assume(erg(m))
        wfHMM(c, m, states=False, alpha=False)

    def post(self, c):
        N = c.this.parameters.states.t
        c.fill(c.new.prior, N, lambda i: div(R(1), toreal(N)))
        c.fill(c.new.transition, mul(N, N), lambda i: div(R(1), toreal(N)))


@contract
class HmmLeftRight(Contract):
    fn = H + '::setLeftRight'
    props = ('C13',)

    def pre(self, c):
        m = c.this
        c.assume(not_(erg(m)))
        wfHMM(c, m, states=False, alpha=False)

    def post(self, c):
        N = c.this.parameters.states.t
        last = mul(I(2), sub(N, ONE))
        c.fill(c.new.transition, mul(I(2), N), lambda x: ite(eq(x, last), R(1), ite(eq(x, add(last, ONE)), R(0), R(Fraction(1, 2)))),
               resize=True)


@contract
class HmmCyclic(Contract):
    fn = H + '::addCyclicTransition'
    props = ('C13',)

    def pre(self, c):
        wfHMM(c, c.this, states=False, alpha=False)

    def post(self, c):
        m = c.this
        N = m.parameters.states.t
        notraining(c)
        at = ite(erg(m), mul(sub(N, ONE), N), add(mul(sub(N, ONE), I(2)), ONE))
        c.write(c.new.transition[at], ite(lt(ONE, N), c.arg(0), m.transition[at].t))


def wfStates(c, m):
    """likelihood buffers of the states"""
    N = m.parameters.states.t
    i = AT[len(m.states.p.idx)]
    b = m.states[i].likelihood_buffer_
    c.setsize(b.data_[0], b.length_.t)
    c.assume(all_(N, lambda i: and_(le(ONE, m.states[i].likelihood_buffer_.length_.t),
                                    lt(m.states[i].likelihood_buffer_.current_index_.t, m.states[i].likelihood_buffer_.length_.t))))


@contract
class HmmRegression(Contract):
    fn = H + '::regression'
    props = ('C19',)
    uses = ('GmmLikelihoodFolded', 'GmmRegression')

    def pre(self, c):
        m = c.this
        if c.mode == 'verify':
            D, DI, bim, N, G, mode = wfHMM(c, m, alpha=False, det=True)
            wfAlpha(c, m)
            wfStates(c, m)
            wfWindow(c, m)
            c.assume(lt(m.results.likeliest_state.t, N))
            e = m.parameters.regression_estimator.t
            c.assume(and_(le(ZERO, e), le(e, I(2))))
            c.setsize(c.arg(0), DI)
        c.assume(m.shared_parameters.bimodal.t)

    def post(self, c):
        m, x = c.this, c.arg(0)
        notraining(c)
        N = m.parameters.states.t
        sp = m.shared_parameters
        DO = sub(sp.dimension.t, sp.dimension_input.t)
        n = ite(eq(m.parameters.covariance_mode.t, ZERO), mul(DO, DO), DO)
        est = m.parameters.regression_estimator.t
        full, likeliest = eq(est, ZERO), eq(est, I(2))
        l = m.results.likeliest_state.t
        lo = ite(full, ZERO, ite(likeliest, l, m.window_minindex_.t))
        hi = ite(full, N, ite(likeliest, add(l, ONE), m.window_maxindex_.t))
        z = m.window_normalization_constant_.t
        z = ite(full, R(1), ite(le(z, R(0)), R(1), z))
        empty = c.result_vec(('real',), 0, lambda i: R(0))

        def step(st, i):
            c.run(st, 'GmmLikelihoodFolded', m.states[i], [x, empty])
            c.run(st, 'GmmRegression', m.states[i], [x])
        st, i0 = c.forall(lo, hi, step)
        r = lambda i, f, d: subst(getattr(V(c, st, m.states[i0]._p).results, f)[d].t, {i0: i})
        w = lambda i: weight(m, i)
        out = lambda f, p, d: ite(likeliest, r(l, f, d),
                                  sigma(hi, lambda i: div(mul(*([w(i)] * p), r(i, f, d)), z), lo))
        c.fill(c.new.results.output_values, DO, lambda d: out('output_values', 1, d), resize=True)
        c.fill(c.new.results.output_covariance, n, lambda d: out('output_covariance', 2, d), resize=True)


@contract
class HmmFilter(Contract):
    fn = H + '::filter'
    props = ('C12', 'C11', 'C19')
    uses = ('HmmForwardInit', 'HmmForwardUpdate', 'CircDoubleClear', 'HmmWindow', 'HmmUpdateResults', 'HmmRegression')

    def pre(self, c):
        m = c.this
        if c.mode == 'verify':
            D, DI, bim, N, G, mode = wfHMM(c, m, alpha=False, det=True)
            wfAlpha(c, m)
            wfStates(c, m)
            wfBuffer(c, m.likelihood_buffer_)
            # class of a hierarchical model: filtered by HierarchicalHMM::forward_*
            c.assume(not_(m.is_hierarchical_.t))
            e = m.parameters.regression_estimator.t
            c.assume(and_(le(ZERO, e), le(e, I(2))))
            c.setsize(c.arg(0), ite(bim, DI, D))

    def branches(self, c, st, cond, a, b):
        A, B = st.copy(), st.copy()
        ra, rb = a(A), b(B)
        for key in dict.fromkeys(list(A.fams) + list(B.fams)):
            va, vb = A.fams.get(key), B.fams.get(key)
            if va is vb:
                continue
            if va is None:
                va = c.en.try_init(key, vb)
            if vb is None:
                vb = c.en.try_init(key, va)
            st.fams[key] = ite(cond, va, vb) if isinstance(va, T) else va
        return None if ra is None else ite(cond, ra, rb)

    def post(self, c):
        m, x = c.this, c.arg(0)
        notraining(c)
        st = c.st

        def first(s):
            c.run(s, 'CircDoubleClear', m.likelihood_buffer_, [])
            return c.run(s, 'HmmForwardInit', m, [x.data, NULL])
        ct = self.branches(c, st, m.forward_initialized_.t,
                           lambda s: c.run(s, 'HmmForwardUpdate', m, [x.data, NULL]), first)
        c.write(c.new.forward_initialized_, TRUE)
        L = div(R(1), ct)
        c.write(c.new.results.instant_likelihood, L)
        c.run(st, 'HmmWindow', m, [])
        c.run(st, 'HmmUpdateResults', m, [])
        self.branches(c, st, m.shared_parameters.bimodal.t, lambda s: c.run(s, 'HmmRegression', m, [x]), lambda s: None)
        return L


def sp_reset(c):
    """empty history of likelihood_window frames"""
    m = c.this
    b, nb = m.likelihood_buffer_, V(c, c.st, m.likelihood_buffer_._p)
    W = m.shared_parameters.likelihood_window.t
    c.write(nb.length_, W)
    c.fill(nb.data_[0], W, lambda j: ite(lt(j, b.length_.t), b.data_[0][j].t, R(0)), resize=True)
    c.write(nb.current_index_, ZERO)
    c.write(nb.full_, FALSE)


@contract
class SpReset(Contract):
    fn = 'SingleClassProbabilisticModel::reset'
    props = ('C11',)

    def pre(self, c):
        m = c.this
        c.assume(m.shared_parameters.nonnull)
        c.assume(le(ONE, m.shared_parameters.likelihood_window.t))
        if c.mode == 'verify':
            c.setsize(m.likelihood_buffer_.data_[0], m.likelihood_buffer_.length_.t)

    def post(self, c):
        notraining(c)
        sp_reset(c)


@contract
class GmmReset(SpReset):
    fn = 'SingleClassGMM::reset'
    uses = ('SpReset',)


@contract
class HmmReset(SpReset):
    fn = H + '::reset'
    props = ('C12', 'C13')
    uses = ('SpReset', 'HmmCyclic')

    def pre(self, c):
        SpReset.pre(self, c)
        if c.mode == 'verify':
            wfHMM(c, c.this, states=False, alpha=False)

    def post(self, c):
        m = c.this
        notraining(c)
        sp_reset(c)
        N = m.parameters.states.t
        h = m.is_hierarchical_.t
        c.write(c.new.forward_initialized_, FALSE)
        keep = lambda v: (lambda j: ite(lt(j, v.size), v[j].t, R(0)))
        for k in range(3):
            c.fill(c.new.alpha_h[k], ite(h, N, m.alpha_h[k].size), keep(m.alpha_h[k]), resize=True)
        for f in ('alpha', 'previous_alpha_'):
            v = getattr(m, f)
            c.fill(getattr(c.new, f), ite(h, ZERO, N), keep(v), resize=True)
        for f in ('beta_', 'previous_beta_'):
            c.resize(getattr(c.new, f), ite(h, ZERO, getattr(m, f).size))
        at = ite(erg(m), mul(sub(N, ONE), N), add(mul(sub(N, ONE), I(2)), ONE))
        c.write(c.new.transition[at], ite(and_(not_(h), lt(ONE, N)), R(Fraction(5, 100)), m.transition[at].t))


@contract
class HmmExitProbabilities(Contract):
    fn = H + '::updateExitProbabilities'
    props = ('C14',)

    def pre(self, c):
        c.assume(le(ONE, c.this.parameters.states.t))

    def post(self, c):
        m = c.this
        N = m.parameters.states.t
        p = c.arg(0)
        null = not_(p.nonnull)
        c.throw_if(not_(m.is_hierarchical_.t))
        e = m.exit_probabilities_
        keep = eq(e.size, N)
        c.fill(c.new.exit_probabilities_, N, lambda i: ite(null, ite(
            eq(i, sub(N, ONE)), R(Fraction('0.1')), ite(keep, e[i].t, R(0))), p[i].t), resize=True)


@contract
class HmmExitPoint(Contract):
    fn = H + '::addExitPoint'
    props = ('C14',)

    def pre(self, c):
        m = c.this
        c.assume(le(ZERO, c.arg(0)))
        c.setsize(m.exit_probabilities_, ite(m.is_hierarchical_.t, m.parameters.states.t, m.exit_probabilities_.size))

    def post(self, c):
        m = c.this
        c.throw_if(not_(m.is_hierarchical_.t))
        c.throw_if(le(m.parameters.states.t, c.arg(0)), 'std::out_of_range')
        c.write(c.new.exit_probabilities_[c.arg(0)], c.arg(1))


# ------------------------------------------------------------ class hierarchy
HH = 'HierarchicalHMM'


def wfClasses(c, m, states=False):
    """class invariant: the models of a hierarchical HMM, seen from a class"""
    n = m.models.size
    k = m.models[AT[0]].second
    sp = m.shared_parameters
    N = k.parameters.states.t
    c.assume(all_(n, lambda i: le(ONE, m.models[i].second.parameters.states.t)))
    e = eq(k.parameters.transition_mode.t, ZERO)
    c.setsize(k.transition, ite(e, mul(N, N), mul(I(2), N)))
    c.setsize(k.prior, ite(e, N, k.prior.size))
    c.setsize(k.exit_probabilities_, N)
    c.allset(k.is_training_, FALSE)
    c.assume(all_(n, lambda i: or_(eq(m.models[i].second.parameters.transition_mode.t, ZERO),
                                   eq(m.models[i].second.parameters.transition_mode.t, ONE))))
    for j in range(3):
        c.setsize(k.alpha_h[j], N)
    c.setsize(m.prior, n)
    c.setsize(m.transition, n)
    c.setsize(m.transition[AT[0]], n)
    c.setsize(m.exit_transition, n)
    c.setsize(m.frontier_v1_, n)
    c.setsize(m.frontier_v2_, n)
    if states:
        D, DI, bim = wfShared(c, m)
        fam_ptr(c, k.shared_parameters, sp)
        c.setsize(k.states, N)
        s = k.states[AT[1]]
        fam_ptr(c, s.shared_parameters, sp)
        G, mode = k.parameters.gaussians.t, k.parameters.covariance_mode.t
        c.assume(all_(n, lambda i: le(ONE, m.models[i].second.parameters.gaussians.t)))
        c.assume(all_(n, lambda i: or_(eq(m.models[i].second.parameters.covariance_mode.t, ZERO),
                                       eq(m.models[i].second.parameters.covariance_mode.t, ONE))))
        c.allset(s.parameters.gaussians, G)
        c.allset(s.parameters.covariance_mode, mode)
        c.allset(s.is_training_, FALSE)
        c.setsize(s.mixture_coeffs, G)
        c.setsize(s.beta, G)
        c.setsize(s.components, G)
        wfComponents(c, s, G, mode, D, DI, bim)
        M = lambda i: m.models[i].second
        al = lambda f: all_(n, lambda i: all_(M(i).parameters.states.t, lambda j: all_(M(i).parameters.gaussians.t, lambda g: f(
            M(i).states[j].components[g]))))
        c.assume(al(lambda g: ne(g.covariance_determinant_.t, R(0))))
        c.assume(implies(bim, al(lambda g: ne(g.covariance_determinant_input_.t, R(0)))))
    return n


@contract
class HhmmLikelihoodAlpha(Contract):
    """probability of each class at one exit level (or over all of them)"""
    fn = HH + '::likelihoodAlpha'
    props = ('C14',)

    def pre(self, c):
        m = c.this
        if c.mode == 'verify':
            wfClasses(c, m)
        c.setsize(c.arg(1), m.models.size)
        c.assume(lt(c.arg(0), I(3)))

    def post(self, c):
        m, e = c.this, c.arg(0)
        n = m.models.size
        k = lambda l: m.models[l].second
        lev = lambda l, x: sigma(k(l).parameters.states.t, lambda i: k(l).alpha_h[x][i].t)
        c.fill(V(c, c.st, c.vals[1]), n, lambda l: ite(lt(e, ZERO), add(lev(l, ZERO), lev(l, ONE), lev(l, I(2))), lev(l, e)))


@contract
class HhmmPrior(Contract):
    fn = HH + '::updatePrior'
    props = ('C14',)

    def post(self, c):
        m = c.this
        n = m.models.size
        c.fill(c.new.prior, n, lambda i: div(R(1), toreal(n)), resize=True)
        if c.mode == 'verify':
            c.goals.append(('class priors sum to one', implies(lt(ZERO, n), eq(sigma(n, lambda i: c.new.prior[i].t), R(1)))))


@contract
class HhmmTransition(Contract):
    fn = HH + '::updateTransition'
    props = ('C14',)

    def post(self, c):
        m = c.this
        n = m.models.size
        c.fill(c.new.exit_transition, n, lambda i: R(Fraction(1, 10)), resize=True)
        c.fill2(c.new.transition, n, n, lambda i, j: div(R(1), toreal(n)), resize=True)


@contract
class HhmmNormalize(Contract):
    fn = HH + '::normalizeTransitions'
    props = ('C14',)

    def pre(self, c):
        if c.mode == 'verify':
            wfClasses(c, c.this)

    def post(self, c):
        m = c.this
        n = m.models.size
        row = lambda i: sigma(n, lambda j: m.transition[i][j].t)
        c.fill(c.new.prior, n, lambda i: div(m.prior[i].t, sigma(n, lambda j: m.prior[j].t)))
        c.fill2(c.new.transition, n, n, lambda i, j: ite(lt(R(0), row(i)), div(m.transition[i][j].t, row(i)), m.transition[i][j].t))


class HhmmForward(Contract):
    props = ('C14',)
    uses = OBS

    def pre(self, c):
        if c.mode == 'verify':
            m = c.this
            wfClasses(c, m, True)
            c.setsize(c.arg(0), m.shared_parameters.dimension.t)
            c.assume(and_(not_(m.is_training_.t), not_(m.is_joining_.t)))

    def parts(self, c):
        m = c.this
        x = c.arg(0).data
        k = lambda a: m.models[a].second
        N = lambda a: k(a).parameters.states.t
        bim = m.shared_parameters.bimodal.t

        def o(a, i):
            s = k(a).states[i]
            return ite(bim, c.call(OBS[1], s, [x, I(-1)]), c.call(OBS[0], s, [x, I(-1)]))
        return m, m.models.size, k, N, o

    def alpha3(self, c, models, n, N, f):
        """models[a].second.alpha_h[x][i] := f(a, x, i), of N(a) elements each"""
        r = models.p.root
        path = models.p.path + ('[]', 'second', 'alpha_h', '[]')
        q = models[AT[0]].second.alpha_h[0].p
        assert q.path == path and len(models.p.idx) == 0, (q.path, path)
        dom = and_(le(ZERO, AT[0]), lt(AT[0], n), le(ZERO, AT[1]), lt(AT[1], I(3)))
        key = (r, path + ('[]',))
        old = c.en.fam(c.st, key, q.ty[1], 3)
        c.st.fams[key] = ite(and_(dom, le(ZERO, AT[2]), lt(AT[2], N(AT[0]))), f(AT[0], AT[1], AT[2]), old)
        key = (r, path + ('#size',))
        old = c.en.fam(c.st, key, U, 2)
        c.st.fams[key] = ite(dom, N(AT[0]), old)


@contract
class HhmmForwardInit(HhmmForward):
    fn = HH + '::forward_init'

    def post(self, c):
        m, n, k, N, o = self.parts(c)
        e = lambda a: eq(k(a).parameters.transition_mode.t, ZERO)
        w = lambda a, i: ite(e(a), mul(m.prior[a].t, k(a).prior[i].t, o(a, i)), ite(eq(i, ZERO), mul(m.prior[a].t, o(a, ZERO)), R(0)))
        lik = lambda a: ite(e(a), sigma(N(a), lambda i: mul(m.prior[a].t, k(a).prior[i].t, o(a, i))), mul(m.prior[a].t, o(a, ZERO)))
        s = sigma(n, lik)
        c.each(c.new.models, n, 'second.results.instant_likelihood', lik)
        self.alpha3(c, m.models, n, N, lambda a, x, i: ite(eq(x, ZERO), div(w(a, i), s), R(0)))
        c.set(c.new.forward_initialized_, TRUE)
