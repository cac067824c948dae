"""SingleClassGMM: likelihood, regression, responsibilities, results"""
from ..spec import *
from ..term import R
from .gaussian import wfG, diagonal

S = 'SingleClassGMM'


def wfShared(c, m):
    sp = m.shared_parameters
    c.assume(sp.nonnull)
    D, DI, bim = sp.dimension.t, sp.dimension_input.t, sp.bimodal.t
    c.assume(le(ONE, D))
    c.assume(implies(bim, and_(le(ONE, DI), lt(DI, D))))
    return D, DI, bim


def wfBuffer(c, b):
    c.setsize(b.data_[0], b.length_.t)
    c.assume(and_(le(ONE, b.length_.t), lt(b.current_index_.t, b.length_.t)))


def wfGMM(c, m, det=False, outcov=True):
    """class invariant of a (single class) mixture; m may have generic indices"""
    D, DI, bim = wfShared(c, m)
    M = m.parameters.gaussians.t
    mode = m.parameters.covariance_mode.t
    c.assume(le(ONE, M))
    c.assume(or_(eq(mode, ZERO), eq(mode, ONE)))
    c.setsize(m.mixture_coeffs, M)
    c.setsize(m.beta, M)
    c.setsize(m.components, M)
    wfComponents(c, m, M, mode, D, DI, bim)
    if det:
        nondegenerate(c, m, M, bim)
    return D, DI, bim, M, mode


def wfComponents(c, m, M, mode, D, DI, bim):
    i = AT[len(m.components.p.idx)]
    g = m.components[i]
    c.allset(g.dimension, D)
    c.allset(g.dimension_input, DI)
    c.allset(g.bimodal_, bim)
    c.allset(g.covariance_mode, mode)
    wfG(c, g, D, DI, bim)
    DO = sub(D, DI)
    c.setsize(g.output_covariance, ite(bim, ite(eq(mode, ZERO), mul(DO, DO), DO), g.output_covariance.size))


def nondegenerate(c, m, M, bim):
    c.assume(all_(M, lambda i: ne(m.components[i].covariance_determinant_.t, R(0))))
    c.assume(implies(bim, all_(M, lambda i: ne(m.components[i].covariance_determinant_input_.t, R(0)))))


def notraining(c):
    c.throw_if(c.this.is_training_.t)


@contract
class GmmObsProb(Contract):
    fn = S + '::obsProb'
    props = ('C09',)
    uses = ('GaussLikelihood',)
    lik = 'GaussLikelihood'
    bimodal = False
    folded = False      # callers see the value as one symbol
    opaque_name = 'obsProb'

    def pre(self, c):
        if c.mode == 'verify':
            wfGMM(c, c.this, det=True)
        for i in range(len(c.vals) - 1):
            c.assume(c.arg(i).nonnull)

    def val(self, c):
        m = c.this
        a = [c.arg(i) for i in range(len(c.vals) - 1)]
        mc = c.arg(len(c.vals) - 1)
        term = lambda i: mul(m.mixture_coeffs[i].t, c.call(self.lik, m.components[i], a))
        return ite(lt(mc, ZERO), sigma(m.parameters.gaussians.t, term), term(mc))

    def post(self, c):
        m = c.this
        mc = c.arg(len(c.vals) - 1)
        if self.bimodal:
            c.throw_or_require(not_(m.shared_parameters.bimodal.t))
            if c.mode != 'call':
                c.assume(lt(mc, m.parameters.gaussians.t))
        else:
            c.throw_or_require(le(m.parameters.gaussians.t, mc), 'std::out_of_range')
        if self.folded and c.mode == 'call':
            return self.value(c.en, c.oldst, c.thisp, c.vals)
        return self.val(c)


@contract
class GmmObsProbInput(GmmObsProb):
    fn = S + '::obsProb_input'
    uses = ('GaussLikelihoodInput',)
    lik = 'GaussLikelihoodInput'
    bimodal = True

    def pre(self, c):
        GmmObsProb.pre(self, c)
        c.assume(lt(c.arg(len(c.vals) - 1), c.this.parameters.gaussians.t))


@contract
class GmmObsProbBimodal(GmmObsProbInput):
    fn = S + '::obsProb_bimodal'
    uses = ('GaussLikelihoodBimodal',)
    lik = 'GaussLikelihoodBimodal'


def folded(name):
    """the same contract, with its result kept as one symbol in the caller"""
    o = type(name + 'Folded', (type(REG[name]),), {'folded': True, 'props': (), 'bimodal': REG[name].bimodal})
    contract(o)
    return name + 'Folded'


OBS = tuple(folded(n) for n in ('GmmObsProb', 'GmmObsProbInput', 'GmmObsProbBimodal'))


def term(c, m, x, y, i):
    """weighted likelihood of component i for the frame x (input x, output y)"""
    g = m.components[i]
    bim = m.shared_parameters.bimodal.t
    li = c.call('GaussLikelihoodInput', g, [x.data])
    lb = c.call('GaussLikelihoodBimodal', g, [x.data, y.data])
    l = c.call('GaussLikelihood', g, [x.data])
    return mul(m.mixture_coeffs[i].t, ite(bim, ite(eq(y.size, ZERO), li, lb), l))


def push_log(c, buf, v):
    """likelihood buffer after one more value; the mean of its contents"""
    ci, N = buf.current_index_.t, buf.length_.t
    nb = V(c, c.st, buf._p)
    c.write(nb.data_[0][ci], v)
    wrap = eq(add(ci, ONE), N)
    full = or_(buf.full_.t, wrap)
    idx = ite(wrap, ZERO, add(ci, ONE))
    c.write(nb.current_index_, idx)
    c.write(nb.full_, full)
    n = ite(full, N, idx)
    return div(sigma(n, lambda j: nb.data_[0][j].t), toreal(n))


@contract
class GmmUpdateResults(Contract):
    fn = S + '::updateResults'
    props = ('C11',)
    uses = ('CircDoublePush', 'CircDoubleCount', 'CircDoubleRead')

    def pre(self, c):
        wfBuffer(c, c.this.likelihood_buffer_)

    def post(self, c):
        m = c.this
        mean = push_log(c, m.likelihood_buffer_, app('log', (m.results.instant_likelihood.t,), 'R'))
        c.write(c.new.results.log_likelihood, mean)


@contract
class GmmUpdateResultsHistory(Contract):
    """log_likelihood = mean of the logarithms of the last min(N, frames) frames"""
    fn = S + '::updateResults'
    props = ('C11',)
    uses = ('CircDoublePush', 'CircDoubleCount', 'CircDoubleRead')
    anyframe = True

    def pre(self, c):
        b = c.this.likelihood_buffer_
        N = b.length_.t
        q, r = var('ghost_q', 'I'), var('ghost_r', 'I')
        c.setsize(b.data_[0], N)
        c.assume(and_(le(ONE, N), le(ZERO, q), le(ZERO, r), lt(r, N)))
        c.set(b.current_index_, r)
        c.set(b.full_, le(ONE, q))
        hist = lambda k: app('history', (k,), 'R')
        c.allset(b.data_[0][AT[1]], ite(lt(AT[1], r), hist(add(mul(q, N), AT[1])), hist(add(mul(sub(q, ONE), N), AT[1]))))

    def check(self, c, ret):
        m = c.this
        N = m.likelihood_buffer_.length_.t
        q, r = var('ghost_q', 'I'), var('ghost_r', 'I')
        n = add(mul(q, N), r)      # frames before this one
        new = app('log', (m.results.instant_likelihood.t,), 'R')
        h = lambda k: ite(eq(k, n), new, app('history', (k,), 'R'))
        cnt = ite(and_(eq(q, ZERO), lt(add(r, ONE), N)), add(r, ONE), N)
        lo = sub(add(n, ONE), cnt)
        c.ensure('smoothed log-likelihood is the mean over the last N frames',
                 eq(c.new.results.log_likelihood.t, div(sigma(cnt, lambda j: h(add(lo, j))), toreal(cnt))))


@contract
class GmmLikelihood(Contract):
    fn = S + '::likelihood'
    props = ('C09', 'C11')
    uses = ('GmmObsProb', 'GmmObsProbInput', 'GmmObsProbBimodal', 'GmmUpdateResults')

    def pre(self, c):
        m = c.this
        if c.mode == 'verify':
            wfGMM(c, m, det=True)
            wfBuffer(c, m.likelihood_buffer_)
            c.assume(le(ONE, c.arg(0).size))

    folded = False

    def val(self, c):
        m = c.this
        return sigma(m.parameters.gaussians.t, lambda i: term(c, m, c.arg(0), c.arg(1), i))

    def post(self, c):
        m, x, y = c.this, c.arg(0), c.arg(1)
        M = m.parameters.gaussians.t
        notraining(c)
        t = lambda i: term(c, m, x, y, i)
        L = self.value(c.en, c.oldst, c.thisp, c.vals) if self.folded else self.val(c)
        c.fill(c.new.beta, M, lambda i: div(t(i), L))
        c.write(c.new.results.instant_likelihood, L)
        mean = push_log(c, m.likelihood_buffer_, app('log', (L,), 'R'))
        c.write(c.new.results.log_likelihood, mean)
        return L


@contract
class GmmLikelihoodFolded(GmmLikelihood):
    """the same contract, with the likelihood kept as one symbol in the caller"""
    props = ()
    folded = True


@contract
class GmmRegression(Contract):
    fn = S + '::regression'
    props = ('C09',)
    uses = ('GaussRegression',)

    def pre(self, c):
        m = c.this
        if c.mode == 'verify':
            D, DI, bim, M, mode = wfGMM(c, m)
            c.setsize(c.arg(0), DI)
        c.assume(m.shared_parameters.bimodal.t)

    def post(self, c):
        m, x = c.this, c.arg(0)
        notraining(c)
        sp = m.shared_parameters
        DO = sub(sp.dimension.t, sp.dimension_input.t)
        M = m.parameters.gaussians.t
        w = lambda i: m.beta[i].t
        reg = REG['GaussRegression']

        def regr(i, d):
            c2 = C(c.en, c.oldst, m.components[i]._p, [x._p, None], None, 'call')
            return reg.value1(c2, d)
        c.fill(c.new.results.output_values, DO, lambda d: sigma(M, lambda i: mul(w(i), regr(i, d))), resize=True)
        n = ite(eq(m.parameters.covariance_mode.t, ZERO), mul(DO, DO), DO)
        c.fill(c.new.results.output_covariance, n,
               lambda j: sigma(M, lambda i: mul(w(i), w(i), m.components[i].output_covariance[j].t)), resize=True)


@contract
class GmmNormalize(Contract):
    fn = S + '::normalizeMixtureCoeffs'
    props = ('C09',)

    def pre(self, c):
        wfGMM(c, c.this)

    def post(self, c):
        m = c.this
        M = m.parameters.gaussians.t
        s = sigma(M, lambda i: m.mixture_coeffs[i].t)
        c.fill(c.new.mixture_coeffs, M, lambda i: ite(lt(R(0), s), div(m.mixture_coeffs[i].t, s), div(R(1), toreal(M))))

    def check(self, c, ret):
        M = c.this.parameters.gaussians.t
        c.ensure('coefficients sum to one', eq(sigma(M, lambda i: c.new.mixture_coeffs[i].t), R(1)))


@contract
class GmmAddOffset(Contract):
    """each component's covariance diagonal + current_regularization, once"""
    fn = S + '::addCovarianceOffset'
    props = ('C10',)
    uses = ('GaussRegularize',)

    def pre(self, c):
        D, DI, bim, M, mode = wfGMM(c, c.this)
        c.setsize(c.this.current_regularization, D)

    def post(self, c):
        m = c.this
        M = m.parameters.gaussians.t
        D = m.shared_parameters.dimension.t
        r = m.current_regularization
        mode = m.parameters.covariance_mode.t
        c.each1(c.new.components, M, 'covariance', lambda i: m.components[i].covariance.size,
                lambda i, j: add(m.components[i].covariance[j].t, ite(
                    eq(mode, ZERO), diagonal(D, j, lambda d: r[d].t), r[j].t)))


@contract
class GmmInitParameters(Contract):
    fn = S + '::initParametersToDefault'
    props = ('C10',)
    uses = ('GaussRegularize',)

    def pre(self, c):
        D, DI, bim, M, mode = wfGMM(c, c.this)
        c.setsize(c.arg(0), D)

    def post(self, c):
        m, sd = c.this, c.arg(0)
        D = m.shared_parameters.dimension.t
        M = m.parameters.gaussians.t
        ab, rel = m.parameters.absolute_regularization.t, m.parameters.relative_regularization.t
        reg = lambda d: tmax(ab, mul(rel, sd[d].t))
        c.fill(c.new.current_regularization, D, reg, resize=True)
        full = eq(m.parameters.covariance_mode.t, ZERO)
        c.each1(c.new.components, M, 'covariance', ite(full, mul(D, D), D),
                lambda i, j: ite(full, add(div(ab, R(2)), diagonal(D, j, reg)), reg(j)))
        c.fill(c.new.mixture_coeffs, M, lambda i: div(R(1), toreal(M)))
