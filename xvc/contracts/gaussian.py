"""GaussianDistribution"""
from fractions import Fraction
from ..spec import *
from ..term import R, num

G = 'GaussianDistribution'
FLOOR = num(Fraction(10) ** -180, 'R')
TWOPI = num(2 * Fraction('3.141592653589793'), 'R')


def full(g):
    return eq(g.covariance_mode.t, ZERO)


def wfG(c, g, D=None, DI=None, bim=None):
    """class invariant: sizes follow the dimensions and the covariance mode"""
    if D is None:
        D = g.dimension.t
        DI = g.dimension_input.t
        bim = g.bimodal_.t
        c.assume(or_(full(g), eq(g.covariance_mode.t, ONE)))
        c.assume(le(ONE, D))
        c.assume(implies(bim, and_(le(ONE, DI), lt(DI, D))))
    c.setsize(g.mean, D)
    c.setsize(g.covariance, ite(full(g), mul(D, D), D))
    c.setsize(g.inverse_covariance_, ite(full(g), mul(D, D), D))
    c.setsize(g.inverse_covariance_input_,
              ite(bim, ite(full(g), mul(DI, DI), DI), g.inverse_covariance_input_.size))


def diagonal(D, j, f):
    """entry j of the D x D matrix with diagonal f(0..D-1): f(d) at j = d*(D+1)"""
    d = fdiv(j, add(D, ONE))
    return ite(and_(eq(j, mul(d, add(D, ONE))), lt(d, D)), f(d), R(0))


def density(d2, det, D):
    p = div(app('exp', (mul(R(Fraction(-1, 2)), d2),), 'R'),
            app('sqrt', (mul(det, app('pow', (TWOPI, toreal(D)), 'R')),), 'R'))
    return ite(lt(p, FLOOR), FLOOR, p)


def maha(g, D, x, inv):
    """squared Mahalanobis distance of x(0..D) to the mean under inv"""
    dev = lambda k: sub(x(k), g.mean[k].t)
    return ite(full(g),
               sigma(D, lambda l: mul(dev(l), sigma(D, lambda k: mul(inv[add(mul(l, D), k)].t, dev(k))))),
               sigma(D, lambda l: mul(inv[l].t, mul(dev(l), dev(l)))))


@contract
class GaussLikelihood(Contract):
    fn = G + '::likelihood'
    props = ('C06',)
    opaque_name = 'lik'
    positive = True

    def pre(self, c):
        if c.mode == 'verify':
            wfG(c, c.this)
        c.assume(c.arg(0).nonnull)

    def val(self, c):
        g, x = c.this, c.arg(0)
        return density(maha(g, g.dimension.t, lambda k: x[k].t, g.inverse_covariance_),
                       g.covariance_determinant_.t, g.dimension.t)

    def post(self, c):
        c.throw_or_require(eq(c.this.covariance_determinant_.t, R(0)))
        return self.post_value(c)

    def check(self, c, ret):
        if c.mode != 'call':
            c.ensure('never below the floor', le(FLOOR, ret))


@contract
class GaussLikelihoodInput(Contract):
    fn = G + '::likelihood_input'
    props = ('C06',)
    opaque_name = 'lik_input'
    positive = True

    def pre(self, c):
        if c.mode == 'verify':
            wfG(c, c.this)
        c.assume(c.arg(0).nonnull)

    def val(self, c):
        g, x = c.this, c.arg(0)
        DI = g.dimension_input.t
        # diagonal: the marginal uses the first entries of the inverse
        dev = lambda k: sub(x[k].t, g.mean[k].t)
        inv = g.inverse_covariance_input_
        d2 = ite(full(g),
                 sigma(DI, lambda l: mul(dev(l), sigma(DI, lambda k: mul(inv[add(mul(l, DI), k)].t, dev(k))))),
                 sigma(DI, lambda l: mul(g.inverse_covariance_[l].t, mul(dev(l), dev(l)))))
        return density(d2, g.covariance_determinant_input_.t, DI)

    def post(self, c):
        c.throw_or_require(or_(not_(c.this.bimodal_.t), eq(c.this.covariance_determinant_input_.t, R(0))))
        return self.post_value(c)


@contract
class GaussLikelihoodBimodal(Contract):
    fn = G + '::likelihood_bimodal'
    props = ('C06',)
    opaque_name = 'lik_bimodal'
    positive = True

    def pre(self, c):
        if c.mode == 'verify':
            wfG(c, c.this)
        c.assume(c.arg(0).nonnull)
        c.assume(c.arg(1).nonnull)

    def val(self, c):
        g, x, y = c.this, c.arg(0), c.arg(1)
        D, DI = g.dimension.t, g.dimension_input.t
        z = lambda k: ite(lt(k, DI), x[k].t, y[sub(k, DI)].t)       # the concatenation
        return density(maha(g, D, z, g.inverse_covariance_), g.covariance_determinant_.t, D)

    def post(self, c):
        c.throw_or_require(or_(not_(c.this.bimodal_.t), eq(c.this.covariance_determinant_.t, R(0))))
        return self.post_value(c)


@contract
class GaussRegression(Contract):
    fn = G + '::regression'
    props = ('C08',)

    def pre(self, c):
        if c.mode == 'verify':
            wfG(c, c.this)
            c.setsize(c.arg(0), c.this.dimension_input.t)

    def val(self, c, d):
        g, x = c.this, c.arg(0)
        D, DI = g.dimension.t, g.dimension_input.t
        inv = g.inverse_covariance_input_
        corr = sigma(DI, lambda e: mul(g.covariance[add(mul(add(DI, d), D), e)].t,
                                       sigma(DI, lambda f: mul(inv[add(mul(e, DI), f)].t,
                                                               sub(x[f].t, g.mean[f].t)))))
        return add(g.mean[add(DI, d)].t, ite(full(g), corr, R(0)))

    def post(self, c):
        g = c.this
        c.throw_or_require(not_(g.bimodal_.t))
        DO = sub(g.dimension.t, g.dimension_input.t)
        out = V(c, c.st, c.vals[1])
        c.fill(out, DO, lambda d: self.value1(c, d), resize=True)

    def value1(self, c, d):
        if c.mode != 'call':
            return self.val(c, d)
        x = c.vals[0]
        args = list(c.thisp.idx) + list(x.idx) + [d]

        def build(*xs):
            n, m = len(c.thisp.idx), len(x.idx)
            c2 = C(c.en, c.oldst, Place(c.thisp.root, c.thisp.path, tuple(xs[:n]), c.thisp.ty),
                   [Place(x.root, x.path, tuple(xs[n:n + m]), x.ty), None], None, 'value')
            return self.val(c2, xs[-1])
        return opaque_at('regr', args, build)


@contract
class GaussRegularize(Contract):
    fn = G + '::regularize'
    props = ('C10',)

    def pre(self, c):
        if c.mode == 'verify':
            wfG(c, c.this)
            c.setsize(c.arg(0), c.this.dimension.t)

    def post(self, c):
        g, r = c.this, c.arg(0)
        D = g.dimension.t
        cov = g.covariance
        c.fill(c.new.covariance, cov.size, lambda j: add(cov[j].t, ite(full(g), diagonal(D, j, lambda d: r[d].t), r[j].t)))
