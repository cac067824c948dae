"""SingleClassHMM: re-estimation from the posteriors"""
from fractions import Fraction
from ..spec import *
from ..term import R
from .gmm import wfComponents
from .hmm import H, wfHMM, erg
from .phrase import frame
from .trainingset import phrase, wfSet


def wfSeq(c, m, ts, N, G):
    """posteriors of the phrases of the set"""
    n = ts.phrases_.size
    T = lambda p: phrase(c, ts, p).length_.t
    i = AT[0]
    c.setsize(m.gamma_sequence_, n)
    c.setsize(m.gamma_sequence_[i], mul(T(i), N))
    c.setsize(m.epsilon_sequence_, n)
    c.setsize(m.epsilon_sequence_[i], ite(erg(m), mul(T(i), N, N), mul(T(i), I(2), N)))
    c.setsize(m.gamma_sequence_per_mixture_, n)
    c.setsize(m.gamma_sequence_per_mixture_[i], G)
    c.setsize(m.gamma_sequence_per_mixture_[i][AT[1]], mul(T(i), N))
    c.setsize(m.gamma_sum_, N)
    c.setsize(m.gamma_sum_per_mixture_, mul(N, G))


class Estimate(Contract):
    props = ('C13',)
    uses = ('PhraseSize',)
    states = False

    def pre(self, c):
        if c.mode != 'verify':
            return
        m, ts = c.this, c.arg(0)
        c.assume(ts.nonnull)
        D, DI, bim, N, G, mode = wfHMM(c, m, states=self.states, alpha=False)
        TD, TDI, tbim = wfSet(c, ts, False)
        c.assume(and_(eq(TD, D), eq(TDI, DI), iff(tbim, bim)))
        wfSeq(c, m, ts, N, G)

    def sets(self, c):
        m, ts = c.this, c.arg(0)
        N, G = m.parameters.states.t, m.parameters.gaussians.t
        T = lambda p: phrase(c, ts, p).length_.t
        return m, ts, N, G, ts.phrases_.size, T


@contract
class BwGammaSum(Estimate):
    """expected number of visits of each state (and component)"""
    fn = H + '::baumWelch_gammaSum'

    def post(self, c):
        m, ts, N, G, n, T = self.sets(c)
        c.fill(c.new.gamma_sum_, N, lambda i: sigma(n, lambda p: sigma(T(p), lambda t: m.gamma_sequence_[p][add(mul(t, N), i)].t)))
        c.fill(c.new.gamma_sum_per_mixture_, mul(N, G), lambda x: sigma(n, lambda p: sigma(T(p), lambda t: m.gamma_sequence_per_mixture_[
            p][sub(x, mul(G, fdiv(x, G)))][add(mul(t, N), fdiv(x, G))].t)))


@contract
class BwMixtureCoefficients(Estimate):
    fn = H + '::baumWelch_estimateMixtureCoefficients'
    uses = ('PhraseSize', 'GmmNormalize')
    states = True

    def post(self, c):
        m, ts, N, G, n, T = self.sets(c)
        raw = lambda i, g: add(m.states[i].mixture_coeffs[g].t, sigma(n, lambda p: sigma(T(p), lambda t: m.gamma_sequence_per_mixture_[
            p][g][add(mul(t, N), i)].t)))
        tot = lambda i: sigma(G, lambda g: raw(i, g))
        c.each1(c.new.states, N, 'mixture_coeffs', G, lambda i, g: ite(lt(R(0), tot(i)), div(raw(i, g), tot(i)), div(R(1), toreal(G))))


@contract
class BwPrior(Estimate):
    fn = H + '::baumWelch_estimatePrior'

    def pre(self, c):
        Estimate.pre(self, c)
        c.assume(erg(c.this))

    def post(self, c):
        m, ts, N, G, n, T = self.sets(c)
        w = lambda i: sigma(n, lambda p: ite(lt(ZERO, T(p)), m.gamma_sequence_[p][i].t, R(0)))
        s = sigma(n, lambda p: ite(lt(ZERO, T(p)), sigma(N, lambda i: m.gamma_sequence_[p][i].t), R(0)))
        c.fill(c.new.prior, N, lambda i: ite(lt(R(0), s), div(w(i), s), w(i)))


@contract
class BwTransitions(Estimate):
    fn = H + '::baumWelch_estimateTransitions'

    def post(self, c):
        m, ts, N, G, n, T = self.sets(c)
        reg = R(Fraction(1, 10 ** 5))
        e = erg(m)
        eps = m.epsilon_sequence_
        cnt = lambda w, x: sigma(n, lambda p: ite(lt(ZERO, T(p)), sigma(sub(T(p), ONE), lambda t: eps[p][add(mul(t, w), x)].t), R(0)))
        visits = isum(n, lambda p: ite(lt(ZERO, T(p)), ONE, ZERO))
        tot = lambda i: add(m.gamma_sum_[i].t, mul(R(2), reg))
        full = lambda x: div(cnt(mul(N, N), x), tot(fdiv(x, N)))

        def lr(x):
            i = fdiv(x, I(2))
            even = eq(x, mul(I(2), i))
            last = eq(i, sub(N, ONE))
            k = toreal(visits)
            stay = add(mul(reg, ite(last, R(2), R(1)), k), cnt(mul(I(2), N), x))
            go = add(mul(reg, k), cnt(mul(I(2), N), x))
            return ite(even, div(stay, tot(i)), ite(last, R(0), div(go, tot(i))))
        c.fill(c.new.transition, ite(e, mul(N, N), mul(I(2), N)), lambda x: ite(e, full(x), lr(x)), resize=True)
