"""TrainingSet: statistics over the phrases it holds"""
from ..spec import *
from ..term import R
from .phrase import frame, FLT_MAX

T = 'TrainingSet'


def phrase(c, ts, p):
    """the p-th phrase of the set"""
    return V(c, c.oldst, ts.phrases_[p].second.p)


def wfSet(c, ts, streams=True):
    """every phrase of the set exists, has the dimensions of the set and
    consistent lengths"""
    D, DI, bim = ts.dimension.t, ts.dimension_input.t, ts.bimodal_.t
    c.assume(le(ONE, D))
    c.assume(implies(bim, and_(le(ONE, DI), lt(DI, D))))
    c.assume(all_(ts.phrases_.size, lambda p: ts.phrases_[p].second.nonnull))
    # (only the phrases of the set are read: the others may be assumed alike)
    ph = phrase(c, ts, AT[0])
    ph = V(c, c.oldst, Place(ph._p.root, ph._p.path, (AT[0],), ph._p.ty))
    c.allset(ph.dimension, D)
    c.allset(ph.dimension_input, DI)
    c.allset(ph.bimodal_, bim)
    # class invariant of a phrase: its length is that of the shorter stream
    if streams:
        c.allset(ph.length_, ite(bim, tmin(ph.input_length_.t, ph.output_length_.t), ph.input_length_.t))
    return D, DI, bim


def total(c, ts, f, n=None):
    """sum over all frames of all phrases"""
    def one(p):
        ph = phrase(c, ts, p)
        return sigma(ph.length_.t, lambda t: f(frame(c, ph, t, n)))
    return sigma(ts.phrases_.size, one)


def frames(c, ts):
    return isum(ts.phrases_.size, lambda p: phrase(c, ts, p).length_.t)


def tmean(c, ts, d):
    return div(total(c, ts, lambda x: x, d), toreal(frames(c, ts)))


class Stat(Contract):
    props = ('C21',)

    def pre(self, c):
        if c.mode == 'verify':
            wfSet(c, c.this)
            c.assume(le(ONE, frames(c, c.this)))


@contract
class TrainingSetMean(Stat):
    fn = T + '::mean'
    uses = ('PhraseGetValue', 'PhraseSize')

    def post(self, c):
        ts = c.this
        return c.result_vec(('real',), ts.dimension.t, lambda d: tmean(c, ts, d))


@contract
class TrainingSetStandardDeviation(Stat):
    fn = T + '::standardDeviation'
    uses = ('PhraseGetValue', 'PhraseSize', 'TrainingSetMean')

    def post(self, c):
        ts = c.this

        def sd(d):
            m = tmean(c, ts, d)
            return app('sqrt', (div(total(c, ts, lambda x: mul(sub(x, m), sub(x, m)), d), toreal(frames(c, ts))),), 'R')
        return c.result_vec(('real',), ts.dimension.t, sd)


@contract
class TrainingSetMinmax(Stat):
    """over the frames recorded in each stream"""
    fn = T + '::minmax'
    uses = ('PhraseGetValue', 'PhraseSize', 'PhraseInputSize', 'PhraseOutputSize')

    def check(self, c, ret):
        ts = c.this
        D, DI, bim = ts.dimension.t, ts.dimension_input.t, ts.bimodal_.t
        r = V(c, c.st, ret)
        c.ensure('one pair per dimension', eq(r.size, D))
        d = fresh('d', 'I')
        tm.RANGE[d] = (ZERO, D)

        def ext(op, none):
            def one(p):
                ph = phrase(c, ts, p)
                n = ite(bim, ite(lt(d, DI), ph.input_length_.t, ph.output_length_.t), ph.length_.t)
                return ite(lt(ZERO, n), big(op, n, lambda t: frame(c, ph, t, d)), none)
            return big(op, ts.phrases_.size, one)

        ok = and_(le(ZERO, d), lt(d, D), lt(ZERO, ts.phrases_.size))
        c.ensure('first is the minimum of the dimension over all frames',
                 implies(ok, eq(r[d].first.t, tmin(FLT_MAX, ext('minof', FLT_MAX)))))
        c.ensure('second is the maximum of the dimension over all frames',
                 implies(ok, eq(r[d].second.t, tmax(neg(FLT_MAX), ext('maxof', neg(FLT_MAX))))))
