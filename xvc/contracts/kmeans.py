"""K-means: distances to the centres, nearest centre, centres as cluster means"""
from ..spec import *
from ..term import R
from .phrase import frame, FLT_MAX
from .trainingset import wfSet, phrase

K = 'KMeans'


def dist(D, x, centre):
    return app('sqrt', (sigma(D, lambda d: mul(sub(x(d), centre(d)), sub(x(d), centre(d)))),), 'R')


def named(c, v, w, n):
    """the distance between the n numbers from pointers v and w, as a named value of the positions"""
    args = []
    for q in (v, w):
        args += [a for a in list(q.arr.idx) + [q.off] if a.op != 'num']

    def build(*xs):
        xs = list(xs)

        def sub_(a):
            return a if a.op == 'num' else xs.pop(0)
        out = []
        for q in (v, w):
            ix = tuple(sub_(a) for a in q.arr.idx)
            out.append(Ptr(Place(q.arr.root, q.arr.path, ix, q.arr.ty), sub_(q.off)))
        # a position is between 0 and n
        rd = lambda q, d: tm.simp_under(c.en.read(c.oldst, c.en.padd(q, d).deref()), [le(ZERO, d), lt(d, n)])
        return dist(n, lambda d: rd(out[0], d), lambda d: rd(out[1], d))
    return opaque_at('dist', args, build)


@contract
class EuclideanDistance(Contract):
    fn = 'euclidean_distance'
    props = ('C15',)

    def pre(self, c):
        v, w, n = c.argval(0), c.argval(1), c.arg(2)
        if c.mode == 'verify':
            c.assume(nonnull(c.en, v))
            c.assume(nonnull(c.en, w))

    def post(self, c):
        v, w, n = c.argval(0), c.argval(1), c.arg(2)
        if c.mode == 'verify':
            rd = lambda q, d: c.en.read(c.oldst, c.en.padd(q, d).deref())
            return dist(n, lambda d: rd(v, d), lambda d: rd(w, d))
        return named(c, v, w, n)


@contract
class KMeansReset(Contract):
    fn = K + '::reset'
    props = ('C15',)

    def post(self, c):
        n, r = c.this.configuration.clusters.t, c.this.results.distances
        c.fill(c.new.results.distances, n, lambda k: ite(lt(k, r.size), r[k].t, R(0)), resize=True)


@contract
class KMeansFilter(Contract):
    fn = K + '::filter'
    props = ('C15',)

    def pre(self, c):
        m = c.this
        self.n, self.D = m.configuration.clusters.t, m.shared_parameters.dimension.t
        c.assume(m.shared_parameters.nonnull)
        c.assume(le(ONE, self.n))
        c.assume(le(ONE, self.D))
        c.setsize(m.results.distances, self.n)
        c.setsize(m.centers, mul(self.n, self.D))
        # the distances are finite numbers
        c.assume(lt(big('minof', self.n, lambda k: self.dist(c, k)), FLT_MAX))

    def dist(self, c, k):
        m, o = c.this, c.arg(0)
        D = m.shared_parameters.dimension.t
        return dist(D, lambda d: o[d].t, lambda d: m.centers[add(mul(k, D), d)].t)

    def post(self, c):
        m, o = c.this, c.arg(0)
        n, D = m.configuration.clusters.t, m.shared_parameters.dimension.t
        c.throw_if(ne(o.size, D), 'std::runtime_error')
        f = lambda k: self.dist(c, k)
        c.fill(c.new.results.distances, n, f)
        c.write(c.new.results.likeliest, big('amin', n, f))
