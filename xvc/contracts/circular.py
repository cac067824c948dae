"""CircularBuffer<T, channels> (T=float, 3 channels and double, 1 channel)"""
from ..spec import *


def wf(c, ch):
    """class invariant"""
    b = c.this
    for i in range(ch):
        c.setsize(b.data_[i], b.length_.t)
    c.assume(le(ONE, b.length_.t))
    c.assume(lt(b.current_index_.t, b.length_.t))


def count(b):
    return ite(b.full_.t, b.length_.t, b.current_index_.t)


def ghost(c, ch):
    """the buffer after q*N + r pushes (0 <= r < N), push k of channel i = hist(i, k)"""
    b = c.this
    N = b.length_.t
    q, r = var('ghost_q', 'I'), var('ghost_r', 'I')
    for i in range(ch):
        c.setsize(b.data_[i], N)
    c.assume(and_(le(ONE, N), le(ZERO, q), le(ZERO, r), lt(r, N)))
    c.set(b.current_index_, r)
    c.set(b.full_, le(ONE, q))
    i, j = AT[0], AT[1]
    c.allset(b.data_[i][j], contents(q, r, N, hist)(i, j))
    return q, r, N


def hist(i, k):
    return app('hist', (i, k), 'R')


def contents(q, r, N, h):
    return lambda i, j: ite(lt(j, r), h(i, add(mul(q, N), j)), h(i, add(mul(sub(q, ONE), N), j)))


def make(T, ch):
    K = 'CircularBuffer<%s,%d>' % (T, ch)
    P = 'Circ%s' % T.capitalize()

    def pushvals(c):
        a = c.arg(0)
        if isinstance(a, T_):
            return lambda i: a
        return lambda i: a[i].t

    def nn(c):
        if ch > 1:
            c.assume(ne(V(c, c.oldst, c.vals[0]).id, ZERO) if isinstance(c.vals[0], Place) else TRUE)

    class Push(Contract):
        """one push on an arbitrary well-formed buffer (used at call sites)"""
        fn = K + '::push'
        sel = '(const %s)' % T if ch == 1 else '*'
        props = ('C02',)

        def pre(self, c):
            wf(c, ch)
            nn(c)

        def post(self, c):
            b = c.this
            v = pushvals(c)
            ci, N = b.current_index_.t, b.length_.t
            for i in range(ch):
                c.write(c.new.data_[i][ci], v(I(i)))
            wrap = eq(add(ci, ONE), N)
            c.write(c.new.current_index_, ite(wrap, ZERO, add(ci, ONE)))
            c.write(c.new.full_, or_(b.full_.t, wrap))

    class PushHistory(Contract):
        """the buffer holds exactly the last N pushes, the k-th push at k mod N:
        invariant over (number of pushes, history), preserved by push"""
        fn = K + '::push'
        sel = Push.sel
        props = ('C02',)

        def pre(self, c):
            ghost(c, ch)
            nn(c)

        def check(self, c, ret):
            q, r, N = var('ghost_q', 'I'), var('ghost_r', 'I'), c.this.length_.t
            v = pushvals(c)
            n = add(mul(q, N), r)      # number of pushes so far
            wrap = eq(add(r, ONE), N)
            q2, r2 = ite(wrap, add(q, ONE), q), ite(wrap, ZERO, add(r, ONE))
            c.ensure('number of pushes advances by one', eq(add(mul(q2, N), r2), add(n, ONE)))
            c.ensure('write position is the number of pushes modulo N', eq(c.new.current_index_.t, r2))
            c.ensure('full after N pushes', iff(c.new.full_.t, le(ONE, q2)))
            h2 = lambda i, k: ite(eq(k, n), v(i), hist(i, k))
            want = contents(q2, r2, N, h2)
            for i in range(ch):
                j = fresh('j', 'I')
                tm.RANGE[j] = (ZERO, N)
                c.ensure('element j of channel %d is the most recent push at j modulo N' % i,
                         close('forall', ZERO, N, j, implies(or_(le(ONE, q2), lt(j, r2)),
                               eq(c.new.data_[i][j].t, want(I(i), j)))))
            c.ensure('length unchanged', eq(c.new.length_.t, N))

        anyframe = True

    class Clear(Contract):
        fn = K + '::clear'
        props = ('C02',)

        def pre(self, c):
            wf(c, ch)

        def post(self, c):
            c.write(c.new.current_index_, ZERO)
            c.write(c.new.full_, FALSE)

    class Size(Contract):
        fn = K + '::size'
        props = ('C02',)

        def post(self, c):
            return c.this.length_.t

    class Count(Contract):
        fn = K + '::size_t'
        props = ('C02',)

        def post(self, c):
            return count(c.this)

    class Read(Contract):
        fn = K + '::operator()'
        props = ('C02',)

        def pre(self, c):
            wf(c, ch)

        def post(self, c):
            b = c.this
            i, j = c.arg(0), c.arg(1)
            c.throw_if(or_(le(I(ch), i), le(count(b), j)), 'std::out_of_range')
            return b.data_[i][j].t

    class Mean(Contract):
        fn = K + '::mean'
        props = ('C02',)

        def pre(self, c):
            wf(c, ch)
            c.assume(le(ONE, count(c.this)))

        def post(self, c):
            b = c.this
            n = count(b)
            return c.result_vec(('real',), ch, lambda i: div(sigma(n, lambda j: b.data_[i][j].t), toreal(n)))

    class Construct(Contract):
        fn = K + '::CircularBuffer'
        sel = 1
        props = ('C02',)

        def pre(self, c):
            c.assume(le(ONE, c.arg(0)))

        def check(self, c, ret):
            b = c.new
            c.ensure('empty', and_(eq(b.current_index_.t, ZERO), not_(b.full_.t)))
            c.ensure('length', eq(b.length_.t, c.arg(0)))
            for i in range(ch):
                c.ensure('storage of channel %d' % i, eq(b.data_[i].size, c.arg(0)))
        anyframe = True

    for k in ((Push, PushHistory) if ch > 1 or PUSH1 else ()) + (Clear, Size, Count, Read, Mean, Construct):
        k.__name__ = P + k.__name__
        contract(k)


T_ = T
PUSH1 = True
make('float', 3)
make('double', 1)
