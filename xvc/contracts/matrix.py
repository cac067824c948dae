"""Matrix<double>: product, transpose, row exchange, Gauss-Jordan inversion"""
from ..spec import *
from ..term import R, num
from .. import term as tm
from fractions import Fraction

M = 'Matrix<double>'


def wfMat(c, m):
    """the iterator points to the first of nrows*ncols values"""
    c.assume(m.data_.nonnull if hasattr(m, 'data_') else m.field('data').nonnull)


def elem(m, i):
    return m.field('data')[i].t


class NewMatrix(Contract):
    """returns a new matrix (own data) of the given size"""

    def make(self, c, nr, nc, f):
        p = c.newobj(('cls', M))
        o = V(c, c.st, p)
        c.write(o.nrows, nr)
        c.write(o.ncols, nc)
        c.write(o.ownData, TRUE)
        d = o._data
        c.resize(d, mul(nr, nc))
        q = d.p
        k = len(q.idx)
        c.st.fams[(q.root, q.path + ('[]',))] = f(AT[k])
        c.en.write(c.st, o.field('data')._p, d.data)
        return Ptr(p, None)


@contract
class MatTranspose(NewMatrix):
    fn = M + '::transpose'
    props = ('C07',)

    def pre(self, c):
        c.assume(c.this.field('data').nonnull)
        c.assume(and_(le(ONE, c.this.nrows.t), le(ONE, c.this.ncols.t)))

    def post(self, c):
        m = c.this
        nr, nc = m.nrows.t, m.ncols.t
        # entry (i, j) of the result is stored at i*nr + j
        return self.make(c, nc, nr, lambda a: elem(m, add(mul(sub(a, mul(fdiv(a, nr), nr)), nc), fdiv(a, nr))))


@contract
class MatProduct(NewMatrix):
    fn = M + '::product'
    props = ('C07', 'C08')

    def pre(self, c):
        m, o = c.this, c.arg(0)
        c.assume(o.nonnull)
        c.assume(m.field('data').nonnull)
        c.assume(o.field('data').nonnull)
        c.assume(and_(le(ONE, m.nrows.t), le(ONE, m.ncols.t), le(ONE, o.ncols.t)))

    def post(self, c):
        m, o = c.this, c.arg(0)
        c.throw_or_require(ne(m.ncols.t, o.nrows.t))
        nr, nc, n = m.nrows.t, o.ncols.t, m.ncols.t

        def f(a):
            i = fdiv(a, nc)
            j = sub(a, mul(i, nc))
            return sigma(n, lambda k: mul(elem(m, add(mul(i, n), k)), elem(o, add(mul(k, nc), j))))
        return self.make(c, nr, nc, f)


@contract
class MatSwapLines(Contract):
    fn = M + '::swap_lines'
    props = ('C07',)

    def pre(self, c):
        m = c.this
        c.assume(m.field('data').nonnull)
        c.assume(and_(lt(c.arg(0), m.nrows.t), lt(c.arg(1), m.nrows.t), le(ONE, m.ncols.t)))

    def post(self, c):
        m = c.this
        i, j, n = c.arg(0), c.arg(1), m.ncols.t
        size = mul(m.nrows.t, n)

        def f(a):
            r = fdiv(a, n)
            return elem(m, add(sub(a, mul(r, n)), mul(n, ite(eq(r, i), j, ite(eq(r, j), i, r)))))
        c.fill(c.new.field('data'), size, f)


EPS = num(Fraction(1, 10 ** 9), 'R')


def delta(a, b):
    return ite(eq(a, b), R(1), R(0))


def left_inverse(A, n, Rr):
    """R A = 1: sum_l R(i,l) A(l,j) = delta(i,j) for all i, j"""
    return all_(n, lambda i: all_(n, lambda j: eq(sigma(n, lambda l: mul(Rr(i, l), A(l, j))), delta(i, j))))


def signature(n, A):
    return sigma(n, lambda i: sigma(n, lambda j: mul(A(i, j), app('wt', (i, j), 'R'))))


def det_of(n, A):
    """the determinant of A, uninterpreted (a function of n and the entries)"""
    return opaque('det', signature(n, A))


def inv_of(n, A, i, l):
    return opaque_at('inverse', [i, l], lambda i, l: add(signature(n, A), app('ij', (i, l), 'R')))


def singular(n, A):
    return opaque('singular', lt(signature(n, A), app('eps', (), 'R')))


@contract
class MatGaussJordan(NewMatrix):
    """square case.  The elimination loop is specified by its invariant:
    the augmented matrix [B|E] satisfies E*A = B, the first k columns of B are
    unit columns, and every step is a row exchange followed by the elementary
    operations of the elimination; *det collects pivots and signs."""
    fn = M + '::gauss_jordan_inverse'
    props = ('C07',)
    maythrow = ('std::runtime_error',)
    throw_unchanged = False
    anyframe = True

    def pre(self, c):
        m = c.this
        n = m.nrows.t
        c.assume(le(ONE, n))
        c.set(m.ncols, n)
        c.assume(m.field('data').nonnull)
        if c.mode == 'verify':
            c.assume(c.arg(0).nonnull)
            c.assume(ne(c.arg(0).id, m.field('data').id))

    def matrix(self, c):
        m = c.this
        n = m.nrows.t
        return n, lambda i, j: elem(m, add(mul(i, n), j))

    def post(self, c):
        if c.mode != 'call':
            return None
        n, A = self.matrix(c)
        c.throw_if(singular(n, A))
        d = c.argval(0)
        c.en.write(c.st, d.deref() if d.off is not None else d.arr, det_of(n, A))
        r = self.make(c, n, n, lambda a: inv_of(n, A, fdiv(a, n), sub(a, mul(n, fdiv(a, n)))))
        o = V(c, c.st, r.arr)
        c.ensure('', left_inverse(A, n, lambda i, l: o._data[add(mul(i, n), l)].t))
        return r

    def check(self, c, ret):
        if c.mode == 'call':
            return
        en = c.en
        n, A = self.matrix(c)
        pre = tuple(c.pre)
        o = V(c, c.st, ret.arr)
        i, j, l, k = [var('gj_' + x, 'I') for x in 'ijlk']
        out = o._data[add(mul(i, n), j)].t
        dv = c.argval(0)
        dcell = c.en.read(c.st, dv.deref() if dv.off is not None else dv.arr)
        recs = en.recdefs
        X = [f for f in fns(o._data[i].t) if f in recs]
        Y = [f for f in fns(dcell) if f in recs]
        if len(X) != 1 or len(Y) != 1:
            raise Unsupported('Gauss-Jordan: elimination loop not recognised')
        X, Y = X[0], Y[0]
        cell, kx, step, pc, N = recs[X]
        celld, kd, stepd, pcd, Nd = recs[Y]
        B = lambda K, r, q: app(X, (K, add(mul(I(2), r, n), q)), 'R')
        rng = lambda x, hi: (le(ZERO, x), lt(x, hi))
        ki = rng(k, n)
        P = sorted(f for f in fns(stepd) if f.startswith('N!'))
        if len(P) != 1:
            raise Unsupported('Gauss-Jordan: pivot search not recognised')
        Np = app(P[0], (k,), 'I')
        p = add(k, Np)
        at = lambda t, a, kk: subst(t, {kk: k, AT[0]: a})
        eps = EPS
        piv = B(k, p, k)
        S = lambda r, q: ite(eq(r, k), B(k, p, q), ite(eq(r, p), B(k, k, q), B(k, r, q)))
        G = lambda name, goal, hyps=(): c.goals.append((name, goal, pre + tuple(hyps)))
        kpc = tuple(subst(h, {kx: k}) for h in pc)
        big_ = not_(lt(tabs(piv), eps))
        pr = (le(ZERO, Np), lt(p, n))
        G('the loop runs once per column', eq(N, n))
        G('the pivot row is searched from row k on', and_(*pr), kpc)
        G('the pivot is at least the threshold in absolute value', big_, kpc)
        # [B|E] at the start
        G('augmented matrix initially [A | 1]', eq(subst(cell.init, {AT[0]: add(mul(I(2), i, n), j)}),
          ite(lt(j, n), A(i, j), delta(sub(j, n), i))), rng(i, n) + rng(j, mul(I(2), n)))
        # one step
        new = lambda r, q: ite(eq(r, k), div(B(k, p, q), piv), sub(S(r, q), div(mul(S(r, k), B(k, p, q)), piv)))
        G('one step exchanges rows k and p and eliminates column k', eq(at(step, add(mul(I(2), i, n), j), kx), new(i, j)),
          ki + pr + rng(i, n) + rng(j, mul(I(2), n)))
        # determinant
        dp = V(c, c.oldst, self_place(dv))
        didx = dict(zip(AT, self_place(dv).idx))
        D = lambda K: app(Y, (K,) + tuple(self_place(dv).idx), 'R')
        G('*det is 1 initially', eq(subst(celld.init, didx), R(1)))
        G('*det is multiplied by the pivot, negated when rows are exchanged',
          eq(subst(subst(stepd, {kd: k}), didx), mul(D(k), piv, ite(eq(Np, ZERO), R(1), R(-1)))), ki + pr)
        G('*det is the product collected by the elimination', eq(dcell, D(n)))
        a, b = var('gj_a', 'I'), var('gj_b', 'I')
        other = lambda t: subst(t, {AT[0]: a, AT[1]: b})
        oth = (not_(and_(*[eq(x, y) for x, y in zip((a, b), self_place(dv).idx)])),)
        H0 = en.read(c.oldst, Place(self_place(dv).root, self_place(dv).path, (a, b), ('real',)))
        G('no other value is written (initially)', eq(other(celld.init), H0), oth)
        G('no other value is written (step)', eq(other(subst(stepd, {kd: k})), app(Y, (k, a, b), 'R')), oth + ki)
        # invariants, over the step just proved
        hEA = all_(n, lambda i: all_(n, lambda j: eq(sigma(n, lambda l: mul(B(k, i, add(n, l)), A(l, j))), B(k, i, j))))
        G('invariant E A = B initially', eq(sigma(n, lambda l: mul(delta(l, i), A(l, j))), A(i, j)), rng(i, n) + rng(j, n))
        nz = ne(piv, R(0))
        G('a pivot above the threshold is not zero', nz, (big_,))
        for nm, cs in (('row k', (eq(i, k),)), ('row p', (ne(i, k), eq(i, p))), ('other rows', (ne(i, k), ne(i, p)))):
            G('invariant E A = B preserved, ' + nm, eq(sigma(n, lambda l: mul(new(i, add(n, l)), A(l, j))), new(i, j)),
              (nz,) + ki + pr + rng(i, n) + rng(j, n) + cs + tuple(
                  eq(sigma(n, lambda l: mul(B(k, r, add(n, l)), A(l, j))), B(k, r, j)) for r in (i, k, p)))
            G('invariant unit columns preserved, ' + nm, eq(new(i, j), delta(i, j)),
              (nz,) + ki + pr + rng(i, n) + (le(ZERO, j), lt(j, k)) + cs + tuple(
                  eq(B(k, r, j), delta(r, j)) for r in (i, k, p)))
            G('column k becomes a unit column, ' + nm, eq(new(i, k), delta(i, k)), (nz,) + ki + pr + rng(i, n) + cs)
        # result
        G('the result is the right half', eq(out, B(n, i, add(n, j))), rng(i, n) + rng(j, n))
        G('the result has n*n values', eq(o._data.size, mul(n, n)))
        G('the result owns n x n values', and_(eq(o.nrows.t, n), eq(o.ncols.t, n), o.ownData.t))
        # determinant lemma (trusted: effect of elementary operations)
        db = lambda K: app('det_of_left_block', (K,), 'R')
        dA = det_of(n, A)
        G('invariant det * det(B) = det(A) preserved',
          eq(mul(D(k), piv, ite(eq(Np, ZERO), R(1), R(-1)), db(add(k, ONE))), dA),
          (eq(mul(D(k), db(k)), dA), eq(db(k), mul(piv, ite(eq(Np, ZERO), R(1), R(-1)), db(add(k, ONE))))))
        G('*det is the determinant', eq(D(n), dA), (eq(mul(D(n), db(n)), dA), eq(db(n), R(1))))
        en.trusted.add('determinant of a matrix under row exchange, scaling of a row, adding a multiple of a row (textbook facts)')


def self_place(v):
    return v.deref() if v.off is not None else v.arr


@contract
class MatGaussJordanNonSquare(Contract):
    fn = M + '::gauss_jordan_inverse'
    props = ('C07',)

    def pre(self, c):
        c.assume(ne(c.this.nrows.t, c.this.ncols.t))

    def post(self, c):
        c.throw_if(TRUE)
