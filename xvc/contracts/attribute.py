"""Attributes: values stay within their limits"""
from ..spec import *
from fractions import Fraction
from ..term import R

OUT = 'std::domain_error'


def within(v, lo, hi):
    return and_(le(lo, v), le(v, hi))


def scalar(tname, ctype):
    q = 'const %s &' % ctype

    class Check(Contract):
        fn = 'checkLimits'
        sel = 'void (%s, ' % q
        props = ('C01',)

        def post(self, c):
            v, lo, hi = [c.arg(i) for i in range(3)]
            c.throw_if(not_(within(v, lo, hi)), OUT)

    class Set(Contract):
        fn = 'Attribute<%s>::set' % tname
        props = ('C01',)
        throw_unchanged = True

        def post(self, c):
            m, v = c.this, c.arg(0)
            c.throw_if(not_(within(v, m.limit_min_.t, m.limit_max_.t)), OUT)
            c.set(c.new.value_, v)
            c.set(c.new.changed, TRUE)
            c.goals.append(('the stored value is within the limits', within(c.new.value_.t, m.limit_min_.t, m.limit_max_.t)))

    class Limits(Contract):
        fn = 'Attribute<%s>::setLimits' % tname
        props = ('C01',)

        def post(self, c):
            c.set(c.new.limit_min_, c.arg(0))
            c.set(c.new.limit_max_, c.arg(1))

    n = ''.join(x.capitalize() for x in tname.split())
    for k, b in (('Check', Check), ('Set', Set), ('Limits', Limits)):
        b.__name__ = 'Attr%s%s' % (k, n)
        contract(b)


for t in ('unsigned int', 'int', 'float', 'double'):
    scalar(t, t)


class Plain(Contract):
    """types without limits: any value is stored"""
    props = ('C01',)

    def post(self, c):
        c.set(c.new.value_, c.arg(0))
        c.set(c.new.changed, TRUE)


for t, n in (('bool', 'Bool'),):
    contract(type('AttrSet' + n, (Plain,), {'fn': 'Attribute<%s>::set' % t}))


@contract
class AttrSetVector(Contract):
    fn = 'Attribute<vector<float>>::set'
    props = ('C01',)
    throw_unchanged = True

    def post(self, c):
        m, v = c.this, c.arg(0)
        n = v.size
        c.throw_if(and_(lt(ZERO, m.size_.t), ne(n, m.size_.t)), OUT)
        # some element lies outside: the element at the first minimum of "lies within" does
        bad = lambda i: or_(lt(v[i].t, m.limit_min_.t), lt(m.limit_max_.t, v[i].t))
        w = big('amin', n, lambda i: ite(bad(i), ZERO, ONE))
        c.throw_if(and_(lt(ZERO, n), bad(w)), OUT)
        c.fill(c.new.value_, n, lambda i: v[i].t, resize=True)
        c.set(c.new.changed, TRUE)
        c.goals.append(('every stored element is within the limits', all_(n, lambda i: within(
            c.new.value_[i].t, m.limit_min_.t, m.limit_max_.t))))


class SharedChanged(Contract):
    """the structure keeps its attributes consistent when one of them changes"""
    fn = 'SharedParameters::onAttributeChange'
    props = ('C01',)
    listener = 'SharedParameters'
    anyframe = True
    attr = None

    def values(self, en, this, vals):
        f = {n: t for n, t, _ in en.ast.fields('SharedParameters')}
        return [Ptr(this.f(self.attr, f[self.attr]))]

    def pre(self, c):
        p = c.this
        d, di = p.dimension, p.dimension_input
        c.assume(eq(d.limit_max_.t, I(4294967295)))          # never changed
        c.assume(within(d.value_.t, d.limit_min_.t, d.limit_max_.t))
        c.assume(le(ONE, d.limit_min_.t))
        c.assume(le(di.limit_min_.t, ONE))
        c.assume(eq(p.column_names.value_.size, d.value_.t) if self.attr != 'dimension' else TRUE)
        for a in ('bimodal', 'dimension', 'dimension_input'):
            c.assume(var('callback:' + a + '.callback_', 'B'))
        c.throw_if(FALSE)

    def check(self, c, ret):
        o, p = c.this, c.new
        d, di = p.dimension, p.dimension_input
        bi = o.bimodal.value_.t
        c.ensure('dimension within its limits', within(d.value_.t, d.limit_min_.t, d.limit_max_.t))
        c.ensure('input dimension within its limits', within(di.value_.t, di.limit_min_.t, di.limit_max_.t))
        c.ensure('input dimension below dimension', lt(di.value_.t, d.value_.t))
        c.ensure('one column name per dimension', eq(p.column_names.value_.size, d.value_.t))
        c.ensure('dimension limit kept', eq(d.limit_max_.t, o.dimension.limit_max_.t))
        self.more(c, o, p, d, di, bi)


@contract
class SharedBimodalChanged(SharedChanged):
    attr = 'bimodal'

    def pre(self, c):
        SharedChanged.pre(self, c)
        c.assume(lt(c.this.dimension_input.value_.t, c.this.dimension.value_.t))

    def more(self, c, o, p, d, di, bi):
        c.ensure('smallest dimension', eq(d.limit_min_.t, ite(bi, I(2), ONE)))
        c.ensure('dimension kept if possible', eq(d.value_.t, ite(and_(bi, lt(o.dimension.value_.t, I(2))), I(2), o.dimension.value_.t)))
        c.ensure('limits of the input dimension', and_(
            eq(di.limit_min_.t, ite(bi, ONE, ZERO)), eq(di.limit_max_.t, ite(bi, sub(d.value_.t, ONE), ZERO))))
        v = o.dimension_input.value_.t
        c.ensure('input dimension', eq(di.value_.t, ite(bi, ite(lt(v, ONE), ONE, v), ZERO)))


@contract
class SharedDimensionChanged(SharedChanged):
    attr = 'dimension'

    def pre(self, c):
        SharedChanged.pre(self, c)
        p = c.this
        # the input dimension was valid before; the new dimension was checked against its limits
        c.assume(eq(p.dimension.limit_min_.t, ite(p.bimodal.value_.t, I(2), ONE)))
        c.assume(eq(p.dimension_input.limit_min_.t, ite(p.bimodal.value_.t, ONE, ZERO)))
        c.assume(le(p.dimension_input.limit_min_.t, p.dimension_input.value_.t))

    def more(self, c, o, p, d, di, bi):
        c.ensure('dimension kept', eq(d.value_.t, o.dimension.value_.t))
        c.ensure('limits of the input dimension', and_(
            eq(di.limit_min_.t, o.dimension_input.limit_min_.t), eq(di.limit_max_.t, sub(d.value_.t, ONE))))
        v = o.dimension_input.value_.t
        c.ensure('input dimension', eq(di.value_.t, ite(lt(v, d.value_.t), v, sub(d.value_.t, ONE))))


for t, n in (('unsigned int', 'UnsignedInt'),):
    contract(type('AttrMax' + n, (Contract,), {'fn': 'Attribute<%s>::setLimitMax' % t, 'props': ('C01',),
             'post': lambda self, c: c.set(c.new.limit_max_, c.arg(0))}))
    contract(type('AttrMin' + n, (Contract,), {'fn': 'Attribute<%s>::setLimitMin' % t, 'props': ('C01',),
             'post': lambda self, c: c.set(c.new.limit_min_, c.arg(0))}))


# ---------------------------------------------------------------- parameter structures
def same(c, a, b, path, ty):
    """equality of two values of a field"""
    return None


SHARED = {'bimodal': None, 'dimension': 1, 'dimension_input': 1, 'em_algorithm_min_iterations': 1, 'em_algorithm_max_iterations': 1,
          'em_algorithm_percent_chg': 1, 'likelihood_window': 1}
SETS = {'SharedParameters': SHARED,
        'ClassParameters<GMM>': {'gaussians': 1, 'relative_regularization': 1, 'absolute_regularization': 1, 'covariance_mode': None},
        'ClassParameters<HMM>': {'states': 1, 'gaussians': 1, 'relative_regularization': 1, 'absolute_regularization': 1,
                                 'covariance_mode': None, 'transition_mode': None, 'regression_estimator': None, 'hierarchical': None},
        'ClassParameters<KMeans>': {'clusters': 1, 'max_iterations': 1, 'relative_distance_threshold': 1}}
# field -> (default, smallest value)
DEFAULT = {'SharedParameters': {'bimodal': (FALSE, None), 'dimension': (ONE, ONE), 'dimension_input': (ZERO, ZERO),
                                'em_algorithm_min_iterations': (I(10), ONE), 'em_algorithm_max_iterations': (ZERO, ZERO),
                                'em_algorithm_percent_chg': (R('1/100'), R(0)), 'likelihood_window': (ONE, ONE)},
           'ClassParameters<GMM>': {'gaussians': (I(10), ONE), 'relative_regularization': (R('1/100'), 'e-20'),
                                    'absolute_regularization': (R('1/1000'), 'e-20'), 'covariance_mode': (ZERO, None)},
           'ClassParameters<HMM>': {'states': (I(10), ONE), 'gaussians': (ONE, ONE), 'relative_regularization': (R('1/100'), 'e-20'),
                                    'absolute_regularization': (R('1/1000'), 'e-20'), 'covariance_mode': (ZERO, None),
                                    'hierarchical': (TRUE, None)},
           'ClassParameters<KMeans>': {'clusters': (ONE, ONE), 'max_iterations': (I(50), ONE)}}


def params(cls):
    fields = SETS[cls]
    ctor = cls + '::' + cls.split('<')[0]

    class Default(Contract):
        fn = ctor
        sel = 'void ()'
        props = ('C01',)
        anyframe = True

        def pre(self, c):
            c.throw_if(FALSE)

        def check(self, c, ret):
            for f, (v, lo) in DEFAULT[cls].items():
                a = c.new.field(f)
                c.ensure('default ' + f, eq(a.value_.t, v))
                if lo is not None:
                    c.ensure('smallest ' + f, eq(a.limit_min_.t, R(Fraction(1, 10 ** 20)) if lo == 'e-20' else lo))

    def equal(c, dst, src):
        for f, lim in fields.items():
            a, b = dst.field(f), src.field(f)
            c.ensure('same ' + f, eq(a.value_.t, b.value_.t))
            if lim:
                c.ensure('same limits of ' + f, and_(eq(a.limit_min_.t, b.limit_min_.t), eq(a.limit_max_.t, b.limit_max_.t)))
        if cls == 'SharedParameters':
            c.ensure('same number of column names', eq(dst.column_names.value_.size, src.column_names.value_.size))
            c.ensure('same column names', all_(src.column_names.value_.size, lambda i: eq(
                dst.column_names.value_[i].t, src.column_names.value_[i].t)))

    class Copy(Contract):
        fn = ctor
        sel = 'void (const %s &)' % cls
        props = ('C18',)
        anyframe = True

        def pre(self, c):
            c.throw_if(FALSE)

        def check(self, c, ret):
            equal(c, c.new, c.arg(0))

    class Assign(Copy):
        fn = cls + '::operator='
        sel = None

    n = ''.join(ch for ch in cls if ch.isalnum())
    for k, b in (('Default', Default), ('Copy', Copy), ('Assign', Assign)):
        b.__name__ = n + k
        contract(b)


for _c in SETS:
    params(_c)
