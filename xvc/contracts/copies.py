"""Copies: a copied or assigned object has the content of its source"""
from ..spec import *
from ..term import R
from .attribute import SETS

# members that make up the content of an object (scratch arrays of a computation are left out)
CONTENT = dict({k: list(v) for k, v in SETS.items()}, **{
    'GaussianDistribution': ['dimension', 'dimension_input', 'mean', 'covariance_mode', 'covariance', 'bimodal_', 'inverse_covariance_',
                             'covariance_determinant_', 'covariance_determinant_input_', 'inverse_covariance_input_', 'output_covariance'],
    'SingleClassGMM': ['label', 'shared_parameters', 'likelihood_buffer_', 'parameters', 'components', 'mixture_coeffs'],
    'SingleClassHMM': ['label', 'shared_parameters', 'likelihood_buffer_', 'parameters', 'states', 'prior', 'transition',
                       'is_hierarchical_', 'exit_probabilities_'],
})
CONTENT['SharedParameters'] = CONTENT['SharedParameters'] + ['column_names']


def deep(c, a, b, ty, path=''):  # noqa
    """list of (path, equation) saying that a and b have the same content"""
    k = ty[0]
    if k in SCALAR or k == 'str':
        if k in ('ptr', 'sptr'):
            return [(path, eq(a.id, b.id))]
        return [(path, eq(a.t, b.t))]
    if k == 'pair':
        return deep(c, a.first, b.first, ty[1], path + '.key') + deep(c, a.second, b.second, ty[2], path)
    if k in ('vec', 'arr', 'map', 'set'):
        ety = ('pair',) + tuple(ty[1:3]) if k == 'map' else ty[1]
        if k == 'arr':
            n = I(ty[2])
            r = []
        else:
            n = b.size
            r = [('size of ' + path, eq(a.size, n))]
        for j, (q, _) in enumerate(deep(c, a[ZERO], b[ZERO], ety, path + '[]')):
            r.append((q, all_(n, lambda i, j=j: deep(c, a[i], b[i], ety, path + '[]')[j][1])))
        return r
    if k == 'cls':
        fs = {n: t for n, t, _ in c.en.ast.fields(ty[1])}
        names = CONTENT.get(ty[1])
        if ty[1].startswith('Attribute<'):
            names = [n for n in fs if n in ('value_', 'limit_min_', 'limit_max_', 'size_')]
            if fs['value_'][0] not in ('int', 'uint', 'real', 'float', 'double'):
                names = [n for n in names if not n.startswith('limit')]
        if names is None:
            names = list(fs)
        r = []
        for n in names:
            if n == 'shared_parameters' and path:
                continue    # of a class: set by the model that holds it
            r += deep(c, a.field(n), b.field(n), fs[n], (path + '.' if path else '') + n)
        return r
    raise Unsupported('copy of %r' % (ty,))


class Copied(Contract):
    props = ('C18',)
    anyframe = True

    def pre(self, c):
        c.throw_if(FALSE)

    def check(self, c, ret):
        src = c.arg(0)
        for q, t in deep(c, c.new, src, c.new.p.ty):
            c.ensure('same ' + q, t)


class CopiedModel(Copied):
    def pre(self, c):
        # a constructor that throws leaves no object
        c.assume(not_(c.arg(0).is_training_.t))
        c.throw_if(FALSE)


class AssignedModel(Copied):
    def pre(self, c):
        pass

    def post(self, c):
        c.throw_if(or_(c.this.is_training_.t, c.arg(0).is_training_.t), 'std::runtime_error')


class Gmm:
    def check(self, c, ret):
        super().check(c, ret)
        c.ensure('one likelihood per component', eq(c.new.beta.size, c.new.parameters.gaussians.t))


class Hmm:
    def check(self, c, ret):
        super().check(c, ret)
        m = c.new
        for f in ('alpha', 'previous_alpha_', 'beta_', 'previous_beta_'):
            c.ensure('one %s per state' % f, eq(m.field(f).size, m.parameters.states.t))
        c.ensure('the copy starts a new performance', not_(m.forward_initialized_.t))


def both(cls, cop=Copied, ass=Copied, props=('C18',)):
    n = ''.join(ch for ch in cls if ch.isalnum())
    contract(type('Copied' + n, (cop,), {'fn': cls + '::' + cls.split('<')[0], 'sel': 'void (const %s &)' % cls, 'props': props}))
    contract(type('Assigned' + n, (ass,), {'fn': cls + '::operator=', 'props': props}))


both('GaussianDistribution')
both('SingleClassGMM', type('CG', (Gmm, CopiedModel), {}), type('AG', (Gmm, AssignedModel), {}))
both('SingleClassHMM', type('CH', (Hmm, CopiedModel), {}), type('AH', (Hmm, AssignedModel), {}))


# K-means: the shared parameters are copied as well
for _m in ('GMM', 'HMM', 'KMeans'):
    CONTENT['Configuration<%s>' % _m] = list(SETS['ClassParameters<%s>' % _m]) + ['multithreading', 'multiClass_regression_estimator',
                                                                                  'class_parameters_']
CONTENT['KMeans'] = ['configuration', 'results', 'centers', 'initialization_mode']


def older(c, p):
    """an object that exists on entry: identifiers of new objects start at 1000000"""
    c.assume(p.nonnull)
    c.assume(lt(p.id, I(1000000)))


class Means(Copied):
    def pre(self, c):
        older(c, c.arg(0).shared_parameters)
        c.throw_if(FALSE)

    def check(self, c, ret):
        super().check(c, ret)
        a, b = c.new.shared_parameters, c.arg(0).shared_parameters
        for q, t in deep(c, a, b, b.p.ty, 'shared_parameters'):
            c.ensure('same ' + q, t)
        c.ensure('shared parameters of its own', ne(a.id, b.id))


both('KMeans', Means, Means, ('C15', 'C18'))


# models with several classes
CONTENT['GMM'] = ['configuration', 'models', 'results']
CONTENT['HierarchicalHMM'] = ['configuration', 'models', 'results', 'prior', 'exit_transition', 'transition', 'frontier_v1_', 'frontier_v2_']


class Classes(Means):
    def pre(self, c):
        older(c, c.arg(0).shared_parameters)
        c.assume(not_(c.arg(0).is_training_.t))
        c.throw_if(FALSE)

    def check(self, c, ret):
        super().check(c, ret)
        m = c.new
        c.ensure('each class uses the shared parameters of the copy', all_(m.models.size, lambda i: eq(
            m.models[i].second.shared_parameters.id, m.shared_parameters.id)))


class ClassesAssigned(Classes):
    def pre(self, c):
        older(c, c.arg(0).shared_parameters)

    def post(self, c):
        c.throw_if(or_(c.this.is_training_.t, c.arg(0).is_training_.t), 'std::runtime_error')


for _m in ('GMM', 'HierarchicalHMM'):
    both(_m, Classes, ClassesAssigned)
