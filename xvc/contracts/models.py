"""Multi-class models: results over the classes"""
from ..spec import *
from ..term import R

ARR = ('instant_likelihoods', 'smoothed_log_likelihoods', 'smoothed_likelihoods', 'instant_normalized_likelihoods',
       'smoothed_normalized_likelihoods')


class Results(Contract):
    props = ('C11',)

    def pre(self, c):
        m = c.this
        n = m.models.size
        for a in ARR:
            c.setsize(m.results.field(a), n)

    def post(self, c):
        m = c.this
        n = m.models.size
        inst = lambda i: m.models[i].second.results.instant_likelihood.t
        slog = lambda i: m.models[i].second.results.log_likelihood.t
        sm = lambda i: app('exp', (slog(i),), 'R')
        r = c.new.results
        c.fill(r.instant_likelihoods, n, inst)
        c.fill(r.smoothed_log_likelihoods, n, slog)
        c.fill(r.smoothed_likelihoods, n, sm)
        c.fill(r.instant_normalized_likelihoods, n, lambda i: div(inst(i), sigma(n, inst)))
        c.fill(r.smoothed_normalized_likelihoods, n, lambda i: div(sm(i), sigma(n, sm)))
        best = big('amax', n, slog)
        c.write(r.likeliest, ite(lt(ZERO, n), m.models[best].first.t, m.results.likeliest.t))
        if c.mode == 'verify':
            c.goals.append(('normalised likelihoods sum to one', implies(ne(sigma(n, inst), R(0)), eq(
                sigma(n, lambda i: r.instant_normalized_likelihoods[i].t), R(1)))))
            c.goals.append(('smoothed normalised likelihoods sum to one', implies(ne(sigma(n, sm), R(0)), eq(
                sigma(n, lambda i: r.smoothed_normalized_likelihoods[i].t), R(1)))))


@contract
class GmmModelResults(Results):
    fn = 'GMM::updateResults'


@contract
class HhmmModelResults(Results):
    fn = 'HierarchicalHMM::updateResults'
