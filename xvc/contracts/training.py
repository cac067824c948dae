"""EM training loop of one class"""
from ..spec import *
from ..term import R, num
from fractions import Fraction

SP = 'SingleClassProbabilisticModel'
RUN, ERROR, CANCEL, DONE = 0, 1, 2, 3


def stop(sp, t, new, old):
    """the documented stopping rule after t steps"""
    mx, mn = sp.em_algorithm_max_iterations.t, sp.em_algorithm_min_iterations.t
    return or_(le(I(1000), t), ite(le(mn, mx), le(mx, t), and_(
        le(mn, t), le(mul(R(100), tabs(div(sub(new, old), new))), sp.em_algorithm_percent_chg.t))))


@contract
class EmConverged(Contract):
    fn = SP + '::emAlgorithmHasConverged'
    props = ('C17',)

    def pre(self, c):
        c.assume(c.this.shared_parameters.nonnull)
        if c.mode == 'verify':
            c.assume(le(ZERO, c.arg(0)))

    def post(self, c):
        return stop(c.this.shared_parameters, c.arg(0), c.arg(1), c.arg(2))


@contract
class EmTerminate(Contract):
    fn = SP + '::emAlgorithmTerminate'
    props = ('C17',)

    def post(self, c):
        c.write(c.new.training_status.status, I(DONE))
        c.write(c.new.is_training_, FALSE)


@contract
class EmCancel(Contract):
    """cancellation: the flag may be raised by another thread before any call"""
    fn = SP + '::cancelTrainingIfRequested'
    props = ('C17',)

    def post(self, c):
        m = c.this
        if c.mode == 'call':
            # any thread may have raised the flag in the meantime
            n = c.en.cancelsites = getattr(c.en, 'cancelsites', {})
            flag = app('cancel.requested.%d' % n.setdefault(c.en.curcall, len(n)), tuple(c.en.loopks), 'B')
        else:
            flag = m.cancel_training_.t
        c.write(c.new.training_status.status, ite(flag, I(CANCEL), m.training_status.status.t))
        c.write(c.new.training_status.label, ite(flag, m.label.t, m.training_status.label.t))
        c.write(c.new.is_training_, and_(m.is_training_.t, not_(flag)))
        return flag


class Virtual(Contract):
    """a virtual function of the model: any behaviour of the overriders that
    leaves the members of the base class alone"""
    throws = True

    def handler(self, en, st, this, vals, fr):
        ks = tuple(en.loopks)
        nm = 'virtual.' + self.fn.split('::')[-1]
        if self.throws:
            en.throw_if(fr, st, app(nm + '.throws', ks, 'B'), 'std::runtime_error')
        return app(nm, ks, 'R') if self.value_ else None
    value_ = False


@contract
class VirtualInit(Virtual):
    fn = SP + '::emAlgorithmInit'


@contract
class VirtualUpdate(Virtual):
    fn = SP + '::emAlgorithmUpdate'
    value_ = True


@contract
class VirtualAllocate(Virtual):
    fn = SP + '::allocate'
    throws = False


@contract
class Notify(Contract):
    """progress reported to the listeners lies in [0, 1]"""
    fn = 'EventGenerator::notifyListeners'

    def handler(self, en, st, this, vals, fr):
        m = V(C(en, st, this, vals, fr, 'call'), st, en.thisplace)
        en.oblige(st, 'progress within [0,1] when reported', and_(
            le(R(0), m.training_status.progression.t), le(m.training_status.progression.t, R(1))))


@contract
class EmTrain(Contract):
    fn = SP + '::train'
    props = ('C17',)
    uses = ('EmConverged', 'EmTerminate', 'EmCancel', 'VirtualInit', 'VirtualUpdate', 'VirtualAllocate', 'Notify')
    anyframe = True
    per_path = True

    def pre(self, c):
        m = c.this
        c.assume(m.shared_parameters.nonnull)
        c.en.thisplace = c.thisp
        sp = m.shared_parameters
        c.assume(le(ONE, sp.em_algorithm_min_iterations.t))
        c.assume(le(ZERO, sp.em_algorithm_max_iterations.t))
        c.assume(le(R(0), sp.em_algorithm_percent_chg.t))

    def check(self, c, ret):
        m, n = c.this, c.new
        sp = m.shared_parameters
        s = ex.trunc(n.training_status.iterations.t)
        st = n.training_status.status.t
        L = lambda t: ite(le(t, ZERO), c.start, app('virtual.emAlgorithmUpdate', (sub(t, ONE),), 'R'))
        c.start = neg(num((2 ** 53 - 1) * 2 ** 971, 'R'))
        done = eq(st, I(DONE))
        c.ensure('ends Done, Error or Cancel', or_(done, eq(st, I(ERROR)), eq(st, I(CANCEL))))
        c.ensure('not training any more', not_(n.is_training_.t))
        mx, mn = sp.em_algorithm_max_iterations.t, sp.em_algorithm_min_iterations.t
        rule = lambda t: stop(sp, t, L(t), L(sub(t, ONE)))
        c.ensure('at most 1000 steps', implies(done, le(s, I(1000))))
        c.ensure('exactly the maximum when it is at least the minimum', implies(and_(done, le(mn, mx)), eq(s, tmin(mx, I(1000)))))
        c.ensure('at least the minimum', implies(and_(done, lt(mx, mn)), le(tmin(mn, I(1000)), s)))
        c.ensure('stops where the rule holds', implies(done, rule(s)))
        c.ensure('stops at the first such step', implies(done, all_(s, lambda t: not_(rule(t)))))
