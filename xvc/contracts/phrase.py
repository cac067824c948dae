"""Phrase: storage of frames, reading, recording, copying, statistics"""
from ..spec import *
from ..term import R, num

P = 'Phrase'
FLT_MAX = num((2 ** 24 - 1) * 2 ** 104, "R")


def heap(c, id_, what, st=None):
    """size / liveness of the heap array id_"""
    if what == 'live':
        p = Place(('H', 'live'), ('[]',), (id_,), ('bool',))
    elif what == 'table':
        p = Place(('H', repr(('ptr', ('real',)))), ('[]', '#size'), (id_,), ('uint',))
    else:
        p = Place(('H', repr(('real',))), ('[]', '#size'), (id_,), ('uint',))
    return c.en.read(st or c.oldst, p)


def off(c, v):
    return c.en.enc_ptr(c.en.read_ptr(v._st, v._p))[1]


def arrays(c, ph):
    """id of the (input) array, id of the output array"""
    return ph.data_[0], ph.data_[1]


def wfPhrase(c, ph, own=None):
    """class invariant of a phrase; own: additionally of one that owns its memory"""
    D, DI, bim = ph.dimension.t, ph.dimension_input.t, ph.bimodal_.t
    n, ni, no, cap = ph.length_.t, ph.input_length_.t, ph.output_length_.t, ph.max_length_.t
    a, b = arrays(c, ph)
    c.assume(ph.nonnull if ph._p.ty[0] in ('ptr', 'sptr') else TRUE)
    c.assume(ph.data_.nonnull)
    c.assume(heap(c, ph.data_.id, 'live'))
    c.assume(eq(off(c, ph.data_), ZERO))
    c.assume(le(ite(bim, I(2), ONE), heap(c, ph.data_.id, 'table')))
    c.assume(ne(ph.data_.id, a.id))
    c.assume(implies(bim, ne(ph.data_.id, b.id)))
    c.assume(le(ONE, D))
    c.assume(implies(bim, and_(le(ONE, DI), lt(DI, D))))
    c.assume(ite(bim, eq(n, tmin(ni, no)), eq(n, ni)))
    # storage
    own = ph.own_memory_.t if own is None else own
    w0 = ite(bim, DI, D)
    used0 = ite(bim, ni, n)
    c.assume(implies(lt(ZERO, used0), ne(a.id, ZERO)))
    c.assume(implies(and_(bim, lt(ZERO, no)), ne(b.id, ZERO)))
    c.assume(implies(own, and_(le(used0, cap), implies(bim, le(no, cap)))))
    c.assume(implies(own, iff(lt(ZERO, cap), ne(a.id, ZERO))))
    c.assume(implies(and_(own, bim), iff(lt(ZERO, cap), ne(b.id, ZERO))))
    for arr, w, used, g in ((a, w0, used0, TRUE), (b, sub(D, DI), no, bim)):
        room = ite(own, cap, used)
        c.assume(implies(and_(g, lt(ZERO, room)), and_(
            eq(off(c, arr), ZERO),
            heap(c, arr.id, 'live'),
            le(mul(room, w), heap(c, arr.id, 'size')))))
    c.assume(implies(and_(bim, own, lt(ZERO, cap)), ne(a.id, b.id)))
    return D, DI, bim


def allocated(c, ph):
    """identifiers from 1000001 on denote memory allocated by the function itself"""
    for x in (ph.data_, *arrays(c, ph)):
        c.assume(le(x.id, I(1000000)))


def cell(ph, t, d):
    """stored value of dimension d at time t"""
    D, DI, bim = ph.dimension.t, ph.dimension_input.t, ph.bimodal_.t
    return ite(bim, ite(lt(d, DI), ph.data_[0][add(mul(t, DI), d)].t,
                        ph.data_[1][add(mul(t, sub(D, DI)), sub(d, DI))].t),
               ph.data_[0][add(mul(t, D), d)].t)


@contract
class PhraseGetValue(Contract):
    fn = P + '::getValue'
    props = ('C03',)
    opaque_name = 'frame'

    def pre(self, c):
        if c.mode == 'verify':
            wfPhrase(c, c.this)

    def val(self, c):
        return cell(c.this, c.arg(0), c.arg(1))

    def post(self, c):
        ph, t, d = c.this, c.arg(0), c.arg(1)
        D, DI, bim = ph.dimension.t, ph.dimension_input.t, ph.bimodal_.t
        c.throw_if(or_(le(D, d), ite(bim, ite(lt(d, DI), le(ph.input_length_.t, t), le(ph.output_length_.t, t)),
                                     le(ph.length_.t, t))), 'std::out_of_range')
        return self.post_value(c)


def frame(c, ph, t, d):
    return c.call('PhraseGetValue', ph, [t, d])


class Pointer(Contract):
    bim = False
    part = 0

    def pre(self, c):
        if c.mode == 'verify':
            wfPhrase(c, c.this)

    def post(self, c):
        ph, t = c.this, c.arg(0)
        D, DI, bim = ph.dimension.t, ph.dimension_input.t, ph.bimodal_.t
        c.throw_if(le(ph.length_.t, t), 'std::out_of_range')
        c.throw_if(iff(bim, FALSE) if self.bim else bim, 'std::runtime_error')
        w = (sub(D, DI) if self.part else DI) if self.bim else D
        v = c.en.read_ptr(c.oldst, ph.data_[self.part]._p)
        return c.en.padd(v, mul(t, w))


@contract
class PhraseGetPointer(Pointer):
    fn = P + '::getPointer'
    props = ('C03',)


@contract
class PhraseGetPointerInput(Pointer):
    fn = P + '::getPointer_input'
    props = ('C03',)
    bim = True


@contract
class PhraseGetPointerOutput(Pointer):
    fn = P + '::getPointer_output'
    props = ('C03',)
    bim = True
    part = 1


class Getter(Contract):
    field = None

    def post(self, c):
        return getattr(c.this, self.field).t


def getter(name, fn, field):
    contract(type(name, (Getter,), dict(fn=P + '::' + fn, field=field, props=('C03',))))


getter('PhraseSize', 'size', 'length_')
getter('PhraseInputSize', 'inputSize', 'input_length_')
getter('PhraseOutputSize', 'outputSize', 'output_length_')
getter('PhraseEmpty', 'empty', 'empty_')
getter('PhraseBimodal', 'bimodal', 'bimodal_')
getter('PhraseOwnMemory', 'ownMemory', 'own_memory_')


# ------------------------------------------------------------ statistics
class Stat(Contract):
    props = ('C21',)
    uses = ('PhraseGetValue',)

    def pre(self, c):
        if c.mode == 'verify':
            wfPhrase(c, c.this)
            c.assume(le(ONE, c.this.length_.t))


def pmean(c, ph, d):
    n = ph.length_.t
    return div(sigma(n, lambda t: frame(c, ph, t, d)), toreal(n))


@contract
class PhraseMean(Stat):
    fn = P + '::mean'

    def post(self, c):
        return c.result_vec(('real',), c.this.dimension.t, lambda d: pmean(c, c.this, d))


@contract
class PhraseStandardDeviation(Stat):
    fn = P + '::standardDeviation'
    uses = ('PhraseGetValue', 'PhraseMean')

    def post(self, c):
        ph = c.this
        n = ph.length_.t

        def sd(d):
            m = pmean(c, ph, d)
            dev = lambda t: sub(frame(c, ph, t, d), m)
            return app('sqrt', (div(sigma(n, lambda t: mul(dev(t), dev(t))), toreal(n)),), 'R')
        return c.result_vec(('real',), ph.dimension.t, sd)


@contract
class PhraseMinmax(Stat):
    fn = P + '::minmax'

    def check(self, c, ret):
        ph = c.this
        n, D = ph.length_.t, ph.dimension.t
        r = V(c, c.st, ret)
        c.ensure('one pair per dimension', eq(r.size, D))
        d = fresh('d', 'I')
        tm.RANGE[d] = (ZERO, D)
        inr = and_(le(ZERO, d), lt(d, D))
        x = lambda t: frame(c, ph, t, d)
        # (every finite float lies within +-FLT_MAX)
        c.ensure('first is the minimum of the dimension over all frames',
                 implies(inr, eq(r[d].first.t, tmin(FLT_MAX, big('minof', n, x)))))
        c.ensure('second is the maximum of the dimension over all frames',
                 implies(inr, eq(r[d].second.t, tmax(neg(FLT_MAX), big('maxof', n, x)))))


@contract
class PhraseRescale(Contract):
    fn = P + '::rescale'
    props = ('C21',)
    uses = ('PhraseSize', 'PhraseGetPointer', 'PhraseGetPointerInput', 'PhraseGetPointerOutput')

    def pre(self, c):
        D, DI, bim = wfPhrase(c, c.this)
        c.setsize(c.arg(0), D)
        c.setsize(c.arg(1), D)
        a, b = arrays(c, c.this)
        c.assume(implies(bim, ne(a.id, b.id)))

    anyframe = True

    def check(self, c, ret):
        ph, o, g = c.this, c.arg(0), c.arg(1)
        D, n = ph.dimension.t, ph.length_.t
        d, t = fresh('d', 'I'), fresh('t', 'I')
        tm.RANGE[d] = (ZERO, D)
        tm.RANGE[t] = (ZERO, n)
        c.ensure('every value v of dimension d becomes (v - offset[d]) * gain[d]',
                 implies(and_(le(ZERO, d), lt(d, D), le(ZERO, t), lt(t, n)),
                         eq(cell(c.new, t, d), mul(sub(cell(ph, t, d), o[d].t), g[d].t))))
        for f in ('length_', 'input_length_', 'output_length_', 'max_length_', 'dimension', 'dimension_input'):
            c.ensure(f + ' unchanged', eq(c.new.field(f).t, ph.field(f).t))


# ------------------------------------------------------------ recording
def stored(c, ph, k, t, d):
    """element d of frame t of stream k"""
    D, DI, bim = ph.dimension.t, ph.dimension_input.t, ph.bimodal_.t
    w = sub(D, DI) if k else ite(bim, DI, D)
    return ph.data_[k][add(mul(t, w), d)].t


class Record(Contract):
    props = ('C03',)
    anyframe = True
    throw_unchanged = True
    streams = (0,)

    def pre(self, c):
        wfPhrase(c, c.this)
        allocated(c, c.this)

    def inv(self, c):
        """the class invariant holds again"""
        ph = c.new
        c0 = C(c.en, c.st, c.thisp, c.vals, None, 'verify')
        c0.cname = self.fn
        wfPhrase(c0, c0.this)
        for i, h in enumerate(c0.hyps):
            c.ensure('class invariant %d' % (i + 1), h)

    def same(self, c, k, n):
        ph, new = c.this, c.new
        D, DI, bim = ph.dimension.t, ph.dimension_input.t, ph.bimodal_.t
        w = sub(D, DI) if k else ite(bim, DI, D)
        t, d = fresh('t', 'I'), fresh('d', 'I')
        tm.RANGE[d] = (ZERO, w)
        tm.RANGE[t] = (ZERO, n)
        c.ensure('earlier frames of stream %d keep their values' % k,
                 implies(and_(le(ZERO, d), lt(d, w), le(ZERO, t), lt(t, n), bim if k else TRUE),
                         eq(stored(c, new, k, t, d), stored(c, ph, k, t, d))))

    def check(self, c, ret):
        self.spec(c)
        ph = c.this
        self.same(c, 0, ph.input_length_.t)
        self.same(c, 1, ph.output_length_.t)
        for f in ('dimension', 'dimension_input', 'bimodal_', 'own_memory_'):
            c.ensure(f + ' unchanged', eq(c.new.field(f).t, ph.field(f).t) if f[:3] == 'dim' else iff(c.new.field(f).t, ph.field(f).t))
        self.inv(c)


@contract
class PhraseRecord(Record):
    fn = P + '::record'

    def post(self, c):
        ph, x = c.this, c.arg(0)
        c.throw_if(not_(ph.own_memory_.t), 'std::runtime_error')
        c.throw_if(and_(ph.bimodal_.t, ne(ph.input_length_.t, ph.output_length_.t)), 'std::runtime_error')
        c.throw_if(ne(x.size, ph.dimension.t), 'std::invalid_argument')

    def spec(self, c):
        ph, new, x = c.this, c.new, c.arg(0)
        D, DI, bim = ph.dimension.t, ph.dimension_input.t, ph.bimodal_.t
        n = ph.length_.t
        c.ensure('one more frame', eq(new.length_.t, add(n, ONE)))
        c.ensure('one more input', eq(new.input_length_.t, add(ph.input_length_.t, ONE)))
        c.ensure('one more output', eq(new.output_length_.t, add(ph.output_length_.t, ite(bim, ONE, ZERO))))
        c.ensure('not empty', not_(new.empty_.t))
        d = fresh('d', 'I')
        tm.RANGE[d] = (ZERO, D)
        c.ensure('the new frame holds the observation',
                 implies(and_(le(ZERO, d), lt(d, D)), eq(cell(new, n, d), x[d].t)))


class RecordStream(Record):
    k = 0

    def width(self, ph):
        return sub(ph.dimension.t, ph.dimension_input.t) if self.k else ph.dimension_input.t

    def post(self, c):
        ph, x = c.this, c.arg(0)
        c.throw_if(not_(ph.own_memory_.t), 'std::runtime_error')
        c.throw_if(not_(ph.bimodal_.t), 'std::runtime_error')
        c.throw_if(ne(x.size, self.width(ph)), 'std::invalid_argument')

    def spec(self, c):
        ph, new, x = c.this, c.new, c.arg(0)
        ni, no = ph.input_length_.t, ph.output_length_.t
        n = no if self.k else ni
        ni2, no2 = (ni, add(no, ONE)) if self.k else (add(ni, ONE), no)
        c.ensure('input length', eq(new.input_length_.t, ni2))
        c.ensure('output length', eq(new.output_length_.t, no2))
        c.ensure('length counts the complete frames', eq(new.length_.t, tmin(ni2, no2)))
        c.ensure('not empty', not_(new.empty_.t))
        d = fresh('d', 'I')
        tm.RANGE[d] = (ZERO, self.width(ph))
        c.ensure('the new frame holds the observation',
                 implies(and_(le(ZERO, d), lt(d, self.width(ph))), eq(stored(c, new, self.k, n, d), x[d].t)))


@contract
class PhraseRecordInput(RecordStream):
    fn = P + '::record_input'


@contract
class PhraseRecordOutput(RecordStream):
    fn = P + '::record_output'
    k = 1


# ------------------------------------------------------------ clearing, connecting
class Simple(Contract):
    props = ('C03',)

    def pre(self, c):
        wfPhrase(c, c.this)
        self.more(c)

    def more(self, c):
        pass

    def lengths(self, c, ni, no):
        """new lengths; a bimodal phrase is trimmed to the shorter stream"""
        ph, new = c.this, c.new
        bim = ph.bimodal_.t
        c.write(new.input_length_, ni)
        c.write(new.output_length_, no)
        c.write(new.length_, ite(bim, tmin(ni, no), ni))


@contract
class PhraseTrim(Simple):
    fn = P + '::trim'

    def pre(self, c):
        pass

    def post(self, c):
        ph = c.this
        bim, ni, no = ph.bimodal_.t, ph.input_length_.t, ph.output_length_.t
        c.write(c.new.length_, ite(bim, tmin(ni, no), ph.length_.t))
        c.write(c.new.empty_, ite(bim, and_(eq(ni, ZERO), eq(no, ZERO)), ph.empty_.t))


@contract
class PhraseClear(Simple):
    fn = P + '::clear'

    def post(self, c):
        c.throw_if(not_(c.this.own_memory_.t), 'std::runtime_error')
        self.lengths(c, ZERO, ZERO)
        c.write(c.new.empty_, TRUE)


@contract
class PhraseClearInput(Simple):
    fn = P + '::clearInput'

    def more(self, c):
        c.assume(c.this.bimodal_.t)

    def post(self, c):
        c.throw_if(not_(c.this.own_memory_.t), 'std::runtime_error')
        self.lengths(c, ZERO, c.this.output_length_.t)
        c.write(c.new.empty_, eq(c.this.output_length_.t, ZERO))


@contract
class PhraseClearOutput(Simple):
    fn = P + '::clearOutput'

    def more(self, c):
        c.assume(c.this.bimodal_.t)

    def post(self, c):
        c.throw_if(not_(c.this.own_memory_.t), 'std::runtime_error')
        self.lengths(c, c.this.input_length_.t, ZERO)
        c.write(c.new.empty_, eq(c.this.input_length_.t, ZERO))


def setptr(c, v, val):
    c.en.write(c.st, v._p, val)


class Connect(Simple):
    props = ('C04',)
    bim = True

    def post(self, c):
        ph = c.this
        bim = ph.bimodal_.t
        c.throw_if(ph.own_memory_.t, 'std::runtime_error')
        c.throw_if(not_(bim) if self.bim else bim, 'std::runtime_error')
        self.eff(c)
        c.write(c.new.empty_, FALSE)


@contract
class PhraseConnect(Connect):
    fn = P + '::connect'
    sel = 2
    bim = False

    def eff(self, c):
        setptr(c, c.new.data_[0], c.argval(0))
        self.lengths(c, c.arg(1), c.this.output_length_.t)


@contract
class PhraseDisconnect(Simple):
    fn = P + '::disconnect'
    props = ('C04',)

    def post(self, c):
        ph = c.this
        c.throw_if(ph.own_memory_.t, 'std::runtime_error')
        setptr(c, c.new.data_[0], NULL)
        a = c.en.read_ptr(c.st, c.new.data_[1]._p)
        setptr(c, c.new.data_[1], PIte(ph.bimodal_.t, NULL, a))
        self.lengths(c, ZERO, ZERO)
        c.write(c.new.empty_, TRUE)


# ------------------------------------------------------------ copies
class CopyOf(Contract):
    props = ('C04',)
    anyframe = True

    def same(self, c, src, new, old=None):
        D, DI, bim = src.dimension.t, src.dimension_input.t, src.bimodal_.t
        own = src.own_memory_.t
        for f in ('dimension', 'dimension_input', 'length_', 'input_length_', 'output_length_', 'label'):
            c.ensure('same ' + f, eq(new.field(f).t, src.field(f).t))
        for f in ('bimodal_', 'own_memory_', 'empty_'):
            c.ensure('same ' + f, iff(new.field(f).t, src.field(f).t))
        t, d = fresh('t', 'I'), fresh('d', 'I')
        for k, n, w in ((0, src.input_length_.t, ite(bim, DI, D)), (1, src.output_length_.t, sub(D, DI))):
            g = bim if k else TRUE
            c.ensure('same values in stream %d' % k,
                     implies(and_(g, le(ZERO, t), lt(t, n), le(ZERO, d), lt(d, w)),
                             eq(stored(c, new, k, t, d), stored(c, src, k, t, d))))
            s = V(c, c.st, src._p)
            c.ensure('source keeps its values in stream %d' % k,
                     implies(and_(g, le(ZERO, t), lt(t, n), le(ZERO, d), lt(d, w)),
                             eq(stored(c, s, k, t, d), stored(c, src, k, t, d))))
            c.ensure('source keeps its memory of stream %d' % k, implies(and_(g, lt(ZERO, n)), and_(
                eq(s.data_[k].id, src.data_[k].id), heap(c, src.data_[k].id, 'live', c.st))))
            c.ensure('own memory is never shared (stream %d)' % k,
                     implies(and_(g, own, lt(ZERO, src.max_length_.t)), and_(*[ne(new.data_[k].id, src.data_[j].id) for j in (0, 1)])))
            c.ensure('shared memory stays shared (stream %d)' % k,
                     implies(and_(g, not_(own)), eq(new.data_[k].id, src.data_[k].id)))
        c.ensure('own table of streams', ne(new.data_.id, src.data_.id))
        c0 = C(c.en, c.st, new._p, c.vals, None, 'verify')
        c0.cname = self.fn
        wfPhrase(c0, V(c0, c.st, new._p))
        for i, h in enumerate(c0.hyps):
            c.ensure('class invariant %d of the copy' % (i + 1), h)


@contract
class PhraseCopy(CopyOf):
    fn = P + '::Phrase'
    sel = '(const Phrase &)'

    def pre(self, c):
        wfPhrase(c, c.arg(0))
        allocated(c, c.arg(0))

    def check(self, c, ret):
        self.same(c, c.arg(0), c.new)


@contract
class PhraseAssign(CopyOf):
    fn = P + '::operator='

    def pre(self, c):
        src, ph = c.arg(0), c.this
        wfPhrase(c, src)
        wfPhrase(c, ph)
        allocated(c, src)
        allocated(c, ph)
        # different phrases do not share what they own
        c.assume(ne(src.data_.id, ph.data_.id))
        a, b = arrays(c, ph)
        for x in (a, b):
            for y in (*arrays(c, src), src.data_):
                c.assume(implies(or_(ph.own_memory_.t, src.own_memory_.t), or_(eq(x.id, ZERO), ne(x.id, y.id))))
            c.assume(ne(x.id, src.data_.id))
        for y in arrays(c, src):
            c.assume(ne(y.id, ph.data_.id))

    def check(self, c, ret):
        self.same(c, c.arg(0), c.new)
        ph = c.this
        for k in (0, 1):
            c.ensure('memory that is not owned is never freed (stream %d)' % k,
                     implies(and_(not_(ph.own_memory_.t), ph.bimodal_.t if k else TRUE, lt(ZERO, (ph.output_length_ if k else ph.input_length_).t)),
                             heap(c, ph.data_[k].id, 'live', c.st)))


class Own(Contract):
    """what happens to memory"""
    props = ('C04',)
    anyframe = True

    def pre(self, c):
        wfPhrase(c, c.this)
        allocated(c, c.this)

    def freed(self, c):
        ph = c.this
        for k in (0, 1):
            a = ph.data_[k].id
            g = ph.bimodal_.t if k else TRUE
            live = heap(c, a, 'live', c.st)
            c.ensure('owned memory is released (stream %d)' % k, implies(and_(g, ph.own_memory_.t, ne(a, ZERO)), not_(live)))
            c.ensure('memory that is not owned is never freed (stream %d)' % k,
                     implies(and_(g, not_(ph.own_memory_.t)), iff(live, heap(c, a, 'live'))))


@contract
class PhraseDestroy(Own):
    fn = P + '::~Phrase'

    def check(self, c, ret):
        self.freed(c)
        c.ensure('table of streams released', not_(heap(c, c.this.data_.id, 'live', c.st)))


class Changed(Own):
    fn = P + '::onAttributeChange'
    attr = None

    def values(self, en, this, vals):
        f = {n: t for n, t, _ in en.ast.fields('Phrase')}
        return [Ptr(this.f(self.attr, f[self.attr]))]

    def pre(self, c):
        Own.pre(self, c)
        c.throw_if(FALSE)

    def check(self, c, ret):
        self.freed(c)
        ph, new = c.this, c.new
        for f in ('length_', 'input_length_', 'output_length_', 'max_length_'):
            c.ensure(f + ' is 0', eq(new.field(f).t, ZERO))
        c.ensure('empty', new.empty_.t)
        c.ensure('no stream is left allocated', eq(new.data_[0].id, ZERO))
        c.ensure('no stream is left allocated (output)', implies(ph.bimodal_.t, eq(new.data_[1].id, ZERO)))
        c.ensure('one column name per dimension', eq(new.column_names.size, ph.dimension.t))


@contract
class PhraseDimensionChanged(Changed):
    attr = 'dimension'

    def pre(self, c):
        Changed.pre(self, c)
        ph = c.this
        # limits set by the constructors; the dimension itself was checked by Attribute::set
        lo = ite(ph.bimodal_.t, ONE, ZERO)
        c.assume(eq(ph.dimension_input.limit_min_.t, lo))
        c.assume(lt(lo, ph.dimension.t))


@contract
class PhraseDimensionInputChanged(Changed):
    attr = 'dimension_input'
