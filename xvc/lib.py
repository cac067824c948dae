"""Semantics of the library functions the sources use (std containers as
size + element families; real-valued <cmath>; opaque events, threads, json)."""
from .term import *
from .term import _pd
from .cast import Unsupported
from fractions import Fraction
from . import term as tm
from .oracle import UINT_FN

U = ('uint',)


def E():
    from . import exec as ex
    return ex


def size_of(en, st, v):
    return en.read(st, v.f('#size', U))


def set_size(en, st, v, n):
    en.write(st, v.f('#size', U), n)


def ptr_at(en, v, off):
    ex = E()
    e = v.ty[1]
    return ex.Ptr(ex.Place(v.root, v.path + ('[]',), v.idx, e), off)


def at(en, p):
    """path prefix of the elements pointed to by p"""
    return p.arr


def copy_range(en, st, src, n, dst):
    """*dst++ = *src++ n times (no overlap, or dst before src)"""
    ex = E()
    if src is ex.NULL or dst is ex.NULL:
        if isnum(n, 0):
            return
        raise Unsupported('copy through a null pointer')
    if not isinstance(src, ex.Ptr) or not isinstance(dst, ex.Ptr):
        raise Unsupported('copy through %r' % (dst,))
    s, d = src.arr, dst.arr
    ns, nd = len(s.idx), len(d.idx)
    new = {}
    for p, t in en.leaves(d.ty):
        r = p.count('[]')
        sufs = [((), t)]
        if t[0] in ('ptr', 'sptr'):
            sufs = [(('#id',), U), (('#off',), U)]
        for suf, tt in sufs:
            sf = en.fam(st, (s.root, s.path + p + suf), tt, ns + 1 + r)
            dk = (d.root, d.path + p + suf)
            df = en.fam(st, dk, tt, nd + 1 + r)
            x = ex.AT[nd]
            m = dict(zip(ex.AT, s.idx))
            m[ex.AT[ns]] = add(sub(x, dst.off), src.off)
            for j in range(r):
                m[ex.AT[ns + 1 + j]] = ex.AT[nd + 1 + j]
            c = and_(*[eq(a, i) for a, i in zip(ex.AT, d.idx)])
            c = and_(c, le(dst.off, x), lt(x, add(dst.off, n)))
            new[dk] = ite(c, subst(sf, m), df)
    st.fams.update(new)


def fill(en, st, v, lo, hi, val):
    """elements lo..hi of container v := val (None: value-initialised)"""
    ex = E()
    if isnum(sub(hi, lo), 0):
        return
    n = len(v.idx)
    ety = v.ty[1]
    val = en.rv(st, val) if val is not None else None
    new = {}
    x = ex.AT[n]
    base = and_(*[eq(a, i) for a, i in zip(ex.AT, v.idx)])
    c = and_(base, le(lo, x), lt(x, hi))
    if ety[0] in ex.SCALAR:
        if ety[0] in ('ptr', 'sptr'):
            raise Unsupported('fill of pointers')
        key = (v.root, v.path + ('[]',))
        old = en.fam(st, key, ety, n + 1)
        st.fams[key] = ite(c, en.conv(val, ety) if val is not None else ex.default(ety), old)
        return
    if val is None:
        if ety[0] == 'cls':
            t = en.local(ety)
            en.construct_default(None, st, t)
            val = t
        else:
            for p, t in en.leaves(ety):
                key = (v.root, v.path + ('[]',) + p)
                r = p.count('[]')
                if t[0] in ('ptr', 'sptr'):
                    raise Unsupported('fill of pointers')
                new[key] = ite(c, ex.default(t), en.fam(st, key, t, n + 1 + r))
            st.fams.update(new)
            return
    ns = len(val.idx)
    for p, t in en.leaves(ety):
        r = p.count('[]')
        for suf, tt in ([((), t)] if t[0] not in ('ptr', 'sptr') else [(('#id',), U), (('#off',), U)]):
            key = (v.root, v.path + ('[]',) + p + suf)
            if suf and ns + r == 0:
                i, off = en.enc_ptr(en.read_ptr(st, ex.Place(val.root, val.path + p, (), t)))
                sv = i if suf == ('#id',) else off
            else:
                sf = en.fam(st, (val.root, val.path + p + suf), tt, ns + r)
                m = dict(zip(ex.AT, val.idx))
                for j in range(r):
                    m[ex.AT[ns + j]] = ex.AT[n + 1 + j]
                sv = subst(sf, m)
            new[key] = ite(c, sv, en.fam(st, key, tt, n + 1 + r))
    st.fams.update(new)


def nonneg(en, st, what, t):
    en.oblige(st, what, le(ZERO, t))


def lib_construct(en, fr, st, obj, ty, args, n):
    ex = E()
    args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
    obj = obj if obj.ty[0] != 'opaque' else obj.cast(ty)
    k = ty[0]
    if k == 'pair':
        vals = [en.rv(st, en.ev(fr, a, st)) for a in args]
        if len(vals) == 2:
            en.init_at(st, obj.f('first', ty[1]), vals[0])
            en.init_at(st, obj.f('second', ty[2]), vals[1])
        elif len(vals) == 1:
            s = vals[0]
            en.init_at(st, obj.f('first', ty[1]), en.rv(st, s.f('first', s.ty[1])))
            en.init_at(st, obj.f('second', ty[2]), en.rv(st, s.f('second', s.ty[2])))
        else:
            raise Unsupported('pair constructor')
        return
    if not args:
        set_size(en, st, obj, ZERO)
        return
    vals = [en.rv(st, en.ev(fr, a, st)) for a in args]
    if k == 'vec':
        if len(vals) == 1 and isinstance(vals[0], ex.Place):
            en.copy(st, obj, vals[0])
            return
        if isinstance(vals[0], T) and len(vals) <= 2:
            set_size(en, st, obj, vals[0])
            fill(en, st, obj, ZERO, vals[0], vals[1] if len(vals) == 2 else None)
            return
        if len(vals) == 2 and isinstance(vals[0], ex.Ptr) and isinstance(vals[1], ex.Ptr):
            cnt = sub(vals[1].off, vals[0].off)
            en.oblige(st, 'range of iterators', le(ZERO, cnt))
            set_size(en, st, obj, cnt)
            copy_range(en, st, vals[0], cnt, ptr_at(en, obj, ZERO))
            return
    elif len(vals) == 1 and isinstance(vals[0], ex.Place):
        en.copy(st, obj, vals[0])
        return
    raise Unsupported('constructor of %r with %d arguments' % (k, len(vals)))


def mapfind(en, st, m, key, need=True):
    """position of key in the sorted map m"""
    ex = E()
    if key.op == 'ite':
        return ite(key.a[0], mapfind(en, st, m, key.a[1]), mapfind(en, st, m, key.a[2]))
    fp = ('[]', 'first') if m.ty[0] == 'map' else ('[]',)
    fam = en.fam(st, (m.root, m.path + fp), m.ty[1], len(m.idx) + 1)
    n = size_of(en, st, m)
    if fam.op == 'app' and key.op == 'app' and key.a[0] == fam.a[0] and len(m.idx) == 0:
        pos = key.a[1]
        en.oblige(st, 'key present', and_(le(ZERO, pos), lt(pos, n)))
        return pos
    raise Unsupported('map lookup of an arbitrary key')


def libcall(en, fr, n, st, name, this, args):
    ex = E()
    args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
    hook = getattr(en, 'libhook', None)
    if hook is not None:
        r = hook(en, fr, n, st, name, this, args)
        if r is not NotImplemented:
            return r
    if this is not None:
        return member(en, fr, n, st, name, this, args)
    if name in ('bind', 'function'):
        return ex.Place('fn', (), (), ('opaque', 'fn'))
    vals = [en.rv(st, en.ev(fr, a, st)) for a in args]
    if name in ('exp', 'log', 'sqrt', 'sqrtf', 'atan', 'tan', 'expf', 'logf'):
        f = {'sqrtf': 'sqrt', 'expf': 'exp', 'logf': 'log'}.get(name, name)
        return real_fn(f, toreal(vals[0]))
    if name in ('pow', 'powf'):
        return powr(toreal(vals[0]), vals[1])
    if name in ('fabs', 'abs', 'fabsf'):
        return tabs(vals[0])
    if name in ('isnan', 'isinf', '__builtin_isnan', '__builtin_isinf_sign'):
        x = toreal(vals[0])
        # over the reals no value is infinite or not a number: recorded as an assumption
        en.trusted.add('floating point treated as real arithmetic (isnan/isinf are false)')
        return FALSE
    if name in ('max', 'min', 'lowest') and not vals:
        t = en.ast.ty(n)
        s = ex.sort_of(t)
        q = n['type'].get('desugaredQualType', n['type']['qualType'])
        if s == 'R':
            dbl = 'double' in q
            big = (2 ** 53 - 1) * 2 ** 971 if dbl else (2 ** 24 - 1) * 2 ** 104
            small = Fraction(1, 2 ** (1022 if dbl else 126))
            return num(big if name == 'max' else -big if name == 'lowest' else small, 'R')
        uns = 'unsigned' in q or 'size_t' in q
        w = 64 if 'long' in q or 'size_t' in q else 32
        if name == 'max':
            return I(2 ** w - 1 if uns else 2 ** (w - 1) - 1)
        return I(0 if uns else -2 ** (w - 1))
    if name in ('max', 'min'):
        a, b = vals[:2]
        if len(vals) == 1:
            raise Unsupported(name + ' of a list')
        return tmax(a, b) if name == 'max' else tmin(a, b)
    if name == 'copy':
        s, e, d = vals
        if s is ex.NULL:
            return d
        if not isinstance(s, ex.Ptr) or not isinstance(e, ex.Ptr):
            raise Unsupported('std::copy')
        cnt = sub(e.off, s.off)
        en.oblige(st, 'range of iterators', le(ZERO, cnt))
        chk_range(en, st, s, cnt)
        chk_range(en, st, d, cnt)
        copy_range(en, st, s, cnt, d)
        return en.padd(d, cnt)
    if name == 'to_string':
        return app('to_string', (toreal(vals[0]),), 'I')
    if name == 'move' or name == 'forward' or name == 'ref':
        return vals[0]
    if name == 'make_shared':
        t = en.ast.ty(n)
        obj = ex.Place(('H', repr(t[1])), ('[]',), (en.new_heap_id(),), t[1])
        f = en.ctors(t[1][1])
        cand = []
        for c in f:
            ps = en.ast.params(c)
            if len(ps) >= len(vals):
                cand.append(c)
        d = None
        for c in cand:
            q = c['type']['qualType']
            iscopy = len(vals) == 1 and isinstance(vals[0], ex.Place) and vals[0].ty == t[1]
            if iscopy == ('const ' + t[1][1] in q.replace('xmm::', '') or (t[1][1] + ' &') in q.replace('xmm::', '')):
                d = en.ast.definition(c['id'])
                if d is not None:
                    break
        if d is None:
            raise Unsupported('make_shared')
        vals = vals + [en.default_arg(fr, st, d, i) for i in range(len(vals), len(en.ast.params(d)))]
        en.run_ctor(fr, st, obj, d, vals)
        return ex.Ptr(obj)
    raise Unsupported('library function ' + str(name))


def chk_range(en, st, p, n):
    ex = E()
    if not isinstance(p, ex.Ptr) or p.off is None:
        return
    a = p.arr
    key = (a.root, a.path[:-1] + ('#size',))
    if key in st.fams or key in en.sized:
        s = en.read(st, ex.Place(a.root, a.path[:-1] + ('#size',), a.idx, U))
        en.oblige(st, 'range in bounds', or_(le(n, ZERO), and_(le(ZERO, p.off), le(add(p.off, n), s))))


def powr(x, k):
    if k.op == 'num' and k.a[0].denominator == 1 and abs(k.a[0]) <= 8:
        r = R(1)
        for _ in range(abs(int(k.a[0]))):
            r = mul(r, x)
        return r if k.a[0] >= 0 else inv(r)
    return app('pow', (x, toreal(k)), 'R')


def real_fn(f, x):
    if x.op == 'ite':
        return ite(x.a[0], real_fn(f, x.a[1]), real_fn(f, x.a[2]))
    if f == 'exp' and isnum(x, 0):
        return R(1)
    if f == 'log' and isnum(x, 1):
        return R(0)
    if f == 'sqrt' and x.op == 'num':
        import math
        a, b = x.a[0].numerator, x.a[0].denominator
        if a >= 0 and math.isqrt(a) ** 2 == a and math.isqrt(b) ** 2 == b:
            return R(Fraction(math.isqrt(a), math.isqrt(b)))
    return app(f, (x,), 'R')


MUTEX = ('lock', 'unlock')


def member(en, fr, n, st, name, this, args):
    ex = E()
    v = en.rv(st, this) if not isinstance(this, ex.PlaceIte) else this
    ty = v.ty if isinstance(v, (ex.Place, ex.PlaceIte)) else None
    if isinstance(v, T) or (ty and ty[0] == 'str'):
        if name == 'c_str':
            return v
        if name == 'empty':
            return eq(v, ZERO)
        if name == 'operator bool' and isinstance(v, T):
            return en.truth(v)
        if name == 'operator=':
            x = en.rv(st, en.ev(fr, args[0], st))
            en.assign(fr, st, this, x)
            return this
        raise Unsupported('string member ' + name)
    if isinstance(v, ex.PlaceIte):
        raise Unsupported('member %s of a conditional object' % name)
    k = ty[0] if ty else None
    if k == 'vec':
        return vec_member(en, fr, n, st, name, v, args)
    if k in ('map', 'set'):
        return map_member(en, fr, n, st, name, v, args)
    if k == 'opaque':
        if name in MUTEX:
            return None
        if name == 'operator bool':
            return var('callback:' + '.'.join(v.path), 'B')
    if k == 'cls' and v.ty[1].startswith('EventGenerator'):
        return None
    if isinstance(v, (ex.Ptr, ex.Null, ex.PIte)):
        if name == 'get':
            return v
        if name == 'operator bool':
            return en.truth(v)
    raise Unsupported('member %s of %r' % (name, ty or v))


def vec_member(en, fr, n, st, name, v, args):
    ex = E()
    if name == 'size':
        return size_of(en, st, v)
    if name == 'empty':
        return eq(size_of(en, st, v), ZERO)
    if name in ('begin', 'cbegin', 'data'):
        return ptr_at(en, v, ZERO)
    if name in ('end', 'cend'):
        return ptr_at(en, v, size_of(en, st, v))
    if name == 'clear':
        set_size(en, st, v, ZERO)
        return None
    vals = [en.rv(st, en.ev(fr, a, st)) for a in args]
    if name == 'resize':
        old = size_of(en, st, v)
        nonneg(en, st, 'size of a vector', vals[0])
        set_size(en, st, v, vals[0])
        fill(en, st, v, old, vals[0], vals[1] if len(vals) > 1 else None)
        return None
    if name == 'assign':
        if len(vals) == 2 and isinstance(vals[0], T):
            nonneg(en, st, 'size of a vector', vals[0])
            x = vals[1]
            if isinstance(x, ex.Place) and x.root == v.root:
                t = en.local(x.ty)
                en.copy(st, t, x)
                x = t
            set_size(en, st, v, vals[0])
            fill(en, st, v, ZERO, vals[0], x)
            return None
        if len(vals) == 2 and isinstance(vals[0], ex.Ptr):
            cnt = sub(vals[1].off, vals[0].off)
            set_size(en, st, v, cnt)
            copy_range(en, st, vals[0], cnt, ptr_at(en, v, ZERO))
            return None
    if name == 'push_back':
        s = size_of(en, st, v)
        en.init_at(st, v.el(s, v.ty[1]), vals[0])
        set_size(en, st, v, add(s, ONE))
        return None
    if name in ('at',):
        return index(en, fr, st, v, vals[0], throws=True)
    if name == 'front':
        return index(en, fr, st, v, ZERO)
    if name == 'back':
        return index(en, fr, st, v, sub(size_of(en, st, v), ONE))
    if name == 'operator=':
        en.copy(st, v, vals[0])
        return v
    raise Unsupported('vector member ' + name)


def map_member(en, fr, n, st, name, v, args):
    ex = E()
    if name == 'size':
        return size_of(en, st, v)
    if name == 'empty':
        return eq(size_of(en, st, v), ZERO)
    if name in ('begin', 'cbegin'):
        return ex.MapIt(v, ZERO)
    if name in ('end', 'cend'):
        return ex.MapIt(v, size_of(en, st, v))
    if name == 'clear':
        set_size(en, st, v, ZERO)
        return None
    if name == 'operator=':
        x = en.rv(st, en.ev(fr, args[0], st))
        en.copy(st, v, x)
        return v
    if name == 'at':
        k = en.rv(st, en.ev(fr, args[0], st))
        pos = mapfind(en, st, v, k)
        return v.el(pos, ('pair', v.ty[1], v.ty[2])).f('second', v.ty[2])
    raise Unsupported('%s member %s' % (v.ty[0], name))


def index(en, fr, st, v, i, throws=False):
    s = size_of(en, st, v)
    if throws:
        en.throw_if(fr, st, or_(lt(i, ZERO), le(s, i)), 'std::out_of_range')
    else:
        en.oblige(st, 'index in bounds', and_(le(ZERO, i), lt(i, s)))
    return v.el(i, v.ty[1])


def libop(en, fr, n, st, name, args, rd):
    ex = E()
    hook = getattr(en, 'ophook', None)
    if hook is not None:
        r = hook(en, fr, n, st, name, args, rd)
        if r is not NotImplemented:
            return r
    a0 = en.ev(fr, args[0], st)
    if name == 'operator[]':
        b = en.rv(st, a0) if not isinstance(a0, ex.PlaceIte) else a0
        i = en.rv(st, en.ev(fr, args[1], st))
        if isinstance(b, ex.PlaceIte):
            raise Unsupported('index of a conditional container')
        if isinstance(b, (ex.Ptr, ex.PIte)):
            return en.index_ptr(st, b, i)
        if isinstance(b, ex.Place) and b.ty[0] == 'vec':
            return index(en, fr, st, b, i)
        if isinstance(b, ex.Place) and b.ty[0] == 'map':
            pos = mapfind(en, st, b, i)
            return b.el(pos, ('pair', b.ty[1], b.ty[2])).f('second', b.ty[2])
        raise Unsupported('operator[] of %r' % (b,))
    if name == 'operator=':
        t = en.ast.ty(args[0])
        v = en.ev(fr, args[1], st)
        if t[0] == 'opaque':
            if 'function' in t[1] or t[1] == 'std::_Bit_reference':
                if 'Bit' in t[1]:
                    en.assign(fr, st, a0, en.rv(st, v))
                return a0
            raise Unsupported('assignment of ' + t[1])
        v = en.rv(st, v)
        en.assign(fr, st, a0, v)
        return a0
    if name in ('operator*', 'operator->') and len(args) == 1:
        p = en.rv(st, a0)
        if name == 'operator->':
            return ex.Ptr(en.deref(st, p)) if not isinstance(p, ex.Ptr) else p
        return en.deref(st, p)
    if name in ('operator++', 'operator--'):
        p = en.rv(st, a0)
        d = I(1 if name == 'operator++' else -1)
        q = en.padd(p, d)
        if isinstance(a0, ex.Place):
            if a0.ty[0] in ex.SCALAR:
                en.write(st, a0, q)
            else:
                st.fams[a0.key] = q
        else:
            raise Unsupported('increment of a temporary iterator')
        return p if len(args) == 2 else a0
    if name in ('operator==', 'operator!='):
        a = en.rv(st, a0)
        b = en.rv(st, en.ev(fr, args[1], st))
        if isinstance(a, T) and isinstance(b, T):
            r = eq(a, b)
        else:
            r = en.ptreq(a, b)
        return r if name == 'operator==' else not_(r)
    if name in ('operator+', 'operator-'):
        a = en.rv(st, a0)
        b = en.rv(st, en.ev(fr, args[1], st))
        ta, tb = en.ast.ty(args[0]), en.ast.ty(args[1])
        if ta[0] == 'str' or tb[0] == 'str':
            return app('strcat', (a, b), 'I')
        if isinstance(a, (ex.Ptr, ex.PIte, ex.MapIt, ex.Null)):
            if isinstance(b, T):
                return en.padd(a, b if name == 'operator+' else neg(b))
            return sub(a.off, b.off)
    if name in ('operator+=', 'operator-='):
        a = en.rv(st, a0)
        b = en.rv(st, en.ev(fr, args[1], st))
        if isinstance(a, (ex.Ptr, ex.PIte)):
            q = en.padd(a, b if name == 'operator+=' else neg(b))
            en.write(st, a0, q)
            return a0
        if en.ast.ty(args[0])[0] == 'str':
            en.write(st, a0, app('strcat', (a, b), 'I'))
            return a0
    if name == 'operator()':
        t = en.ast.ty(args[0])
        if t[0] == 'opaque' and 'function' in t[1]:
            if en.track_cb and isinstance(a0, ex.Place) and a0.path[-1:] == ('callback_',) and a0.root == 'this':
                # the listener is the method of the object that holds the attribute (registered by its constructors)
                own = ex.Place(a0.root, a0.path[:-2], a0.idx, ('cls', en.track_cb))
                f = en.ast.find_override(en.track_cb, 'onAttributeChange', 1)
                at = ex.Place(a0.root, a0.path[:-1], a0.idx, {k: t for k, t, _ in en.ast.fields(en.track_cb)}[a0.path[-2]])
                en.call(fr, st, en.ast.definition(f['id']) or f, own, [ex.Ptr(at)])
                en.trusted.add('the change listener of each attribute is onAttributeChange of the object that holds it')
                return None
            for a in args[1:]:
                en.ev(fr, a, st)
            en.trusted.add('listener callbacks are treated as having no effect inside the function that calls them')
            return None
    raise Unsupported('library operator %s of %r' % (name, en.ast.ty(args[0])))
