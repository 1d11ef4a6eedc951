"""Models of the std functions the crate calls: what each does to the abstract state."""
from poly import *
from state import *
from interp import Multi, DIVERGE, Loc, Unsupported

RANGE = 'std::ops::Range'


def _def(it, ti):
    return it.T(ti).get('def')


def unk(it, st, dest_ty, name='m'):
    it.unk_calls['model ' + name] = it.unk_calls.get('model ' + name, 0) + 1
    return it.fresh(st, dest_ty, name, True)


def option(it, dest_ty, v=None):
    t = it.T(dest_ty)
    names = [x[0] for x in t['v']]
    if v is None:
        return Agg(dest_ty, names.index('None'), [])
    return Agg(dest_ty, names.index('Some'), [v])


def loadref(it, st, r):
    if isinstance(r, Ref) and r.sl is None:
        return it.load(st, Loc(r.obj, r.path))
    return None


def putref(it, st, r, v):
    it.store(st, Loc(r.obj, r.path, r.sl), v)


def as_slice(it, st, r):
    """normalise a reference to a word sequence: (Ref base without sl, start, len) or None"""
    if not isinstance(r, Ref):
        return None
    if r.sl is not None:
        return Ref(r.obj, r.path), r.sl[0], r.sl[1]
    v = it.load(st, Loc(r.obj, r.path))
    if isinstance(v, VecV):
        return Ref(r.obj, r.path), ZERO, it.vec_len(v)
    if isinstance(v, Agg) and it.T(v.ty)['k'] == 'array':
        return Ref(r.obj, r.path), ZERO, C(len(v.fs))
    return None


def mkpanic(it, st, kind, msg=None):
    it.panics.append((kind, tuple(f.path for f in it.stack), msg, st.copy()))


def require(it, st, cond, kind):
    """continue under cond; the state where it fails is a panic"""
    t = st.truth(cond)
    if t is True:
        return
    if t is False:
        mkpanic(it, st, kind)
        raise Infeasible()
    raise Split([lambda s: s.assume(cond), lambda s: s.assume(bnot(cond))])


# ---- Vec -------------------------------------------------------------------------------------
def vec_ety(it, ty):
    return it.T(ty)['args'][0]


def m_vec_new(it, st, fn, a, dt, atys, f):
    if it.P.is_word_vec(dt):
        return VecV(vec_ety(it, dt), [], ZERO)
    return Opq(dt)


def m_vec_with_capacity(it, st, fn, a, dt, atys, f):
    if it.P.is_word_vec(dt):
        cap = sym('cap', 0, (1 << it.PB) - 1)
        st.assume(('ge', cap - a[0]))
        return VecV(vec_ety(it, dt), [], cap)
    return Opq(dt)


def m_vec_len(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, VecV):
        return st.norm(it.vec_len(v))
    return unk(it, st, dt, 'len')


def m_vec_capacity(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, VecV) and v.cap is not None:
        return v.cap
    return unk(it, st, dt, 'cap')


def grow(it, st, v, n):
    """capacity after making room for n elements in total"""
    if v.cap is None:
        return None
    if st.prove_ge0(v.cap - n):
        return v.cap
    cap = sym('cap', 0, (1 << it.PB) - 1)
    st.assume(('ge', cap - n))
    return cap


def m_vec_push(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, VecV):
        x = a[1] if isinstance(a[1], Poly) else it.fresh(st, v.ety, 'x', True)
        n = it.vec_len(v) + 1
        putref(it, st, a[0], VecV(v.ety, v.segs + ((ONE, st.norm(x)),), grow(it, st, v, n)))
    elif isinstance(a[0], Ref):
        putref(it, st, a[0], Opq(it.obj_ty.get(a[0].obj, 0) if not a[0].path else 0))
    return it.zst(dt)


def m_vec_pop(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, VecV):
        n = st.norm(it.vec_len(v))
        t = st.truth(('ge', n - 1))
        if t is None:
            raise Split([lambda s: s.assume(('ge', n - 1)), lambda s: s.assume(('eq', n))])
        if t is False:
            return option(it, dt)
        v2, i = it.vec_cut(st, v, n - 1)
        x = it.vec_get(st, v2, n - 1)
        putref(it, st, a[0], VecV(v.ety, v2.segs[:i], v.cap))
        return option(it, dt, x)
    return unk(it, st, dt, 'pop')


def m_vec_truncate(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, VecV):
        n = st.norm(it.vec_len(v))
        c = ('ge', n - a[1])
        t = st.truth(c)
        if t is None:
            raise Split([lambda s: s.assume(c), lambda s: s.assume(bnot(c))])
        if t:
            v2, i = it.vec_cut(st, v, a[1])
            putref(it, st, a[0], VecV(v.ety, v2.segs[:i], v.cap))
    return it.zst(dt)


def m_vec_clear(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, VecV):
        putref(it, st, a[0], VecV(v.ety, [], v.cap))
    return it.zst(dt)


def append(it, st, r, v, n, x):
    putref(it, st, r, VecV(v.ety, v.segs + ((st.norm(n), st.norm(x)),), grow(it, st, v, it.vec_len(v) + n)))


def m_vec_extend_from_slice(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, VecV):
        s = it.sl_get(st, a[1]) if isinstance(a[1], Ref) else None
        v = loadref(it, st, a[0])
        if s is None:
            n = sym('n', 0, (1 << it.PB) - 1, True)
            x = sym('x', 0, INF, True)
            st.assume(('ge', pow2(n * it.vbits(v)) - x - 1))
            s = n, x
        append(it, st, a[0], v, s[0], s[1])
    return it.zst(dt)


def m_vec_extend(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, VecV):
        s = iter_seq(it, st, a[1])
        v = loadref(it, st, a[0])
        if s is None:
            n = sym('n', 0, (1 << it.PB) - 1, True)
            x = sym('x', 0, INF, True)
            st.assume(('ge', pow2(n * it.vbits(v)) - x - 1))
            s = n, x
        append(it, st, a[0], v, s[0], s[1])
    return it.zst(dt)


def iter_seq(it, st, i):
    """(len, value) of the words an iterator yields, when they form a known number"""
    if isinstance(i, Ref) and i.sl is not None:
        return it.sl_get(st, i)
    if isinstance(i, Ref):
        v = it.load(st, Loc(i.obj, i.path))
        if isinstance(v, VecV):
            return it.sl_get(st, i)
        return None
    if isinstance(i, VecV):
        return st.norm(it.vec_len(i)), st.norm(it.vec_val(i))
    if isinstance(i, It):
        if i.kind == 'slice':
            r, s, e = i.a
            return it.sl_get(st, Ref(r.obj, r.path, (s, st.norm(e - s))))
        if i.kind == 'take' and isinstance(i.a[0], It) and i.a[0].kind == 'repeat':
            x = i.a[0].a[0]
            n = i.a[1]
            if isinstance(x, Poly) and st.const(x) == 0:
                return n, ZERO
            return None
        if i.kind == 'copied':
            return iter_seq(it, st, i.a[0])
    return None


def m_vec_drain(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, VecV):
        r = range_of(it, st, a[1], atys[1], it.vec_len(v))
        if r is None:
            putref(it, st, a[0], it.fresh_vec(st, v.ety, 'dr', True))
            return Opq(dt)
        s, e = r
        require(it, st, ('ge', e - s), 'slice index')
        require(it, st, ('ge', it.vec_len(v) - e), 'slice index')
        v2, i, j = it.vec_range(st, v, s, st.norm(e - s))
        putref(it, st, a[0], VecV(v.ety, v2.segs[:i] + v2.segs[j:], v.cap))
        return Opq(dt)
    return Opq(dt)


def m_vec_splice(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, VecV):
        r = range_of(it, st, a[1], atys[1], it.vec_len(v))
        s = iter_seq(it, st, a[2])
        if r is None or s is None:
            putref(it, st, a[0], it.fresh_vec(st, v.ety, 'sp', True))
            return Opq(dt)
        require(it, st, ('ge', r[1] - r[0]), 'slice index')
        require(it, st, ('ge', it.vec_len(v) - r[1]), 'slice index')
        v2, i, j = it.vec_range(st, v, r[0], st.norm(r[1] - r[0]))
        nv = VecV(v.ety, v2.segs[:i] + ((st.norm(s[0]), s[1]),) + v2.segs[j:], v.cap)
        putref(it, st, a[0], VecV(nv.ety, nv.segs, grow(it, st, v, it.vec_len(nv))))
    return Opq(dt)


def m_vec_clone(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, VecV):
        cap = sym('cap', 0, (1 << it.PB) - 1)
        st.assume(('ge', cap - it.vec_len(v)))
        return VecV(v.ety, v.segs, cap)
    return unk(it, st, dt, 'clone')


def m_vec_clone_from(it, st, fn, a, dt, atys, f):
    v, w = loadref(it, st, a[0]), loadref(it, st, a[1])
    if isinstance(v, VecV) and isinstance(w, VecV):
        putref(it, st, a[0], VecV(v.ety, w.segs, grow(it, st, v, it.vec_len(w))))
    return it.zst(dt)


def m_vec_deref(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, VecV):
        return Ref(a[0].obj, a[0].path, (ZERO, st.norm(it.vec_len(v))))
    return unk(it, st, dt, 'deref')


def m_identity(it, st, fn, a, dt, atys, f):
    return a[0]


def m_as_slice(it, st, fn, a, dt, atys, f):
    s = as_slice(it, st, a[0])
    if s is None:
        return unk(it, st, dt, 'slice')
    return Ref(s[0].obj, s[0].path, (s[1], st.norm(s[2])))


def m_seq_eq(it, st, fn, a, dt, atys, f):
    x = it.sl_get(st, a[0]) if isinstance(a[0], Ref) else None
    y = it.sl_get(st, a[1]) if isinstance(a[1], Ref) else None
    if x is None or y is None:
        return ('ne', sym('eq', 0, 1, True))
    c = ('and', ('eq', x[0] - y[0]), ('eq', x[1] - y[1]))
    if fn is not None and fn.name == 'ne':
        return bnot(c)
    return c


# ---- slices ----------------------------------------------------------------------------------
def m_slice_len(it, st, fn, a, dt, atys, f):
    s = as_slice(it, st, a[0])
    return unk(it, st, dt, 'len') if s is None else st.norm(s[2])


def m_slice_is_empty(it, st, fn, a, dt, atys, f):
    s = as_slice(it, st, a[0])
    return unk(it, st, dt, 'em') if s is None else ('eq', st.norm(s[2]))


def elem(base, i):
    return Ref(base.obj, base.path + (('e', i),))


def m_first(it, st, fn, a, dt, atys, f):
    s = as_slice(it, st, a[0])
    if s is None:
        return unk(it, st, dt)
    return opt_elem(it, st, dt, s, s[1])


def opt_elem(it, st, dt, s, idx):
    c = ('ge', s[2] - 1)
    t = st.truth(c)
    if t is None:
        raise Split([lambda x: x.assume(c), lambda x: x.assume(bnot(c))])
    if not t:
        return option(it, dt)
    return option(it, dt, elem(s[0], st.norm(idx)))


def m_last(it, st, fn, a, dt, atys, f):
    s = as_slice(it, st, a[0])
    if s is None:
        return unk(it, st, dt)
    return opt_elem(it, st, dt, s, s[1] + s[2] - 1)


def m_get(it, st, fn, a, dt, atys, f):
    s = as_slice(it, st, a[0])
    if s is None or not isinstance(a[1], Poly):
        return unk(it, st, dt)
    c = ('ge', s[2] - a[1] - 1)
    t = st.truth(c)
    if t is None:
        raise Split([lambda x: x.assume(c), lambda x: x.assume(bnot(c))])
    if not t:
        return option(it, dt)
    return option(it, dt, elem(s[0], st.norm(s[1] + a[1])))


def m_split_at(it, st, fn, a, dt, atys, f):
    s = as_slice(it, st, a[0])
    if s is None or not isinstance(a[1], Poly):
        return unk(it, st, dt)
    require(it, st, ('ge', s[2] - a[1]), 'split_at')
    m = st.norm(a[1])
    r = s[0]
    return Agg(dt, 0, [Ref(r.obj, r.path, (s[1], m)), Ref(r.obj, r.path, (st.norm(s[1] + m), st.norm(s[2] - m)))])


def m_split_first(it, st, fn, a, dt, atys, f):
    s = as_slice(it, st, a[0])
    if s is None:
        return unk(it, st, dt)
    c = ('ge', s[2] - 1)
    t = st.truth(c)
    if t is None:
        raise Split([lambda x: x.assume(c), lambda x: x.assume(bnot(c))])
    if not t:
        return option(it, dt)
    tt = it.T(dt)['v'][[x[0] for x in it.T(dt)['v']].index('Some')][2][0][1]
    r = s[0]
    last = fn.name.startswith('split_last')
    e = s[1] + s[2] - 1 if last else s[1]
    rest = (s[1], st.norm(s[2] - 1)) if last else (st.norm(s[1] + 1), st.norm(s[2] - 1))
    return option(it, dt, Agg(tt, 0, [elem(r, st.norm(e)), Ref(r.obj, r.path, rest)]))


def m_copy_from_slice(it, st, fn, a, dt, atys, f):
    d, s = as_slice(it, st, a[0]), as_slice(it, st, a[1])
    if d is None:
        return it.zst(dt)
    if s is None:
        it.havoc_at(st, a[0], it.load(st, Loc(a[0].obj, a[0].path)))
        return it.zst(dt)
    require(it, st, ('eq', d[2] - s[2]), 'copy_from_slice')
    x = it.sl_get(st, a[1])
    if x is None:
        it.havoc_at(st, a[0], it.load(st, Loc(a[0].obj, a[0].path)))
        return it.zst(dt)
    it.sl_set(st, Ref(d[0].obj, d[0].path, (d[1], d[2])), x[1])
    return it.zst(dt)


def m_fill(it, st, fn, a, dt, atys, f):
    d = as_slice(it, st, a[0])
    if d is None:
        return it.zst(dt)
    r = Ref(d[0].obj, d[0].path, (d[1], d[2]))
    if isinstance(a[1], Poly) and st.const(a[1]) == 0:
        it.sl_set(st, r, ZERO)
    else:
        it.havoc_at(st, r, it.load(st, Loc(r.obj, r.path)))
    return it.zst(dt)


def m_to_vec(it, st, fn, a, dt, atys, f):
    if it.P.is_word_vec(dt) and isinstance(a[0], Ref):
        x = it.sl_get(st, a[0])
        if x is not None:
            cap = sym('cap', 0, (1 << it.PB) - 1)
            st.assume(('ge', cap - x[0]))
            return VecV(vec_ety(it, dt), [x], cap)
    return unk(it, st, dt)


def range_of(it, st, r, ty, n):
    """(start, end) of a range argument over a sequence of length n"""
    if isinstance(r, Agg):
        d = it.T(r.ty).get('def')
        fs = [f[0] for f in it.T(r.ty)['v'][0][2]] if it.T(r.ty)['k'] == 'struct' else []
        g = dict(zip(fs, r.fs))
        if d == 'std::ops::Range':
            return st.norm(g['start']), st.norm(g['end'])
        if d == 'std::ops::RangeTo':
            return ZERO, st.norm(g['end'])
        if d == 'std::ops::RangeFrom':
            return st.norm(g['start']), st.norm(n)
        if d == 'std::ops::RangeFull':
            return ZERO, st.norm(n)
        if d == 'std::ops::RangeToInclusive':
            return ZERO, st.norm(g['end'] + 1)
        if d == 'std::ops::RangeInclusive':
            return st.norm(g['start']), st.norm(g['end'] + 1)
    return None


def m_index(it, st, fn, a, dt, atys, f):
    s = as_slice(it, st, a[0])
    if s is None:
        return unk(it, st, dt)
    i = a[1]
    if isinstance(i, Poly):
        require(it, st, ('ge', s[2] - i - 1), 'index')
        return elem(s[0], st.norm(s[1] + i))
    r = range_of(it, st, i, atys[1], s[2])
    if r is None:
        return unk(it, st, dt)
    require(it, st, ('ge', r[1] - r[0]), 'slice index')
    require(it, st, ('ge', s[2] - r[1]), 'slice index')
    if it.unroll and st.const(s[2]) is not None:
        for p in r:
            lo, hi = st.rng(p)
            if st.const(p) is None and 0 <= lo and hi - lo <= 16:
                raise Split([lambda c, k=k, p=p: c.assume(('eq', p - k)) for k in range(int(lo), int(hi) + 1)])
    return Ref(s[0].obj, s[0].path, (st.norm(s[1] + r[0]), st.norm(r[1] - r[0])))


def m_from_ref(it, st, fn, a, dt, atys, f):
    r = a[0]
    if isinstance(r, Ref):
        if r.path and isinstance(r.path[-1], tuple):
            return Ref(r.obj, r.path[:-1], (r.path[-1][1], ONE))
        v = it.load(st, Loc(r.obj, r.path))
        if isinstance(v, Poly):
            ety = it.T(it.T(dt)['e'])['e']
            o = it.obj(st, VecV(ety, [(ONE, v)]))
            return Ref(o, (), (ZERO, ONE))
    return unk(it, st, dt)


# ---- iterators -------------------------------------------------------------------------------
def m_iter(it, st, fn, a, dt, atys, f):
    s = as_slice(it, st, a[0])
    if s is None:
        return unk(it, st, dt, 'iter')
    return It('slice', (s[0], s[1], st.norm(s[1] + s[2])))


def m_chunks(it, st, fn, a, dt, atys, f):
    s = as_slice(it, st, a[0])
    if s is None or not isinstance(a[1], Poly):
        return unk(it, st, dt, 'iter')
    kind = fn.name.replace('_mut', '')
    n = a[1]
    st_, en = s[1], st.norm(s[1] + s[2])
    if kind.endswith('_exact'):
        r = s_mod(st, s[2], n)
        if kind == 'chunks_exact':
            return It(kind, (s[0], st_, st.norm(en - r), n, (st.norm(en - r), st.norm(r))))
        return It(kind, (s[0], st.norm(st_ + r), en, n, (st_, st.norm(r))))
    return It(kind, (s[0], st_, en, n))


def m_remainder(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, It) and len(v.a) == 5:
        r = v.a[0]
        return Ref(r.obj, r.path, v.a[4])
    return unk(it, st, dt)


def m_zip(it, st, fn, a, dt, atys, f):
    b = a[1]
    if isinstance(b, Ref):
        s = as_slice(it, st, b)
        if s is not None:
            b = It('slice', (s[0], s[1], st.norm(s[1] + s[2])))
    if isinstance(a[0], (It, Agg)) and isinstance(b, (It, Agg)):
        return It('zip', (a[0], b))
    return unk(it, st, dt, 'iter')


def mk1(kind):
    def m(it, st, fn, a, dt, atys, f):
        if isinstance(a[0], (It, Agg)):
            return It(kind, a)
        return unk(it, st, dt, 'iter')
    return m


def m_enumerate(it, st, fn, a, dt, atys, f):
    if isinstance(a[0], (It, Agg)):
        return It('enumerate', (a[0], ZERO))
    return unk(it, st, dt, 'iter')


def m_repeat(it, st, fn, a, dt, atys, f):
    return It('repeat', (a[0],))


def m_into_iter(it, st, fn, a, dt, atys, f):
    v = a[0]
    if isinstance(v, Ref):
        s = as_slice(it, st, v)
        if s is not None and it.T(dt)['k'] == 'struct' and it.T(dt).get('def', '').startswith('std::slice::'):
            return It('slice', (s[0], s[1], st.norm(s[1] + s[2])))
        if it.T(dt)['k'] == 'struct':
            return unk(it, st, dt, 'iter')
    return v


NONE = ('none',)


class Cant(Exception):
    pass


def nxt(it, st, i, back, depth=0):
    """(element or NONE, iterator afterwards); Split on emptiness"""
    if isinstance(i, Agg) and it.T(i.ty).get('def') == RANGE:
        lo, hi = i.fs
        if not (isinstance(lo, Poly) and isinstance(hi, Poly)):
            raise Cant()
        c = ('ge', hi - lo - 1)
        t = st.truth(c)
        if t is None:
            raise Split([lambda s: s.assume(c), lambda s: s.assume(bnot(c))])
        if not t:
            return NONE, i
        if back:
            return st.norm(hi - 1), Agg(i.ty, 0, [lo, st.norm(hi - 1)])
        return lo, Agg(i.ty, 0, [st.norm(lo + 1), hi])
    if not isinstance(i, It):
        raise Cant()
    k = i.kind
    if k == 'slice':
        r, s, e = i.a
        c = ('ge', e - s - 1)
        t = st.truth(c)
        if t is None:
            raise Split([lambda x: x.assume(c), lambda x: x.assume(bnot(c))])
        if not t:
            return NONE, i
        if back:
            return elem(r, st.norm(e - 1)), It(k, (r, s, st.norm(e - 1)))
        return elem(r, st.norm(s)), It(k, (r, st.norm(s + 1), e))
    if k == 'rev':
        x, j = nxt(it, st, i.a[0], not back)
        return x, It(k, (j,))
    if k == 'enumerate':
        if back:
            raise Cant()
        x, j = nxt(it, st, i.a[0], back)
        if x is NONE:
            return x, It(k, (j, i.a[1]))
        return (i.a[1], x), It(k, (j, st.norm(i.a[1] + 1)))
    if k == 'zip':
        if back:
            raise Cant()
        x, j = nxt(it, st, i.a[0], back)
        if x is NONE:
            return x, It(k, (j, i.a[1]))
        y, l = nxt(it, st, i.a[1], back)
        if y is NONE:
            return y, It(k, (j, l))
        return (x, y), It(k, (j, l))
    if k == 'copied':
        x, j = nxt(it, st, i.a[0], back)
        if x is NONE:
            return x, It(k, (j,))
        return it.load(st, Loc(x.obj, x.path)), It(k, (j,))
    if k == 'repeat':
        return i.a[0], i
    if k == 'skipped':
        if back:
            raise Cant()
        x, j = nxt(it, st, i.a[0], back)
        return x, It(k, (j,))
    if k == 'take':
        if back:
            raise Cant()
        n = i.a[1]
        c = ('ge', n - 1)
        t = st.truth(c)
        if t is None:
            raise Split([lambda x: x.assume(c), lambda x: x.assume(bnot(c))])
        if not t:
            return NONE, i
        x, j = nxt(it, st, i.a[0], back)
        return x, It(k, (j, st.norm(n - 1)))
    if k in ('chunks', 'rchunks', 'chunks_exact', 'rchunks_exact'):
        r, s, e, n = i.a[:4]
        c = ('ge', e - s - 1)
        t = st.truth(c)
        if t is None:
            raise Split([lambda x: x.assume(c), lambda x: x.assume(bnot(c))])
        if not t:
            return NONE, i
        if back:
            a, b = st.const(e - s), st.const(n)
            if a is None or not b:
                raise Cant()
            m = C(a % b or b)
            if k.startswith('r'):
                return Ref(r.obj, r.path, (s, m)), It(k, (r, st.norm(s + m), e, n) + i.a[4:])
            return Ref(r.obj, r.path, (st.norm(e - m), m)), It(k, (r, s, st.norm(e - m), n) + i.a[4:])
        c = ('ge', e - s - n)
        t = st.truth(c)
        if t is None and k.endswith('exact'):
            if not st.assume(c):
                raise Infeasible()
            t = True
        if t is None:
            raise Split([lambda x: x.assume(c), lambda x: x.assume(bnot(c))])
        m = n if t else st.norm(e - s)
        if k.startswith('r'):
            return Ref(r.obj, r.path, (st.norm(e - m), st.norm(m))), It(k, (r, s, st.norm(e - m), n) + i.a[4:])
        return Ref(r.obj, r.path, (s, st.norm(m))), It(k, (r, st.norm(s + m), e, n) + i.a[4:])
    raise Cant()


def rebuild(it, v, ty):
    """nested python tuples -> tuple values of type ty"""
    if isinstance(v, tuple) and not it.is_bool(v) and v[0] != 'fnp':
        t = it.T(ty)
        if t['k'] != 'tuple':
            raise Cant()
        return Agg(ty, 0, [rebuild(it, x, f) for x, f in zip(v, t['f'])])
    return v


def m_next(back):
    def m(it, st, fn, a, dt, atys, f):
        r = a[0]
        if isinstance(r, Ref):
            v = it.load(st, Loc(r.obj, r.path))
            hop = 0
            while isinstance(v, Ref) and hop < 4 and v.sl is None:
                r = v
                v = it.load(st, Loc(r.obj, r.path))
                hop += 1
            if isinstance(v, It) and v.kind == 'map':
                return map_next(it, st, r, v, back, dt)
            if isinstance(v, It) and v.kind == 'skip_while' and not back:
                try:
                    return skip_next(it, st, r, v, dt)
                except Cant:
                    it.havoc_iter(st, v)
                    return unk(it, st, dt, 'next')
            if isinstance(v, (It, Agg)):
                try:
                    x, j = nxt(it, st, v, back)
                    st.heap  # state unchanged by nxt besides assumptions
                    putref(it, st, r, j)
                    if x is NONE:
                        return option(it, dt)
                    pt = it.T(dt)['v'][[q[0] for q in it.T(dt)['v']].index('Some')][2][0][1]
                    return option(it, dt, rebuild(it, x, pt))
                except Cant:
                    pass
            it.havoc_iter(st, v)
        return unk(it, st, dt, 'next')
    return m


def map_next(it, st, r, v, back, dt):
    try:
        x, j = nxt(it, st, v.a[0], back)
    except Cant:
        return unk(it, st, dt, 'next')
    putref(it, st, r, It('map', (j, v.a[1])))
    if x is NONE:
        return option(it, dt)
    outs = it.call_closure(st, v.a[1], [x])
    if outs is None:
        return unk(it, st, dt, 'next')
    return Multi([(s, option(it, dt, y)) for s, y in outs])


def skip_next(it, st, r, v, dt):
    """next() of skip_while before the first element is let through"""
    if not bounded(it, st, v.a[0]):
        raise Cant()
    out, live = [], [(st, v.a[0])]
    while live:
        s, i = live.pop()
        x, j = nxt(it, s, i, False)
        if x is NONE:
            putref(it, s, r, It('skipped', (j,)))
            out.append((s, option(it, dt)))
            continue
        t = arg_ty(it, s, v.a[1], 0)
        o = s.copy() if False else s
        b = it.call_closure(o, v.a[1], [Ref(it.obj(o, x, it.T(t)['e'] if t is not None else None))])
        if b is None:
            raise Cant()
        for s2, c in b:
            if not it.is_bool(c):
                raise Cant()
            for s3, z in forks(it, s2, c):
                if z:
                    live.append((s3, j))
                else:
                    putref(it, s3, r, It('skipped', (j,)))
                    pt = it.T(dt)['v'][[q[0] for q in it.T(dt)['v']].index('Some')][2][0][1]
                    out.append((s3, option(it, dt, rebuild(it, x, pt))))
    return Multi(out)


def iter_len(it, st, i):
    if isinstance(i, Agg) and it.T(i.ty).get('def') == RANGE:
        lo, hi = i.fs
        return st.norm(hi - lo)
    if isinstance(i, It):
        if i.kind == 'slice':
            return st.norm(i.a[2] - i.a[1])
        if i.kind in ('rev', 'map', 'copied', 'skipped'):
            return iter_len(it, st, i.a[0])
        if i.kind == 'enumerate':
            return iter_len(it, st, i.a[0])
        if i.kind in ('chunks', 'rchunks'):
            r, s, e, n = i.a[:4]
            return st.norm(s_div(st, e - s + n - 1, n))
    return None


def m_exact_len(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    n = iter_len(it, st, v)
    return n if n is not None else unk(it, st, dt, 'len')


def m_iter_cmp(it, st, fn, a, dt, atys, f):
    x, y = a
    if isinstance(x, It) and isinstance(y, It) and x.kind == y.kind == 'rev':
        p, q = iter_seq(it, st, x.a[0]), iter_seq(it, st, y.a[0])
        if p and q and st.truth(('eq', p[0] - q[0])) is True:
            return it.binop(st, 'Cmp', p[1], q[1], None, dt)
    p, q = words_of(it, st, x), words_of(it, st, y)
    if p is not None and q is not None and len(p) == len(q):
        # lexicographic comparison of n words: the first word yielded weighs most
        n = len(p)
        p = sum((w * pow2(C((n - 1 - i) * it.W)) for i, w in enumerate(p)), ZERO)
        q = sum((w * pow2(C((n - 1 - i) * it.W)) for i, w in enumerate(q)), ZERO)
        return it.binop(st, 'Cmp', st.norm(p), st.norm(q), None, dt)
    return unk(it, st, dt, 'cmp')


def words_of(it, st, i):
    """the words an iterator over a slice of known length yields"""
    if not isinstance(i, It):
        return None
    if i.kind == 'rev':
        r = words_of(it, st, i.a[0])
        return r and r[::-1]
    if i.kind == 'copied':
        return words_of(it, st, i.a[0])
    if i.kind != 'slice':
        return None
    r, s, e = i.a
    a, b = st.const(s), st.const(e)
    if a is None or b is None or b - a > 64:
        return None
    v = it.load(st, Loc(r.obj, r.path))
    return [it.vec_get(st, v, C(k)) for k in range(a, b)]


def bounded(it, st, v):
    """an iterator that is known to end after few elements"""
    n = iter_len(it, st, v)
    n = None if n is None else st.const(n)
    return n is not None and n <= 24


def arg_ty(it, st, c, k):
    v = c
    while isinstance(v, Ref) and v.sl is None:
        v = it.load(st, Loc(v.obj, v.path))
    if isinstance(v, Agg) and it.T(v.ty)['k'] == 'closure':
        f = it.P.fns[it.T(v.ty)['fn']]
        return f.locals[2 + k] if len(f.locals) > 2 + k else None
    return None


def drive(it, st, v, acc, step):
    """[(state, acc)] after giving every element of the bounded iterator v to step(state, acc, x) -> [(state, acc, stop)] or None"""
    live, out = [(st, v, acc)], []
    for _ in range(64):
        if not live:
            return out
        new = []
        for s, i, a in live:
            if i.kind == 'map' if isinstance(i, It) else False:
                x, j = nxt(it, s, i.a[0], False)
                if x is NONE:
                    out.append((s, a))
                    continue
                t = arg_ty(it, s, i.a[1], 0)
                xs = it.call_closure(s, i.a[1], [rebuild(it, x, t) if t is not None else x])
                if xs is None:
                    raise Cant()
                xs = [(s2, y, It('map', (j, i.a[1]))) for s2, y in xs]
            else:
                x, j = nxt(it, s, i, False)
                if x is NONE:
                    out.append((s, a))
                    continue
                xs = [(s, x, j)]
            for s2, y, j2 in xs:
                r = step(s2, a, y)
                if r is None:
                    raise Cant()
                for s3, a3, stop in r:
                    if stop:
                        out.append((s3, a3))
                    else:
                        new.append((s3, j2, a3))
        live = new
    raise Cant()


def m_fold(it, st, fn, a, dt, atys, f):
    if isinstance(a[0], (It, Agg)) and bounded(it, st, a[0]):
        c = a[2]
        t = arg_ty(it, st, c, 1)

        def step(s, acc, x):
            r = it.call_closure(s, c, [acc, rebuild(it, x, t) if t is not None else x])
            return None if r is None else [(s2, y, False) for s2, y in r]
        try:
            return Multi(drive(it, st, a[0], a[1], step))
        except Cant:
            pass
    return unk(it, st, dt, 'fold')


def forks(it, s, b):
    """[(state, truth)]"""
    t = s.truth(b)
    if t is not None:
        return [(s, t)]
    o = s.copy()
    out = []
    if s.assume(b):
        out.append((s, True))
    if o.assume(bnot(b)):
        out.append((o, False))
    return out


def unroll_all_any(it, st, v, c, want_all, dt):
    if not (isinstance(v, (It, Agg)) and bounded(it, st, v)):
        return unk(it, st, dt, 'all')
    t = arg_ty(it, st, c, 0)

    def step(s, acc, x):
        r = it.call_closure(s, c, [rebuild(it, x, t) if t is not None else x])
        if r is None:
            return None
        out = []
        for s2, b in r:
            if not it.is_bool(b):
                return None
            for s3, z in forks(it, s2, b):
                out.append((s3, TRUE if z else FALSE, z != want_all))
        return out
    try:
        return Multi([(s, x) for s, x in drive(it, st, v, TRUE if want_all else FALSE, step)])
    except Cant:
        return unk(it, st, dt, 'all')


def m_all_any(want_all):
    def m(it, st, fn, a, dt, atys, f):
        v = loadref(it, st, a[0])
        s = iter_seq(it, st, v) if isinstance(v, It) else None
        if s is None:
            return unroll_all_any(it, st, v, a[1], want_all, dt)
        ety = None
        w = v
        while isinstance(w, It) and w.kind in ('copied', 'rev'):
            w = w.a[0]
        base = it.load(st, Loc(w.a[0].obj, w.a[0].path))
        e = it.fresh(st, base.ety, 'e')
        arg = e if v.kind == 'copied' else Ref(it.obj(st, e, base.ety))
        outs = it.call_closure(st.copy(), a[1], [arg])
        if outs is None:
            return unk(it, st, dt, 'all')
        # the closure has to be "element == 0" (or its negation), on all paths
        res = set()
        for so, r in outs:
            if not it.is_bool(r):
                return unk(it, st, dt, 'all')
            tz = so.copy()
            z = tz.truth(r) if tz.assume(('eq', e)) else None
            tn = so.copy()
            ok = tn.assume(('ge', e - 1))
            nz = tn.truth(r) if ok else None
            res.add((z, nz))
        zs = {x for x, _ in res if x is not None}
        ns = {x for _, x in res if x is not None}
        if len(zs) == 1 and len(ns) == 1 and zs != ns:
            on_zero = zs.pop()
            if want_all and on_zero:
                return ('eq', s[1])
            if not want_all and not on_zero:
                return ('ne', s[1])
        return unroll_all_any(it, st, v, a[1], want_all, dt)
    return m


# ---- integers --------------------------------------------------------------------------------
def m_ctlz(it, st, fn, a, dt, atys, f):
    x = st.norm(a[0])
    bits = it.T(atys[0])['bits']
    c = st.const(x)
    if c is not None:
        return C(bits - int(c).bit_length())
    lo, hi = st.rng(x)
    l = bits - int(hi).bit_length() if hi != INF else 0
    h = bits - int(max(lo, 0)).bit_length()
    if lo <= 0 and st.truth(('ge', x - 1)) is not True:
        if st.truth(('eq', x)) is not False:
            raise Split([lambda s: s.assume(('eq', x)), lambda s: s.assume(('ge', x - 1))])
    s = app('clz', (x, C(bits)), l, h)
    st.assume(('ge', x * pow2(s) - (1 << (bits - 1))))
    st.assume(('ge', C((1 << bits) - 1) - x * pow2(s)))
    return st.norm(s)


def m_cttz(it, st, fn, a, dt, atys, f):
    x = st.norm(a[0])
    bits = it.T(atys[0])['bits']
    c = st.const(x)
    if c is not None:
        return C(bits if c == 0 else (int(c) & -int(c)).bit_length() - 1)
    if st.truth(('eq', x)) is not False:
        raise Split([lambda s: s.assume(('eq', x)), lambda s: s.assume(('ne', x))])
    lo, hi = st.rng(x)
    s = app('ctz', (x,), 0, bits - 1 if hi == INF else int(hi).bit_length() - 1)
    # 2^ctz(x) divides x, hence is at most x
    if lo >= 1:
        st.assume(('ge', x - pow2(s)))
    return st.norm(s)


def m_ctpop(it, st, fn, a, dt, atys, f):
    x = st.norm(a[0])
    c = st.const(x)
    if c is not None:
        return C(bin(int(c)).count('1'))
    bits = it.T(atys[0])['bits']
    return app('popcnt', (x,), 0, bits)


def s_bswap(st, x, n):
    x = st.norm(x)
    c = x.cval()
    k = n.cval()
    if c is not None:
        return C(int.from_bytes(int(c).to_bytes(k, 'little'), 'big'))
    sa = x.single_atom()
    if sa is not None and sa.kind == 'app' and sa.name == 'bswap' and sa.args[1] is n:
        return sa.args[0]
    if sa is not None and sa.kind == 'app' and sa.name == 'mod' and sa.args[1].cval() == 1 << (8 * k):
        b = sa.args[0].single_atom()
        if b is not None and b.kind == 'app' and b.name == 'bswap':     # the low bytes of a reversed word
            return s_div(st, b.args[0], C(1 << (8 * (b.args[1].cval() - k))))
    bs = [b for b in x.deep if b.kind == 'app' and b.name == 'bswap']
    for b in bs[:1]:
        w = b.args[1].cval() - k
        if w > 0 and s_div(st, Poly.atom(b), C(1 << (8 * w))) == x:     # its high bytes
            return s_mod(st, b.args[0], C(1 << (8 * k)))
    return app('bswap', (x, n), 0, (1 << (8 * k)) - 1)


def m_bswap(it, st, fn, a, dt, atys, f):
    return s_bswap(st, a[0], C(it.T(atys[0])['bits'] // 8))


def m_to_bytes(order):
    def m(it, st, fn, a, dt, atys, f):
        if not isinstance(a[0], Poly):
            return unk(it, st, dt)
        n = it.T(dt).get('len')
        x = st.norm(a[0])
        if st.rng(x)[0] < 0:
            x = s_mod(st, x, C(1 << (8 * n)))
        if order == 'be':
            x = s_bswap(st, x, C(n))
        return VecV(it.T(dt)['e'], [(C(n), x)])
    return m


def m_from_bytes(order):
    def m(it, st, fn, a, dt, atys, f):
        if not isinstance(a[0], VecV):
            return unk(it, st, dt)
        x = st.norm(it.vec_val(a[0]))
        n = st.const(it.vec_len(a[0]))
        if n is None:
            return unk(it, st, dt)
        if order == 'be':
            x = s_bswap(st, x, C(n))
        r = it.int_range(dt)
        return it.wrap(st, x, dt)
    return m


def carry_in(it, st, c):
    lo, hi = st.rng(c)
    if lo >= 0 and hi <= 1:
        return c
    return it.b2i(st, ('ne', c))


def m_addcarry(it, st, fn, a, dt, atys, f):
    c = carry_in(it, st, a[0])
    bits = it.T(atys[1])['bits']
    p = st.norm(a[1] + a[2] + c)
    n = C(1 << bits)
    out = s_mod(st, p, n)
    putref(it, st, a[3], out)
    return s_div(st, p, n)


def m_subborrow(it, st, fn, a, dt, atys, f):
    c = carry_in(it, st, a[0])
    bits = it.T(atys[1])['bits']
    p = st.norm(a[1] - a[2] - c)
    n = C(1 << bits)
    out = s_mod(st, p, n)
    putref(it, st, a[3], out)
    return st.norm(-s_div(st, p, n))


def m_add_overflow(it, st, fn, a, dt, atys, f):
    op = {'add_with_overflow': 'AddWithOverflow', 'sub_with_overflow': 'SubWithOverflow',
          'mul_with_overflow': 'MulWithOverflow'}[fn.name]
    return it.binop(st, op, a[0], a[1], atys[0], dt)


def m_arith(op):
    def m(it, st, fn, a, dt, atys, f):
        return it.binop(st, op, a[0], a[1], atys[0], dt)
    return m


def m_saturating(op):
    def m(it, st, fn, a, dt, atys, f):
        if not isinstance(a[0], Poly) or not isinstance(a[1], Poly):
            return unk(it, st, dt, fn.name)
        p = it.raw_arith(st, op, a[0], a[1], atys[0])
        lo, hi = it.int_range(dt)
        if st.truth(('ge', p - hi - 1)) is None:
            raise Split([lambda s: s.assume(('ge', p - hi - 1)), lambda s: s.assume(('ge', C(hi) - p))])
        if st.truth(('ge', p - hi - 1)):
            return C(hi)
        if st.truth(('ge', C(lo) - p - 1)) is None:
            raise Split([lambda s: s.assume(('ge', C(lo) - p - 1)), lambda s: s.assume(('ge', p - lo))])
        if st.truth(('ge', C(lo) - p - 1)):
            return C(lo)
        return st.norm(p)
    return m


def m_minmax(mx):
    def m(it, st, fn, a, dt, atys, f):
        if not (isinstance(a[0], Poly) and isinstance(a[1], Poly)):
            return unk(it, st, dt)
        c = ('ge', a[0] - a[1])
        t = st.truth(c)
        if t is None:
            raise Split([lambda s: s.assume(c), lambda s: s.assume(bnot(c))])
        return a[0] if t == mx else a[1]
    return m


# ---- memory ----------------------------------------------------------------------------------
def m_replace(it, st, fn, a, dt, atys, f):
    if not isinstance(a[0], Ref):
        return unk(it, st, dt)
    old = it.load(st, Loc(a[0].obj, a[0].path))
    putref(it, st, a[0], a[1])
    return old


def m_swap(it, st, fn, a, dt, atys, f):
    if isinstance(a[0], Ref) and isinstance(a[1], Ref):
        x = it.load(st, Loc(a[0].obj, a[0].path))
        y = it.load(st, Loc(a[1].obj, a[1].path))
        putref(it, st, a[0], y)
        putref(it, st, a[1], x)
    return it.zst(dt)


def m_read(it, st, fn, a, dt, atys, f):
    if not isinstance(a[0], Ref) or a[0].sl is not None:
        return unk(it, st, dt)
    return it.load(st, Loc(a[0].obj, a[0].path), dt)


def m_write(it, st, fn, a, dt, atys, f):
    if isinstance(a[0], Ref) and a[0].sl is None:
        putref(it, st, a[0], a[1])
    return it.zst(dt)


def m_ptr_eq(it, st, fn, a, dt, atys, f):
    return it.ref_eq(st, a[0], a[1])


def m_refs_eq(it, st, fn, a, dt, atys, f):
    return None


def m_unit(it, st, fn, a, dt, atys, f):
    z = it.zst(dt)
    return z if z is not None else unk(it, st, dt)


def m_true(it, st, fn, a, dt, atys, f):
    return TRUE


def m_size_of(it, st, fn, a, dt, atys, f):
    return unk(it, st, dt, 'size')


# ---- strings and messages --------------------------------------------------------------------
def str_len(it, st, s):
    if s.bytes is not None:
        return C(len(s.bytes))
    key = ('strlen', s.uid)
    if key not in st.extra:
        st.extra[key] = sym('strlen', 0, (1 << (it.PB - 1)) - 1)
    return st.norm(st.extra[key])


def m_str_len(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, StrV):
        return str_len(it, st, v)
    return unk(it, st, dt, 'strlen')


def m_str_is_empty(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, StrV):
        return ('eq', str_len(it, st, v))
    return unk(it, st, dt, 'strlen')


def m_as_bytes(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    if isinstance(v, StrV):
        key = ('strbytes', v.uid)
        o = st.extra.get(key)
        if o is None:
            ety = it.T(it.T(dt)['e'])['e']
            n = str_len(it, st, v)
            if v.bytes is not None:
                o = st.extra[key] = it.obj(st, VecV(ety, [(ONE, x) for x in v.bytes]))
                return Ref(o, (), (ZERO, n))
            x = sym('bytes', 0, INF, True)
            st.assume(('ge', pow2(n * 8) - x - 1))
            o = it.obj(st, VecV(ety, [(n, x)]))
            st.extra[key] = o
        return Ref(o, (), (ZERO, str_len(it, st, v)))
    return unk(it, st, dt, 'bytes')


def m_strip_prefix(it, st, fn, a, dt, atys, f):
    v, p = loadref(it, st, a[0]), a[1]
    while isinstance(p, Ref):
        p = it.load(st, Loc(p.obj, p.path))
    if isinstance(p, Poly):
        c = st.const(p)
        p = None if c is None or c > 127 else (C(int(c)),)
    else:
        p = p.bytes if isinstance(p, StrV) else None
    if not isinstance(v, StrV) or v.bytes is None or p is None:
        return unk(it, st, dt, 'strip')
    if len(v.bytes) < len(p):
        return option(it, dt)
    for x, y in zip(v.bytes, p):
        b = ('eq', x - y)
        t = st.truth(b)
        if t is None:
            raise Split([lambda c: c.assume(b), lambda c: c.assume(bnot(b))])
        if not t:
            return option(it, dt)
    return option(it, dt, Ref(it.obj(st, StrV(None, v.bytes[len(p):]), None)))


def m_args_from_str(it, st, fn, a, dt, atys, f):
    v = loadref(it, st, a[0])
    return Opq(dt, tag=('fmtargs', v.const if isinstance(v, StrV) else None))


def m_args_new(it, st, fn, a, dt, atys, f):
    t = None
    r = a[0]
    v = loadref(it, st, r) if isinstance(r, Ref) else None
    return Opq(dt, tag=('fmtargs', None))


def m_fmt_result(it, st, fn, a, dt, atys, f):
    return it.fresh(st, dt, 'fmt', False)


# ---- closures --------------------------------------------------------------------------------
def m_call_closure(it, st, fn, a, dt, atys, f):
    v = a[0]
    while isinstance(v, Ref) and v.sl is None:
        v = it.load(st, Loc(v.obj, v.path))
    args = list(a[1].fs) if isinstance(a[1], Agg) else None
    if args is None:
        return unk(it, st, dt, 'call')
    outs = it.call_closure(st, a[0], args)
    if outs is None:
        it.unk_calls['closure'] = it.unk_calls.get('closure', 0) + 1
        for x in args:
            it.havoc_reach(st, x, set(), True)
        return unk(it, st, dt, 'call')
    return Multi(outs)


def table(it):
    t = {}

    def put(names, m):
        for n in names.split('\n'):
            n = n.strip()
            if n:
                t[n] = m
    put('std::vec::Vec::<T>::new', m_vec_new)
    put('std::vec::Vec::<T>::with_capacity', m_vec_with_capacity)
    put('std::vec::Vec::<T, A>::len', m_vec_len)
    put('std::vec::Vec::<T, A>::is_empty', m_slice_is_empty)
    put('std::vec::Vec::<T, A>::capacity', m_vec_capacity)
    put('std::vec::Vec::<T, A>::push', m_vec_push)
    put('std::vec::Vec::<T, A>::pop', m_vec_pop)
    put('std::vec::Vec::<T, A>::truncate', m_vec_truncate)
    put('std::vec::Vec::<T, A>::clear', m_vec_clear)
    put('std::vec::Vec::<T, A>::extend_from_slice', m_vec_extend_from_slice)
    put("""<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend
           <std::vec::Vec<T, A> as std::iter::Extend<T>>::extend""", m_vec_extend)
    put('std::vec::Vec::<T, A>::drain', m_vec_drain)
    put('std::vec::Vec::<T, A>::splice', m_vec_splice)
    put('<std::vec::Vec<T, A> as std::clone::Clone>::clone', m_vec_clone)
    put('<std::vec::Vec<T, A> as std::clone::Clone>::clone_from', m_vec_clone_from)
    put("""<std::vec::Vec<T, A> as std::ops::Deref>::deref
           <std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut
           std::vec::Vec::<T, A>::as_slice
           std::vec::Vec::<T, A>::as_mut_slice""", m_vec_deref)
    put("""std::array::<impl std::convert::AsMut<[T]> for [T; N]>::as_mut
           std::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref""", m_as_slice)
    put("""std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq
           std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::ne
           core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq
           core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::ne
           std::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq
           std::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::ne
           std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq""", m_seq_eq)
    S = 'core::slice::<impl [T]>::'
    put(S + 'len', m_slice_len)
    put(S + 'is_empty', m_slice_is_empty)
    put(S + 'first\n' + S + 'first_mut', m_first)
    put(S + 'last\n' + S + 'last_mut', m_last)
    put(S + 'get\n' + S + 'get_mut', m_get)
    put(S + 'split_at\n' + S + 'split_at_mut', m_split_at)
    put('\n'.join(S + x for x in ('split_first', 'split_first_mut', 'split_last', 'split_last_mut')), m_split_first)
    put(S + 'copy_from_slice\n' + S + 'clone_from_slice', m_copy_from_slice)
    put(S + 'fill', m_fill)
    put('std::slice::<impl [T]>::to_vec', m_to_vec)
    put(S + 'iter\n' + S + 'iter_mut', m_iter)
    put('\n'.join(S + x for x in ('chunks', 'chunks_mut', 'rchunks', 'chunks_exact', 'chunks_exact_mut', 'rchunks_exact')), m_chunks)
    put("""std::slice::ChunksExact::<'a, T>::remainder
           std::slice::RChunksExact::<'a, T>::remainder""", m_remainder)
    put("""core::slice::index::<impl std::ops::Index<I> for [T]>::index
           core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut
           <std::vec::Vec<T, A> as std::ops::Index<I>>::index
           <std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut
           std::array::<impl std::ops::Index<I> for [T; N]>::index
           std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut""", m_index)
    put('std::slice::from_ref\nstd::slice::from_mut', m_from_ref)
    put("""<I as std::iter::IntoIterator>::into_iter
           core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter
           core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter
           <&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter
           <&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter
           <std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter""", m_into_iter)
    put('std::iter::Iterator::zip', m_zip)
    put('std::iter::Iterator::rev', mk1('rev'))
    put('std::iter::Iterator::copied\nstd::iter::Iterator::cloned', mk1('copied'))
    put('std::iter::Iterator::take', mk1('take'))
    put('std::iter::Iterator::map', mk1('map'))
    put('std::iter::Iterator::skip_while', mk1('skip_while'))
    put('std::iter::Iterator::enumerate', m_enumerate)
    put('std::iter::repeat', m_repeat)
    put("std::iter::Iterator::fold\n<std::slice::Iter<'a, T> as std::iter::Iterator>::fold", m_fold)
    put('std::iter::Iterator::cmp', m_iter_cmp)
    put("std::iter::ExactSizeIterator::len", m_exact_len)
    put("<std::slice::Iter<'a, T> as std::iter::Iterator>::all\nstd::iter::Iterator::all", m_all_any(True))
    put("<std::slice::Iter<'a, T> as std::iter::Iterator>::any\nstd::iter::Iterator::any", m_all_any(False))
    for n in ('ctlz', 'ctlz_nonzero'):
        put('std::intrinsics::' + n, m_ctlz)
    for n in ('cttz', 'cttz_nonzero'):
        put('std::intrinsics::' + n, m_cttz)
    put('std::intrinsics::ctpop', m_ctpop)
    put('std::intrinsics::bswap', m_bswap)
    for n in ('add', 'sub', 'mul'):
        put('std::intrinsics::%s_with_overflow' % n, m_add_overflow)
        put('std::intrinsics::wrapping_' + n, m_arith(n.capitalize()))
        put('std::intrinsics::unchecked_' + n, m_arith(n.capitalize() + 'Unchecked'))
        put('std::intrinsics::saturating_' + n, m_saturating(n.capitalize()))
    put('std::intrinsics::unchecked_div\nstd::intrinsics::exact_div', m_arith('Div'))
    put('std::intrinsics::unchecked_rem', m_arith('Rem'))
    put('std::intrinsics::unchecked_shl', m_arith('Shl'))
    put('std::intrinsics::unchecked_shr', m_arith('Shr'))
    put('std::intrinsics::likely\nstd::intrinsics::unlikely\nstd::hint::black_box\nstd::intrinsics::black_box', m_identity)
    put('std::intrinsics::cold_path\nstd::hint::cold_path', m_unit)
    for ty in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
        for o in ('le', 'be'):
            put('core::num::<impl %s>::to_%s_bytes' % (ty, o), m_to_bytes(o))
            put('core::num::<impl %s>::from_%s_bytes' % (ty, o), m_from_bytes(o))
        put('core::num::<impl %s>::to_ne_bytes' % ty, m_to_bytes('le'))
        put('core::num::<impl %s>::from_ne_bytes' % ty, m_from_bytes('le'))
        put('std::cmp::impls::<impl std::cmp::Ord for %s>::max' % ty, m_minmax(True))
        put('std::cmp::impls::<impl std::cmp::Ord for %s>::min' % ty, m_minmax(False))
    for a in ('std::arch::x86_64::', 'core::core_arch::x86_64::adx::', 'std::arch::x86::'):
        for w in ('u64', 'u32'):
            put(a + '_addcarry_' + w, m_addcarry)
            put(a + '_subborrow_' + w, m_subborrow)
    put('std::mem::replace', m_replace)
    put('std::mem::swap', m_swap)
    put('std::ptr::read\nstd::intrinsics::read_via_copy\nstd::ptr::mut_ptr::<impl *mut T>::read\nstd::ptr::const_ptr::<impl *const T>::read', m_read)
    put('std::ptr::write\nstd::intrinsics::write_via_move', m_write)
    put('std::ptr::eq', m_ptr_eq)
    put('std::mem::drop\nstd::mem::forget\nstd::ptr::drop_in_place', m_unit)
    put('core::str::<impl str>::len', m_str_len)
    put('core::str::<impl str>::is_empty', m_str_is_empty)
    put('core::str::<impl str>::as_bytes', m_as_bytes)
    put('core::str::<impl str>::strip_prefix', m_strip_prefix)
    put("std::fmt::Arguments::<'a>::from_str", m_args_from_str)
    put("std::fmt::Arguments::<'a>::new", m_args_new)
    put('std::ops::Fn::call\nstd::ops::FnMut::call_mut\nstd::ops::FnOnce::call_once', m_call_closure)
    for n in ('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once'):
        t[('unres', n)] = m_call_closure
    return t


def pred_table(it):
    nx, nb = m_next(False), m_next(True)

    def p_next(it, fn):
        if fn.local:
            return None
        if fn.name == 'next' and (fn.impl_trait == 'std::iter::Iterator' or fn.path.endswith('Iterator>::next')
                                  or fn.path.startswith('std::iter::range::')):
            return nx
        if fn.name == 'next_back' and fn.path.endswith('Iterator>::next_back'):
            return nb
        return None
    return [p_next]
