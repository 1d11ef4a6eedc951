"""Contracts of the crate's internal word-sequence functions.

Each says what a function does to the numbers its slices stand for, as an exact function of its inputs
(`c mod B^n` written back, `c div B^n` returned, ...).  They serve twice: the contract of a function is
decided by analysing its body, and it replaces the function at every call from another body, so that
the multiplication and division algorithms are judged one level of recursion at a time, on operands
of every length tried, without executing their loops.

A contract applies to a function of the expected module and name (or, for the algorithms of one shape,
module and signature).  A function that is renamed or given another signature is simply analysed in
place.
"""
from poly import *
from state import *
from interp import Multi, Loc
import re


class NoPre(Exception):
    """the contract does not apply to this call"""


def tags(P, fn):
    """signature as a string: M/S word slices, w word, d double word, i signed word, b bool, u u32, n usize,
    s sign, m scratch memory, F prepared divisor"""
    if not fn.sig:
        return None
    out = ''.join(tag(P, t) for t in fn.sig[0])
    r = P.types[fn.sig[1]]
    if r['k'] == 'tuple':
        return out + '->' + '(' + ''.join(tag(P, t) for t in r['f']) + ')'
    return out + '->' + tag(P, fn.sig[1])


def tag(P, ti):
    t = P.types[ti]
    if t['k'] == 'ref':
        e = P.types[t['e']]
        if e['k'] == 'slice' and t['e'] is not None and e['e'] == P.t_word:
            return 'M' if t['mut'] else 'S'
        if e['k'] == 'struct' and e['n'].startswith('memory::Memory'):
            return 'm'
        if e['k'] == 'struct' and 'FastDivide' in e['n']:
            return 'F'
        return '?'
    if ti == P.t_word:
        return 'w'
    if ti == P.t_sign:
        return 's'
    if t['k'] == 'uint':
        if t['n'] == 'u32':
            return 'u'
        if t['n'] == 'usize':
            return 'n'
        if t['bits'] == 2 * P.word_bits:
            return 'd'
        return '?'
    if t['k'] == 'int':
        return 'i' if t['bits'] == P.word_bits else '?'
    if t['k'] == 'bool':
        return 'b'
    if t['k'] == 'struct' and 'FastDivide' in t['n']:
        return 'F'
    if t['k'] == 'enum' and t['n'].endswith('cmp::Ordering'):
        return 'o'
    return '?'


class A:
    """the operands of a call: numbers"""

    def __init__(self, it, st, tg, args, tys):
        self.it, self.st, self.args = it, st, args
        self.W = it.W
        self.len, self.val, self.t = [], [], tg.split('->')[0]
        for t, a, ti in zip(self.t, args, tys):
            l = v = None
            if t in 'MS':
                if not isinstance(a, Ref):
                    raise NoPre()
                x = it.sl_get(st, a)
                if x is None:
                    raise NoPre()
                l, v = x
            elif t in 'wdiun':
                if not isinstance(a, Poly):
                    raise NoPre()
                v = a
            elif t == 's':
                s = it.resolve_enum(st, a)
                if isinstance(s, SymE):
                    it.split_enum(st, s)
                if not isinstance(s, Agg):
                    raise NoPre()
                v = -1 if s.var == it.P.v_neg else 1
            elif t == 'F':
                v = divisor(it, st, a)
            self.len.append(l)
            self.val.append(v)

    def B(self, n):
        return pow2(n * self.W)

    def need(self, b):
        t = self.st.truth(b)
        if t is None and self.it.unroll:
            raise Split([lambda s: s.assume(b), lambda s: s.assume(bnot(b))])
        if t is not True:
            raise NoPre()


def divisor(it, st, a):
    hop = 0
    while isinstance(a, Ref) and hop < 4:
        a = it.load(st, Loc(a.obj, a.path))
        hop += 1
    if not isinstance(a, Agg):
        raise NoPre()
    for i, f in enumerate(it.T(a.ty)['v'][0][2]):
        if f[0] == 'divisor' and isinstance(a.fs[i], Poly):
            return a.fs[i]
    raise NoPre()


class Out:
    """new numbers of the slices written (index -> number), and what is returned"""

    def __init__(self, writes=None, ret=None, ensures=None):
        self.w, self.ret, self.ens = writes or {}, ret, ensures


def wrapped(a, i, tot, ret=1, post=None):
    """slice i becomes tot mod B^n; ret * (tot div B^n) is returned"""
    n = a.len[i]
    p = a.B(n)
    return ('wrap', i, tot, p, ret)


# name -> (module, signature, function of A giving a description of the outcome)
#   ('wrap', i, tot, B^n, r)   slice i := tot mod B^n, return r * floor(tot / B^n)
#   ('divrem', i, x, d, how)   quotient and remainder of x by d
T = {}


def k(mod, name, sig):
    def deco(f):
        T[mod, name, sig] = f
        return f
    return deco


@k('add', 'add_one_in_place', 'M->b')
def _(a):
    return wrapped(a, 0, a.val[0] + 1)


@k('add', 'sub_one_in_place', 'M->b')
def _(a):
    return wrapped(a, 0, a.val[0] - 1, -1)


@k('add', 'add_word_in_place', 'Mw->b')
def _(a):
    a.need(('ge', a.len[0] - 1))
    return wrapped(a, 0, a.val[0] + a.val[1])


@k('add', 'sub_word_in_place', 'Mw->b')
def _(a):
    a.need(('ge', a.len[0] - 1))
    return wrapped(a, 0, a.val[0] - a.val[1], -1)


@k('add', 'add_same_len_in_place', 'MS->b')
def _(a):
    a.need(('eq', a.len[0] - a.len[1]))
    return wrapped(a, 0, a.val[0] + a.val[1])


@k('add', 'sub_same_len_in_place', 'MS->b')
def _(a):
    a.need(('eq', a.len[0] - a.len[1]))
    return wrapped(a, 0, a.val[0] - a.val[1], -1)


@k('add', 'add_in_place', 'MS->b')
def _(a):
    a.need(('ge', a.len[0] - a.len[1]))
    return wrapped(a, 0, a.val[0] + a.val[1])


@k('add', 'sub_in_place', 'MS->b')
def _(a):
    a.need(('ge', a.len[0] - a.len[1]))
    return wrapped(a, 0, a.val[0] - a.val[1], -1)


@k('add', 'sub_same_len_in_place_swap', 'SM->b')
def _(a):
    a.need(('eq', a.len[0] - a.len[1]))
    return wrapped(a, 1, a.val[0] - a.val[1], -1)


@k('add', 'sub_in_place_with_sign', 'MS->s')
def _(a):
    a.need(('ge', a.len[0] - a.len[1]))
    return ('absdiff', 0, a.val[0] - a.val[1])


@k('add', 'add_signed_word_in_place', 'Mi->i')
def _(a):
    return wrapped(a, 0, a.val[0] + a.val[1])


@k('add', 'add_signed_same_len_in_place', 'MsS->i')
def _(a):
    a.need(('eq', a.len[0] - a.len[2]))
    return wrapped(a, 0, a.val[0] + a.val[2] * a.val[1])


@k('add', 'add_signed_in_place', 'MsS->i')
def _(a):
    a.need(('ge', a.len[0] - a.len[2]))
    return wrapped(a, 0, a.val[0] + a.val[2] * a.val[1])


@k('mul', 'mul_word_in_place', 'Mw->w')
def _(a):
    return wrapped(a, 0, a.val[0] * a.val[1])


@k('mul', 'mul_word_in_place_with_carry', 'Mww->w')
def _(a):
    return wrapped(a, 0, a.val[0] * a.val[1] + a.val[2])


@k('mul', 'add_mul_word_same_len_in_place', 'MwS->w')
def _(a):
    a.need(('eq', a.len[0] - a.len[2]))
    return wrapped(a, 0, a.val[0] + a.val[1] * a.val[2])


@k('mul', 'add_mul_word_in_place', 'MwS->w')
def _(a):
    a.need(('ge', a.len[0] - a.len[2]))
    return wrapped(a, 0, a.val[0] + a.val[1] * a.val[2])


@k('mul', 'sub_mul_word_same_len_in_place', 'MwS->w')
def _(a):
    a.need(('eq', a.len[0] - a.len[2]))
    return wrapped(a, 0, a.val[0] - a.val[1] * a.val[2], -1)


@k('mul', None, 'MsSSm->i')
def _(a):
    a.need(('eq', a.len[0] - a.len[2] - a.len[3]))
    if a.st.extra.get('mods') and a.st.const(a.val[0]) == 0 and a.val[1] == 1:
        return ('exact', 0, a.val[2] * a.val[3])        # the product of the lengths always fits
    return wrapped(a, 0, a.val[0] + a.val[2] * a.val[3] * a.val[1])


@k('mul', None, 'MSS->b')
def _(a):
    """the two halves of the schoolbook method: which one is meant is only in the name"""
    a.need(('eq', a.len[0] - a.len[1] - a.len[2]))
    raise NoPre()


@k('shift', 'shl_in_place', 'Mu->w')
def _(a):
    a.need(('ge', C(a.W - 1) - a.val[1]))
    return wrapped(a, 0, a.val[0] * pow2(a.val[1]))


@k('shift', 'shr_in_place', 'Mu->w')
def _(a):
    a.need(('ge', C(a.W - 1) - a.val[1]))
    a.need(('ge', a.len[0] - 1))
    return ('divrem', 0, a.val[0], pow2(a.val[1]), 'quot in place')


@k('div', 'div_by_word_in_place', 'Mw->w')
def _(a):
    a.need(('ge', a.val[1] - 1))
    return ('divrem', 0, a.val[0], a.val[1], 'quot in place')


@k('div', 'rem_by_word', 'Sw->w')
def _(a):
    a.need(('ge', a.val[1] - 1))
    return ('divrem', 0, a.val[0], a.val[1], 'rem')


@k('div', 'fast_div_by_word_in_place', 'MwF->w')
def _(a):
    a.need(('ge', a.val[1] - 1))
    c = a.st.const(a.val[1])
    if c is None:
        raise NoPre()
    a.need(('eq', a.val[2] - (c << (a.W - int(c).bit_length()))))
    return ('divrem', 0, a.val[0], a.val[1], 'quot in place')


@k('div', 'fast_rem_by_normalized_word', 'SF->w')
def _(a):
    a.need(('ge', a.val[1] - (1 << (a.W - 1))))
    return ('divrem', 0, a.val[0], a.val[1], 'rem')


def _bigdiv(a):
    n = a.len[1]
    a.need(('ge', a.len[0] - n))
    a.need(('ge', n - 2))
    # normalised divisor, prepared for its top word
    a.need(('ge', a.val[1] * 2 - a.B(n)))
    return ('bigdiv', 0, a.val[0], a.val[1], n, a.len[0] - n)


@k('div', None, 'MSFm->b')
def _(a):
    return _bigdiv(a)


@k('div', None, 'MSF->b')
def _(a):
    return _bigdiv(a)


@k('fast_divide', 'div_rem', 'Fd->(ww)')
def _(a):
    d, x = a.val
    a.need(('ge', d - 1))
    z = residues(a.st, x, d)
    if z is not None:
        if all(a.st.prove_ge0((1 << a.W) - f - 1) for f in z[1:3]) and any(a.st.prove_ge0(z[3] - f - 1) for f in z[1:3]):
            return ('divrem', 1, x, d, 'pair')
    a.need(('ge', d * (1 << a.W) - x - 1))
    return ('divrem', 1, x, d, 'pair')


@k('fast_divide', 'div_rem', 'Fw->(ww)')
def _(a):
    d, x = a.val
    a.need(('ge', d - 2))
    return ('divrem', 1, x, d, 'pair')


@k('fast_divide', 'div_rem_word', 'Fw->(ww)')
def _(a):
    d, x = a.val
    a.need(('ge', d - (1 << (a.W - 1))))
    return ('divrem', 1, x, d, 'pair')


@k('cmp', 'cmp_same_len', 'SS->o')
def _(a):
    a.need(('eq', a.len[0] - a.len[1]))
    return ('ord', a.val[0] - a.val[1])


def find(P, fn):
    """(signature, contract) of a function, or None"""
    if not fn.local or not fn.sig or fn.impl_trait:
        return None
    tg = tags(P, fn)
    if tg is None or '?' in tg:
        return None
    mods = fn.path.split('::')[:-1]
    mod = mods[0]
    if mod == 'fast_divide' and 'Normalized' not in fn.path and 'Small' not in fn.path:
        return None
    f = T.get((mod, fn.name, tg)) or T.get((mod, None, tg))
    return (tg, f) if f else None


# ---- as the effect of a call ---------------------------------------------------------------------------
def modprod(bases, n):
    """product of powers, reduced modulo n"""
    fs = sorted(bases.items(), key=lambda x: x[0].uid)
    hi = n.single_atom()
    hi = hi.hi - 1 if hi is not None else INF
    if len(fs) == 1:
        return app('modpow', (Poly.atom(fs[0][0]), C(fs[0][1]), n), 0, hi)
    if len(fs) == 2 and fs[0][1] == fs[1][1] == 1:
        return app('modmul', (Poly.atom(fs[0][0]), Poly.atom(fs[1][0]), n), 0, hi)
    return app('modprod', tuple(z for a, e in fs for z in (Poly.atom(a), C(e))) + (n,), 0, hi)


def residues(st, x, d):
    """x = s * u * v and d = s * n for a modulus n, elements u and v of its ring and a power of two s:
    (s, u, v, n)"""
    mods = st.extra.get('mods')
    if not mods:
        return None
    x, d = st.norm(x), st.norm(d)
    if not d.t or not x.t:
        return None
    for n in mods:
        nn = st.norm(n)
        s = _ratio(d, nn)
        if s is None:
            continue
        els = st.extra.get('els', ())
        if len(x.t) == 1:
            (px, fx), cx = x.t[0]
            two = [Poly.atom(a) for a, e in fx for _ in range(e)]
            if len(two) == 2 and Poly.make({(px, ()): cx}) == s and two[0] in els and two[1] in els:
                return s, two[0], two[1], n
        if len(els) > 6:
            els = els[:2] + els[-4:]
        vs = [st.norm(u) for u in els]
        for i, u in enumerate(els):
            for k in range(i, len(els)):
                if len(vs[i].t) * len(vs[k].t) >= len(x.t) and s * vs[i] * vs[k] == x:
                    return s, u, els[k], n
    return None


def _ratio(d, n):
    """power of two s with d = s * n"""
    if len(d.t) != len(n.t) or not n.t:
        return None
    for (pd, fd), cd in d.t:
        (pn, fn), cn = n.t[0]
        if fd != fn:
            continue
        e = (ZERO if pd is None else pd) - (ZERO if pn is None else pn)
        s = pow2(e) * Frac(cd, cn) if cd % cn == 0 else None
        if s is not None and s * n == d:
            return s
    return None


def sdiv(st, x, d):
    """(quotient, remainder) of x >= 0 by d >= 1, as exact functions of them"""
    z = residues(st, x, d)
    if z is not None:
        s, u, v, n = z
        n = st.norm(n)
        bases = {}
        for f in (u, v):
            a = f.single_atom()
            sub = [(a, 1)]
            if a.kind == 'app' and a.name in RESIDUES and st.norm(a.args[-1]) == n:
                if a.name == 'modpow':
                    sub = [(a.args[0].single_atom(), a.args[1].cval())]
                elif a.name == 'modmul':
                    sub = [(g.single_atom(), 1) for g in a.args[:2]]
                else:
                    sub = [(a.args[i].single_atom(), a.args[i + 1].cval()) for i in range(0, len(a.args) - 1, 2)]
                if any(g is None for g, _ in sub):
                    sub = [(a, 1)]
            for g, k in sub:
                bases[g] = bases.get(g, 0) + k
        r = modprod(bases, n)
        q = app('div', (st.norm(u * v), st.norm(n)), 0)
        if r not in st.extra['els']:
            st.extra['els'] += (r,)
        return st.norm(q), st.norm(s * r)
    if st.const(d) is not None:
        r = s_mod(st, x, d)
        return (st.norm(x) - r) * Frac(1, int(st.const(d))), r
    q = s_div(st, x, d)
    r = st.norm(x - q * d)
    for f in (q, r, d - r - 1):
        if not st.prove_ge0(f) and not st.assume(('ge', f)):
            raise Infeasible()
    return st.norm(q), st.norm(r)


def apply(it, st, fn, tg, f, args, dest_ty):
    P = it.P
    a = A(it, st, tg, args, fn.sig[0])
    d = f(a)
    out = tg.split('->')[1]

    def put(i, v):
        it.sl_set(st, args[i], st.norm(v))

    def sref(i):
        return args[i]

    def mkret(t, p, ti):
        if t == 'b':
            return ('ne', p)
        return p

    if d[0] == 'wrap':
        _, i, tot, p, r = d
        c = st.norm(p).cval()
        tot = st.norm(tot)
        if st.extra.get('mods') and st.prove_ge0(tot) and st.prove_ge0(st.norm(p) - tot - 1):
            m = tot
        else:
            m = s_mod(st, tot, p)
        tot = st.norm(tot)
        m = st.norm(m)
        if c is not None:
            q = (tot - m) * Frac(1, int(c))
        else:
            q = s_div(st, tot, p)
            for g in (m, p - m - 1):
                if not st.prove_ge0(g) and not st.assume(('ge', g)):
                    raise Infeasible()
        put(i, m)
        return mkret(out, st.norm(q * r), dest_ty)
    if d[0] == 'exact':
        put(d[1], d[2])
        return ZERO
    if d[0] == 'absdiff':
        neg = None
        b = ('ge', d[2])
        t = st.truth(b)
        if t is None:
            raise Split([lambda s: s.assume(b), lambda s: s.assume(bnot(b))])
        put(d[1], d[2] if t else -d[2])
        return Agg(P.t_sign, P.v_pos if t else P.v_neg, [])
    if d[0] == 'divrem':
        _, i, x, y, how = d
        q, r = sdiv(st, x, y)
        if how == 'quot in place':
            put(i, q)
            return st.norm(r)
        if how == 'rem':
            return st.norm(r)
        return Agg(dest_ty, 0, [st.norm(q), st.norm(r)])
    if d[0] == 'bigdiv':
        _, i, x, y, n, m = d
        q, r = sdiv(st, x, y)
        ref = args[i]
        start = ref.sl[0] if ref.sl is not None else ZERO
        base = Ref(ref.obj, ref.path)
        p = pow2(m * it.W)
        # the divisor's top bit is set: the quotient is below 2 * B^m
        ov = ('ge', q - p)
        t = st.truth(ov)
        z = residues(st, x, y)
        if t is None and z is not None and st.prove_ge0(p - z[3]) and all(st.prove_ge0(z[3] - f - 1) for f in z[1:3]):
            t = False       # the quotient is below the modulus
        if t is None:
            raise Split([lambda s: s.assume(ov), lambda s: s.assume(bnot(ov))])
        it.sl_set(st, Ref(ref.obj, ref.path, (start, n)), st.norm(r))
        if st.const(m) != 0:
            it.sl_set(st, Ref(ref.obj, ref.path, (st.norm(start + n), m)), st.norm(q - p if t else q))
        return TRUE if t else FALSE
    if d[0] == 'ord':
        x = d[1]
        for n, b in (('Equal', ('eq', x)), ('Greater', ('ge', x - 1)), ('Less', ('ge', -x - 1))):
            t = st.truth(b)
            if t is None:
                raise Split([lambda s, b=b: s.assume(b) for b in (('eq', x), ('ge', x - 1), ('ge', -x - 1))])
            if t:
                return Agg(dest_ty, [v[0] for v in it.T(dest_ty)['v']].index(n), [])
    raise NoPre()


def alloc(it, fn):
    """scratch memory: the slices handed out are fresh; that they fit is not decided here"""
    if not fn.local or fn.path.split('::')[0] != 'memory' or not fn.sig:
        return None
    P = it.P
    ts = fn.sig[0]
    if not ts or tag(P, ts[0]) != 'm' or P.types[fn.sig[1]]['k'] != 'tuple':
        return None
    kind = {'allocate_slice_fill': 'nf', 'allocate_slice_copy': 'c', 'allocate_slice_copy_fill': 'ncf'}.get(fn.name)
    if kind is None or tag(P, P.types[fn.sig[1]]['f'][0]) != 'M':
        return None

    def model(it, st, fn, args, dest_ty, tys, f=None):
        t = it.T(dest_ty)
        segs = []
        if kind == 'nf':
            n = args[1]
            if st.const(args[2]) != 0:
                return unknown_ret(it, st, dest_ty)
            segs = [(n, ZERO)]
        else:
            x = it.sl_get(st, args[1 if kind == 'c' else 2])
            if x is None:
                return unknown_ret(it, st, dest_ty)
            segs = [x]
            if kind == 'ncf':
                if st.const(args[3]) != 0:
                    return unknown_ret(it, st, dest_ty)
                n = args[1]
                rest = st.norm(n - x[0])
                c = ('ge', rest)
                tr = st.truth(c)
                if tr is None:
                    raise Split([lambda s: s.assume(c), lambda s: s.assume(bnot(c))])
                if not tr:
                    it.panics.append(('assert', tuple(g.path for g in it.stack) + (fn.path,), 'copy longer than the slice', st.copy()))
                    raise Infeasible()
                if st.const(rest) != 0:
                    segs.append((rest, ZERO))
        o = it.obj(st, VecV(it.P.t_word, segs), None)
        n = ZERO
        for l, _ in segs:
            n = n + l
        return Agg(dest_ty, 0, [Ref(o, (), (ZERO, st.norm(n))), it.fresh(st, t['f'][1], 'mem')])
    return model


def unknown_ret(it, st, dest_ty):
    st.unk = True
    return it.fresh(st, dest_ty, 'mem', True)


def pred(only=None):
    """contract lookup for Interp.contracts, for the functions of the modules `only`"""
    def p(it, fn):
        m = alloc(it, fn)
        if m is not None:
            return m
        x = find(it.P, fn)
        if x is None or only is not None and not fn.path.startswith(only):
            return None
        tg, f = x

        def model(it, st, fn, args, dest_ty, tys, g=None):
            try:
                return apply(it, st, fn, tg, f, args, dest_ty)
            except NoPre:
                if fn in it.stack or not fn.bbs or 'F' in tg:
                    st.unk = True
                    outs = it.havoc_call(st, fn, args, dest_ty)
                    return Multi(outs)
                return Multi(it.run(fn, args, st, len(it.stack) + 1))
        return model
    return p


# ---- deciding the contracts ------------------------------------------------------------------------------
class RootA(A):
    """operands of the analysed function itself: preconditions are assumed"""

    def need(self, b):
        if not self.st.assume(b):
            raise Infeasible()


def lens_of(tg, fn):
    """lengths of the slice operands to try"""
    t = tg.split('->')[0]
    ns = sum(c in 'MS' for c in t)
    if t == 'MsSSm':
        out = []
        for a, b in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (4, 3), (4, 4), (5, 5), (6, 6), (7, 7), (7, 3), (8, 3), (9, 4), (11, 5),
                     (16, 16), (17, 17), (18, 18), (19, 19), (20, 20), (21, 21), (22, 22), (23, 23), (37, 16), (54, 18), (40, 19), (16, 1),
                     (25, 25), (26, 25), (51, 25), (60, 25), (193, 193), (194, 194), (195, 193), (400, 193), (1024, 3), (1025, 3), (2049, 3), (2050, 24)):
            out.append((a + b, a, b))
            if a != b and a < 30:
                out.append((a + b, b, a))
        return out
    if t in ('MSF', 'MSFm'):
        return [(m + n, n) for n, m in ((2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2), (4, 2), (34, 33), (35, 34), (33, 33), (33, 40), (33, 66), (40, 35), (40, 70), (40, 75), (80, 34), (80, 50))]
    if ns == 1:
        return [(1,), (2,), (3,)]
    if t in ('MS', 'MsS', 'MwS'):
        return [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)]
    if ns == 2:
        return [(1, 1), (2, 2), (3, 3)]
    return [()]


def setup(it, st, fn, tg, lens):
    """(args, RootA, locations of the slices)"""
    P = it.P
    args, names = [], 'abcdefgh'
    k = 0
    last = None
    for i, (t, ti) in enumerate(zip(tg.split('->')[0], fn.sig[0])):
        nm = names[i]
        if t in 'MS':
            if lens is None:
                L = sym(nm + '.len', 0, it.max_len)
                V = sym('V' + nm, 0)
                if not st.assume(('ge', pow2(L * it.W) - V - 1)):
                    raise Infeasible()
            else:
                L = C(lens[k])
                V = sym('V' + nm, 0, (1 << (it.W * lens[k])) - 1) if lens[k] else ZERO
            k += 1
            if V is not ZERO:
                it.inputs.add(V.single_atom())
            o = it.obj(st, VecV(P.t_word, [(L, V)]), None)
            args.append(Ref(o, (), (ZERO, L)))
            last = (L, V, args[-1])
        elif t in 'wdiun':
            lo, hi = it.int_range(ti)
            v = sym(nm, lo, hi)
            it.inputs.add(v.single_atom())
            args.append(v)
        elif t == 's':
            args.append(SymE(ti, new_uid()))
        elif t == 'm':
            args.append(Ref(it.obj(st, it.fresh(st, P.types[ti]['e'], 'mem'), P.types[ti]['e'])))
        elif t == 'F':
            args.append(('F', ti))
        else:
            raise NoPre()
    return args


def find_new(P, ti):
    sti = P.strip_ref(ti)
    for f in P.fns:
        if f.local and f.bbs and f.sig and f.name == 'new' and f.sig[1] == sti and len(f.sig[0]) == 1 and f.sig[0][0] == P.t_word:
            return f
    raise NoPre()


def prepare(it, st, fn, tg, args):
    """[(state, args)] with the prepared divisors in place"""
    outs = [(st, list(args))]
    for i, a in enumerate(args):
        if isinstance(a, tuple) and a and a[0] == 'F':
            ti = a[1]
            new = find_new(it.P, ti)
            nxt = []
            for s, ar in outs:
                # the divisor: top word of the long divisor, or a fresh normalised word
                t = tg.split('->')[0]
                if t.startswith('MSF'):
                    x = it.sl_get(s, ar[1])
                    d = s_div(s, x[1], pow2((x[0] - 1) * it.W))
                    if st.const(x[0]) is not None:
                        w = it.load(s, Loc(ar[1].obj))
                        d = it.vec_get(s, w, x[0] - 1)
                        # keep the cut: the top word is a number of its own
                        v2, _, _ = it.vec_range(s, w, x[0] - 1, ONE)
                        it.store(s, Loc(ar[1].obj), v2)
                else:
                    d = sym('d', 1, (1 << it.W) - 1)
                    it.inputs.add(d.single_atom())
                small = 'Small' in it.T(it.P.strip_ref(ti))['n']
                lo = 2 if small else 1 << (it.W - 1)
                if not s.assume(('ge', d - lo)):
                    continue
                d = s.norm(d)
                for s2, v in it.run(new, [d], s):
                    if it.T(ti)['k'] == 'ref':
                        v = Ref(it.obj(s2, v, it.P.strip_ref(ti)))
                    nxt.append((s2, ar[:i] + [v] + ar[i + 1:]))
            outs = nxt
    return outs


def judge_exit(it, s, v, fn, tg, d, args, before):
    """obligations [(kind, formula, text)] of an exit for the outcome d promised by the contract"""
    P = it.P
    obl = []
    if d[0] == 'wrap':
        _, i, tot, p, r = d
        x = it.sl_get(s, args[i])
        ret = it.as_int(s, v)
        obl.append(('value', ('eq', x[1] + ret * r * p - tot), 'what is stored and returned is not the exact result'))
    elif d[0] == 'absdiff':
        x = it.sl_get(s, args[d[1]])
        g = it.resolve_enum(s, v)
        if isinstance(g, SymE):
            it.split_enum(s, g)
        sg = -1 if g.var == P.v_neg else 1
        obl.append(('value', ('eq', x[1] * sg - d[2]), 'the signed difference is not exact'))
    elif d[0] == 'divrem':
        _, i, x, y, how = d
        if how == 'quot in place':
            q = it.sl_get(s, args[i])[1]
            r = it.as_int(s, v)
        elif how == 'rem':
            q = None
            r = it.as_int(s, v)
        else:
            q, r = it.as_int(s, v.fs[0]), it.as_int(s, v.fs[1])
        obl.append(('value', ('ge', r), 'negative remainder'))
        obl.append(('value', ('ge', y - r - 1), 'the remainder is not below the divisor'))
        if q is not None:
            obl.append(('value', ('eq', q * y + r - x), 'quotient * divisor + remainder is not the dividend'))
        else:
            obl.append(('value', ('eq', r - (x - s_div(s, x, y) * y)), 'the remainder is not exact'))
    elif d[0] == 'bigdiv':
        _, i, x, y, n, m = d
        ref = args[i]
        r = it.sl_get(s, Ref(ref.obj, ref.path, (ZERO, n)))[1]
        q = it.sl_get(s, Ref(ref.obj, ref.path, (n, m)))[1] if s.const(m) != 0 else ZERO
        c = it.as_int(s, v)
        q = q + c * pow2(m * it.W)
        obl.append(('value', ('eq', q * y + r - x), 'quotient * divisor + remainder is not the dividend'))
        obl.append(('value', ('ge', y - r - 1), 'the remainder is not below the divisor'))
    elif d[0] == 'ord':
        g = it.resolve_enum(s, v)
        if isinstance(g, SymE):
            it.split_enum(s, g)
        n = it.T(g.ty)['v'][g.var][0]
        x = d[1]
        obl.append(('value', {'Less': ('ge', -x - 1), 'Equal': ('eq', x), 'Greater': ('ge', x - 1)}[n], '%s returned' % n))
    return obl


def roots(P):
    out = []
    for fn in P.fns:
        if fn.bbs and fn.local:
            x = find(P, fn)
            if x is not None and not (x[0] == 'MSS->b'):
                out.append((fn, x[0], x[1]))
    return out
