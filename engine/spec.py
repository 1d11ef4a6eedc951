"""What the public operations mean, as arithmetic on the numeric values of their operands.

A specification never mentions how the crate is organised: it is selected by the trait (or inherent
method) name and the operand types, and says which exact number, ordering, truth value or panic the
operation has to produce.
"""
from poly import *
from state import *
from interp import Loc


class NoSpec(Exception):
    pass


class Num:
    """an exact number"""

    def __init__(self, p):
        self.p = p


class Cond:
    def __init__(self, b):
        self.b = b


class Ordr:
    """the ordering of d against zero"""

    def __init__(self, d):
        self.d = d


class Opt:
    """Some(inner) exactly under cond"""

    def __init__(self, cond, inner):
        self.cond, self.inner = cond, inner


class Res:
    """Ok(inner) exactly under cond"""

    def __init__(self, cond, inner):
        self.cond, self.inner = cond, inner


class Bytes:
    """a byte slice operand"""

    def __init__(self, bs):
        self.bs = bs

    def le(self):
        return sum((b * (1 << (8 * i)) for i, b in enumerate(self.bs)), ZERO)

    def be(self):
        return Bytes(self.bs[::-1]).le()


class ByteStr:
    """the shortest byte string of the number p"""

    def __init__(self, p, little):
        self.p, self.little = p, little


class Tup:
    def __init__(self, *xs):
        self.xs = xs


class Chk:
    """conditions on the result, given as a function (state, value) -> [formula]"""

    def __init__(self, f):
        self.f = f


class Spec:
    def __init__(self, out, must_panic=None, may_panic=None):
        self.out = out
        self.must = must_panic or FALSE
        self.may = may_panic or FALSE


# ---- arithmetic helpers ------------------------------------------------------------------------
def case(st, b):
    """truth of b in st, after a case distinction if needed"""
    t = st.truth(b)
    if t is None:
        raise Split([lambda s: s.assume(b), lambda s: s.assume(bnot(b))])
    return t


def magdiv(st, a, b):
    q = st.norm(s_div(st, a, b))
    r = st.norm(a - q * b)
    st.assume(('ge', r))
    st.assume(('ge', b - r - 1))
    st.assume(('ge', q))
    return q, r


def sign_of(st, x):
    """(-1/+1, |x|)"""
    if case(st, ('ge', x)):
        return 1, x
    return -1, -x


def trunc(st, a, b):
    sa, A = sign_of(st, a)
    sb, B = sign_of(st, b)
    q, r = magdiv(st, A, B)
    return q * (sa * sb), r * sa


def euclid(st, a, b):
    sa, A = sign_of(st, a)
    sb, B = sign_of(st, b)
    q, r = magdiv(st, A, B)
    if sa > 0:
        return q * sb, r
    if case(st, ('eq', r)):
        return q * (-sb), ZERO
    return (q + 1) * (-sb), B - r


def _nm(st, x):
    """x as (complemented?, m): x = m or x = -m-1"""
    if case(st, ('ge', x)):
        return False, x
    return True, st.norm(-x - 1)


def _com(c, m):
    return -m - 1 if c else m


def bit_and(st, x, y):
    (cx, a), (cy, b) = _nm(st, x), _nm(st, y)
    n = s_and(st, a, b)
    if not cx and not cy:
        return n
    if cx and cy:
        return _com(True, a + b - n)
    return (b - n) if cx else (a - n)


def bit_not(x):
    return -x - 1


def bit_or(st, x, y):
    return bit_not(bit_and(st, bit_not(x), bit_not(y)))


def bit_xor(st, x, y):
    (cx, a), (cy, b) = _nm(st, x), _nm(st, y)
    return _com(cx != cy, a + b - s_and(st, a, b) * 2)


def shr(st, x, n):
    c, m = _nm(st, x)
    return _com(c, s_div(st, m, pow2(n)))


def range_of_ty(it, ti):
    t = it.T(ti)
    if ti == it.P.t_ubig:
        return 0, None
    if ti == it.P.t_ibig:
        return None, None
    if t['k'] == 'bool':
        return 0, 1
    r = it.int_range(ti)
    if r is None:
        raise NoSpec('range of %s' % t['n'])
    return r


def is_big(it, ti):
    return ti in (it.P.t_ubig, it.P.t_ibig)


# ---- the table -----------------------------------------------------------------------------------
def binop(name):
    def f(st, a, b):
        if name == 'add':
            return a + b
        if name == 'sub':
            return a - b
        if name == 'mul':
            return a * b
        if name == 'bitand':
            return bit_and(st, a, b)
        if name == 'bitor':
            return bit_or(st, a, b)
        if name == 'bitxor':
            return bit_xor(st, a, b)
        if name == 'and_not':
            return bit_and(st, a, bit_not(b))
        if name == 'shl':
            return a * pow2(b)
        if name == 'shr':
            return shr(st, a, b)
        raise NoSpec(name)
    return f


OPS = {'add', 'sub', 'mul', 'bitand', 'bitor', 'bitxor', 'and_not', 'shl', 'shr'}
DIVS = {'div', 'rem', 'div_rem', 'div_euclid', 'rem_euclid', 'div_rem_euclid'}


def may_of(it, atys, sems):
    """an unsigned big combined with a negative signed primitive: the primitive is converted first"""
    ts = [it.P.strip_ref(t) for t in atys]
    if it.P.t_ubig in ts:
        for t, s in zip(ts, sems):
            if it.T(t)['k'] == 'int':
                return ('ge', -s - 1)
    return FALSE


def spec_for(it, st, fn, atys, sems, out_ty):
    """Spec of a call of fn on the operand values `sems` (numbers), result type out_ty"""
    tr = (fn.impl_trait or '').split('<')[0]
    name = fn.name
    assign = False
    if tr.startswith('std::ops::') and name.endswith('_assign'):
        assign = True
        name = name[:-7]
    if tr and not tr.startswith(('std::ops::', 'ops::', 'std::cmp::', 'std::clone::', 'std::convert::', 'std::default::', 'num_traits::')):
        raise NoSpec(tr)
    may = may_of(it, atys, sems)
    if name in OPS and len(sems) == 2:
        v = binop(name)(st, sems[0], sems[1])
        lo, hi = range_of_ty(it, out_ty)
        must = FALSE
        if lo == 0 and name == 'sub':
            must = ('ge', -v - 1)
        return Spec(Num(v), must, may)
    if name in DIVS and len(sems) == 2:
        a, b = sems
        must = ('eq', b)
        if not case(st, ('ne', b)):
            return Spec(None, must, may)
        if 'euclid' in name:
            q, r = euclid(st, a, b)
        else:
            q, r = trunc(st, a, b)
        if name.startswith('div_rem'):
            return Spec(Tup(Num(q), Num(r)), must, may)
        return Spec(Num(q) if name.startswith('div') else Num(r), must, may)
    if len(sems) == 1:
        a = sems[0]
        if name == 'neg':
            return Spec(Num(-a))
        if name == 'not':
            return Spec(Num(bit_not(a)))
        if name in ('abs', 'unsigned_abs'):
            return Spec(Num(a if case(st, ('ge', a)) else -a))
        if name == 'signum':
            if case(st, ('eq', a)):
                return Spec(Num(ZERO))
            return Spec(Num(C(1 if case(st, ('ge', a)) else -1)))
        if name == 'is_negative':
            return Spec(Cond(('ge', -a - 1)))
        if name == 'is_positive':
            return Spec(Cond(('ge', a - 1)))
        if name == 'is_zero':
            return Spec(Cond(('eq', a)))
        if name in ('clone', 'from') and tr in ('std::clone::Clone', 'std::convert::From'):
            return Spec(Num(a))
        if name == 'try_from':
            t = it.T(out_ty)
            lo, hi = range_of_ty(it, t['args'][0])
            c = TRUE
            if lo is not None:
                c = ('ge', a - lo)
            if hi is not None:
                c2 = ('ge', C(hi) - a)
                c = c2 if c == TRUE else ('and', c, c2)
            return Spec(Res(c, Num(a)))
        if name == 'next_power_of_two':
            def f(s, v):
                return [('ge', v - a), ('ge', v - 1), ('or', ('eq', v - 1), ('ge', 2 * a - v - 1)), ispow2(s, v)]
            return Spec(Chk(f))
        if name == 'is_power_of_two':
            return Spec(Cond(('pow2', a)))
        if name == 'trailing_zeros':
            return Spec(Opt(('ne', a), Chk(lambda s, v: [('ge', v), ('eq', s_mod(s, a, pow2(v + 1)) - pow2(v))])))
        if name in ('from_le_bytes', 'from_be_bytes') and isinstance(a, Bytes):
            return Spec(Num(a.le() if name == 'from_le_bytes' else a.be()))
        if name in ('to_le_bytes', 'to_be_bytes'):
            return Spec(ByteStr(a, name == 'to_le_bytes'))
        if name in ('to_f32', 'to_f64'):
            w = 32 if name == 'to_f32' else 64
            p = app('tofloat', (st.norm(a), C(w)), 0, (1 << w) - 1)
            return Spec(Opt(TRUE, Num(p)) if it.T(out_ty)['k'] == 'enum' else Num(p))
        if name == 'bit_len':
            def f(s, v):
                return [('ge', pow2(v) - a - 1), ('or', ('and', ('eq', v), ('eq', a)), ('ge', a * 2 - pow2(v)))]
            return Spec(Chk(f))
    if len(sems) == 0:
        if name in ('zero', 'default'):
            return Spec(Num(ZERO))
        if name == 'one':
            return Spec(Num(ONE))
    if len(sems) == 2:
        a, b = sems
        if name in ('eq', 'ne') and tr == 'std::cmp::PartialEq':
            return Spec(Cond(('eq' if name == 'eq' else 'ne', a - b)))
        if name in ('lt', 'le', 'gt', 'ge') and tr == 'std::cmp::PartialOrd':
            return Spec(Cond({'lt': ('ge', b - a - 1), 'le': ('ge', b - a), 'gt': ('ge', a - b - 1), 'ge': ('ge', a - b)}[name]))
        if name == 'cmp':
            return Spec(Ordr(a - b))
        if name == 'partial_cmp':
            return Spec(Opt(TRUE, Ordr(a - b)))
        if name == 'abs_sub':
            return Spec(Num(a - b if case(st, ('ge', a - b)) else ZERO))
        if name == 'bit':
            return Spec(Cond(('ne', s_mod(st, s_div(st, a, pow2(b)), C(2)))))
        if name == 'set_bit':
            return Spec(Num(a + pow2(b) * (1 - s_mod(st, s_div(st, a, pow2(b)), C(2)))))
        if name == 'clear_bit':
            return Spec(Num(a - pow2(b) * s_mod(st, s_div(st, a, pow2(b)), C(2))))
        if name == 'clone_from':
            return Spec(Num(b))
        if name == 'pow':
            c = st.const(b)
            if c is not None and 0 <= c <= 300:
                p = ONE
                for _ in range(int(c)):
                    p = p * a
                return Spec(Num(p))
    raise NoSpec('%s::%s/%d' % (tr, fn.name, len(sems)))


def ispow2(s, v):
    v = s.norm(v)
    if len(v.t) == 1:
        (pw, fs), c = v.t[0]
        if not fs and isinstance(c, int) and c > 0 and c & (c - 1) == 0 and (pw is None or s.prove_ge0(pw)):
            return TRUE
    return ('pow2', v)


# in-place operations return their result through the first operand
INPLACE = {'set_bit', 'clear_bit', 'clone_from'}


def is_inplace(it, fn):
    if (fn.impl_trait or '').startswith('std::ops::') and fn.name.endswith('_assign'):
        return True
    return fn.name in INPLACE
