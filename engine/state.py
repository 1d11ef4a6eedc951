"""Abstract state: a heap of abstract values, plus what is known about the atoms in them
(intervals, equalities used as substitutions, linear facts p >= 0, disequalities)."""
from poly import *
import itertools
import math
from fractions import Fraction as _F

_uid = itertools.count(1)


def new_uid():
    return next(_uid)


class Agg:
    __slots__ = ('ty', 'var', 'fs')

    def __init__(self, ty, var, fs):
        self.ty = ty
        self.var = var
        self.fs = tuple(fs)

    def with_field(self, i, v):
        fs = list(self.fs)
        fs[i] = v
        return Agg(self.ty, self.var, fs)

    def __repr__(self):
        return 'Agg%d.%s%r' % (self.ty, self.var, list(self.fs))


class SymE:
    """an enum value whose variant is not known yet; `tag` links it to the value it represents"""
    __slots__ = ('ty', 'uid', 'tag')

    def __init__(self, ty, uid, tag=None):
        self.ty = ty
        self.uid = uid
        self.tag = tag

    def __repr__(self):
        return 'SymE%d#%d(%r)' % (self.ty, self.uid, self.tag)


class Opq:
    """a value nothing is known about"""
    __slots__ = ('ty', 'uid', 'tag')

    def __init__(self, ty, uid=None, tag=None):
        self.ty = ty
        self.uid = uid if uid is not None else new_uid()
        self.tag = tag

    def __repr__(self):
        return 'Opq%d#%d%s' % (self.ty, self.uid, ':' + str(self.tag) if self.tag else '')


class VecV:
    """a sequence of words, as segments (length, value): the value of a segment is the number its
    words are the little-endian digits of"""
    __slots__ = ('ety', 'segs', 'cap')

    def __init__(self, ety, segs, cap=None):
        self.ety = ety
        self.segs = tuple(segs)
        self.cap = cap

    def __repr__(self):
        return 'Vec%r' % (self.segs,)


class StrV:
    __slots__ = ('const', 'uid', 'bytes')

    def __init__(self, const=None, bytes=None):
        self.const = const
        self.bytes = tuple(C(x) for x in const.encode()) if const is not None else bytes if bytes is None else tuple(bytes)
        self.uid = new_uid()

    def __repr__(self):
        return 'Str(%r)' % (self.const,)


class Ref:
    __slots__ = ('obj', 'path', 'sl')

    def __init__(self, obj, path=(), sl=None):
        self.obj = obj
        self.path = path
        self.sl = sl

    def __repr__(self):
        return '&%r%s%s' % (self.obj, ''.join('.%s' % (x,) for x in self.path), '' if self.sl is None else '[%r;+%r]' % self.sl)


class FnV:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty


class It:
    """abstract iterator"""
    __slots__ = ('kind', 'a')

    def __init__(self, kind, a):
        self.kind = kind
        self.a = tuple(a)

    def __repr__(self):
        return 'It.%s%r' % (self.kind, self.a)


class Uninit:
    def __repr__(self):
        return 'uninit'


UNINIT = Uninit()
TRUE = ('c', True)
FALSE = ('c', False)


def bnot(b):
    k = b[0]
    if k == 'c':
        return ('c', not b[1])
    if k == 'ge':
        return ('ge', -b[1] - 1)
    if k == 'eq':
        return ('ne', b[1])
    if k == 'ne':
        return ('eq', b[1])
    if k == 'and':
        return ('or', bnot(b[1]), bnot(b[2]))
    if k == 'or':
        return ('and', bnot(b[1]), bnot(b[2]))
    if k == 'sym':
        return ('nsym', b[1])
    if k == 'nsym':
        return ('sym', b[1])
    if k == 'pow2':
        return ('npow2', b[1])
    if k == 'npow2':
        return ('pow2', b[1])
    raise AssertionError(k)


class Split(Exception):
    """evaluation needs a case distinction: alternatives are callables state -> bool (feasible)"""

    def __init__(self, alts):
        self.alts = alts


class Infeasible(Exception):
    pass


RESIDUES = ('modpow', 'modmul', 'modprod')


class State:
    __slots__ = ('heap', 'iv', 'sub', 'ge', 'ne', 'var', 'bsym', 'ncache', 'icache', 'div', 'log', 'trace', 'extra', 'cons', 'unk', 'lastb')

    # set while the alternatives of a case distinction are being assumed: a distinction that hangs on
    # something the analysis does not know makes the path's existence unknown
    branching = False

    cuts = {}
    slicing = False     # may bit fields of words get names of their own?

    def __init__(self):
        self.heap = {}
        self.iv = {}
        self.sub = {}
        self.ge = ()
        self.ne = frozenset()
        self.var = {}
        self.bsym = {}
        self.ncache = {}
        self.icache = {}
        self.div = ()
        self.log = ()
        self.trace = ()
        self.extra = {}
        self.cons = ()
        self.unk = False
        self.lastb = None

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.iv = dict(self.iv)
        s.sub = dict(self.sub)
        s.ge = self.ge
        s.ne = self.ne
        s.var = dict(self.var)
        s.bsym = dict(self.bsym)
        s.ncache = {}
        s.icache = dict(self.icache)
        s.div = self.div
        s.log = self.log
        s.trace = self.trace
        s.extra = dict(self.extra)
        s.cons = self.cons
        s.unk = self.unk
        s.lastb = self.lastb
        return s

    def new_obj(self, v):
        o = new_uid()
        self.heap[o] = v
        return o

    # ---- numbers -------------------------------------------------------------------------
    def norm(self, p):
        if not self.sub:
            return p
        r = self.ncache.get(p)
        if r is not None:
            return r
        if self.sub.keys().isdisjoint(p.deep):
            r = p
        else:
            r = ZERO
            for (pw, fs), c in p.t:
                m = C(c)
                if pw is not None:
                    m = m * pow2(self.norm(pw))
                for a, e in fs:
                    x = self.norm_atom(a)
                    for _ in range(e):
                        m = m * x
                r = r + m
        self.ncache[p] = r
        return r

    def norm_atom(self, a):
        if a in self.sub:
            return self.norm(self.sub[a])
        if a.kind == 'app' and not self.sub.keys().isdisjoint(a.deep):
            args = tuple(self.norm(x) if isinstance(x, Poly) else x for x in a.args)
            keep, State.slicing = State.slicing, False     # rewriting must not refine the state
            try:
                return self.mk(a.name, args, a)
            finally:
                State.slicing = keep
        return Poly.atom(a)

    def mk(self, name, args, orig=None):
        f = _SMART.get(name)
        if f is not None:
            return f(self, *args)
        return app(name, args, orig.lo if orig else -INF, orig.hi if orig else INF)

    def aiv(self, a):
        lo, hi = a.lo, a.hi
        x = self.iv.get(a)
        if x is not None:
            if x[0] > lo:
                lo = x[0]
            if x[1] < hi:
                hi = x[1]
        return lo, hi

    def interval(self, p, raw=False):
        """interval of a normalised Poly (rounded to integers, unless raw)"""
        r = self.icache.get(p)
        if r is None:
            r = self.icache[p] = self._interval(p)
        lo, hi = r
        if raw:
            return r
        # a Poly denotes an integer
        if type(lo) is _F:
            lo = -int(-lo // 1)
        if type(hi) is _F:
            hi = int(hi // 1)
        return lo, hi

    def _interval(self, p):
        lo = hi = 0
        for (pw, fs), c in p.t:
            l, h = 1, 1
            if pw is not None:
                el, eh = self.interval(pw)
                # the constant part of the exponent lives in the coefficient
                l = _p2(el, True)
                h = _p2(eh, False)
            for a, e in fs:
                al, ah = self.aiv(a)
                for _ in range(e):
                    l, h = _imul(l, h, al, ah)
            if c < 0:
                l, h = _sm(h, c), _sm(l, c)
            else:
                l, h = _sm(l, c), _sm(h, c)
            lo = _ad(lo, l)
            hi = _ad(hi, h)
        return lo, hi

    def rng(self, p):
        return self.interval(self.norm(p))

    def const(self, p):
        p = self.norm(p)
        c = p.cval()
        if c is not None:
            return c
        lo, hi = self.interval(p)
        return lo if lo == hi else None

    def prove_ge0(self, p, depth=2):
        """True only if p >= 0 follows from what is known"""
        p = self.norm(p)
        lo, hi = self.interval(p)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        d = 1
        for m, c in p.t:
            if type(c) is _F:
                d = d * c.denominator // math.gcd(d, c.denominator)
        if d != 1:
            # an integer above -1 is not negative
            p = p + _F(d - 1, d)
            lo, hi = self.interval(p, True)
            if lo >= 0:
                return True
        if self._ge0raw(p, depth):
            return True
        if self.extra.get('mods'):
            # a residue is below its modulus
            out, ch = ZERO, False
            for (pw, fs), c in p.t:
                if c < 0 and len(fs) == 1 and fs[0][1] == 1 and fs[0][0].name in RESIDUES:
                    out = out + Poly.make({(pw, ()): c}) * (fs[0][0].args[-1] - 1)
                    ch = True
                else:
                    out = out + Poly.make({(pw, fs): c})
            return ch and self.prove_ge0(out, depth)
        return False

    def _ge0raw(self, p, depth):
        """p >= 0 as a rational"""
        lo, hi = self.interval(p, True)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if self._grouped(p) >= 0:
            return True
        pd = None
        for f in self.ge:
            if pd is None:
                pd = p.deep
            if pd.isdisjoint(f.deep):
                continue
            fd = dict(f.t)
            ms = {1}
            for m, c in p.t:
                fc = fd.get(m)
                if fc is not None and fc != c and m != UNIT and (fc > 0) == (c > 0):
                    ms.add(_F(c) / _F(fc))
            for k in ms:
                d = p - f if k == 1 else p - f * _int(_F(k))
                l2, _ = self.interval(d, True)
                if l2 >= 0:
                    return True
                if depth > 1 and len(d.t) <= len(p.t) + 1:
                    if self._ge0raw(d, depth - 1):
                        return True
        # multiples of a fact (a scaled fact, e.g. B^k * f)
        if depth > 1:
            for f in self.ge:
                for m in _scales(p, f):
                    d = p - f * m
                    l2, _ = self.interval(d, True)
                    if l2 >= 0:
                        return True
                    if len(d.t) <= len(p.t) + 1 and self._ge0raw(d, 1):
                        return True
        if self._pow2_mono(p):
            return True
        q = self._bound_out(p)
        return q is not None and self._pow2_mono(q)

    def _bound_out(self, p):
        """p with the bounded factors of its scaled terms replaced by their worst values"""
        out = {}
        ch = False
        for (pw, fs), c in p.t:
            m = (pw, fs)
            if pw is not None and len(fs) == 1 and fs[0][1] == 1:
                lo, hi = self.aiv(fs[0][0])
                b = lo if c > 0 else hi
                if lo >= 0 and b not in (INF, -INF):
                    ch = True
                    if b == 0:
                        continue
                    m = (pw, ())
                    c = c * b
            elif pw is None and len(fs) == 1 and c > 0 and self.aiv(fs[0][0])[0] == 0:
                ch = True
                continue
            out[m] = out.get(m, 0) + c
        return Poly.make(out) if ch else None

    def _grouped(self, p):
        """lower bound of p, taking terms with the same power of two together"""
        g = {}
        for (pw, fs), c in p.t:
            g.setdefault(pw, {})[(None, fs)] = c
        if len(g) < 2 and None in g:
            return -INF
        lo = 0
        for pw, d in g.items():
            l, _ = self.interval(Poly.make(d), True)
            if pw is not None:
                el, eh = self.interval(pw)
                l = _m(l, _p2(el, True)) if l >= 0 else _m(l, _p2(eh, False))
            lo = _ad(lo, l)
        return lo

    def div_by_pow2(self, p, e):
        """is the (integer) poly p a multiple of 2^e, for a Poly e?"""
        p = self.norm(p)
        e = self.norm(e)
        ec = e.cval()
        for (pw, fs), c in p.t:
            cf = _F(c)
            if cf.denominator != 1:
                k = -(cf.denominator.bit_length() - 1)
                if cf.denominator & (cf.denominator - 1):
                    return False
            else:
                n = abs(int(cf))
                k = (n & -n).bit_length() - 1
            have = C(k) if pw is None else pw + k
            if self.prove_ge0(have - e):
                continue
            ok = False
            for a, _e in fs:
                if a.kind == 'app' and a.name == 'mod':
                    m = a.args[1].cval()
                    need = e - have
                    if m is not None and m & (m - 1) == 0 and self.prove_ge0(C(m.bit_length() - 1) - need) and self.div_by_pow2(a.args[0], need):
                        ok = True
                        break
            if not ok:
                return False
        return True

    def _pow2_mono(self, p):
        """c*(2^a - 2^b) + rest >= 0 with a >= b provable"""
        pos = [(m, c) for m, c in p.t if m[0] is not None and not m[1] and c > 0]
        neg = [(m, c) for m, c in p.t if m[0] is not None and not m[1] and c < 0]
        if not pos or not neg or len(pos) > 3 or len(neg) > 3:
            return False
        for pm, pc in pos:
            for nm, nc in neg:
                # pc*2^pw >= |nc|*2^nw  <=  pw - nw >= log2(|nc|/pc)
                q = _F(-nc) / _F(pc)
                k = 0
                while (_F(2) ** k) < q:
                    k += 1
                while k > -4096 and (_F(2) ** (k - 1)) >= q:
                    k -= 1
                if self.prove_ge0(self.norm(pm[0] - nm[0] - k), 1):
                    d = dict(p.t)
                    del d[pm]
                    del d[nm]
                    rest = Poly.make(d)
                    if self._ge0raw(rest, 1):
                        return True
        return False

    def truth(self, b):
        """True / False / None"""
        k = b[0]
        if k == 'c':
            return b[1]
        if k == 'ge':
            p = self.norm(b[1])
            if self.prove_ge0(p):
                return True
            if self.prove_ge0(-p - 1):
                return False
            return None
        if k in ('eq', 'ne'):
            p = self.norm(b[1])
            r = None
            c = p.cval()
            if c is not None:
                r = c == 0
            else:
                lo, hi = self.interval(p)
                if lo > 0 or hi < 0:
                    r = False
                elif lo == 0 and hi == 0:
                    r = True
                elif self.ne and (_clear(p) in self.ne or -_clear(p) in self.ne):
                    r = False
                elif self.prove_ge0(p - 1) or self.prove_ge0(-p - 1):
                    r = False
                elif self.ge and self.prove_ge0(p) and self.prove_ge0(-p):
                    r = True
            if r is None:
                return None
            return r if k == 'eq' else not r
        if k == 'and':
            a = self.truth(b[1])
            if a is False:
                return False
            c = self.truth(b[2])
            if c is False:
                return False
            return True if a and c else None
        if k == 'or':
            a = self.truth(b[1])
            if a is True:
                return True
            c = self.truth(b[2])
            if c is True:
                return True
            return False if a is False and c is False else None
        if k in ('sym', 'nsym'):
            v = self.bsym.get(b[1])
            if v is None:
                return None
            return v if k == 'sym' else not v
        if k in ('pow2', 'npow2'):
            c = self.norm(b[1]).cval()
            if c is None:
                return None
            return (c > 0 and c & (c - 1) == 0) == (k == 'pow2')
        raise AssertionError(k)

    def assume(self, b):
        """add b; False if b is refuted"""
        t = self.truth(b)
        if t is not None:
            return t
        k = b[0]
        if State.branching:
            self.lastb = b
            if not self.unk and self.b_unk(b):
                self.unk = True
        if k == 'ge':
            return self._add_ge(_clear(self.norm(b[1])))
        if k == 'eq':
            return self._add_eq(_clear(self.norm(b[1])))
        if k == 'ne':
            p = self.norm(b[1])
            lo, hi = self.interval(p)
            if lo != -INF and hi != INF and not (lo > 0 or hi < 0):
                # p is an integer
                l, h = _ceil(lo, 1), _floor(hi, 1)
                if h - l == 1:
                    return self.assume(('eq', p - (h if l == 0 else l)))
            if lo == 0:
                return self.assume(('ge', p - 1))
            if hi == 0:
                return self.assume(('ge', -p - 1))
            return self._add_ne(_clear(p))
        if k == 'and':
            return self.assume(b[1]) and self.assume(b[2])
        if k == 'or':
            a, c = self.truth(b[1]), self.truth(b[2])
            if a is False:
                return self.assume(b[2])
            if c is False:
                return self.assume(b[1])
            self.cons = self.cons + (b,)
            return True
        if k in ('sym', 'nsym'):
            self.bsym[b[1]] = (k == 'sym')
            return True
        if k in ('pow2', 'npow2'):
            self.cons = self.cons + (b,)
            return True
        raise AssertionError(k)

    def b_unk(self, b):
        if b[0] in ('ge', 'eq', 'ne', 'pow2', 'npow2'):
            return self.norm(b[1]).unk
        if b[0] in ('and', 'or'):
            return self.b_unk(b[1]) or self.b_unk(b[2])
        return b[0] != 'c'

    def set_iv(self, a, lo, hi):
        l, h = self.aiv(a)
        if lo > l:
            l = lo
        if hi < h:
            h = hi
        if l > h:
            return False
        if (l, h) != self.iv.get(a):
            self.icache = {}
        self.iv[a] = (l, h)
        if l == h:
            return self._subst(a, C(l))
        return True

    def _linear1(self, p):
        """p = c*a + k with a an atom: (a, c, k)"""
        k = 0
        r = None
        for (pw, fs), c in p.t:
            if pw is None and not fs:
                k = c
            elif pw is None and len(fs) == 1 and fs[0][1] == 1 and r is None:
                r = (fs[0][0], c)
            else:
                return None
        return None if r is None else (r[0], r[1], k)

    def _add_ge(self, p):
        # divide by the common content
        l1 = self._linear1(p)
        if l1:
            a, c, k = l1
            # c*a + k >= 0
            if c > 0:
                return self.set_iv(a, _ceil(-k, c), INF)
            return self.set_iv(a, -INF, _floor(k, -c))
        if p in self.ne or -p in self.ne:
            p = p - 1
        self.ge = self.ge + (p,)
        # bound the atoms that appear on their own
        for (pw, fs), c in p.t:
            if pw is None and len(fs) == 1 and fs[0][1] == 1:
                a = fs[0][0]
                rest = p - Poly.atom(a) * c
                if a in rest.deep:
                    continue
                rl, rh = self.interval(rest)
                if rh == INF:
                    continue
                if c > 0:
                    if not self.set_iv(a, _ceil(-rh, c), INF):
                        return False
                else:
                    if not self.set_iv(a, -INF, _floor(rh, -c)):
                        return False
        p = self.norm(p)
        if p.cval() is None and self.prove_ge0(-p):
            return self._add_eq(p)
        return True

    def _add_ne(self, p):
        l1 = self._linear1(p)
        if l1:
            a, c, k = l1
            v = _F(-k) / _F(c)
            if v.denominator == 1:
                v = int(v)
                lo, hi = self.aiv(a)
                if lo == v:
                    return self.set_iv(a, v + 1, INF)
                if hi == v:
                    return self.set_iv(a, -INF, v - 1)
        self.ne = self.ne | {p}
        for s in (p, -p):
            if self.prove_ge0(s):
                return self._add_ge(s - 1)
        return True

    def _add_eq(self, p):
        """p == 0: solve for an atom when possible"""
        best = None
        for (pw, fs), c in p.t:
            if pw is None and len(fs) == 1 and fs[0][1] == 1 and c in (1, -1):
                a = fs[0][0]
                rest = p - Poly.atom(a) * c
                if a in rest.deep:
                    continue
                # prefer plain symbols with a wide range, then the oldest
                lo, hi = self.aiv(a)
                key = (a.kind == 'sym', hi - lo, -a.uid)
                if best is None or key > best[0]:
                    best = (key, a, rest if c == -1 else -rest)
        if best is None:
            self.ge = self.ge + (p, -p)
            return True
        return self._subst(best[1], best[2])

    def _subst(self, a, p):
        if a in self.sub:
            return True
        lo, hi = self.aiv(a)
        old = self.sub
        self.sub = dict(old)
        self.sub[a] = p
        self.ncache = {}
        ok = True
        # knowledge about applications that mention a moves to their new form
        moved = []
        for k, v in list(old.items()):
            if k.kind == 'app' and a in k.deep:
                del self.sub[k]
                n = self.norm_atom(k)
                self.sub[k] = v
                moved.append((n, v))
        for k, (l, h) in list(self.iv.items()):
            if k.kind == 'app' and a in k.deep and k not in self.sub:
                n = self.norm_atom(k)
                if not self.assume(('ge', n - l)) if l != -INF else False:
                    return False
                if h != INF and not self.assume(('ge', C(h) - n)):
                    return False
        for n, v in moved:
            if not self.assume(('eq', n - v)):
                return False
        if lo != -INF and not self.prove_ge0(p - lo):
            ok = ok and self.assume(('ge', p - lo))
        if ok and hi != INF and not self.prove_ge0(C(hi) - p):
            ok = ok and self.assume(('ge', C(hi) - p))
        if not ok:
            return False
        ges = self.ge
        if any(a in f.deep for f in ges):
            self.ge = tuple(f for f in ges if a not in f.deep)
            for f in ges:
                if a in f.deep:
                    if not self.assume(('ge', f)):
                        return False
        if any(a in f.deep for f in self.ne):
            nes = self.ne
            self.ne = frozenset(f for f in nes if a not in f.deep)
            for f in nes:
                if a in f.deep and not self.assume(('ne', f)):
                    return False
        return True


def _clear(p):
    """scale a poly by a positive number so that its coefficients (powers of two with a symbolic
    exponent left aside) are coprime integers"""
    l = 1
    g = 0
    for (pw, fs), c in p.t:
        if pw is None:
            c = _F(c)
            l = l * c.denominator // math.gcd(l, c.denominator)
    for (pw, fs), c in p.t:
        if pw is not None:
            return p if l == 1 else Poly.make({m: _int(_F(c) * l) for m, c in p.t})
        g = math.gcd(g, int(_F(c) * l))
    if l == 1 and g == 1:
        return p
    k = _F(l, g or 1)
    return Poly.make({m: _int(_F(c) * k) for m, c in p.t})


def _int(f):
    return int(f) if f.denominator == 1 else f


def _ceil(a, b):
    return -int(_F(-a) / _F(b) // 1) if a not in (INF, -INF) else a


def _floor(a, b):
    return int(_F(a) / _F(b) // 1) if a not in (INF, -INF) else a


def _p2(e, low):
    if e == INF or e == -INF or e > 1 << 13:
        if low:
            return 0 if e == -INF else 1 << (1 << 13)
        return INF if e != -INF else 0
    if e < -(1 << 13):
        return 0 if low else _F(1, 1 << (1 << 13))
    return 1 << int(e) if e >= 0 else _F(1, 1 << int(-e))


def _ad(a, b):
    if type(a) is float:
        return a
    if type(b) is float:
        return b
    return a + b


def _sm(x, c):
    if type(x) is float:
        if c == 0:
            return 0
        return x if c > 0 else -x
    return x * c


def _m(a, b):
    if not a or not b:
        return 0
    if type(a) is float or type(b) is float:
        return INF if (a > 0) == (b > 0) else -INF
    return a * b


def _imul(a, b, c, d):
    if a >= 0 and c >= 0:
        return _m(a, c), _m(b, d)
    v = (_m(a, c), _m(a, d), _m(b, c), _m(b, d))
    return min(v), max(v)


def _scales(p, f):
    """candidate monomial multipliers m such that f*m could cancel a term of p"""
    out = []
    if len(f.t) > 6 or len(p.t) > 12:
        return out
    for (pw, fs), c in p.t:
        if c >= 0:
            continue
        for (fpw, ffs), fc in f.t:
            if fc >= 0 or not ffs:
                continue
            if set(x for x, _ in ffs) - set(x for x, _ in fs):
                continue
            d = dict(fs)
            ok = True
            for a, e in ffs:
                if d.get(a, 0) < e:
                    ok = False
                    break
                d[a] -= e
            if not ok:
                continue
            rest = tuple((a, e) for a, e in sorted(d.items(), key=lambda x: x[0].uid) if e)
            if any(a.lo < 0 for a, _ in rest):
                continue
            if fpw is None:
                npw = pw
            elif pw is None:
                continue
            else:
                npw = pw - fpw
                if npw.cval() is not None:
                    if npw.cval() != 0:
                        continue
                    npw = None
            k = _F(c) / _F(fc)
            if npw is None and not rest and k == 1:
                continue
            m = Poly.make({(npw, rest): int(k) if k.denominator == 1 else k})
            if m not in out:
                out.append(m)
    return out[:6]


# ---- uninterpreted operations with algebraic simplifications ---------------------------------
def s_div(st, a, b):
    """floor(a / b), b > 0"""
    a = st.norm(a)
    b = st.norm(b)
    ac, bc = a.cval(), b.cval()
    if bc is not None:
        if bc == 0:
            return app('div', (a, b), 0)
        if ac is not None and isinstance(ac, int):
            return C(ac // bc)
        if bc == 1:
            return a
    lo, hi = st.interval(a)
    blo, bhi = st.interval(b)
    if lo >= 0 and hi < blo:
        return ZERO
    # split off the part that is a multiple of b
    if bc is not None or len(b.t) == 1:
        q, r = _split_multiple(st, a, b, bc)
        if q.t:
            if not r.t:
                return q
            return q + s_div(st, r, b)
    if st.prove_ge0(b - a - 1) and (lo >= 0 or st.prove_ge0(a)):
        return ZERO
    if bc is not None:
        if bc > 0 and lo != -INF and hi != INF and lo // bc == hi // bc:
            return C(int(lo // bc))
        m = s_mod(st, a, b)
        return (st.norm(a) - m) * _F(1, bc)
    l = h = None
    if blo >= 1:
        l = 0 if lo >= 0 else (-INF if lo == -INF else lo // blo)
        h = INF if hi == INF else (hi // blo if hi >= 0 else -1)
        if l == h:
            return C(int(l))
        # nested floor division: (a / b1) / b2 = a / (b1*b2)
        sa = a.single_atom()
        if sa is not None and sa.kind == 'app' and sa.name == 'div':
            return s_div(st, sa.args[0], sa.args[1] * b)
    return app('div', (a, b), -INF if l is None else l, INF if h is None else h)


def _split_multiple(st, a, b, bc):
    """a = q*b + r, term by term: a term goes to q if it is a multiple of b"""
    q, r = ZERO, {}
    for m, c in a.t:
        x = _mdiv(st, m, c, b, bc)
        if x is None:
            r[m] = c
        else:
            q = q + x
    return q, Poly.make(r)


def s_mod(st, a, b):
    a = st.norm(a)
    b = st.norm(b)
    bc = b.cval()
    if bc is None:
        return a - s_div(st, a, b) * b
    if a.cval() is not None:
        return C(a.cval() % bc)
    q, r = _split_multiple(st, a, b, bc)
    lo, hi = st.interval(r)
    if lo >= 0 and hi < bc:
        return r
    if lo != -INF and hi != INF and lo // bc == hi // bc:
        return r - int(lo // bc) * bc
    sa = r.single_atom()
    if sa is not None and sa.kind == 'app' and sa.name == 'mod':
        oc = sa.args[1].cval()
        if oc is not None and oc % bc == 0:
            return s_mod(st, sa.args[0], b)
    if len(r.t) > 1 and hi < 2 * bc and lo >= -bc and st.prove_ge0(r if lo < 0 else C(bc - 1) - r) and (lo >= 0 or hi < bc or st.prove_ge0(C(bc - 1) - r)):
        return r
    if bc & (bc - 1) == 0:
        x = _mod_pow2(st, r, bc.bit_length() - 1)
        if x is not None:
            return x
    return app('mod', (r, b), 0, bc - 1)


def _cut(st, r, k):
    """(lo, hi) with r = lo + 2^k * hi, by dividing the terms; None unless 0 <= lo < 2^k"""
    q, l = _split_multiple(st, r, C(1 << k), 1 << k)
    lo, hi = st.interval(l)
    if lo >= 0 and hi < 1 << k or st.prove_ge0(l) and st.prove_ge0(C((1 << k) - 1) - l):
        return l, q
    return None


def _twos(r):
    """exponents of the powers of two in the coefficients"""
    out = set()
    for m, c in r.t:
        if m[0] is None:
            x = _v2(c)
            if x is not None and m[1]:
                out.add(x[0])
    return sorted(out)


def _mod_pow2(st, r, n):
    """r mod 2^n from the parts of r, when its terms are bit fields side by side"""
    for k in _twos(r):
        if 0 < k < n:
            x = _cut(st, r, k)
            if x is not None:
                return x[0] + s_mod(st, x[1], C(1 << (n - k))) * (1 << k)
    sa = r.single_atom()
    if sa is not None and sa.kind == 'sym' and st.slicing and r == Poly.atom(sa):
        # a bit field of a word: name its two parts
        lo, hi = st.aiv(sa)
        if lo >= 0 and hi != INF and hi >= 1 << n:
            l, h = parts(st, r, n)
            if not st.assume(('ge', C(int(hi) >> n) - h)) or not st.assume(('eq', r - l - h * (1 << n))):
                raise Infeasible()
            return st.norm(l)
    return None


def _v2(c):
    """(k, odd) with c = odd * 2^k, odd an integer; None if the denominator is no power of two"""
    c = _F(c)
    d = c.denominator
    if d != 1:
        if d & (d - 1):
            return None
        return -(d.bit_length() - 1), c.numerator
    n = c.numerator
    k = (n & -n).bit_length() - 1
    return k, n >> k


def _mdiv(st, m, c, b, bc):
    """the monomial c*m divided by b, as a Poly, if that is an integer"""
    pw, fs = m
    if bc is not None:
        bpw, bfs, bco = None, (), bc
    else:
        (bpw, bfs), bco = b.t[0]
    d = dict(fs)
    for a, e in bfs:
        if d.get(a, 0) < e:
            return None
        d[a] -= e
    rest = tuple((a, e) for a, e in sorted(d.items(), key=lambda x: x[0].uid) if e)
    x, y = _v2(c), _v2(bco)
    if x is None or y is None or x[1] % y[1]:
        return None
    k = x[0] - y[0]
    e = C(k)
    if pw is not None:
        e = e + pw
    if bpw is not None:
        e = e - bpw
    ec = e.cval()
    if ec is not None:
        if ec < 0:
            return None
    elif pw is None or not st.prove_ge0(e):
        return None
    return Poly.make({(None, rest): x[1] // y[1]}) * pow2(e)


def s_and(st, a, b):
    """bitwise and of two non-negative numbers"""
    a = st.norm(a)
    b = st.norm(b)
    ac, bc = a.cval(), b.cval()
    if ac == 0 or bc == 0:
        return ZERO
    if a is b:
        return a
    if ac is not None and bc is not None:
        return C(ac & bc)
    if ac is not None:
        a, b, ac, bc = b, a, bc, ac
    if bc is not None:
        if bc & (bc + 1) == 0:
            return s_mod(st, a, C(bc + 1))
        # runs of ones: (a >> k) mod 2^n << k
        runs, m, k = [], bc, 0
        while m:
            z = (m & -m).bit_length() - 1
            m >>= z
            k += z
            n = ((m + 1) & -(m + 1)).bit_length() - 1
            runs.append((k, n))
            m >>= n
            k += n
        if len(runs) <= (8 if st.slicing else 1):
            r = ZERO
            for k, n in runs:
                r = st.norm(r) + s_mod(st, s_div(st, a, C(1 << k)), C(1 << n)) * C(1 << k)
            return r
        if st.slicing:
            # the complement may have fewer
            hi = st.interval(a)[1]
            if hi != INF:
                w = (1 << int(hi).bit_length()) - 1
                x = s_and(st, a, C(w & ~bc)) if bin(w & ~bc).count('1') <= 4 else None
                if x is not None:
                    return st.norm(a) - x
    # a < 2^k and b a multiple of 2^k: disjoint
    for x, y in ((a, b), (b, a)):
        lo, hi = st.interval(x)
        if lo >= 0 and hi != INF:
            k = int(hi).bit_length()
            if y.divisible_pow2(C(k)):
                return ZERO
    for x, y in ((a, b), (b, a)):
        # x multiple of 2^k (k symbolic) and y < 2^k
        for e in _exps(x):
            if st.div_by_pow2(x, e) and st.prove_ge0(pow2(e) - y - 1):
                return ZERO
    # and(x, and(x, y))
    for x, y in ((a, b), (b, a)):
        s = y.single_atom()
        if s is not None and s.kind == 'app' and s.name == 'and' and x in s.args:
            return y
    for x, y in ((a, b), (b, a)):
        for k in _twos(x):
            if k > 0:
                c = _cut(st, x, k)
                if c is None:
                    continue
                d = _cut(st, y, k)
                if d is None and st.slicing:
                    l = s_mod(st, y, C(1 << k))
                    y = st.norm(y)
                    d = l, (y - l) * _F(1, 1 << k)
                    c = tuple(st.norm(z) for z in c)
                if d is not None:
                    r = s_and(st, c[0], d[0])
                    return r + s_and(st, st.norm(c[1]), st.norm(d[1])) * (1 << k)
    if (b.t and a.t) and _pkey(b) < _pkey(a):
        a, b = b, a
    al, ah = st.interval(a)
    bl, bh = st.interval(b)
    return app('and', (a, b), 0, min(ah, bh))


def _exps(x):
    """powers of two that may divide x"""
    out = []

    def add(e):
        if e is not None and e.cval() is None and e not in out:
            out.append(e)
    for (pw, fs), c in x.t:
        add(pw)
        if pw is not None and isinstance(c, int):
            k = (abs(c) & -abs(c)).bit_length() - 1
            if k:
                add(pw + k)
        for a, _e in fs:
            if a.kind == 'app' and a.name == 'mod':
                for y in _exps(a.args[0]):
                    add(y)
    return out


def _single_pow2(x):
    if len(x.t) != 1:
        return None
    (pw, fs), c = x.t[0]
    if isinstance(c, int) and c > 0:
        k = (c & -c).bit_length() - 1
        e = C(k)
        if pw is not None:
            e = e + pw
        return e if (k or pw is not None) else None
    return None


def _pkey(p):
    return tuple((len(m[1]), tuple(a.uid for a, _ in m[1]), str(c)) for m, c in p.t)


_SMART = {'div': s_div, 'and': s_and, 'mod': s_mod}


def parts(st, val, k):
    """names for val mod 2^k and val div 2^k; the same on every path, as they are functions of val"""
    if not st.slicing:
        return None
    x = State.cuts.get((val, k))
    if x is None:
        a = val.single_atom()
        h = INF
        if a is not None and val == Poly.atom(a) and a.hi != INF:
            h = int(a.hi) >> k
        x = State.cuts[val, k] = sym('lo', 0, (1 << k) - 1, unk=val.unk), sym('hi', 0, h, unk=val.unk)
    return x


def split_val(st, val, kb):
    """val = lo + 2^kb * hi with 0 <= lo < 2^kb; new symbols if needed (may add facts)"""
    val = st.norm(val)
    kb = st.norm(kb)
    if not val.t:
        return ZERO, ZERO
    p = pow2(kb)
    if kb.cval() == 0:
        return ZERO, val
    h, l = _split_multiple(st, val, p, p.cval())
    if st.prove_ge0(l) and st.prove_ge0(p - l - 1):
        return l, h
    if st.prove_ge0(val) and st.prove_ge0(p - val - 1):
        return val, ZERO
    pc = p.cval()
    for j in (1, -1, 2, -2):
        # the multiple of p may have taken a carry with it
        lj = st.norm(l - p * j)
        if st.prove_ge0(lj) and st.prove_ge0(p - lj - 1):
            return lj, st.norm(h + j)
    if pc is not None and st.slicing and len(val.t) + len(val.deep) > 2:
        lo = s_mod(st, val, p)
        return lo, (st.norm(val) - lo) * _F(1, pc)
    vl, vh = st.interval(val)
    x = parts(st, val, kb.cval()) if pc is not None else None
    if x is None:
        lo = sym('lo', 0, INF if pc is None else pc - 1, unk=val.unk)
        hi = sym('hi', 0, vh // pc if pc is not None and vh != INF else vh, unk=val.unk)
    else:
        lo, hi = x
        if vh != INF and not st.assume(('ge', C(int(vh) // pc) - hi)):
            raise Infeasible()
    if not st.assume(('eq', val - lo - p * hi)):
        raise Infeasible()
    if pc is None and not st.assume(('ge', p - lo - 1)):
        raise Infeasible()
    return st.norm(lo), st.norm(hi)
