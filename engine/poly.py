"""Symbolic integer polynomials in normal form.

A Poly is a finite sum of  coef * 2^(exponent poly) * product of atoms.  Two polynomials denote the
same function of their atoms exactly when their normal forms are identical, which is all the
analysis ever asks of them: there is no solver behind this.
"""
from fractions import Fraction as _F

from fractions import Fraction
INF = float('inf')


class Atom:
    __slots__ = ('kind', 'name', 'args', 'lo', 'hi', 'uid', 'unk', 'deep')
    _apps = {}
    _next = [0]

    def __repr__(self):
        if self.kind == 'sym':
            return '%s#%d' % (self.name, self.uid)
        return '%s(%s)' % (self.name, ', '.join(map(repr, self.args)))

    def __lt__(self, o):
        return self.uid < o.uid


def sym(name, lo=-INF, hi=INF, unk=False):
    a = Atom()
    a.kind = 'sym'
    a.name = name
    a.args = ()
    a.lo = lo
    a.hi = hi
    Atom._next[0] += 1
    a.uid = Atom._next[0]
    a.unk = unk
    a.deep = frozenset((a,))
    return Poly.atom(a)


def app(name, args, lo=-INF, hi=INF):
    key = (name, args)
    a = Atom._apps.get(key)
    if a is None:
        a = Atom()
        a.kind = 'app'
        a.name = name
        a.args = args
        a.lo = lo
        a.hi = hi
        Atom._next[0] += 1
        a.uid = Atom._next[0]
        a.unk = any(x.unk for x in args if isinstance(x, Poly))
        d = {a}
        for x in args:
            if isinstance(x, Poly):
                d |= x.deep
        a.deep = frozenset(d)
        Atom._apps[key] = a
    else:
        # several creators may know different sound bounds
        if lo > a.lo:
            a.lo = lo
        if hi < a.hi:
            a.hi = hi
    return Poly.atom(a)


class Poly:
    """terms: tuple of (mono, coef), mono = (pw, ((atom, exp), ...)), pw = None or a Poly without
    constant term (the exponent of a power of two)."""
    __slots__ = ('t', '_h', '_deep', '_unk')
    _cache = {}

    @staticmethod
    def make(d):
        items = [(m, c if type(c) is int or c.denominator != 1 else c.numerator) for m, c in d.items() if c != 0]
        if len(items) > 1:
            items.sort(key=_mkey)
        t = tuple(items)
        p = Poly._cache.get(t)
        if p is None:
            p = Poly()
            p.t = t
            p._h = hash(t)
            p._deep = None
            p._unk = None
            Poly._cache[t] = p
        return p

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    @staticmethod
    def const(c):
        return Poly.make({UNIT: c})

    @staticmethod
    def atom(a):
        return Poly.make({(None, ((a, 1),)): 1})

    @property
    def deep(self):
        if self._deep is None:
            d = set()
            for (pw, fs), _ in self.t:
                if pw is not None:
                    d |= pw.deep
                for a, _e in fs:
                    d |= a.deep
            self._deep = frozenset(d)
        return self._deep

    @property
    def unk(self):
        if self._unk is None:
            self._unk = any(a.unk for a in self.deep)
        return self._unk

    def is_const(self):
        return not self.t or (len(self.t) == 1 and self.t[0][0] == UNIT)

    def cval(self):
        """the constant, or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and self.t[0][0] == UNIT:
            return self.t[0][1]
        return None

    def const_part(self):
        for m, c in self.t:
            if m == UNIT:
                return c
        return 0

    def single_atom(self):
        """the atom if self is exactly one atom, else None"""
        if len(self.t) == 1:
            (pw, fs), c = self.t[0]
            if c == 1 and pw is None and len(fs) == 1 and fs[0][1] == 1:
                return fs[0][0]
        return None

    def __add__(self, o):
        if isinstance(o, (int, _F)):
            o = Poly.const(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return Poly.make(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly.make({m: -c for m, c in self.t})

    def __sub__(self, o):
        if isinstance(o, (int, _F)):
            o = Poly.const(o)
        return self + (-o)

    def __rsub__(self, o):
        return Poly.const(o) + (-self)

    def __mul__(self, o):
        if isinstance(o, (int, _F)):
            if o == 1:
                return self
            return Poly.make({m: c * o for m, c in self.t})
        d = {}
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m, k = _mmul(m1, m2)
                c = c1 * c2 * k
                d[m] = d.get(m, 0) + c
        return Poly.make(d)

    __rmul__ = __mul__

    def divisible_pow2(self, k):
        """is every coefficient, with its power of two, a multiple of 2^k (k a Poly)?"""
        kc = k.cval()
        for (pw, fs), c in self.t:
            rem = k if pw is None else k - pw
            rc = rem.cval()
            if rc is None:
                return False
            if rc > 0 and c % (1 << rc) != 0:
                return False
        return True

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for (pw, fs), c in self.t:
            s = []
            if pw is not None:
                s.append('2^(%r)' % pw)
            for a, e in fs:
                s.append(repr(a) if e == 1 else '%r^%d' % (a, e))
            b = '*'.join(s)
            if not b:
                b = _cstr(c)
            elif c == -1:
                b = '-' + b
            elif c != 1:
                b = _cstr(c) + '*' + b
            out.append(b)
        return ' + '.join(out)


def _cstr(c):
    if abs(c) > 1 << 20:
        a = abs(c)
        for d in (-1, 0, 1):
            b = a + d
            if b & (b - 1) == 0:
                return '%s2^%d%s' % ('-' if c < 0 else '', b.bit_length() - 1, '' if d == 0 else ('%+d' % -d))
    return str(c)


UNIT = (None, ())


def _mkey(mc):
    (pw, fs), c = mc
    return (0 if pw is None else 1, len(fs), tuple((a.uid, e) for a, e in fs), 0 if pw is None else hash(pw.t), c)


def _mmul(m1, m2):
    (p1, f1), (p2, f2) = m1, m2
    k = 1
    if p1 is None:
        pw = p2
    elif p2 is None:
        pw = p1
    else:
        pw = p1 + p2
        c = pw.cval()
        if c is not None:
            k = 1 << c if c >= 0 else None
            pw = None
        else:
            cp = pw.const_part()
            if cp != 0:
                raise AssertionError('constant in exponent')
    if not f1:
        fs = f2
    elif not f2:
        fs = f1
    else:
        d = dict(f1)
        for a, e in f2:
            d[a] = d.get(a, 0) + e
        fs = tuple(sorted(d.items(), key=lambda x: x[0].uid))
    if k is None:
        raise AssertionError('negative power')
    return (pw, fs), k


def C(c):
    return Poly.const(c)


ZERO = C(0)
ONE = C(1)


def pow2(e):
    """2^e for a Poly e (assumed >= 0)."""
    c = e.const_part()
    if type(c) is not int:
        c = int(c // 1)
    rest = e - c
    if rest.cval() is not None and rest.t:
        return app('pow2frac', (e,), 0)
    if c > 1 << 16 and not rest.t:
        return app('pow2big', (e,), 1 << 4096)
    if c < -(1 << 16) or c > 1 << 16:
        return app('pow2big', (e,), 0)
    if not rest.t:
        return C(1 << c) if c >= 0 else Poly.make({(None, ()): Fraction(1, 1 << -c)})
    if c >= 0:
        return Poly.make({(rest, ()): 1 << c})
    # keep the whole exponent together: factor 2^(-|c|) is not an integer coefficient
    return Poly.make({(rest, ()): Frac(1, 1 << -c)})





def Frac(a, b):
    f = _F(a, b)
    return int(f) if f.denominator == 1 else f


class EQuot(Exception):
    pass
