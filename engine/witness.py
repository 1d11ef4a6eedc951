"""Is an abstract state that seems to break an obligation inhabited?  A valuation of its symbols that
satisfies every fact of the state and falsifies the obligation is looked for; an alarm needs one.
This is arithmetic on the abstract state only: no code of the crate is executed or interpreted."""
import random
from poly import *
from state import *
from fractions import Fraction as F


class NoEval(Exception):
    pass


MAXBITS = 300000


class Val:
    def __init__(self, st, env):
        self.st, self.env = st, env
        self.memo = {}

    def atom(self, a):
        r = self.env.get(a)
        if r is not None:
            return r
        r = self.memo.get(a)
        if r is not None:
            return r
        s = self.st.sub.get(a)
        if a.kind == 'sym':
            if s is None:
                raise NoEval(a)
            r = self.poly(s)
        else:
            r = self.app(a)
        self.memo[a] = r
        return r

    def app(self, a):
        xs = []
        for x in a.args:
            xs.append(self.poly(x) if isinstance(x, Poly) else x)
        n = a.name
        if n == 'div':
            if xs[1] == 0:
                raise NoEval(a)
            return xs[0] // xs[1]
        if n == 'mod':
            if xs[1] == 0:
                raise NoEval(a)
            return xs[0] % xs[1]
        if n == 'and':
            if xs[0] < 0 or xs[1] < 0:
                raise NoEval(a)
            return xs[0] & xs[1]
        f = FUNS.get(n)
        if f is None:
            raise NoEval(a)
        r = f(*xs)
        if r is None:
            raise NoEval(a)
        return r

    def poly(self, p):
        r = 0
        for (pw, fs), c in p.t:
            x = F(c) if type(c) is not int else c
            if pw is not None:
                e = self.poly(pw)
                if abs(e) > MAXBITS:
                    raise NoEval('exp')
                x = x * (1 << e) if e >= 0 else F(x) / (1 << -e)
            for a, e in fs:
                x = x * self.atom(a) ** e
            r = r + x
        if type(r) is F:
            if r.denominator == 1:
                r = int(r)
            else:
                raise NoEval('fraction')
        return r

    def cond(self, b):
        k = b[0]
        if k == 'c':
            return b[1]
        if k == 'ge':
            return self.poly(b[1]) >= 0
        if k == 'eq':
            return self.poly(b[1]) == 0
        if k == 'ne':
            return self.poly(b[1]) != 0
        if k == 'and':
            return self.cond(b[1]) and self.cond(b[2])
        if k == 'or':
            return self.cond(b[1]) or self.cond(b[2])
        if k in ('pow2', 'npow2'):
            x = self.poly(b[1])
            return (x > 0 and x & (x - 1) == 0) == (k == 'pow2')
        raise NoEval(b)


def _clz(x, n):
    return n - x.bit_length()


def _tofloat(x, w):
    """bits of the float nearest to the integer x, ties to even"""
    man, bias, top = (23, 127, 255) if w == 32 else (52, 1023, 2047)
    s, x = (1 << (w - 1) if x < 0 else 0), abs(x)
    if x == 0:
        return s
    e = x.bit_length() - 1
    if e > man:
        k = e - man
        m, r = x >> k, x & ((1 << k) - 1)
        if r * 2 > 1 << k or r * 2 == 1 << k and m & 1:
            m += 1
    else:
        m = x << (man - e)
    v = ((e + bias - 1) << man) + m
    return s + min(v, top << man)


def _egcd(a, b):
    import math
    g = math.gcd(a, b)
    if b == 0:
        return 1, 0
    m = b // g
    x = pow(a // g, -1, m) if m > 1 else 0
    return x, (g - a * x) // b


def _modprod(z):
    n = z[-1]
    if n <= 0:
        return None
    r = 1 % n
    for i in range(0, len(z) - 1, 2):
        r = r * pow(z[i], z[i + 1], n) % n
    return r


def _modinv(a, n):
    import math
    if n < 1 or math.gcd(a, n) != 1:
        return None
    return pow(a, -1, n) if n > 1 else 0


FUNS = {
    'bezx': lambda a, b: _egcd(a, b)[0],
    'bezy': lambda a, b: _egcd(a, b)[1],
    'modinv': _modinv,
    'modprod': lambda *z: _modprod(z),
    'modmul': lambda a, b, n: a * b % n if n > 0 else None,
    'modpow': lambda a, e, n: (pow(a, e, n) if e >= 0 else None if _modinv(a, n) is None else pow(_modinv(a, n), -e, n)) if n > 0 else None,
    'tofloat': _tofloat,
    'clz': lambda x, n: _clz(x, n),
    'ctz': lambda x: (x & -x).bit_length() - 1 if x > 0 else None,
    'pow2neg': lambda x: None,
    'bswap': lambda x, n: int.from_bytes(x.to_bytes(n, 'little'), 'big'),
    'popcnt': lambda x: bin(x).count('1'),
    'log2': lambda x: x.bit_length() - 1 if x > 0 else None,
    'gcd': lambda x, y: __import__('math').gcd(x, y),
    'pow': lambda x, y: x ** y if y < 64 else None,
}


def closure(st, polys):
    """base symbols and all applications that matter"""
    seen = set()
    todo = []
    for p in polys:
        todo.extend(p.deep)
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        s = st.sub.get(a)
        if s is not None:
            todo.extend(s.deep)
        if a.kind == 'app':
            for x in a.args:
                if isinstance(x, Poly):
                    todo.extend(x.deep)
    return seen


def find(st, goal, extra=(), tries=1500, seed=1):
    """a valuation satisfying the facts of st, `extra` conditions, and `goal` (boolean), or None"""
    if st.extra.get('unk') or st.bsym:
        return None
    facts = [('ge', f) for f in st.ge] + [('ne', f) for f in st.ne] + [b for b in st.cons] + list(extra)

    def polys_of(b, out):
        if b[0] in ('ge', 'eq', 'ne', 'pow2', 'npow2'):
            out.append(b[1])
        elif b[0] in ('and', 'or'):
            polys_of(b[1], out)
            polys_of(b[2], out)
    ps = []
    for b in facts + [goal]:
        polys_of(b, ps)
    ps += [Poly.atom(a) for a in st.sub] + list(st.sub.values())
    ps += [Poly.atom(a) for a in st.iv]
    atoms = closure(st, ps)
    if any(a.unk for a in atoms if a in set().union(*[p.deep for p in ps if True]) and any(a in x.deep for x in _goalps(goal))):
        return None
    base = sorted([a for a in atoms if a.kind == 'sym' and a not in st.sub], key=lambda a: a.uid)
    exps = set()
    for p in ps:
        for q in _all_polys(p):
            for (pw, fs), c in q.t:
                if pw is not None:
                    exps |= _exp_syms(pw)
    for a in list(exps):
        s = st.sub.get(a)
        if s is not None:
            exps |= {x for x in s.deep if x.kind == 'sym'}
    rnd = random.Random(seed)
    order = [a for a in base if a in exps] + [a for a in base if a not in exps]
    # facts in which an atom is bounded linearly by atoms that are chosen before it
    lin = {a: [] for a in base}
    pos = {a: i for i, a in enumerate(order)}
    nfacts = [('ge', st.norm(b[1])) for b in facts if b[0] == 'ge']
    for s, p in st.sub.items():
        l, h = st.aiv(s)
        if l != -INF:
            nfacts.append(('ge', st.norm(p - l)))
        if h != INF:
            nfacts.append(('ge', st.norm(C(h) - p)))
    for b in nfacts:
        need = {x for x in closure(st, [b[1]]) if x.kind == 'sym' and x not in st.sub}
        if not need or any(x not in pos for x in need):
            continue
        a = max(need, key=lambda x: pos[x])
        if a in _hidden(b[1]) or any(a in x.deep or x in st.sub and a in st.sub[x].deep for x in b[1].deep if x is not a):
            continue
        k, r = {}, {}
        for (pw, fs), c in b[1].t:
            if any(x is a for x, _ in fs):
                k[pw, tuple(y for y in fs if y[0] is not a)] = c
            else:
                r[pw, fs] = c
        lin[a].append((Poly.make(k), Poly.make(r)))
    for t in range(tries):
        env = {}
        v = Val(st, env)
        ok = True
        for a in order:
            lo, hi = st.aiv(a)
            for kp, rp in lin[a]:
                # k*a + rest >= 0 with both known
                try:
                    rest, k = v.poly_f(rp), v.poly_f(kp)
                except NoEval:
                    continue
                if k > 0:
                    lo = max(lo, -int(rest // k))
                elif k < 0:
                    hi = min(hi, int(rest // -k))
            if lo == -INF:
                lo = -(1 << 70)
            if a in exps:
                hi2 = min(hi, lo + 3)
                if hi2 < lo:
                    ok = False
                    break
                env[a] = rnd.randint(int(lo), int(hi2))
                continue
            if hi == INF:
                hi = max(lo, 0) + (1 << 200)
            if hi < lo:
                ok = False
                break
            lo, hi = int(lo), int(hi)
            m = rnd.randrange(10)
            if m == 0:
                x = lo
            elif m == 1:
                x = hi
            elif m == 2:
                x = min(hi, lo + rnd.randrange(4))
            elif m == 3:
                x = max(lo, hi - rnd.randrange(4))
            elif m == 4:
                x = max(lo, min(hi, 1 << rnd.randrange(0, max(1, hi.bit_length() + 1))))
            elif m == 5:
                x = max(lo, min(hi, (1 << rnd.randrange(0, max(1, hi.bit_length() + 1))) - 1))
            elif m == 6:     # few significant bits
                k = rnd.randrange(0, max(1, hi.bit_length()))
                x = max(lo, min(hi, rnd.randrange(1 << rnd.randrange(1, 5)) << k))
            elif m == 7:     # trailing zeros
                k = rnd.randrange(0, max(1, hi.bit_length()))
                x = max(lo, (rnd.randint(lo, hi) >> k) << k)
            else:
                x = rnd.randint(lo, hi)
            env[a] = x
        if not ok:
            continue
        try:
            if not all(v.cond(b) for b in facts):
                continue
            good = True
            for a in atoms:
                l, h = st.aiv(a)
                x = v.atom(a)
                if not (l <= x <= h):
                    good = False
                    break
                s = st.sub.get(a)
                if s is not None and a.kind == 'app' and v.poly(s) != x:
                    good = False
                    break
            if good and v.cond(goal):
                return {repr(a): env[a] for a in base}
        except NoEval:
            continue
    return None


def _hidden(p):
    """symbols that occur in the polynomial other than as linear factors"""
    out = set()
    for (pw, fs), c in p.t:
        if pw is not None:
            out |= pw.deep
        for a, e in fs:
            if e != 1:
                out.add(a)
            for x in a.args if a.kind == 'app' else ():
                if isinstance(x, Poly):
                    out |= x.deep
    return out


def _exp_syms(p):
    """symbols an exponent grows with"""
    out = set()
    for (pw, fs), c in p.t:
        if pw is not None:
            out |= _exp_syms(pw)
        for a, _ in fs:
            if a.kind == 'sym':
                out.add(a)
            elif a.name not in ('clz', 'ctz', 'log2', 'popcnt'):
                for x in a.args:
                    if isinstance(x, Poly):
                        out |= _exp_syms(x)
    return out


def _goalps(b):
    if b[0] in ('ge', 'eq', 'ne', 'pow2', 'npow2'):
        return [b[1]]
    if b[0] in ('and', 'or'):
        return _goalps(b[1]) + _goalps(b[2])
    return []


def _all_polys(p, seen=None):
    if seen is None:
        seen = set()
    if p in seen:
        return
    seen.add(p)
    yield p
    for (pw, fs), c in p.t:
        if pw is not None:
            yield from _all_polys(pw, seen)
        for a, _ in fs:
            if a.kind == 'app':
                for x in a.args:
                    if isinstance(x, Poly):
                        yield from _all_polys(x, seen)


def _poly_f(self, p):
    """like poly, but the value may be a fraction"""
    r = 0
    for (pw, fs), c in p.t:
        x = c
        if pw is not None:
            e = self.poly(pw)
            if abs(e) > MAXBITS:
                raise NoEval('exp')
            x = x * (1 << e) if e >= 0 else F(x) / (1 << -e)
        for a, e in fs:
            x = x * self.atom(a) ** e
        r += x
    return r


Val.poly_f = _poly_f
