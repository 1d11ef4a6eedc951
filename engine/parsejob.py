"""Reading numbers from strings.

A root is analysed with a fixed radix and a string of a fixed shape: signs and prefixes are the ones
written in the case, every digit is a symbolic number below the radix written as a decimal digit, a
lower case or an upper case letter, and a place that is not a digit is any byte of a whole class.
"""
from poly import *
from state import *
from interp import *
from spec import *
import judge
from judge import Shape, num_of, variant
import contracts
import kernel

# '.'  any digit of the radix below ten          a / A  any digit of the radix from ten, lower / upper case
# ,    such a digit other than zero
# 0    the digit zero                            ! _ ~ s /  a byte that is neither alphanumeric nor a sign
# l/L  any letter that is no digit of the radix  d      a decimal digit that is no digit of the radix
# + - b o x B X  themselves


OTHER = {'!': (58, 64), '_': (91, 96), '~': (123, 127), 's': (0, 42), '/': (46, 47)}


class PCase:
    def __init__(self, radix, text, pre=''):
        self.radix, self.text, self.pre = radix, text, pre
        self.fixed, self.signs = {}, ()

    def __repr__(self):
        t = self.text if len(self.text) < 24 else '%s (%d characters)' % (self.text[:12] + '...', len(self.text))
        return '%s the string %r' % ('an invalid radix,' if self.radix < 2 else 'radix %d,' % self.radix, self.pre + t)


def wants(P, fn):
    if not (fn.local and fn.bbs and fn.reach and fn.sig) or fn.name not in ('from_str_radix', 'from_str', 'from_str_with_radix_prefix'):
        return False
    a = fn.sig[0]
    if not a or P.types[P.strip_ref(a[0])]['k'] != 'str' or len(a) > 2 or len(a) == 2 and P.types[a[1]]['k'] != 'uint':
        return False
    r = P.types[fn.sig[1]]
    return r['k'] == 'enum' and any(t in (P.t_ubig, P.t_ibig) for t in r.get('args', []))


def per_word(r, W):
    if r & (r - 1) == 0:
        return W // (r.bit_length() - 1)
    k = 0
    while r ** (k + 1) < 1 << W:
        k += 1
    return k


def digits(r, n, salt=0):
    """a string of n places, in every style the radix has"""
    kinds = '.' if r <= 10 else '.aA'
    return (',' if n > 3 else '') + ''.join(kinds[(i * i + i // 3 + salt) % len(kinds)] for i in range(n - (n > 3)))


def shapes(r, W, signed, full):
    k = per_word(r, W)
    d = lambda n, s=0: digits(r, n, s)
    out = [d(1), d(2, 1), d(k), d(k + 1), '0' * 3 + d(2), '+' + d(k + 1)]
    if r > 10:
        out += ['a', 'A']
    for n in (2 * k, 2 * k + 1, 3 * k + 2):
        if n < 70 or full:
            out.append(d(n, 2))
    if signed:
        out += ['-' + d(2), '-' + d(k + 1, 1), '-0', '-00' + d(k), '+0']
    if full:
        out += ['', '+', '0', '00', '+0' + d(k), '0' * (k + 2) + d(k + 1), '0' * (k + 2), '++' + d(1), '+' + d(1) + '+', d(k) + '!', '_' + d(k + 1), d(k) + '~' + d(k)]
        for x in OTHER:
            out += [x, d(1) + x, x + d(1)]
        out += [ d(2) + '-' + d(1), '\xe9', d(k) + '\xe9']
        out += ['-', '--' + d(1), '-+' + d(1), '+-' + d(1), '-!', '-!' + d(k + 1)] if signed else ['-' + d(1), '-' + d(k + 1), '-']
        for bad in ('lL' if r < 36 else '') + ('d' if r < 10 else ''):
            out += [bad, d(1) + bad, bad + d(1), bad + d(k), d(k) + bad, d(k + 1) + bad]
    return out


def cases(P, fn):
    W = P.word_bits
    signed = any(t == P.t_ibig for t in P.types[fn.sig[1]].get('args', []))
    out = []
    if fn.name == 'from_str_with_radix_prefix':
        for s in ('', '+', '-') if signed else ('', '+'):
            for r, p in ((2, '0b'), (8, '0o'), (16, '0x'), (10, '')):
                k = per_word(r, W)
                for t in (digits(r, 1), digits(r, 3), digits(r, k + 1), ''):
                    out.append(PCase(r, s + p + t, ''))
                out.append(PCase(r, s + p + '!'))
                out.append(PCase(r, s + p + digits(r, 1) + '!'))
        out += [PCase(16, '0x' + x) for x in ('a', 'A.', '0a', 'l', '+!', '.-')]
        out += [PCase(10, x) for x in ('0B.', '0X.', ',b', 'x', '00x.', ',l', '0L', '++.')]
        if not signed:
            out += [PCase(10, '-.'), PCase(10, '-0x.')]
        return out
    if len(fn.sig[0]) == 1:
        return [PCase(10, t) for t in shapes(10, W, signed, True)]
    for r in range(2, 37):
        for t in shapes(r, W, signed, r in (2, 8, 10, 16, 32, 36)):
            out.append(PCase(r, t))
    out += [PCase(r, t) for r in (0, 1) for t in ('.', '', '+..', '!')]
    return out


class PJob(judge.Job):
    def __init__(self, P, fn, case):
        super().__init__(P, fn, case, None)
        self.contracts = [kernel.pred()]

    def setup(self, it):
        """the string, and what it denotes"""
        st, c = State(), self.case
        t = c.pre + c.text
        bs, val, i = [], [], 0
        sign = ''
        r = c.radix if c.radix > 1 else 10
        if t[:1] in ('+', '-') and (t[0] == '+' or self.signed()):
            sign, t = t[0], t[1:]
            bs.append(C(ord(sign)))
        if self.fn.name == 'from_str_with_radix_prefix':
            for p, q in (('0b', 2), ('0o', 8), ('0x', 16)):
                if t.startswith(p):
                    assert c.radix == q
                    bs += [C(ord(x)) for x in p]
                    t = t[2:]
        ok = True
        n = len(t)
        ds = []

        def s(name, lo, hi):
            x = sym('%s%d' % (name, i), lo, hi)
            it.inputs.add(x.single_atom())
            return x
        for i, ch in enumerate(t):
            if ch in '.,':
                v = s('d', int(ch == ','), min(r, 10) - 1)
                bs.append(v + 48)
            elif ch in 'aA':
                v = s('d', 10, r - 1)
                bs.append(v - 10 + ord(ch))
            elif ch == '0':
                v = ZERO
                bs.append(C(48))
            else:
                ok = False
                if ch == 'l':
                    b = s('c', ord('a') + max(0, r - 10), ord('z'))
                elif ch == 'L':
                    b = s('c', ord('A') + max(0, r - 10), ord('Z'))
                elif ch == 'd':
                    b = s('c', 48 + r, 57)
                elif ch in OTHER:
                    b = s('c', *OTHER[ch])
                elif ord(ch) > 127:
                    bs += [C(x) for x in ch.encode()]
                    continue
                else:
                    b = C(ord(ch))
                bs.append(b)
                continue
            ds.append(v)
        if not n:
            self.want = 'NoDigits'
        elif not ok:
            self.want = 'InvalidDigit'
        else:
            p = ZERO
            for v in ds:
                p = p * r + v
            self.want = -p if sign == '-' else p
        o = it.obj(st, StrV(None, bs), None)
        args = [Ref(o)]
        if len(self.fn.sig[0]) == 2:
            if c.radix < 2:
                x = sym('radix', 0, 1) if c.radix else sym('radix', 37, (1 << 32) - 1)
                it.inputs.add(x.single_atom())
                args.append(x)
            else:
                args.append(C(c.radix))
        return st, args, [], [], []

    def signed(self):
        P = self.P
        return any(t == P.t_ibig for t in P.types[self.fn.sig[1]].get('args', []))

    def refute(self, rep, secs, lens=(2, 3), unroll=400, budget=200000):
        return super().refute(rep, secs, lens, unroll, budget)

    def prove(self, rep, secs, budget=200000, **kw):
        return super().prove(rep, secs, budget, unroll=400)

    def obligations(self, it, s, v, sems, atys, locs):
        if self.case.radix < 2:
            return [('must', FALSE, 'returned where it has to panic')]
        obl = []
        n, a = variant(it, s, v)
        if n == 'Err':
            e = it.resolve_enum(s, a.fs[0])
            if not isinstance(e, Agg):
                raise Shape('error')
            nm = it.T(e.ty)['v'][e.var][0]
            if self.want != nm:
                obl.append(('value', FALSE, 'error %s returned' % nm))
            else:
                obl.append(('value', TRUE, 'error'))
            return obl
        if isinstance(self.want, str):
            return [('value', FALSE, 'a number returned')]
        x = num_of(it, s, a.fs[0], it.field_ty(a.ty, a.var, 0), obl)
        obl.append(('value', ('eq', x - self.want), 'the number is not the one written'))
        return obl

    def allowed(self, it, s, sems, atys, locs):
        return TRUE if self.case.radix < 2 else FALSE
