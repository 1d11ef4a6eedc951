"""Operations of modular arithmetic, judged through the public interface only.

A root is analysed inside a short script: a ring is made with ModuloRing::new(n), its operands with
ring.from(x) for 0 <= x < n, and the result is read back with residue().  n and the operands are
symbolic numbers, so the script stands for every ring and every element of it.  How rings and elements
are represented is never mentioned.
"""
from poly import *
from state import *
from interp import *
from spec import *
import judge
from judge import Shape, num_of, variant, mk_arg
import contracts
import kernel

MOD = 'modular::modulo::Modulo'
RING = 'modular::modulo_ring::ModuloRing'


def base_name(P, t):
    t = P.types[P.strip_ref(t)]
    return (t.get('def') or t['n']).split('<')[0]


def is_mod(P, t):
    return base_name(P, t) == MOD


def is_ring(P, t):
    return base_name(P, t) == RING


NAMES = {'add', 'sub', 'mul', 'div', 'neg', 'eq', 'clone', 'clone_from', 'residue', 'modulus', 'into_modulo', 'inverse', 'pow', 'pow_signed', 'new',
         'add_assign', 'sub_assign', 'mul_assign', 'div_assign'}
EXPS = (0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 23, 2**16 - 1, 2**31 + 5, 2**63 + 2**62 + 1, 2**64 - 1, 2**64, 2**64 + 1, 2**65 + 3, 2**70 - 1, 2**127 + 2**64)
# sliding windows of several sizes, also across the boundary of two words
EXPSL = (0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 23, 0xd7b5, 0xb5e79a4d, 2**64, 2**64 + 5, 0x5a9c3f17e24d86b1f, 0x16d00000000000003)


class MCase:
    def __init__(self, large, same=True, exp=None, sign=0):
        self.large, self.same, self.exp, self.sign = large, same, exp, sign
        self.fixed, self.signs = {}, ()

    def __repr__(self):
        s = 'ring of %s words' % ('several' if self.large else 'one')
        if not self.same:
            s += ', another ring' + (' of the other size' if self.same is None else '')
        if self.exp is not None:
            s += ', exponent %d' % self.exp
        if self.sign:
            s += ', negative'
        return s


def wants(P, fn):
    """a root of the modular arithmetic"""
    if not (fn.local and fn.bbs and fn.reach and fn.sig) or fn.name not in NAMES:
        return False
    ts = fn.sig[0] + [fn.sig[1]]
    if any(P.types[P.strip_ref(t)]['k'] in ('param', 'alias') for t in ts):
        return False
    if fn.name == 'new':
        return is_ring(P, fn.sig[1])
    if fn.name == 'from':
        return False
    return any(is_mod(P, t) or is_ring(P, t) for t in ts)


def cases(P, fn):
    out = []
    ops = [t for t in fn.sig[0] if is_mod(P, t)]
    signs = (0, 1) if any(P.strip_ref(t) == P.t_ibig for t in fn.sig[0]) else (0,)
    for large in (0, 1):
        for sg in signs:
            for e in ((None,) if fn.name not in ('pow', 'pow_signed') else EXPSL if large else EXPS):
                if fn.name == 'pow_signed' and e is not None and (e > 5 or sg and e == 0):
                    continue
                out.append(MCase(large, True, e, sg))
    if len(ops) == 2 and fn.name not in ('clone_from',):
        out += [MCase(0, False), MCase(1, False), MCase(0, None), MCase(1, None)]
    return out


class MJob(judge.Job):
    def __init__(self, P, fn, case):
        super().__init__(P, fn, case, None)
        self.contracts = [self.lower, kernel.pred()]

    # ---- what may be assumed ------------------------------------------------------------------
    def lower(self, it, fn):
        P = it.P
        if fn is self.fn or not fn.local or not fn.sig:
            return None
        if fn.name == 'extended_gcd' and len(fn.sig[0]) == 2 and all(P.strip_ref(t) == P.t_ubig for t in fn.sig[0]):
            return egcd
        if fn.name == 'mul' and fn.path.startswith('modular::modulo::') and len(fn.sig[0]) == 3 and self.case.exp is not None:
            return None
        if fn.name == 'inverse' and len(fn.sig[0]) == 1 and is_mod(P, fn.sig[0][0]) and self.fn.name != 'inverse':
            return self.inverse
        if P.types[fn.sig[1]]['n'] in LAYOUT or fn.path.startswith('memory::') and fn.name in ('new', 'memory'):
            return opaque
        if fn.name == 'new' and fn.path.startswith('fast_divide::') and 'Normalized' in fn.path and fn.sig[0] == [P.t_word]:
            return fastdiv
        return contracts.public(P, None)(it, fn)

    def refute(self, rep, secs, lens=(2, 3), unroll=200, budget=200000):
        return super().refute(rep, secs, lens, unroll, budget)

    def inverse(self, it, st, fn, args, dest_ty, tys, f=None):
        """the specification of inverse(), in terms of residue() and into_modulo()"""
        P = self.P
        env = st.extra.get('env')
        if env is None:
            raise NoSpec('inverse')
        objs = set()
        refs(it, st, args[0], objs)
        own = [(r, n) for r, n in ((env['ring'], env['n']), (env.get('ring2'), env.get('n2'))) if r is not None and r.obj in objs]
        if len(own) != 1:
            raise NoSpec('the ring of an element')
        ring, n = own[0]
        res = self.f('residue', lambda f: is_mod(P, f.sig[0][0]))
        frm = self.f('into_modulo', lambda f: f.sig[0][:1] == [P.t_ubig])
        names = [v[0] for v in it.T(dest_ty)['v']]
        outs = []
        for s, v in it.run(res, [args[0]], st, len(it.stack) + 1):
            a = s.norm(num_of(it, s, v, P.t_ubig, []))
            b = ('eq', app('gcd', (a, s.norm(n)), 0) - 1)
            for yes in (True, False):
                c = s.copy()
                if not c.assume(b if yes else bnot(b)):
                    continue
                if not yes:
                    outs.append((c, Agg(dest_ty, names.index('None'), [])))
                    continue
                x = app('modinv', (a, c.norm(n)), 0)
                for g in (x, n - x - 1):
                    if not c.assume(('ge', g)):
                        break
                else:
                    c.extra['els'] = c.extra.get('els', ()) + (x,)
                    for c2, m in it.run(frm, [it.big(c, x), ring], c, len(it.stack) + 1):
                        outs.append((c2, Agg(dest_ty, names.index('Some'), [m])))
        return Multi(outs)

    # ---- the script ---------------------------------------------------------------------------
    def setup(self, it):
        st = State()
        self.n = [None, None]
        return st, [], [], [], []

    def f(self, name, test):
        for f in self.P.fns:
            if f.local and f.bbs and f.sig and f.name == name and test(f):
                return f
        raise NoSpec('no function ' + name)

    def mkring(self, it, st, k, large):
        P = self.P
        W = P.word_bits
        n = sym('n%d' % k if k else 'n', 1 << W) if large else sym('n%d' % k if k else 'n', 1, (1 << W) - 1)
        it.inputs.add(n.single_atom())
        st.extra['mods'] = st.extra.get('mods', ()) + (n,)
        new = self.f('new', lambda f: is_ring(P, f.sig[1]) and [P.strip_ref(t) for t in f.sig[0]] == [P.t_ubig])
        a = Ref(it.obj(st, it.big(st, n), P.t_ubig))
        out = []
        for s, v in it.run(new, [a], st):
            out.append((s, Ref(it.obj(s, v, new.sig[1]))))
        return n, out

    def mkelem(self, it, st, ring, n, name):
        P = self.P
        a = sym(name, 0)
        it.inputs.add(a.single_atom())
        if not st.assume(('ge', n - a - 1)):
            raise Infeasible()
        st.extra['els'] = st.extra.get('els', ()) + (a,)
        frm = self.f('into_modulo', lambda f: f.sig[0][:1] == [P.t_ubig])
        return a, it.run(frm, [it.big(st, a), ring], st)

    def exec(self, it, args, st):
        """[(state, result, environment)]"""
        P, fn, c = self.P, self.fn, self.case
        if fn.name == 'new':
            n = sym('n', 0 if not c.large else 1 << P.word_bits, INF if c.large else (1 << P.word_bits) - 1)
            it.inputs.add(n.single_atom())
            outs = []
            md = self.f('modulus', lambda f: is_ring(P, f.sig[0][0]))
            st.extra['env'] = {'n': n}
            for s, v in it.run(fn, [Ref(it.obj(st, it.big(st, n), P.t_ubig))], st):
                r = Ref(it.obj(s, v, fn.sig[1]))
                outs += [(s2, (v2, None), {'n': n}) for s2, v2 in it.run(md, [r], s)]
            return outs
        n, rings = self.mkring(it, st, 0, c.large)
        live = [(s, [r], {'n': n, 'ring': r}) for s, r in rings]
        if not c.same:
            nxt = []
            for s, rs, env in live:
                n2, r2 = self.mkring(it, s, 2, (not c.large) if c.same is None else c.large)
                for s2, r in r2:
                    s2.extra['distinct'] = (frozenset((rs[0].obj, r.obj)),)
                    nxt.append((s2, rs + [r], dict(env, n2=n2, ring2=r)))
            live = nxt
        states = [(s, rs, [], env) for s, rs, env in live]
        k = 0
        locs = {}
        for i, ti in enumerate(fn.sig[0]):
            nxt = []
            for s, rs, av, env in states:
                if is_ring(P, ti):
                    nxt.append((s, rs, av + [rs[0]], env))
                    continue
                if is_mod(P, ti):
                    ring = rs[-1] if i else rs[0]
                    m = env['n2'] if i and 'n2' in env else env['n']
                    a, outs = self.mkelem(it, s.copy(), ring, m, 'abc'[i])
                    for s2, v in outs:
                        x = v
                        if P.types[ti]['k'] == 'ref':
                            x = Ref(it.obj(s2, v, P.strip_ref(ti)))
                        nxt.append((s2, rs, av + [x], dict(env, **{'abc'[i]: a})))
                    continue
                s = s.copy()
                if c.exp is not None:
                    inner = P.strip_ref(ti)
                    e = C(c.exp)
                    v = it.big(s, e)
                    if inner == P.t_ibig:
                        v = contracts.make(it, s, Num(-e if c.sign else e), P.t_ibig)
                    x = Ref(it.obj(s, v, inner)) if P.types[ti]['k'] == 'ref' else v
                    nxt.append((s, rs, av + [x], dict(env, **{'abc'[i]: -e if c.sign else e})))
                    continue
                x, sem, inner, loc = mk_arg(it, s, ti, 'abc'[i], c.sign, None)
                nxt.append((s, rs, av + [x], dict(env, **{'abc'[i]: sem})))
            states = nxt
        out = []
        res = self.f('residue', lambda f: is_mod(P, f.sig[0][0]))
        mod_out = is_mod(P, fn.sig[1])
        inplace = fn.name.endswith('_assign') or fn.name == 'clone_from'
        for s, rs, av, env in states:
            s.extra['env'] = env
            for s2, v in it.run(fn, av, s):
                if inplace:
                    r = av[0]
                elif mod_out:
                    r = Ref(it.obj(s2, v, fn.sig[1]))
                elif P.types[fn.sig[1]]['k'] == 'enum' and any(is_mod(P, t) for t in P.types[fn.sig[1]].get('args', [])):
                    def opt(c2, v=v):
                        return variant(it, c2, v)
                    for c2, (nm, a) in it.exec_split(s2, opt):
                        if nm == 'None':
                            out.append((c2, (None, 'None'), env))
                            continue
                        r = Ref(it.obj(c2, a.fs[0], it.field_ty(a.ty, a.var, 0)))
                        out += [(s3, (v3, 'Some'), env) for s3, v3 in it.run(res, [r], c2)]
                    continue
                else:
                    out.append((s2, (v, None), env))
                    continue
                out += [(s3, (v3, None), env) for s3, v3 in it.run(res, [r], s2)]
        return out

    # ---- what it must be --------------------------------------------------------------------------
    def must(self, s, env):
        nm = self.fn.name
        if nm == 'new':
            return ('eq', env['n'])
        if not self.case.same:
            return TRUE
        if nm in ('div', 'div_assign'):
            return ('ne', app('gcd', (s.norm(env['b']), s.norm(env['n'])), 0) - 1)
        if nm == 'pow_signed' and self.case.sign:
            return ('ne', app('gcd', (s.norm(env['a']), s.norm(env['n'])), 0) - 1)
        return FALSE

    def obligations(self, it, s, v, sems, atys, locs, env=None):
        obl = []
        P = self.P
        nm = self.fn.name
        v, var = v
        m = self.must(s, env)
        if m != FALSE:
            obl.append(('must', bnot(m), 'returned where it has to panic'))
            if m == TRUE or not s.assume(bnot(m)):
                return obl
        n, a, b = env['n'], env.get('a'), env.get('b')
        base = nm[:-7] if nm.endswith('_assign') else nm
        if nm == 'eq':
            if case(s, v):
                obl.append(('value', ('eq', a - b), 'true returned'))
            else:
                obl.append(('value', ('ne', a - b), 'false returned'))
            return obl
        if nm == 'inverse':
            g = app('gcd', (s.norm(a), s.norm(n)), 0)
            if var == 'None':
                return [('value', ('ne', g - 1), 'no inverse returned')]
            obl.append(('value', ('eq', g - 1), 'an inverse returned'))
        x = num_of(it, s, v, P.t_ubig, obl)
        if nm not in ('new', 'modulus'):
            obl.append(('value', ('ge', n - x - 1), 'the residue is not below the modulus'))
        na, nb = (s.norm(a) if a is not None else None), (s.norm(b) if b is not None else None)
        if base == 'add':
            e = a + b if case(s, ('ge', n - a - b - 1)) else a + b - n
        elif base == 'sub':
            e = a - b if case(s, ('ge', a - b)) else a - b + n
        elif base == 'neg':
            e = ZERO if case(s, ('eq', a)) else n - a
        elif base == 'mul':
            e = modprod(s, (a, 1), (b, 1), n)
        elif base == 'div':
            e = app('modmul', (na, app('modinv', (nb, s.norm(n)), 0), s.norm(n)), 0)
        elif base in ('pow', 'pow_signed'):
            x0 = s.norm(b).cval()
            e = a if x0 == 1 else app('modpow', (app('modinv', (na, s.norm(n)), 0), C(-x0), s.norm(n)), 0) if x0 < 0 else modprod(s, (a, x0), n)
        elif base == 'inverse':
            e = app('modinv', (na, s.norm(n)), 0)
        elif base in ('residue', 'clone'):
            e = a
        elif base == 'clone_from':
            e = b
        elif base in ('new', 'modulus'):
            e = n
        elif base == 'into_modulo':
            if case(s, ('ge', a)):
                e = a - n * s_div(s, a, n)
            else:
                e = app('modmul', (na, ONE, s.norm(n)), 0)
        else:
            raise NoSpec(nm)
        if base in ('mul',):
            # a*b - n*q for the q that makes it a residue
            q = s_div(s, a * b, n)
            e2 = a * b - n * q
            obl.append(('value', ('or', ('eq', x - e), ('eq', x - e2)), 'the result is not the exact one'))
            return obl
        obl.append(('value', ('eq', x - e), 'the result is not the exact one'))
        return obl

    def allowed(self, it, s, sems, atys, locs):
        env = s.extra.get('env')
        return self.must(s, env) if env is not None else FALSE


def refs(it, st, v, out, depth=0):
    """the objects a value refers to"""
    if isinstance(v, Ref):
        if v.obj in out:
            return
        out.add(v.obj)
        if depth < 4:
            refs(it, st, it.load(st, Loc(v.obj, v.path)), out, depth + 1)
    elif isinstance(v, Agg):
        for x in v.fs:
            refs(it, st, x, out, depth)


def modprod(s, *z):
    n = z[-1]
    d = {}
    for p, e in z[:-1]:
        a = p.single_atom()
        if a is None or not e or n.single_atom() is None:
            return app('modprod', tuple(y for p, e in z[:-1] for y in (p, C(e))) + (n,), 0)
        d[a] = d.get(a, 0) + e
    return kernel.modprod(d, n)


LAYOUT = ('std::alloc::Layout', 'core::alloc::Layout', 'alloc::alloc::Layout', 'core::alloc::layout::Layout')


def opaque(it, st, fn, args, dest_ty, tys, f=None):
    """scratch memory and its size"""
    return it.fresh(st, dest_ty, 'mem')


def fastdiv(it, st, fn, args, dest_ty, tys, f=None):
    """a prepared divisor; that its reciprocal is right is decided with the contract of its div_rem"""
    d = st.norm(args[0])
    c = ('ge', d - (1 << (it.W - 1)))
    t = st.truth(c)
    if t is None:
        raise Split([lambda s: s.assume(c), lambda s: s.assume(bnot(c))])
    if not t:
        it.panics.append(('contract', tuple(x.path for x in it.stack) + (fn.path,), 'divisor not normalised', st.copy()))
        raise Infeasible()
    return Agg(dest_ty, 0, [d if x[0] == 'divisor' else it.fresh(st, x[1], 'recip') for x in it.T(dest_ty)['v'][0][2]])


def egcd(it, st, fn, args, dest_ty, tys, f=None):
    P = it.P
    v = []
    for a in args:
        while isinstance(a, Ref):
            a = it.load(st, Loc(a.obj, a.path))
        v.append(st.norm(num_of(it, st, a, P.t_ubig, [])))
    a, b = v
    g = app('gcd', (a, b), 0)
    x = app('bezx', (a, b))
    y = app('bezy', (a, b))
    t = it.T(dest_ty)['f']
    return Agg(dest_ty, 0, [contracts.make(it, st, Num(z), ty) for z, ty in zip((g, x, y), t)])
