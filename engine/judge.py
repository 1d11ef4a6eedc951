"""Runs the abstract interpreter on a public operation and decides its obligations.

Every obligation is a statement about one abstract exit (or panic) state.  It is discharged when it
follows in the abstract domain.  It is reported as violated only when, with all loops unrolled over
operands of few words and nothing joined or widened, some exit state is inhabited by operand values
for which it fails.  Anything else is undecided, counted, and never reported.
"""
import signal
import time
from poly import *
from state import *
from interp import *
from spec import *
import witness
import models

SIZE = 'size limit'


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


BITIDX = {'bit', 'set_bit', 'clear_bit'}


class Case:
    """one way of calling a root: the signs of its IBig operands, fixed small operands"""

    def __init__(self, signs=(), fixed=()):
        self.signs, self.fixed = signs, dict(fixed)

    def __repr__(self):
        s = ''.join('+-'[x] for x in self.signs)
        return (s + ' ' + ' '.join('arg%d=%d' % x for x in self.fixed.items())).strip()


def cases_of(P, fn):
    import modjob
    if modjob.wants(P, fn):
        return modjob.cases(P, fn)
    import parsejob
    if parsejob.wants(P, fn):
        return parsejob.cases(P, fn)
    n = 0
    for t in fn.sig[0]:
        if P.strip_ref(t) == P.t_ibig:
            n += 1
    out = [()]
    for _ in range(n):
        out = [o + (s,) for o in out for s in (0, 1)]
    fixed = [()]
    for i, t in enumerate(fn.sig[0]):
        if bytes_ty(P, t):
            B = P.word_bits // 8
            fixed = [((i, n),) for n in (0, 1, 2, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B - 1, 3 * B, 3 * B + 1)]
    if fn.name == 'pow' and len(fn.sig[0]) == 2 and P.types[fn.sig[0][1]]['k'] == 'uint':
        fixed = [((1, i),) for i in tuple(range(14)) + (16, 21, 31, 32, 33, 63, 64, 65, 100, 127, 128)]
    if len(fn.sig[0]) == 2 and P.types[P.strip_ref(fn.sig[0][1])]['n'] == 'usize' and \
            (fn.name in BITIDX and not fn.impl_trait or fn.name.split('_')[0] in ('shl', 'shr')):
        W = P.word_bits
        fixed += [((1, i),) for i in (0, 1, W - 1, W, W + 1, 2 * W - 1, 2 * W, 2 * W + 1, 3 * W - 1, 3 * W, 3 * W + 1, 4 * W, 5 * W + 3)]
    return [Case(s, f) for s in out for f in fixed]


def bytes_ty(P, ti):
    t = P.types[P.strip_ref(ti)]
    return t['k'] == 'slice' and P.types[t['e']]['n'] == 'u8'


def mk_arg(it, st, ti, name, sign=0, fixed=None):
    """(argument, number or None, type behind references, location behind &mut or None)"""
    P = it.P
    t = it.T(ti)
    loc = None
    inner = P.strip_ref(ti)
    if inner == P.t_ubig or inner == P.t_ibig:
        neg = inner == P.t_ibig and sign
        V = sym('V' + name, 1 if neg else 0)
        it.inputs.add(V.single_atom())
        v = it.big(st, V)
        sem = V
        if inner == P.t_ibig:
            it_ = it.T(P.t_ibig)['v'][0][2]
            fs = [None] * len(it_)
            for i, f in enumerate(it_):
                if i == P.f_sign:
                    fs[i] = Agg(P.t_sign, P.v_neg if sign else P.v_pos, [])
                elif i == P.f_mag:
                    fs[i] = v
                else:
                    fs[i] = it.fresh(st, f[1], name)
            v = Agg(P.t_ibig, 0, fs)
            sem = -V if sign else V
    elif bytes_ty(P, ti):
        bs = [sym('%s%d' % (name, k), 0, 255) for k in range(fixed)]
        it.inputs |= {b.single_atom() for b in bs}
        o = it.obj(st, VecV(it.T(inner)['e'], [(ONE, b) for b in bs]), None)
        return Ref(o, (), (ZERO, C(fixed))), Bytes(bs), inner, None
    else:
        r = it.int_range(inner)
        tt = it.T(inner)
        if r is not None:
            v = sem = C(fixed) if fixed is not None else sym(name, r[0], r[1])
            if fixed is None:
                it.inputs.add(v.single_atom())
        elif tt['k'] == 'bool':
            s = sym(name, 0, 1)
            it.inputs.add(s.single_atom())
            v, sem = ('ne', s), s
        else:
            raise NoSpec('operand of type %s' % tt['n'])
    if t['k'] == 'ref':
        o = it.obj(st, v, inner)
        loc = Loc(o)
        return Ref(o), sem, inner, loc
    return v, sem, inner, None


# ---- values of results ---------------------------------------------------------------------------
class Shape(Exception):
    pass


def num_of(it, s, v, ti, obl):
    """exact number of the value v of type ti; representation obligations are added to obl"""
    P = it.P
    v = it.resolve_enum(s, v)
    if ti == P.t_ubig:
        if not isinstance(v, Agg):
            raise Shape('UBig %r' % (v,))
        r = it.resolve_enum(s, v.fs[0])
        if isinstance(r, SymE):
            if r.tag and r.tag[0] == 'val':
                return r.tag[1]
            raise Shape('unknown representation')
        if not isinstance(r, Agg):
            raise Shape('repr')
        if r.var == P.v_small:
            if not isinstance(r.fs[0], Poly):
                raise Shape('word')
            return r.fs[0]
        b = it.resolve_enum(s, r.fs[0])
        if not isinstance(b, Agg):
            raise Shape('buffer')
        w = None
        for f in b.fs:
            if isinstance(f, VecV):
                w = f
        if w is None:
            raise Shape('words')
        n, val = it.vec_len(w), it.vec_val(w)
        obl.append(('canonical', ('ge', val - pow2((n - 1) * it.W)), 'a multi-word number whose top word is zero'))
        obl.append(('canonical', ('ge', n - 2), 'a one-word number stored as a buffer'))
        return val
    if ti == P.t_ibig:
        if not isinstance(v, Agg):
            raise Shape('IBig %r' % (v,))
        sg = it.resolve_enum(s, v.fs[P.f_sign])
        if isinstance(sg, SymE):
            it.split_enum(s, sg)
        if not isinstance(sg, Agg):
            raise Shape('sign')
        m = num_of(it, s, v.fs[P.f_mag], P.t_ubig, obl)
        if sg.var == P.v_neg:
            obl.append(('negzero', ('ge', m - 1), 'zero with a negative sign'))
            return -m
        return m
    if isinstance(v, Poly):
        return v
    if it.is_bool(v):
        return it.as_int(s, v)
    raise Shape('%s: %r' % (it.T(ti)['n'], type(v).__name__))


def variant(it, s, v):
    v = it.resolve_enum(s, v)
    if isinstance(v, SymE):
        it.split_enum(s, v)
    if not isinstance(v, Agg):
        raise Shape('enum %r' % (v,))
    return it.T(v.ty)['v'][v.var][0], v


def compare(it, s, e, v, ti, obl):
    """obligations for the value v to be what the expectation e says"""
    if isinstance(e, Num):
        x = num_of(it, s, v, ti, obl)
        obl.append(('value', ('eq', x - e.p), 'the result is not the exact one'))
    elif isinstance(e, Cond):
        if not it.is_bool(v):
            raise Shape('bool %r' % (v,))
        if case(s, v):
            obl.append(('value', e.b, 'true returned'))
        else:
            obl.append(('value', bnot(e.b), 'false returned'))
    elif isinstance(e, Ordr):
        n, _ = variant(it, s, v)
        c = {'Less': ('ge', -e.d - 1), 'Equal': ('eq', e.d), 'Greater': ('ge', e.d - 1)}[n]
        obl.append(('value', c, '%s returned' % n))
    elif isinstance(e, Opt):
        n, a = variant(it, s, v)
        obl.append(('value', e.cond if n == 'Some' else bnot(e.cond), '%s returned' % n))
        if n == 'Some' and s.assume(e.cond):
            compare(it, s, e.inner, a.fs[0], it.field_ty(a.ty, a.var, 0), obl)
    elif isinstance(e, Res):
        n, a = variant(it, s, v)
        obl.append(('value', e.cond if n == 'Ok' else bnot(e.cond), '%s returned' % n))
        if n == 'Ok':
            compare(it, s, e.inner, a.fs[0], it.field_ty(a.ty, a.var, 0), obl)
    elif isinstance(e, ByteStr):
        v = it.resolve_enum(s, v)
        if not isinstance(v, VecV):
            raise Shape('bytes')
        n = s.norm(it.vec_len(v))
        lo, hi = s.rng(n)
        if s.const(n) is None:
            if hi - lo > 40:
                raise Shape('length')
            raise Split([lambda c, k=k: c.assume(('eq', n - k)) for k in range(int(lo), int(hi) + 1)])
        n = int(s.const(n))
        runs = [(s.const(k), x) for k, x in v.segs]
        if any(k is None for k, _ in runs):
            raise Shape('runs')
        p, at = ZERO, 0
        for k, x in (runs if e.little else runs[::-1]):
            x = s.norm(x)
            p = p + (x if e.little or k < 2 else models.s_bswap(s, x, C(int(k)))) * (1 << (8 * at))
            at += int(k)
        p = s.norm(p)
        obl.append(('value', ('eq', p - e.p), 'the bytes are not those of the number'))
        obl.append(('value', ('ge', e.p - (1 << (8 * (n - 1)))) if n else ('eq', e.p), 'the byte string is not the shortest one'))
    elif isinstance(e, Tup):
        v = it.resolve_enum(s, v)
        if not isinstance(v, Agg) or len(v.fs) != len(e.xs):
            raise Shape('tuple')
        for i, x in enumerate(e.xs):
            compare(it, s, x, v.fs[i], it.T(ti)['f'][i], obl)
    elif isinstance(e, Chk):
        x = num_of(it, s, v, ti, obl)
        for c in e.f(s, x):
            obl.append(('value', c, 'the result is not the exact one'))
    else:
        raise Shape('expectation')


class Report:
    def __init__(self, root, case):
        self.root, self.case = root, case
        self.obl = {}           # kind -> [discharged, total]
        self.undecided = []
        self.viol = []
        self.exits = self.panics = 0
        self.size_panics = 0
        self.secs = 0
        self.error = None
        self.fns = set()
        self.summaries = 0
        self.must = [0, 0]

    def count(self, kind, ok):
        x = self.obl.setdefault(kind, [0, 0])
        x[1] += 1
        x[0] += bool(ok)


def is_size_panic(p):
    kind, stack, msg, st = p
    return bool(msg and ('too large' in str(msg) or 'too many' in str(msg) or 'capacity overflow' in str(msg))) or \
        any(x.endswith(('number_too_large', 'capacity_overflow', 'handle_alloc_error', 'out_of_memory', 'panic_out_of_memory')) or 'alloc' in kind for x in stack[-1:])


def make_job(P, fn, case):
    import modjob
    import contracts
    if isinstance(case, modjob.MCase):
        return modjob.MJob(P, fn, case)
    import parsejob
    if isinstance(case, parsejob.PCase):
        return parsejob.PJob(P, fn, case)
    return Job(P, fn, case, contracts.for_root(P, fn))


class Job:
    def __init__(self, P, fn, case, contracts, kinds=('value', 'canonical', 'negzero', 'must', 'panic')):
        self.P, self.fn, self.case, self.contracts, self.kinds = P, fn, case, contracts, kinds

    def setup(self, it):
        st = State()
        args, sems, atys, locs = [], [], [], []
        k = 0
        P = self.P
        for i, ti in enumerate(self.fn.sig[0]):
            sg = 0
            if P.strip_ref(ti) == P.t_ibig:
                sg = self.case.signs[k]
                k += 1
            a, sem, inner, loc = mk_arg(it, st, ti, 'abcdefgh'[i], sg, self.case.fixed.get(i))
            args.append(a)
            sems.append(sem)
            atys.append(inner)
            locs.append(loc)
        return st, args, sems, atys, locs

    def obligations(self, it, s, v, sems, atys, locs):
        """[(kind, formula, what)] at an exit"""
        fn = self.fn
        obl = []
        if is_inplace(it, fn):
            out_ty = atys[0]
            if it.T(fn.sig[0][0])['k'] != 'ref':
                raise NoSpec('in place')
            v = it.load(s, locs[0])
        else:
            out_ty = fn.sig[1]
        sp = spec_for(it, s, fn, atys, sems, out_ty)
        if sp.must != FALSE:
            obl.append(('must', bnot(sp.must), 'returned where it has to panic'))
            if sp.out is None or not s.assume(bnot(sp.must)):
                return obl
        compare(it, s, sp.out, v, out_ty, obl)
        return obl

    def allowed(self, it, s, sems, atys, locs):
        fn = self.fn
        out_ty = atys[0] if is_inplace(it, fn) else fn.sig[1]
        sp = spec_for(it, s, fn, atys, sems, out_ty)
        b = sp.must
        if sp.may != FALSE:
            b = sp.may if b == FALSE else ('or', b, sp.may)
        return b

    def exec(self, it, args, st):
        return it.run(self.fn, args, st)

    def prove(self, rep, secs, budget=60000, unroll=0):
        it = Interp(self.P, self.contracts, budget)
        if unroll:
            it.unroll, it.merge = unroll, False
        st, args, sems, atys, locs = self.setup(it)
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(secs)
        t0 = time.time()
        try:
            outs = self.exec(it, args, st)
            rep.exits = len(outs)
            rep.panics = len(it.panics)
            for s, v, *env in outs:
                def f(c, v=v, env=env):
                    try:
                        return self.obligations(it, c, v, sems, atys, locs, *env)
                    except Shape as e:
                        return [('value', None, str(e))]
                for c, obl in it.exec_split(s, f):
                    for kind, b, what in obl:
                        ok = b is not None and c.truth(b) is True
                        rep.count(kind, ok)
                        if not ok:
                            rep.undecided.append((kind, what))
            for p in it.panics:
                if is_size_panic(p):
                    rep.size_panics += 1
                    continue
                for c, b in it.exec_split(p[3], lambda c: self.allowed(it, c, sems, atys, locs)):
                    ok = c.truth(b) is True
                    rep.count('panic', ok)
                    if not ok:
                        rep.undecided.append(('panic', '%s in %s: %s' % (p[0], p[1][-1] if p[1] else '', p[2])))
            if it.unk_calls:
                rep.unknown_calls = dict(it.unk_calls)
        except Timeout:
            rep.error = 'time limit'
        except (Budget, Unsupported, NoSpec, RecursionError) as e:
            rep.error = '%s: %s' % (type(e).__name__, e)
        finally:
            signal.alarm(0)
            rep.secs += time.time() - t0
            rep.fns |= it.analysed
            rep.summaries += getattr(it, 'summaries', 0)
        rep.proved = rep.error is None and not rep.undecided and rep.exits + rep.panics > 0
        return rep

    def refute(self, rep, secs, lens=(2, 3), unroll=8, budget=60000):
        """search for an inhabited exit that breaks an obligation"""
        it = Interp(self.P, self.contracts, budget)
        it.unroll, it.lens, it.merge = unroll, lens, False
        st, args, sems, atys, locs = self.setup(it)
        State.slicing, State.cuts = True, {}
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(secs)
        t0 = time.time()
        rep.refuted = []
        try:
            outs = self.exec(it, args, st)
            rep.r_exits = len(outs)
            for s, v, *env in outs:
                if s.unk:
                    continue
                def f(c, v=v, env=env):
                    try:
                        return self.obligations(it, c, v, sems, atys, locs, *env)
                    except Shape as e:
                        return []
                for c, obl in it.exec_split(s, f):
                    if c.unk:
                        continue
                    for kind, b, what in obl:
                        if c.truth(b) is True:
                            continue
                        w = witness.find(c, bnot(b))
                        if w is not None:
                            rep.viol.append((kind, what, self.show(w, it, c, v)))
            for p in it.panics:
                if p[3].unk or is_size_panic(p) or p[3].lastb is None or self.about_cap(p[3].lastb):
                    continue
                for c, b in it.exec_split(p[3], lambda c: self.allowed(it, c, sems, atys, locs)):
                    if c.unk or c.truth(b) is True:
                        continue
                    w = witness.find(c, bnot(b))
                    if w is not None:
                        rep.viol.append(('panic', 'panics (%s%s) in %s' % (p[0], ': ' + str(p[2]) if p[2] else '', p[1][-1] if p[1] else ''), self.show(w, it, c, None)))
        except Timeout:
            rep.r_error = 'time limit'
        except (Budget, Unsupported, NoSpec, RecursionError) as e:
            rep.r_error = '%s: %s' % (type(e).__name__, e)
        finally:
            signal.alarm(0)
            State.slicing = False
            rep.secs += time.time() - t0
            rep.r_incomplete = it.incomplete
        return rep

    def about_cap(self, b):
        if b is None:
            return True
        if b[0] in ('and', 'or'):
            return self.about_cap(b[1]) or self.about_cap(b[2])
        if len(b) > 1 and isinstance(b[1], Poly):
            return any(a.name == 'cap' for a in b[1].deep)
        return False

    def show(self, w, it, c, v):
        names = {repr(a) for a in it.inputs}
        d = {k: x for k, x in w.items() if k in names}
        vals = witness.Val(c, {a: w[repr(a)] for a in c_atoms(c, w)})
        for a in it.inputs:
            if repr(a) not in d:
                try:
                    d[repr(a)] = vals.atom(a)
                except Exception:
                    pass
        return d


def c_atoms(c, w):
    out = set()
    for a, p in c.sub.items():
        out.add(a)
        out |= p.deep
    for f in c.ge:
        out |= f.deep
    out |= set(c.iv)
    return [a for a in out if repr(a) in w]
