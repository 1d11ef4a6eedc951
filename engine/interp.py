"""Abstract interpreter over the dumped MIR.

Flow- and context-sensitive, with trace partitioning at branches: `run` takes an abstract state at
function entry and returns the abstract states at its normal exits; panics and other divergences are
recorded in `self.panics`.  Loops are solved by widening to a post-fixpoint.  Calls are, in order of
preference: a contract (a summary that is itself checked as a property of the callee), a model of a
std function, the callee's own MIR (analysed in place), or havoc of everything the callee can reach.
"""
import sys
from fractions import Fraction
from poly import *
from state import *
from mir import Program

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


class Loc:
    __slots__ = ('obj', 'path', 'sl')

    def __init__(self, obj, path=(), sl=None):
        self.obj = obj
        self.path = path
        self.sl = sl


class Frame:
    __slots__ = ('fn', 'locs', 'depth', 'site')

    def __init__(self, fn, locs, depth):
        self.fn = fn
        self.locs = locs
        self.depth = depth
        self.site = None


FLOATS = {'f32': 32, 'f64': 64}


class Interp:
    def __init__(self, prog, contracts=None, budget=200000):
        self.P = prog
        self.W = prog.word_bits
        self.PB = prog.ptr_bits
        self.contracts = contracts or []
        self.panics = []
        self.events = []
        self.stack = []
        self.unk_calls = {}
        self.analysed = set()
        self.steps = 0
        self.budget = budget
        self.obj_ty = {}
        self.max_len = (1 << self.PB) // self.W
        import models
        self.models = models.table(self)
        self.model_pred = models.pred_table(self)
        self._cc = {}
        self.on_stmt = None
        self.use_induct = True
        self.merge = True
        self.debug = False
        self.induct_fail = []
        self.inline_filter = None
        self.unroll = 0             # instead of summarising loops: follow this many iterations
        self.lens = (2, 3)
        self.inputs = set()
        self.incomplete = 0

    # ---- types ---------------------------------------------------------------------------
    def T(self, i):
        return self.P.types[i]

    def discr(self, v, ti):
        return C(self.signed(self.T(v.ty)['v'][v.var][1], ti))

    def signed(self, d, ti):
        t = self.T(ti)
        if t['k'] == 'int' and d >> (t['bits'] - 1) & 1 and d > 0:
            d -= 1 << t['bits']
        return d

    def int_range(self, ti):
        t = self.T(ti)
        k = t['k']
        if k == 'uint':
            return 0, (1 << t['bits']) - 1
        if k == 'int':
            return -(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1
        if k == 'char':
            return 0, 0x10ffff
        return None

    def obj(self, st, v, ty=None):
        o = st.new_obj(v)
        if ty is not None:
            self.obj_ty[o] = ty
        return o

    # ---- unknown values --------------------------------------------------------------------
    EXPAND = {'std::ops::Range', 'std::ops::RangeInclusive', 'std::ops::RangeFrom', 'std::ops::RangeTo',
              'std::ops::RangeFull', 'std::marker::PhantomData'}

    def fresh(self, st, ti, name='x', unk=False, depth=0):
        t = self.T(ti)
        k = t['k']
        r = self.int_range(ti)
        if r is not None:
            return sym(name, r[0], r[1], unk)
        if k == 'bool':
            return ('ne', sym(name, 0, 1, unk))
        if ti == self.P.t_ubig:
            return self.big(st, sym('V' + name, 0, INF, unk))
        if ti == self.P.t_repr:
            return self.big(st, sym('V' + name, 0, INF, unk)).fs[0]
        if k == 'tuple':
            return Agg(ti, 0, [self.fresh(st, f, '%s.%d' % (name, i), unk, depth + 1) for i, f in enumerate(t['f'])])
        if k == 'closure':
            return Agg(ti, 0, [self.fresh(st, f, '%s.%d' % (name, i), unk, depth + 1) for i, f in enumerate(t['f'])])
        if k == 'fndef':
            return FnV(ti)
        if self.P.is_word_vec(ti):
            return self.fresh_vec(st, t['args'][0], name, unk)
        if k == 'struct':
            if (t.get('local') or t.get('def') in self.EXPAND) and depth < 12:
                return Agg(ti, 0, [self.fresh(st, f[1], name + '.' + f[0], unk, depth + 1) for f in t['v'][0][2]])
            return Opq(ti)
        if k == 'enum':
            if len(t['v']) == 1:
                return Agg(ti, 0, [self.fresh(st, f[1], name + '.' + f[0], unk, depth + 1) for f in t['v'][0][2]])
            return SymE(ti, new_uid(), ('unk',) if unk else None)
        if k in ('ref', 'ptr'):
            e = self.T(t['e'])
            if k == 'ptr':
                return Opq(ti)
            if e['k'] == 'slice':
                if self.T(e['e'])['k'] == 'uint':
                    v = self.fresh_vec(st, e['e'], name, unk, slice_=True)
                    o = self.obj(st, v, None)
                    return Ref(o, (), (ZERO, v.segs[0][0]))
                return Ref(self.obj(st, Opq(t['e']), t['e']), (), (ZERO, sym(name + '.len', 0, (1 << (self.PB - 1)) - 1, unk)))
            if e['k'] == 'str':
                return Ref(self.obj(st, StrV(), None))
            if e['k'] == 'array' and self.T(e['e'])['k'] == 'uint' and e.get('len') is not None:
                return Ref(self.obj(st, self.fresh(st, t['e'], name, unk, depth + 1), t['e']))
            if depth < 10:
                return Ref(self.obj(st, self.fresh(st, t['e'], '*' + name, unk, depth + 1), t['e']))
            return Opq(ti)
        if k == 'array':
            n = t.get('len')
            e = self.T(t['e'])
            if e['k'] == 'uint' and n is not None:
                return VecV(t['e'], [(C(n), sym(name, 0, (1 << (n * e['bits'])) - 1, unk))])
            if n is not None and n <= 40:
                return Agg(ti, 0, [self.fresh(st, t['e'], '%s[%d]' % (name, i), unk, depth + 1) for i in range(n)])
            return Opq(ti)
        return Opq(ti)

    def fresh_vec(self, st, ety, name='v', unk=False, slice_=False):
        L = sym(name + '.len', 0, (1 << (self.PB - 1)) - 1, unk)
        V = sym(name + '.val', 0, INF, unk)
        b = self.T(ety)['bits']
        st.assume(('ge', pow2(L * b) - V - 1))
        return VecV(ety, [(L, V)], None if slice_ else sym(name + '.cap', 0, INF, unk))

    def big(self, st, p):
        """an UBig whose value is the Poly p, its representation not yet known"""
        P = self.P
        return Agg(P.t_ubig, 0, [SymE(P.t_repr, new_uid(), ('val', p))])

    # ---- enum case distinction -----------------------------------------------------------
    def resolve_enum(self, st, v):
        while isinstance(v, SymE):
            w = st.var.get(v.uid)
            if w is None:
                return v
            v = w
        return v

    def split_enum(self, st, v):
        """raise Split over the variants of the unresolved enum v"""
        t = self.T(v.ty)
        alts = []
        for i, var in enumerate(t['v']):
            if self.unroll and v.ty == self.P.t_repr and v.tag and v.tag[0] == 'val' and i != self.P.v_small:
                for n in self.lens:
                    def alt(s, i=i, n=n):
                        return self.expand_variant(s, v, i, n)
                    alts.append(alt)
                if v.tag[1].single_atom() is None or v.tag[1].single_atom() not in self.inputs:
                    def alt(s, i=i):
                        return s.assume(('ge', v.tag[1] - (1 << (self.W * self.lens[-1])))) and self.expand_variant(s, v, i)
                    alts.append(alt)
                continue

            def alt(s, i=i, var=var):
                return self.expand_variant(s, v, i)
            alts.append(alt)
        raise Split(alts)

    def expand_variant(self, s, v, i, fixed=None):
        t = self.T(v.ty)
        var = t['v'][i]
        P = self.P
        unk = v.tag == ('unk',)
        if unk:
            s.unk = True
        for f in var[2]:
            if self.T(f[1])['k'] == 'never':
                return False
        if v.ty == P.t_repr and v.tag and v.tag[0] == 'val':
            p = v.tag[1]
            if i == P.v_small:
                w = s.norm(p)
                hi = (1 << self.W) - 1
                if not s.assume(('ge', p)) or not s.assume(('ge', C(hi) - p)):
                    return False
                sa = s.norm(p).single_atom()
                s.var[v.uid] = Agg(v.ty, i, [s.norm(p)])
                return True
            if not s.assume(('ge', p - (1 << self.W))):
                return False
            if fixed is not None:
                W = self.W
                if not s.assume(('ge', p - (1 << W * (fixed - 1)))) or not s.assume(('ge', C((1 << W * fixed) - 1) - p)):
                    return False
                words, rest = [], s.norm(p)
                for j in range(fixed - 1):
                    lo, rest = split_val(s, rest, C(W))
                    words.append(lo)
                words.append(rest)
                if not s.assume(('ge', rest - 1)) or not s.assume(('ge', C((1 << W) - 1) - rest)):
                    return False
                cap = sym('cap', fixed, (1 << self.PB) - 1)
                fs = []
                for f in self.T(P.t_buffer)['v'][0][2]:
                    if P.is_word_vec(f[1]):
                        fs.append(VecV(P.t_word, [(ONE, s.norm(x)) for x in words], cap))
                    else:
                        fs.append(self.fresh(s, f[1], f[0]))
                s.var[v.uid] = Agg(v.ty, i, [Agg(P.t_buffer, 0, fs)])
                return True
            L = sym('len', 2, self.max_len, p.unk)
            cap = sym('cap', 2, (1 << self.PB) - 1)
            s.assume(('ge', cap - L))
            R = sym('R', 0, INF, p.unk)
            t_ = sym('top', 1, (1 << self.W) - 1, p.unk)
            if not s.assume(('ge', pow2((L - 1) * self.W) - R - 1)):
                return False
            if not s.assume(('eq', p - R - pow2((L - 1) * self.W) * t_)):
                return False
            bt = self.T(P.t_buffer)
            fs = []
            for f in bt['v'][0][2]:
                if P.is_word_vec(f[1]):
                    fs.append(VecV(P.t_word, [(L - 1, R), (ONE, t_)], cap))
                else:
                    fs.append(self.fresh(s, f[1], f[0]))
            s.var[v.uid] = Agg(v.ty, i, [Agg(P.t_buffer, 0, fs)])
            return True
        s.var[v.uid] = Agg(v.ty, i, [self.fresh(s, f[1], '%s.%s' % (var[0], f[0]), unk) for f in var[2]])
        return True

    # ---- memory ----------------------------------------------------------------------------
    def step_read(self, st, v, step, ty_hint=None):
        v = self.resolve_enum(st, v)
        if isinstance(step, int):
            if isinstance(v, Agg):
                if step < len(v.fs):
                    return v.fs[step]
                return Opq(ty_hint if ty_hint is not None else 0)
            if isinstance(v, SymE):
                self.split_enum(st, v)
            if isinstance(v, It):
                return Opq(ty_hint if ty_hint is not None else 0)
            if ty_hint is not None:
                return self.fresh(st, ty_hint, 'f', True)
            return Opq(0)
        kind = step[0]
        if kind == 'e':
            idx = step[1]
            if isinstance(v, VecV):
                return self.vec_get(st, v, idx)
            if isinstance(v, Agg):
                c = st.const(idx)
                if c is not None and 0 <= c < len(v.fs):
                    return v.fs[c]
            if ty_hint is not None:
                return self.fresh(st, ty_hint, 'elem', True)
            return Opq(0)
        raise Unsupported(step)

    def load(self, st, loc, ty=None):
        v = st.heap.get(loc.obj, UNINIT)
        n = len(loc.path)
        for i, s in enumerate(loc.path):
            v = self.step_read(st, v, s, ty if i == n - 1 else None)
        v = self.resolve_enum(st, v)
        return v

    def store(self, st, loc, v):
        st.heap[loc.obj] = self._put(st, st.heap.get(loc.obj, UNINIT), loc.path, v, self.obj_ty.get(loc.obj))

    def _put(self, st, cur, path, v, ty):
        if not path:
            return v
        s = path[0]
        cur = self.resolve_enum(st, cur)
        if isinstance(s, int):
            if isinstance(cur, SymE):
                self.split_enum(st, cur)
            if isinstance(cur, Agg):
                if s >= len(cur.fs):
                    return cur
                ft = self.field_ty(cur.ty, cur.var, s)
                return cur.with_field(s, self._put(st, cur.fs[s], path[1:], v, ft))
            if cur is UNINIT and ty is not None:
                t = self.T(ty)
                n = None
                if t['k'] in ('struct',):
                    n = len(t['v'][0][2])
                elif t['k'] in ('tuple', 'closure'):
                    n = len(t['f'])
                if n is not None:
                    fs = [UNINIT] * n
                    ft = self.field_ty(ty, 0, s)
                    fs[s] = self._put(st, UNINIT, path[1:], v, ft)
                    return Agg(ty, 0, fs)
            if isinstance(cur, Opq) and cur.ty:
                t = self.T(cur.ty)
                if t['k'] == 'struct' and s < len(t['v'][0][2]):
                    fs = [self.fresh(st, f[1], f[0], True) for f in t['v'][0][2]]
                    fs[s] = self._put(st, fs[s], path[1:], v, t['v'][0][2][s][1])
                    return Agg(cur.ty, 0, fs)
            return cur if not isinstance(cur, Uninit) else Opq(ty or 0)
        if s[0] == 'e':
            if isinstance(cur, VecV):
                if len(path) == 1:
                    return self.vec_set(st, cur, s[1], v)
                raise Unsupported('nested vec elem')
            if isinstance(cur, Agg):
                c = st.const(s[1])
                if c is not None and 0 <= c < len(cur.fs):
                    return cur.with_field(c, self._put(st, cur.fs[c], path[1:], v, None))
                # unknown index: every element may have changed
                et = self.T(cur.ty).get('e')
                return Agg(cur.ty, cur.var, [self.fresh(st, et, 'e', True) for _ in cur.fs]) if et is not None else Opq(cur.ty)
            return cur if not isinstance(cur, Uninit) else Opq(ty or 0)
        raise Unsupported(s)

    def field_ty(self, ty, var, i):
        t = self.T(ty)
        if t['k'] in ('struct', 'enum', 'union'):
            fs = t['v'][var][2]
            return fs[i][1] if i < len(fs) else None
        if t['k'] in ('tuple', 'closure'):
            return t['f'][i] if i < len(t['f']) else None
        if t['k'] == 'array':
            return t['e']
        return None

    # ---- vectors ---------------------------------------------------------------------------
    def vbits(self, v):
        return self.T(v.ety)['bits']

    def vec_len(self, v):
        p = ZERO
        for l, _ in v.segs:
            p = p + l
        return p

    def vec_val(self, v):
        p, off = ZERO, ZERO
        b = self.vbits(v)
        for l, x in v.segs:
            p = p + x * pow2(off * b)
            off = off + l
        return p

    def vec_cut(self, st, v, pos):
        """(v', k): v' has a segment boundary at pos, before segment k"""
        pos = st.norm(pos)
        b = self.vbits(v)
        off = ZERO
        segs = v.segs
        for k in range(len(segs) + 1):
            d = st.norm(pos - off)
            if not d.t or st.const(d) == 0:
                # skip past empty segments is not needed
                return v, k
            if k == len(segs):
                break
            end = off + segs[k][0]
            d2 = st.norm(pos - end)
            if not d2.t or st.const(d2) == 0:
                return v, k + 1
            if not st.prove_ge0(-d2):
                if not st.prove_ge0(d2):
                    raise Split([lambda s, c=('ge', pos - end): s.assume(c), lambda s, c=('ge', end - pos - 1): s.assume(c)])
                off = end
                continue
            if not st.prove_ge0(d):
                raise Split([lambda s, c=('ge', pos - off): s.assume(c), lambda s, c=('ge', off - pos - 1): s.assume(c)])
            l, x = segs[k]
            if st.const(d) is None:
                lo, hi = st.rng(d)
                if hi - lo <= 4:
                    raise Split([lambda s, c=('ge', d - lo - 1): s.assume(c), lambda s, c=('ge', lo - d): s.assume(c)])
            lo, hi = split_val(st, x, st.norm(d * b))
            n = st.norm(l - d)
            # the high part is below 2^(b*n)
            nc = n.cval()
            if not st.prove_ge0(pow2(n * b) - hi - 1):
                if not st.assume(('ge', pow2(n * b) - hi - 1)):
                    raise Infeasible()
            elif nc is None and hi.cval() is None:
                # provable, but worth having on its own
                f = st.norm(pow2(n * b) - hi - 1)
                if f not in st.ge:
                    st.ge = st.ge + (f,)
            if not st.prove_ge0(hi) and not st.assume(('ge', hi)):
                raise Infeasible()
            return VecV(v.ety, segs[:k] + ((d, lo), (n, hi)) + segs[k + 1:], v.cap), k + 1
        # beyond the end
        raise Infeasible()

    def vec_range(self, st, v, start, ln):
        v, i = self.vec_cut(st, v, start)
        v, j = self.vec_cut(st, v, start + ln)
        v, i = self.vec_cut(st, v, start)
        return v, i, j

    def vec_get(self, st, v, idx):
        """value of the element at idx; does not change the vector"""
        t = st.truth(('ge', self.vec_len(v) - idx - 1))
        if t is False:
            raise Infeasible()
        v2, i, j = self.vec_range(st, v, idx, ONE)
        p, off = ZERO, ZERO
        b = self.vbits(v)
        for l, x in v2.segs[i:j]:
            p = p + x * pow2(off * b)
            off = off + l
        return st.norm(p)

    def vec_set(self, st, v, idx, x):
        v2, i, j = self.vec_range(st, v, idx, ONE)
        if not isinstance(x, Poly):
            x = self.fresh(st, v.ety, 'e', True)
        return VecV(v.ety, v2.segs[:i] + ((ONE, x),) + v2.segs[j:], v.cap)

    def sl_get(self, st, ref):
        """(len, val) of the words a slice reference denotes, or None when not a tracked vector"""
        v = self.load(st, Loc(ref.obj, ref.path))
        if not isinstance(v, VecV):
            return None
        start, ln = ref.sl if ref.sl is not None else (ZERO, self.vec_len(v))
        v2, i, j = self.vec_range(st, v, start, ln)
        b = self.vbits(v)
        p, off = ZERO, ZERO
        for l, x in v2.segs[i:j]:
            p = p + x * pow2(off * b)
            off = off + l
        if v2 is not v:
            self.store(st, Loc(ref.obj, ref.path), v2)
        return st.norm(ln), st.norm(p)

    def sl_set(self, st, ref, val):
        v = self.load(st, Loc(ref.obj, ref.path))
        start, ln = ref.sl if ref.sl is not None else (ZERO, self.vec_len(v))
        v2, i, j = self.vec_range(st, v, start, ln)
        self.store(st, Loc(ref.obj, ref.path), VecV(v.ety, v2.segs[:i] + ((st.norm(ln), val),) + v2.segs[j:], v.cap))

    # ---- places ----------------------------------------------------------------------------
    def place(self, st, fr, pl):
        o = fr.locs[pl[0]]
        loc = Loc(o)
        for e in pl[1]:
            k = e[0]
            if k == 'd':
                v = self.load(st, loc)
                loc = self.deref(st, v, e[1], loc)
            elif k == 'f':
                loc = Loc(loc.obj, loc.path + (e[2],))
            elif k == 'dc':
                v = self.load(st, loc)
                if isinstance(v, SymE):
                    self.split_enum(st, v)
            elif k == 'i':
                idx = self.load(st, Loc(fr.locs[e[2]]))
                loc = self.index(st, loc, idx)
            elif k == 'ci':
                idx = C(e[2])
                if e[3]:
                    n = self.len_of(st, loc)
                    idx = n - e[2]
                loc = self.index(st, loc, idx)
            elif k == 'ss':
                n = self.len_of(st, loc)
                start = C(e[2])
                ln = n - e[2] - e[3] if e[4] else C(e[3] - e[2])
                base = loc.sl[0] if loc.sl else ZERO
                loc = Loc(loc.obj, loc.path, (base + start, ln))
            else:
                raise Unsupported('projection %s' % k)
        return loc

    def deref(self, st, v, ety, loc):
        if isinstance(v, Ref):
            return Loc(v.obj, v.path, v.sl)
        if isinstance(v, (Opq, Uninit, SymE)) or v is None:
            nv = self.fresh(st, ety, 'deref', True)
            t = self.T(ety)
            o = self.obj(st, nv, ety)
            r = Ref(o)
            try:
                self.store(st, loc, r)
            except Unsupported:
                pass
            return Loc(o)
        if isinstance(v, Agg) and self.T(v.ty).get('def') == 'std::boxed::Box':
            raise Unsupported('box')
        raise Unsupported('deref of %r' % (v,))

    def index(self, st, loc, idx):
        base = loc.sl[0] if loc.sl else ZERO
        return Loc(loc.obj, loc.path + (('e', st.norm(base + idx)),))

    def len_of(self, st, loc):
        if loc.sl is not None:
            return loc.sl[1]
        v = self.load(st, loc)
        if isinstance(v, VecV):
            return self.vec_len(v)
        if isinstance(v, Agg) and self.T(v.ty)['k'] == 'array':
            return C(len(v.fs))
        if isinstance(v, Opq) and v.ty and self.T(v.ty).get('len') is not None:
            return C(self.T(v.ty)['len'])
        return sym('len', 0, (1 << (self.PB - 1)) - 1, True)

    def operand(self, st, fr, op):
        k = op[0]
        if k in ('cp', 'mv'):
            loc = self.place(st, fr, op[1])
            v = self.load(st, loc, op[1][2])
            if v is UNINIT:
                t = self.T(op[1][2])
                v = self.zst(op[1][2])
                if v is None:
                    v = self.fresh(st, op[1][2], 'u', True)
                    self.store(st, loc, v)
            return v
        if k == 'k':
            return self.const_val(st, op[1])
        if k == 'rc':
            return FALSE
        raise Unsupported(k)

    def zst(self, ti):
        t = self.T(ti)
        k = t['k']
        if k in ('tuple', 'closure'):
            fs = [self.zst(f) for f in t['f']]
            return None if any(f is None for f in fs) else Agg(ti, 0, fs)
        if k == 'struct':
            fs = [self.zst(f[1]) for f in t['v'][0][2]]
            return None if any(f is None for f in fs) else Agg(ti, 0, fs)
        if k == 'fndef':
            return FnV(ti)
        return None

    def const_val(self, st, c):
        ti = c['t']
        t = self.T(ti)
        if t['k'] == 'fndef':
            return FnV(ti)
        v = c.get('v')
        r = self.const_tree(st, v, ti)
        if isinstance(r, Opq) and c.get('name'):
            r = Opq(ti, tag=c['name'])
        return r

    def const_tree(self, st, v, ti):
        t = self.T(ti)
        if v is None:
            return self.fresh(st, ti, 'const', True)
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return C(v)
        if t['k'] == 'float' and 'scalaragg' in v:
            return C(v['scalaragg'])
        if 'zst' in v:
            z = self.zst(ti)
            return z if z is not None else Opq(ti)
        if 'str' in v:
            return Ref(self.obj(st, StrV(v['str'])))
        if 'arr' in v:
            et = t['e']
            xs = [self.const_tree(st, x, et) for x in v['arr']]
            if self.T(et)['k'] == 'uint' and all(isinstance(x, Poly) for x in xs):
                return VecV(et, [(ONE, x) for x in xs])
            return Agg(ti, 0, xs)
        if 'agg' in v:
            var = v['var']
            if t['k'] == 'tuple':
                fts = t['f']
            elif t['k'] in ('struct', 'enum'):
                fts = [f[1] for f in t['v'][var][2]]
            else:
                return Opq(ti)
            return Agg(ti, var, [self.const_tree(st, x, f) for x, f in zip(v['agg'], fts)])
        if 'scalaragg' in v:
            if t['k'] == 'enum':
                var = v.get('var', 0)
                fts = [f[1] for f in t['v'][var][2]]
                if len(fts) == 1 and self.int_range(fts[0]):
                    return Agg(ti, var, [C(v['scalaragg'])])
                return SymE(ti, new_uid())
            if t['k'] == 'struct':
                fts = [f[1] for f in t['v'][0][2]]
                out = []
                used = False
                for f in fts:
                    z = self.zst(f)
                    if z is not None:
                        out.append(z)
                    elif not used:
                        used = True
                        if self.int_range(f):
                            x = v['scalaragg']
                            lo, hi = self.int_range(f)
                            if x > hi:
                                x -= hi - lo + 1
                            out.append(C(x))
                        else:
                            out.append(self.const_tree(st, v, f))
                    else:
                        return Opq(ti)
                return Agg(ti, 0, out)
            return Opq(ti)
        if 'ref' in v:
            et = t.get('e')
            if et is None:
                return Opq(ti)
            e = self.T(et)
            x = v['ref']
            if e['k'] == 'slice' and isinstance(x, dict) and 'arr' in x:
                xs = [self.const_tree(st, y, e['e']) for y in x['arr']]
                if self.T(e['e'])['k'] == 'uint' and all(isinstance(y, Poly) for y in xs):
                    val = VecV(e['e'], [(ONE, y) for y in xs])
                else:
                    val = Agg(et, 0, xs)
                return Ref(self.obj(st, val), (), (ZERO, C(len(xs))))
            return Ref(self.obj(st, self.const_tree(st, x, et), et))
        if 'static' in v:
            key = ('static', v['static'])
            if key not in st.heap:
                init = [x for x in self.P.statics if x['path'] == v['static'] and x.get('v') is not None]
                st.heap[key] = self.const_tree(st, init[0]['v'], init[0]['ty']) if init else self.fresh(st, t['e'], v['static'])
                self.obj_ty[key] = t['e']
            return Ref(key)
        if 'fnp' in v:
            return ('fnp', v['fnp'])
        return Opq(ti)

    # ---- arithmetic --------------------------------------------------------------------------
    def wrap(self, st, p, ti):
        lo, hi = self.int_range(ti)
        p = st.norm(p)
        l, h = st.interval(p)
        if l >= lo and h <= hi:
            return p
        if (l >= lo or st.prove_ge0(p - lo)) and (h <= hi or st.prove_ge0(C(hi) - p)):
            return p
        n = C(hi - lo + 1)
        if lo == 0:
            return s_mod(st, p, n)
        p = st.norm(p - lo)
        l, h = st.interval(p)
        n = n.cval()
        if l > -INF and h < INF and h // n - l // n <= 2:
            def cut(k):
                return lambda s: s.assume(('ge', p - k * n)) and s.assume(('ge', C((k + 1) * n - 1) - p))
            for k in range(l // n, h // n + 1):
                if st.prove_ge0(p - k * n) and st.prove_ge0(C((k + 1) * n - 1) - p):
                    return p - k * n + lo
            raise Split([cut(k) for k in range(l // n, h // n + 1)])
        return s_mod(st, p, C(n)) + lo

    def b2i(self, st, b):
        t = st.truth(b)
        if t is not None:
            return ONE if t else ZERO
        if b[0] in ('ne', 'eq'):
            p = st.norm(b[1])
            l, h = st.interval(p)
            if l >= 0 and h <= 1:
                return p if b[0] == 'ne' else ONE - p
            if l >= -1 and h <= 0:
                return -p if b[0] == 'ne' else ONE + p
        raise Split([lambda s: s.assume(b), lambda s: s.assume(bnot(b))])

    def as_int(self, st, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, tuple) and v and v[0] in ('c', 'ge', 'eq', 'ne', 'and', 'or', 'sym', 'nsym'):
            return self.b2i(st, v)
        raise Unsupported('int expected: %r' % (v,))

    def is_bool(self, v):
        return isinstance(v, tuple) and v and v[0] in ('c', 'ge', 'eq', 'ne', 'and', 'or', 'sym', 'nsym')

    def binop(self, st, op, a, b, ta, tres):
        P = self.P
        if self.is_bool(a) and self.is_bool(b):
            if op == 'BitAnd':
                t = st.truth(('and', a, b))
                return ('c', t) if t is not None else ('and', a, b)
            if op == 'BitOr':
                t = st.truth(('or', a, b))
                return ('c', t) if t is not None else ('or', a, b)
            x, y = st.truth(a), st.truth(b)
            if op in ('BitXor', 'Ne', 'Eq'):
                if x is not None:
                    a, b, x, y = b, a, y, x
                if y is not None:
                    flip = y if op != 'Eq' else not y
                    return bnot(a) if flip else a
                if a == b:
                    return ('c', op == 'Eq')
                raise Split([lambda s: s.assume(b), lambda s: s.assume(bnot(b))])
            a, b = self.b2i(st, a), self.b2i(st, b)
        if op in ('Eq', 'Ne') and not (isinstance(a, Poly) and isinstance(b, Poly)):
            r = self.ref_eq(st, a, b)
            return r if op == 'Eq' else bnot(r)
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            if tres is not None:
                return self.fresh(st, tres, 'op', True)
            raise Unsupported('binop %s %r %r' % (op, a, b))
        if op == 'Eq':
            return ('eq', st.norm(a - b))
        if op == 'Ne':
            return ('ne', st.norm(a - b))
        if op == 'Lt':
            return ('ge', b - a - 1)
        if op == 'Le':
            return ('ge', b - a)
        if op == 'Gt':
            return ('ge', a - b - 1)
        if op == 'Ge':
            return ('ge', a - b)
        if op == 'Cmp':
            # Ordering: Less, Equal, Greater
            lt, eq = st.truth(('ge', b - a - 1)), st.truth(('eq', a - b))
            if eq is True:
                return Agg(tres, 1, [])
            if lt is True:
                return Agg(tres, 0, [])
            if st.truth(('ge', a - b - 1)) is True:
                return Agg(tres, 2, [])
            raise Split([lambda s: s.assume(('ge', b - a - 1)), lambda s: s.assume(('eq', a - b)), lambda s: s.assume(('ge', a - b - 1))])
        base = op.replace('Unchecked', '').replace('WithOverflow', '')
        if op.endswith('WithOverflow'):
            p = self.raw_arith(st, base, a, b, ta)
            w = self.wrap(st, p, ta)
            lo, hi = self.int_range(ta)
            if w is st.norm(p):
                ov = FALSE
            elif lo == 0:
                n = C(hi + 1)
                q = s_div(st, p, n)
                ov = ('ne', q)
            else:
                ov = ('or', ('ge', p - hi - 1), ('ge', C(lo) - p - 1))
            return Agg(tres, 0, [w, ov])
        if op.endswith('Unchecked') and base in ('Add', 'Sub', 'Mul'):
            p = self.raw_arith(st, base, a, b, ta)
            lo, hi = self.int_range(ta)
            if not st.assume(('ge', p - lo)) or not st.assume(('ge', C(hi) - p)):
                raise Infeasible()
            return st.norm(p)
        if base == 'Mul' and self.T(ta).get('bits', 0) >= 2 * self.W and self.int_range(ta)[0] == 0:
            # two words: the double word cannot overflow
            top = (1 << self.W) - 1
            for x in (a, b):
                h = st.interval(st.norm(x))[1]
                if h > top and not st.prove_ge0(C(top) - x):
                    break
            else:
                return st.norm(self.raw_arith(st, base, a, b, ta))
        if base in ('Add', 'Sub', 'Mul'):
            return self.wrap(st, self.raw_arith(st, base, a, b, ta), ta)
        t = self.T(ta)
        bits = t.get('bits', 32)
        if base in ('Div', 'Rem'):
            la, _ = st.rng(a)
            lb, _ = st.rng(b)
            r = self.int_range(ta)
            if (la >= 0 and lb >= 0) or (r is not None and r[0] == 0):
                if st.const(b) == 0:
                    raise Infeasible()
                return s_div(st, a, b) if base == 'Div' else s_mod(st, a, b)
            ca, cb = st.const(a), st.const(b)
            if ca is not None and cb:
                q = abs(ca) // abs(cb)
                if (ca < 0) != (cb < 0):
                    q = -q
                return C(q) if base == 'Div' else C(ca - q * cb)
            return self.fresh(st, ta, 'sdiv', True)
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            la, _ = st.rng(a)
            lb, _ = st.rng(b)
            r = self.int_range(ta)
            if (la < 0 or lb < 0) and not (r is not None and r[0] == 0):
                ca, cb = st.const(a), st.const(b)
                if ca is not None and cb is not None:
                    return C({'BitAnd': ca & cb, 'BitOr': ca | cb, 'BitXor': ca ^ cb}[base])
                return self.fresh(st, ta, 'bit', True)
            x = s_and(st, a, b)
            if base == 'BitAnd':
                return x
            if base == 'BitOr':
                return st.norm(a + b - x)
            return st.norm(a + b - x * 2)
        if base == 'Shl':
            n = self.shift_amount(st, b, bits)
            return self.wrap(st, a * pow2(n), ta)
        if base == 'Shr':
            n = self.shift_amount(st, b, bits)
            return s_div(st, a, pow2(n))
        raise Unsupported('binop ' + op)

    def shift_amount(self, st, b, bits):
        l, h = st.rng(b)
        if l >= 0 and h < bits:
            return st.norm(b)
        if l >= 0 and st.prove_ge0(C(bits - 1) - b):
            return st.norm(b)
        return s_mod(st, b, C(bits))

    def raw_arith(self, st, base, a, b, ta):
        if base == 'Add':
            return a + b
        if base == 'Sub':
            return a - b
        return a * b

    def ref_eq(self, st, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.obj == b.obj and a.path == b.path and a.sl == b.sl:
                return TRUE
            if a.obj == b.obj and a.path == b.path and a.sl and b.sl:
                return ('and', ('eq', a.sl[0] - b.sl[0]), ('eq', a.sl[1] - b.sl[1]))
            d = st.extra.get('distinct', ())
            if a.obj != b.obj and frozenset((a.obj, b.obj)) in d:
                return FALSE
            return ('ne', sym('ptreq', 0, 1, True))
        return ('ne', sym('eq', 0, 1, True))

    def unop(self, st, op, a, ti):
        if op == 'Neg' and self.T(ti)['k'] == 'float' and isinstance(a, Poly):      # floats are their bit patterns
            w = FLOATS[self.T(ti)['n']]
            return s_mod(st, a + C(1 << (w - 1)), C(1 << w))
        if op == 'Not':
            if self.is_bool(a):
                return bnot(a)
            lo, hi = self.int_range(ti)
            if lo == 0:
                return C(hi) - a
            return -a - 1
        if op == 'Neg':
            return self.wrap(st, -a, ti)
        if op == 'PtrMetadata':
            if isinstance(a, Ref):
                if a.sl is not None:
                    return a.sl[1]
                return self.len_of(st, Loc(a.obj, a.path))
            return self.fresh(st, ti, 'meta', True)
        raise Unsupported('unop ' + op)

    def cast(self, st, kind, v, tfrom, tto):
        t = self.T(tto)
        if t['k'] == 'float' and isinstance(v, Poly):
            if kind.startswith('Transmute'):
                return v
            if kind.startswith('IntToFloat'):
                return app('tofloat', (st.norm(v), C(FLOATS[t['n']])), 0, (1 << FLOATS[t['n']]) - 1)
        if kind.startswith('IntToInt') or kind.startswith('Transmute'):
            if self.int_range(tto) is not None and (isinstance(v, Poly) or self.is_bool(v)):
                return self.wrap(st, self.as_int(st, v), tto)
            if t['k'] == 'bool' and isinstance(v, Poly):
                return ('ne', v)
            if isinstance(v, Ref):
                return v
            if isinstance(v, Agg):
                # a transparent wrapper
                w = v
                while isinstance(w, Agg) and w.ty != tto:
                    fs = [f for f in w.fs if not (isinstance(f, (Agg,)) and self.zst(f.ty) is not None)]
                    if len(fs) != 1:
                        break
                    w = fs[0]
                if isinstance(w, Agg) and w.ty == tto:
                    return w
                if isinstance(w, Poly) and self.int_range(tto) is not None:
                    return self.wrap(st, w, tto)
                if self.T(v.ty)['k'] == 'enum' and not v.fs and self.int_range(tto) is not None:
                    return self.discr(v, tto)
            if isinstance(v, VecV) and t['k'] == 'array':
                return VecV(t['e'], [(C(t['len']), self.vec_val(v))])
            if isinstance(v, VecV) and self.int_range(tto) is not None:
                return st.norm(self.vec_val(v))
            if isinstance(v, Poly) and t['k'] == 'array' and self.T(t['e'])['k'] == 'uint':
                return VecV(t['e'], [(C(t['len']), v)])
            return self.fresh(st, tto, 'tr', True)
        if kind.startswith('PointerCoercion(Unsize'):
            if isinstance(v, Ref):
                src = self.T(self.T(tfrom)['e']) if 'e' in self.T(tfrom) else None
                if src is not None and src['k'] == 'array' and v.sl is None:
                    return Ref(v.obj, v.path, (ZERO, C(src['len'])))
                return v
            return Opq(tto)
        if kind.startswith('PtrToPtr') and isinstance(v, Ref):
            return self.ptr_cast(st, v, tfrom, tto)
        if kind.startswith('PtrToPtr') or kind.startswith('PointerCoercion(MutToConst') or kind.startswith('Subtype') or kind.startswith('BoxDeref'):
            return v
        if kind.startswith('PointerCoercion(Reify') or kind.startswith('PointerCoercion(Closure') or kind.startswith('PointerCoercion(Unsafe'):
            return v
        return self.fresh(st, tto, 'cast', True)

    def ptr_cast(self, st, v, tfrom, tto):
        a, b = self.T(tfrom).get('e'), self.T(tto).get('e')
        if a is None or b is None or a == b:
            return v
        ta, tb = self.T(a), self.T(b)
        if v.sl is not None and tb['k'] == 'array' and ta['k'] == 'slice' and ta['e'] == tb['e'] and self.T(tb['e'])['k'] == 'uint':
            x = self.sl_get(st, v)
            if x is not None and st.norm(x[0] - tb['len']) == ZERO:
                return Ref(self.obj(st, VecV(tb['e'], [x]), b))
            return self.fresh(st, tto, 'cast', True)
        if v.sl is not None and tb['k'] not in ('slice', 'str') or \
                self.int_range(b) is not None and self.int_range(a) is not None and ta['bits'] != tb['bits']:
            return self.fresh(st, tto, 'cast', True)
        return v

    # ---- statements ----------------------------------------------------------------------------
    def op_ty(self, fr, op):
        if op[0] in ('cp', 'mv'):
            return op[1][2]
        if op[0] == 'k':
            return op[1]['t']
        return None

    def rvalue(self, st, fr, rv, tdest):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k in ('ref', 'reb', 'raw'):
            loc = self.place(st, fr, rv[1])
            if k == 'reb':
                v = self.load(st, loc)
                return v
            return Ref(loc.obj, loc.path, loc.sl)
        if k == 'bin':
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, self.op_ty(fr, rv[2]), tdest)
        if k == 'un':
            return self.unop(st, rv[1], self.operand(st, fr, rv[2]), tdest)
        if k == 'cast':
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), self.op_ty(fr, rv[2]), rv[3])
        if k == 'disc':
            loc = self.place(st, fr, rv[1])
            v = self.load(st, loc)
            if isinstance(v, SymE):
                self.split_enum(st, v)
            if isinstance(v, Agg):
                return self.discr(v, tdest)
            if isinstance(v, (Opq, Uninit)):
                nv = self.fresh(st, rv[1][2], 'd', True)
                if isinstance(nv, (SymE, Agg)):
                    self.store(st, loc, nv)
                    if isinstance(nv, SymE):
                        try:
                            self.split_enum(st, nv)
                        except Split as e:
                            def late(alt):
                                def f(s):
                                    self.store(s, loc, nv)
                                    return alt(s)
                                return f
                            raise Split([late(a) for a in e.alts])
                    return self.discr(nv, tdest)
            return self.fresh(st, tdest, 'disc', True)
        if k == 'agg':
            vals = [self.operand(st, fr, o) for o in rv[5]]
            ti = rv[2]
            if rv[1] == 'array':
                et = self.T(ti)['e']
                if self.T(et)['k'] == 'uint' and all(isinstance(x, Poly) for x in vals):
                    return VecV(et, [(ONE, x) for x in vals])
                return Agg(ti, 0, vals)
            if rv[1] == 'rawptr':
                d, m = vals
                if isinstance(d, Ref):
                    if isinstance(m, Poly):
                        if d.path and isinstance(d.path[-1], tuple) and d.path[-1][0] == 'e':
                            return Ref(d.obj, d.path[:-1], (d.path[-1][1], m))
                        return Ref(d.obj, d.path, (d.sl[0] if d.sl else ZERO, m))
                    return d
                return self.fresh(st, ti, 'rp', True)
            if rv[4] is not None:
                return Opq(ti)
            return Agg(ti, rv[3], vals)
        if k == 'rep':
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            et = self.T(tdest).get('e')
            if n is not None and isinstance(v, Poly) and et is not None and self.T(et)['k'] == 'uint':
                if not st.norm(v).t:
                    return VecV(et, [(C(n), ZERO)])
                if n <= 64:
                    return VecV(et, [(ONE, v)] * n)
                return VecV(et, [(C(n), sym('rep', 0, (1 << (n * self.T(et)['bits'])) - 1, True))])
            if n is not None and n <= 64:
                return Agg(tdest, 0, [v] * n)
            return Opq(tdest)
        if k == 'tls':
            return Opq(tdest)
        raise Unsupported('rvalue ' + k)

    def statement(self, st, fr, s):
        k = s[0]
        if k == '=':
            v = self.rvalue(st, fr, s[2], s[1][2])
            loc = self.place(st, fr, s[1])
            self.store(st, loc, v)
        elif k == 'sd':
            loc = self.place(st, fr, s[1])
            v = self.load(st, loc)
            ti = s[1][2]
            t = self.T(ti)
            n = len(t['v'][s[2]][2])
            fs = list(v.fs[:n]) if isinstance(v, Agg) else []
            fs += [UNINIT] * (n - len(fs))
            self.store(st, loc, Agg(ti, s[2], fs))
        elif k == 'dead':
            o = fr.locs[s[1]]
            if o in st.heap:
                del st.heap[o]
        elif k == 'assume':
            b = self.operand(st, fr, s[1])
            if self.is_bool(b) and not st.assume(b):
                raise Infeasible()
        elif k == 'cno':
            raise Unsupported('copy_nonoverlapping')

    # ---- control flow --------------------------------------------------------------------------
    def run(self, fn, args, st, depth=0):
        """[(state, return value)] at the normal exits of fn"""
        if depth > 60:
            raise Budget('call depth')
        self.analysed.add(fn.id)
        fr = Frame(fn, [], depth)
        for i, ti in enumerate(fn.locals):
            o = new_uid()
            self.obj_ty[o] = ti
            fr.locs.append(o)
        st = st.copy()
        if len(args) == fn.argc == 2 and isinstance(args[1], Agg) and args[1].ty != fn.locals[2] and \
                self.T(args[1].ty)['k'] == 'tuple' and self.T(args[1].ty)['f'] == [fn.locals[2]]:
            args = [args[0], args[1].fs[0]]         # rust-call ABI, one argument
        if fn.argc != len(args):
            # rust-call ABI: the last argument is a tuple to be spread, or to be gathered
            if len(args) == 2 and isinstance(args[1], Agg) and 1 + len(args[1].fs) == fn.argc:
                args = [args[0]] + list(args[1].fs)
            elif fn.spread:
                n = fn.spread
                fixed = args[:n - 1]
                args = fixed + [Agg(fn.locals[n], 0, args[n - 1:])]
            else:
                raise Unsupported('arity of %s' % fn.full)
        for i, a in enumerate(args):
            st.heap[fr.locs[i + 1]] = a
        self.stack.append(fn)
        try:
            out = self.region(fr, 0, st, None, None)
        finally:
            self.stack.pop()
        res = []
        assert not out['exit'] and not out['back']
        for s in out['ret']:
            v = s.heap.get(fr.locs[0], UNINIT)
            v = self.resolve_enum(s, v)
            if v is UNINIT:
                v = self.zst(fn.locals[0]) or Opq(fn.locals[0])
            for o in fr.locs:
                s.heap.pop(o, None)
            res.append((s, v))
        if len(res) > 1 and self.merge:
            res = self.merge_exits(res)
        return res

    # ---- joining paths that end the same way ---------------------------------------------------
    def merge_exits(self, outs):
        groups = []
        for s, v in outs:
            for g in groups:
                m = self.merge_two(g[0], g[1], s, v)
                if m is not None:
                    g[0], g[1] = m
                    break
            else:
                groups.append([s, v])
        return [(s, v) for s, v in groups]

    def merge_two(self, a, x, b, y):
        if a.bsym != b.bsym or a.extra != b.extra or a.log != b.log or a.div != b.div or a.cons != b.cons:
            return None
        caps = []
        v = self.same(a, x, b, y, caps)
        if v is None:
            return None
        lost = {k for k in a.sub.keys() ^ b.sub.keys()}
        if lost:
            # an equation known on one path only, about a quantity that is still in use, keeps them apart
            live = set()
            self.live(v, live, a, set())
            for o, p in a.heap.items():
                q = b.heap.get(o)
                if q is not None:
                    self.live(p, live, a, set())
            for s_ in (a, b):
                for k in self.inputs:
                    live.add(k)
                    if k in s_.sub:
                        live |= s_.norm(Poly.atom(k)).deep | s_.sub[k].deep
            for k in lost:
                if k in live:
                    s_, o_ = (a, b) if k in a.sub else (b, a)
                    if o_.norm(Poly.atom(k) - s_.sub[k]) is not ZERO:
                        return None
        heap = {}
        for o, p in a.heap.items():
            q = b.heap.get(o)
            if q is None:
                continue
            if q is p:
                heap[o] = p
                continue
            w = self.same(a, p, b, q, caps)
            if w is None:
                return None
            heap[o] = w
        m = a.copy()
        m.ncache, m.icache = {}, {}
        m.unk = a.unk or b.unk
        m.heap = heap
        m.sub = {k: p for k, p in a.sub.items() if b.sub.get(k) is p}
        m.iv = {}
        for k in a.iv.keys() | b.iv.keys():
            l1, h1 = a.aiv(k)
            l2, h2 = b.aiv(k)
            m.iv[k] = (min(l1, l2), max(h1, h2))
        # what one path knows as an equation, the other may know as an inequality
        m.ge = ()
        m.ne = a.ne & b.ne
        bset = set(b.ge)
        m.ge = tuple(f for f in a.ge if f in bset)
        m.var = {k: p for k, p in a.var.items() if b.var.get(k) == p}
        for f in a.ge:
            if f not in bset and b.prove_ge0(f) and not m.assume(('ge', f)):
                return None
        aset = set(a.ge)
        for f in b.ge:
            if f not in aset and a.prove_ge0(f) and not m.assume(('ge', f)):
                return None
        for f in (a.ne | b.ne) - m.ne:
            if a.truth(('ne', f)) and b.truth(('ne', f)):
                m.assume(('ne', f))
        for k in (a.sub.keys() | b.sub.keys()) - m.sub.keys():
            p, q = a.sub.get(k), b.sub.get(k)
            if p is not None and b.norm(Poly.atom(k) - p) is ZERO:
                if not m.assume(('eq', Poly.atom(k) - p)):
                    return None
            elif q is not None and a.norm(Poly.atom(k) - q) is ZERO:
                if not m.assume(('eq', Poly.atom(k) - q)):
                    return None
        for cap, n in caps:
            if not m.assume(('ge', cap - n)):
                return None
        return m, v

    def live(self, v, out, st, seen):
        if isinstance(v, Poly):
            out |= v.deep
        elif isinstance(v, Agg):
            for f in v.fs:
                self.live(f, out, st, seen)
        elif isinstance(v, VecV):
            for l, x in v.segs:
                out |= l.deep
                out |= x.deep
        elif isinstance(v, SymE):
            if v.uid not in seen:
                seen.add(v.uid)
                w = st.var.get(v.uid)
                if w is not None:
                    self.live(w, out, st, seen)
        elif isinstance(v, Ref):
            if v.sl is not None:
                for p in v.sl:
                    out |= p.deep

    def cap_cands(self, st, cap):
        cap = st.norm(cap)
        out = []
        a = cap.single_atom()
        if a is None:
            return [cap]
        m = (None, ((a, 1),))
        for f in st.ge:
            d = dict(f.t)
            c = d.pop(m, 0)
            if c <= 0:
                continue
            e = {}
            for k, v in d.items():
                q = int(-v / Fraction(c))
                if q:
                    e[k] = q
            e = Poly.make(e)
            if a not in e.deep and e not in out:
                out.append(e)
        return out

    def same(self, a, x, b, y, caps):
        """one value for both x in state a and y in state b, or None"""
        if x is y:
            return x
        if isinstance(x, (SymE,)) or isinstance(y, SymE):
            x, y = self.resolve_enum(a, x), self.resolve_enum(b, y)
            if isinstance(x, SymE) or isinstance(y, SymE):
                return x if isinstance(x, SymE) and isinstance(y, SymE) and x.uid == y.uid and a.var.get(x.uid) == b.var.get(y.uid) else None
        if type(x) is not type(y):
            return None
        if isinstance(x, Poly):
            p, q = a.norm(x), b.norm(y)
            if p is q:
                return p
            if b.norm(p) is q:
                return p
            if a.norm(q) is p:
                return q
            return None
        if isinstance(x, Agg):
            if x.ty != y.ty or x.var != y.var or len(x.fs) != len(y.fs):
                return None
            fs = []
            for p, q in zip(x.fs, y.fs):
                w = self.same(a, p, b, q, caps)
                if w is None:
                    return None
                fs.append(w)
            return Agg(x.ty, x.var, fs)
        if isinstance(x, VecV):
            if x.ety != y.ety:
                return None
            n = self.same(a, self.vec_len(x), b, self.vec_len(y), caps)
            if n is None:
                return None
            segs = None
            if len(x.segs) == len(y.segs):
                segs = []
                for (l, p), (k, q) in zip(x.segs, y.segs):
                    u, w = self.same(a, l, b, k, caps), self.same(a, p, b, q, caps)
                    if u is None or w is None:
                        segs = None
                        break
                    segs.append((u, w))
            if segs is None:
                w = self.same(a, self.vec_val(x), b, self.vec_val(y), caps)
                if w is None:
                    return None
                segs = [(n, w)]
            cap = x.cap
            if x.cap is not y.cap:
                if x.cap is None or y.cap is None:
                    cap = None
                else:
                    cap = self.same(a, x.cap, b, y.cap, caps)
                    if cap is None:
                        if not a.prove_ge0(x.cap - n) or not b.prove_ge0(y.cap - n):
                            return None
                        cap = sym('cap', 0, (1 << self.PB) - 1)
                        caps.append((cap, n))
                        for e in self.cap_cands(a, x.cap) + self.cap_cands(b, y.cap):
                            for j in range(4):
                                if a.prove_ge0(x.cap - e + j) and b.prove_ge0(y.cap - e + j):
                                    caps.append((cap, e - j))
                                    break
            return VecV(x.ety, segs, cap)
        if isinstance(x, Ref):
            if x.obj != y.obj or len(x.path) != len(y.path) or (x.sl is None) != (y.sl is None):
                return None
            if x.path != y.path:
                return None
            if x.sl is None:
                return x
            sl = [self.same(a, p, b, q, caps) for p, q in zip(x.sl, y.sl)]
            return None if None in sl else Ref(x.obj, x.path, tuple(sl))
        if isinstance(x, tuple):
            return x if x == y else None
        return None

    def region(self, fr, start, st0, body, header):
        out = {'ret': [], 'exit': [], 'back': []}
        work = [(start, st0, True)]
        loops = fr.fn.loops
        while work:
            b, st, first = work.pop()
            if body is not None and b not in body:
                out['exit'].append((b, st))
                continue
            if b == header and not first:
                out['back'].append(st)
                continue
            if b in loops and b != header:
                o2 = self.loop(fr, b, st, loops[b])
                out['ret'].extend(o2['ret'])
                for x in o2['exit']:
                    work.append((x[0], x[1], False))
                continue
            self.block(fr, b, st, work, out)
            if len(work) + len(out['ret']) > 3000:
                raise Budget('paths in ' + fr.fn.path)
        return out

    def loop(self, fr, h, st, body):
        import induct
        if self.unroll:
            res = {'ret': [], 'exit': [], 'back': []}
            todo = [(st, 0)]
            while todo:
                s, n = todo.pop()
                o = self.region(fr, h, s, body, h)
                res['ret'] += o['ret']
                res['exit'] += o['exit']
                for x in o['back']:
                    if n + 1 < self.unroll:
                        todo.append((x, n + 1))
                    else:
                        self.incomplete += 1
                if len(res['ret']) + len(res['exit']) + len(todo) > 3000:
                    raise Budget('paths in ' + fr.fn.path)
            return res
        head = st
        hk = {}
        for it in range(12):
            np, ne = len(self.panics), len(self.events)
            o = self.region(fr, h, head.copy(), body, h)
            if not o['back']:
                return o
            if it == 0 and self.use_induct:
                keep = self.panics[np:], self.events[ne:]
                if not o['exit'] and not o['ret']:
                    o2 = self.fixed_loop(fr, h, body, o, 0, 70)
                    if o2 is not None:
                        return o2
                    del self.panics[np:]
                    del self.events[ne:]
                    self.panics += keep[0]
                    self.events += keep[1]
                del self.panics[np:]
                del self.events[ne:]
                try:
                    return induct.Induct(self, fr, h, st, body).run(o['back'])
                except (induct.Fail, Split, Infeasible) as e:
                    self.induct_fail.append((fr.fn.path, repr(e)))
                    del self.panics[np:]
                    del self.events[ne:]
                    self.panics += keep[0]
                    self.events += keep[1]
                o2 = self.fixed_loop(fr, h, body, o, 3, 70)
                if o2 is not None:
                    return o2
            new = self.widen(fr, head, o['back'], hk, it)
            if new is None:
                return o
            del self.panics[np:]
            del self.events[ne:]
            head = new
        raise Budget('loop in ' + fr.fn.path)

    def fixed_loop(self, fr, h, body, first, slack, most):
        """runs a loop whose number of iterations the state determines (up to `slack` undecided ones)"""
        res = {'ret': list(first['ret']), 'exit': list(first['exit']), 'back': []}
        todo = [(x, 1, 1 if first['exit'] or first['ret'] else 0) for x in first['back']]
        try:
            while todo:
                s, n, u = todo.pop()
                if n > most or u > slack or len(todo) > 200:
                    return None
                o = self.region(fr, h, s.copy(), body, h)
                res['ret'] += o['ret']
                res['exit'] += o['exit']
                if o['back'] and (o['exit'] or o['ret']):
                    u += 1
                todo += [(x, n + 1, u) for x in o['back']]
        except Budget:
            return None
        return res

    def step_budget(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('steps')

    def exec_split(self, st, f):
        """run f(state) -> result, doing the case distinctions it asks for; [(state, result)]"""
        out = []
        todo = [st]
        while todo:
            s = todo.pop()
            c = s.copy()
            self.step_budget()
            try:
                r = f(c)
                out.append((c, r))
            except Split as e:
                for alt in e.alts:
                    a = s.copy()
                    try:
                        State.branching = True
                        if alt(a):
                            todo.append(a)
                    except Infeasible:
                        pass
                    finally:
                        State.branching = False
            except Infeasible:
                pass
        return out

    def block(self, fr, b, st, work, out):
        stmts, term, line, _ = fr.fn.bbs[b]
        states = [st]
        for s in stmts:
            nxt = []
            for x in states:
                if s[0] == 'dead':
                    self.statement(x, fr, s)
                    nxt.append(x)
                    continue
                for y, _r in self.exec_split(x, lambda c, s=s: self.statement(c, fr, s)):
                    nxt.append(y)
            states = nxt
        for x in states:
            if self.on_stmt:
                self.on_stmt(fr, b, x)
            self.terminator(fr, b, x, term, line, work, out)

    def terminator(self, fr, b, st, t, line, work, out):
        k = t[0]
        if k == 'goto':
            work.append((t[1], st, False))
        elif k == 'ret':
            out['ret'].append(st)
        elif k == 'drop':
            work.append((t[2], st, False))
        elif k in ('unreachable', 'resume', 'abort'):
            pass
        elif k == 'sw':
            for s, v in self.exec_split(st, lambda c: self.operand(c, fr, t[1])):
                self.switch(fr, s, v, t, work)
        elif k == 'assert':
            for s, v in self.exec_split(st, lambda c: self.operand(c, fr, t[1])):
                cond = v if t[2] else bnot(v)
                tr = s.truth(cond) if self.is_bool(v) else None
                if tr is not True:
                    s2 = s.copy()
                    if not self.is_bool(v) or s2.b_unk(cond):
                        s2.unk = True
                    s2.lastb = v if self.is_bool(v) else None
                    if not self.is_bool(v) or s2.assume(bnot(cond)):
                        self.panic(fr, b, s2, 'assert:' + str(t[3][0]), None)
                if tr is not False:
                    if not self.is_bool(v) or s.assume(cond):
                        work.append((t[4], s, False))
        elif k == 'call':
            self.call(fr, b, st, t, work)
        else:
            raise Unsupported('terminator ' + k)

    def switch(self, fr, s, v, t, work):
        State.branching = True
        try:
            self.switch_(fr, s, v, t, work)
        finally:
            State.branching = False

    def switch_(self, fr, s, v, t, work):
        if self.is_bool(v):
            for val, tgt in t[2]:
                c = s.copy()
                if c.assume(v if val else bnot(v)):
                    work.append((tgt, c, False))
            vals = {x[0] for x in t[2]}
            if len(vals) < 2:
                c = s.copy()
                miss = [x for x in (0, 1) if x not in vals]
                for m in miss:
                    c2 = c.copy()
                    if c2.assume(v if m else bnot(v)):
                        work.append((t[3], c2, False))
            return
        if isinstance(v, Poly):
            ti = t[4]
            r = self.int_range(ti)
            rest = s
            alive = True
            for val, tgt in t[2]:
                if r is not None and val > r[1]:
                    val -= r[1] - r[0] + 1
                c = rest.copy()
                if c.assume(('eq', v - val)):
                    work.append((tgt, c, False))
                if not rest.assume(('ne', v - val)):
                    alive = False
                    break
            if alive:
                work.append((t[3], rest, False))
            return
        s.unk = True
        for val, tgt in t[2]:
            work.append((tgt, s.copy(), False))
        work.append((t[3], s, False))

    def panic(self, fr, b, st, kind, msg):
        self.panics.append((kind, tuple(f.path for f in self.stack), msg, st))

    # ---- calls -----------------------------------------------------------------------------------
    def call(self, fr, b, st, t, work):
        def ev(c):
            args = [self.operand(c, fr, a) for a in t[2]]
            f = t[1]
            if isinstance(f, dict) and 'ptr' in f:
                f = self.operand(c, fr, f['ptr'])
            return f, args
        for s, (f, args) in self.exec_split(st, ev):
            for s2, r in self.invoke(fr, b, s, f, args, t, [self.op_ty(fr, a) for a in t[2]]):
                if t[4] is None:
                    continue
                for s3, _ in self.exec_split(s2, lambda c, r=r: self.store(c, self.place(c, fr, t[3]), r)):
                    work.append((t[4], s3, False))

    def invoke(self, fr, b, st, f, args, t, atys):
        if isinstance(f, tuple) and f[0] == 'fnp':
            f = f[1]
        if isinstance(f, FnV):
            f = self.T(f.ty)['fn']
        dest_ty = t[3][2]
        if isinstance(f, dict) or not isinstance(f, int):
            m = self.models.get(('unres', f.get('unres'))) if isinstance(f, dict) else None
            if m is not None:
                return self.apply_model(st, m, None, args, dest_ty, atys, f)
            return self.havoc_call(st, f, args, dest_ty)
        fn = self.P.fns[f]
        return self.invoke_fn(st, fn, args, dest_ty, atys, fr.depth + 1)

    def apply_model(self, st, m, fn, args, dest_ty, atys, f=None):
        res = []
        for s, r in self.exec_split(st, lambda c: m(self, c, fn, args, dest_ty, atys, f)):
            if isinstance(r, Multi):
                res.extend(r.outs)
            elif r is DIVERGE:
                pass
            else:
                res.append((s, r))
        return res

    def invoke_fn(self, st, fn, args, dest_ty, atys, depth):
        m = self._cc.get(fn.id)
        if m is None:
            m = 0
            for pred in self.contracts:
                c = pred(self, fn)
                if c is not None:
                    m = c
                    break
            self._cc[fn.id] = m
        if m:
            return self.apply_model(st, m, fn, args, dest_ty, atys)
        m = self.models.get(fn.path)
        if m is None:
            for p in self.model_pred:
                m = p(self, fn)
                if m is not None:
                    break
        if m is not None:
            r = self.apply_model(st, m, fn, args, dest_ty, atys)
            return r
        if self.T(dest_ty)['k'] == 'never' and not (fn.local and fn.bbs):
            self.panic_call(st, fn, args)
            return []
        if fn.bbs and fn not in self.stack and (self.inline_filter is None or self.inline_filter(fn)):
            return self.run(fn, args, st, depth)
        return self.havoc_call(st, fn, args, dest_ty)

    def call_closure(self, st, c, args):
        """[(state, result)] of calling the function value c, or None when it is not known"""
        ref = None
        v = c
        while isinstance(v, Ref) and v.sl is None:
            ref = v
            v = self.load(st, Loc(v.obj, v.path))
        if isinstance(v, tuple) and v and v[0] == 'fnp':
            f = v[1]
        elif isinstance(v, FnV):
            f = self.T(v.ty)['fn']
        elif isinstance(v, Agg) and self.T(v.ty)['k'] == 'closure':
            f = self.T(v.ty)['fn']
        else:
            return None
        if not isinstance(f, int):
            return None
        fn = self.P.fns[f]
        if isinstance(v, Agg):
            if not fn.bbs or fn in self.stack:
                return None
            if fn.locals and self.T(fn.locals[1])['k'] == 'ref':
                a0 = ref if ref is not None else Ref(self.obj(st, v, v.ty))
            else:
                a0 = v
            if fn.argc != 1 + len(args):
                return None
            return self.run(fn, [a0] + args, st, len(self.stack) + 1)
        out = fn.sig[1] if fn.sig else fn.locals[0]
        return self.invoke_fn(st, fn, list(args), out, list(fn.sig[0]), len(self.stack) + 1)

    def havoc_iter(self, st, v):
        """next() of an iterator that is not understood: what it may write through is unknown"""
        self.unk_calls['next'] = self.unk_calls.get('next', 0) + 1
        self.havoc_reach(st, v, set(), True)

    def panic_call(self, st, fn, args):
        msg = None
        for a in args:
            if isinstance(a, Ref):
                v = st.heap.get(a.obj)
                if isinstance(v, StrV):
                    msg = v.const
            if isinstance(a, Opq) and isinstance(a.tag, tuple) and a.tag[0] == 'fmtargs':
                msg = a.tag[1]
        self.panics.append(('panic:' + fn.path, tuple(f.path for f in self.stack), msg, st))

    def havoc_reach(self, st, v, seen, mut):
        """everything reachable through a mutable reference becomes unknown"""
        if isinstance(v, Ref):
            if v.obj in seen:
                return
            seen.add(v.obj)
            cur = self.load(st, Loc(v.obj, v.path))
            self.havoc_reach(st, cur, seen, mut)
            if mut:
                self.havoc_at(st, v, cur)
        elif isinstance(v, Agg):
            for f in v.fs:
                self.havoc_reach(st, f, seen, mut)
        elif isinstance(v, It):
            for f in v.a:
                self.havoc_reach(st, f, seen, True)

    def havoc_at(self, st, ref, cur):
        if isinstance(cur, VecV):
            if ref.sl is not None:
                l = self.sl_get(st, ref)
                x = sym('hv', 0, INF, True)
                st.assume(('ge', pow2(l[0] * self.vbits(cur)) - x - 1))
                self.sl_set(st, ref, x)
            else:
                self.store(st, Loc(ref.obj, ref.path), self.fresh_vec(st, cur.ety, 'hv', True, cur.cap is None))
            return
        nv = self.havoc_val(st, cur)
        self.store(st, Loc(ref.obj, ref.path), nv)

    def havoc_val(self, st, cur):
        cur = self.resolve_enum(st, cur)
        if isinstance(cur, Poly):
            return sym('hv', -INF, INF, True)
        if self.is_bool(cur):
            return ('ne', sym('hv', 0, 1, True))
        if isinstance(cur, (Agg, SymE, Opq)):
            return self.fresh(st, cur.ty, 'hv', True)
        if isinstance(cur, VecV):
            return self.fresh_vec(st, cur.ety, 'hv', True, cur.cap is None)
        return cur

    def havoc_call(self, st, fn, args, dest_ty, atys=None):
        name = fn.path if hasattr(fn, 'path') else (fn.get('full') if isinstance(fn, dict) else str(fn))
        self.unk_calls[name] = self.unk_calls.get(name, 0) + 1
        if self.T(dest_ty)['k'] == 'never':
            self.panics.append(('diverge:' + str(name), tuple(f.path for f in self.stack), None, st))
            return []
        ins = fn.sig[0] if hasattr(fn, 'sig') and fn.sig else None

        def f(c):
            for i, a in enumerate(args):
                mut = True
                if ins is not None and i < len(ins):
                    t = self.T(ins[i])
                    if t['k'] == 'ref' and not t['mut']:
                        mut = False
                self.havoc_reach(c, a, set(), mut)
            return self.fresh(c, dest_ty, 'r', True)
        return self.exec_split(st, f)

    # ---- loops: widening ------------------------------------------------------------------------
    def widen(self, fr, head, backs, hk, it):
        """None if every back state is covered by head, else the widened head"""
        changed = {}
        for o, hv in list(head.heap.items()):
            for bs in backs:
                bv = bs.heap.get(o, UNINIT)
                if not self.covers(head, hv, bs, bv, hk):
                    changed.setdefault(o, []).append((bs, bv))
        if not changed:
            return None
        new = head.copy()
        for o, lst in changed.items():
            v = new.heap[o]
            for bs, bv in lst:
                v = self.join(new, v, bs, bv, self.obj_ty.get(o), hk)
            new.heap[o] = v
        return new

    def covers(self, hs, hv, bs, bv, hk):
        hv = self.resolve_enum(hs, hv)
        bv = self.resolve_enum(bs, bv)
        if hv is bv:
            return True
        if hv is UNINIT:
            return True
        if isinstance(hv, Poly):
            if not isinstance(bv, Poly):
                return False
            if hv is bs.norm(bv) or bs.norm(hv) is bs.norm(bv):
                return True
            a = hv.single_atom()
            if a is not None and a in hk and a.kind == 'sym':
                lo, hi = hs.aiv(a)
                bl, bh = bs.rng(bv)
                return (bl >= lo or bs.prove_ge0(bv - lo)) and (bh <= hi or bs.prove_ge0(C(hi) - bv))
            return False
        if self.is_bool(hv):
            if not self.is_bool(bv):
                return False
            if hv == bv:
                return True
            if hv[0] == 'ne' and hv[1].single_atom() in hk:
                return True
            th, tb = hs.truth(hv), bs.truth(bv)
            return th is not None and th == tb
        if isinstance(hv, Agg):
            if not isinstance(bv, Agg) or bv.var != hv.var or len(bv.fs) != len(hv.fs):
                return False
            return all(self.covers(hs, x, bs, y, hk) for x, y in zip(hv.fs, bv.fs))
        if isinstance(hv, SymE):
            if hv.uid in hk:
                return True
            return isinstance(bv, SymE) and bv.uid == hv.uid
        if isinstance(hv, Opq):
            return True
        if isinstance(hv, VecV):
            if not isinstance(bv, VecV):
                return False
            if hv.segs == bv.segs:
                return True
            n1 = [(bs.norm(a), bs.norm(b)) for a, b in hv.segs]
            n2 = [(bs.norm(a), bs.norm(b)) for a, b in bv.segs]
            if n1 == n2:
                return True
            tl = self.covers(hs, self.vec_len(hv), bs, self.vec_len(bv), hk)
            tv = self.covers(hs, self.vec_val(hv), bs, self.vec_val(bv), hk)
            return tl and tv
        if isinstance(hv, Ref):
            if not isinstance(bv, Ref) or hv.obj != bv.obj or len(hv.path) != len(bv.path):
                return False
            for x, y in zip(hv.path, bv.path):
                if isinstance(x, tuple) and isinstance(y, tuple):
                    if not self.covers(hs, x[1], bs, y[1], hk):
                        return False
                elif x != y:
                    return False
            if (hv.sl is None) != (bv.sl is None):
                return False
            if hv.sl is not None:
                return all(self.covers(hs, x, bs, y, hk) for x, y in zip(hv.sl, bv.sl))
            return True
        if isinstance(hv, It):
            return isinstance(bv, It) and bv.kind == hv.kind and len(hv.a) == len(bv.a) and all(
                self.covers(hs, x, bs, y, hk) for x, y in zip(hv.a, bv.a))
        if isinstance(hv, StrV):
            return isinstance(bv, StrV) and hv.uid == bv.uid
        return hv == bv

    def wsym(self, st, name, lo, hi, hk, unk=True):
        p = sym(name, lo, hi, unk)
        hk[p.single_atom()] = True
        return p

    def join(self, st, hv, bs, bv, ty, hk):
        """widened value, in the (new head) state st"""
        hv = self.resolve_enum(st, hv)
        bv = self.resolve_enum(bs, bv)
        if self.covers(st, hv, bs, bv, hk):
            return hv
        if bv is UNINIT:
            return UNINIT
        if isinstance(hv, Poly) and isinstance(bv, Poly):
            l1, h1 = st.rng(hv)
            l2, h2 = bs.rng(bv)
            r = self.int_range(ty) if ty is not None else None
            lo = l1 if l2 >= l1 else (r[0] if r else -INF)
            hi = h1 if h2 <= h1 else (r[1] if r else INF)
            if r is None and l1 >= 0 and l2 >= 0:
                lo = 0
            return self.wsym(st, 'w', lo, hi, hk)
        if self.is_bool(hv) and self.is_bool(bv):
            return ('ne', self.wsym(st, 'wb', 0, 1, hk))
        if isinstance(hv, Agg) and isinstance(bv, Agg) and hv.var == bv.var and len(hv.fs) == len(bv.fs) and hv.ty == bv.ty:
            if hv.ty == self.P.t_ubig or hv.ty == self.P.t_ibig:
                return self.hk_fresh(st, hv.ty, hk)
            return Agg(hv.ty, hv.var, [self.join(st, x, bs, y, self.field_ty(hv.ty, hv.var, i), hk)
                                       for i, (x, y) in enumerate(zip(hv.fs, bv.fs))])
        if isinstance(hv, (Agg, SymE)) and hv.ty is not None and self.T(hv.ty)['k'] == 'enum':
            return self.hk_fresh(st, hv.ty, hk)
        if isinstance(hv, VecV) and isinstance(bv, VecV):
            b = self.vbits(hv)
            L = self.vec_len(hv)
            if not self.covers(st, L, bs, self.vec_len(bv), hk):
                L = self.wsym(st, 'wlen', 0, (1 << (self.PB - 1)) - 1, hk, False)
            V = self.vec_val(hv)
            if not self.covers(st, V, bs, self.vec_val(bv), hk):
                V = self.wsym(st, 'wval', 0, INF, hk)
            st.assume(('ge', pow2(L * b) - V - 1))
            return VecV(hv.ety, [(L, V)], hv.cap if hv.cap is bv.cap else (None if hv.cap is None else self.wsym(st, 'wcap', 0, INF, hk)))
        if isinstance(hv, Ref) and isinstance(bv, Ref) and hv.obj == bv.obj and len(hv.path) == len(bv.path):
            path = []
            for x, y in zip(hv.path, bv.path):
                if isinstance(x, tuple) and isinstance(y, tuple):
                    path.append((x[0], self.join(st, x[1], bs, y[1], None, hk)))
                elif x == y:
                    path.append(x)
                else:
                    return Opq(ty or 0)
            sl = None
            if hv.sl is not None and bv.sl is not None:
                sl = tuple(self.join(st, x, bs, y, None, hk) for x, y in zip(hv.sl, bv.sl))
            return Ref(hv.obj, tuple(path), sl)
        if isinstance(hv, It) and isinstance(bv, It) and hv.kind == bv.kind and len(hv.a) == len(bv.a):
            return It(hv.kind, [self.join(st, x, bs, y, None, hk) for x, y in zip(hv.a, bv.a)])
        t = ty if ty is not None else getattr(hv, 'ty', 0)
        return Opq(t or 0)

    def hk_fresh(self, st, ty, hk):
        v = self.fresh(st, ty, 'w', True)
        self._mark(st, v, hk)
        return v

    def _mark(self, st, v, hk):
        if isinstance(v, Poly):
            a = v.single_atom()
            if a:
                hk[a] = True
        elif isinstance(v, SymE):
            hk[v.uid] = True
        elif isinstance(v, Agg):
            for f in v.fs:
                self._mark(st, f, hk)
        elif self.is_bool(v):
            self._mark(st, v[1], hk)


class Multi:
    def __init__(self, outs):
        self.outs = outs


DIVERGE = object()
