"""Loop summaries: affine relations between what a loop has written and what it has read.

A loop that walks word sequences one word per iteration is summarised by generalising its state
after the first iteration to "after k iterations": every position moves by a constant per iteration,
what has been written so far is an unknown number P of k words, what has been read so far is the
low (or high) part of the sequence it was read from, every other scalar is unknown.  Running the
body once from that state tells how each of these grows; the linear relations that are preserved by
every path of the body are the null space of a matrix over the loop-invariant quantities, and hold
at the loop head for every k.  If anything does not fit, the caller falls back to plain widening.
"""
from poly import *
from state import *
from interp import Loc


class Fail(Exception):
    pass


class Induct:
    def __init__(self, it, fr, h, st, body):
        self.it, self.fr, self.h, self.head, self.body = it, fr, h, st, body
        self.forced = set()
        self.nobound = set()

    def run(self, backs):
        it = self.it
        for _ in range(6):
            try:
                return self.attempt(backs)
            except Retry:
                continue
        raise Fail('retries')

    # ---- generalisation --------------------------------------------------------------------
    def attempt(self, backs):
        it = self.it
        self.ind = {}       # key -> (v0, d)
        self.free = {}      # key -> info
        self.vecs = {}      # (obj, path) -> VecInfo
        self.iters = []     # (ref, s-leaf info)
        self.nonneg = []
        self.mark = Atom._next[0]
        G = self.head.copy()
        self.G = G
        k = sym('k', 0, 1 << (it.PB - 3))
        self.k = k
        self.backs0 = backs
        later = []
        changed = []
        for o, hv in list(self.head.heap.items()):
            if hv is UNINIT:
                continue
            bvs = [(b, b.heap.get(o, UNINIT)) for b in backs]
            if any(bv is UNINIT for _, bv in bvs):
                # dead after the first iteration
                G.heap[o] = UNINIT
                continue
            G.heap[o] = self.gen((o,), hv, bvs, it.obj_ty.get(o), later)
        # the loop walks no further than its iterators allow
        for (r, s, e, ks, ke) in self.iters:
            if not self.head.prove_ge0(e - s):
                raise Fail('iterator may start beyond its end')
            if not G.assume(('ge', G.norm(self.gval(ke, e) - self.gval(ks, s)))):
                raise Fail('bounds')
        # positions are known now: word sequences
        for key, hv, bvs in later:
            self.gen_vec(key, hv, bvs)
        self.gen_reads()
        np, ne = len(it.panics), len(it.events)
        G0 = G.copy()
        out = it.region(self.fr, self.h, G.copy(), self.body, self.h)
        rows, inv = self.check(out['back'])
        del it.panics[np:]
        del it.events[ne:]
        if it.debug:
            print('LOOP in', self.fr.fn.path, 'ind', self.ind, 'free', {k_: v.get('sym') for k_, v in self.free.items()})
            for key, v in self.vecs.items():
                print('   vec', key, v['dir'], v['p0'], v['P'], v.get('O'))
            for s_, row in rows:
                print('   row', row)
            for vec in inv:
                print('   inv', [(x['id'], c) for x, c in vec if c.t])
        # final run, with the relations
        G = G0
        used = set()
        for vec in inv:
            p = ZERO
            for x, c in vec:
                if not c.t:
                    continue
                p = p + x['acc'] * c
                if x['kind'] in ('P', 'c'):
                    used.add(x['id'])
            if not p.t:
                continue
            solved = None
            for x, c in vec:
                if x['kind'] == 'P' and c.cval() in (1, -1):
                    a = x['sym'].single_atom()
                    rest = p - x['sym'] * c
                    if a not in rest.deep and a not in G.sub:
                        solved = a, G.norm(-rest if c.cval() == 1 else rest)
                        break
            if solved is not None:
                if not G._subst(*solved):
                    raise Fail('inv')
            elif not G.assume(('eq', p)):
                raise Fail('inv')
        for key, x in self.cols.items():
            if x['kind'] in ('P', 'c') and x['id'] not in used:
                for a in x['own']:
                    a.unk = True
                    Poly.atom(a)._unk = None
        it.summaries = getattr(it, 'summaries', 0) + 1
        return it.region(self.fr, self.h, G, self.body, self.h)

    def gval(self, key, v0):
        if key in self.ind:
            v, d = self.ind[key]
            return v + self.k * d
        return v0

    def gen(self, key, hv, bvs, ty, later):
        it, G = self.it, self.G
        hv = it.resolve_enum(self.head, hv)
        bvs = [(b, it.resolve_enum(b, v)) for b, v in bvs]
        if all(v is hv for _, v in bvs):
            return hv
        if isinstance(hv, Poly):
            if not all(isinstance(v, Poly) for _, v in bvs):
                raise Fail('poly %r' % (key,))
            ds = {b.norm(v - hv) for b, v in bvs}
            if ds == {ZERO}:
                return hv
            if key not in self.forced and len(ds) == 1:
                d = ds.pop().cval()
                if d is not None and d == int(d):
                    self.ind[key] = (hv, int(d))
                    if d < 0 and self.head.prove_ge0(hv) and (ty is None or it.int_range(ty)[0] == 0):
                        self.nonneg.append(key)
                        if not G.assume(('ge', hv + self.k * int(d))):
                            raise Fail('nonneg')
                    return hv + self.k * int(d)
            return self.gen_free(key, hv, bvs, ty)
        if it.is_bool(hv):
            if not all(it.is_bool(v) for _, v in bvs):
                raise Fail('bool')
            if key not in self.forced:
                th = self.head.truth(hv)
                if all(v == hv or (th is not None and b.truth(v) == th) for b, v in bvs):
                    return hv
            s = sym('c', 0, 1)
            self.free[key] = {'kind': 'c', 'sym': s, 'bool': True, 'id': key, 'own': [s.single_atom()], 'v0': hv}
            return ('ne', s)
        if isinstance(hv, Agg):
            if not all(isinstance(v, Agg) and v.var == hv.var and len(v.fs) == len(hv.fs) for _, v in bvs):
                # an enum that changes variant: anything it can be
                if it.T(hv.ty)['k'] == 'enum':
                    v = it.fresh(G, hv.ty, 'w', True)
                    self.free[key] = {'kind': 'any', 'sym': None, 'id': key}
                    return v
                raise Fail('agg')
            fs = []
            if it.T(hv.ty).get('def') == 'std::ops::Range':
                self.iters.append((None, hv.fs[0], hv.fs[1], key + (0,), key + (1,)))
            for i, f in enumerate(hv.fs):
                fs.append(self.gen(key + (i,), f, [(b, v.fs[i]) for b, v in bvs], it.field_ty(hv.ty, hv.var, i), later))
            return Agg(hv.ty, hv.var, fs)
        if isinstance(hv, It):
            if not all(isinstance(v, It) and v.kind == hv.kind and len(v.a) == len(hv.a) for _, v in bvs):
                raise Fail('iter')
            if hv.kind in ('map',):
                fs = [self.gen(key + (0,), hv.a[0], [(b, v.a[0]) for b, v in bvs], None, later), hv.a[1]]
                return It(hv.kind, fs)
            if hv.kind == 'slice':
                r, s, e = hv.a
                for b, v in bvs:
                    if v.a[0].obj != r.obj or v.a[0].path != r.path:
                        raise Fail('iter base')
                s2 = self.gen(key + (1,), s, [(b, v.a[1]) for b, v in bvs], None, later)
                e2 = self.gen(key + (2,), e, [(b, v.a[2]) for b, v in bvs], None, later)
                self.iters.append((r, s, e, key + (1,), key + (2,)))
                return It(hv.kind, (r, s2, e2))
            fs = []
            for i, f in enumerate(hv.a):
                if isinstance(f, tuple):
                    fs.append(f)
                    continue
                fs.append(self.gen(key + (i,), f, [(b, v.a[i]) for b, v in bvs], None, later))
            if hv.kind in ('chunks', 'rchunks', 'chunks_exact', 'rchunks_exact'):
                raise Fail('chunks')
            return It(hv.kind, fs)
        if isinstance(hv, Ref):
            def same(v):
                return isinstance(v, Ref) and v.obj == hv.obj and v.path == hv.path
            if not all(same(v) for _, v in bvs):
                raise Fail('ref')
            if hv.sl is None:
                return hv
            sl = tuple(self.gen(key + ('s', i), hv.sl[i], [(b, v.sl[i]) for b, v in bvs], None, later) for i in (0, 1))
            return Ref(hv.obj, hv.path, sl)
        if isinstance(hv, VecV):
            if not all(isinstance(v, VecV) for _, v in bvs):
                raise Fail('vec')
            if all(self.same_vec(b, hv, v) for b, v in bvs):
                return hv
            later.append((key, hv, bvs))
            return hv
        if isinstance(hv, SymE):
            if all(isinstance(v, SymE) and v.uid == hv.uid for _, v in bvs):
                return hv
            self.free[key] = {'kind': 'any', 'sym': None, 'id': key}
            return it.fresh(G, hv.ty, 'w', True)
        if isinstance(hv, Opq):
            return hv
        if isinstance(hv, StrV):
            if all(v is hv for _, v in bvs):
                return hv
            raise Fail('str')
        if hv == bvs[0][1]:
            return hv
        raise Fail('value %r' % (hv,))

    def same_vec(self, b, x, y):
        if x.segs == y.segs:
            return True
        it = self.it
        return b.norm(it.vec_len(x) - it.vec_len(y)) is ZERO and b.norm(it.vec_val(x) - it.vec_val(y)) is ZERO

    def gen_free(self, key, hv, bvs, ty):
        it, G = self.it, self.G
        r = it.int_range(ty) if ty is not None else None
        if r is None:
            raise Fail('free scalar without a type')
        lo, hi = r
        mult = None
        exps = set()
        divs = set()
        for b, v in bvs:
            for a in b.norm(v).deep:
                if a.kind == 'app' and a.name == 'div':
                    divs.add(a.args[1])
                for x in ((a.args) if a.kind == 'app' else ()):
                    if isinstance(x, Poly):
                        for (pw, fs), c in x.t:
                            if pw is not None:
                                exps.add(pw)
            for (pw, fs), c in b.norm(v).t:
                if pw is not None:
                    exps.add(pw)
        exps = [e for e in exps if self.invariant(e)]
        level = sum(1 for x in self.nobound if x[0] == key)
        obs = [self.head.rng(hv)] + [b.rng(v) for b, v in bvs]
        olo, ohi = min(x[0] for x in obs), max(x[1] for x in obs)
        facts = []
        if level == 0:
            # symbolic bounds first: a multiple of 2^e, below 2^e, below a divisor
            for e in exps:
                for f in (e, C(it.W) + e, C(it.W) - e, e - it.W):
                    if mult is None and G.prove_ge0(f - 1) and all(b.norm(v) is ZERO or b.div_by_pow2(b.norm(v), f) for b, v in bvs + [(self.head, hv)]):
                        mult = f
            cands = []
            for e in exps:
                for f in (e, C(it.W) + e, C(it.W) - e):
                    cands.append(pow2(f) - 1)
            for d in divs:
                if self.invariant(d):
                    cands.append(d - 1)
            for u in cands:
                if all(b.prove_ge0(u - v) for b, v in bvs + [(self.head, hv)]):
                    facts.append(u)
        if level <= 1:
            lo, hi = max(lo, olo), min(hi, ohi)
        if mult is not None:
            s = sym('c', 0, hi)
            val = pow2(mult) * s
            if not G.assume(('ge', C(hi) - val)):
                raise Fail('free')
        else:
            s = sym('c', lo, hi)
            val = s
        for u in facts:
            if not G.assume(('ge', u - val)):
                raise Fail('free')
        self.free[key] = {'kind': 'c', 'sym': val, 'bool': False, 'id': key, 'own': [s.single_atom()], 'v0': hv,
                          'lo': lo, 'hi': hi, 'facts': facts, 'mult': mult}
        return val

    def invariant(self, p):
        return all(a.uid <= self.mark or a.kind == 'app' for a in p.deep) and all(
            a.uid <= self.mark for a in p.deep if a.kind == 'sym')

    def cut(self, st, v, pos):
        try:
            return self.it.vec_cut(st, v, st.norm(pos))
        except Split:
            raise Fail('cut at %r of %r' % (pos, v))
        except Infeasible:
            raise Fail('cut infeasible')

    def gen_vec(self, key, hv, bvs):
        """the region one iteration changed, and its generalisation"""
        it, G, k = self.it, self.G, self.k
        b, v = bvs[0]
        cand = None
        for b, v in bvs:
            if self.same_vec(b, hv, v):
                continue
            n0, n1 = b.norm(it.vec_len(hv)), b.norm(it.vec_len(v))
            if n0 is not n1:
                d = b.norm(n1 - n0).cval()
                if d is None or d not in (1, -1):
                    raise Fail('vec length changes')
                r = ('push' if d > 0 else 'pop', self.head.norm(it.vec_len(hv)), int(d))
            else:
                off = ZERO
                diff = []
                h1 = VecV(hv.ety, [(b.norm(it.vec_len(hv)), b.norm(it.vec_val(hv)))], hv.cap) if len(hv.segs) > 1 else hv
                for l, x in v.segs:
                    try:
                        c2, i, j = it.vec_range(b, h1, off, b.norm(l))
                    except (Split, Infeasible):
                        raise Fail('vec split')
                    y, o2 = ZERO, ZERO
                    for l2, x2 in c2.segs[i:j]:
                        y = y + x2 * pow2(o2 * it.vbits(hv))
                        o2 = o2 + l2
                    if b.norm(y - x) is not ZERO:
                        diff.append((off, l))
                    off = off + l
                if len(diff) != 1 or b.const(diff[0][1]) != 1:
                    raise Fail('vec diff %r of %r / %r' % (diff, [(b.norm(x), b.norm(y)) for x, y in hv.segs], [(b.norm(x), b.norm(y)) for x, y in v.segs]))
                r = ('at', b.norm(diff[0][0]), 1)
            if cand is not None and cand != r and not (cand[0] == r[0] and cand[2] == r[2] and b.norm(cand[1]) is b.norm(r[1])):
                raise Fail('vec diffs %r %r' % (cand, r))
            cand = r
        kind, p0, d = cand
        if kind == 'pop':
            if not G.assume(('ge', p0 - k)):
                raise Fail('pop')
            one = self.merge(hv)
            c1, i = self.cut(G, one, p0 - k)
            b_ = it.vbits(hv)
            hi, off = ZERO, ZERO
            for l, x in c1.segs[i:]:
                hi = hi + x * pow2(off * b_)
                off = off + l
            self.vecs[key] = {'dir': 'pop', 'p0': p0, 'P': None, 'O': hi, 'orig': c1, 'cap': hv.cap, 'bits': b_}
            self.putv(key, VecV(hv.ety, c1.segs[:i], hv.cap))
            return
        if kind == 'push':
            P = sym('P', 0, INF)
            if not G.assume(('ge', pow2(k * it.vbits(hv)) - P - 1)):
                raise Fail()
            cap = hv.cap
            if any(v.cap is not hv.cap for _, v in bvs):
                if key in self.forced or True:
                    cap = sym('cap', 0, (1 << it.PB) - 1)
                    G.assume(('ge', cap - it.vec_len(hv) - k))
            nv = VecV(hv.ety, hv.segs + ((k, P),), cap)
            self.vecs[key] = {'dir': 'push', 'p0': p0, 'P': P, 'orig': hv, 'cap': cap, 'bits': it.vbits(hv)}
            self.putv(key, nv)
            return
        # which way do the positions go
        fwd = bwd = False
        for kk, (v0, dd) in self.ind.items():
            v0n = self.head.norm(v0)
            if dd == 1 and (v0n is p0 or self.head.norm(v0n - p0) is ZERO):
                fwd = True
            if dd == -1 and self.head.norm(v0n - p0 - 1) is ZERO:
                bwd = True
        if not fwd and not bwd:
            raise Fail('no direction')
        b = it.vbits(hv)
        if fwd:
            c1, _ = self.cut(G, self.merge(hv), p0)
            c2, j = self.cut(G, c1, p0 + k)
            c2, i = self.cut(G, c2, p0)
            c2, j = self.cut(G, c2, p0 + k)
            lo = ZERO
            off = ZERO
            for l, x in c2.segs[i:j]:
                lo = lo + x * pow2(off * b)
                off = off + l
            P = sym('P', 0, INF)
            if not G.assume(('ge', pow2(k * b) - P - 1)):
                raise Fail()
            orig = c2
            nv = VecV(hv.ety, c2.segs[:i] + ((k, P),) + c2.segs[j:], hv.cap)
            self.vecs[key] = {'dir': 'fwd', 'p0': p0, 'P': P, 'O': lo, 'orig': orig, 'cap': hv.cap, 'bits': b}
            self.putv(key, nv)
        else:
            e0 = G.norm(p0 + 1)
            c1, _ = self.cut(G, self.merge(hv), e0)
            c2, _ = self.cut(G, c1, e0 - k)
            c2, j = self.cut(G, c2, e0)
            c2, i = self.cut(G, c2, e0 - k)
            hi = ZERO
            off = ZERO
            for l, x in c2.segs[i:j]:
                hi = hi + x * pow2(off * b)
                off = off + l
            P = sym('Q', 0, INF)
            if not G.assume(('ge', pow2(k * b) - P - 1)):
                raise Fail()
            nv = VecV(hv.ety, c2.segs[:i] + ((k, P),) + c2.segs[j:], hv.cap)
            self.vecs[key] = {'dir': 'bwd', 'p0': e0, 'P': P, 'O': hi, 'orig': c2, 'cap': hv.cap, 'bits': b}
            self.putv(key, nv)

    def merge(self, v):
        if len(v.segs) <= 1:
            return v
        return VecV(v.ety, [(self.G.norm(self.it.vec_len(v)), self.G.norm(self.it.vec_val(v)))], v.cap)

    def putv(self, key, nv):
        o, path = key[0], key[1:]
        self.it.store(self.G, Loc(o, path), nv)

    def gen_reads(self):
        """sequences that are only read: cut them where the iterators stand"""
        it, G, k = self.it, self.G, self.k
        for (r, s, e, ks, ke) in self.iters:
            if r is None:
                continue
            key = (r.obj,) + r.path
            if key in self.vecs:
                continue
            v = it.load(G, Loc(r.obj, r.path))
            if not isinstance(v, VecV):
                continue
            ds, de = self.ind.get(ks, (0, 0))[1], self.ind.get(ke, (0, 0))[1]
            if ds == 1 and de == 0:
                p0 = s
                a, z = p0, p0 + k
                d = 'fwd'
            elif de == -1 and ds == 0:
                a, z = e - k, e
                p0 = e
                d = 'bwd'
            else:
                continue
            c1, _ = self.cut(G, self.merge(v), a)
            c1, j = self.cut(G, c1, z)
            c1, i = self.cut(G, c1, a)
            c1, j = self.cut(G, c1, z)
            b = it.vbits(v)
            lo, off = ZERO, ZERO
            for l, x in c1.segs[i:j]:
                lo = lo + x * pow2(off * b)
                off = off + l
            self.vecs[key] = {'dir': d, 'p0': p0, 'P': None, 'O': lo, 'orig': c1, 'cap': v.cap, 'bits': b}
            it.store(G, Loc(r.obj, r.path), c1)

        # sequences indexed by a counter of this function
        for lo in self.fr.locs:
            rv = G.heap.get(lo)
            if not isinstance(rv, Ref) or rv.sl is None:
                continue
            key = (rv.obj,) + rv.path
            if key in self.vecs or any(isinstance(x, tuple) for x in rv.path):
                continue
            v = it.load(G, Loc(rv.obj, rv.path))
            if not isinstance(v, VecV):
                continue
            for kk, (v0, dd) in self.ind.items():
                if len(kk) != 1 or dd != -1 or kk not in self.nonneg:
                    continue
                if not self.head.prove_ge0(rv.sl[1] - v0):
                    continue
                z = G.norm(rv.sl[0] + v0)
                a = G.norm(z - k)
                c1, _ = self.cut(G, self.merge(v), a)
                c1, j = self.cut(G, c1, z)
                c1, i = self.cut(G, c1, a)
                c1, j = self.cut(G, c1, z)
                b = it.vbits(v)
                hi, off = ZERO, ZERO
                for l, x in c1.segs[i:j]:
                    hi = hi + x * pow2(off * b)
                    off = off + l
                self.vecs[key] = {'dir': 'bwd', 'p0': z, 'P': None, 'O': hi, 'orig': c1, 'cap': v.cap, 'bits': b}
                it.store(G, Loc(rv.obj, rv.path), c1)
                break

    # ---- induction step --------------------------------------------------------------------
    def check(self, backs):
        it = self.it
        dirs = {{'push': 'fwd', 'pop': 'bwd'}.get(v['dir'], v['dir']) for v in self.vecs.values()}
        if len(dirs) > 1:
            raise Fail('mixed directions')
        self.dir = dirs.pop() if dirs else 'fwd'
        bits = {v['bits'] for v in self.vecs.values()}
        if len(bits) > 1:
            raise Fail('mixed element sizes')
        self.bits = bits.pop() if bits else it.W
        # the unknowns
        self.cols = {}
        B = 1 << self.bits
        k = self.k
        for key, v in self.vecs.items():
            if v['P'] is not None:
                self.cols[('P', key)] = {'kind': 'P', 'sym': v['P'], 'acc': v['P'], 'id': ('P', key),
                                         'own': [v['P'].single_atom()]}
            if v['dir'] != 'push':
                self.cols[('O', key)] = {'kind': 'O', 'acc': v['O'], 'id': ('O', key)}
        for key, c in self.free.items():
            if c['kind'] != 'c':
                continue
            v0 = c['v0']
            if c['bool']:
                t = self.head.truth(v0)
                if t is None:
                    v0 = None
                else:
                    v0 = ONE if t else ZERO
            cs = c['sym']
            if v0 is None:
                continue
            if self.dir == 'fwd':
                acc = cs * pow2(k * self.bits) - v0
            else:
                acc = cs - v0 * pow2(k * self.bits)
            self.cols[('c', key)] = {'kind': 'c', 'sym': cs, 'acc': acc, 'id': ('c', key), 'own': c['own']}
        if self.dir == 'fwd':
            self.cols['1'] = {'kind': '1', 'acc': (pow2(k * self.bits) - 1) * Frac(1, B - 1), 'id': '1'}
        names = list(self.cols)
        rows = []
        for bs in backs:
            for s, row in it.exec_split(bs, self.row):
                rows.append((s, row))
        if not rows:
            return rows, []
        eqs = []
        for s, row in rows:
            eqs.extend(self.equations(s, [row.get(n, ZERO) for n in names]))
        inv = null_space(eqs, len(names))
        return rows, [[(self.cols[n], c) for n, c in zip(names, v)] for v in inv]

    def row(self, s):
        """verify one back edge in state s and return the increments of the unknowns"""
        it, k = self.it, self.k
        row = {}
        B = C(1 << self.bits)
        for o, gv in self.G.heap.items():
            if gv is UNINIT:
                continue
            self.verify(s, (o,), gv, s.heap.get(o, UNINIT))
        for key, v in self.vecs.items():
            cur = it.load(s, Loc(key[0], key[1:]))
            if not isinstance(cur, VecV):
                raise Fail('vec lost')
            orig = v['orig']
            p0 = v['p0']
            pos = s.norm(p0 + k) if v['dir'] in ('fwd', 'push') else s.norm(p0 - k - 1)
            if v['dir'] != 'push':
                a = it.vec_get(s, orig, pos)
                row[('O', key)] = a
            if v['dir'] == 'pop':
                if s.norm(it.vec_len(cur) - p0 + k + 1) is not ZERO:
                    raise Fail('pop len')
                self.same_range(s, cur, orig, ZERO, pos)
                continue
            if v['P'] is None:
                if s.norm(it.vec_val(cur) - it.vec_val(orig)) is not ZERO or s.norm(it.vec_len(cur) - it.vec_len(orig)) is not ZERO:
                    raise Fail('read sequence changed')
                continue
            if v['dir'] == 'push':
                if s.norm(it.vec_len(cur) - it.vec_len(orig) - k - 1) is not ZERO:
                    raise Fail('push len')
                if cur.cap is not None and not s.prove_ge0(cur.cap - it.vec_len(cur)):
                    raise Fail('cap')
                if cur.cap is not v['cap'] and v['cap'] is v['orig'].cap:
                    raise Fail('cap changes')
                self.same_range(s, cur, orig, ZERO, s.norm(it.vec_len(orig)))
                self.is_value(s, cur, p0, k, v['P'])
            elif v['dir'] == 'fwd':
                n = s.norm(it.vec_len(orig))
                if s.norm(it.vec_len(cur) - n) is not ZERO:
                    raise Fail('len changes')
                self.same_range(s, cur, orig, ZERO, s.norm(p0))
                self.is_value(s, cur, p0, k, v['P'])
                self.same_range(s, cur, orig, s.norm(pos + 1), n)
            else:
                n = s.norm(it.vec_len(orig))
                if s.norm(it.vec_len(cur) - n) is not ZERO:
                    raise Fail('len changes')
                self.same_range(s, cur, orig, ZERO, pos)
                self.is_value(s, cur, s.norm(p0 - k), k, v['P'])
                self.same_range(s, cur, orig, s.norm(p0), n)
            row[('P', key)] = it.vec_get(s, cur, pos)
        for key, c in self.free.items():
            if c['kind'] != 'c' or ('c', key) not in self.cols:
                continue
            nv = self.leaf(s, key)
            if c['bool']:
                nv = it.b2i(s, nv)
            if self.dir == 'fwd':
                row[('c', key)] = s.norm(nv * B - c['sym'])
            else:
                row[('c', key)] = s.norm(nv - c['sym'] * B)
        if '1' in self.cols:
            row['1'] = ONE
        return {n: s.norm(p) for n, p in row.items()}

    def leaf(self, s, key):
        v = self.it.resolve_enum(s, s.heap.get(key[0], UNINIT))
        i = 1
        while i < len(key):
            x = key[i]
            if isinstance(v, Agg):
                v = v.fs[x]
            elif isinstance(v, It):
                v = v.a[x]
            elif isinstance(v, Ref):
                v = v.sl[key[i + 1]]
                i += 1
            v = self.it.resolve_enum(s, v)
            i += 1
        return v

    def same_range(self, s, x, y, a, z):
        it = self.it
        n = s.norm(z - a)
        if s.const(n) == 0:
            return
        p = self.range_val(s, x, a, n)
        q = self.range_val(s, y, a, n)
        if s.norm(p - q) is not ZERO:
            raise Fail('range changed')

    def range_val(self, s, x, a, n):
        it = self.it
        v, i, j = it.vec_range(s, x, a, n)
        p, off = ZERO, ZERO
        for l, y in v.segs[i:j]:
            p = p + y * pow2(off * it.vbits(x))
            off = off + l
        return s.norm(p)

    def is_value(self, s, x, a, n, P):
        if s.norm(self.range_val(s, x, s.norm(a), n) - P) is not ZERO:
            raise Fail('written part changed')

    def verify(self, s, key, gv, bv):
        """bv, after the iteration, is what the generalisation says for k + 1"""
        it = self.it
        bv = it.resolve_enum(s, bv)
        if bv is UNINIT:
            raise Fail('uninit %r' % (key,))
        if key in self.ind:
            v0, d = self.ind[key]
            if not isinstance(bv, Poly) or s.norm(bv - v0 - self.k * d - d) is not ZERO:
                self.forced.add(key)
                raise Retry()
            if key in self.nonneg and not s.prove_ge0(bv):
                raise Fail('counter may go below zero')
            for (r, s0, e0, ks, ke) in self.iters:
                if key in (ks, ke):
                    a = s0 if ks not in self.ind else self.ind[ks][0] + (self.k + 1) * self.ind[ks][1]
                    z = e0 if ke not in self.ind else self.ind[ke][0] + (self.k + 1) * self.ind[ke][1]
                    if not s.prove_ge0(z - a):
                        raise Fail('iterator bound')
            return
        if key in self.free:
            c = self.free[key]
            if c['kind'] == 'any':
                return
            if c['bool']:
                if not it.is_bool(bv):
                    raise Fail('bool')
                return
            if not isinstance(bv, Poly):
                raise Fail('free')
            ok = s.prove_ge0(bv - c['lo']) and s.prove_ge0(C(c['hi']) - bv)
            ok = ok and all(s.prove_ge0(u - bv) for u in c['facts'])
            if ok and c['mult'] is not None:
                n = s.norm(bv)
                ok = n is ZERO or s.div_by_pow2(n, c['mult'])
            if not ok:
                n = sum(1 for x in self.nobound if x[0] == key)
                if n >= 2:
                    raise Fail('free range')
                self.nobound.add((key, n))
                raise Retry()
            return
        gv = it.resolve_enum(self.G, gv)
        if isinstance(gv, Poly):
            if not isinstance(bv, Poly) or s.norm(gv - bv) is not ZERO:
                self.forced.add(key)
                raise Retry()
        elif it.is_bool(gv):
            if gv == bv:
                return
            t = s.truth(gv)
            if t is None or not it.is_bool(bv) or s.truth(bv) != t:
                self.forced.add(key)
                raise Retry()
        elif isinstance(gv, Agg):
            if not isinstance(bv, Agg) or gv.var != bv.var or len(gv.fs) != len(bv.fs):
                raise Fail('agg changes')
            for i, (x, y) in enumerate(zip(gv.fs, bv.fs)):
                self.verify(s, key + (i,), x, y)
        elif isinstance(gv, It):
            if not isinstance(bv, It) or gv.kind != bv.kind or len(gv.a) != len(bv.a):
                raise Fail('iter changes')
            for i, (x, y) in enumerate(zip(gv.a, bv.a)):
                if isinstance(x, (Poly, It, Agg)):
                    self.verify(s, key + (i,), x, y)
        elif isinstance(gv, Ref):
            if not isinstance(bv, Ref) or gv.obj != bv.obj or len(gv.path) != len(bv.path):
                raise Fail('ref changes')
            for x, y in zip(gv.path, bv.path):
                if x == y:
                    continue
                if not (isinstance(x, tuple) and isinstance(y, tuple) and s.norm(x[1] - y[1]) is ZERO):
                    raise Fail('ref path changes')
            if gv.sl is not None:
                if bv.sl is None:
                    raise Fail('ref')
                for i in (0, 1):
                    self.verify(s, key + ('s', i), gv.sl[i], bv.sl[i])
        elif isinstance(gv, VecV):
            if key in self.vecs:
                return
            if not isinstance(bv, VecV) or not self.same_vec(s, gv, bv):
                raise Fail('vec changes later %r' % (key,))
        elif isinstance(gv, SymE):
            if not (isinstance(bv, SymE) and bv.uid == gv.uid):
                raise Fail('enum changes')
        elif isinstance(gv, (Opq,)):
            return
        elif gv is not bv and gv != bv:
            raise Fail('value changes')

    def equations(self, s, ps):
        """one linear equation (list of coefficient polys over loop invariants) per monomial"""
        table = {}
        for j, p in enumerate(ps):
            for (pw, fs), c in p.t:
                dep, inv = [], []
                for a, e in fs:
                    (inv if self.inv_atom(a) else dep).append((a, e))
                dpw = ipw = None
                if pw is not None:
                    if self.invariant(pw):
                        ipw = pw
                    else:
                        dpw = pw
                key = (dpw, tuple(dep))
                co = Poly.make({(ipw, tuple(inv)): c})
                table.setdefault(key, {})
                table[key][j] = table[key].get(j, ZERO) + co
        n = len(ps)
        return [[r.get(j, ZERO) for j in range(n)] for r in table.values()]

    def inv_atom(self, a):
        return all(x.uid <= self.mark for x in a.deep if x.kind == 'sym')


class Retry(Exception):
    pass


def _unit(p):
    """p is c * 2^e: its inverse, else None"""
    if len(p.t) == 1:
        (pw, fs), c = p.t[0]
        if not fs:
            from fractions import Fraction as F
            ic = F(1) / F(c)
            if ic.denominator == 1:
                ic = int(ic)
            return Poly.make({(None if pw is None else -pw, ()): ic})
    return None


def null_space(rows, n):
    """null space of a matrix of Polys, fraction free where a pivot is not a unit"""
    rows = [list(r) for r in rows if any(x.t for x in r)]
    piv = []
    used = 0
    # prefer to eliminate what was written and the carries last, so that they end up as pivots
    for col in range(n):
        best = None
        for i in range(used, len(rows)):
            if rows[i][col].t:
                u = _unit(rows[i][col])
                key = (u is None, len(rows[i][col].t))
                if best is None or key < best[0]:
                    best = (key, i, u)
        if best is None:
            continue
        _, i, u = best
        rows[used], rows[i] = rows[i], rows[used]
        r = rows[used]
        if u is not None:
            r = rows[used] = [x * u for x in r]
        for q in range(len(rows)):
            if q == used or not rows[q][col].t:
                continue
            f = rows[q][col]
            if u is not None:
                rows[q] = [x - y * f for x, y in zip(rows[q], r)]
            else:
                p = r[col]
                rows[q] = [x * p - y * f for x, y in zip(rows[q], r)]
        piv.append((used, col))
        used += 1
        rows = rows[:used] + [r for r in rows[used:] if any(x.t for x in r)]
        if used == len(rows):
            pass
    pc = {c for _, c in piv}
    out = []
    for f in range(n):
        if f in pc:
            continue
        v = [ZERO] * n
        need = [(r, c) for r, c in piv if rows[r][f].t]
        prod = ONE
        for r, c in need:
            if rows[r][c] is not ONE:
                prod = prod * rows[r][c]
        v[f] = prod
        ok = True
        for r, c in need:
            p = -rows[r][f]
            for r2, c2 in need:
                if r2 != r and rows[r2][c2] is not ONE:
                    p = p * rows[r2][c2]
            v[c] = p
        if ok:
            out.append(v)
    return out
