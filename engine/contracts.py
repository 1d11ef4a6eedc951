"""Calls of one public operation from another are replaced by the operation's specification.

This is assume/guarantee reasoning over a strict order: an operation may only assume operations of a
lower rank, and every one of those is itself a root whose obligations are decided by the same check
suite, so no operation is assumed by itself.
"""
from poly import *
from state import *
from interp import *
from spec import *
import spec as _spec
import kernel


def rank(P, fn):
    """position of a public operation in the order, or None when it may not be assumed"""
    if not fn.local or not fn.impl_trait or not fn.sig:
        return None
    tr = fn.impl_trait.split('<')[0]
    n = fn.name
    base = n[:-7] if n.endswith('_assign') else n
    if not tr.startswith(('std::ops::', 'ops::', 'std::cmp::')):
        return None
    if base not in OPS and base not in DIVS and base not in ('cmp', 'eq'):
        return None
    ts = [P.strip_ref(t) for t in fn.sig[0]]
    if any(t not in (P.t_ubig, P.t_ibig) and P.types[t]['k'] not in ('uint', 'int') for t in ts):
        return None
    r = 0
    if P.t_ibig in ts:
        r = 2
    if base not in ('shl', 'shr') and any(t not in (P.t_ubig, P.t_ibig) for t in ts):
        r = 4
    if n.endswith('_assign'):
        r += 1
    return r


def root_rank(P, fn):
    r = rank(P, fn)
    return 9 if r is None else r


def make(it, st, e, ti):
    """a value of type ti that is what the expectation e says"""
    P = it.P
    if isinstance(e, Num):
        p = st.norm(e.p)
        if ti == P.t_ubig:
            return it.big(st, p)
        if ti == P.t_ibig:
            neg = case(st, ('ge', -p - 1))
            t = it.T(ti)['v'][0][2]
            fs = []
            for i, f in enumerate(t):
                if i == P.f_sign:
                    fs.append(Agg(P.t_sign, P.v_neg if neg else P.v_pos, []))
                elif i == P.f_mag:
                    fs.append(it.big(st, st.norm(-p) if neg else p))
                else:
                    fs.append(it.fresh(st, f[1]))
            return Agg(ti, 0, fs)
        r = it.int_range(ti)
        if r is None:
            raise NoSpec('result')
        if not st.assume(('ge', p - r[0])) or not st.assume(('ge', C(r[1]) - p)):
            raise Infeasible()
        return p
    if isinstance(e, Cond):
        return e.b
    if isinstance(e, Ordr):
        names = [v[0] for v in it.T(ti)['v']]
        if case(st, ('eq', e.d)):
            n = 'Equal'
        else:
            n = 'Greater' if case(st, ('ge', e.d - 1)) else 'Less'
        return Agg(ti, names.index(n), [])
    if isinstance(e, Tup):
        t = it.T(ti)
        return Agg(ti, 0, [make(it, st, x, f) for x, f in zip(e.xs, t['f'])])
    raise NoSpec('result shape')


def for_root(P, root):
    return [public(P, root), kernel.pred()]


def public(P, root):
    """contracts of the public operations that the analysis of root may assume"""
    from judge import num_of, Shape
    lim = 99 if root is None else root_rank(P, root)

    def pred(it, fn):
        r = rank(P, fn)
        if r is None or r >= lim or fn is root:
            return None
        atys = [P.strip_ref(t) for t in fn.sig[0]]
        inplace = is_inplace(it, fn)

        def model(it, st, fn, args, dest_ty, tys, f):
            vals, sems = [], []
            for a, t in zip(args, atys):
                v = a
                hop = 0
                while isinstance(v, Ref) and v.sl is None and hop < 4:
                    v = it.load(st, Loc(v.obj, v.path))
                    hop += 1
                try:
                    sems.append(num_of(it, st, v, t, []))
                except Shape:
                    return unknown(it, st, fn, args, dest_ty)
            out_ty = atys[0] if inplace else dest_ty
            sp = spec_for(it, st, fn, atys, sems, out_ty)
            if sp.must != FALSE:
                t = st.truth(sp.must)
                if t is None:
                    raise Split([lambda s: s.assume(sp.must), lambda s: s.assume(bnot(sp.must))])
                if t:
                    it.panics.append(('contract', tuple(x.path for x in it.stack) + (fn.path,), None, st.copy()))
                    raise Infeasible()
            if sp.may != FALSE and st.truth(sp.may) is not False:
                t = st.truth(sp.may)
                if t is None:
                    raise Split([lambda s: s.assume(sp.may), lambda s: s.assume(bnot(sp.may))])
                return unknown(it, st, fn, args, dest_ty)
            v = make(it, st, sp.out, out_ty)
            if inplace:
                it.store(st, Loc(args[0].obj, args[0].path), v)
                return it.zst(dest_ty)
            return v
        return model
    return pred


def unknown(it, st, fn, args, dest_ty):
    st.unk = True
    outs = it.havoc_call(st, fn, args, dest_ty)
    return Multi(outs) if isinstance(outs, list) else outs
