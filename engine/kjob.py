"""Decides the contracts of the crate's internal word-sequence functions (kernel.py).

The body of one function is analysed with every other function of the table replaced by its contract:
assume/guarantee over the call graph (a recursive algorithm assumes itself only on the operands of its
own calls, which the contract's precondition requires to be shorter or of another algorithm).
"""
import signal
import time
from poly import *
from state import *
from interp import *
from judge import Timeout, _alarm, c_atoms, is_size_panic
import kernel
import witness


class KReport:
    def __init__(self, root):
        self.root = root
        self.proved = False
        self.undecided = []
        self.viol = []
        self.exits = self.panics = self.obl = self.ok = 0
        self.lens = []
        self.error = None
        self.secs = 0
        self.fns = set()


class KJob:
    def __init__(self, P, fn, tg, f):
        self.P, self.fn, self.tg, self.f = P, fn, tg, f

    def start(self, it, lens):
        st = State()
        args = kernel.setup(it, st, self.fn, self.tg, lens)
        return kernel.prepare(it, st, self.fn, self.tg, args)

    def promised(self, it, st, args):
        """the outcome the contract promises, as formulas over the operands on entry; None: outside the precondition"""
        a = kernel.RootA(it, st, self.tg, args, self.fn.sig[0])
        return self.f(a)

    def go(self, it, lens, rep, judge):
        for s0, args in self.start(it, lens):
            try:
                parts = it.exec_split(s0, lambda c: self.promised(it, c, args))
            except Infeasible:
                continue
            for s, d in parts:
                np = len(it.panics)
                outs = it.run(self.fn, list(args), s)
                judge(args, d, outs, it.panics[np:])

    def prove(self, rep, secs, budget=60000):
        it = Interp(self.P, [kernel.pred(), kernel_prim(self.P, self.fn)], budget)

        def judge(args, d, outs, panics):
            for s, v in outs:
                rep.exits += 1
                for c, obl in it.exec_split(s, lambda c, v=v: kernel.judge_exit(it, c, v, self.fn, self.tg, d, args, None)):
                    for kind, b, what in obl:
                        rep.obl += 1
                        if c.truth(b) is True:
                            rep.ok += 1
                        else:
                            rep.undecided.append(what)
            for p in panics:
                if not is_size_panic(p):
                    rep.panics += 1
                    rep.undecided.append('%s in %s: %s' % (p[0], p[1][-1] if p[1] else '', p[2]))
        self.guard(rep, it, secs, lambda: self.go(it, None, rep, judge))
        rep.proved = rep.error is None and not rep.undecided and rep.exits > 0

    def refute(self, rep, secs, lens, budget=60000):
        it = Interp(self.P, [kernel.pred(), kernel_prim(self.P, self.fn)], budget)
        it.unroll, it.lens, it.merge = 400, (2, 3), False
        State.slicing, State.cuts = True, {}
        n = [0, 0, 0]

        def judge(args, d, outs, panics):
            for s, v in outs:
                n[0] += 1
                if s.unk:
                    n[1] += 1
                    continue
                for c, obl in it.exec_split(s, lambda c, v=v: kernel.judge_exit(it, c, v, self.fn, self.tg, d, args, None)):
                    if c.unk:
                        n[1] += 1
                        continue
                    for kind, b, what in obl:
                        if c.truth(b) is True:
                            continue
                        w = witness.find(c, bnot(b))
                        if w is None:
                            n[2] += 1
                        else:
                            rep.viol.append((kind, what, lens, show(w, it, c)))
            if outs:
                for p in panics:
                    if p[3].unk or is_size_panic(p) or p[3].lastb is None:
                        continue
                    w = witness.find(p[3], TRUE)
                    if w is not None:
                        rep.viol.append(('panic', 'panics (%s%s) in %s' % (p[0], ': ' + str(p[2]) if p[2] else '', p[1][-1] if p[1] else ''), lens, show(w, it, p[3])))
        try:
            self.guard(rep, it, secs, lambda: self.go(it, lens, rep, judge))
        finally:
            State.slicing = False
        rep.lens.append((lens, n[0], n[1], n[2], it.incomplete))

    def guard(self, rep, it, secs, f):
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(secs)
        t0 = time.time()
        rep.error = None
        try:
            f()
        except Timeout:
            rep.error = 'time limit'
        except MemoryError:
            rep.error = 'memory'
        except Exception as e:
            rep.error = '%s: %s' % (type(e).__name__, e)
        finally:
            signal.alarm(0)
            rep.secs += time.time() - t0
            rep.fns |= it.analysed


def kernel_prim(P, fn):
    return lambda it, f: None


def show(w, it, c):
    names = {repr(a) for a in it.inputs}
    d = {k: x for k, x in w.items() if k in names}
    vals = witness.Val(c, {a: w[repr(a)] for a in c_atoms(c, w)})
    for a in it.inputs:
        if repr(a) not in d:
            try:
                d[repr(a)] = vals.atom(a)
            except Exception:
                pass
    return d
