"""Checks of the internal word-sequence functions against their contracts (engine/kernel.py)."""
import multiprocessing as mp
import resource
import time
import kernel
import kjob
from mir import Program

_P = None
_roots = None


def _work(job):
    i, lens, secs = job
    fn, tg, f = _roots[i]
    j = kjob.KJob(_P, fn, tg, f)
    r = kjob.KReport(fn.full or fn.path)
    r.i, r.asked, r.file, r.line = i, lens, fn.file, fn.line
    try:
        if lens is None:
            j.prove(r, secs)
        else:
            j.refute(r, secs, lens)
    except MemoryError:
        r.error = 'memory'
    except Exception as e:
        r.error = 'internal: %r' % (e,)
    r.fns = {(_P.fns[x].full or _P.fns[x].path) for x in r.fns}
    return r


def quick_lens(fn, tg):
    ls = kernel.lens_of(tg, fn)
    t = tg.split('->')[0]
    mod = fn.path.rsplit('::', 1)[0]
    if t == 'MsSSm':
        if 'toom_3' in mod:
            return [l for l in ls if min(l[1:]) >= 16 and max(l[1:]) <= 60]
        if 'karatsuba' in mod:
            return [l for l in ls if max(l[1:]) <= 60]
        return [l for l in ls if max(l[1:]) <= 9 or l[1:] in ((16, 16), (25, 25), (1024, 3), (1025, 3), (60, 25), (40, 19))]
    if t == 'MSF':
        return [l for l in ls if l[0] <= 4]
    return ls


def run(ctx, modules, floor, quick=40, debug='asserts', config='native', share=0.5):
    """decides the contract of every function of the modules that has one"""
    global _P, _roots
    path = ctx.dump(config, debug)
    _P = ctx.prog(config, debug)
    _roots = [r for r in kernel.roots(_P) if any(r[0].path.startswith(m) for m in modules)]
    if len(_roots) < floor:
        ctx.notes.append('only %d of the expected %d internal functions found' % (len(_roots), floor))
    jobs = []
    for i, (fn, tg, f) in enumerate(_roots):
        jobs.append((i, None, 12))
    for i, (fn, tg, f) in enumerate(_roots):
        ls = quick_lens(fn, tg) if ctx.tier == 'quick' else kernel.lens_of(tg, fn)
        jobs += [(i, l, quick if ctx.tier == 'quick' else 600) for l in ls]
    deadline = time.time() + share * ctx.left()
    done = []
    if jobs:
        with mp.get_context('fork').Pool(8, _limit, maxtasksperchild=20) as pool:
            it = pool.imap_unordered(_work, jobs, chunksize=1)
            for _ in jobs:
                try:
                    done.append(it.next(max(0.1, deadline - time.time())))
                except mp.TimeoutError:
                    break
            pool.terminate()
    c = ctx.cov
    exits = unk = unw = inc = err = proved = 0
    fns = set()
    seen = set()
    for r in done:
        fns |= r.fns
        proved += r.proved
        if r.asked is None:
            continue
        err += r.error is not None
        for lens, n, u, w, i in r.lens:
            exits += n
            unk += u
            unw += w
            inc += i
        for kind, what, lens, w in r.viol:
            key = '%s %s' % (r.root, kind)
            if key in seen:
                continue
            seen.add(key)
            inp = ', '.join('%s=%s' % (k.split('#')[0], v) for k, v in sorted(w.items()))
            ctx.violation(key, '%s:%s: %s breaks its contract with slices of %s words: %s; e.g. %s' % (r.file, r.line, r.root, lens, what, inp[:600]))
    for k, v in (('kernel_functions', len(_roots)), ('kernel_functions_proved_for_all_lengths', proved), ('kernel_length_cases', sum(r.asked is not None for r in done)),
                 ('kernel_cases_not_finished', err), ('kernel_exit_states', exits), ('kernel_exit_states_imprecise', unk),
                 ('kernel_exit_states_undecided', unw), ('kernel_functions_analysed', len(fns))):
        c[k] = c.get(k, 0) + v
    ctx.samples.append('internal functions: ' + ', '.join(sorted((f.full or f.path) for f, _, _ in _roots)))


def _limit():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
