"""Runs many (operation, case) jobs in worker processes."""
import multiprocessing as mp
import os
import resource
import time
from mir import Program
import judge
import contracts

_P = None
_path = None


def _init(path):
    global _P, _path
    if _path != path:
        _P, _path = Program(path), path
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass


def _work(job):
    fid, ci, opts = job
    fn = _P.fns[fid]
    case = judge.cases_of(_P, fn)[ci]
    r = judge.Report(fn.full or fn.path, case)
    r.fid, r.ci = fid, ci
    r.file, r.line = fn.file, fn.line
    r.proved = False
    try:
        j = judge.make_job(_P, fn, case)
        if opts.get('prove'):
            j.prove(r, opts['prove'])
        if not r.proved and opts.get('refute'):
            j.refute(r, opts['refute'], opts.get('lens', (2, 3)))
    except judge.NoSpec as e:
        r.error = 'no specification: %s' % e
    except MemoryError:
        r.error = 'memory'
    except Exception as e:
        import traceback
        r.error = 'internal: %r' % (e,)
        r.trace = traceback.format_exc()
    r.fns = {(_P.fns[i].full or _P.fns[i].path) for i in r.fns}
    return r


def run(path, jobs, nproc=8, progress=None, deadline=None):
    """jobs: [(fn id, case index, opts)] -> [Report], in completion order; stops at the deadline"""
    global _P, _path
    out = []
    if not jobs:
        return out
    if _path != path:
        _P, _path = Program(path), path         # inherited by the forked workers
    ctx = mp.get_context('fork')
    with ctx.Pool(nproc, _init, (path,), maxtasksperchild=40) as pool:
        it = pool.imap_unordered(_work, jobs, chunksize=1)
        for _ in range(len(jobs)):
            try:
                r = it.next(None if deadline is None else max(0.1, deadline - time.time()))
            except mp.TimeoutError:
                break
            out.append(r)
            if progress:
                progress(r)
        pool.terminate()
    return out
