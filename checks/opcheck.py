"""Checks that decide the meaning of public operations with the abstract interpreter."""
import re
import time
import batch
import judge


def select(P, names, traits=None, inherent=False, types=None):
    """roots: reachable local functions with one of the names, in one of the traits (or inherent)"""
    out = []
    for f in P.fns:
        if not (f.local and f.bbs and f.reach) or f.name not in names:
            continue
        tr = (f.impl_trait or '').split('<')[0]
        if tr:
            if traits is None or not any(tr.startswith(t) for t in traits):
                continue
        elif not inherent:
            continue
        ts = [P.strip_ref(t) for t in f.sig[0]] + [f.sig[1]]
        if any(P.types[t]['n'].startswith('modular::') or P.types[t]['k'] in ('param', 'alias') for t in ts):
            continue
        if any(P.types[t]['n'].startswith('modular::') for t in [P.strip_ref(x) for x in ts]):
            continue
        if types and not types(P, f, ts):
            continue
        out.append(f)
    return out


def weight(P, f):
    """big-number operands first: the primitive forms are defined through them"""
    ts = [P.strip_ref(t) for t in f.sig[0]]
    return (any(t not in (P.t_ubig, P.t_ibig) for t in ts), f.full or f.path)


def run(ctx, roots_of, floor, kinds=None, prove=12, refute=25, config='native', lens=(2, 3), only=None, far_lens=(2, 5)):
    """Decides the obligations of every root; roots_of(P) -> [Fn]"""
    P = ctx.prog(config)
    roots = sorted(roots_of(P), key=lambda f: weight(P, f))
    if len(roots) < floor:
        ctx.lost('%d operations found where there were at least %d' % (len(roots), floor))
    path = ctx.dump(config)
    t_end = time.time() + ctx.left()
    jobs = []
    for f in roots:
        for i, c in enumerate(judge.cases_of(P, f)):
            if only is None or only(f, c):
                jobs.append((f.id, i))
    done = {}
    first = batch.run(path, [(a, b, {'prove': prove}) for a, b in jobs], deadline=time.time() + 0.45 * (t_end - time.time()))
    for r in first:
        done[r.fid, r.ci] = r
    rest = [j for j in jobs if j not in done or not done[j].proved and not str(done[j].error or '').startswith('no spec')]
    left = t_end - time.time()
    if rest and left > 5:
        per = max(refute, int(left * 8 * 0.8 / len(rest)))
        second = batch.run(path, [(a, b, {'refute': min(per, 4 * refute), 'lens': lens}) for a, b in rest], deadline=t_end)
        for r in second:
            o = done.get((r.fid, r.ci))
            if o is not None:
                r.obl, r.undecided, r.exits, r.panics, r.size_panics, r.error = o.obl, o.undecided, o.exits, o.panics, o.size_panics, o.error
                r.fns |= o.fns
                r.summaries = max(r.summaries, o.summaries)
            done[r.fid, r.ci] = r
    # operands of very different lengths, where a short one is followed by a long tail
    far = [j for j in rest if (r := done.get(j)) is not None and not r.viol and sum(P.strip_ref(t) in (P.t_ubig, P.t_ibig) for t in P.fns[j[0]].sig[0]) >= 2]
    left = t_end - time.time()
    t_end = min(t_end, time.time() + 75)
    if far and left > 20:
        third = batch.run(path, [(a, b, {'refute': int(max(refute, min(4 * refute, left * 8 * 0.8 / len(far)))), 'lens': far_lens}) for a, b in far], deadline=t_end)
        for r in third:
            done[r.fid, r.ci].viol += r.viol
    tag = '' if config == 'native' else config + '_'
    cov = ctx.cov
    tot = dis = 0
    proved = 0
    fns = set()
    und = {}
    for j in jobs:
        r = done.get(j)
        if r is None:
            und['no time left'] = und.get('no time left', 0) + 1
            continue
        fns |= r.fns
        for k, (d, t) in r.obl.items():
            dis += d
            tot += t
        proved += r.proved
        seen = set()
        for kind, what, w in r.viol:
            if kinds and kind not in kinds:
                continue
            key = '%s %s %s' % (r.root, r.case, kind)
            if key in seen:
                continue
            seen.add(key)
            inp = ', '.join('%s=%s' % (k.split('#')[0], v) for k, v in sorted(w.items()))
            ctx.violation(key, '%s:%s: %s [%s]: %s; e.g. %s' % (r.file, r.line, r.root, r.case, what, inp))
        if not r.proved and not r.viol:
            why = r.error or getattr(r, 'r_error', None) or ('refutation complete, no proof' if hasattr(r, 'r_exits') and not getattr(r, 'r_incomplete', 0) else 'no proof')
            why = why.split(':')[0] if why.startswith(('Budget', 'Unsup')) else why
            und[why] = und.get(why, 0) + 1
    cov[tag + 'operations'] = cov.get(tag + 'operations', 0) + len(roots)
    cov[tag + 'cases'] = cov.get(tag + 'cases', 0) + len(jobs)
    cov[tag + 'cases_proved'] = cov.get(tag + 'cases_proved', 0) + proved
    cov[tag + 'cases_searched_for_violations'] = cov.get(tag + 'cases_searched_for_violations', 0) + sum(1 for r in done.values() if hasattr(r, 'r_exits'))
    cov['obligations'] = cov.get('obligations', 0) + tot
    cov['discharged'] = cov.get('discharged', 0) + dis
    cov[tag + 'functions_analysed'] = len(fns)
    cov[tag + 'size_limit_panics_accepted'] = sum(r.size_panics for r in done.values())
    cov[tag + 'loop_summaries'] = sum(r.summaries for r in done.values())
    if und:
        cov[tag + 'undecided'] = und
    for j in jobs[:: max(1, len(jobs) // 12)]:
        r = done.get(j)
        if r is not None:
            ctx.samples.append('%s [%s]: %s %s' % (r.root, r.case, 'proved' if r.proved else 'undecided', r.obl))
    return done, jobs


EXPL = ('Abstract interpretation of the monomorphised MIR of /repo: numbers are polynomials over symbolic word sequences and powers of two, '
        'loops over words are summarised by inferred affine invariants, branches are partitioned, calls of other public operations are '
        'replaced by their specification (which the suite decides separately). Each exit state yields obligations (value, canonical form, '
        'sign of zero, required panic, no other panic). An obligation is discharged when it follows in the domain; it is reported only when '
        'with loops unrolled over 2 and 3 word operands and nothing joined an exit is inhabited by operands that break it.')


def finish(ctx, bounded=False):
    c = ctx.cov
    c['explanation'] = EXPL
    c['rule'] = 'one case per operation, operand sign combination and fixed small exponent'
    if not bounded and c.get('cases') and c.get('cases') == c.get('cases_proved') and c['obligations'] == c['discharged']:
        ctx.level = 'proof'
        c['checker_cmd'] = './check.sh %s' % ctx.pid
        c['trusted_base'] = ['rustc nightly MIR', 'models of std in engine/models.py', 'engine/*.py', 'specifications in engine/spec.py']
    ctx.assumptions += ['size-limit panics are allowed by the specification', 'the models of core/alloc functions in engine/models.py are right']
