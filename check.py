#!/usr/bin/env python3
"""check.py <property id>: decides one property of /repo's current source by static analysis.

Builds the MIR driver, dumps the type-checked and monomorphised program of /repo's working tree, and
hands it to the property's analysis.  Exit 0: held on everything analysed.  Exit 1 and a VIOLATION
line: broken.  The report and the evidence file are rewritten on every run.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'checks')]
REPO = os.environ.get('VP_REPO', '/repo')


class Ctx:
    def __init__(self, pid, scratch):
        self.pid, self.scratch = pid, scratch
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.dumps = {}
        self.progs = {}
        self.viol = []          # (key, text)
        self.cov = {}
        self.assumptions = []
        self.level = 'other'
        self.samples = []
        self.notes = []
        self.repo = REPO

    def left(self, total=None):
        lim = total or (800 if self.tier == 'quick' else 3 * 3600)
        return lim - (time.time() - self.t0)

    def build_driver(self):
        drv = os.path.join(self.scratch, 'mirdump')
        if not os.path.exists(drv):
            r = subprocess.run(['rustc', '+nightly', '-O', '--edition', '2021', os.path.join(HERE, 'driver', 'main.rs'), '-o', drv],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                die('the MIR driver does not build:\n' + r.stdout[-3000:])
        return drv

    def dump(self, config='native', debug=False):
        """path of the dump of /repo in a configuration; debug: False, True (debug build) or 'asserts' (without overflow checks)"""
        key = config + ('+' + str(debug) if debug else '')
        if key in self.dumps:
            return self.dumps[key]
        drv = self.build_driver()
        out = os.path.join(self.scratch, key + '.json')
        sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()
        onoff = {False: ('off', 'off'), True: ('on', 'on'), 'asserts': ('on', 'off')}[debug]
        flags = '-Zalways-encode-mir -Zmir-opt-level=1 -Cdebug-assertions=%s -Coverflow-checks=%s --cap-lints=allow' % onoff
        if config.startswith('bits'):
            flags += ' --cfg force_bits="%s"' % config[4:]
        env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'), MIRDUMP_OUT=out,
                   CARGO_TARGET_DIR=os.path.join(self.scratch, 'target-' + key), RUSTC_WORKSPACE_WRAPPER=drv,
                   CARGO_INCREMENTAL='0', RUSTFLAGS=flags)
        lock = os.path.join(self.repo, 'Cargo.lock')
        if not os.path.exists(lock):
            shutil.copy(os.path.join(HERE, 'data', 'Cargo.lock'), lock)
        r = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--all-features', '--offline', '--manifest-path', os.path.join(self.repo, 'Cargo.toml')],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=self.scratch)
        if r.returncode or not os.path.exists(out):
            die('the program could not be dumped:\n' + r.stdout[-3000:])
        self.dumps[key] = out
        return out

    def prog(self, config='native', debug=False):
        key = config + ('+' + str(debug) if debug else '')
        if key not in self.progs:
            from mir import Program
            self.progs[key] = Program(self.dump(config, debug))
        return self.progs[key]

    def violation(self, key, text):
        self.viol.append((key, text))

    def lost(self, what):
        """an anchor the analysis needs is gone: it cannot say that the property holds"""
        die('anchor lost: ' + what)


def die(msg):
    print(msg)
    sys.exit(3)


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known-findings')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out[key] = text
    return out


def main():
    pid = sys.argv[1]
    import props
    if pid not in props.CHECKS:
        die('no check for ' + pid)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        ctx = Ctx(pid, scratch)
        props.CHECKS[pid](ctx)
        kn = known(pid)
        new, old = [], []
        for k, t in ctx.viol:
            (old if k in kn else new).append((k, t))
        for k in sorted({k for k, _ in old}):
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
        cov = dict(ctx.cov)
        if ctx.level == 'proof' and cov.get('obligations') != cov.get('discharged'):
            ctx.level = 'other'
        if ctx.notes:
            cov['notes'] = ctx.notes
        if ctx.samples:
            cov['samples'] = ctx.samples[:40]
        res = {'property': pid, 'tier': ctx.tier if ctx.tier in ('quick', 'thorough') else 'quick', 'seed': ctx.seed, 'level': ctx.level,
               'coverage': cov, 'assumptions': ctx.assumptions, 'wall_s': round(time.time() - ctx.t0, 1), 'violations': len({k for k, _ in new})}
        json.dump(res, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
        rep = os.path.join(ev, pid + '.report.txt')
        with open(rep, 'w') as f:
            for k, t in new:
                f.write('%s\n%s\n\n' % (k, t))
        if new:
            for k, t in new[:20]:
                print('%s\n  %s' % (k, t.replace('\n', '\n  ')))
            print('VIOLATION property=%s replay=%s' % (pid, rep))
            sys.exit(1)
        print('%s: held on everything analysed (%s)' % (pid, ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int))))
        sys.exit(0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    main()
