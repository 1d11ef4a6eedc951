"""Which check decides which property."""
import opcheck
import kernelcheck
import modjob
import parsejob
from opcheck import select

STD = ['std::ops::']
ARITH = ['std::ops::', 'ops::']


def both(*names):
    return set(names) | {n + '_assign' for n in names}


def ops(names, traits, floor, inherent=False, types=None, kernels=None, share=0.5, bounded=False, **kw):
    def check(ctx):
        if kernels:
            kernelcheck.run(ctx, kernels[0], kernels[1], share=share)
        opcheck.run(ctx, lambda P: select(P, names, traits, inherent, types), floor, **kw)
        opcheck.finish(ctx, bounded)
    return check


def bigs(P, f, ts):
    return any(t in (P.t_ubig, P.t_ibig) for t in [P.strip_ref(t) for t in f.sig[0]] + [f.sig[1]])


def convs(P, f, ts):
    t = P.types[f.sig[1]]
    out = [f.sig[1]] + t.get('args', [])
    return bigs(P, f, ts) or P.t_ubig in out or P.t_ibig in out


DIVS = ('div', 'rem', 'div_rem', 'div_euclid', 'rem_euclid', 'div_rem_euclid')

def modular(kinds, floor, only):
    def check(ctx):
        opcheck.run(ctx, lambda P: [f for f in P.fns if modjob.wants(P, f)], floor, kinds=kinds, only=only, prove=2, refute=60, lens=(2,))
        opcheck.finish(ctx)
    return check


def scripted(mod, floor, **kw):
    def check(ctx):
        opcheck.run(ctx, lambda P: [f for f in P.fns if mod.wants(P, f)], floor, prove=20, refute=40, **kw)
        opcheck.finish(ctx, True)
    return check


def misuse(f, c):
    return not c.same or f.name in ('new', 'div', 'div_assign') or f.name == 'pow_signed' and c.sign


CHECKS = {
    'P01': ops(both('add', 'sub'), STD, 420, kernels=(['add::'], 13)),
    'P02': ops(both('mul'), STD, 240, kernels=(['mul::'], 14)),
    'P03': ops(both(*DIVS), ARITH, 600, kernels=(['div::', 'fast_divide::'], 12), share=0.25),
    'P04': ops(both('bitand', 'bitor', 'bitxor') | {'not', 'and_not'}, ARITH, 800),
    'P05': ops(both('shl', 'shr'), STD, 20, kernels=(['shift::'], 2)),
    'P06': ops({'eq', 'ne', 'cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge'}, ['std::cmp::'], 5, kernels=(['cmp::'], 1)),
    'P08': ops({'from', 'try_from'}, ['std::convert::'], 70, types=convs),
    'P09': ops({'bit', 'set_bit', 'clear_bit', 'bit_len', 'trailing_zeros', 'is_power_of_two', 'next_power_of_two'}, ['ops::'], 7, inherent=True, types=bigs),
    'P10': ops({'neg', 'abs', 'unsigned_abs', 'signum'}, ['std::ops::', 'ops::', 'num_traits::'], 8, inherent=True, types=bigs),
    'P11': ops({'pow'}, ['num_traits::'], 6, inherent=True, types=bigs, bounded=True),
    'P12': ops({'zero', 'one', 'is_zero', 'is_positive', 'is_negative', 'abs_sub', 'default', 'clone', 'clone_from'},
               ['num_traits::', 'std::default::', 'std::clone::'], 13, types=bigs),
    'P13': modular({'must', 'panic'}, 45, misuse),
    'P14': modular({'value', 'canonical', 'panic'}, 45, lambda f, c: c.same and f.name != 'new'),
    'P16': scripted(parsejob, 7),
    'P23': ops({'from_le_bytes', 'from_be_bytes', 'to_le_bytes', 'to_be_bytes'}, [], 4, inherent=True, bounded=True),
    'P26': ops({'to_f32', 'to_f64'}, ['num_traits::'], 4, inherent=True, types=bigs),
}
