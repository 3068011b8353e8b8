"""N06 rationals, N07 residues modulo a word-sized prime."""
import ir, scalar, kernel
from numbers_util import report

KINDS = {'N06': {'canonical', 'zeroden', 'value', 'divzero'}, 'N07': {'constants', 'residue', 'value', 'kernel'}}
RULE = {
    'N06': 'abstract interpretation of every rational operation over value numbers, the integer class taken as exact integers: at every exit numerator and denominator are proved coprime with a positive denominator (gcd facts), the quotient equals the specified one, and a zero denominator or divisor never reaches a normal return',
    'N07': 'abstract interpretation of every residue operation over value numbers: at every exit the reduction constants belong to the modulus stored beside them, the residue is proved in 0..p-1, and it is congruent to the specified sum, difference, product, quotient or comparison; the modular-product kernel is only entered with reduced operands and matching constants',
}


def kernels(prog, rep):
    m = scalar.ZpModel(prog)
    C = kernel.certify
    P = kernel.params_of
    f = m.pre
    kernel.report(rep, f, 'the normalised inverse and shift of every modulus', C(f, P(f, ['p', 'ninv', 'norm']), [(kernel.F0, d) for d in f.params[1:]], 'precompute', ['p', 'ninv', 'norm'], ('ninv', 'norm')))
    for k in sorted(m.mulk):
        f = prog.fns[k]
        kernel.report(rep, f, 'the residue of the product', C(f, P(f, ['a', 'b']) + kernel.members({'_norm': 32}, _p='p', _ninv='ninv', _norm='norm'), [], 'mulmod', ['a', 'b', 'p', 'ninv', 'norm'], (), [('a', 'b')]))
    for f in prog.byname('inv_prime'):
        if len(f.params) == 2 and f.blocks:
            kernel.report(rep, f, 'the inverse modulo the prime', C(f, P(f, ['i', 'p']), [], 'inverse', ['i', 'p']))


def run(prop, tier, rep):
    for cfg in ['rel'] if tier == 'quick' else ['rel', 'dbg']:
        prog = ir.load(cfg)
        found, cov = (scalar.analyse_q if prop == 'N06' else scalar.analyse_zp)(prog)
        for k, v in cov.items():
            rep.count(k, v)
        report(prop, rep, found, KINDS[prop])
        if prop == 'N07':
            kernels(prog, rep)
    rep.need('functions', 30)
    rep.need('exit_states', 60)
    rep.rule = RULE[prop]
