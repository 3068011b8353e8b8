"""N01..N05: the arbitrary-precision integer class, by abstract interpretation of every operation from every
representation of its operands and every way they may name the same object."""
import os, sys
import ir, zz
from absint import *
from numbers_util import report

Z = 'clpoly::ZZ'


def spec(model, f, vals, names):
    """(target -> wanted value number) for the operations whose meaning is fixed; target: 'this', param id, 'ret', or
    ('bool', form, signs) for predicates. None: no value contract (representation and ownership are still checked)."""
    V = lambda d: vals.get(d)
    T = vals.get('this')
    ps = f.params
    n = f.name
    zp = [d for d in ps if model.is_zz(f.vars[d]['t'])]
    P = lambda i: V(ps[i]) if i < len(ps) else None
    w = {}
    # what must not change: operands that are not outputs
    if f.kind in ('cc',):
        return {'this': P(0), ps[0]: P(0)}
    if f.kind == 'mc':
        return {'this': P(0)}
    if f.kind == 'dc':
        return {'this': C(0)}
    if f.kind == 'ctor':
        if len(ps) == 1 and P(0) is not None:
            return {'this': P(0)}
        return {}
    if f.kind == 'dtor':
        return None
    op = f.o.get('op')
    if op == '=' and len(ps) == 1 and P(0) is not None:
        return {'this': P(0)}
    if f.cls == Z and op in ('+=', '-=', '*=', '/=', '%=', '>>=', '<<=') and len(ps) == 1 and P(0) is not None:
        fn = {'+=': l_add, '-=': lambda a, b: l_add(a, b, -1), '*=': zz.l_mul2, '/=': lambda a, b: l_op('tdiv', a, b), '%=': lambda a, b: l_op('tmod', a, b),
              '>>=': lambda a, b: l_op('shr', a, b), '<<=': lambda a, b: l_op('shl', a, b)}[op]
        return {'this': fn(T, P(0))}
    if f.cls is None and op in ('+', '-', '*', '/', '%', '>>', '<<') and len(ps) == 2 and P(0) is not None and P(1) is not None and model.is_zz(f.o['ret']):
        fn = {'+': l_add, '-': lambda a, b: l_add(a, b, -1), '*': zz.l_mul2, '/': lambda a, b: l_op('tdiv', a, b), '%': lambda a, b: l_op('tmod', a, b),
              '>>': lambda a, b: l_op('shr', a, b), '<<': lambda a, b: l_op('shl', a, b)}[op]
        return {'ret': fn(P(0), P(1))}
    if f.cls is None and op == '-' and len(ps) == 1:
        return {'ret': l_scale(P(0), -1)}
    if f.cls is None and op in ('==', '!=', '<', '>', '<=', '>=') and len(zp) == 2:
        return {'bool': (l_add(P(0), P(1), -1), {'==': {0}, '!=': {-1, 1}, '<': {-1}, '>': {1}, '<=': {-1, 0}, '>=': {0, 1}}[op])}
    if f.cls == Z:
        if n == 'operator bool':
            return {'bool': (T, {-1, 1})}
        if n == 'is_zero':
            return {'bool': (T, {0})}
        if n == 'is_one':
            return {'bool': (l_add(T, C(-1)), {0})}
        if n == 'sgn':
            return {'sgn': T}
        if n == 'addmul':
            return {'this': l_add(T, zz.l_mul2(P(0), P(1)))}
        if n == 'submul':
            return {'this': l_add(T, zz.l_mul2(P(0), P(1)), -1)}
        if n == 'fdiv_ui':
            return {'int': l_op('fmod', T, P(0))}
        if n == 'fdiv_q':
            return {ps[0]: l_op('fdiv', P(1), P(2))}
        if n == 'fdiv_qr':
            return {ps[0]: l_op('fdiv', P(2), P(3)), ps[1]: l_op('fmod', P(2), P(3))}
        if n == 'fdiv_r':
            return {ps[0]: l_op('fmod', P(1), P(2))}
        if n == 'swap' and len(ps) == 1:
            return {'this': P(0), ps[0]: T}
    if f.cls is None:
        if n == 'swap' and len(zp) == 2:
            return {ps[0]: P(1), ps[1]: P(0)}
        if n == 'abs' and len(zp) == 1:
            return {'abs': P(0)}
        if n == 'sgn' and len(zp) == 1:
            return {'sgn': P(0)}
        if n == 'pow' and len(ps) == 2:
            return {'ret': l_op('pow', P(0), P(1))}
    return {}


DIVISOR = {('op', '/'): 1, ('op', '%'): 1, ('op', '/='): 0, ('op', '%='): 0, 'fdiv_q': 2, 'fdiv_qr': 3, 'fdiv_r': 2, 'fdiv_ui': 0, 'invert': 2}


def divisor_param(model, f):
    op = f.o.get('op')
    if op in ('/', '%') and f.cls is None and len(f.params) == 2 and model.is_zz(f.o['ret']):
        return f.params[1]
    if op in ('/=', '%=') and f.cls == Z:
        return f.params[0]
    if f.cls == Z and f.name in ('fdiv_q', 'fdiv_qr', 'fdiv_r', 'fdiv_ui', 'invert'):
        return f.params[DIVISOR[f.name]]
    return None


# documented preconditions of the interface that are outside the property: number bases are 2..62
PRE = {('sizeinbase', 'base'): (2, 62)}

KINDS = {'N01': {'representation'}, 'N02': {'leak', 'lifetime', 'double-free', 'null', 'ownership'}, 'N03': {'overflow'},
         'N04': {'divzero', 'nothrow'}, 'N05': {'value'}}


def mutated(model, f, d):
    t = model.prog.T(f.vars[d]['t'])
    return t.get('ref') == 1 and not t.get('const') or t.get('ref') == 2


def analyse(prog):
    model = zz.ZZModel(prog)
    found = []       # kind, function, node, text, label
    cov = {'functions': 0, 'entry_states': 0, 'exit_states': 0, 'arith_obligations': 0, 'division_obligations': 0, 'gmp_calls': 0, 'value_contracts': 0, 'value_obligations': 0, 'alias_cases': 0}
    rows = []
    for f in sorted(model.layer, key=lambda f: (f.file, f.line)):
        if model.private(f):
            continue
        if not (f.cls == Z or any(model.is_zz(f.vars[d]['t']) for d in f.params) or model.is_zz(f.o['ret']) or any(n['k'] in ('Ref',) and '__mpz_struct' in prog.tstr(f.vars[n['d']]['t']) for n in f.nodes)):
            continue
        cov['functions'] += 1
        local = []

        def alarm(kind, fn, n, text, label):
            local.append((kind, fn, n, text, label))

        def report(kind, fn, text):
            local.append((kind, fn, None, text.split(': ', 1)[1], text.split(': ', 1)[0]))

        def hook(it):
            its.append(it)

        its = []
        dv = divisor_param(model, f)

        def on_exit(s, v, how, names, vals, label, it):
            cov['exit_states'] += 1
            zz.check_objects(model, s, v, how, f, names, label, report)
            if dv is not None and how == 'return':
                if 0 in s.signs(vals[dv]):
                    local.append(('nothrow', f, None, 'returns normally although the divisor %s may be zero' % f.vars[dv]['n'], label))
            if how == 'throw':
                # arguments survive a failed operation
                if f.kind not in ('ctor', 'cc', 'mc', 'dc'):
                    for d, o in names.items():
                        if d in vals and (d == 'this' or prog.T(f.vars[d]['t']).get('ref') == 1):
                            if dv is not None and not zz.eqv(s, zz.value_of(model, s, o), vals[d]):
                                local.append(('nothrow', f, None, 'operand %s is already modified when the exception is thrown' % (d if d == 'this' else f.vars[d]['n']), label))
                return
            if how != 'return':
                return
            if isinstance(v, Int) and v.n is not None and "'stale'" in repr(v.n) and len(f.nodes) > 8:
                local.append(('representation', f, None, 'the answer depends on the word left over in an integer that is in heap storage', label))
            sp = spec(model, f, vals, names)
            if sp is None:
                return
            want = {}
            for k, w in sp.items():
                if k in ('ret', 'bool', 'sgn', 'int', 'abs') or w is None:
                    continue
                want[names[k]] = (k, w)
            # const operands keep their value unless the object is also an output
            for d, o in names.items():
                if d in vals and o not in want:
                    if d == 'this':
                        ms = [m for m in prog.records[Z]['methods'] if m['line'] == f.line]
                        if f.kind == 'dtor' or not (ms and all(m['const'] for m in ms)):
                            continue
                    elif mutated(model, f, d) or not prog.T(f.vars[d]['t']).get('ref'):
                        continue
                    others = [e for e, q in names.items() if q == o and e != d and (e == 'this' and not (f.cls == Z and all(m['const'] for m in prog.records[Z]['methods'] if m['line'] == f.line)) or e != 'this' and mutated(model, f, e))]
                    if not others:
                        want[o] = (d, vals[d])
            for o, (k, w) in want.items():
                cov['value_obligations'] += 1
                g = zz.value_of(model, s, o)
                nm = '*this' if k == 'this' else f.vars[k]['n']
                if zz.has_stale(g) or not zz.eqv(s, g, w):
                    local.append(('value', f, None, 'the value left in %s is not the specified result' % nm, label))
            if 'ret' in sp:
                cov['value_obligations'] += 1
                g = zz.value_of(model, s, v.p) if isinstance(v, LV) else None
                if zz.has_stale(g) or not zz.eqv(s, g, sp['ret']):
                    local.append(('value', f, None, 'the value returned is not the specified result', label))
            if 'abs' in sp:
                cov['value_obligations'] += 1
                g = zz.value_of(model, s, v.p) if isinstance(v, LV) else None
                x = sp['abs']
                sg = s.signs(x)
                ok = g is not None and (sg <= {0, 1} and zz.eqv(s, g, x) or sg <= {0, -1} and zz.eqv(s, g, l_scale(x, -1)))
                if not ok:
                    local.append(('value', f, None, 'the value returned is not the absolute value', label))
            if 'int' in sp:
                cov['value_obligations'] += 1
                g = v.n if isinstance(v, Int) else None
                if zz.has_stale(g) or not zz.eqv(s, g, sp['int']):
                    local.append(('value', f, None, 'the value returned is not the specified result', label))
            if 'bool' in sp:
                cov['value_obligations'] += 1
                form, truth = sp['bool']
                sg = s.signs(zz.norm_lin(s, form)) & s.signs(form)
                x = v if isinstance(v, Int) else Int(((0, 1),))
                if x.s == ((0, 0),):
                    ok = not (sg & truth)
                elif not meet(x.s, ((0, 0),)):
                    ok = sg <= truth
                else:
                    ok = False
                if not ok:
                    local.append(('value', f, None, 'the answer returned does not follow from the compared values', label))
            if 'sgn' in sp:
                cov['value_obligations'] += 1
                sg = s.signs(sp['sgn'])
                x = v if isinstance(v, Int) else Int(((-1, 1),))
                if x.n is not None and x.n[1]:
                    xs = meet(x.s, s.range(x.n))
                    ok = x.n == L(('sgn', sp['sgn'])) or (set(range(int(lo(xs)), int(hi(xs)) + 1)) if lo(xs) >= -2 and hi(xs) <= 2 else None) == sg and len(sg) == 1
                else:
                    ok = len(sg) == 1 and x.s == ((list(sg)[0],) * 2,)
                if not ok:
                    local.append(('value', f, None, 'the sign returned does not follow from the value', label))

        n = zz.run_function(model, f, alarm, on_exit, hook, PRE)
        cov['entry_states'] += n
        for it in its:
            cov['arith_obligations'] += it.stats['arith']
            cov['division_obligations'] += it.stats['divs']
            cov['gmp_calls'] += it.stats['gmp']
        v0 = {d: L(('p', d)) for d in f.params if model.is_zz(f.vars[d]['t']) or prog.T(f.vars[d]['t']).get('int')}
        v0['this'] = L(('p', 't'))
        if spec(model, f, v0, {}):
            cov['value_contracts'] += 1
        found.extend((k, fn, nn, t, l, f) for k, fn, nn, t, l in local)
    return found, cov


RULE = {
    'N01': 'abstract interpretation (interval sets and linear value numbers) of every ZZ operation from every small/big representation and alias pattern of its operands: at every exit an owned heap value is proved outside the 64-bit range and an inline value is proved to be set',
    'N02': 'mpz life-cycle typestate (raw/initialised/cleared/freed) with ownership over the same abstract runs: every GMP call sees initialised storage, every exit leaves each cell with exactly one owner, locals cleared',
    'N03': 'interval obligation at every signed arithmetic node reached in the same abstract runs: the exact result lies in the type\'s range; no shift or negation of the most negative value',
    'N04': 'every divisor reaching a hardware or GMP division is proved non-zero, every normal return proves the divisor non-zero, and operands are unmodified when the exception leaves',
    'N05': 'value numbering over the same abstract runs: on every path the result equals the operation\'s linear/polynomial specification over the operands\' entry values (floor operations are reduced to truncated ones by the signs known on the path)',
}


def run(prop, tier, rep):
    cfgs = ['rel'] if tier == 'quick' else ['rel', 'dbg']
    for cfg in cfgs:
        prog = ir.load(cfg)
        found, cov = analyse(prog)
        for k, v in cov.items():
            rep.count(k, v)
        report(prop, rep, found, KINDS[prop])
    rep.need('functions', 50)
    rep.need('entry_states', 150)
    rep.rule = RULE[prop]

