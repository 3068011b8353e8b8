"""K01: orders are strict, agree with equality and with hashes.

Every comparison is read from its source as a decision over the keys it compares (members, calls on one operand). For a loop
over two sequences, one round of the loop is read the same way. The laws are then decided for every way the keys of the
operands can be ordered among one another (a finite table of signs), without running anything."""
import os, sys, re, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir
from flow import is_iter

ALGOS = {'sort': 2, 'stable_sort': 2, 'is_sorted': 2, 'min_element': 2, 'max_element': 2, 'lower_bound': 3, 'upper_bound': 3,
         'binary_search': 3, 'equal_range': 3, 'make_heap': 2, 'push_heap': 2, 'pop_heap': 2, 'partial_sort': 3, 'nth_element': 3,
         'inplace_merge': 3, 'min': 2, 'max': 2, 'merge': 5, 'set_union': 5, 'set_difference': 5, 'set_intersection': 5, 'minmax_element': 2}
SKIPCLS = {'clpoly::ZZ', 'clpoly::QQ', 'clpoly::Zp'}
REL = {'==', '!=', '<', '>', '<=', '>='}
TWOFN = {'pair_vec_comp': 'order', 'pair_vec_equal_to': 'eq'}


class Unknown(Exception):
    pass


class Skip(Exception):
    pass


class Need(Exception):
    def __init__(self, key):
        self.key = key


def objs(t):
    if not isinstance(t, tuple):
        return set()
    if t[0] == 'obj':
        return {t[1]}
    r = set()
    for x in t:
        if isinstance(x, tuple):
            r |= objs(x)
    return r


def sub(t):
    if not isinstance(t, tuple):
        return t
    if t[0] == 'obj':
        return '#'
    return tuple(sub(x) for x in t)


PTR = ('addr', 'deref')


def part_of(d, e):
    return isinstance(e, tuple) and any(x == d or part_of(d, x) for x in e)


class Eval:
    """evaluates one call of a comparison in a model (key -> ranks of the operands)"""

    def __init__(self, prog, model):
        self.prog = prog
        self.model = model
        self.keys = set()
        self.depth = 0

    # ------------------------------------------------------------ model
    def look(self, key):
        if key not in self.model:
            raise Need(key)
        return self.model[key]

    def rank(self, key, i):
        v = self.look(('k', key))
        return v[i]

    def truth(self, t):
        if isinstance(t, bool):
            return t
        if isinstance(t, int):
            return t != 0
        o = objs(t)
        if len(o) == 1:
            return self.rank_of(t, ('int', 0)) != 0
        if not o:
            return self.look(('c', t)) != 0
        if t[0] == 'rel3':
            return self.sign3(t) != 0
        raise Unknown('predicate over both operands: %s' % (t[:2],))

    def sign3(self, t):
        _, name, i, j = t
        a, b = self.look(('k', ('3way', name)))[i], self.look(('k', ('3way', name)))[j]
        return (b > a) - (b < a)

    def rank_of(self, t, const):
        """sign of key value against a constant"""
        o = objs(t)
        i = next(iter(o))
        v = self.look(('s', sub(t), const))
        return v[i]

    def rel(self, op, a, b):
        """truth of a op b for terms of one ordered type"""
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            s = (int(a) > int(b)) - (int(a) < int(b))
        else:
            s = self.sgn(a, b)
        return {'==': s == 0, '!=': s != 0, '<': s < 0, '>': s > 0, '<=': s <= 0, '>=': s >= 0}[op]

    def sgn(self, a, b):
        a = ('int', a) if isinstance(a, int) else a
        b = ('int', b) if isinstance(b, int) else b
        if a == b:
            return 0
        if a[0] == 'rel3' and b[0] == 'int':
            v = self.sign3(a)
            return (v > b[1]) - (v < b[1])
        if b[0] == 'rel3' and a[0] == 'int':
            return -self.sgn(b, a)
        oa, ob = objs(a), objs(b)
        if len(oa) == 1 and len(ob) == 1:
            i, j = next(iter(oa)), next(iter(ob))
            if sub(a) == sub(b):
                x, y = self.rank(sub(a), i), self.rank(sub(b), j)
                if sub(a) == ('f', '#', '__data') or sub(a) == ('f', '#', '__deg'):
                    # the degree is determined by the exponents
                    d, g = self.model.get(('k', ('f', '#', '__data'))), self.model.get(('k', ('f', '#', '__deg')))
                    if d and g and any(d[p] == d[q] and g[p] != g[q] for p in range(len(d)) for q in range(p)):
                        raise Skip()
                self.determined(sub(a))
                return (x > y) - (x < y)
            if i == j:
                # two different members of one operand
                k1, k2 = sub(a), sub(b)
                v = self.look(('p', k1, k2)) if repr(k1) <= repr(k2) else None
                if v is None:
                    return -self.sgn(b, a)
                return v[i]
            raise Unknown('%s is compared with a different key %s' % (show(a), show(b)))
        if len(oa) == 1 and not ob:
            return self.const_sign(sub(a), next(iter(oa)), b)
        if len(ob) == 1 and not oa:
            return -self.const_sign(sub(b), next(iter(ob)), a)
        if not oa and not ob:
            if repr(a) <= repr(b):
                return self.look(('c', a, b))
            return -self.look(('c', b, a))
        raise Unknown('comparison of %s with %s' % (show(a), show(b)))

    def determined(self, key):
        """what is computed from a member alone (its size, what it points to) is the same for equal members"""
        for k, v in self.model.items():
            if k[0] != 'k' or k[1] == key:
                continue
            for d, e in ((k[1], key), (key, k[1])):
                if isinstance(d, tuple) and d[0] == 'f' and d[1] == '#' and part_of(d, e):
                    r, t = self.model[('k', d)], self.model[('k', e)]
                    if any(r[p] == r[q] and t[p] != t[q] for p in range(len(r)) for q in range(p)):
                        raise Skip()

    def total(self, a, b):
        """sign in a total order that agrees with the equality of the keys"""
        s = self.sgn(a, b)
        if objs(a) == objs(b):
            return s
        i, j = next(iter(objs(a))), next(iter(objs(b)))
        r = repr(sub(a))
        part = [v[i] != v[j] for k, v in self.model.items() if k[0] == 'k' and k[1] != sub(a) and r in repr(k[1])]
        if part and any(part) != (s != 0):
            raise Skip()
        return s

    def const_sign(self, key, i, const):
        r = self.look(('k', key))
        c = self.look(('cr', key, const))
        # ranks are even, constants sit on or between them
        x = 2 * r[i]
        return (x > c) - (x < c)

    # ------------------------------------------------------------ functions
    def call(self, fn, args, this=None, zip_=False):
        if self.depth > 12:
            raise Unknown('call depth')
        self.depth += 1
        try:
            return self._call(fn, args, this, zip_)
        finally:
            self.depth -= 1

    def _call(self, fn, args, this, zip_):
        env = {}
        for d, a in zip(fn.params, args):
            env[d] = a
        b = fn.entry
        visits = {}
        loop = False
        while True:
            blk = fn.blocks[b]
            if b in visits:
                if zip_ and loop is False:
                    return ('again', env)
                raise Unknown('loop in %s' % fn.name)
            visits[b] = True
            for e in blk['e']:
                if isinstance(e, dict):
                    continue
                r = self.stmt(fn, e, env, this)
                if r is not None:
                    return r[0] if not zip_ else ('ret', r[0], env)
            su = blk['s']
            if blk.get('nr') or not su:
                raise Unknown('no value returned by %s' % fn.name)
            if 'cond' in blk and len(su) == 2 and blk.get('tk') != 'SwitchStmt':
                v = self.truth(self.ev(fn, blk['cond'], env, this))
                nb = su[0] if v else su[1]
            elif len(su) == 1:
                nb = su[0]
            else:
                raise Unknown('branching of %s' % fn.name)
            if nb < 0:
                raise Unknown('branching of %s' % fn.name)
            b = nb

    def stmt(self, fn, n, env, this):
        x = fn.nodes[n]
        k = x['k']
        if k == 'Return':
            return (self.ev(fn, x['c'][0], env, this),) if x.get('c') else (None,)
        if k == 'Decl':
            for v in x['vars']:
                if 'i' in v:
                    env[v['d']] = self.ev(fn, v['i'], env, this)
            return None
        if k == 'Assign' and x['op'] == '=' and fn.nodes[x['c'][0]]['k'] == 'Ref':
            env[fn.nodes[x['c'][0]]['d']] = self.ev(fn, x['c'][1], env, this)
            return None
        par = fn.parent.get(n)
        if (k == 'Un' and x['op'] in ('++', 'post++') or k == 'Call' and x.get('op') == '++') and fn.nodes[x['c'][0]]['k'] == 'Ref':
            d = fn.nodes[x['c'][0]]['d']
            t = env.get(d)
            if isinstance(t, tuple) and t[0] == 'it':
                env[d] = ('it', t[1], t[2] + 1)
                return None
            raise Unknown('counting')
        if k == 'Assign' or k == 'Un' and x['op'] in ('--', 'post--'):
            raise Unknown('assignment in a comparison')
        return None

    def ev(self, fn, n, env, this):
        x = fn.nodes[n]
        k = x['k']
        c = x.get('c', [])
        E = lambda i: self.ev(fn, i, env, this)
        if k == 'Ref':
            if x['d'] in env:
                return env[x['d']]
            return ('cst', x['n'])
        if k == 'This':
            return ('addr', this) if this is not None else ('cst', 'this')
        if k == 'Bool':
            return str(x['v']) in ('1', 'true', 'True')
        if k == 'Int':
            return int(x['v'])
        if k == 'Mem' and not x.get('fn'):
            b = E(c[0]) if c and c[0] >= 0 else ('addr', this)
            if b[0] == 'addr':
                b = b[1]
            if b == ('it',) or b[0] == 'it':
                return ('f', ('elem', ('obj', b[1])), x['n'])
            return ('f', b, x['n'])
        if k == 'Cast' or k.endswith('CastExpr') or k in ('Paren', 'ExprWithCleanups', 'MaterializeTemporaryExpr'):
            v = E(c[0])
            if fn.prog.tstr(x.get('t')) == 'bool' and not isinstance(v, bool):
                return self.truth(v)
            if x.get('ck') in ('FloatingToIntegral', 'IntegralCast') and isinstance(v, tuple) and not isinstance(v, bool):
                w, w0 = self.prog.T(x.get('t')).get('w'), self.prog.T(fn.nodes[c[0]].get('t')).get('w')
                if w and w0 and w < w0:
                    return ('call', 'narrowed', v)
            return v
        if k == 'Un':
            if x['op'] == '!':
                return not self.truth(E(c[0]))
            if x['op'] == '&':
                return ('addr', E(c[0]))
            if x['op'] == '*':
                v = E(c[0])
                return v[1] if v[0] == 'addr' else ('elem', ('obj', v[1])) if v[0] == 'it' else ('deref', v)
            if x['op'] == '-':
                v = E(c[0])
                return -v if isinstance(v, int) else ('call', 'neg', v)
            raise Unknown('operator ' + x['op'])
        if k == 'Bin':
            op = x['op']
            if op == '&&':
                return self.truth(E(c[0])) and self.truth(E(c[1]))
            if op == '||':
                return self.truth(E(c[0])) or self.truth(E(c[1]))
            a, b = E(c[0]), E(c[1])
            if op in REL:
                return self.rel(op, *self.strip(a, b))
            if op == '-' and len(objs(a)) == 1 and len(objs(b)) == 1 and objs(a) != objs(b):
                raise Unknown('difference of two keys')
            return ('call', op, a, b)
        if k == 'Cond':
            return E(c[1]) if self.truth(E(c[0])) else E(c[2])
        if k == 'Ctor':
            if len(c) == 1 and x.get('ck') in ('copy', 'move'):
                return E(c[0])
            return ('call', x.get('cls', '?')) + tuple(E(i) for i in c if i >= 0)
        if k == 'Call':
            return self.evcall(fn, n, env, this)
        if k == 'Index':
            return ('call', '[]', E(c[0]), E(c[1]))
        raise Unknown('expression ' + k)

    def strip(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'it' and b[0] == 'endit':
            return self.atend(a), True
        if isinstance(b, tuple) and isinstance(a, tuple) and b[0] == 'it' and a[0] == 'endit':
            return self.atend(b), True
        return a, b

    def atend(self, t):
        return bool(self.look(('end',))[t[1]])

    def evcall(self, fn, n, env, this):
        x = fn.nodes[n]
        c = x.get('c', [])
        op = x.get('op')
        nm = x.get('fq', '').split('::')[-1]
        A = [self.ev(fn, i, env, this) for i in c]
        callee = self.prog.fns.get(x.get('f'))
        if nm in ('move', 'forward', 'as_const', 'addressof'):
            return ('addr', A[0]) if nm == 'addressof' else A[0]
        if x.get('obj') and A and nm in ('begin', 'cbegin') and A[0] in (('obj', 0), ('obj', 1)):
            return ('it', A[0][1], 0)
        if x.get('obj') and A and nm in ('end', 'cend') and A[0] in (('obj', 0), ('obj', 1)):
            return ('endit', A[0][1])
        if op in ('*', '->') and A and A[0][0] == 'it':
            return ('addr', ('elem', ('obj', A[0][1]))) if op == '->' else ('elem', ('obj', A[0][1]))
        if op in ('++',) and A and A[0][0] == 'it':
            return A[0]
        if op in REL and len(A) == 2 and any(isinstance(a, tuple) and a[0] == 'it' for a in A):
            s = self.strip(*A)
            return s[0] if op == '==' else not s[0]
        if x.get('arrow') and A and isinstance(A[0], tuple):
            A[0] = A[0][1] if A[0][0] == 'addr' else ('deref', A[0])
        if nm == 'get' and len(A) == 1:
            m = re.search(r'get<(\d+)', x.get('f', ''))
            return ('f', A[0], ('first', 'second')[int(m.group(1))] if m and int(m.group(1)) < 2 and 'pair<' in x['f'] else 'get' + (m.group(1) if m else ''))
        if nm in TWOFN and len(A) >= 2 and all(isinstance(a, tuple) for a in A[:2]) and len(objs(A[0])) == 1 and len(objs(A[1])) == 1 and sub(A[0]) == sub(A[1]):
            s = self.sgn(A[0], A[1])
            return s < 0 if TWOFN[nm] == 'order' else s == 0
        if op in REL and len(A) == 2 and all(isinstance(a, tuple) for a in A):
            cl = x.get('cls') or (callee.cls if callee is not None else None)
            if callee is not None and callee.blocks and callee.cls not in SKIPCLS and not any(base(self.prog, t) in SKIPCLS for t in x.get('pt', [])) and callee.file.startswith(ir.SRC) and A[0][0] != 'elem' and not (objs(A[0]) and A[0][0] in ('f',) and callee.cls and callee.cls.endswith('basic_polynomial')):
                try:
                    if callee.cls and x.get('obj') or callee.o.get('cls') and len(callee.params) == 1:
                        return self.truth(self.call(callee, A[1:], A[0]))
                    return self.truth(self.call(callee, A, None))
                except Unknown:
                    pass
            return self.rel(op, A[0], A[1])
        if op in REL and len(A) == 2:
            return self.rel(op, A[0], A[1])
        if op == '()' and A:
            # an order applied to two keys: a strict total order on them, when it is one of ours it is checked on its own
            if len(A) == 3 and all(isinstance(a, tuple) for a in A[1:]) and self.prog.tstr(x.get('t')) == 'bool' and len(objs(A[1])) == 1 and len(objs(A[2])) == 1 and sub(A[1]) == sub(A[2]):
                return self.total(A[1], A[2]) < 0
        if callee is not None and callee.file.startswith(ir.SRC) and callee.blocks:
            if len(A) >= 2 and self.prog.tstr(x.get('t')) in ('int', 'long', 'int64_t'):
                P = [a[1] if isinstance(a, tuple) and a[0] == 'addr' else a for a in A]
                if x.get('obj') and len(P) == 3:
                    P = P[1:]
                if len(P) == 2 and all(isinstance(p, tuple) and p[0] == 'obj' for p in P):
                    return ('rel3', callee.qn, P[0][1], P[1][1])
            try:
                if callee.cls and x.get('obj'):
                    return self.call(callee, A[1:], A[0])
                return self.call(callee, A, ('cst', 'this') if callee.o.get('lambda') else None)
            except Unknown:
                pass
        if self.prog.tstr(x.get('t')) == 'bool' and len(set().union(*[objs(a) for a in A if isinstance(a, tuple)] or [set()])) == 2:
            raise Unknown('%s of both operands' % nm)
        return ('call', nm) + tuple(A)


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == 'obj':
        return 'ab c'[t[1]]
    if t[0] == 'f':
        return show(t[1]) + '.' + t[2]
    if t[0] in ('addr', 'deref', 'elem'):
        return show(t[1])
    if t[0] == 'call':
        return '%s(%s)' % (t[1], ','.join(show(i) for i in t[2:]))
    return str(t[-1])


def values(key, n):
    """the possible entries of a model for a key, over n operands"""
    if key[0] == 'k':
        return list(itertools.product(range(n), repeat=n))
    if key[0] == 's' or key[0] == 'p':
        return list(itertools.product((-1, 0, 1), repeat=n))
    if key[0] == 'cr':
        return list(range(-1, 2 * n))
    if key[0] == 'c':
        return [-1, 0, 1]
    if key[0] == 'end':
        return list(itertools.product((0, 1), repeat=n))
    raise Unknown(str(key))


class TooBig(Exception):
    pass


def decide(prog, law, n, limit=60000):
    """law(Eval) -> None when it holds, else a message; searched over all models it looks at"""
    count = [0]

    def go(model):
        count[0] += 1
        if count[0] > limit:
            raise TooBig()
        try:
            return law(Eval(prog, model))
        except Skip:
            return None
        except Need as e:
            for v in values(e.key, n):
                m = dict(model)
                m[e.key] = v
                r = go(m)
                if r:
                    return r
            return None
    return go({}), count[0]


def describe(model):
    return ''


# ---------------------------------------------------------------- subjects
def two_same(prog, f):
    if len(f.params) != 2:
        return False
    a, b = (re.sub(r'^const | [&]+$|&$', '', prog.tstr(f.vars[p]['t'])).strip() for p in f.params)
    return a == b and prog.tstr(f.o.get('ret')) == 'bool'


def lambdas_of(prog):
    r = {}
    for f in prog.fns.values():
        if f.o.get('lambda'):
            r.setdefault((f.file, f.line), []).append(f)
    return r


def used_orders(prog):
    """functions used as order by algorithms, with the call"""
    lam = lambdas_of(prog)
    out = {}
    for f in prog.fns.values():
        if not f.file.startswith(ir.SRC):
            continue
        for i, x in enumerate(f.nodes):
            if x['k'] != 'Call' or not x.get('fq', '').startswith('std::'):
                continue
            nm = x['fq'].split('::')[-1]
            if nm not in ALGOS or len(x.get('c', ())) <= ALGOS[nm]:
                continue
            a = x['c'][-1]
            t = prog.tstr(f.nodes[a].get('t'))
            m = re.search(r'\(lambda at ([^:]+):(\d+):(\d+)\)', t)
            cand = []
            if m:
                cand = [g for g in lam.get((m.group(1), int(m.group(2))), []) if len(g.params) == 2]
            else:
                base = re.sub(r'^const ', '', t).rstrip(' &')
                cand = [g for g in prog.fns.values() if g.name == 'operator()' and g.key.startswith(base + '::operator()') and len(g.params) == 2]
            if not cand and not t.startswith('std::'):
                cand = []
            for g in cand:
                out.setdefault(g.key, []).append((f, i, nm))
    return out


def check(prog, rep):
    used = used_orders(prog)
    rep.count('orders given to algorithms', len(used))
    seen = set()

    def where(f):
        return '%s (%s)' % (f.qn, f.loc())

    def law_strict(f, member):
        def mk(ev, i, j):
            a, b = ('obj', i), ('obj', j)
            if member == 'this':
                return ev.truth(ev.call(f, [b], a))
            return ev.truth(ev.call(f, [a, b], ('cst', 'this')))

        def law2(ev):
            if mk(ev, 0, 0):
                return 'holds between an object and itself'
            if mk(ev, 0, 1) and mk(ev, 1, 0):
                return 'holds in both directions'
            return None

        def law3(ev):
            ab, bc, ac = mk(ev, 0, 1), mk(ev, 1, 2), mk(ev, 0, 2)
            if ab and bc and not ac:
                return 'is not transitive'
            if not ac:
                return None
            # incomparability must be transitive too
            if not ab and not bc and not mk(ev, 1, 0) and not mk(ev, 2, 1):
                return 'puts two objects in order that are both level with a third'
            return None
        return law2, law3

    def strict(f, member, ident, why=''):
        l2, l3 = law_strict(f, member)
        try:
            r, n = decide(prog, l2, 2)
            rep.count('sign tables examined', n)
            if r:
                rep.violation(ident, '%s%s %s: it is no strict order' % (where(f), why, r))
                return
            try:
                r, n = decide(prog, l3, 3)
                rep.count('sign tables examined', n)
                if r:
                    rep.violation(ident, '%s%s %s: it is no strict order' % (where(f), why, r))
            except TooBig:
                rep.count('orders not tested for transitivity')
            rep.count('orders decided')
        except Unknown as e:
            rep.count('comparisons not understood')
            rep.notes.append('%s not decided: %s' % (f.qn, e))

    # 1. functors and lambdas
    for f in prog.fns.values():
        if not f.file.startswith(ir.SRC) or not f.blocks or (f.rel(), f.line, f.qn) in seen:
            continue
        lam = f.o.get('lambda')
        if (f.name == 'operator()' or lam) and two_same(prog, f) and not f.file.endswith('interval.hh'):
            if lam and f.key not in used:
                continue
            if f.qn.startswith('std::'):
                continue
            if f.key not in used:
                # an equivalence is no order
                def sym(ev, f=f):
                    a = ev.truth(ev.call(f, [('obj', 0), ('obj', 1)], ('cst', 'this')))
                    b = ev.truth(ev.call(f, [('obj', 1), ('obj', 0)], ('cst', 'this')))
                    c = ev.truth(ev.call(f, [('obj', 0), ('obj', 0)], ('cst', 'this')))
                    return 'order' if a != b or not c else None
                try:
                    if not decide(prog, sym, 2)[0]:
                        continue
                except (Unknown, TooBig):
                    pass
            seen.add((f.rel(), f.line, f.qn))
            why = ''
            if f.key in used:
                g, i, nm = used[f.key][0]
                why = ', given to std::%s in %s,' % (nm, g.qn)
            strict(f, 'args', '%s:%s:strict' % (f.rel(), f.qn), why)
    # 2. comparison operators of the classes
    groups = {}
    for f in prog.fns.values():
        if not f.name.startswith('operator') or f.name[8:] not in REL or not f.blocks or not f.file.startswith(ir.SRC):
            continue
        if f.cls in SKIPCLS or any(('clpoly::' + s) in re.sub(r'<.*', '', prog.tstr(f.vars[p]['t'])) for p in f.params for s in ('ZZ', 'QQ &', 'Zp')) and not f.cls:
            if not any('uroot' in prog.tstr(f.vars[p]['t']) for p in f.params):
                continue
        ts = [base(prog, f.vars[p]['t']) for p in f.params]
        if len(ts) == 1 and f.o.get('clst') is not None:
            ts = [base(prog, f.o['clst'])] + ts
        if len(ts) != 2:
            continue
        groups.setdefault(tuple(ts), {})[f.name[8:]] = f
    done = set()
    for (ta, tb), ops in sorted(groups.items()):
        other = groups.get((tb, ta), {})
        tag = tuple(sorted((o, f.rel(), f.line) for o, f in ops.items()))
        if tag in done:
            continue
        done.add(tag)

        def val(ev, o, i, j, ops=ops):
            f = ops[o]
            if len(f.params) == 1:
                return ev.truth(ev.call(f, [('obj', j)], ('obj', i)))
            return ev.truth(ev.call(f, [('obj', i), ('obj', j)], None))

        laws = []
        if ta == tb:
            if '==' in ops:
                laws.append((('==',), 'an object is not equal to itself', lambda ev: val(ev, '==', 0, 0)))
                laws.append((('==',), 'equality is not the same in both directions', lambda ev: val(ev, '==', 0, 1) == val(ev, '==', 1, 0)))
            if '<' in ops and '>' in ops:
                laws.append((('<', '>'), 'a<b and b>a differ', lambda ev: val(ev, '<', 0, 1) == val(ev, '>', 1, 0)))
        if '!=' in ops and '==' in ops:
            laws.append((('!=', '=='), 'a!=b is not the opposite of a==b', lambda ev: val(ev, '!=', 0, 1) != val(ev, '==', 0, 1)))
        if '<=' in ops and '>' in ops:
            laws.append((('<=', '>'), 'a<=b is not the opposite of a>b', lambda ev: val(ev, '<=', 0, 1) != val(ev, '>', 0, 1)))
        if '>=' in ops and '<' in ops:
            laws.append((('>=', '<'), 'a>=b is not the opposite of a<b', lambda ev: val(ev, '>=', 0, 1) != val(ev, '<', 0, 1)))
        for g, s in (('>', '<'), ('<', '>')):
            if g in ops and '==' in ops:
                laws.append(((g, '=='), 'a%sb holds for equal objects' % g, lambda ev, g=g: not (val(ev, g, 0, 1) and val(ev, '==', 0, 1))))
                if s in ops:
                    laws.append(((g, s, '=='), 'neither a<b nor a>b nor a==b holds', lambda ev, g=g, s=s: val(ev, g, 0, 1) or val(ev, s, 0, 1) or val(ev, '==', 0, 1)))
        if ta != tb:
            mirror = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}
            for o in ops:
                if mirror[o] in other:
                    h = other[mirror[o]]

                    def lw(ev, o=o, h=h):
                        a = ops[o]
                        va = ev.truth(ev.call(a, [('obj', 0), ('obj', 1)], None)) if len(a.params) == 2 else ev.truth(ev.call(a, [('obj', 1)], ('obj', 0)))
                        vb = ev.truth(ev.call(h, [('obj', 1), ('obj', 0)], None)) if len(h.params) == 2 else ev.truth(ev.call(h, [('obj', 0)], ('obj', 1)))
                        return va == vb
                    laws.append(((o,), 'a%sb and b%sa differ' % (o, mirror[o]), lw))
        for opset, msg, law in laws:
            f = ops[opset[0]]
            ident = '%s:%s:%s' % (f.rel(), f.qn, msg)
            try:
                r, n = decide(prog, lambda ev: None if law(ev) else msg, 2)
                rep.count('sign tables examined', n)
                rep.count('operator laws decided')
                if r:
                    rep.violation(ident, '%s: %s (%s, %s)' % (f.qn, r, short(ta), f.loc()))
            except Unknown as e:
                rep.count('comparisons not understood')
                rep.notes.append('%s not decided: %s' % (f.qn, e))
            except TooBig:
                rep.count('comparisons not understood')
        for o in ('<', '>'):
            if o in ops and ta == tb:
                strict(ops[o], 'this' if len(ops[o].params) == 1 else 'args', '%s:%s:strict' % (ops[o].rel(), ops[o].qn))
    # 3. equal order objects order alike
    for ts, ops in sorted(groups.items()):
        if '==' not in ops or ts[0] != ts[1]:
            continue
        f = ops['==']
        calls = [g for g in prog.fns.values() if g.name == 'operator()' and g.cls == f.cls and g.o.get('clst') is not None and base(prog, g.o['clst']) == ts[0] and g.blocks]
        if not calls:
            continue
        flds = set()
        for g in calls:
            flds |= fields_read(prog, g)
        check_eq_covers(prog, rep, f, flds, 'the order it defines', groups)
    # 3b. the orders of variables and monomials leave no two of them level
    tot = set()
    for f in prog.fns.values():
        if f.name != 'operator()' or f.o.get('lambda') or not f.cls or not f.blocks or not two_same(prog, f) or not f.file.startswith(ir.SRC) or (f.rel(), f.line) in tot:
            continue
        t = base(prog, f.vars[f.params[0]]['t'])
        eq = groups.get((t, t), {}).get('==')
        if eq is None:
            continue
        tot.add((f.rel(), f.line))

        def law(ev, f=f, eq=eq):
            a, b = ('obj', 0), ('obj', 1)
            if ev.truth(ev.call(f, [a, b], ('cst', 'this'))) or ev.truth(ev.call(f, [b, a], ('cst', 'this'))):
                return None
            return None if ev.truth(ev.call(eq, [b], a) if len(eq.params) == 1 else ev.call(eq, [a, b], None)) else 'x'
        try:
            r, n = decide(prog, law, 2)
            rep.count('total orders decided')
            if r:
                rep.violation('%s:%s:total' % (f.rel(), f.qn), '%s (%s) puts two different objects on one level' % (f.qn, f.loc()))
        except (Unknown, TooBig) as e:
            rep.count('comparisons not understood')
            rep.notes.append('%s: totality not decided: %s' % (f.qn, e))
    # 4. hashes read only what equality compares
    hs = set()
    for f in prog.fns.values():
        if f.name == 'hash_value' and f.blocks and len(f.params) == 1 and f.file.startswith(ir.SRC):
            t = base(prog, f.vars[f.params[0]]['t'])
            eq = groups.get((t, t), {}).get('==')
            if eq is None:
                hash_terms(prog, rep, f, {f.params[0]: ('obj', 0)}, None, set())
            if eq is None or (f.rel(), f.line) in hs:
                continue
            hs.add((f.rel(), f.line))
            check_hash(prog, rep, f, eq)
    # 5. sequence comparisons
    zips(prog, rep)


def base(prog, t):
    return re.sub(r'^const | [&]+$|&$', '', prog.tstr(t)).strip()


def short(t):
    return re.sub(r'clpoly::', '', t)[:60]


def fields_read(prog, g, depth=0):
    """fields of *this a member reads, through its own helpers too"""
    out = set()
    if depth > 5:
        return out
    for x in g.nodes:
        if x['k'] == 'Mem' and not x.get('fn') and x.get('c') and x['c'][0] >= 0 and g.nodes[x['c'][0]]['k'] == 'This':
            out.add(x['n'])
        if x['k'] == 'Call' and x.get('obj') and x.get('c') and g.nodes[x['c'][0]]['k'] == 'This':
            h = prog.fns.get(x.get('f'))
            if h is not None and h is not g:
                out |= fields_read(prog, h, depth + 1)
    return out


def check_eq_covers(prog, rep, eq, flds, what, groups):
    fts = {}
    for r, o in prog.records.items():
        if r == base(prog, eq.o['clst']):
            fts = {x['name']: base(prog, x['t']) for x in o.get('fields', ())}
    for fl in sorted(flds):
        def law(ev, fl=fl):
            a, b = ('obj', 0), ('obj', 1)
            r = ev.truth(ev.call(eq, [b], a) if len(eq.params) == 1 else ev.call(eq, [a, b], None))
            if not r:
                return None
            fa, fb = ('f', a, fl), ('f', b, fl)
            inner = groups.get((fts.get(fl),) * 2, {}).get('==')
            if inner is not None:
                same = ev.truth(ev.call(inner, [fb], fa) if len(inner.params) == 1 else ev.call(inner, [fa, fb], None))
            else:
                same = ev.sgn(fa, fb) == 0
            if not same:
                return 'x'
            return None
        try:
            r, n = decide(prog, law, 2)
            rep.count('operator laws decided')
            if r:
                rep.violation('%s:%s:%s' % (eq.rel(), eq.qn, fl), '%s holds for objects whose %s differ, on which %s depends' % (eq.qn, fl, what))
        except (Unknown, TooBig) as e:
            rep.count('comparisons not understood')


def hash_terms(prog, rep, f, env, this, seen):
    """what the hash is computed from; hash members are followed"""
    ev = Eval(prog, {})
    terms = []
    if f.key in seen:
        return terms
    seen.add(f.key)
    for i, x in enumerate(f.nodes):
        if x['k'] == 'Cast' and x.get('ck') == 'PointerToIntegral':
            rep.violation('%s:%s:address' % (f.rel(), f.qn), '%s: the hash depends on an address (%s), which differs between equal objects' % (f.loc(i), f.text(i)[:60]))
        if x['k'] != 'Call' or x.get('op') != '()' and 'hash' not in x.get('fq', ''):
            continue
        vals = []
        for c in x.get('c', ()):
            t = None
            if c >= 0:
                try:
                    t = ev.ev(f, c, env, this)
                except (Unknown, Need, KeyError, IndexError, TypeError):
                    pass
            vals.append(t)
        g = prog.fns.get(x.get('f'))
        if g is not None and g.blocks and x.get('obj') and g.name == 'hash' and vals and isinstance(vals[0], tuple) and vals[0] == ('obj', 0):
            terms += hash_terms(prog, rep, g, {}, vals[0], seen)
            continue
        terms += [t for t in vals if isinstance(t, tuple) and objs(t) == {0}]
    return terms


def check_hash(prog, rep, f, eq):
    terms = hash_terms(prog, rep, f, {f.params[0]: ('obj', 0)}, None, set())
    terms = [t for t in terms if t != ('obj', 0)]
    if not terms:
        rep.count('hashes not decided')
        return
    for t in terms:
        def law(ev, t=t):
            a, b = ('obj', 0), ('obj', 1)
            r = ev.truth(ev.call(eq, [b], a) if len(eq.params) == 1 else ev.call(eq, [a, b], None))
            if r and ev.sgn(t, put(t, 1)) != 0:
                return 'x'
        try:
            r, n = decide(prog, law, 2)
            rep.count('hashes decided')
            if r:
                rep.violation('%s:%s' % (f.rel(), f.qn), 'the hash reads %s, in which equal objects may differ' % show(t))
        except (Unknown, TooBig):
            rep.count('hashes not decided')


def put(t, i):
    if not isinstance(t, tuple):
        return t
    if t[0] == 'obj':
        return ('obj', i)
    return tuple(put(x, i) for x in t)


# ---------------------------------------------------------------- loops over two sequences
def zips(prog, rep):
    seen = set()
    for f in prog.fns.values():
        if f.name not in TWOFN or not f.blocks or (f.name, f.line) in seen:
            continue
        seen.add((f.name, f.line))
        kind = TWOFN[f.name]
        ident = '%s:%s' % (f.rel(), f.qn)

        def run(ev, i, j):
            # operands are swapped by giving the parameters the other sequence
            args = [('obj', i), ('obj', j)] + [('cst', 'comp')] * (len(f.params) - 2)
            return ev.call(f, args, None, zip_=True)

        def law(ev):
            r = run(ev, 0, 1)
            if r[0] == 'again':
                its = [t for t in r[1].values() if isinstance(t, tuple) and t[0] == 'it']
                if sorted(t[1:] for t in its) != [(0, 1), (1, 1)]:
                    return 'a round of the loop does not advance both sequences by one'
                e = ev.look(('end',))
                if any(e):
                    return 'the loop goes on after the end of a sequence'
                for key, v in ev.model.items():
                    if key[0] == 'k' and 'elem' in repr(key) and v[0] != v[1]:
                        return 'the loop goes on over entries that differ'
                # both parts of an entry must have been compared
                ks = repr([k[1] for k in ev.model if k[0] == 'k'])
                if not all("('elem', '#'), '%s'" % w in ks for w in ('first', 'second')):
                    return 'the loop goes on without comparing both parts of the entries'
                return None
            r1 = r[1]
            t = ev.truth(r1)
            r2 = run(ev, 1, 0)
            if r2[0] == 'again':
                return 'the answer depends on which operand comes first'
            t2 = ev.truth(r2[1])
            e = ev.model.get(('end',), (None, None))
            if e[0] != e[1] and any(k[0] == 'k' and k[1][:2] == ('call', 'size') and v[0] == v[1] for k, v in ev.model.items()):
                return None    # sequences of one length end together
            same = all(v[0] == v[1] for k, v in ev.model.items() if k[0] == 'k') and (e[0] == e[1])
            if kind == 'order':
                if same and (t or t2):
                    return 'equal sequences are ordered'
                if not same and t == t2:
                    return 'different sequences are ' + ('both before one another' if t else 'not ordered')
                for key, v in ev.model.items():
                    # the sequence that ends first comes last
                    pass
            else:
                if t != t2:
                    return 'the answer depends on which operand comes first'
                if same and e != (None, None) and not t:
                    return 'equal sequences are found to differ'
                if not same and t:
                    return 'different sequences are found equal'
            return None
        try:
            r, n = decide(prog, law, 2)
            rep.count('sequence comparisons decided')
            rep.count('sign tables examined', n)
            if r:
                rep.violation(ident, '%s (%s): %s' % (f.qn, f.loc(), r))
        except (Unknown, TooBig) as e:
            rep.count('comparisons not understood')
            rep.notes.append('%s not decided: %s' % (f.qn, e))


RULE = ('every functor, lambda and operator that compares two objects of one type is read from the source as a decision over the keys it compares; '
        'irreflexivity, asymmetry, transitivity, agreement of <, >, <=, >=, ==, != with one another, of equal orders with what they order by, and of hashes '
        'with equality are decided for every ordering of those keys; loops over two sequences are decided round by round')


def run(prop, tier, rep):
    rep.rule = RULE
    prog = ir.load('rel')
    check(prog, rep)
    rep.need('orders decided', 10)
    rep.need('operator laws decided', 20)
