"""A03: what a decomposition into factors returns multiplies back to what it was given.

Every polynomial, number, monomial and list of factors is followed as an element of a free abelian group written additively ("logarithm"):
{(symbol, exponent monomial): rational}. A product adds, an exact division subtracts, a power multiplies by the exponent, a list of factors carries
the sum of its elements with and without their multiplicities. Branch facts are substitutions (x is a number: x is its leading coefficient; a == b).
At a loop the linear combinations of the variables' logarithms (coefficients polynomial in the counters) that every path through the body preserves
are computed by linear algebra; a loop over a list adds the part of the list already visited as one more variable. Signs are not followed."""
import itertools
from fractions import Fraction
import ir
import inline

LIM = 4000
KEEPN = {'squarefreefactorize', '__squarefree_Zp', '__ddf_Zp', '__edf_Zp', '__factor_Zp', '__factor_squarefree_primitive_ZZ', '__lll_factorize',
         '__vanhoeij_recombine', '__zassenhaus_recombine', '__factor_recombine', '__wang_core', 'factorize', '__factor_multivar', '__upoly_primitive',
         '__extract_monomial_content', '__extract_pth_root', 'poly_convert', '__upoly_to_poly', 'polynomial_GCD', 'gcd', 'cont', 'pair_vec_div', 'pow',
         'lcm', '__upoly_make_monic', 'get_deg', 'degree', 'is_number', 'get_variables', 'derivative', 'polynomial_mod', 'leadcoeff', 'swap',
         '__select_prime', '__hensel_lift', '__heuristic_starting_precision', '__upoly_powmod', '__upoly_mod', '__upoly_random', '__upoly_subtract_x',
         '__upoly_subtract_one', 'next_prime_64', 'prev_prime_64', 'get_first_var', 'abs', 'is_squarefree', 'prem', 'resultant', 'discriminant',
         'pair_vec_multiplies', 'pair_vec_add', 'pair_vec_sub', 'get_first_deg', 'sgn', 'pp'}
CORE = {'clpoly::ZZ', 'clpoly::QQ', 'clpoly::Zp', 'clpoly::basic_polynomial', 'clpoly::basic_monomial', 'clpoly::umonomial', 'clpoly::variable'}


def want(cur, e, g):
    if g.name in KEEPN or not g.qn.startswith('clpoly::'):
        return False
    if g.o.get('lambda'):
        return True
    if g.cls and g.cls.split('<')[0] in CORE:
        return False
    return not (g.name.startswith('operator') or len(g.nodes) > 900 or not g.blocks)


# ---------------------------------------------------------------- logarithms: {(sym, mono): Fraction}; mono: tuple of (int symbol, exponent)
def clean(d):
    return {k: v for k, v in d.items() if v}


def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def mmul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(((k, e) for k, e in d.items() if e), key=repr))


def imul(a, b):
    r = {}
    for x, p in a.items():
        for y, q in b.items():
            m = mmul(x, y)
            r[m] = r.get(m, 0) + p * q
    return clean(r)


def scale(d, n):
    """log times integer polynomial"""
    r = {}
    for (s, m), v in d.items():
        for y, q in n.items():
            k = (s, mmul(m, y))
            r[k] = r.get(k, 0) + v * q
    return clean(r)


def N(k):
    return {(): Fraction(k)} if k else {}


def isconst(s):
    """a symbol that stands for a number (its own leading coefficient)"""
    return s[0] in ('num', 'lc', 'ct', 'fc', 'lcd', 'coef', 'cst')


def lc(d):
    r = {}
    for (s, m), v in d.items():
        if s[0] == 'E' and s[-1] == 'monic':
            continue
        t = s if isconst(s) else ('lc', s)
        r[(t, m)] = r.get((t, m), 0) + v
    return clean(r)


def sub(d, s, e):
    """substitute symbol s by the log e (also inside lc(s))"""
    r = {}
    le = None
    for (x, m), v in d.items():
        if x == s:
            y = e
        elif x == ('lc', s):
            le = lc(e) if le is None else le
            y = le
        else:
            k = (x, m)
            r[k] = r.get(k, 0) + v
            continue
        for (z, n), w in y.items():
            k = (z, mmul(m, n))
            r[k] = r.get(k, 0) + v * w
    return clean(r)


def isub(p, s, n):
    """substitute the int symbol s by the polynomial n in the int polynomial p"""
    r = {}
    for m, v in p.items():
        e = dict(m).get(s, 0)
        if e <= 0:
            r = add(r, {m: v})
            continue
        rest = tuple(x for x in m if x[0] != s)
        t = {rest: v}
        for _ in range(e):
            t = imul(t, n)
        r = add(r, t)
    return r


def lisub(d, s, n):
    r = {}
    for (x, m), v in d.items():
        for y, w in isub({m: Fraction(v)}, s, n).items():
            k = (x, y)
            r[k] = r.get(k, 0) + w
    return clean(r)


class Undecided(Exception):
    pass


class St:
    def __init__(self):
        self.store = {}      # root -> value
        self.alias = {}      # var -> place
        self.vals = {}       # call node -> value
        self.subs = []       # ('g', sym, log) / ('n', sym, poly)
        self.lb = {}         # int symbol -> lower bound
        self.idx = {}        # index symbol -> (list place, el root)
        self.last = {}       # list place -> element last put into it
        self.dead = False
        self.zero = False
        self.ret = None
        self.trail = ()

    def copy(self):
        s = St()
        s.store = dict(self.store)
        s.alias = dict(self.alias)
        s.vals = dict(self.vals)
        s.subs = list(self.subs)
        s.lb = dict(self.lb)
        s.idx = dict(self.idx)
        s.last = dict(self.last)
        s.zero = self.zero
        s.ret = self.ret
        s.trail = self.trail
        return s


def vmap(v, fg, fn):
    if v is None:
        return v
    k = v[0]
    if k == 'g':
        return ('g', fg(v[1]))
    if k == 'n':
        return ('n', fn(v[1]))
    if k == 'L':
        return ('L', fg(v[1]), fg(v[2]), v[3])
    if k == 'acc':
        return ('acc', fg(v[1]))
    if k == 'deg':
        return ('deg', vmap(v[1], fg, fn))
    if k == 'rec':
        return ('rec', {f: vmap(x, fg, fn) for f, x in v[1].items()})
    if k == 'pred':
        return ('pred', v[1], v[2], tuple(vmap(x, fg, fn) if isinstance(x, tuple) else x for x in v[3]))
    return v


class Exec:
    def __init__(self, fn, prog, rep):
        self.fn, self.prog, self.rep = fn, prog, rep
        self.ids = itertools.count(1)
        self.gcdof = {}
        self.memo = {}
        self.monic = False
        self.mixed = set()
        self.bad = []
        self.steps = 0
        self.unroll = 0
        self.outermost_general = False
        self.notes = set()
        self.bodies = {}
        self.num1 = set()
        self.heads = self.loop_heads()

    # ---- symbols
    def fresh(self, kind, *x):
        return (kind, next(self.ids)) + x

    def G(self, sym):
        return ('g', {(sym, ()): Fraction(1)})

    def top(self, why=''):
        return ('top', why)

    def frz(self, d):
        return tuple(sorted(((k, v) for k, v in d.items()), key=repr))

    def memoized(self, kind, d):
        k = (kind, self.frz(d))
        if k not in self.memo:
            self.memo[k] = self.fresh(kind)
        return self.memo[k]

    # ---- CFG
    def loop_heads(self):
        fn = self.fn
        rpo = fn.rpo()
        pos = {b: i for i, b in enumerate(rpo)}
        heads = {}
        for b in rpo:
            for s in fn.blocks[b]['s']:
                if s >= 0 and s in pos and pos[s] <= pos[b]:
                    heads.setdefault(s, set()).add(b)
        out = {}
        for h, tails in heads.items():
            body = {h} | set(tails)
            st = [t for t in tails if t != h]
            while st:
                x = st.pop()
                for p in fn.preds[x]:
                    if p not in body and p in pos:
                        body.add(p)
                        st.append(p)
            out[h] = body
        return out

    # ---- types
    def ty(self, t):
        s = self.prog.tstr(t) if isinstance(t, int) else t
        s = s.replace('const ', '').rstrip(' &*')
        return s

    def kind(self, t):
        s = self.ty(t)
        if s.startswith('clpoly::basic_polynomial<') or s.startswith('clpoly::polynomial_'):
            return 'poly'
        if s.startswith('std::vector<std::pair<'):
            inner = s[len('std::vector<std::pair<'):]
            if inner.startswith(('clpoly::basic_monomial', 'clpoly::umonomial')):
                return 'poly'
            return 'plist'
        if s.startswith('std::vector<clpoly::basic_polynomial'):
            return 'list'
        if s in ('clpoly::ZZ', 'clpoly::QQ', 'clpoly::Zp'):
            return 'num'
        if s.startswith(('clpoly::basic_monomial', 'clpoly::umonomial')):
            return 'mono'
        if s == 'clpoly::variable':
            return 'var'
        if s in ('unsigned long', 'long', 'int', 'unsigned int', 'unsigned long long', 'long long', 'short', 'unsigned short'):
            return 'int'
        if s.startswith('clpoly::factorization') or s.startswith('std::pair<') or 'result' in s:
            return 'rec'
        return '?'

    def default(self, t):
        k = self.kind(t)
        if k == 'poly':
            return ('zero', next(self.ids))
        if k in ('plist', 'list'):
            return ('L', {}, {}, ())
        if k == 'mono':
            return ('g', {})
        if k == 'num':
            return ('g', {(('num', '0'), ()): Fraction(1)})
        if k == 'int':
            return ('n', {})
        if k == 'rec':
            s = self.ty(t)
            if s.startswith('clpoly::factorization'):
                return ('rec', {'content': self.G(self.fresh('cst')), 'factors': ('L', {}, {}, ())})
            if s.endswith('__prime_selection_result'):
                return ('rec', {'factors': ('L', {}, {}, ())})
            return ('rec', {})
        return self.top('type')

    # ---- places
    def read(self, p, st):
        root, path = p
        if root[0] == 'some':
            v = self.read(root[1], st)
            if root[2] == 'front' and v[0] in ('g', 'zero', 'acc'):
                g = self.log(v) if v[0] != 'acc' else v[1]
                r = {'first': self.top('leading monomial'), 'second': ('g', lc(g))}
                return ('rec', r) if not path else r.get(path[0], self.top('element')) if len(path) == 1 else self.top('element')
            if root[2] == 'back' and root[1] in st.last:
                v = st.last[root[1]][0]
                for f in path:
                    v = v[1].get(f, self.top('element')) if v[0] == 'rec' else self.top('element')
                return v
            return self.top('element')
        v = st.store.get(root)
        for i, f in enumerate(path):
            if v is None:
                return self.top('unset')
            if v[0] == 'ref':
                return self.read((v[1][0], v[1][1] + path[i:]), st)
            if v[0] != 'rec':
                return self.top('field')
            v = v[1].get(f)
            if v is None:
                return ('unset',)
        if v is None:
            return self.top('unset')
        if v[0] == 'ref':
            return self.read(v[1], st)
        return v

    def write(self, p, v, st):
        root, path = p
        if root[0] == 'some':
            return self.write_element(root, path, v, st)
        if st.last:
            for q in list(st.last):
                if q[0] == root:
                    del st.last[q]

        def go(cur, path):
            if not path:
                return v
            d = dict(cur[1]) if cur and cur[0] == 'rec' else {}
            d[path[0]] = go(d.get(path[0]), path[1:])
            return ('rec', d)
        st.store[root] = go(st.store.get(root), path)

    def write_element(self, root, path, v, st):
        """an element of a container that is not known by name is written"""
        kind, cp, how = root[:3]
        L = self.read(cp, st)
        if L[0] == 'L' and how == 'back' and cp in st.last:
            old, n, ev = st.last[cp]
            e = v
            for i in reversed(range(len(path))):
                o = old
                for f in path[:i]:
                    o = o[1].get(f) if o and o[0] == 'rec' else None
                if not o or o[0] != 'rec':
                    return self.write(cp, self.top('element written'), st)
                e = ('rec', dict(o[1], **{path[i]: e}))
            a, b = self.element_logs(old), self.element_logs(e)
            if ev is not None and ev < len(self.monic_events):
                self.monic_events[ev] = None
            if self.monic:
                self.monic_events.append((n, b[1], list(st.subs), st))
            self.write(cp, ('L', add(add(L[1], a[0], -1), b[0]), add(add(L[2], a[1], -1), b[1]), L[3]), st)
            st.last[cp] = (e, n, len(self.monic_events) - 1 if self.monic else None)
            return
        if L[0] == 'g' and not path and how == 'it':
            pass
        self.write(cp, self.top('element written'), st)

    def element_logs(self, v):
        if v[0] == 'rec':
            g = self.log(v[1].get('first', ('top', 'element')))
            return scale(g, self.num(v[1].get('second', ('top', '')))), g
        g = self.log(v)
        return g, g

    def clobber(self, n, st):
        """what is written through expression n, whose place is not known, is lost"""
        fn = self.fn
        x = fn.nodes[n]
        while True:
            p = self.place(n, st)
            if p is not None:
                v = self.read(p, st)
                if v[0] == 'it':
                    p = v[1]
                if p is not None:
                    self.write(p, self.top('written through ' + fn.text(n)[:30]), st)
                return
            c = [i for i in fn.nodes[n].get('c', ()) if i >= 0]
            if not c:
                return
            n = c[0]

    def place(self, n, st):
        fn = self.fn
        x = fn.nodes[n]
        k = x['k']
        c = x.get('c', ())
        if k == 'Ref':
            d = x.get('d')
            if d is None:
                return None
            if d in st.alias:
                return st.alias[d]
            v = st.store.get(('v', d))
            if v and v[0] == 'ref':
                return v[1]
            return (('v', d), ())
        if k == 'Mem' and c and c[0] >= 0 and not x.get('fn'):
            b = self.place(c[0], st)
            if b is None:
                return None
            if x.get('arrow') and not (fn.nodes[c[0]]['k'] == 'Call' and fn.nodes[c[0]].get('op') == '->'):
                v = self.read(b, st)
                b = self.deref(v, st)
                if b is None:
                    return None
            return (b[0], b[1] + (x['n'],))
        if k in ('Cast', 'CXXFunctionalCastExpr', 'Paren', 'MaterializeTemporaryExpr') and c:
            return self.place(c[0], st)
        if k == 'Un' and x.get('op') == '*':
            return self.deref(self.val(c[0], st), st)
        if k == 'Un' and x.get('op') == '&':
            return self.place(c[0], st)
        if k == 'Call':
            nm = x.get('fq', '?').split('::')[-1]
            if nm in ('data', 'move', 'forward', 'operator=', 'as_const') and c and (x.get('obj') or nm != 'data'):
                return self.place(c[0], st)
            if nm == 'get' and c:
                b = self.place(c[0], st)
                t = x.get('f', '')
                i = '0' if 'get<0' in t else '1' if 'get<1' in t else None
                if b and i:
                    return (b[0], b[1] + ({'0': 'first', '1': 'second'}[i],))
            if x.get('op') == '*' and len(c) == 1:
                return self.deref(self.val(c[0], st), st)
            if x.get('op') == '->' and c:
                return self.deref(self.val(c[0], st), st)
            if nm in ('front', 'back') and x.get('obj') and c:
                b = self.place(c[0], st)
                return (('some', b, nm), ()) if b else None
            if x.get('op') in ('[]',) or nm == 'at':
                b = self.place(c[0], st)
                i = self.val(c[1], st)
                if b and i[0] == 'n' and len(i[1]) == 1:
                    (m, v), = i[1].items()
                    if v == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in st.idx:
                        lp, el = st.idx[m[0][0]]
                        if lp == b:
                            return (el, ())
                        L, o = self.read(b, st), self.read(lp, st)
                        if L[0] == 'L' and ('size', lp) in L[3]:
                            r = ('el2', el[1], b)
                            if r not in st.store:
                                st.store[r] = ('rec', {})
                            return (r, ())
                if b and self.kind(fn.nodes[c[0]].get('t', -1)) in ('poly', 'list', 'plist'):
                    return (('some', b, 'at'), ())
                return None
            if x.get('op') == '=' and c:
                return self.place(c[0], st)
        if k == 'Assign' and c:
            return self.place(c[0], st)
        if k == 'Cond' and len(c) == 3:
            t = self.branch(c[0], st)
            return None if t is None else self.place(c[1] if t else c[2], st)
        return None

    def branch(self, cond, st):
        fn = self.fn
        n = cond
        neg = False
        while True:
            for q, t in reversed(st.trail):
                if q == n:
                    return t != neg
            x = fn.nodes[n]
            c = [i for i in x.get('c', ()) if i >= 0]
            if x['k'] in ('Cast', 'Paren', 'ExprWithCleanups') and c:
                n = c[0]
            elif x['k'] == 'Un' and x.get('op') == '!':
                n, neg = c[0], not neg
            else:
                return None

    def deref(self, v, st):
        if v and v[0] == 'it':
            if v[2] == 'begin':
                return (('some', v[1], 'front'), ()) if v[1] else None
            if v[2]:
                return (v[2], ())
            return (('some', v[1], 'it'), ()) if v[1] else None
        if v and v[0] == 'ref':
            return v[1]
        return None

    # ---- values
    def log(self, v, st=None):
        if v[0] == 'g':
            return v[1]
        if v[0] == 'zero':
            return {(('zero', v[1]), ()): Fraction(1)}
        if v[0] == 'n':
            if not v[1]:
                return {(('num', '0'), ()): Fraction(1)}
            if set(v[1]) == {()}:
                k = v[1][()]
                return {} if abs(k) == 1 else {(('num', str(abs(k))), ()): Fraction(1)}
            return {(('cst', 'int', repr(self.frz(v[1]))), ()): Fraction(1)}
        return {(self.fresh('?', v[1] if len(v) > 1 and isinstance(v[1], str) else v[0]), ()): Fraction(1)}

    def num(self, v):
        if v[0] == 'n':
            return v[1]
        if v[0] == 'g' and not v[1]:
            return N(1)
        if v[0] == 'g' and len(v[1]) == 1:
            (s, m), = v[1]
            if s[0] == 'num' and not m:
                try:
                    return N(Fraction(s[1]) * v[1][(s, m)])
                except ValueError:
                    pass
            if s[0] == 'int' and not m:
                return {((s[1:], 1),): Fraction(1)}
        return {((self.fresh('i?'), 1),): Fraction(1)}

    def val(self, n, st):
        if n in st.vals:
            return st.vals[n]
        fn = self.fn
        x = fn.nodes[n]
        k = x['k']
        c = [i for i in x.get('c', ()) if i >= 0]
        if k == 'Int' or (k == 'Cast' and 'v' in x and x.get('ck') == 'IntegralCast'):
            return ('n', N(int(x['v'])))
        if k == 'Ref':
            p = self.place(n, st)
            if p is None:
                return self.top('ref ' + x['n'])
            r = self.read(p, st)
            if r[0] == 'unset':
                return self.unset(x, st)
            return r
        if k == 'Mem' and not x.get('fn'):
            p = self.place(n, st)
            if p is not None:
                r = self.read(p, st)
                if r[0] == 'unset':
                    return self.unset(x, st)
                if r[0] != 'top':
                    return r
            b = self.val(c[0], st) if c else None
            if b and b[0] == 'rec' and x['n'] in b[1]:
                return b[1][x['n']]
            return self.top('member ' + x['n'])
        if k in ('Cast', 'CXXFunctionalCastExpr', 'Paren', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXStdInitializerListExpr') and c:
            return self.val(c[0], st)
        if k == 'InitList':
            return ('init', [self.val(i, st) for i in c])
        if k == 'Ctor':
            return self.ctor(n, x, c, st)
        if k == 'Bin':
            a, b = self.val(c[0], st), self.val(c[1], st)
            op = x['op']
            if a[0] == 'n' and b[0] == 'n' and op in '+-*':
                return ('n', imul(a[1], b[1]) if op == '*' else add(a[1], b[1], 1 if op == '+' else -1))
            return self.top('arith')
        if k == 'Un':
            if x.get('op') == '-':
                v = self.val(c[0], st)
                return ('n', add({}, v[1], -1)) if v[0] == 'n' else v
            if x.get('op') in ('*', '&'):
                p = self.place(n, st)
                if p is not None:
                    return self.read(p, st) if x['op'] == '*' else ('ref', p)
        if k == 'Cond':
            t = self.branch(c[0], st)
            if t is not None:
                return self.val(c[1] if t else c[2], st)
            a, b = self.val(c[1], st), self.val(c[2], st)
            return a if a == b else self.top('cond')
        if k == 'Index':
            p = self.place(n, st)
            return self.read(p, st) if p else self.top('index')
        if k == 'Call':
            return self.call(n, st)
        if k == 'Assign':
            return self.val(c[0], st)
        return self.top(k)

    def unset(self, x, st):
        return self.default(x.get('t', -1))

    def ctor(self, n, x, c, st):
        cls = x.get('cls', '')
        c = [i for i in c if not (self.fn.nodes[i]['k'] == 'Ctor' and self.fn.nodes[i].get('cls') == 'std::allocator')]
        t = self.kind(x.get('t', -1))
        if cls == 'std::vector':
            if not c:
                return ('L', {}, {}, ()) if t in ('list', 'plist') else ('zero', next(self.ids)) if t == 'poly' else self.top('vector')
            v = self.val(c[0], st)
            if v[0] == 'init':
                if t == 'poly':
                    return self.terms(v[1])
                L = ('L', {}, {}, ())
                for e in v[1]:
                    L = self.pushed(L, e, n, st)
                return L
            if len(c) > 1 and v[0] in ('n', 'size'):
                return ('L', {}, {}, (('size', v[1]),) if v[0] == 'size' else ())
            if len(c) == 1:
                return v
            if len(c) == 2 and v[0] == 'it' and self.val(c[1], st)[0] == 'end':
                return self.read(v[1], st)
            return self.top('vector')
        if cls == 'std::pair':
            if len(c) == 2:
                a, b = self.val(c[0], st), self.val(c[1], st)
                return ('rec', {'first': self.braced(a), 'second': self.braced(b)})
            if len(c) == 1:
                return self.val(c[0], st)
            return ('rec', {})
        if t == 'num' or cls in ('clpoly::ZZ', 'clpoly::QQ', 'clpoly::Zp'):
            if cls == 'clpoly::QQ' and len(c) == 2:
                return ('g', add(self.log(self.val(c[0], st)), self.log(self.val(c[1], st)), -1))
            if c:
                return ('g', self.log(self.val(c[0], st)))
            return self.default(x.get('t', -1))
        if t in ('poly', 'mono') or cls in ('clpoly::basic_polynomial', 'clpoly::basic_monomial', 'clpoly::umonomial'):
            poly = cls == 'clpoly::basic_polynomial'
            if cls == 'clpoly::umonomial' and c and self.kind(self.fn.nodes[c[0]].get('t', -1)) != 'mono':
                return ('g', {(('um', repr(self.frz(self.num(self.val(c[0], st))))), ()): Fraction(1)})
            if c:
                v = self.val(c[0], st)
                if v[0] == 'init':
                    return self.terms(v[1]) if poly else self.mterms(v[1])
                if v[0] in ('g', 'zero', 'acc') and x.get('ck') in ('copy', 'move'):
                    return v
                if v[0] == 'g' and (self.kind(self.fn.nodes[c[0]].get('t', -1)) in ('poly', 'mono', 'var', 'num')):
                    return v
            return ('zero', next(self.ids)) if poly else ('g', {})
        if x.get('ck') in ('copy', 'move') and c:
            return self.val(c[0], st)
        if t == 'rec':
            return self.val(c[0], st) if c else self.default(x.get('t', -1))
        if '__normal_iterator' in cls and c:
            return self.val(c[0], st)
        return self.val(c[0], st) if len(c) == 1 else self.top('ctor ' + cls)

    def braced(self, v):
        """{} for a monomial is 1"""
        if v[0] == 'init':
            return ('g', {}) if not v[1] else self.mterms(v[1])
        return v

    def mterms(self, l):
        d = {}
        for e in l:
            if e[0] != 'rec':
                return self.top('monomial')
            d = add(d, scale(self.log(e[1].get('first', ('top',))), self.num(e[1].get('second', ('top',)))))
        return ('g', d)

    def terms(self, l):
        if not l:
            return ('zero', next(self.ids))
        if len(l) == 1 and l[0][0] == 'rec':
            return ('g', add(self.log(l[0][1].get('first', ('top',))), self.log(l[0][1].get('second', ('top',)))))
        return self.top('polynomial')

    # ---- lists
    def pushed(self, L, v, n, st):
        if L[0] != 'L':
            return L
        if v[0] == 'init':
            v = ('rec', {'first': v[1][0], 'second': v[1][1]}) if len(v[1]) == 2 else self.top('element')
        if v[0] == 'rec':
            g = self.log(v[1].get('first', ('top', 'element')))
            w = scale(g, self.num(v[1].get('second', ('top', ''))))
        else:
            g = w = self.log(v)
        if self.monic:
            self.monic_events.append((n, g, list(st.subs), st))
        return ('L', add(L[1], w), add(L[2], g), L[3])

    # ---- facts
    def subst(self, st, kind, s, e):
        st.subs.append((kind, s, e))
        if kind == 'g':
            fg, fi = (lambda d: sub(d, s, e)), (lambda p: p)
        else:
            fg, fi = (lambda d: lisub(d, s, e)), (lambda p: isub(p, s, e))
        for r, v in list(st.store.items()):
            st.store[r] = vmap(v, fg, fi)
        for q, v in list(st.vals.items()):
            st.vals[q] = vmap(v, fg, fi)
        if st.ret is not None:
            st.ret = vmap(st.ret, fg, fi)
        for q, v in list(st.last.items()):
            st.last[q] = (vmap(v[0], fg, fi),) + v[1:]

    def known(self, st, d):
        """apply the substitutions made so far on this path to a log from before"""
        for k, s, e in st.subs:
            d = sub(d, s, e) if k == 'g' else lisub(d, s, e)
        return d

    def relation(self, st, d, prefer=None):
        d = self.known(st, d)
        if not d:
            return
        if len(d) == 1 and next(iter(d))[0][0] == 'zero':
            return
        cands = []
        for (s, m), v in d.items():
            if m == () and s[0] not in ('num', 'lc') and sum(1 for (t, _) in d if t == s) == 1:
                cands.append(s)
        cands = [s for s in cands if abs(d[(s, ())]) == 1] or cands
        if not cands:
            return
        order = {'E': 0, 'coef': 0, 'h': 1, 'gcd': 1, 'cont': 2}
        s = min(cands, key=lambda q: (order.get(q[0], 3 if q[0] != 'P' else 5), repr(q)))
        if prefer in cands:
            s = prefer
        v = d[(s, ())]
        e = {k: -w / v for k, w in d.items() if k[0] != s}
        self.subst(st, 'g', s, e)

    def isnumber(self, st, v):
        d = self.log(v)
        if v[0] not in ('g',):
            return
        es = [s for (s, m) in d if s[0] == 'E']
        for s in es:
            if s in self.num1 and len(d) == 1:
                M = ('M', s[1])
                self.subst(st, 'n', M, N(1))
        self.relation(st, add(d, lc(d), -1))

    def assume(self, n, truth, st):
        """restrict st by node n being truth; False if impossible"""
        fn = self.fn
        x = fn.nodes[n]
        k = x['k']
        c = [i for i in x.get('c', ()) if i >= 0]
        if k in ('Cast', 'Paren', 'ExprWithCleanups') and c:
            return self.assume(c[0], truth, st)
        if k == 'Un' and x.get('op') == '!':
            return self.assume(c[0], not truth, st)
        if k == 'Bin' and x['op'] in ('&&', '||'):
            if (x['op'] == '&&') == truth:
                return self.assume(c[0], truth, st) and self.assume(c[1], truth, st)
            can = [i for i in c if self.assume(i, truth, st.copy())]
            return len(can) > 1 or bool(can) and self.assume(can[0], truth, st)
        if k == 'Bool':
            return (x['v'] in ('true', '1')) == truth
        if k == 'Ref' and self.isbool(x):
            p = self.place(n, st)
            v = self.read(p, st) if p else None
            if v and v[0] == 'b':
                return v[1] == truth
            if p:
                self.write(p, ('b', truth), st)
            if v and v[0] == 'pred':
                return self.assume_pred(v, truth, st)
            return True
        if k == 'Call':
            nm = x.get('fq', '?').split('::')[-1]
            if x.get('op') == '!' and len(c) == 1:
                return self.assume(c[0], not truth, st)
            if nm == 'is_number' and c:
                if truth:
                    self.isnumber(st, self.val(c[0], st))
                return True
            if nm in ('empty', 'operator bool') and c:
                emp = truth == (nm == 'empty')
                return self.emptiness(self.val(c[0], st), emp, fn.nodes[c[0]].get('t', -1), st)
            if x.get('op') in ('==', '!=', '<', '>', '<=', '>=') and len(c) == 2:
                return self.compare(x['op'], c[0], c[1], truth, st)
        if k == 'Bin' and x['op'] in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(x['op'], c[0], c[1], truth, st)
        return True

    def isbool(self, x):
        return x.get('d') is not None and self.ty(x.get('t', -1)) == 'bool'

    def pred(self, n, st):
        """a condition kept with the values its operands have now"""
        fn = self.fn
        x = fn.nodes[n]
        k = x['k']
        c = [i for i in x.get('c', ()) if i >= 0]
        if k in ('Cast', 'Paren', 'ExprWithCleanups') and c:
            return self.pred(c[0], st)
        if k == 'Bool':
            return ('b', x['v'] in ('true', '1'))
        if k == 'Ref' and self.isbool(x):
            v = self.val(n, st)
            return v if v[0] in ('b', 'pred') else self.top('bool')
        if (k == 'Un' and x.get('op') == '!') or (k == 'Call' and x.get('op') == '!' and len(c) == 1):
            v = self.pred(c[0], st)
            return ('b', not v[1]) if v[0] == 'b' else ('pred', '!', n, (v,))
        if k == 'Bin' and x['op'] in ('&&', '||'):
            return ('pred', x['op'], n, (self.pred(c[0], st), self.pred(c[1], st)))
        if (k == 'Bin' or k == 'Call') and x.get('op') in ('==', '!=', '<', '>', '<=', '>=') and len(c) == 2:
            da, db = self.degcall(c[0]), self.degcall(c[1])
            return ('pred', x['op'], n, (self.val(c[0] if da is None else da, st), self.val(c[1] if db is None else db, st)))
        if k == 'Call' and x.get('fq', '').split('::')[-1] in ('is_number', 'empty', 'operator bool') and c:
            return ('pred', x['fq'].split('::')[-1], n, (self.val(c[0], st),))
        return self.top('bool')

    def assume_pred(self, v, truth, st):
        """restrict st by a kept condition: its operands take the values they had"""
        if v[0] == 'b':
            return v[1] == truth
        if v[0] != 'pred':
            return True
        op, n, a = v[1], v[2], v[3]
        if op == '!':
            return self.assume_pred(a[0], not truth, st)
        if op in ('&&', '||'):
            if (op == '&&') == truth:
                return self.assume_pred(a[0], truth, st) and self.assume_pred(a[1], truth, st)
            can = [v for v in a if self.assume_pred(v, truth, st.copy())]
            return len(can) > 1 or bool(can) and self.assume_pred(can[0], truth, st)
        x = self.fn.nodes[n]
        c = [i for i in x.get('c', ()) if i >= 0]
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, c[0], c[1], truth, st, a)
        if op == 'is_number':
            if truth:
                self.isnumber(st, a[0])
            return True
        return self.emptiness(a[0], truth == (op == 'empty'), self.fn.nodes[c[0]].get('t', -1), st)

    def emptiness(self, v, emp, t, st):
        if v[0] == 'g':
            if emp:
                d = v[1]
                if len(d) == 1 and next(iter(d))[0][0] == 'P':
                    st.zero = True
                    return True
                return self.kind(t) not in ('poly',)
            return True
        if v[0] == 'L' and emp:
            self.relation(st, v[2])
            self.relation(st, v[1])
        return True

    def degcall(self, n):
        fn = self.fn
        x = fn.nodes[n]
        while x['k'] in ('Cast', 'Paren', 'CXXFunctionalCastExpr') and x.get('c'):
            n = x['c'][0]
            x = fn.nodes[n]
        if x['k'] == 'Call' and x.get('fq', '').split('::')[-1] in ('get_deg', 'degree', 'get_first_deg') and len([i for i in x['c'] if i >= 0]) == 1:
            return [i for i in x['c'] if i >= 0][0]
        return None

    def compare(self, op, a, b, truth, st, kept=None):
        if not truth:
            op = {'==': '!=', '!=': '==', '<': '>=', '>': '<=', '<=': '>', '>=': '<'}[op]
        da, db = self.degcall(a), self.degcall(b)
        if db is not None and da is None:
            a, b, da, db = b, a, db, da
            kept = kept and (kept[1], kept[0])
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if da is not None:
            v = kept[1] if kept else self.val(b, st)
            if v[0] == 'n' and (not v[1] or set(v[1]) == {()}):
                k = v[1].get((), 0)
                if (op == '<' and k <= 1) or (op == '<=' and k <= 0) or (op == '==' and k <= 0):
                    self.isnumber(st, kept[0] if kept else self.val(da, st))
            return True
        va, vb = kept or (self.val(a, st), self.val(b, st))
        if va[0] == 'deg' or vb[0] == 'deg':
            if vb[0] == 'deg':
                va, vb = vb, va
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if vb[0] == 'n' and (not vb[1] or set(vb[1]) == {()}):
                k = vb[1].get((), 0)
                if (op == '<' and k <= 1) or (op == '<=' and k <= 0) or (op == '==' and k <= 0):
                    self.isnumber(st, va[1])
            return True
        if va[0] == 'n' and vb[0] == 'n':
            d = add(va[1], vb[1], -1)
            if not d or set(d) == {()}:
                k = d.get((), 0)
                return {'==': k == 0, '!=': k != 0, '<': k < 0, '>': k > 0, '<=': k <= 0, '>=': k >= 0}[op]
            syms = [m for m in d if m]
            if len(syms) == 1 and len(syms[0]) == 1 and syms[0][0][1] == 1 and abs(d[syms[0]]) == 1:
                s = syms[0][0][0]
                if d[syms[0]] < 0:
                    d = add({}, d, -1)
                    op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                k = -d.get((), 0)      # s op k
                lo = st.lb.get(s)
                if op == '==':
                    if lo is not None and k < lo:
                        return False
                    self.subst(st, 'n', s, N(k))
                elif lo is not None:
                    if op in ('<', '<='):
                        hi = k - 1 if op == '<' else k
                        if hi < lo:
                            return False
                        if hi == lo:
                            self.subst(st, 'n', s, N(lo))
                    elif op == '>':
                        st.lb[s] = max(lo, k + 1)
                    elif op == '>=':
                        st.lb[s] = max(lo, k)
                    elif op == '!=' and k == lo:
                        st.lb[s] = lo + 1
            return True
        if op == '==' and va[0] in ('g', 'zero') and vb[0] in ('g', 'zero') and (va[0] == 'g' or vb[0] == 'g'):
            if va[0] == 'zero' or vb[0] == 'zero':
                return False
            if self.kind(self.fn.nodes[a].get('t', -1)) in ('poly', 'num'):
                da, db = self.log(va), self.log(vb)
                if any(s == ('num', '0') for d in (da, db) for (s, _) in d):
                    return True
                self.relation(st, add(da, db, -1))
        return True

    # ---- statements
    def step(self, n, st):
        fn = self.fn
        x = fn.nodes[n]
        k = x['k']
        c = [i for i in x.get('c', ()) if i >= 0]
        if k == 'Decl':
            for w in x['vars']:
                self.declare(w, x, st)
        elif k == 'Call':
            st.vals.pop(n, None)
            st.vals[n] = self.call(n, st)
        elif k == 'Assign':
            self.assign(n, x, c, st)
        elif k == 'Un' and x.get('op') in ('++', '--', 'post++', 'post--', '++post', '--post') or (k == 'Un' and ('++' in x.get('op', '') or '--' in x.get('op', ''))):
            p = self.place(c[0], st)
            if p:
                v = self.read(p, st)
                if v[0] == 'n':
                    st.vals[n] = v if x['op'].startswith('post') else ('n', add(v[1], N(1 if '++' in x['op'] else -1)))
                    self.write(p, ('n', add(v[1], N(1 if '++' in x['op'] else -1))), st)
                else:
                    self.write(p, self.bump(v), st)
        elif k == 'Ctor':
            st.vals.pop(n, None)
            # evaluated when needed; arguments already have values
        elif k == 'Return':
            st.ret = self.val(c[0], st) if c else ('void',)
            st.retn = n
        elif k in ('CXXThrowExpr', 'Throw'):
            st.dead = True

    def bump(self, v):
        if v[0] == 'it':
            return ('it', v[1], None)
        return ('top', 'iterator')

    def declare(self, w, x, st):
        fn = self.fn
        d = w['d']
        var = fn.vars[d]
        t = self.prog.tstr(var['t'])
        isref = t.rstrip().endswith('&')
        st.alias.pop(d, None)
        st.store.pop(('v', d), None)
        bind = w.get('bind')
        if 'i' not in w or w['i'] < 0:
            st.store[('v', d)] = self.default(var['t'])
        elif isref:
            p = self.place(w['i'], st)
            if p is not None:
                st.alias[d] = p
            else:
                st.store[('v', d)] = self.val(w['i'], st)
        else:
            v = self.val(w['i'], st)
            if self.ty(var['t']) == 'bool':
                v = self.pred(w['i'], st)
            if v[0] == 'init':
                v = self.rec_of(v, var['t'])
            k = self.kind(var['t'])
            if k == 'num' and v[0] == 'n':
                v = ('g', self.log(v))
            if k == 'int' and v[0] == 'g':
                v = ('n', self.num(v))
            st.store[('v', d)] = v
        if bind:
            p = st.alias.get(d, (('v', d), ()))
            for i, b in enumerate(bind):
                st.alias[b] = (p[0], p[1] + (('first', 'second')[i] if len(bind) == 2 else '#%d' % i,))

    def rec_of(self, v, t):
        k = self.kind(t)
        if k == 'poly':
            return self.terms(v[1])
        if k == 'mono':
            return self.mterms(v[1])
        if k in ('list', 'plist'):
            L = ('L', {}, {}, ())
            for e in v[1]:
                L = self.pushed(L, e, 0, St())
            return L
        if self.ty(t).startswith('std::pair<') and len(v[1]) == 2:
            return ('rec', {'first': v[1][0], 'second': v[1][1]})
        return self.top('init')

    def conv(self, v, n):
        k = self.kind(self.fn.nodes[n].get('t', -1))
        if v[0] == 'init':
            return self.rec_of(v, self.fn.nodes[n].get('t', -1))
        if k == 'num' and v[0] == 'n':
            return ('g', self.log(v))
        return v

    def assign(self, n, x, c, st):
        fn = self.fn
        p = self.place(c[0], st)
        op = x['op']
        r = self.val(c[1], st)
        if p is None:
            self.clobber(c[0], st)
            return
        if op == '=':
            if self.ty(fn.nodes[c[0]].get('t', -1)) == 'bool':
                r = self.pred(c[1], st)
            self.write(p, self.conv(r, c[0]), st)
            return
        v = self.read(p, st)
        if v[0] == 'n' and r[0] == 'n' and op in ('+=', '-=', '*='):
            self.write(p, ('n', imul(v[1], r[1]) if op == '*=' else add(v[1], r[1], 1 if op == '+=' else -1)), st)
        else:
            self.write(p, self.top('assign'), st)

    # ---- calls
    def factor_list(self, w=None, u=None, flags=()):
        return ('L', w if w is not None else self.G(self.fresh('W'))[1], u if u is not None else self.G(self.fresh('U'))[1], tuple(flags))

    def monicpart(self, d):
        return add(d, lc(d), -1)

    def divide(self, n, a, b, st, what=''):
        if self.deep(a, 'zero'):
            return ('g', add(a, b, -1))
        syms = [s for (s, m) in b if s[0] == 'gcd']
        rest = [s for (s, m) in b if s[0] not in ('gcd', 'lc')]
        if len(syms) == 1 and not rest and syms[0] in self.gcdof:
            ok = False
            for g in self.gcdof[syms[0]]:
                g = self.known(st, g)
                d = add(a, g, -1)
                d2 = add(d, lc(d), -1)
                d3 = {k: v for k, v in d.items() if not isconst(k[0])}
                if not d2 or all(v > 0 for v in d.values()) or not d3:
                    ok = True
            if not ok:
                self.rep.count('divisions by a gcd of other polynomials')
                self.bad.append((n, 'the divisor is the gcd of other polynomials than the dividend %s' % show(a)))
            else:
                self.rep.count('divisions by a gcd of the dividend')
        return ('g', add(a, b, -1))

    def deep(self, d, kind):
        return any(s[0] == kind for (s, m) in d)

    def call(self, n, st):
        fn = self.fn
        x = fn.nodes[n]
        c = [i for i in x.get('c', ()) if i >= 0]
        fq = x.get('fq', '?')
        nm = fq.split('::')[-1]
        op = x.get('op')
        obj = bool(x.get('obj'))
        V = lambda i: self.val(c[i], st)
        L = lambda i: self.log(self.val(c[i], st))
        P = lambda i: self.place(c[i], st)
        if op == '=' and len(c) == 2:
            p = P(0)
            v = self.conv(V(1), c[0])
            if p is not None:
                self.write(p, v, st)
            else:
                self.clobber(c[0], st)
            return v
        if op in ('++', '--'):
            p = P(0)
            if p:
                v = self.read(p, st)
                if v[0] == 'n':
                    self.write(p, ('n', add(v[1], N(1 if op == '++' else -1))), st)
                elif v[0] == 'g':
                    self.write(p, self.top('increment'), st)
                else:
                    self.write(p, self.bump(v), st)
            return self.top('step')
        if op in ('*=', '/=', '%=', '+=', '-=') and len(c) == 2:
            p = P(0)
            a, b = V(0), V(1)
            if op == '*=':
                v = ('g', add(self.log(a), self.log(b)))
            elif op == '/=':
                v = self.divide(n, self.log(a), self.log(b), st)
            else:
                v = self.bump(a) if a[0] == 'it' else self.top('arith')
            if p is not None:
                self.write(p, v, st)
            else:
                self.clobber(c[0], st)
            return v
        if op == '*' and len(c) == 1 or op == '->' or op == '[]' or nm == 'at':
            p = self.place(n, st)
            return self.read(p, st) if p is not None else self.top('element')
        if op in ('*', '/', '-', '+', '%') and len(c) == 2:
            a, b = V(0), V(1)
            if op == '*':
                return ('g', add(self.log(a), self.log(b)))
            if op == '/':
                return self.divide(n, self.log(a), self.log(b), st)
            if a[0] == 'it' and op in '+-':
                return self.bump(a)
            return self.top('arith')
        if op == '-' and len(c) == 1:
            return V(0)
        if nm in ('move', 'forward', 'as_const') and len(c) == 1:
            return V(0)
        if nm == 'get' and len(c) == 1:
            p = self.place(n, st)
            return self.read(p, st) if p else self.top('get')
        if nm == 'data' and obj:
            return V(0)
        if nm in ('begin', 'cbegin', 'rbegin', 'crbegin') and c:
            p = P(0)
            return ('it', p, 'begin') if p else self.top('begin')
        if nm in ('end', 'cend', 'rend', 'crend') and c:
            p = P(0)
            return ('end', p) if p else self.top('end')
        if nm == 'size' and obj:
            p = P(0)
            return ('size', p) if p else self.top('size')
        if nm in ('front', 'back') and obj:
            v = V(0)
            if v[0] in ('g', 'zero', 'acc') and nm == 'front':
                g = self.log(v) if v[0] != 'acc' else v[1]
                return ('rec', {'first': self.top('leading monomial'), 'second': ('g', lc(g))})
            p = self.place(n, st)
            return self.read(p, st) if p is not None else self.top('element of a list')
        if nm == 'leadcoeff' and len(c) == 1:
            return ('g', lc(L(0)))
        if nm in ('push_back', 'emplace_back') and obj:
            p = P(0)
            if p is None:
                return self.top('void')
            v = self.read(p, st)
            if v[0] == 'unset':
                v = self.default(fn.nodes[c[0]].get('t', -1))
            e = V(1) if len(c) == 2 else ('rec', {'first': V(1), 'second': V(2)}) if len(c) == 3 else self.top('element')
            if e[0] == 'init' and len(e[1]) == 2:
                e = ('rec', {'first': self.braced(e[1][0]), 'second': self.braced(e[1][1])})
            k = self.kind(fn.nodes[c[0]].get('t', -1))
            if v[0] == 'L':
                self.rep.count('factors put into a list')
                self.write(p, self.pushed(v, e, n, st), st)
                st.last[p] = (e, n, len(self.monic_events) - 1 if self.monic else None)
            elif k == 'mono' and v[0] == 'g' and e[0] == 'rec':
                self.write(p, self.mterms([('rec', {'first': v, 'second': ('n', N(1))}), e]), st)
            elif v[0] == 'zero' and e[0] == 'rec':
                self.write(p, ('acc', self.terms([e])[1]), st)
            else:
                self.write(p, self.top('append'), st)
            return self.top('void')
        if nm == 'insert' and obj and len(c) == 4:
            p = P(0)
            v = self.read(p, st) if p else self.top('')
            b = V(2)
            if v[0] == 'L' and b[0] == 'it' and b[2] == 'begin' and V(3)[0] == 'end':
                o = self.read(b[1], st)
                if o[0] == 'L':
                    self.write(p, ('L', add(v[1], o[1]), add(v[2], o[2]), v[3]), st)
                    return self.top('it')
            if p:
                self.write(p, self.top('insert'), st)
            return self.top('it')
        if nm in ('make_move_iterator',) and c:
            return V(0)
        if nm == 'clear' and obj:
            p = P(0)
            if p:
                self.write(p, self.default(fn.nodes[c[0]].get('t', -1)), st)
            return self.top('void')
        if nm in ('normalization', 'reserve', 'shrink_to_fit', 'comp', 'comp_ptr', 'sort', 'stable_sort', 'reverse', 'get_variables', 'degree', 'get_deg',
                  'is_number', 'empty', 'deg', 'capacity', 'get_first_var', 'operator bool', 'abs', 'fabs', 'sgn', 'next_prime_64', 'prev_prime_64', 'variable', 'serial'):
            if nm == 'normalization' and c:
                v = V(0)
                p = P(0)
                if v[0] == 'acc' and p:
                    self.write(p, ('g', v[1]), st)
            if nm == 'abs' and c:
                return V(0)
            if nm in ('degree', 'get_deg') and len(c) == 1:
                return ('deg', V(0))
            return self.top(nm)
        if nm == 'swap' and len(c) == 2:
            p, q = P(0), P(1)
            if p and q:
                a, b = self.read(p, st), self.read(q, st)
                self.write(p, b, st)
                self.write(q, a, st)
            return self.top('void')
        if nm == 'pow' and len(c) == 2:
            return ('g', scale(L(0), self.num(V(1))))
        if nm == 'prime':
            return ('n', {((('prime',), 1),): Fraction(1)})
        if nm in ('number',) and obj:
            return V(0)
        if nm == 'get_den' and c:
            d = L(0)
            return self.G(('den', self.frz(d)))
        if nm == 'get_num' and c:
            return ('g', add(L(0), self.G(('den', self.frz(L(0))))[1]))
        if nm == 'lcm' and len(c) == 2:
            a, b = L(0), L(1)
            if not a or not b:
                return ('g', b or a)
            return self.G(('lcm', tuple(sorted((self.frz(a), self.frz(b)), key=repr))))
        if nm in ('polynomial_GCD', 'gcd') and len(c) == 2:
            a, b = L(0), L(1)
            s = self.memoized('gcd', {('a', self.frz(a)): 1, ('b', self.frz(b)): 1}) if self.frz(a) <= self.frz(b) or True else None
            self.gcdof[s] = (a, b)
            return self.G(s)
        if nm == 'cont' and len(c) == 1:
            d = L(0)
            kind = 'ct' if self.kind(x.get('t', -1)) == 'num' else 'cont'
            return self.G(self.memoized(kind, d))
        if nm == 'pp' and len(c) == 1:
            d = L(0)
            return ('g', add(d, self.G(self.memoized('cont', d))[1], -1))
        if nm == '__upoly_primitive' and self.fn.name != nm:
            d = L(0)
            k = self.G(self.memoized('ct', d))
            return ('rec', {'first': k, 'second': ('g', add(d, k[1], -1))})
        if nm == '__upoly_make_monic':
            p = P(0)
            d = L(0)
            if p:
                self.write(p, ('g', add(d, lc(d), -1)), st)
            return ('g', lc(d))
        if nm == 'poly_convert' and len(c) >= 2:
            a, p = L(0), P(1)
            ta, tb = self.prog.tstr(fn.nodes[c[0]].get('t', -1)), self.prog.tstr(fn.nodes[c[1]].get('t', -1))
            if V(0)[0] == 'zero':
                v = V(0)
            elif 'QQ' in ta and 'QQ' not in tb:
                v = ('g', add(a, self.G(('lcd', self.frz(a)))[1]))
            elif ('Zp' in ta) != ('Zp' in tb):
                v = self.top('reduction')
            else:
                v = ('g', a)
            if p:
                self.write(p, v, st)
            return self.top('void')
        if nm == '__upoly_to_poly' and c:
            return V(0)
        if nm in ('__upoly_mod', '__upoly_powmod', 'prem', 'pquo'):
            return self.G(self.fresh('x', 'a remainder'))
        if nm == 'polynomial_mod' and len(c) >= 2:
            return self.G(('mod', self.frz(L(0)), repr(V(1))))
        if nm == 'pair_vec_div':
            if len(c) == 4:
                p = P(0)
                v = self.divide(n, L(1), L(2), st)
                if p:
                    self.write(p, v, st)
                return self.top('void')
            if len(c) == 5:
                p, q = P(0), P(1)
                v = self.divide(n, L(2), L(3), st)
                if p:
                    self.write(p, v, st)
                if q:
                    self.write(q, self.top('remainder'), st)
                return self.top('void')
        if nm == 'squarefreefactorize' and len(c) == 1:
            return self.factor_list(w=L(0), flags=('num1',))
        if nm == '__squarefree_Zp':
            return self.factor_list(w=self.monicpart(L(0)), flags=('monic',))
        if nm == '__ddf_Zp':
            return self.factor_list(u=self.monicpart(L(0)), flags=('monic',))
        if nm == '__factor_Zp':
            return ('rec', {'first': ('g', lc(L(0))), 'second': self.factor_list(w=self.monicpart(L(0)), flags=('monic',))})
        if nm == '__edf_Zp' and len(c) >= 2:
            p = P(0)
            v = self.read(p, st) if p else self.top('')
            d = self.monicpart(L(1))
            if v[0] == 'L':
                self.write(p, ('L', add(v[1], d), add(v[2], d), tuple(set(v[3]) | ({'monic'} if not v[1] else set()))), st)
            return self.top('void')
        if nm in ('__factor_squarefree_primitive_ZZ', '__lll_factorize', '__vanhoeij_recombine', '__zassenhaus_recombine', '__factor_recombine') and c:
            return self.factor_list(w=L(0), u=L(0))
        if nm == '__wang_core':
            return self.factor_list(w=L(0))
        if nm in ('factorize', '__factor_multivar') and len(c) == 1:
            d = L(0)
            f = self.G(self.fresh('fc'))[1]
            return ('rec', {'content': ('g', f), 'factors': self.factor_list(w=add(d, f, -1))})
        if nm == '__extract_monomial_content' and len(c) == 2:
            p = P(1)
            m = self.G(self.fresh('mc'))[1]
            if p:
                self.write(p, self.factor_list(w=m), st)
            return ('g', add(L(0), m, -1))
        if nm == '__extract_pth_root' and c:
            return ('g', scale(L(0), {((('prime',), -1),): Fraction(1)}))
        # unknown: what it may write is lost
        self.rep.count('calls without a model')
        first = 1 if (obj and x.get('fq', '').startswith('std::')) else 0
        pts = x.get('pt') or []
        args = c[1:] if obj else c
        for i, a in enumerate(args):
            t = pts[i] if i < len(pts) else None
            s = self.prog.tstr(t) if isinstance(t, int) else str(t or '')
            if s.rstrip().endswith('&') and not s.startswith('const ') and not s.rstrip().endswith('&&'):
                p = self.place(a, st)
                if p:
                    self.write(p, self.top('written by ' + nm), st)
                else:
                    self.clobber(a, st)
        if obj and nm not in ('find', 'count', 'data', 'compare'):
            p = P(0)
            v = self.read(p, st) if p else None
            if v and v[0] in ('L', 'g', 'acc', 'zero') and not x.get('f', '').rstrip().endswith('const'):
                self.write(p, self.top('changed by ' + nm), st)
        return self.top(nm)

    # ---- running
    def region(self, starts, head, body):
        """run from (block, state) inside body; returns (states at back edge to head, [(target, state)])"""
        fn = self.fn
        work = list(starts)
        back, exits = [], []
        while work:
            b, st = work.pop()
            self.steps += 1
            if self.steps > LIM * (20 if self.unroll else 1):
                raise Undecided('too many paths')
            blk = fn.blocks[b]
            for e in blk['e']:
                if isinstance(e, dict):
                    continue
                self.step(e, st)
                if st.dead:
                    break
            if st.dead:
                continue
            for t, s2 in self.succ(b, st):
                self.edge(b, t, s2, head, body, work, back, exits)
        return back, exits

    def edge(self, b, t, st, head, body, work, back, exits):
        if t == head:
            back.append(st)
        elif body is not None and t not in body:
            exits.append((t, st))
        elif t in self.heads:
            for t2, s2 in self.loop(t, st):
                if t2 == t:
                    raise Undecided('loop')
                self.edge(t, t2, s2, head, body, work, back, exits)
        else:
            work.append((t, st))

    def succ(self, b, st):
        fn = self.fn
        blk = fn.blocks[b]
        ss = blk['s']
        live = [s for s in ss if s >= 0]
        cond = blk.get('cond')
        if len(ss) == 2 and cond is not None and cond >= 0 and blk.get('tk') != 'SwitchStmt':
            out = []
            for i, s in enumerate(ss):
                if s < 0:
                    continue
                s2 = st.copy()
                if self.assume(cond, i == 0, s2):
                    s2.trail = s2.trail + ((cond, i == 0),)
                    out.append((s, s2))
            return out
        return [(s, st.copy() if len(live) > 1 else st) for s in live]

    def leaves(self, st):
        out = {}

        def go(root, path, v):
            if v is None:
                return
            if v[0] == 'rec':
                for f, w in v[1].items():
                    go(root, path + (f,), w)
            else:
                out[(root, path)] = v
        for r, v in st.store.items():
            go(r, (), v)
        return out

    def element_loop(self, h, st):
        """(kind, list place, var place) when h's condition walks over a list from its start"""
        fn = self.fn
        cond = fn.blocks[h].get('cond')
        if cond is None or cond < 0:
            return None
        x = fn.nodes[cond]
        c = [i for i in x.get('c', ()) if i >= 0]
        while x['k'] in ('Cast', 'Paren') and c:
            x = fn.nodes[c[0]]
            c = [i for i in x.get('c', ()) if i >= 0]
        op = x.get('op')
        if len(c) != 2 or op not in ('!=', '<'):
            return None
        s2 = st.copy()
        for e in fn.blocks[h]['e']:
            if not isinstance(e, dict):
                self.step(e, s2)
        p = self.place(c[0], s2)
        a, b = self.val(c[0], s2), self.val(c[1], s2)
        if a[0] == 'it' and a[2] == 'begin' and b[0] == 'end' and a[1] == b[1] and p is not None:
            return ('it', a[1], p)
        if a[0] == 'n' and not a[1] and b[0] == 'size' and p is not None:
            return ('ix', b[1], p)
        return None

    def counter(self, h, st):
        """(var place, bound value, how) when h's condition compares a stepping int with a bound"""
        fn = self.fn
        cond = fn.blocks[h].get('cond')
        if cond is None or cond < 0:
            return None
        x = fn.nodes[cond]
        c = [i for i in x.get('c', ()) if i >= 0]
        op = x.get('op')
        truth = x['k'] == 'Cast' and c and self.kind(fn.nodes[c[0]].get('t', -1)) == 'int'
        if not truth and (x['k'] != 'Bin' or len(c) != 2 or op not in ('<', '!=', '<=', '>')):
            return None
        a = fn.nodes[c[0]]
        while a['k'] in ('Cast', 'Paren') and a.get('c'):
            a = fn.nodes[a['c'][0]]
        p = self.place(a['c'][0], st) if a['k'] == 'Un' and a.get('op', '').startswith('post') else self.place(c[0], st)
        if truth:
            return (p, {}, '!=') if p else None
        v = self.val(c[1], st)
        if p is None or v[0] != 'n':
            return None
        return p, v[1], op

    def unrolled(self, h, st0, el, lst, k):
        """the states after at most self.unroll passes through the loop, each pass exact"""
        body = self.heads[h]
        states = [(st0, [])]
        out = []
        for it in range((self.unroll if el else max(self.unroll, 2)) + 1):
            nxt = []
            for st, els in states:
                st = st.copy()
                E = None
                base = next(self.ids)
                eroot = ('el', base)
                if el:
                    E = {(('E', base) + (('monic',) if 'monic' in (lst[3] if lst[0] == 'L' else ()) else ()), ()): Fraction(1)}
                    sy = next(iter(E))[0]
                    if k == 'pair':
                        M = {((('M', base), 1),): Fraction(1)}
                        st.store[eroot] = ('rec', {'first': ('g', E), 'second': ('n', M)})
                        st.lb[('M', base)] = 1
                        if 'num1' in lst[3]:
                            self.num1.add(sy)
                    else:
                        M = N(1)
                        st.store[eroot] = ('g', E)
                    if el[0] == 'it':
                        self.write(el[2], ('it', el[1], eroot), st)
                    else:
                        s = ('ix', base)
                        self.write(el[2], ('n', {((s, 1),): Fraction(1)}), st)
                        st.idx[s] = (el[1], eroot)
                        st.lb[s] = 0
                    one = (base, E, scale(E, M))
                back, exits = self.run_loop(h, [(h, st)], body, el)
                for b in back:
                    nxt.append((b, els + [one] if el else els))
                for t, s2 in exits:
                    if el and getattr(s2, 'done', False):
                        if lst[0] == 'L':
                            cur = lst
                            w = u = {}
                            for _, e, m in els:
                                w, u = add(w, m), add(u, e)
                            self.equate(s2, lst[2], u)
                            if k == 'pair':
                                self.equate(s2, lst[1], w)
                        for pl in {r[2] for r in s2.store if r[0] == 'el2' and any(r[1] == b_ for b_, _, _ in els)}:
                            W, U = {}, {}
                            for b_, e, m in els:
                                v = self.leaves2(s2, pl, b_, k, m, e)
                                v = v or ({(self.fresh('?', 'element'), ()): Fraction(1)},) * 2
                                W, U = add(W, v[0]), add(U, v[1])
                            self.write(pl, ('L', W, U, ()), s2)
                        self.write(el[2], self.top('finished'), s2)
                    if hasattr(s2, 'done'):
                        del s2.done
                    out.append((t, s2))
            states = nxt
            if not states:
                break
        return out

    def equate(self, st, d, e):
        """a list is exactly the elements seen: its symbols are replaced by theirs"""
        d = add(self.known(st, d), self.known(st, e), -1)
        for (s, m), v in sorted(d.items(), key=repr):
            if s[0] in ('P', 'W', 'U', 'gcd', 'h') and sum(1 for (t, _) in d if t == s) == 1 and all(q == ('prime',) for q, _ in m):
                inv = tuple((q, -e) for q, e in m)
                return self.subst(st, 'g', s, {(q[0], mmul(q[1], inv)): -w / v for q, w in d.items() if q[0] != s})
        self.relation(st, d)

    def loop(self, h, st0):
        fn = self.fn
        body = self.heads[h]
        base = next(self.ids)
        el = self.element_loop(h, st0)
        lp = None
        if self.unroll and not (self.outermost_general and not any(h in b for g, b in self.heads.items() if g != h)):
            lst = self.read(el[1], st0) if el else None
            k = self.kind_of_elements(lst, el[1]) if el else None
            if k != 'term':
                self.rep.count('loops')
                return self.unrolled(h, st0, el if k else None, lst, k)
        if el:
            lst = self.read(el[1], st0)
            k = self.kind_of_elements(lst, el[1])
            if k is None:
                el = None
        entry = self.leaves(st0)
        changed = set()
        eroot = ('el', base)
        rounds = 0
        while True:
            rounds += 1
            if rounds > 8:
                raise Undecided('loop does not settle')
            st = st0.copy()
            st.subs = []
            st.trail = ()
            heads = {}
            for pl in changed:
                v = entry[pl]
                if el and pl == el[2]:
                    continue
                heads[pl] = self.havoc(v, base, pl)
                if v[0] == 'L' and not v[1] and not v[2] and 'monic' not in v[3] and (h, pl) not in self.mixed:
                    heads[pl] = heads[pl][:3] + (tuple(v[3]) + ('monic',),)
                self.write(pl, heads[pl], st)
            if el:
                E = ('E', base) + (('monic',) if 'monic' in (lst[3] if lst[0] == 'L' else ()) else ())
                if k == 'term':
                    st.store[eroot] = ('rec', {'first': self.G(('mo', base)), 'second': self.G(('coef', base))})
                else:
                    if k == 'pair':
                        st.store[eroot] = ('rec', {'first': self.G(E), 'second': ('n', {((('M', base), 1),): Fraction(1)})})
                        st.lb[('M', base)] = 1
                        if lst[0] == 'L' and 'num1' in lst[3]:
                            self.num1.add(E)
                    else:
                        st.store[eroot] = self.G(E)
                if el[0] == 'it':
                    self.write(el[2], ('it', el[1], eroot), st)
                else:
                    s = ('ix', base)
                    self.write(el[2], ('n', {((s, 1),): Fraction(1)}), st)
                    st.idx[s] = (el[1], eroot)
                    st.lb[s] = 0
            for pl in heads:
                if heads[pl][0] == 'n' and entry[pl][0] == 'n' and (not entry[pl][1] or set(entry[pl][1]) == {()}):
                    (m, _), = heads[pl][1].items()
                    if rounds > 1 and self.increasing.get((h, pl)):
                        st.lb[m[0][0]] = entry[pl][1].get((), Fraction(0))
            mon0 = len(self.monic_events)
            bad0 = len(self.bad)
            # the head block itself
            startstates = [(h, st)]
            back, exits = self.run_loop(h, startstates, body, el)
            new = set(changed)
            if rounds == 1:
                filled = {}
                for pl, v in entry.items():
                    if v[0] == 'zero' and back:
                        w = [self.leaves(b).get(pl) for b in back]
                        if all(q is not None and q[0] == 'acc' and q[1] == w[0][1] for q in w):
                            filled[pl] = w[0][1]
            for b in back:
                lv = self.leaves(b)
                for pl, v in entry.items():
                    if pl in changed:
                        continue
                    if (pl[0], ()) in changed or any((pl[0], pl[1][:i]) in changed for i in range(len(pl[1]))):
                        continue
                    if lv.get(pl) != v and not (el and pl == el[2]):
                        # compare after the branch facts of the path
                        w = vmap(v, lambda d: self.known(b, d), lambda p: self.knowni(b, p))
                        if lv.get(pl) != w:
                            new.add(pl)
            inc = {}
            for pl in new:
                if entry[pl][0] == 'n':
                    hv = heads.get(pl, entry[pl])
                    ok = True
                    for b in back:
                        v = self.leaves(b).get(pl)
                        d = add(v[1], hv[1] if v and v[0] == 'n' else {}, -1) if v and v[0] == 'n' else None
                        if d is not None:
                            d = self.knowni(b, d)
                        if d is None or not (not d or (set(d) == {()} and d[()] > 0)):
                            ok = False
                    inc[pl] = ok
            # a list assumed to hold monic elements only has to keep that
            mixed = {(h, pl) for pl, hv in heads.items() if hv[0] == 'L' and 'monic' in hv[3] and 'monic' not in entry[pl][3] and
                     any((self.leaves(b).get(pl) or ('',))[0] == 'L' and 'monic' not in self.leaves(b)[pl][3] for b in back)} - self.mixed
            self.mixed |= mixed
            settled = new == changed and all(self.increasing.get((h, pl)) == ok for pl, ok in inc.items()) and not mixed
            for pl, ok in inc.items():
                self.increasing[(h, pl)] = ok
            if settled:
                break
            changed = new
            del self.monic_events[mon0:]
            del self.bad[bad0:]
        self.rep.count('loops')
        self.loopends.append((heads, back + [s for _, s in exits if s.ret is not None]))
        return self.close(h, st0, st, heads, back, exits, el, base, k if el else None, lst if el else None, entry, filled)

    def selected(self, exits):
        """every choice of modular factors recorded in a result: their product is the argument modulo the prime recorded with them"""
        out = []
        seen = set()
        for heads, sts in self.loopends:
            for s in sts:
                for pl, v in self.leaves(s).items():
                    if pl[1][-1:] != ('factors',) or v[0] != 'L':
                        continue
                    mods = [sy for (sy, m) in v[2] if sy[0] == 'mod']
                    if not mods:
                        if not v[2] or v == heads.get(pl) or pl not in heads and any(sy[0] == 'h' and sy[2] == pl for (sy, m) in v[2]):
                            continue
                        out.append((None, s, v[2]))
                        continue
                    pr = self.read((pl[0], pl[1][:-1] + ('prime',)), s)
                    key = (pl, repr(v), repr(pr))
                    if key in seen:
                        continue
                    seen.add(key)
                    src = next(d for d in self.fn.params if self.kind(self.fn.vars[d]['t']) == 'poly')
                    g = {(('mod', self.frz({(('P', self.fn.vars[src]['n']), ()): Fraction(1)}), repr(pr)), ()): Fraction(1)}
                    g = self.known(s, g)
                    diff = add(v[2], add(g, lc(g), -1), -1)
                    diff = add(diff, lc(diff), -1)
                    self.rep.count('choices of modular factors')
                    if diff:
                        out.append((None, s, diff))
        return out

    def knowni(self, st, p):
        for k, s, e in st.subs:
            if k == 'n':
                p = isub(p, s, e)
        return p

    def kind_of_elements(self, lst, place):
        t = None
        root, path = place
        if lst[0] == 'L':
            t = self.list_kind(place)
            return t or 'plain'
        if lst[0] in ('g', 'zero', 'acc'):
            return 'term'
        return None

    def list_kind(self, place):
        root, path = place
        d = root[1] if root[0] == 'v' else None
        if d is None:
            return 'pair' if path else None
        t = self.kind(self.fn.vars[d]['t'])
        if not path:
            if t == 'plist':
                return 'pair'
            if t == 'list':
                return 'plain'
            s = self.ty(self.fn.vars[d]['t'])
            return 'pair' if 'std::vector<std::pair' in s else 'plain'
        if path[-1] == 'factors':
            rec = self.prog.records.get(self.ty(self.fn.vars[d]['t']).split('<')[0], {}) if isinstance(self.prog.records, dict) else {}
            return 'plain' if 'result' in self.ty(self.fn.vars[d]['t']) and 'factorization' not in self.ty(self.fn.vars[d]['t']) else 'pair'
        return 'pair'

    def havoc(self, v, base, pl):
        tag = (pl[0], pl[1])
        if v[0] in ('g', 'zero', 'acc'):
            return ('g', {(('h', base, tag, 'g'), ()): Fraction(1)})
        if v[0] == 'n':
            return ('n', {((('hi', base, tag), 1),): Fraction(1)})
        if v[0] == 'L':
            return ('L', {(('h', base, tag, 'W'), ()): Fraction(1)}, {(('h', base, tag, 'U'), ()): Fraction(1)}, v[3])
        if v[0] == 'it':
            return ('it', v[1], None)
        return self.top('changed in a loop')

    def run_loop(self, h, starts, body, el):
        """one pass: the head's own elements, then the body; exits through the head's condition are marked"""
        fn = self.fn
        back, exits = [], []
        work = []
        for b, st in starts:
            blk = fn.blocks[h]
            for e in blk['e']:
                if not isinstance(e, dict):
                    self.step(e, st)
            if st.dead:
                continue
            ss = [s for s in blk['s'] if s >= 0]
            if el:
                for i, s in enumerate(blk['s']):
                    if s < 0:
                        continue
                    s2 = st.copy()
                    if s in body:
                        self.edge(h, s, s2, h, body, work, back, exits)
                    else:
                        s2.done = True
                        exits.append((s, s2))
            else:
                for t, s2 in self.succ(h, st):
                    inb = t in body
                    if not inb:
                        s2.done = True
                    self.edge(h, t, s2, h, body, work, back, exits)
        bk, ex = self.region(work, h, body)
        return back + bk, exits + ex

    # ---- invariants
    def close(self, h, st0, sth, heads, back, exits, el, base, k, lst, entry, filled):
        fn = self.fn
        # variables of the invariant: (name, value at head, init value, [value at each back edge])
        vs = []
        for pl, hv in heads.items():
            iv = entry[pl]
            vals = [self.leaves(b).get(pl) for b in back]
            if hv[0] == 'g':
                if iv[0] == 'acc' or any(v is None or v[0] not in ('g', 'zero', 'acc') for v in vals):
                    continue
                vs.append((pl, hv[1], self.log(iv), [self.log(v) if v[0] != 'acc' else v[1] for v in vals], False))
            elif hv[0] == 'L':
                if any(v is None or v[0] != 'L' for v in vals):
                    continue
                vs.append((pl, hv[1], iv[1], [v[1] for v in vals], True))
                vs.append((pl, hv[2], iv[2], [v[2] for v in vals], True))
        ints = {}
        for pl, hv in heads.items():
            if hv[0] == 'n':
                (m, _), = hv[1].items()
                vals = [self.leaves(b).get(pl) for b in back]
                if all(v is not None and v[0] == 'n' for v in vals):
                    ints[m[0][0]] = (hv[1], entry[pl][1], [v[1] for v in vals])
        out_terms = {}
        final_sub = []
        if el:
            if k == 'term':
                return self.close_terms(h, st0, heads, back, exits, el, base, lst, entry, filled)
            Wsym, Usym = ('h', base, 'done', 'W'), ('h', base, 'done', 'U')
            g = {(Wsym, ()): Fraction(1)}
            E = ('E', base) + (('monic',) if 'monic' in lst[3] else ())
            one = {(E, ()): Fraction(1)}
            em = scale(one, {((('M', base), 1),): Fraction(1)}) if k == 'pair' else one
            u = {(Usym, ()): Fraction(1)}
            if k == 'pair':
                vs.append((('done', 'W'), g, {}, [add(self.known(b, g), self.known(b, em)) for b in back], False))
            vs.append((('done', 'U'), u, {}, [add(self.known(b, u), self.known(b, one)) for b in back], False))
            # elements changed or set in place
            for pl in self.element_writes(back, base):
                vals2 = []
                for b in back:
                    v = self.leaves2(b, pl, base, k, em, one)
                    vals2.append(v)
                tag = ('set', base, pl)
                if all(v is not None for v in vals2):
                    for q, nmq in ((0, 'W'), (1, 'U')):
                        s = ('h', base, ('set', pl), nmq)
                        gs = {(s, ()): Fraction(1)}
                        vs.append(((pl, nmq, 'set'), gs, {}, [add(self.known(b, gs), v[q]) for b, v in zip(back, vals2)], False))
                    out_terms[pl] = (('h', base, ('set', pl), 'W'), ('h', base, ('set', pl), 'U'))
        # constants that take part
        hs = {s for _, hv, _, _, _ in vs for (s, m) in hv}
        consts = []
        for _, _, iv, vals, _ in vs:
            for d in list(vals):
                for (s, m) in d:
                    if s not in hs and s not in consts and self.outer(s, base):
                        consts.append(s)
        for s in consts:
            d = {(s, ()): Fraction(1)}
            vs.append((('const', s), d, d, [self.known(b, d) for b in back], False))
        if self.monic:
            for nm_, hv, iv, vals, f in list(vs):
                if nm_[0] != 'const':
                    vs.append((('lc', nm_), lc(hv), lc(iv), [lc(v) for v in vals], f))
        # exponent monomials
        S = [()]
        for sname in ints:
            S.append(((sname, 1),))
        for _, _, iv, vals, _ in vs:
            for d in vals:
                for (s, m) in d:
                    mm = tuple(x for x in m if self.outer(x[0], base) and x[0] not in ints)
                    if mm and mm not in S and len(S) < 12:
                        S.append(mm)
        unk = [(i, s) for i in range(len(vs)) for s in S]
        rows = []
        for bi, b in enumerate(back):
            cols = {}
            for ui, (i, s) in enumerate(unk):
                _, hv, iv, vals, _ = vs[i]
                s_head = {s: Fraction(1)}
                s_back = {s: Fraction(1)}
                for sname, (hvn, ivn, vn) in ints.items():
                    if any(q == sname for q, _ in s):
                        s_back = isub(s_back, sname, vn[bi])
                # the head's values under the facts of this path
                sh = self.knowni(b, s_head)
                d = add(scale(vals[bi], s_back), scale(self.known(b, hv), sh), -1)
                for key, v in d.items():
                    cols.setdefault(key, {})[ui] = v
            rows.extend(cols.values())
        basis = nullspace(rows, len(unk))
        rels = []
        for vec in basis:
            r = {}
            for ui, cf in vec.items():
                i, s = unk[ui]
                _, hv, iv, vals, _ = vs[i]
                r = add(r, scale(hv, {s: cf}))
                s_init = {s: Fraction(1)}
                for sname, (hvn, ivn, vn) in ints.items():
                    if any(q == sname for q, _ in s):
                        s_init = isub(s_init, sname, ivn)
                r = add(r, scale(scale(iv, s_init), N(cf)), -1)
            if r:
                rels.append(r)
        self.rep.count('loop invariants', len(rels))
        substs = eliminate(rels, hs)
        # what an operation without a model takes part in stays not decided after the loop
        lost = set()
        for pl, hv in heads.items():
            vals = [self.leaves(b).get(pl) for b in back]
            own = [s for d in hv[1:3] if isinstance(d, dict) for s in (q[0] for q in d)] if hv[0] in ('g', 'L') else []
            for v in vals:
                if v is None or v[0] not in ('g', 'zero', 'acc', 'L', 'n') or hv[0] == 'n' and v[0] != 'n' or hv[0] == 'L' and v[0] != 'L':
                    lost.update(own)
                elif v[0] in ('g', 'acc', 'L') and any(o in ('?', 'i?') or o == 'lcm' and any(str(q) in str(sy) for q in own)
                                                       for d in v[1:3] if isinstance(d, dict) for (sy, m) in d for o in opaque(sy, m)):
                    lost.update(own)
                if hv[0] == 'n' and (v is None or v[0] != 'n' or any(q[0] == 'i?' for m in v[1] for q, _ in m)):
                    (m, _), = hv[1].items()
                    lost.add(('int', m[0][0]))
        cnt = None if el else self.counter(h, sth)
        out = []
        for t, st in exits:
            cur = list(st.subs)
            for s, e in substs:
                e = self.known(st, e)
                self.subst(st, 'g', s, e)
            for s in sorted(lost, key=repr):
                if s[0] == 'int':
                    self.subst(st, 'n', s[1], {((self.fresh('i?'), 1),): Fraction(1)})
                else:
                    self.subst(st, 'g', s, {(self.fresh('?', 'loop'), ()): Fraction(1)})
            if getattr(st, 'done', False):
                if el:
                    if lst[0] == 'L':
                        if k == 'pair':
                            self.subst(st, 'g', ('h', base, 'done', 'W'), self.known(st, lst[1]))
                        self.subst(st, 'g', ('h', base, 'done', 'U'), self.known(st, lst[2]))
                    for pl, (sw, su) in out_terms.items():
                        self.write(pl, ('L', self.known(st, {(sw, ()): Fraction(1)}), self.known(st, {(su, ()): Fraction(1)}), ()), st)
                    self.write(el[2], self.top('finished'), st)
                elif cnt is not None:
                    p, bound, op = cnt
                    v = heads.get(p)
                    if v and v[0] == 'n' and entry[p][0] == 'n':
                        (m, _), = v[1].items()
                        deltas = []
                        for b in back:
                            w = self.leaves(b).get(p)
                            deltas.append(add(w[1], self.knowni(b, v[1]), -1) if w and w[0] == 'n' else None)
                        if self.outer_poly(bound, base):
                            if op in ('<', '!=') and all(d == N(1) for d in deltas):
                                self.subst(st, 'n', m[0][0], bound)
                            elif op == '<=' and all(d == N(1) for d in deltas):
                                self.subst(st, 'n', m[0][0], add(bound, N(1)))
                            elif op in ('>', '!=') and all(d == N(-1) for d in deltas):
                                self.subst(st, 'n', m[0][0], bound)
            st.subs = st0.subs + st.subs
            st.trail = st0.trail + st.trail
            if hasattr(st, 'done'):
                del st.done
            out.append((t, st))
        return out

    def outer(self, s, base):
        """symbol (or int symbol) that existed before the loop with this number started"""
        return all(x <= base for x in nums(s)) and s[:2] != ('E', base) and s[:2] != ('M', base) and not (s[0] in ('mo', 'coef', 'hi', 'h', 'ix') and s[1] == base)

    def outer_poly(self, p, base):
        return all(self.outer(s, base) for m in p for s, _ in m)

    def element_writes(self, back, base):
        r = set()
        for b in back:
            for root in b.store:
                if root[0] == 'el2' and root[1] == base:
                    r.add(root[2])
        return r

    def leaves2(self, b, pl, base, k, em, one):
        v = b.store.get(('el2', base, pl))
        if v is None:
            return None
        if v[0] == 'rec':
            f, s = v[1].get('first'), v[1].get('second')
            if f is None or s is None:
                return None
            g = self.log(f)
            return (scale(g, self.num(s)), g)
        g = self.log(v)
        return (g, g)

    def close_terms(self, h, st0, heads, back, exits, el, base, lst, entry, filled):
        """a loop over the terms of a polynomial P: the polynomials it fills or changes term by term"""
        Pl = self.log(lst) if lst[0] != 'acc' else lst[1]
        mono, coef = {(('mo', base), ()): Fraction(1)}, {(('coef', base), ()): Fraction(1)}
        res = {}
        vals = []
        for b in back:
            r = b.store.get(('el', base))
            vals.append((self.log(r[1]['first']), self.log(r[1]['second'])) if r and r[0] == 'rec' else None)
        if back and all(v is not None for v in vals):
            ds = [add(add(v[1], coef, -1), add(v[0], mono, -1)) for v in vals]
            if all(not any(not self.outer(s, base) for (s, m) in d) for d in ds) and all(d == ds[0] for d in ds):
                if ds[0]:
                    res[el[1]] = ('g', add(Pl, ds[0]))
            else:
                # a sign that depends on the term would show here as no difference; anything else is a different polynomial
                res[el[1]] = ('g', {(self.fresh('x', 'terms changed differently'), ()): Fraction(1)})
        for pl in heads:
            vs = [self.leaves(b).get(pl) for b in back]
            if entry[pl][0] == 'zero':
                hv = heads[pl]
                # first pass appends one term to an empty polynomial; the generalised pass appends to an unknown one
                one = filled.get(pl)
                if one is not None:
                    d = add(add(one, mono, -1), coef, -1)
                    d = {q: v for q, v in d.items()}
                    if not any(not self.outer(s, base) for (s, m) in d):
                        res[pl] = ('g', add(Pl, d))
                    else:
                        res[pl] = self.top('polynomial built from terms')
                else:
                    res[pl] = self.top('polynomial built from terms')
            elif heads[pl][0] == 'g' and all(v is not None and v[0] == 'g' for v in vs):
                den = ('den', self.frz(coef))
                want = {(('lcm', tuple(sorted((self.frz(heads[pl][1]), self.frz({(den, ()): Fraction(1)})), key=repr))), ()): Fraction(1)}
                if vs and all(v[1] == want for v in vs) and not self.log(entry[pl]):
                    res[pl] = self.G(('lcd', self.frz(Pl)))
                elif vs and all(v[1] == add(heads[pl][1], {(den, ()): Fraction(1)}) for v in vs):
                    res[pl] = self.G(self.fresh('x', 'the product of the denominators'))
        out = []
        for t, st in exits:
            if getattr(st, 'done', False):
                for pl, v in res.items():
                    self.write(pl, v, st)
                self.write(el[2], self.top('finished'), st)
                del st.done
            else:
                for pl in list(heads) + list(res):
                    self.write(pl, self.top('partial'), st)
            st.subs = st0.subs + st.subs
            st.trail = st0.trail + st.trail
            out.append((t, st))
        return out


def nums(s):
    if isinstance(s, tuple):
        for x in s:
            yield from nums(x)
    elif isinstance(s, int) and not isinstance(s, bool):
        yield s


def nullspace(rows, n):
    """basis (list of {col: value}) of the vectors x with rows x = 0"""
    piv = {}
    for r in rows:
        r = {k: Fraction(v) for k, v in r.items() if v}
        for p in sorted(piv):
            if r.get(p):
                f = r[p]
                for k, v in piv[p].items():
                    r[k] = r.get(k, 0) - f * v
                r = clean(r)
        if not r:
            continue
        p = min(r)
        f = r[p]
        r = {k: v / f for k, v in r.items()}
        for q in list(piv):
            if piv[q].get(p):
                g = piv[q][p]
                t = dict(piv[q])
                for k, v in r.items():
                    t[k] = t.get(k, 0) - g * v
                piv[q] = clean(t)
        piv[p] = r
    free = [i for i in range(n) if i not in piv]
    out = []
    for f in free:
        v = {f: Fraction(1)}
        for p, r in piv.items():
            if r.get(f):
                v[p] = -r[f]
        out.append(v)
    return out


def eliminate(rels, hs):
    """substitutions sym -> log for the head symbols, from the relations"""
    out = []
    rels = [dict(r) for r in rels]
    while True:
        best = None
        for ri, r in enumerate(rels):
            for (s, m), v in r.items():
                if s in hs and m == () and sum(1 for (t, _) in r if t == s) == 1 and \
                        (not any(t == ('lc', s) for (t, _) in r) or not lc(r)):
                    pr = (0 if s[-1] in ('W', 'U') and s[2] != 'done' else 2 if s[2] == 'done' else 1, len(r), repr(s))
                    if best is None or pr < best[0]:
                        best = (pr, ri, s, v)
        if best is None:
            return out
        _, ri, s, v = best
        e = {k: -w / v for k, w in rels[ri].items() if k[0] != s}
        del rels[ri]
        rels = [q for q in (sub(r, s, e) for r in rels) if q]
        out = [(t, sub(d, s, e)) for t, d in out]
        out.append((s, e))


def show(d):
    def sy(s):
        k = s[0]
        if k == 'P':
            return s[1]
        if k == 'lc':
            return 'lc(%s)' % sy(s[1])
        if k == 'num':
            return s[1]
        if k == 'E':
            return 'element'
        if k == 'h':
            return {'W': 'what a loop has left', 'U': 'what a loop has left', 'g': 'a value changed in a loop'}.get(s[-1], 'loop') if s[2] != 'done' else 'the visited part of a list'
        if k in ('ct', 'cont'):
            return 'content'
        if k == 'fc':
            return 'content of the factorization'
        if k == 'W' or k == 'U':
            return 'list'
        if k == 'x':
            return s[-1]
        if k == 'mod':
            return 'the argument modulo the prime'
        if k == 'gcd':
            return 'gcd'
        if k == 'mc':
            return 'monomial content'
        if k == 'lcd':
            return 'lcd'
        return str(k)

    def iy(m):
        return '*'.join({'M': 'multiplicity', 'prime': 'p'}.get(x[0], 'n') + ('' if e == 1 else '^%d' % e) for x, e in m)
    r = []
    for (s, m), v in sorted(d.items(), key=repr):
        r.append('%s^(%s%s)' % (sy(s), v, ('*' + iy(m)) if m else ''))
    return ' * '.join(r) or '1'


SPECS = {
    'squarefreefactorize': 'W', '__squarefree_Zp': 'Wm', '__ddf_Zp': 'Um', '__edf_Zp': 'edf', '__factor_Zp': 'pair', '__factor_squarefree_primitive_ZZ': 'U',
    '__lll_factorize': 'U', '__select_prime': 'sel', '__upoly_primitive': 'prim', 'factorize': 'rec', '__factor_multivar': 'rec'}


def generalised(d):
    return any(o in ('h', 'hi') for (sy, m) in d for o in opaque(sy, m))


class Quiet:
    def __init__(self):
        self.notes = []

    def count(self, *a):
        pass


def one(fn0, prog, rep):
    fn, ex, bad, und = attempt(fn0, prog, rep, 0)
    loose = [b for b in bad if generalised(b[2])]
    if loose:
        # what remains after the loops were generalised may only be an invariant that was not found: it has to show on passes followed exactly
        sure = []
        for k in (1, 2):
            if not sure:
                f2, e2, b2, u2 = attempt(fn0, prog, Quiet(), k)
                sure = [b for b in b2 if not generalised(b[2])]
        bad = [b for b in bad if not generalised(b[2])]
        if sure:
            bad += sure
            fn, ex.bad = f2, ex.bad
        else:
            und += [(b[0], 'no invariant found: ' + show(b[2])) for b in loose]
    return fn, ex, bad, und


def attempt(fn0, prog, rep, unroll):
    spec = SPECS[fn0.name]
    fn = inline.expand(fn0, want)
    ex = Exec(fn, prog, rep)
    ex.unroll = unroll
    ex.outermost_general = spec == 'sel'
    ex.increasing = {}
    ex.loopends = []
    ex.monic_events = []
    ex.monic = spec in ('Wm', 'Um', 'edf', 'pair')
    st = St()
    for i, d in enumerate(fn.params):
        k = ex.kind(fn.vars[d]['t'])
        nm = fn.vars[d]['n']
        if k in ('poly', 'mono', 'num'):
            st.store[('v', d)] = ex.G(('P', nm))
        elif k in ('list', 'plist'):
            st.store[('v', d)] = ('L', {(('P', nm, 'W'), ()): Fraction(1)}, {(('P', nm, 'U'), ()): Fraction(1)}, ())
        elif k == 'int':
            st.store[('v', d)] = ('n', {((('p', nm), 1),): Fraction(1)})
        else:
            st.store[('v', d)] = ('top', 'parameter')
    polys = [d for d in fn.params if ex.kind(fn.vars[d]['t']) == 'poly']
    src = {(('P', fn.vars[polys[0]]['n']), ()): Fraction(1)}
    bad, und = [], []
    try:
        back, exits = ex.region([(fn.entry, st)], None, set(fn.blocks) - {fn.exit})
    except Undecided as e:
        und.append((None, str(e)))
        exits = []
    npaths = 0
    for t, s in exits:
        if t != fn.exit or s.zero or spec == 'sel':
            continue
        v = s.ret
        want_ = ex.known(s, src)
        got = None
        mon = False
        if spec == 'edf':
            p = (('v', fn.params[0]), ())
            v = ex.read(p, s)
            if v[0] == 'L':
                got = add(v[2], ex.known(s, {(('P', fn.vars[fn.params[0]]['n'], 'U'), ()): Fraction(1)}), -1)
            mon = True
        elif v is None:
            continue
        elif spec in ('W', 'Wm', 'U', 'Um'):
            mon = spec.endswith('m')
            if v[0] == 'L':
                got = v[1] if spec[0] == 'W' else v[2]
        elif spec in ('pair', 'prim') and v[0] == 'rec':
            a, b = v[1].get('first'), v[1].get('second')
            if a and b and b[0] == 'init' and not b[1]:
                b = ('L', {}, {}, ())
            if a and b and b[0] == ('L' if spec == 'pair' else 'g'):
                got = add(ex.log(a), b[1])
        elif spec == 'rec' and v[0] == 'rec':
            a, b = v[1].get('content'), v[1].get('factors', ('L', {}, {}, ()))
            if a and b[0] == 'L':
                got = add(ex.log(a), b[1])
        npaths += 1
        rn = getattr(s, 'retn', None)
        if got is None:
            und.append((rn, 'the result is not followed (%s)' % (v[0] if v else '?')))
            continue
        got = ex.known(s, got)
        diff = add(got, want_, -1)
        if mon:
            diff = add(diff, lc(diff), -1)
        if not diff:
            rep.count('returns whose product is the argument')
            continue
        if any(o == '?' or o == 'i?' for (sy, m) in diff for o in opaque(sy, m)):
            und.append((rn, 'an operation without a model takes part: ' + show(diff)))
            continue
        bad.append((rn, s, diff))
    for ev in ex.monic_events:
        if ev is None:
            continue
        n, g, subs, s = ev
        l = lc(ex.known(s, g))
        if l and not any(o in ('?', 'i?') for (sy, m) in l for o in opaque(sy, m)):
            # a list element or a quotient whose leading coefficient was not divided out
            bad.append((n, None, l))
        else:
            rep.count('factors shown to be monic')
    if spec == 'sel':
        for rn, s, diff in ex.selected(exits):
            (und if diff is None or any(o in ('?', 'i?') for (sy, m) in diff for o in opaque(sy, m)) else bad).append((rn, 'the factors chosen are not followed') if diff is None else (rn, s, diff))
    rep.count('paths', npaths)
    rep.count('functions')
    return fn, ex, bad, und


def opaque(s, m):
    yield s[0]
    for x in s[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from opaque(x, ())
    for q, _ in m:
        yield q[0]


def run(prop, tier, rep):
    prog = ir.load('rel')
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.name not in SPECS or not f.qn.startswith('clpoly::') or not f.blocks or f.cls:
            continue
        try:
            fn, ex, bad, und = one(f, prog, rep)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, RecursionError) as e:
            rep.count('not decided')
            rep.notes.append('%s: not understood (%s %s)' % (f.qn, type(e).__name__, e))
            continue
        for n, why in ex.bad:
            key = (f.qn, fn.text(n))
            rep.violation('%s/%s' % (f.qn, fn.text(n)[:60]), '%s: in %s, %s: %s' % (fn.loc(n), f.qn, fn.text(n)[:80], why))
        for rn, s, diff in bad:
            if s is None:
                rep.violation('%s/monic/%s' % (f.qn, fn.text(rn)[:60]),
                              '%s: in %s, %s puts a factor into the list that need not be monic (it has %s over)' % (fn.loc(rn), f.qn, fn.text(rn)[:80], show(diff)))
            else:
                path = ', '.join('%s %s' % (fn.text(c)[:50], 'holds' if t else 'does not hold') for c, t in s.trail[-8:])
                rep.violation('%s/product' % f.qn,
                              '%s: in %s, on a path to this return the product of the factors returned differs from the argument by %s (path: %s)' %
                              (fn.loc(rn), f.qn, show(diff), path))
        for rn, why in und:
            rep.count('not decided')
            rep.notes.append('%s %s: %s' % (f.qn, fn.loc(rn) if rn is not None else '', why))
    rep.need('functions', 8)
