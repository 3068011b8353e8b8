"""T01: sums, differences and merges of term lists count every term of every operand exactly once.

Every function that walks two lists of terms in step (and the operators built on them) is executed symbolically over its control flow,
loops by an arbitrary iteration: positions in a list are symbols, the head terms at them are symbols, the branch conditions (order of two
monomials, equality of two monomials, end of a list, coefficient zero, same object) become facts. One iteration must put into the result
exactly the contributions of the terms it steps over; the contribution of a term that has no counterpart must be the contribution with
counterpart when the counterpart is zero; what is put into the result must not come after a term that is still to come; and when the
result is handed on, every list whose terms count must have been walked to its end."""
import ir, flow, inline
from flow import Flow

X = ('X',)
ZERO = {}


# ------------------------------------------------------------------ polynomials over atoms
def nf(atom):
    return {(atom,): 1}


def const(n):
    return {(): n} if n else {}


def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def mul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l, key=repr))
            r[m] = r.get(m, 0) + v * w
            if not r[m]:
                del r[m]
    return r


def fz(a):
    return tuple(sorted(a.items(), key=repr))


def subst(a, m):
    """atoms replaced by polynomials; max and min of exponents (never negative) simplified"""
    r = {}
    for k, v in a.items():
        t = const(v)
        for x in k:
            t = mul(t, atom_subst(x, m))
        r = add(r, t)
    return r


def atom_subst(x, m):
    if x in m:
        return m[x]
    if x[0] in ('max', 'min'):
        l = [subst(dict(y), m) for y in x[1]]
        return extremum(x[0], l)
    return nf(x)


def extremum(op, l):
    l = [dict(y) for y in sorted({fz(y) for y in l}, key=repr)]
    if len(l) == 1:
        return l[0]
    if any(not y for y in l):
        if op == 'min':
            return {}
        l = [y for y in l if y]
        if len(l) == 1:
            return l[0]
    return nf((op, tuple(sorted((fz(y) for y in l), key=repr))))


def atoms(a):
    s = set()
    for k in a:
        for x in k:
            s.add(x)
            if x[0] in ('max', 'min'):
                for y in x[1]:
                    s |= atoms(dict(y))
    return s


class Give(Exception):
    """not understood"""


class Prune(Exception):
    pass


PASS = {'move', 'forward', 'as_const'}
ENDS = {'end', 'cend'}
BEGINS = {'begin', 'cbegin'}
PUSH = {'push_back', 'emplace_back'}
NEUTRAL = {'reserve', 'comp', 'comp_ptr', 'shrink_to_fit', '__auto_shrink', 'size', 'capacity', 'max_size', 'comp_consistent', 'normalization', 'prime', '__assert_fail', 'is_normal'}
SUMS = {'pair_vec_add': (1, 1), 'pair_vec_sub': (1, -1)}


class St:
    __slots__ = ('env', 'memo', 'cont', 'pend', 'eaten', 'facts', 'ver', 'run', 'back')

    def __init__(self):
        self.env, self.memo, self.cont, self.pend, self.eaten, self.facts, self.ver, self.run = {}, {}, {}, [], {}, frozenset(), 0, {}
        self.back = {}

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.memo = dict(self.memo)
        s.cont = {k: dict(v) for k, v in self.cont.items()}
        s.pend = list(self.pend)
        s.eaten = dict(self.eaten)
        s.facts = self.facts
        s.ver = self.ver
        s.run = dict(self.run)
        s.back = dict(self.back)
        return s


class Exec:
    def __init__(self, fn, prog, rep, start=None, spec=None):
        self.fn, self.prog, self.rep, self.spec = fn, prog, rep, spec
        self.fl = Flow.of(fn)
        self.bad = []
        self.one = {}            # (out, src) -> (map, node)
        self.two = {}            # (out, s1, s2) -> (NF in c1,c2, node)
        self.steps = 0
        self.paths = 0
        self.start, self.since = start if start else (None, None)
        self.outs = frozenset()
        self.cur = None
        self.finals = []
        self.heads = self.loop_heads()
        self.loopvars = {h: self.assigned_in(self.loop_body(h)) for h in self.heads}

    # ------------------------------------------------------------ loops
    def loop_heads(self):
        heads = set()
        rpo = self.fn.rpo()
        idx = {b: i for i, b in enumerate(rpo)}
        self.back = set()
        for b in rpo:
            for t in self.fn.blocks[b]['s']:
                if t >= 0 and t in idx and idx[t] <= idx[b]:
                    heads.add(t)
                    self.back.add((b, t))
        return heads

    def loop_body(self, h):
        preds = self.fn.preds() if callable(self.fn.preds) else self.fn.preds
        body = {h}
        work = [b for b, t in self.back if t == h]
        while work:
            b = work.pop()
            if b not in body:
                body.add(b)
                work += [p for p in preds[b]]
        return body

    def assigned_in(self, body):
        s = set()
        for b in body:
            for e in self.fn.blocks[b]['e']:
                if isinstance(e, dict):
                    continue
                for p, strong, kind in self.fl.writes(e):
                    if p[0][0] == 'v':
                        s.add(p[0][1])
                x = self.fn.nodes[e]
                if x['k'] == 'Un' and x['op'] in ('++', '--') or x['k'] == 'Call' and x.get('op') in ('++', '--', '=', '+=') or x['k'] == 'Assign':
                    y = self.fn.nodes[self.skip(x['c'][0])]
                    if y['k'] == 'Ref':
                        s.add(y['d'])
        return s

    # ------------------------------------------------------------ names
    def skip(self, n):
        x = self.fn.nodes[n]
        while x['k'] in ('Cast', 'Paren') or x['k'].endswith('CastExpr') or x['k'] in ('ExprWithCleanups', 'MaterializeTemporaryExpr'):
            c = [i for i in x.get('c', ()) if i >= 0]
            if not c:
                return n
            n = c[0]
            x = self.fn.nodes[n]
        return n

    def nm(self, x):
        return x.get('fq', '').split('::')[-1]

    def cname(self, n, st):
        """name of the term list behind an expression"""
        n = self.skip(n)
        x = self.fn.nodes[n]
        c = x.get('c', [])
        if x['k'] == 'This':
            return 'this'
        if x['k'] == 'Un' and x['op'] in ('*', '&') and c:
            return self.cname(c[0], st)
        if x['k'] == 'Ref':
            v = st.env.get(x['d'])
            if isinstance(v, tuple) and v[0] == 'cont':
                return v[1]
            return x['d']
        if x['k'] == 'Mem' and not x.get('fn'):
            if x.get('n') == '__data':
                return self.cname(c[0], st) if c and c[0] >= 0 else 'this'
            b = self.cname(c[0], st) if c and c[0] >= 0 else 'this'
            return (b, x.get('n')) if b is not None else None
        if x['k'] == 'Call' and c and self.nm(x) in PASS | {'data'}:
            return self.cname(c[0], st)
        v = st.memo.get(n)
        if isinstance(v, tuple) and v[0] == 'cont':
            return v[1]
        return None

    def listlike(self, t):
        s = self.prog.tstr(t).replace('const ', '').replace('&', '').strip()
        return s.startswith('std::vector<std::pair<') or s.startswith('clpoly::basic_polynomial<') or s.startswith('clpoly::basic_monomial<') or s.startswith('std::list<std::pair<')

    def monolike(self, t):
        s = self.prog.tstr(t).replace('const ', '').replace('&', '').strip()
        return s.startswith('clpoly::basic_monomial<') or s in ('clpoly::variable', 'clpoly::umonomial') or s in ('unsigned long', 'int64_t')

    # ------------------------------------------------------------ values
    def num(self, v, n, st=None):
        if isinstance(v, tuple) and v[0] == 'nf':
            return dict(v[1])
        if isinstance(v, tuple) and v[0] == 'backsec' and self.cur is not None:
            return self.backval(v[1], self.cur)
        return nf(('?', n, 0))

    def val(self, n, st):
        if n is None or n < 0:
            return None
        if n in st.memo:
            return st.memo[n]
        x = self.fn.nodes[n]
        k = x['k']
        c = x.get('c', [])
        if k == 'Int':
            return ('nf', fz(const(int(x['v']))))
        if k == 'Bool':
            return ('nf', fz(const(1 if x.get('v') in (True, 'true', '1', 1) else 0)))
        if k == 'Ref':
            d = x['d']
            if d in st.env:
                return st.env[d]
            V = self.fn.vars[d]
            if V['k'] == 'param':
                if self.listlike(V['t']) and not self.asmono(n):
                    return ('cont', d)
                if self.monolike(V['t']):
                    return ('mono', ('p', d))
            if self.listlike(V['t']):
                return ('cont', d)
            return ('nf', fz(nf(('v', d, 0))))
        if k == 'This':
            return ('cont', 'this')
        if k in ('Cast', 'Paren', 'ExprWithCleanups', 'MaterializeTemporaryExpr') or k.endswith('CastExpr'):
            return self.val([i for i in c if i >= 0][0], st) if c else None
        return None

    def asmono(self, n):
        return False

    def neg(self, f):
        if f is None:
            return None
        if f[0] == 'not':
            return f[1]
        return ('not', f)

    # ------------------------------------------------------------ one element
    def step(self, n, st):
        fn = self.fn
        self.cur = st
        x = fn.nodes[n]
        k = x['k']
        c = [i for i in x.get('c', ())]
        nm = self.nm(x)
        V = lambda i: self.val(i, st)
        r = None
        if k in ('Int', 'Bool', 'Ref', 'This'):
            st.memo.pop(n, None)
            r = self.val(n, st)
        elif k == 'FnRef' or k in ('Str', 'Nop', 'Nullptr', 'Float', 'CXXScalarValueInitExpr', 'Sizeof', 'Lambda', 'FnCast'):
            return
        elif k in ('Cast', 'Paren', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXStdInitializerListExpr') or k.endswith('CastExpr'):
            r = V(c[0]) if c else None
        elif k == 'Decl':
            for w in x['vars']:
                self.declare(w, st)
            return
        elif k == 'Mem':
            r = self.member(n, x, c, st)
        elif k == 'Un':
            r = self.unary(n, x, c, st)
        elif k == 'Bin':
            r = self.binary(n, x['op'], c, st)
        elif k == 'Assign':
            r = self.assign(n, x['op'], c, st)
        elif k == 'InitList' or k == 'Ctor':
            r = self.ctor(n, x, c, st)
        elif k == 'Call':
            r = self.call(n, x, nm, c, st)
        elif k == 'Return':
            if c and c[0] >= 0:
                self.final(st, c[0], n)
            else:
                self.final(st, None, n)
            raise Prune()
        elif k == 'Cond':
            r = None
        elif k in ('Index', 'New', 'Delete', 'Throw', 'Asm'):
            r = None
        if r is None:
            st.memo.pop(n, None)
            st.memo[n] = None
        else:
            st.memo[n] = r

    def declare(self, w, st):
        d = w['d']
        V = self.fn.vars[d]
        i = w.get('i')
        isl = self.listlike(V['t'])
        T = self.prog.T(V['t'])
        if i is None or i < 0:
            st.env[d] = ('nf', fz(nf(('u', d)))) if not isl else ('cont', d)
            if isl:
                st.cont[d] = {}
            return
        v = self.val(i, st)
        if isl and T.get('ref'):
            nmx = self.cname(i, st)
            st.env[d] = ('cont', nmx) if nmx is not None else None
            return
        if isl and not self.monoval(v):
            st.env[d] = ('cont', d)
            st.cont[d] = self.contents(i, v, st)
            return
        st.env[d] = v if v is not None else ('nf', fz(nf(('v', d, i))))

    def monoval(self, v):
        return isinstance(v, tuple) and v[0] == 'mono'

    def contents(self, n, v, st):
        """formal sum an expression of list type stands for"""
        if isinstance(v, tuple) and v[0] == 'sum':
            return dict((k, dict(w)) for k, w in v[1])
        if isinstance(v, tuple) and v[0] == 'cont':
            return self.cget(v[1], st)
        x = self.fn.nodes[self.skip(n)]
        if x['k'] == 'Ctor' and not [i for i in x.get('c', ()) if i >= 0]:
            return {}
        if x['k'] == 'Ctor' and x.get('c') and all('comp' in self.prog.tstr(self.fn.nodes[i].get('t')) or '_order' in self.prog.tstr(self.fn.nodes[i].get('t')) or 'lex' in self.prog.tstr(self.fn.nodes[i].get('t')) for i in x['c'] if i >= 0) and not any(self.listlike(self.fn.nodes[i].get('t')) for i in x['c'] if i >= 0):
            return {}
        raise Give('the list %s' % self.fn.text(n)[:50])

    def cget(self, name, st):
        if name in st.cont:
            return {k: dict(v) for k, v in st.cont[name].items()}
        if isinstance(name, int) and self.fn.vars[name]['k'] != 'param' and self.start is None:
            return {}
        return {('w', name): nf(X)}

    def member(self, n, x, c, st):
        if x.get('fn'):
            return None
        if not c or c[0] < 0:
            return ('cont', 'this') if x.get('n') == '__data' else None
        v = self.val(c[0], st)
        f = x.get('n')
        if f == '__data':
            nmx = self.cname(n, st)
            return ('cont', nmx) if nmx is not None else None
        if isinstance(v, tuple):
            if v[0] in ('cur',) and x.get('arrow'):
                v = self.deref(v, st, n)
            if v[0] == 'head':
                if f == 'first':
                    return ('mono', ('h',) + v[1:3])
                if f == 'second':
                    return ('nf', fz(nf(('c',) + v[1:3])))
            if v[0] == 'pair':
                return ('mono', v[1]) if f == 'first' else ('nf', v[2])
            if v[0] == 'back':
                return ('backmono', v[1]) if f == 'first' else ('backsec', v[1])
        return None

    def deref(self, v, st, n):
        src, k = v[1], v[2]
        if ('notend', src, k) not in st.facts:
            if ('end', src, k) in st.facts:
                self.bad.append((n, 'past', 'the term at %s is read although the list is at its end' % self.sname(src)))
        return ('head', src, k)

    def unary(self, n, x, c, st):
        op = x['op']
        v = self.val(c[0], st)
        if op == '*':
            if isinstance(v, tuple) and v[0] == 'cur':
                return self.deref(v, st, n)
            return v if isinstance(v, tuple) and v[0] == 'cont' else None
        if op == '&':
            return v
        if op == '-' and isinstance(v, tuple) and v[0] == 'nf':
            return ('nf', fz(add({}, dict(v[1]), -1)))
        if op == '+':
            return v
        if op == '!':
            return self.truthneg(v)
        if op in ('++', '--'):
            return self.advance(n, c[0], op, x.get('post'), v, st)
        return None

    def truthneg(self, v):
        if isinstance(v, tuple) and v[0] == 'fact':
            return ('fact', self.neg(v[1]))
        if isinstance(v, tuple) and v[0] == 'nf':
            return ('fact', ('zero', v[1]))
        if isinstance(v, tuple) and v[0] == 'truth':
            return ('truth', not v[1])
        return None

    def advance(self, n, tgt, op, post, v, st):
        y = self.fn.nodes[self.skip(tgt)]
        if y['k'] == 'Ref' and isinstance(v, tuple) and v[0] == 'cur':
            if op == '--':
                raise Give('a position goes backwards')
            src, k = v[1], v[2]
            st.eaten[src] = st.eaten.get(src, ()) + (k,)
            if ('end', src, k) in st.facts:
                self.bad.append((n, 'past', 'the position in %s is moved past the end' % self.sname(src)))
            w = ('cur', src, k + 1)
            st.env[y['d']] = w
            return v if post else w
        if y['k'] == 'Ref':
            d = y['d']
            old = self.num(v, n)
            st.env[d] = ('nf', fz(add(old, const(1 if op == '++' else -1))))
            return v if post else st.env[d]
        return None

    def arith(self, op, a, b, n):
        A, B = self.num(a, (n, 0)), self.num(b, (n, 1))
        if op == '+':
            return ('nf', fz(add(A, B)))
        if op == '-':
            return ('nf', fz(add(A, B, -1)))
        if op == '*':
            return ('nf', fz(mul(A, B)))
        return ('nf', fz(nf(('op', op, fz(A), fz(B)))))

    def binary(self, n, op, c, st):
        a, b = self.val(c[0], st), self.val(c[1], st)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            a, b = self.masm(a, st), self.masm(b, st)
            return self.compare(n, op, a, b, c, st)
        if op == ',':
            return b
        if op in ('&&', '||'):
            for v in (a, b):
                if isinstance(v, tuple) and v[0] == 'truth' and v[1] == (op == '||'):
                    return v
            if isinstance(a, tuple) and a[0] == 'truth':
                return b
            return None
        return self.arith(op, a, b, n)

    def compare(self, n, op, a, b, c, st):
        f = None
        T = lambda v, k: isinstance(v, tuple) and v[0] == k
        if T(a, 'cur') and T(b, 'end') or T(b, 'cur') and T(a, 'end'):
            cu, en = (a, b) if a[0] == 'cur' else (b, a)
            if cu[1] != en[1]:
                raise Give('a position is compared with the end of another list')
            f = ('end', cu[1], cu[2])
        elif T(a, 'mono') and T(b, 'mono') or T(a, 'backmono') and T(b, 'mono') or T(a, 'mono') and T(b, 'backmono'):
            f = ('eq',) + tuple(sorted([a[1:] if a[0] == 'backmono' else a[1], b[1:] if b[0] == 'backmono' else b[1]], key=repr))
        elif T(a, 'cont') and T(b, 'cont'):
            f = ('same',) + tuple(sorted([a[1], b[1]], key=repr)) if self.isaddr(c[0]) else None
        elif T(a, 'nf') and T(b, 'nf'):
            d = add(dict(a[1]), dict(b[1]), -1)
            if op in ('==', '!='):
                f = ('zero', fz(d))
        if f is None or op not in ('==', '!='):
            return None
        return ('fact', f if op == '==' else self.neg(f))

    def isaddr(self, n):
        x = self.fn.nodes[self.skip(n)]
        return x['k'] == 'Un' and x['op'] == '&' or x['k'] == 'This'

    def assign(self, n, op, c, st):
        if op != '=':
            v = self.arith(op[0], self.val(c[0], st), self.val(c[1], st), n)
        else:
            v = self.val(c[1], st)
        return self.store(n, c[0], v, c[1], st)

    def store(self, n, tgt, v, src, st):
        y = self.fn.nodes[self.skip(tgt)]
        if y['k'] == 'Ref':
            d = y['d']
            V = self.fn.vars[d]
            cur = st.env.get(d)
            if self.listlike(V['t']) and not self.monoval(v):
                name = self.cname(tgt, st)
                st.cont[name] = self.contents(src, v, st)
                self.retire(name, st)
                return ('cont', name)
            if isinstance(cur, tuple) and cur[0] == 'back':
                raise Give('assignment through a reference')
            st.env[d] = v if v is not None else ('nf', fz(nf(('v', d, n))))
            return st.env[d]
        t = self.val(tgt, st)
        if y['k'] == 'Mem' and y.get('n') == 'second' and y.get('c'):
            o = self.val(y['c'][0], st)
            z = self.fn.nodes[self.skip(y['c'][0])]
            if isinstance(o, tuple) and o[0] in ('head', 'pair') and z['k'] == 'Ref' and not y.get('arrow') and not self.prog.T(self.fn.vars[z['d']]['t']).get('ref'):
                # a copy of the term is changed, not the term in the list
                st.env[z['d']] = ('pair', ('h',) + o[1:3] if o[0] == 'head' else o[1], fz(self.num(v, n)))
                return v
            if isinstance(o, tuple) and o[0] == 'cur':
                o = ('head',) + o[1:]
            if isinstance(o, tuple) and o[0] == 'head':
                # a coefficient changed in place: the term goes out at its own place
                st.pend.append((o[1], ('h',) + o[1:3], fz(self.num(v, n)), n, 'inplace'))
                return v
            if isinstance(o, tuple) and o[0] == 'back':
                self.backset(o[1], self.num(v, n), st)
                return v
        if isinstance(t, tuple) and t[0] == 'veclow':
            d = t[1]
            st.env[d] = ('nf', fz(add(self.num(st.env.get(d), n), self.num(v, n))))
            return v
        name = self.cname(tgt, st)
        if name is not None:
            if self.listlike(y.get('t')) or y.get('n') == '__data' or self.nm(y) == 'data':
                st.cont[name] = self.contents(src, v, st)
                self.retire(name, st)
                return ('cont', name)
        return None

    def retire(self, name, st):
        st.pend = [p for p in st.pend if p[0] != name]

    def backval(self, out, st):
        own = [p for p in st.pend if p[0] == out]
        if own:
            return dict(own[-1][2])
        return dict(st.back.get(out, fz(nf(('bc', out, 0)))))

    def backmono(self, out, st):
        return ('one',) if ('bmone', out) in st.facts else ('b', out)

    def backset(self, out, f, st):
        for i in range(len(st.pend) - 1, -1, -1):
            if st.pend[i][0] == out:
                st.pend[i] = (out, st.pend[i][1], fz(f), st.pend[i][3], st.pend[i][4])
                return
        k = ('t', self.backmono(out, st))
        w = self.cget(out, st)
        w[k] = add(w.get(k, {}), add(f, self.backval(out, st), -1))
        st.cont[out] = w
        st.back[out] = fz(f)

    def popped(self, out, st):
        if any(p[0] == out for p in st.pend):
            for i in range(len(st.pend) - 1, -1, -1):
                if st.pend[i][0] == out:
                    if ('zero', st.pend[i][2]) not in st.facts:
                        raise Give('a term is removed')
                    del st.pend[i]
                    return
        k = ('t', self.backmono(out, st))
        w = self.cget(out, st)
        w[k] = add(w.get(k, {}), self.backval(out, st), -1)
        st.cont[out] = w
        st.ver += 1
        st.back[out] = fz(nf(('bc', out, st.ver)))
        st.facts = frozenset(f for f in st.facts if f[0] != 'bmone' and not (f[0] == 'not' and f[1][0] == 'bmone'))

    # ------------------------------------------------------------ constructions and calls
    def ctor(self, n, x, c, st):
        c = [i for i in c if i >= 0]
        t = self.prog.tstr(x.get('t')).replace('const ', '').replace('&', '').strip()
        vs = [self.val(i, st) for i in c]
        if t.startswith('std::pair<') and not t.endswith(']'):
            if len(c) == 1:
                return vs[0] if vs[0] is not None else None
            if len(c) == 2:
                return self.mkpair(vs[0], vs[1], c, st)
            return None
        if x['k'] == 'InitList' and len(c) == 2 and self.asm(vs[0], c[0], st) is not None and not (isinstance(vs[1], tuple) and vs[1][0] == 'pair'):
            return self.mkpair(vs[0], vs[1], c, st)
        if any(isinstance(v, tuple) and v[0] == 'pair' for v in vs) and all(isinstance(v, tuple) and v[0] == 'pair' for v in vs):
            return self.sumof(vs)
        if x['k'] == 'InitList' and len(c) == 1:
            return vs[0]
        if len(c) == 1 and isinstance(vs[0], tuple) and vs[0][0] in ('sum', 'mono', 'cur', 'end', 'head', 'pair', 'cont', 'nf'):
            return vs[0]
        if t.endswith('Zp') and len(c) == 2:
            return vs[0] if isinstance(vs[0], tuple) and vs[0][0] == 'nf' else None
        if t.endswith(('ZZ', 'QQ')) and not c:
            return ('nf', fz({}))
        if t.endswith(('ZZ', 'QQ', 'Zp')):
            return ('nf', fz(nf(('?', n, 0))))
        if self.monolike(x.get('t')) and not c:
            return ('mono', ('one',))
        return None

    def asm(self, v, n, st):
        if isinstance(v, tuple) and v[0] == 'mono':
            return v[1]
        x = self.fn.nodes[self.skip(n)]
        if x['k'] in ('InitList', 'Ctor') and not [i for i in x.get('c', ()) if i >= 0]:
            return ('one',)
        if isinstance(v, tuple) and v[0] == 'backmono':
            return v[1:]
        if isinstance(v, tuple) and v[0] == 'cont' and isinstance(v[1], int) and self.mono_param(v[1]) and v[1] not in st.cont:
            return ('p', v[1])
        if x['k'] == 'Ref' and self.prog.tstr(self.fn.vars[x['d']]['t']).replace('const ', '').replace('&', '').strip() == 'clpoly::variable' and self.fn.vars[x['d']]['k'] == 'param':
            return ('p', x['d'])
        return None

    def mono_param(self, d):
        V = self.fn.vars[d]
        return V['k'] == 'param' and self.prog.tstr(V['t']).replace('const ', '').replace('&', '').strip().startswith('clpoly::basic_monomial<')

    def mkpair(self, a, b, c, st):
        m = self.asm(a, c[0], st)
        if m is None:
            raise Give('the monomial %s' % self.fn.text(c[0])[:40])
        return ('pair', m, fz(self.num(b, (c[1], 1))))

    def sumof(self, ps):
        r = {}
        for p in ps:
            r[('t', p[1])] = add(r.get(('t', p[1]), {}), dict(p[2]))
        return ('sum', tuple(sorted(((k, fz(v)) for k, v in r.items()), key=repr)))

    def pairof(self, n, st):
        v = self.val(n, st)
        if isinstance(v, tuple):
            if v[0] == 'head':
                return ('pair', ('h',) + v[1:3], fz(nf(('c',) + v[1:3])))
            if v[0] == 'pair':
                return v
        return None

    def call(self, n, x, nm, c, st):
        V = lambda i: self.val(i, st)
        op = x.get('op')
        if nm in PASS and len(c) == 1:
            return V(c[0])
        if op in ('==', '!=') and len(c) == 2:
            return self.compare(n, op, V(c[0]), V(c[1]), c, st)
        if op == '!' and len(c) == 1:
            return self.truthneg(V(c[0]))
        if op in ('*', '->') and len(c) == 1:
            v = V(c[0])
            if isinstance(v, tuple) and v[0] == 'cur':
                return self.deref(v, st, n) if op == '*' else v
            return None
        if op in ('++', '--'):
            return self.advance(n, c[0], op, len(c) == 2, V(c[0]), st)
        if op == '=' and len(c) == 2:
            return self.store(n, c[0], V(c[1]), c[1], st)
        if op in ('+=', '-=', '*=') and len(c) == 2:
            a = V(c[0])
            if isinstance(a, tuple) and a[0] == 'backsec':
                self.backset(a[1], self.num(self.arith(op[0], ('nf', fz(self.backval(a[1], st))), V(c[1]), n), n), st)
                return a
            return self.store(n, c[0], self.arith(op[0], a, V(c[1]), n), c[1], st)
        if op in ('+', '-') and len(c) == 2:
            if self.islist(V(c[0])) or self.islist(V(c[1])):
                r = self.asum(c[0], st)
                for k, w in self.asum(c[1], st).items():
                    r[k] = add(r.get(k, {}), w, 1 if op == '+' else -1)
                return ('sum', tuple(sorted(((k, fz(v)) for k, v in r.items()), key=repr)))
            return self.arith(op, V(c[0]), V(c[1]), n)
        if op == '*' and len(c) == 2:
            if self.islist(V(c[0])) or self.islist(V(c[1])):
                raise Give('a product of lists')
            return self.arith(op, V(c[0]), V(c[1]), n)
        if op == '-' and len(c) == 1:
            if self.islist(V(c[0])):
                r = self.asum(c[0], st)
                return ('sum', tuple(sorted(((k, fz(add({}, v, -1))) for k, v in r.items()), key=repr)))
            return ('nf', fz(add({}, self.num(V(c[0]), n), -1)))
        if op == '+' and len(c) == 1:
            return V(c[0])
        if op == '()' and len(c) == 2 and 'zore_check' in x.get('fq', ''):
            v = V(c[1])
            return ('fact', ('zero', fz(self.num(v, n, st))))
        if len(c) >= 2 and (op == '()' or nm == 'comp') and len(c) == 3:
            a, b = self.masm(V(c[1]), st), self.masm(V(c[2]), st)
            mk = lambda v: v[1] if v[0] == 'mono' else v[1:] if v[0] == 'backmono' else ('h',) + v[1:3] if v[0] == 'head' else None
            if isinstance(a, tuple) and isinstance(b, tuple) and mk(a) and mk(b):
                return ('fact', ('lt', mk(a), mk(b)))
            return None
        if nm in ('max', 'min') and len(c) == 2:
            return ('nf', fz(extremum(nm, [self.num(V(c[0]), (n, 0)), self.num(V(c[1]), (n, 1))])))
        if nm in BEGINS or nm in ENDS:
            name = self.cname(c[0], st) if c else None
            if name is None:
                return None
            return ('cur', name, 0) if nm in BEGINS else ('end', name)
        if nm == 'empty' and c:
            v = V(c[0])
            if isinstance(v, tuple) and v[0] == 'backmono':
                return ('fact', ('bmone', v[1]))
            if isinstance(v, tuple) and v[0] == 'mono':
                return None
            name = self.cname(c[0], st)
            return ('fact', ('empty', name)) if name is not None else None
        if nm == 'size' and c:
            name = self.cname(c[0], st)
            return ('nf', fz(nf(('size', name)))) if name is not None else None
        if nm == 'number' and len(c) == 1:
            return V(c[0])
        if nm.startswith('operator ') and len(c) == 1 and isinstance(V(c[0]), tuple) and V(c[0])[0] in ('mono', 'backmono'):
            return V(c[0])
        if nm == 'make_pair' and len(c) == 2:
            return self.mkpair(V(c[0]), V(c[1]), c, st) if self.asm(V(c[0]), c[0], st) is not None else None
        if nm == 'operator bool' and len(c) == 1:
            v = V(c[0])
            return ('fact', self.neg(('zero', v[1]))) if isinstance(v, tuple) and v[0] == 'nf' else v
        if nm in ('data',) and c:
            name = self.cname(c[0], st)
            return ('cont', name) if name is not None else None
        if nm == 'back' and c:
            name = self.cname(c[0], st)
            y = self.fn.nodes[self.skip(c[0])]
            if y['k'] == 'Ref' and not self.listlike(self.fn.vars[y['d']]['t']):
                return ('veclow', y['d'])
            return ('back', name) if name is not None else None
        if nm in PUSH and x.get('obj'):
            return self.push(n, c, st)
        if nm == 'clear' and c:
            name = self.cname(c[0], st)
            y = self.fn.nodes[self.skip(c[0])]
            if y['k'] == 'Ref' and not self.listlike(self.fn.vars[y['d']]['t']):
                st.env[y['d']] = ('cleared',)
                return None
            if name is not None:
                st.cont[name] = {}
                self.retire(name, st)
            return None
        if nm == 'resize' and len(c) >= 2:
            y = self.fn.nodes[self.skip(c[0])]
            if y['k'] == 'Ref' and not self.listlike(self.fn.vars[y['d']]['t']):
                if st.env.get(y['d']) == ('cleared',):
                    v = self.num(V(c[2]), n) if len(c) > 2 else {}
                    st.env[y['d']] = ('nf', fz(v)) if not v else None
                return None
            raise Give('a list is resized')
        if nm == 'pop_back' and c:
            name = self.cname(c[0], st)
            if name is None:
                return None
            self.popped(name, st)
            return None
        if nm == 'insert' and len(c) == 4:
            return self.bulk(n, self.cname(c[0], st), V(c[2]), V(c[3]), st)
        if nm == 'copy' and len(c) == 3:
            t = self.fn.nodes[self.skip(c[2])]
            if t['k'] == 'Call' and self.nm(t) == 'back_inserter':
                return self.bulk(n, self.cname(t['c'][0], st), V(c[0]), V(c[1]), st)
        if nm == 'swap':
            raise Give('a swap')
        if nm in SUMS and len(c) == 4:
            out = self.cname(c[0], st)
            a, b = self.asum(c[1], st), self.asum(c[2], st)
            s = SUMS[nm]
            r = {}
            for w, sg in ((a, s[0]), (b, s[1])):
                for k, v in w.items():
                    r[k] = add(r.get(k, {}), v, sg)
            st.cont[out] = r
            self.retire(out, st)
            return ('cont', out)
        if nm == 'pair_vec_negate':
            if len(c) == 2:
                out = self.cname(c[0], st)
                st.cont[out] = {k: add({}, v, -1) for k, v in self.asum(c[1], st).items()}
                return None
            r = {k: add({}, v, -1) for k, v in self.asum(c[0], st).items()}
            if self.prog.tstr(self.prog.fns[x['f']].o.get('ret')) == 'void' if x.get('f') in self.prog.fns else False:
                st.cont[self.cname(c[0], st)] = r
                return None
            return ('sum', tuple(sorted(((k, fz(v)) for k, v in r.items()), key=repr)))
        if nm in NEUTRAL or nm in ('back_inserter', 'distance', 'next', 'advance'):
            if nm in ('advance', 'next'):
                raise Give('a position is moved by ' + nm)
            return None
        # anything else: must not touch a list or a position
        g = self.prog.fns.get(x.get('f'))
        for p, strong, kind in self.fl.writes(n):
            if p[0][0] == 'v':
                d = p[0][1]
                if self.listlike(self.fn.vars[d]['t']) or isinstance(st.env.get(d), tuple) and st.env[d][0] in ('cur', 'cont'):
                    raise Give('the call %s' % self.fn.text(n)[:50])
                st.env[d] = ('nf', fz(nf(('v', d, n))))
        t = self.prog.tstr(x.get('t'))
        return ('nf', fz(nf(('call', self.fn.text(n)[:80])))) if not self.listlike(x.get('t')) else None

    def islist(self, v):
        return isinstance(v, tuple) and v[0] in ('cont', 'sum')

    def masm(self, v, st):
        if isinstance(v, tuple) and v[0] == 'cont' and isinstance(v[1], int) and self.mono_param(v[1]) and v[1] not in st.cont:
            return ('mono', ('p', v[1]))
        return v

    def asum(self, n, st):
        """formal sum of an operand: list, monomial or coefficient"""
        v = self.masm(self.val(n, st), st)
        if isinstance(v, tuple):
            if v[0] == 'mono':
                return {('t', v[1]): const(1)}
            if v[0] == 'nf':
                return {('t', ('one',)): dict(v[1])} if v[1] else {}
            if v[0] == 'cont' and self.pending(v[1], st):
                raise Give('a list under construction is an operand')
        return self.contents(n, v, st)

    def pending(self, name, st):
        return any(p[0] == name for p in st.pend)

    def push(self, n, c, st):
        y = self.fn.nodes[self.skip(c[0])]
        v0 = self.val(c[0], st)
        if isinstance(v0, tuple) and v0[0] == 'backsec':
            own = [p for p in st.pend if p[0] == v0[1]]
            if not own:
                raise Give('the last coefficient is extended')
            f = add(mul(dict(own[-1][2]), nf(('T',))), self.num(self.val(c[1], st), n))
            self.backset(v0[1], f, st)
            return None
        name = self.cname(c[0], st)
        if name is None:
            return None
        if len(c) == 2:
            p = self.pairof(c[1], st)
        elif len(c) == 3:
            p = self.mkpair(self.val(c[1], st), self.val(c[2], st), [c[1], c[2]], st)
        else:
            p = None
        if p is None:
            if self.listlike(y.get('t')) or y['k'] == 'Ref' and self.listlike(self.fn.vars[y['d']]['t']):
                raise Give('the term %s' % self.fn.text(n)[:50])
            return None
        st.pend.append((name, p[1], p[2], n, 'push'))
        return None

    def bulk(self, n, out, a, b, st):
        if out is None or not (isinstance(a, tuple) and a[0] == 'cur' and isinstance(b, tuple) and b[0] == 'end' and a[1] == b[1]):
            raise Give('a range is copied')
        src = a[1]
        if ('end', src, a[2]) in st.facts:
            return None
        for d, v in st.env.items():
            if isinstance(v, tuple) and v[0] == 'cur' and v[1] != src and not self.ended(v[1], v[2], st):
                self.bad.append((n, 'order', 'the rest of %s is put out while terms of %s are still to come' % (self.sname(src), self.sname(v[1]))))
        self.record_one(out, src, nf(X), n)
        self.runs(out, src, st)
        st.facts = st.facts | {('end', src, 'all')}
        return None

    def runs(self, out, src, st):
        st.run[(out, src)] = True

    def sname(self, s):
        if isinstance(s, int):
            return self.fn.vars[s]['n']
        return str(s)

    # ------------------------------------------------------------ facts
    def assume(self, st, f, truth):
        while f[0] == 'not':
            f, truth = f[1], not truth
        F = st.facts
        if f[0] == 'end':
            e, ne = ('end',) + f[1:], ('notend',) + f[1:]
            if truth and (ne in F) or not truth and (e in F or ('end', f[1], 'all') in F):
                raise Prune()
            if f[2] == 0 and ('empty', f[1]) in F and not truth and st.eaten.get(f[1], ()) == () and (f[1], 'gen') not in st.run:
                raise Prune()
            st.facts = F | {e if truth else ne}
            return
        key = f if truth else ('not', f)
        if (('not', f) if truth else f) in F:
            raise Prune()
        if f[0] == 'lt':
            if truth and (('lt', f[2], f[1]) in F or ('eq',) + tuple(sorted(f[1:], key=repr)) in F):
                raise Prune()
        if f[0] == 'eq' and truth and (('lt', f[1], f[2]) in F or ('lt', f[2], f[1]) in F):
            raise Prune()
        if f[0] == 'eq' and not truth and ('not', ('lt', f[1], f[2])) in F and ('not', ('lt', f[2], f[1])) in F:
            raise Prune()
        st.facts = F | {key}

    def less(self, a, b, st):
        F = st.facts
        if ('lt', a, b) in F:
            return True
        return ('not', ('lt', b, a)) in F and ('not', ('eq',) + tuple(sorted((a, b), key=repr))) in F

    def eqm(self, a, b, st):
        F = st.facts
        if a == b:
            return True
        if ('eq',) + tuple(sorted((a, b), key=repr)) in F:
            return True
        return ('not', ('lt', a, b)) in F and ('not', ('lt', b, a)) in F

    def ended(self, src, k, st):
        return ('end', src, k) in st.facts or ('end', src, 'all') in st.facts or ('empty', src) in st.facts

    # ------------------------------------------------------------ one iteration done
    def order(self, m, own, st, n):
        """the term m is put out: nothing still to come may precede or equal it"""
        for d, v in list(st.env.items()):
            if isinstance(v, tuple) and v[0] == 'cur' and v[1] != own:
                src, k = v[1], v[2]
                eaten = st.eaten.get(src, ())
                first = min(eaten) if eaten else k
                if ('end', src, first) in st.facts or self.ended(src, first, st):
                    continue
                h = ('h', src, first)
                if eaten:
                    if self.less(m, h, st) or self.eqm(m, h, st):
                        continue
                elif self.less(m, h, st):
                    continue
                yield src

    def settle(self, st, n):
        """the terms stepped over since the last time must be what was put out"""
        if not st.pend and not st.eaten:
            return
        outs = sorted({p[0] for p in st.pend}, key=repr)
        if not outs:
            outs = [self.out] if self.out is not None else []
        heads = [('h', s, k) for s, ks in st.eaten.items() for k in ks]
        curs = {v[1] for v in st.env.values() if isinstance(v, tuple) and v[0] == 'cur'}
        if len(outs) > 1:
            raise Give('two results are built')
        self.steps += 1
        out = outs[0] if outs else None
        if out is not None:
            self.out = out
        left = list(heads)
        pend = list(st.pend)
        while left:
            h = left.pop(0)
            cls = [h] + [g for g in left if self.eqm(h, g, st)]
            for g in cls[1:]:
                left.remove(g)
            mine = [p for p in pend if any(self.eqm(p[1], g, st) for g in cls)]
            F = {}
            for p in mine:
                pend.remove(p)
                F = add(F, dict(p[2]))
                if p[4] == 'push':
                    for src in self.order(p[1], None, st, p[3]):
                        if src not in [g[1] for g in cls]:
                            self.bad.append((p[3], 'order', 'a term of %s is put out while one of %s that may precede it, or be the same monomial, is still to come' % (self.sname(h[1]), self.sname(src))))
            if len([p for p in mine if p[4] == 'push']) > 1:
                self.bad.append((mine[-1][3], 'twice', 'two terms with one monomial are put out for one step'))
            zeros = [dict(f[1]) for f in st.facts if f[0] == 'zero']
            node = mine[-1][3] if mine else n
            if len(cls) == 1:
                src = h[1]
                m = subst(F, {('c',) + h[1:]: nf(X)})
                if any(a[0] == 'c' for a in atoms(m)):
                    self.bad.append((node, 'foreign', 'the coefficient put out for a term of %s depends on a term with another monomial' % self.sname(src)))
                    continue
                if not mine and any(('c',) + h[1:] in atoms(z) for z in zeros):
                    continue            # dropped because it vanishes
                self.record_one(out, src, m, node, bool(mine))
            elif len(cls) == 2:
                a, b = sorted(cls, key=repr)
                if a[1] == b[1]:
                    self.bad.append((node, 'foreign', 'two terms of %s are taken for equal' % self.sname(a[1])))
                    continue
                f = subst(F, {('c',) + a[1:]: nf(('A',)), ('c',) + b[1:]: nf(('B',))})
                zz = [subst(z, {('c',) + a[1:]: nf(('A',)), ('c',) + b[1:]: nf(('B',))}) for z in zeros]
                key = (out, a[1], b[1])
                self.two.setdefault(key, []).append((f, bool(mine), zz, node))
            else:
                raise Give('three lists')
        for p in pend:
            if p[4] == 'inplace':
                continue
            self.bad.append((p[3], 'extra', 'a term is put into the result although no list was stepped over for it'))
        for s in st.eaten:
            st.run[(out, s)] = True
        st.pend = []
        st.eaten = {}

    def record_one(self, out, src, m, n, emitted=True):
        self.one.setdefault((out, src), []).append((m, n, emitted))

    # ------------------------------------------------------------ the end
    def handed(self, e, st):
        """the output of a region is used otherwise than by adding to it"""
        x = self.fn.nodes[e]
        if x['k'] == 'Decl':
            for w in x['vars']:
                if w.get('i') is not None and w['i'] >= 0 and self.cname(w['i'], st) in self.outs:
                    return self.cname(w['i'], st)
        if x['k'] == 'Call' and self.nm(x) not in PUSH | NEUTRAL | ENDS | PASS | {'clear', 'back', 'empty', 'size', 'data', 'pop_back'}:
            for i in x.get('c', ()):
                if i >= 0 and self.cname(i, st) in self.outs:
                    return self.cname(i, st)
        return None

    def final(self, st, retn, n, name=None):
        if retn is not None:
            v = self.val(retn, st)
            if isinstance(v, tuple) and v[0] == 'cont':
                name = v[1]
            elif isinstance(v, tuple) and v[0] == 'sum':
                name = '$ret'
                st.cont[name] = dict((k, dict(w)) for k, w in v[1])
            elif isinstance(v, tuple) and v[0] == 'mono':
                name = '$ret'
                st.cont[name] = {('w', v[1][1]): nf(X)} if v[1][0] == 'p' else {('t', v[1]): const(1)}
        if name is None and self.outs:
            return
        if name is None and self.fn.params:
            name = self.fn.params[0]
            v = st.env.get(name)
        # terms appended outside loops
        if st.pend and not st.eaten:
            w = self.cget(name, st)
            rest = []
            for p in st.pend:
                if p[0] == name:
                    w[('t', p[1])] = add(w.get(('t', p[1]), {}), dict(p[2]))
                else:
                    rest.append(p)
            st.cont[name] = w
            st.pend = rest
        self.settle(st, n)
        self.finals.append((name, {k: dict(v) for k, v in st.cont.items()}, st.facts, dict(st.run), dict(st.env), n))

    # ------------------------------------------------------------ paths
    def run(self):
        self.out = None
        st = St()
        if self.start is not None:
            pass
        limit = [4000]

        def go(b, st, first, before=None):
            limit[0] -= 1
            if limit[0] < 0:
                raise Give('too many paths')
            while True:
                if b in self.heads:
                    self.settle(st, self.node_of(b))
                    k, done = first.get(b, (0, frozenset()))
                    if k == 2:
                        return
                    if k == 0:
                        done = frozenset(v[1] for v in st.env.values() if isinstance(v, tuple) and v[0] == 'cur' and ('end', v[1], v[2]) in st.facts)
                    first = dict(first)
                    first[b] = (k + 1, done)
                    if k == 1:
                        self.generalise(b, st, done)
                blk = self.fn.blocks[b]
                try:
                    for e in blk['e']:
                        if isinstance(e, dict):
                            continue
                        if before is not None:
                            if e == self.since:
                                before = None
                            try:
                                self.step(e, st)
                            except Give:
                                st.memo[e] = None
                            continue
                        if self.outs and self.handed(e, st):
                            self.final(st, None, e, self.handed(e, st))
                            raise Prune()
                        self.step(e, st)
                except Prune:
                    self.paths += 1
                    return
                if b == self.fn.exit:
                    self.paths += 1
                    self.final(st, None, self.node_of(b))
                    return
                if blk.get('nr'):
                    return
                succ = [t for t in blk['s']]
                if 'cond' in blk and len(succ) == 2:
                    v = self.val(self.skip_keep(blk['cond'], st), st)
                    f = v[1] if isinstance(v, tuple) and v[0] == 'fact' else ('zero', v[1]) if False else None
                    if f is None and isinstance(v, tuple) and (v[0] == 'truth' or v[0] == 'nf' and not (atoms(dict(v[1])))):
                        t = succ[0 if v[1] else 1]
                        if t < 0:
                            return
                        b = t
                        continue
                    for j, t in enumerate(succ):
                        if t < 0:
                            continue
                        s2 = st.copy()
                        if blk['cond'] is not None and blk['cond'] >= 0:
                            s2.memo[blk['cond']] = ('truth', j == 0)
                        try:
                            if f is not None:
                                self.assume(s2, f, j == 0)
                            elif isinstance(v, tuple) and v[0] == 'nf':
                                self.assume(s2, ('zero', v[1]), j == 1)
                        except Prune:
                            continue
                        go(t, s2, first)
                    return
                succ = [t for t in succ if t >= 0]
                if len(succ) == 1:
                    b = succ[0]
                    continue
                for t in succ:
                    go(t, st.copy(), first)
                return
        go(self.start if self.start is not None else self.fn.entry, st, {}, self.since)
        return self

    def skip_keep(self, n, st):
        return n

    def node_of(self, b):
        while b is not None:
            es = [e for e in self.fn.blocks[b]['e'] if not isinstance(e, dict)]
            if es:
                return es[-1]
            ps = self.fn.preds() if callable(self.fn.preds) else self.fn.preds
            b = ps[b][0] if ps.get(b) else None
        return None

    def generalise(self, h, st, done):
        """an arbitrary iteration: what the loop changes is unknown"""
        body = self.loopvars[h]
        for d in body:
            v = st.env.get(d)
            if isinstance(v, tuple) and v[0] == 'cur' and v[1] in done:
                continue
            if isinstance(v, tuple) and v[0] == 'cur':
                src = v[1]
                st.env[d] = ('cur', src, 0)
                st.facts = frozenset(f for f in st.facts if not self.about(f, src))
                st.run[(src, 'gen')] = True
            elif isinstance(v, tuple) and v[0] in ('cont', 'end'):
                pass
            elif d in st.env:
                st.env[d] = ('nf', fz(nf(('v', d, 'loop', h))))
        st.facts = frozenset(f for f in st.facts if f[0] != 'zero' and not (f[0] == 'not' and f[1][0] == 'zero'))
        keep = {}
        st.memo = keep

    def about(self, f, src):
        if f[0] == 'not':
            return self.about(f[1], src)
        if f[0] in ('end', 'notend'):
            return f[1] == src and f[2] != 'all'
        if f[0] in ('lt', 'eq'):
            return any(isinstance(m, tuple) and m[0] == 'h' and m[1] == src for m in f[1:])
        return False


def opaque(m):
    return any(a[0] in ('?', 'u', 'op') or a[0] == 'v' and a[-1] != 0 for a in atoms(m))


def judge(ex):
    """problems of one executed function: (node, kind, text)"""
    bad = list(ex.bad)
    outs = {k[0] for k in list(ex.one) + list(ex.two) if k[0] is not None}
    if len(outs) == 1:          # steps before the first term was put out
        o = outs.pop()
        for t in (ex.one, ex.two):
            for k in [k for k in t if k[0] is None]:
                t.setdefault((o,) + k[1:], []).extend(t.pop(k))
    for t in (ex.one, ex.two):
        for l in t.values():
            if any(opaque(x[0]) for x in l):
                raise Give('a coefficient')
    maps = {}
    for (out, src), l in ex.one.items():
        want = None
        for m, n, emitted in l:
            if want is None:
                want = (m, n)
            elif fz(m) != fz(want[0]):
                bad.append((n, 'differs', 'a term of %s that has no counterpart counts as %s here but as %s at line %s' % (ex.sname(src), show(m), show(want[0]), ex.fn.nodes[want[1]]['l'])))
        maps[out, src] = want
    for (out, a, b), l in ex.two.items():
        want = None
        for f, emitted, zz, n in l:
            if not emitted:
                continue
            if want is None:
                want = (f, n)
            elif fz(f) != fz(want[0]):
                bad.append((n, 'differs', 'two terms with one monomial count as %s here but as %s at line %s' % (show(f), show(want[0]), ex.fn.nodes[want[1]]['l'])))
        for f, emitted, zz, n in l:
            if emitted:
                continue
            if want is None:
                if zz:
                    continue
                want = ({}, n)
                continue
            if not any(fz(z) == fz(want[0]) or fz(add({}, z, -1)) == fz(want[0]) for z in zz):
                bad.append((n, 'lost', 'two terms with one monomial are dropped although their %s need not vanish' % show(want[0])))
        if want is None:
            continue
        for side, other, src, at in (('A', 'B', a, 0), ('B', 'A', b, 1)):
            w = maps.get((out, src))
            if w is None:
                continue
            g = subst(subst(want[0], {(other,): {}}), {(side,): nf(X)})
            if fz(g) != fz(w[0]):
                bad.append((w[1], 'onesided', 'a term of %s without counterpart counts as %s, but with a counterpart zero it would be %s' % (ex.sname(src), show(w[0]), show(g))))
    for name, cont, facts, run, env, n in ex.finals:
        for (out, src), w in maps.items():
            if out != name or w is None or not w[0]:
                continue
            have = cont.get(name, {})
            for f in facts:
                if f[0] == 'same' and src in f[1:]:
                    o = [y for y in f[1:] if y != src][:1]
                    if o and ('w', o[0]) in have:
                        have = dict(have)
                        have['w', src] = have['w', o[0]]
            ended = any(f[0] == 'end' and f[1] == src or f == ('empty', src) for f in facts)
            if ('w', src) in have:
                if fz(have['w', src]) != fz(w[0]):
                    bad.append((n, 'whole', 'the list %s counts as %s as a whole, but its terms count as %s' % (ex.sname(src), show(have['w', src]), show(w[0]))))
            elif not ended:
                bad.append((n, 'incomplete', 'the result is handed on before %s has been walked to its end' % ex.sname(src)))
    return bad, maps


def show(f):
    f = dict(f)
    if not f:
        return '0'
    return ' + '.join('%s%s' % ('' if v == 1 and k else v, '*'.join(word(x) for x in k)) for k, v in sorted(f.items(), key=repr))


def word(x):
    if x == X:
        return 'x'
    if x[0] in ('max', 'min'):
        return '%s(%s)' % (x[0], ', '.join(show(dict(y)) for y in x[1]))
    return x[0] if len(x) == 1 else '%s' % (x[0],)


# ------------------------------------------------------------------ which functions
def cursors(fn, ex):
    """{variable: (Decl node, container text)} for positions set to the beginning of a list of terms"""
    r = {}
    for b, B in fn.blocks.items():
        for e in B['e']:
            if isinstance(e, dict) or fn.nodes[e]['k'] != 'Decl':
                continue
            for w in fn.nodes[e]['vars']:
                i = w.get('i')
                if i is None or i < 0:
                    continue
                y = fn.nodes[ex.skip(i)]
                if y['k'] == 'Ctor' and len(y.get('c', ())) == 1:
                    y = fn.nodes[ex.skip(y['c'][0])]
                if y['k'] == 'Call' and ex.nm(y) in BEGINS and y.get('c') and ex.listlike(fn.nodes[ex.skip(y['c'][0])].get('t')):
                    r[w['d']] = (b, e, fn.text(y['c'][0]))
    return r


def pushes(fn, ex):
    """variables a term is put into: {variable: blocks}"""
    r = {}
    for b, B in fn.blocks.items():
        for e in B['e']:
            if isinstance(e, dict):
                continue
            x = fn.nodes[e]
            if x['k'] == 'Call' and ex.nm(x) in PUSH and x.get('c'):
                y = fn.nodes[ex.skip(x['c'][0])]
                if y['k'] == 'Ref' and ex.listlike(fn.vars[y['d']]['t']):
                    r.setdefault(y['d'], set()).add(b)
    return r


def merges(fn, prog):
    """[(first Decl, cursors, outputs)] of the places where two lists are walked in step into a third"""
    ex = Exec(fn, prog, None)
    cur = cursors(fn, ex)
    if len({t for b, e, t in cur.values()}) < 2:
        return ex, []
    ps = pushes(fn, ex)
    res = []
    for h in ex.heads:
        body = ex.loop_body(h)
        mine = [d for d in cur if d in ex.loopvars[h] and cur[d][0] not in body]
        if len({cur[d][2] for d in mine}) < 2:
            continue
        outs = {o for o, bs in ps.items() if bs & body}
        inner = [k for k in ex.heads if k != h and k in body and len({d for d in mine if d in ex.loopvars[k]}) >= 2]
        if outs and not inner:
            res.append((h, mine, outs, cur))
    return ex, res


def first_decl(fn, mine, cur, rpo):
    at = {b: i for i, b in enumerate(rpo)}
    l = sorted(mine, key=lambda d: (at.get(cur[d][0], 0), fn.blocks[cur[d][0]]['e'].index(cur[d][1])))
    return cur[l[0]][0], cur[l[0]][1]


SCALARS = ('clpoly::ZZ', 'clpoly::QQ', 'clpoly::Zp', 'long', 'int', 'unsigned long')


def plain(t):
    return t.replace('const ', '').replace('&', '').strip()


def spec(ex):
    """the formal sum an operator + or - has to return"""
    fn, prog = ex.fn, ex.prog
    if fn.name not in ('operator+', 'operator-'):
        return None
    ps = list(fn.params)
    if fn.cls is not None and fn.kind is None:
        ps = ['this'] + ps
    if not 1 <= len(ps) <= 2:
        return None
    if not ex.listlike(fn.o.get('ret')) or plain(prog.tstr(fn.o.get('ret'))).startswith('clpoly::basic_monomial<'):
        return None
    r = {}
    for i, p in enumerate(ps):
        s = -1 if fn.name == 'operator-' and (i == 1 or len(ps) == 1) else 1
        t = plain(prog.tstr(fn.vars[p]['t'])) if p != 'this' else 'clpoly::basic_polynomial<'
        if t.startswith('clpoly::basic_polynomial<'):
            k, v = ('w', p), nf(X)
        elif t.startswith('clpoly::basic_monomial<') or t == 'clpoly::variable':
            k, v = ('t', ('p', p)), const(1)
        elif t in SCALARS:
            k, v = ('t', ('one',)), nf(('v', p, 0))
        else:
            return None
        r[k] = add(r.get(k, {}), v, s)
    return r


def against(ex, want):
    bad = []
    for name, cont, facts, run, env, n in ex.finals:
        have = cont.get(name)
        if have is None and name is not None:
            have = {('w', name): nf(X)}
        if have is None:
            raise Give('what is returned')
        zero = {fz(dict(f[1])) for f in facts if f[0] == 'zero'}
        empty = {f[1] for f in facts if f[0] == 'empty'}
        for k in set(have) | set(want):
            d = add(have.get(k, {}), want.get(k, {}), -1)
            if k[0] == 'w' and k[1] in empty or not d:
                continue
            if fz(d) in zero or fz(add({}, d, -1)) in zero:
                continue
            if any(a[0] in ('call', '?', 'u') or a[0] == 'v' and a[2] != 0 for a in atoms(d)):
                raise Give('a coefficient')
            bad.append((n, 'sum', '%s counts as %s instead of %s in what is returned' % (
                'the operand ' + ex.sname(k[1]) if k[0] == 'w' else 'the monomial ' + ('1' if k[1] == ('one',) else ex.sname(k[1][1])), show(have.get(k, {})), show(want.get(k, {})))))
    return bad


# what the named primitives make of a term of their operands: by the order of the parameters after the result
TABLE = {'pair_vec_add': (1, 1), 'pair_vec_sub': (1, -1), 'pair_vec_negate': (-1,)}


def named(ex, maps):
    fn = ex.fn
    signs = TABLE.get(fn.name)
    if signs is None:
        return []
    ls = [p for p in fn.params if ex.listlike(fn.vars[p]['t'])]
    bad = []
    if len(ls) == len(signs) + 1:
        out, ls = ls[0], ls[1:]
        for name, cont, facts, run, env, n in ex.finals:
            h = cont.get(out, {('w', out): nf(X)})
            if name == out and h.get(('w', out)) and ('empty', out) not in facts and not any(f[0] == 'same' and out in f[1:] for f in facts):
                bad.append((n, 'sum', 'what the output %s held before still counts in the result of %s' % (ex.sname(out), fn.name)))
    elif len(ls) == len(signs) == 1 and plain(ex.prog.tstr(fn.o.get('ret'))) == 'void':
        p = ls[0]
        for name, cont, facts, run, env, n in ex.finals:
            if ('end', p, 0) in facts and (p, p) not in maps and cont.get(p, {('w', p): nf(X)}) == {('w', p): nf(X)} and not writes(fn, ex, p):
                bad.append((n, 'sum', 'the terms of %s are walked, but none of them is changed by %s' % (ex.sname(p), fn.name)))
    for p, s in zip(ls, signs):
        for (out, src), w in maps.items():
            if src == p and w is not None and fz(w[0]) != fz({k: s * v for k, v in nf(X).items()}):
                bad.append((w[1], 'sum', 'a term of %s counts as %s, but %s has to count it as %s' % (ex.sname(p), show(w[0]), fn.name, 'x' if s > 0 else '-x')))
        for name, cont, facts, run, env, n in ex.finals:
            h = cont.get(name, {}).get(('w', p))
            if h is not None and ('empty', p) not in facts and not any(f[0] == 'same' for f in facts) and fz(h) != fz({k: s * v for k, v in nf(X).items()}):
                bad.append((n, 'sum', 'the list %s counts as %s, but %s has to count it as %s' % (ex.sname(p), show(h), fn.name, 'x' if s > 0 else '-x')))
    return bad


def writes(fn, ex, p):
    """a reference or position into the list p is used in a way that is not followed"""
    for x in fn.nodes:
        if x['k'] == 'Call' and not str(ex.nm(x)).startswith('operator') and ex.nm(x) not in BEGINS | {'end', 'cend', 'size', 'empty'}:
            return True
    return False


def run(prop, tier, rep):
    seen = set()
    for cfg in (('rel',) if tier == 'quick' else ('rel', 'dbg')):
        prog = ir.load(cfg)
        for fn in prog.fns.values():
            if not fn.blocks or fn.entry is None:
                continue
            one(fn, prog, rep, seen)
    rep.need('merges of two lists decided', 3)
    rep.need('sums and differences of operands decided', 5)


def report(ex, bad, rep, seen):
    fn = ex.fn
    for n, kind, text in bad:
        key = (fn.qn, fn.nodes[n]['l'] if n is not None else fn.line, kind)
        if key not in seen:
            seen.add(key)
            rep.violation('%s:%s:%s' % (fn.name, kind, text[:60]), '%s: in %s %s' % (fn.loc(n), fn.qn, text))


def one(fn, prog, rep, seen):
    ex = Exec(fn, prog, None)
    w = spec(ex)
    if w is not None:
        try:
            ex.run()
            bad = against(ex, w)
            rep.count('sums and differences of operands decided')
            rep.count('paths followed', ex.paths)
            report(ex, bad, rep, seen)
        except Give as g:
            rep.count('sums and differences of operands not decided')
        return
    ex, ms = merges(fn, prog)
    if not ms and fn.name not in TABLE:
        return
    done = False
    try:
        ex.run()
        bad, maps = judge(ex)
        bad += named(ex, maps)
        rep.count('merges of two lists decided' if ms else 'other maps of terms decided')
        rep.count('paths followed', ex.paths)
        rep.count('steps compared', ex.steps)
        report(ex, bad, rep, seen)
        done = True
    except Give:
        pass
    if done:
        return
    for h, mine, outs, cur in ms:
        x = Exec(fn, prog, None, first_decl(fn, mine, cur, fn.rpo()))
        x.outs = frozenset(outs)
        try:
            x.run()
            bad, maps = judge(x)
            rep.count('merges of two lists decided')
            rep.count('paths followed', x.paths)
            rep.count('steps compared', x.steps)
            report(x, bad, rep, seen)
        except Give as g:
            rep.count('merges of two lists not decided')
            if len(rep.notes) < 20:
                rep.notes.append('%s: a merge is not decided (%s)' % (fn.loc(cur[mine[0]][1]), g))
