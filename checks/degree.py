"""M03: the cached degree of a monomial is the sum of its exponents.

Per monomial object two quantities are followed through every function that touches the stored terms or the cached degree
directly: G, the cached degree, and S, the sum of the stored exponents, both as linear forms over what they held at entry
(S is kept as R + last exponent). Where the object is handed on, copied, compared or returned, G must equal S."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir

CLS = 'clpoly::basic_monomial'
TOP = 'TOP'


# ------------------------------------------------------------ linear forms: frozenset of (term, coefficient)
def lin(t):
    return frozenset({(t, 1)})


def num(n):
    return frozenset({(1, n)}) if n else frozenset()


def add(a, b, s=1):
    if a is TOP or b is TOP or isinstance(a, tuple) or isinstance(b, tuple):
        return TOP
    d = dict(a)
    for t, c in b:
        d[t] = d.get(t, 0) + s * c
    if len(d) > 12:
        return TOP
    return frozenset((t, c) for t, c in d.items() if c)


def mentions(v, t):
    if isinstance(v, tuple):
        return v == t or any(mentions(x, t) for x in v)
    if isinstance(v, frozenset):
        return any(mentions(x, t) for x, _ in v)
    return False


def subst(v, t, u):
    if v == t:
        return u
    if isinstance(v, tuple):
        return tuple(subst(x, t, u) for x in v)
    if isinstance(v, frozenset):
        d = {}
        for x, c in v:
            y = subst(x, t, u)
            d[y] = d.get(y, 0) + c
        return frozenset((x, c) for x, c in d.items() if c)
    return v


class Mono:
    """R + last = sum of exponents, G = cached degree; why: what made them differ"""
    __slots__ = ('R', 'last', 'G', 'why', 'packed')

    def __init__(self, R, last, G, why=None, packed=False):
        self.R, self.last, self.G, self.why, self.packed = R, last, G, why, packed

    def S(self):
        return add(self.R, self.last)

    def ok(self):
        s = self.S()
        return s is not TOP and not isinstance(self.G, tuple) and self.G == s

    def key(self):
        return (self.R, self.last, self.G, self.packed)


def fresh(tag):
    return split(lin(('S', tag)), lin(('S', tag)), tag)


def split(S, G, tag, why=None):
    """a monomial whose exponents sum to S, the last of which is not known"""
    l = lin(('last', tag))
    if S is TOP or isinstance(S, tuple):
        return Mono(S, frozenset(), G, why)
    return Mono(add(S, l, -1), l, G, why)


class State:
    def __init__(self):
        self.m = {}      # monomial key -> Mono
        self.e = {}      # variable -> abstract value

    def copy(self):
        s = State()
        s.m = {k: Mono(v.R, v.last, v.G, v.why, v.packed) for k, v in self.m.items()}
        s.e = dict(self.e)
        return s

    def same(self, o):
        return self.e == o.e and {k: v.key() for k, v in self.m.items()} == {k: v.key() for k, v in o.m.items()}


def joinv(a, b, tag):
    if a == b:
        return a
    for p, q in ((a, b), (b, a)):
        if isinstance(p, tuple) and p[0] == 'acc' and p[3] is False and not isinstance(q, tuple) and q == p[1]:
            return p
    return TOP


def join(a, b, blk):
    r = State()
    for k in a.m:
        if k not in b.m:
            continue
        x, y = a.m[k], b.m[k]
        if x.key() == y.key():
            r.m[k] = Mono(x.R, x.last, x.G, x.why or y.why, x.packed)
            continue
        if x.ok() and y.ok():
            # in step on both ways
            m = fresh((k, 'join', blk))
        else:
            last = x.last if x.last == y.last else lin(('last', blk))
            for p, q in ((x, y), (y, x)):
                if isinstance(p.R, tuple) and p.R[0] == 'scale' and not p.R[3] and not isinstance(q.R, tuple) and q.S() == p.R[1]:
                    x, y = p, Mono(p.R, p.last, q.G, q.why, q.packed)
                    last = p.last
            m = Mono(joinv(x.R, y.R, blk), last, joinv(x.G, y.G, blk), x.why or y.why, x.packed or y.packed)
        if x.packed and y.packed:
            m.packed = True
        r.m[k] = m
    for k in a.e:
        if k in b.e:
            v = joinv(a.e[k], b.e[k], blk)
            if v is TOP and a.e[k] is not TOP:
                v = TOP
            r.e[k] = v
    return r


class Flow:
    def __init__(self, prog, fn, rep, summaries, collect=None):
        self.prog, self.fn, self.rep, self.sums = prog, fn, rep, summaries
        self.out = collect if collect is not None else []
        self.obl = 0

    def tstr(self, t):
        return self.prog.tstr(t) if t is not None else ''

    def is_mono(self, t):
        s = re.sub(r'^const | [&]+$|&+$', '', self.tstr(t)).strip()
        return s.startswith(CLS + '<') or s == 'clpoly::monomial' or s == 'monomial'

    # places ------------------------------------------------------------
    def resolve(self, n, st):
        """('mono', key) | ('data', key) | ('elem', key, how) | ('iter', key) | ('int', value) | ('?',)"""
        fn = self.fn
        x = fn.nodes[n]
        k = x['k']
        c = [i for i in x.get('c', ()) if i >= 0]
        if k == 'Ref':
            v = st.e.get(x['d'])
            if isinstance(v, tuple) and v and v[0] in ('mono', 'data', 'elem', 'iter', 'deg'):
                return v
            if self.is_mono(x.get('t')) or self.is_mono(fn.vars[x['d']]['t']) if isinstance(x.get('d'), int) and x['d'] < len(fn.vars) else False:
                return ('mono', ('v', x['d']))
            return ('?',)
        if k == 'This':
            return ('mono', ('this',)) if fn.cls == CLS else ('?',)
        if k == 'Cast' or k in ('Paren', 'Temp', 'Bind', 'ExprWithCleanups', 'MaterializeTemporaryExpr'):
            return self.resolve(c[0], st) if c else ('?',)
        if k == 'Un' and x['op'] == '*':
            r = self.resolve(c[0], st)
            return ('elem', r[1]) if r[0] == 'iter' else r
        if k == 'Un' and x['op'] == '&':
            return ('?',)
        if k == 'Mem' and not x.get('fn'):
            b = self.resolve(c[0], st) if c else (('mono', ('this',)) if fn.cls == CLS else ('?',))
            if x['n'] == '__data' and b[0] == 'mono':
                return ('data', b[1])
            if x['n'] == '__deg' and b[0] == 'mono':
                return ('deg', b[1])
            if x['n'] == 'second' and b[0] in ('elem', 'back'):
                return ('exp' if b[0] == 'elem' else 'lastexp', b[1])
            if x['n'] == 'second' and b[0] == 'iter':
                return ('exp', b[1])
            if self.is_mono(x.get('t')):
                return ('mono', ('t', fn.text(n)))
            return ('?',)
        if k == 'Call':
            nm = x.get('fq', '').split('::')[-1]
            if nm in ('move', 'forward', 'as_const') and c:
                return self.resolve(c[0], st)
            if x.get('op') in ('*', '->') and c:
                r = self.resolve(c[0], st)
                if r[0] == 'iter':
                    return ('elem', r[1])
                return ('?',)
            if x.get('obj') and c:
                b = self.resolve(c[0], st)
                if b[0] in ('mono', 'data'):
                    if nm in ('begin', 'end', 'cbegin', 'cend', 'find', 'rbegin', 'rend'):
                        return ('iter', b[1])
                    if nm == 'data' and b[0] == 'mono':
                        return ('data', b[1])
                    if nm == 'back':
                        return ('back', b[1])
                    if nm in ('front', 'operator[]', 'at'):
                        return ('elem', b[1])
                    if nm == 'deg' and b[0] == 'mono' and len(c) == 1:
                        return ('deg', b[1])
            if x.get('op') == '[]' and c:
                b = self.resolve(c[0], st)
                if b[0] in ('mono', 'data'):
                    return ('elem', b[1])
            if x.get('op') == '=' and c:
                return self.resolve(c[0], st)
            return ('?',)
        if k == 'Index' and c:
            b = self.resolve(c[0], st)
            return ('elem', b[1]) if b[0] in ('mono', 'data') else ('?',)
        return ('?',)

    def mono(self, st, key):
        if key not in st.m:
            st.m[key] = fresh(key)
        return st.m[key]

    def value(self, n, st):
        """linear form of an integer expression"""
        fn = self.fn
        x = fn.nodes[n]
        k = x['k']
        c = [i for i in x.get('c', ()) if i >= 0]
        if k in ('Int',):
            return num(int(x['v']))
        if k == 'Cast' or k in ('Paren', 'ExprWithCleanups', 'MaterializeTemporaryExpr') or k == 'InitList' and len(c) == 1:
            return self.value(c[0], st) if c else num(0)
        if k in ('ImplicitValueInitExpr', 'CXXScalarValueInitExpr'):
            return num(0)
        if k == 'Call' and x.get('fq', '').startswith('std::move') and c:
            return self.value(c[0], st)
        if k == 'Call' and x.get('fq', '') == 'std::exchange':
            if ('old', n) in st.e:
                return st.e[('old', n)]
            return self.value(c[0], st)
        r = self.resolve(n, st)
        if r[0] == 'deg':
            return self.mono(st, r[1]).G
        if r[0] == 'exp':
            return lin(('exp', r[1], fn.text(n)))
        if r[0] == 'lastexp':
            return self.mono(st, r[1]).last
        if k == 'Ref':
            v = st.e.get(x['d'])
            if isinstance(v, frozenset) or v is TOP or isinstance(v, tuple) and v[0] == 'acc':
                return v if v is not TOP else lin(('v', x['d']))
            return lin(('v', x['d']))
        if k == 'Mem' and x['n'] == 'second' and c:
            return lin(('second', fn.text(c[0])))
        if k == 'Bin' and x['op'] in ('+', '-'):
            return add(self.value(c[0], st), self.value(c[1], st), 1 if x['op'] == '+' else -1)
        if k == 'Bin' and x['op'] == '*':
            a, b = self.value(c[0], st), self.value(c[1], st)
            return self.mul(a, b)
        if k == 'Un' and x['op'] == '-':
            return add(frozenset(), self.value(c[0], st), -1)
        if k == 'Call' and x.get('obj') and x.get('fq', '').endswith('::re_deg'):
            r = self.resolve(c[0], st)
            if r[0] == 'mono':
                return self.mono(st, r[1]).G
        if k == 'Call' and x.get('fq', '') in ('std::accumulate', 'std::reduce') and c:
            r = self.resolve(c[0], st)
            if r[0] == 'iter':
                s = self.mono(st, r[1]).S()
                return add(self.value(c[2], st), s) if len(c) > 2 else s
        if k == 'Call':
            r = self.inlined(n, st.copy())
            if r is not None and isinstance(r[0], frozenset):
                return r[0]
        if not c and k != 'Ref':
            return lin(('x', fn.text(n)))
        return self.opaque(n, st)

    def opaque(self, n, st):
        """an expression taken as a term; its variables are named so that changing one makes it another term"""
        vs = tuple(sorted(('v', self.fn.nodes[i]['d']) for i in self.fn.walk(n) if self.fn.nodes[i]['k'] == 'Ref' and self.fn.nodes[i].get('d') is not None))
        return lin(('x', self.fn.text(n)) + vs)

    def mul(self, a, b):
        if a is TOP or b is TOP or isinstance(a, tuple) or isinstance(b, tuple):
            return TOP
        for p, q in ((a, b), (b, a)):
            if not p:
                return p
            if len(p) == 1 and next(iter(p))[0] == 1:
                n = next(iter(p))[1]
                return frozenset((t, c * n) for t, c in q)
        d = {}
        for t, c in a:
            for u, e in b:
                f = []
                for z in (t, u):
                    f += list(z[1:]) if isinstance(z, tuple) and z[0] == 'mul' else [] if z == 1 else [z]
                w = ('mul',) + tuple(sorted(f, key=repr)) if len(f) > 1 else f[0] if f else 1
                d[w] = d.get(w, 0) + c * e
        return frozenset((t, c) for t, c in d.items() if c)

    # effects -----------------------------------------------------------
    def changed(self, st, d):
        """variable d takes a new value: forms that mention it keep the old one under another name"""
        t = ('v', d)
        for m in st.m.values():
            for a in ('R', 'last', 'G'):
                v = getattr(m, a)
                if v is not TOP and mentions(v, t):
                    setattr(m, a, subst(v, t, ('old', d)) if not mentions(v, ('old', d)) else TOP)
        for k, v in list(st.e.items()):
            if isinstance(v, frozenset) and mentions(v, t):
                st.e[k] = subst(v, t, ('old', d)) if not mentions(v, ('old', d)) else TOP

    def stale(self, st, key, n, what):
        m = self.mono(st, key)
        m.R, m.last = TOP, frozenset()
        m.why = (self.fn.loc(n), what)

    def need(self, st, key, n, what):
        """the object is used as a whole here"""
        if key not in st.m:
            return
        m = st.m[key]
        self.obl += 1
        if not m.ok() and not m.packed:
            self.out.append((n, key, what, m.why))

    def setdeg(self, st, key, op, v, n):
        m = self.mono(st, key)
        if op == '=':
            m.G = v
        elif op in ('+=', '-='):
            if op == '+=' and not isinstance(v, tuple) and v is not TOP and len(v) == 1 and isinstance(next(iter(v))[0], tuple) and next(iter(v))[0][0] == 'exp' and next(iter(v))[1] == 1:
                m.G = self.accum(m.G, next(iter(v))[0])
            else:
                m.G = add(m.G, v, 1 if op == '+=' else -1)
        elif op == '*=':
            m.G = self.mul(m.G, v)
        else:
            m.G = TOP
        m.why = m.why or (self.fn.loc(n), 'the cached degree is set')

    def accum(self, cur, t):
        key = t[1]
        if isinstance(cur, tuple) and cur[0] == 'acc':
            return ('acc', cur[1], key, True) if cur[2] == key and cur[3] is False else TOP
        if cur is TOP:
            return TOP
        return ('acc', cur, key, True)

    def place_write(self, n, op, rhs, st, at):
        """write through an lvalue expression"""
        fn = self.fn
        r = self.resolve(n, st)
        if r[0] == 'deg':
            self.setdeg(st, r[1], op, rhs if rhs is not None else TOP, at)
            return True
        if r[0] == 'lastexp':
            m = self.mono(st, r[1])
            new = rhs if rhs is not None else TOP
            if op == '=':
                m.last = new
            elif op in ('+=', '-='):
                m.last = add(m.last, new, 1 if op == '+=' else -1)
            else:
                m.last = TOP
            m.why = (fn.loc(at), 'an exponent is changed')
            return True
        if r[0] == 'exp':
            m = self.mono(st, r[1])
            if op == '*=' and rhs is not None and self.each(at):
                if not isinstance(m.R, tuple):
                    m.R, m.last = ('scale', m.S(), r[1], True, rhs), frozenset()
                else:
                    m.R = m.R[:3] + (True,) + m.R[4:] if m.R[0] == 'scale' and not m.R[3] and m.R[4] == rhs else TOP
                m.why = (fn.loc(at), 'the exponents are changed')
            elif op in ('+=', '-=') and rhs is not None and m.R is not TOP and not self.inloop(at):
                m.R = add(m.R, rhs, 1 if op == '+=' else -1)
                m.why = (fn.loc(at), 'an exponent is changed')
            else:
                self.stale(st, r[1], at, 'an exponent is changed')
            return True
        return False

    def inloop(self, n):
        p = self.fn.parent.get(n)
        while p is not None:
            if self.fn.nodes[p]['k'] in ('For', 'While', 'Do', 'ForRange'):
                return True
            p = self.fn.parent.get(p)
        return False

    def each(self, n):
        """n is the body of a loop over the elements, done once for each"""
        p = self.fn.parent.get(n)
        while p is not None and self.fn.nodes[p]['k'] == 'Block' and len(self.fn.nodes[p].get('c', ())) == 1:
            p = self.fn.parent.get(p)
        return p is not None and self.fn.nodes[p]['k'] in ('ForRange', 'For')

    def pairsecond(self, n, st):
        """exponent of a {variable, exponent} expression"""
        fn = self.fn
        for _ in range(8):
            x = fn.nodes[n]
            c = [i for i in x.get('c', ()) if i >= 0]
            if x['k'] in ('Ctor', 'InitList') and len(c) == 2:
                return self.value(c[1], st)
            if x['k'] == 'Call' and x.get('fq', '') == 'std::make_pair' and len(c) == 2:
                return self.value(c[1], st)
            if len(c) == 1 and (x['k'] in ('Ctor', 'Cast', 'InitList', 'CXXStdInitializerListExpr') or x['k'] == 'Call' and x.get('fq', '') in ('std::move', 'std::forward')):
                n = c[0]
                continue
            r = self.resolve(n, st)
            if r[0] == 'back':
                return self.mono(st, r[1]).last
            return lin(('second', fn.text(n)))
        return TOP

    def listsum(self, n, st):
        """sum of exponents of an initialiser list, or None"""
        fn = self.fn
        x = fn.nodes[n]
        c = [i for i in x.get('c', ()) if i >= 0]
        if x['k'] in ('Cast', 'CXXStdInitializerListExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr') or x['k'] == 'Ctor' and len(c) == 1:
            return self.listsum(c[0], st) if c else frozenset()
        if x['k'] == 'InitList':
            s = frozenset()
            for i in c:
                y = fn.nodes[i]
                while y['k'] in ('Cast', 'ExprWithCleanups') and y.get('c'):
                    i = y['c'][0]
                    y = fn.nodes[i]
                if y['k'] in ('Ctor', 'InitList') and len(y.get('c', ())) == 2:
                    s = add(s, self.value(y['c'][1], st))
                else:
                    return None
            return s
        return None

    def assign_data(self, st, key, rhs, n, lv=None):
        """__data of key takes the value of expression rhs"""
        fn = self.fn
        m = self.mono(st, key)
        r = self.resolve(rhs, st)
        m.last = frozenset()
        m.why = (fn.loc(n), 'the terms are replaced')
        if r[0] == 'data':
            src = self.mono(st, r[1])
            k = split(src.S(), m.G, n)
            m.R, m.last = k.R, k.last
            x = fn.nodes[rhs]
            if x['k'] == 'Call' and x.get('fq') == 'std::move':
                src.R, src.last = frozenset(), frozenset()
                src.why = (fn.loc(n), 'the terms are moved away')
            return
        s = self.listsum(rhs, st)
        x = fn.nodes[rhs]
        if s is None and x['k'] == 'Ctor' and not x.get('c'):
            s = frozenset()
        m.R = s if s is not None else lin(('terms', fn.text(rhs)))

    def stmt(self, n, st):
        fn = self.fn
        x = fn.nodes[n]
        k = x['k']
        c = [i for i in x.get('c', ()) if i >= 0]
        if k == 'Decl':
            for v in x['vars']:
                d = v['d']
                t = fn.vars[d]['t']
                ts = self.tstr(t)
                self.changed(st, d)
                st.e.pop(d, None)
                st.m.pop(('v', d), None)
                if 'i' not in v:
                    if self.is_mono(t):
                        st.m[('v', d)] = fresh((n, d))
                    continue
                r = self.resolve(v['i'], st)
                if r[0] in ('iter',):
                    st.e[d] = r
                elif ts.endswith('&') and r[0] in ('mono', 'data', 'elem', 'back', 'deg'):
                    st.e[d] = ('elem', r[1]) if r[0] == 'back' else r
                elif self.is_mono(t) and not ts.endswith('&'):
                    if r[0] == 'mono':
                        src = self.mono(st, r[1])
                        st.m[('v', d)] = split(src.S(), src.G, (n, d)) if src.ok() else fresh((n, d))
                    else:
                        st.m[('v', d)] = fresh((n, d))
                        y = fn.nodes[v['i']]
                        if y['k'] == 'Ctor' and not [i for i in y.get('c', ()) if i >= 0 and not self.tstr(fn.nodes[i].get('t')).endswith('*')]:
                            st.m[('v', d)] = Mono(frozenset(), frozenset(), frozenset())
                elif re.sub(r'^const ', '', ts) in ('long', 'int', 'int64_t', 'unsigned long', 'uint64_t', 'std::size_t', 'unsigned int', 'size_t'):
                    st.e[d] = self.value(v['i'], st)
            return
        if k == 'Assign':
            if self.place_write(c[0], x['op'], self.value(c[1], st), st, n):
                return
            y = fn.nodes[c[0]]
            if y['k'] == 'Ref':
                val = self.value(c[1], st)
                cur = st.e.get(y['d'])
                if x['op'] == '=':
                    self.changed(st, y['d'])
                    st.e[y['d']] = subst(val, ('v', y['d']), ('old', y['d'])) if val is not TOP else TOP
                elif x['op'] == '+=' and isinstance(val, frozenset) and len(val) == 1 and isinstance(next(iter(val))[0], tuple) and next(iter(val))[0][0] == 'exp':
                    st.e[y['d']] = self.accum(cur if cur is not None else TOP, next(iter(val))[0])
                elif x['op'] in ('+=', '-=') and isinstance(cur, frozenset):
                    st.e[y['d']] = add(cur, val, 1 if x['op'] == '+=' else -1)
                else:
                    self.changed(st, y['d'])
                    st.e[y['d']] = TOP
            return
        if k == 'Un' and x['op'] in ('++', '--', 'post++', 'post--'):
            if self.place_write(c[0], '+=' if '+' in x['op'] else '-=', num(1), st, n):
                return
            y = fn.nodes[c[0]]
            if y['k'] == 'Ref' and not isinstance(st.e.get(y['d']), tuple):
                cur = st.e.get(y['d'])
                self.changed(st, y['d'])
                st.e[y['d']] = TOP
            return
        if k == 'Ctor':
            self.args(n, c, x.get('pt', []), st)
            return
        if k == 'Call':
            self.callstmt(n, x, c, st)
            return
        if k == 'Return' and c:
            r = self.resolve(c[0], st)
            if r[0] in ('?', 'deg', 'exp', 'lastexp', 'int'):
                v = self.value(c[0], st)
                self.ret = v if self.ret is None or self.ret == v else TOP
            if r[0] == 'mono' and self.is_mono(fn.o.get('ret')):
                self.need(st, r[1], n, 'returned')

    def args(self, n, ids, pts, st, skip=()):
        fn = self.fn
        for j, i in enumerate(ids):
            if j in skip:
                continue
            r = self.resolve(i, st)
            t = self.tstr(pts[j]) if j < len(pts) else ''
            mutable = t.endswith('&') and not t.startswith('const ')
            if r[0] == 'mono':
                x = fn.nodes[i]
                y = fn.nodes[n]
                if mutable and not t.endswith('&&') and not y.get('fq', '').startswith('std::'):
                    st.m[r[1]] = fresh((n, j))
                    continue
                self.need(st, r[1], n, 'handed on')
                if x['k'] == 'Call' and x.get('fq') in ('std::move', 'std::forward') and (t.endswith('&&') or y['k'] == 'Ctor'):
                    st.m[r[1]] = Mono(frozenset(), frozenset(), frozenset())
            elif r[0] in ('data', 'iter') and mutable and not t.endswith('&&'):
                self.stale(st, r[1], n, 'the terms are handed out for writing')
            elif r[0] in ('elem', 'back') and mutable:
                self.stale(st, r[1], n, 'a term is handed out for writing')
            elif r[0] == 'deg' and mutable:
                self.mono(st, r[1]).G = TOP

    def callstmt(self, n, x, c, st):
        fn = self.fn
        fq = x.get('fq', '')
        nm = fq.split('::')[-1]
        pts = x.get('pt', [])
        const = x.get('f', '').endswith('const')
        if x.get('op') == '=' and len(c) == 2:
            r = self.resolve(c[0], st)
            if r[0] == 'data':
                self.assign_data(st, r[1], c[1], n)
                return
            if r[0] == 'mono':
                s = self.resolve(c[1], st)
                if s[0] == 'mono':
                    self.need(st, s[1], n, 'copied')
                    if s[1] != r[1]:
                        src = self.mono(st, s[1])
                        st.m[r[1]] = split(src.S(), src.S(), (n, 0)) if src.ok() else fresh((n, 0))
                        if fn.nodes[c[1]]['k'] == 'Call' and fn.nodes[c[1]].get('fq') == 'std::move':
                            st.m[s[1]] = Mono(frozenset(), frozenset(), frozenset())
                else:
                    st.m[r[1]] = fresh((n, 0))
                return
            if r[0] in ('elem', 'back'):
                self.stale(st, r[1], n, 'a term is replaced')
                return
        if x.get('op') in ('++', '--') and c:
            return
        if nm in ('pair_vec_add', 'pair_vec_sub') and len(c) >= 3:
            o, a, b = (self.resolve(i, st) for i in c[:3])
            if o[0] == 'data':
                sa = self.mono(st, a[1]).S() if a[0] == 'data' else lin(('terms', fn.text(c[1])))
                sb = self.mono(st, b[1]).S() if b[0] == 'data' else lin(('terms', fn.text(c[2])))
                m = self.mono(st, o[1])
                st.m[o[1]] = split(add(sa, sb, 1 if nm == 'pair_vec_add' else -1), m.G, n, (fn.loc(n), 'the terms are computed anew'))
                return
        if nm in ('swap', 'iter_swap') and len(c) == 2:
            a, b = (self.resolve(i, st) for i in c)
            if a[0] == b[0] == 'data':
                p, q = self.mono(st, a[1]), self.mono(st, b[1])
                p.R, p.last, q.R, q.last = q.R, q.last, p.R, p.last
                p.why = q.why = (fn.loc(n), 'the terms are exchanged')
                return
            if a[0] == b[0] == 'deg':
                p, q = self.mono(st, a[1]), self.mono(st, b[1])
                p.G, q.G = q.G, p.G
                return
            if a[0] == b[0] == 'mono':
                p, q = self.mono(st, a[1]), self.mono(st, b[1])
                st.m[a[1]], st.m[b[1]] = q, p
                return
        if fq == 'std::exchange' and len(c) == 2:
            a = self.resolve(c[0], st)
            if a[0] == 'deg':
                st.e[('old', n)] = self.mono(st, a[1]).G
                self.mono(st, a[1]).G = self.value(c[1], st)
                return
        if x.get('obj') and c:
            b = self.resolve(c[0], st)
            if b[0] == 'mono' and fq.startswith(CLS):
                key = b[1]
                m = self.mono(st, key)
                if nm == 'push_back' and len(c) == 2 or nm == 'emplace_back' and len(c) == 3:
                    e = self.pairsecond(c[1], st) if len(c) == 2 else self.value(c[2], st)
                    m.R, m.last, m.G = add(m.R, m.last), e, add(m.G, e)
                    return
                if nm == 'pop_back':
                    st.m[key] = split(m.R, add(m.G, m.last, -1) if m.R is not TOP else TOP, n, m.why)
                    return
                if nm == 'clear':
                    st.m[key] = Mono(frozenset(), frozenset(), frozenset())
                    return
                if nm in ('re_deg', 'normalization'):
                    st.m[key] = fresh((n, nm))
                    return
                if nm == 'resize':
                    self.stale(st, key, n, 'terms are cut off or added')
                    return
                if const or nm in ('begin', 'end', 'front', 'back', 'data', 'find', 'operator[]', 'at', 'deg', 'reserve', 'empty', 'size', 'capacity', 'shrink_to_fit'):
                    if const and nm not in ('begin', 'end', 'front', 'back', 'data', 'find', 'operator[]', 'at', 'deg', 'empty', 'size', 'is_normal', 'comp', 'comp_ptr', 'str', 'capacity'):
                        self.need(st, key, n, 'used')
                    self.args(n, c[1:], pts, st)
                    return
                if nm == 'comp':
                    return
                s = self.sums.get(x.get('f'))
                if x.get('f') in self.forced and self.force(n, st):
                    return
                if not m.ok() and self.inlined(n, st):
                    return
                self.args(n, c[1:], pts, st)
                if s == 'keep' and not m.ok():
                    self.need(st, key, n, 'used')
                st.m[key] = fresh((n, nm))
                return
            if b[0] == 'data':
                key = b[1]
                m = self.mono(st, key)
                if nm in ('push_back', 'emplace_back') and len(c) >= 2:
                    e = self.pairsecond(c[1], st) if len(c) == 2 else self.value(c[2], st)
                    m.R, m.last = add(m.R, m.last), e
                    m.why = (fn.loc(n), 'a term is added to the stored terms alone')
                    if self.frompacked(n):
                        m.packed = m.packed or self.packedfn()
                    return
                if nm == 'pop_back':
                    st.m[key] = split(m.R, m.G, n, (fn.loc(n), 'a term is removed from the stored terms alone'))
                    return
                if nm == 'clear':
                    m.R, m.last = frozenset(), frozenset()
                    m.why = (fn.loc(n), 'the stored terms are cleared')
                    return
                if nm == 'swap' and len(c) == 2:
                    o = self.resolve(c[1], st)
                    if o[0] == 'data':
                        q = self.mono(st, o[1])
                        m.R, m.last, q.R, q.last = q.R, q.last, m.R, m.last
                        m.why = q.why = (fn.loc(n), 'the terms are exchanged')
                    else:
                        self.stale(st, key, n, 'the terms are exchanged')
                    return
                if nm in ('reserve', 'shrink_to_fit', 'begin', 'end', 'front', 'back', 'operator[]', 'at', 'size', 'empty', 'capacity', 'cbegin', 'cend', 'data') or const:
                    return
                if nm == 'assign' and len(c) == 3:
                    o = self.resolve(c[1], st)
                    if o[0] == 'iter':
                        m.R, m.last = self.mono(st, o[1]).S(), frozenset()
                        m.why = (fn.loc(n), 'the terms are replaced')
                        return
                self.stale(st, key, n, 'the stored terms are changed')
                return
        # sizes only
        callee = self.prog.fns.get(x.get('f'))
        if callee is not None and callee.blocks and len(c) >= 1 and self.resolve(c[0], st)[0] == 'data' and self.sizeonly(callee):
            return
        ids = c[1:] if x.get('obj') else c
        if x.get('f') in self.forced and self.force(n, st):
            return
        if self.helper(x, ids, pts, st) and self.inlined(n, st):
            return
        if x.get('obj') and c:
            b = self.resolve(c[0], st)
            if b[0] == 'mono':
                self.need(st, b[1], n, 'used')
        if fq in ('std::move', 'std::forward', 'std::accumulate', 'std::reduce', 'std::max', 'std::min', 'std::addressof'):
            return
        if x.get('op') in ('*', '->', '!=', '==') and c and self.resolve(c[0], st)[0] == 'iter':
            return
        self.args(n, ids, pts, st)

    forced = frozenset()
    failed = None

    def force(self, n, st):
        """a function that leaves a monomial out of step by itself: judged where it is called"""
        r = self.inlined(n, st)
        if r is None and self.failed is not None:
            self.failed.add(self.fn.nodes[n]['f'])
        return r is not None

    def helper(self, x, ids, pts, st):
        """a function given terms to write, or a monomial that is not in step"""
        for j, i in enumerate(ids):
            r = self.resolve(i, st)
            t = self.tstr(pts[j]) if j < len(pts) else ''
            mutable = t.endswith('&') and not t.startswith('const ')
            if r[0] in ('data', 'iter', 'elem') and mutable or r[0] == 'mono' and not self.mono(st, r[1]).ok():
                return True
        return False

    def inlined(self, n, st):
        """effect of a helper on the monomials (or their terms) it is given: (returned value,) or None"""
        fn = self.fn
        x = fn.nodes[n]
        if self.depth >= 3 or x['k'] != 'Call':
            return None
        callee = self.prog.fns.get(x.get('f'))
        if callee is None or not callee.blocks or not callee.file.startswith(ir.SRC) or len(callee.blocks) > 40 or callee is fn:
            return None
        c = [i for i in x.get('c', ()) if i >= 0]
        b = State()
        outm = {}
        given = False
        if x.get('obj') and callee.cls == CLS:
            r = self.resolve(c[0], st)
            if r[0] != 'mono':
                return None
            outm[('this',)] = r[1]
            given = True
        ids = c[1:] if x.get('obj') else c
        for q, i in zip(callee.params, ids):
            r = self.resolve(i, st)
            ref = self.tstr(callee.vars[q]['t']).endswith('&')
            if r[0] in ('mono', 'data', 'iter', 'elem') and (ref or r[0] == 'iter'):
                given = True
                tgt = next((k for k, v in outm.items() if v == r[1]), None)
                if tgt is None:
                    tgt = ('v', q) if r[0] == 'mono' else ('a', q)
                    outm[tgt] = r[1]
                if r[0] != 'mono' or tgt != ('v', q):
                    b.e[q] = (r[0], tgt)
            elif r[0] in ('mono', 'data', 'deg'):
                if r[0] == 'deg' and ref and not self.tstr(callee.vars[q]['t']).startswith('const'):
                    return None
                if r[0] == 'deg':
                    b.e[q] = self.mono(st, r[1]).G
                else:
                    return None
            else:
                v = self.value(i, st)
                b.e[q] = v if isinstance(v, frozenset) else lin(('arg', fn.text(i)))
        if not given:
            return None
        for k, v in outm.items():
            m = self.mono(st, v)
            b.m[k] = Mono(m.R, m.last, m.G, m.why, m.packed)
        fl = Flow(self.prog, callee, self.rep, self.sums)
        fl.depth = self.depth + 1
        fl.forced, fl.failed = self.forced, self.failed
        s = fl.run(bind=b)
        if s is None or fl.unsettled:
            return None
        for k, v in outm.items():
            if k not in s.m:
                return None
        for k, v in outm.items():
            st.m[v] = s.m[k]
        return (fl.ret,)

    depth = 0

    def sizeonly(self, callee):
        p = callee.params[0]
        for i, y in enumerate(callee.nodes):
            if y['k'] == 'Call' and y.get('obj') and not y.get('f', '').endswith('const'):
                if y['fq'].split('::')[-1] not in ('shrink_to_fit', 'reserve', 'size', 'capacity', 'empty'):
                    return False
            elif y['k'] in ('Assign', 'Delete'):
                return False
            elif y['k'] == 'Call' and not y.get('obj'):
                return False
        return True

    def frompacked(self, n):
        return True

    def packedfn(self):
        """the packed form of a monomial is unpacked here: an integer parameter and a list of variables (decided under M01)"""
        ts = [self.tstr(self.fn.vars[p]['t']) for p in self.fn.params]
        return any(t in ('unsigned long', 'uint64_t', 'const unsigned long') for t in ts) and any('std::list<' in t and 'variable' in t for t in ts)

    # ------------------------------------------------------------------
    def run(self, stale_entry=False, bind=None):
        fn = self.fn
        self.ret = None
        used = {e['i'] for b in fn.blocks.values() for e in b['e'] if isinstance(e, dict) and e.get('i') is not None}
        used |= {b['cond'] for b in fn.blocks.values() if 'cond' in b and fn.nodes[b['cond']]['k'] != 'Call'}
        st = State()
        if fn.cls == CLS and fn.kind not in ('dtor',) and not self.static():
            st.m[('this',)] = fresh('this') if not stale_entry else Mono(TOP, frozenset(), TOP) if stale_entry == 'both' else split(lin(('S', 'this')), lin(('G', 'this')), 'this')
            if fn.qn.endswith('(ctor)'):
                st.m[('this',)] = Mono(frozenset(), frozenset(), frozenset())
        for p in fn.params:
            if self.is_mono(fn.vars[p]['t']):
                st.m[('v', p)] = fresh(('p', p))
        if bind is not None:
            for k, v in bind.m.items():
                st.m[k] = v
            st.e.update(bind.e)
        order = self.rpo()
        back = {(a, b) for a in order for b in self.succ(a) if b in self.index and self.index[b] <= self.index[a]}
        IN = {}
        edge = {}
        for rnd in range(60):
            change = False
            self.out.clear()
            self.obl = 0
            self.ret = None
            for b in order:
                ins = [st] if b == fn.entry else []
                ins += [v for k, v in sorted(edge.items()) if k[1] == b]
                if not ins:
                    continue
                s = ins[0].copy()
                for t in ins[1:]:
                    s = join(s, t, b)
                IN[b] = s.copy()
                for e in fn.blocks[b]['e']:
                    if isinstance(e, dict):
                        if 'field' in e:
                            self.init(e, s)
                        continue
                    if e in used:
                        continue
                    self.stmt(e, s)
                if fn.blocks[b].get('nr'):
                    continue
                blk = fn.blocks[b]
                for k, nb in enumerate(blk['s']):
                    if nb is None or nb < 0:
                        continue
                    t = s.copy()
                    if (b, nb) in back:
                        self.onback(t)
                    if 'cond' in blk and len(blk['s']) == 2 and k == 1:
                        self.onexit(t)
                    old = edge.get((b, nb, k))
                    if old is None or not old.same(t):
                        edge[(b, nb, k)] = t
                        change = True
            if not change:
                break
        else:
            self.unsettled = True
        s = IN.get(fn.exit)
        if bind is not None:
            return s
        if s is not None:
            for key in list(s.m):
                if key == ('this',):
                    if not fn.o.get('const') and fn.kind != 'dtor':
                        self.need(s, key, None, 'left behind')
                elif key[0] == 'v' and key[1] in fn.params:
                    t = self.tstr(fn.vars[key[1]]['t'])
                    if t.endswith('&') and not t.startswith('const '):
                        self.need(s, key, None, 'left behind')
                elif key[0] == 't':
                    self.need(s, key, None, 'left behind')
        return s

    unsettled = False

    def static(self):
        return self.fn.o.get('static')

    def init(self, e, s):
        m = self.mono(s, ('this',))
        if e['field'] == '__deg':
            m.G = self.value(e['i'], s) if e.get('i') is not None else frozenset()
            if e.get('i') is not None and self.fn.nodes[e['i']].get('fq') == 'std::exchange':
                self.stmt(e['i'], s)
        elif e['field'] == '__data' and e.get('i') is not None:
            x = self.fn.nodes[e['i']]
            if x['k'] == 'Ctor' and len(x.get('c', ())) == 1:
                self.assign_data(s, ('this',), x['c'][0], e['i'])
            else:
                ls = self.listsum(e['i'], s)
                if x['k'] == 'Ctor' and not x.get('c'):
                    ls = frozenset()
                if ls is None and x['k'] == 'Ctor' and x.get('c'):
                    ls = self.listsum(x['c'][0], s)
                m.last = frozenset()
                m.R = ls if ls is not None else lin(('terms', self.fn.text(e['i'])))
                m.why = (self.fn.loc(e['i']), 'the terms are set')

    def onback(self, t):
        for m in t.m.values():
            for a in ('R', 'G'):
                v = getattr(m, a)
                if isinstance(v, tuple) and v[0] in ('acc', 'scale'):
                    setattr(m, a, v[:3] + (False,) + v[4:] if v[3] else TOP)
        for k, v in list(t.e.items()):
            if isinstance(v, tuple) and v and v[0] == 'acc':
                t.e[k] = ('acc', v[1], v[2], False) if v[3] else TOP

    def onexit(self, t):
        def fin(v):
            if isinstance(v, tuple) and v[0] == 'acc' and v[3] is False:
                return add(v[1], self.mono(t, v[2]).S())
            return v
        for m in list(t.m.values()):
            m.G = fin(m.G)
            if isinstance(m.R, tuple) and m.R[0] == 'scale':
                m.R = self.mul(m.R[1], m.R[4]) if m.R[3] is False else TOP
        for k, v in list(t.e.items()):
            t.e[k] = fin(v)

    def succ(self, b):
        return [x for x in self.fn.blocks[b]['s'] if x is not None and x >= 0]

    def rpo(self):
        seen, out = set(), []
        stack = [(self.fn.entry, iter(self.succ(self.fn.entry)))]
        seen.add(self.fn.entry)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(self.succ(x))))
                    break
            else:
                out.append(b)
                stack.pop()
        out.reverse()
        self.index = {b: i for i, b in enumerate(out)}
        return out


def touches(prog, f):
    if f.cls == CLS:
        return True
    for i, x in enumerate(f.nodes):
        if x['k'] == 'Call' and x.get('obj') and x.get('fq', '').startswith(CLS + '::') and not x.get('f', '').endswith('const'):
            nm = x['fq'].split('::')[-1]
            if nm in ('data', 'front', 'back', 'begin', 'end', 'find', 'operator[]', 'at', 'resize', 're_deg', 'normalization', 'push_back', 'pop_back', 'emplace_back'):
                return True
            if nm == 'deg' and len(x.get('c', ())) == 1:
                p = f.parent.get(i)
                if p is not None and (f.nodes[p]['k'] == 'Assign' and f.nodes[p]['c'][0] == i or f.nodes[p]['k'] == 'Un'):
                    return True
        if x['k'] == 'Mem' and x['n'] in ('__data', '__deg') and x.get('own') == CLS:
            return True
    return False


def check(prog, rep):
    fns = [f for f in prog.fns.values() if f.file.startswith(ir.SRC) and f.blocks and touches(prog, f) and not f.o.get('dfl')]
    sums = {}
    # what re-establishes the degree by itself
    for f in fns:
        if f.cls == CLS and f.name in ('re_deg', 'normalization', 'clear'):
            fl = Flow(prog, f, rep, sums)
            fl.run(stale_entry='yes' if f.name != 'clear' else 'both')
            rep.count('re-establishing functions decided')
            report(prog, rep, f, fl, 'whatever the cached degree was')
        elif f.cls == CLS:
            sums[f.key] = 'keep'
    forced, failed, done = set(), set(), {}
    callers = {}
    for f in prog.fns.values():
        if f.file.startswith(ir.SRC):
            for x in f.nodes:
                if x['k'] == 'Call' and x.get('f'):
                    callers.setdefault(x['f'], set()).add(f.key)
    todo = {f.key for f in fns if not skipped(f)}
    for rnd in range(4):
        new = set()
        for k in todo:
            f = prog.fns[k]
            fl = Flow(prog, f, rep, sums)
            fl.forced, fl.failed = frozenset(forced), failed
            fl.run()
            done[k] = fl
            if k not in forced and fl.out and all(o[2] == 'left behind' for o in fl.out) and defers(f) and callers.get(k, set()) - {k}:
                new.add(k)
        new -= failed
        if not new:
            break
        forced |= new
        todo = {c for k in new for c in callers[k] if prog.fns[c].blocks and not prog.fns[c].o.get('dfl') and not skipped(prog.fns[c])}
    for k, fl in done.items():
        f = prog.fns[k]
        rep.count('functions followed')
        if fl.unsettled:
            rep.count('functions not settled')
        rep.count('uses of a monomial decided', fl.obl)
        if k in forced and k not in failed:
            rep.count('helpers judged where they are called')
            continue
        report(prog, rep, f, fl, '')


def skipped(f):
    return f.name == '(dtor)' or f.cls == CLS and f.name in (
        're_deg', 'normalization', 'clear', 'resize', 'data', 'begin', 'end', 'front', 'back', 'operator[]', 'at', 'find', 'reserve', 'deg')


def defers(f):
    """an auxiliary function may leave a monomial out of step if its callers repair it; a public member may not"""
    return f.cls != CLS or f.name.startswith('_') or f.o.get('acc') in ('private', 'protected')


def report(prog, rep, f, fl, extra):
    for n, key, what, why in fl.out:
        name = '*this' if key[0] == 'this' else f.vars[key[1]]['n'] if key[0] == 'v' else key[1]
        rep.violation('%s:%s:%s:%s' % (f.rel(), f.qn, name, what), '%s (%s): the monomial %s is %s with a cached degree that is not shown to be the sum of its exponents%s%s' % (
            f.qn, f.loc(n) if n is not None else f.loc(), name, what, (' (%s at %s)' % (why[1], why[0])) if why else '', ', ' + extra if extra else ''))


RULE = ('in every function that touches the stored terms or the cached degree of a monomial directly, the cached degree and the sum of the stored exponents are followed as linear forms; '
        'wherever the monomial is handed on, copied, returned or left behind they must be equal')


def run(prop, tier, rep):
    rep.rule = RULE
    prog = ir.load('rel')
    check(prog, rep)
    rep.need('functions followed', 40)
    rep.need('uses of a monomial decided', 60)
    rep.need('re-establishing functions decided', 3)
