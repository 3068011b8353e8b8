"""Global value numbering of word-level kernels (polynomials over atoms modulo 2^w, branches as decision sets), used to compare the
library's kernels with reference kernels (driver/ref_kernels.cc) proved on paper."""
import os, json, subprocess, tempfile, itertools
import ir

LIMIT = 400


class Undecided(Exception):
    pass


# ------------------------------------------------------------ values: ('P', w, ((monomial, coef), ...)); monomial = sorted tuple of atoms
def mk(w, d):
    m = (1 << w) - 1
    return ('P', w, tuple(sorted(((k, v & m) for k, v in d.items() if v & m), key=repr)))


def K(w, c):
    return mk(w, {(): c})


def atom(w, a):
    return mk(w, {((w, a),): 1})


def cst(v):
    if not v[2]:
        return 0
    if len(v[2]) == 1 and v[2][0][0] == ():
        return v[2][0][1]
    return None


def add(a, b, s=1):
    d = dict(a[2])
    for k, v in b[2]:
        d[k] = d.get(k, 0) + s * v
    return mk(a[1], d)


def mul(a, b):
    d = {}
    for k, v in a[2]:
        for l, u in b[2]:
            q = tuple(sorted(k + l, key=repr))
            d[q] = d.get(q, 0) + v * u
    return mk(a[1], d)


def trunc(v, w):
    if v[1] == w:
        return v
    r = K(w, 0)
    for k, c in v[2]:
        t = K(w, c)
        for aw, a in k:
            if a[0] == 'zext' and a[1][1] >= w:
                f = trunc(a[1], w)
            elif a[0] == 'zext':
                f = conv(a[1], w)
            elif a[0] == 'pow2':
                f = atom(w, a)
            else:
                f = atom(w, ('trunc', v[1], a))
            t = mul(t, f)
        r = add(r, t)
    return r


def conv(v, w, signed=False):
    """v converted to w bits, from its own (signed or unsigned) type"""
    if v[1] == w:
        return v
    if v[1] > w:
        return trunc(v, w)
    c = cst(v)
    if c is not None:
        if signed and c >> (v[1] - 1):
            c -= 1 << v[1]
        return K(w, c)
    if signed:
        return atom(w, ('sext', v))
    # a zero-extended value extended again
    if len(v[2]) == 1 and v[2][0][1] == 1 and len(v[2][0][0]) == 1 and v[2][0][0][0][1][0] == 'zext':
        return conv(v[2][0][0][0][1][1], w)
    return atom(w, ('zext', v))


def shl(a, b):
    c = cst(b)
    if c is not None:
        return mul(a, K(a[1], 1 << c)) if c < a[1] else None
    return mul(a, atom(a[1], ('pow2', small(b))))


def small(b):
    """a shift amount: its width does not matter"""
    while len(b[2]) == 1 and b[2][0][1] == 1 and len(b[2][0][0]) == 1 and b[2][0][0][0][1][0] in ('zext', 'sext', 'trunc'):
        a = b[2][0][0][0][1]
        b = a[1] if a[0] != 'trunc' else atom(a[1], a[2])
    return conv(b, 32) if b[1] != 32 else b


def shr(a, b):
    c = cst(b)
    if c == 0:
        return a
    x = cst(a)
    if c is not None and x is not None:
        return K(a[1], x >> c)
    return atom(a[1], ('shr', a, small(b) if c is None else c))


def orv(a, b):
    x, y = cst(a), cst(b)
    if x is not None and y is not None:
        return K(a[1], x | y)
    if x == 0:
        return b
    if y == 0:
        return a
    # low half filled into a value shifted left by at least its width: no carries
    for u, v in ((a, b), (b, a)):
        if all(any(q == ('pow2',) for _, q in k) or c % (1 << 64) == 0 for k, c in u[2]) and v[1] == 128 and len(v[2]) == 1 and v[2][0][1] == 1 and v[2][0][0] and v[2][0][0][0][1][0] == 'zext' and len(v[2][0][0]) == 1:
            return add(u, v)
        y = cst(v)
        if y is not None and y >= 0 and y < (1 << 64) and u[1] == 128 and all(c % (1 << 64) == 0 for k, c in u[2]):
            return add(u, v)
    return atom(a[1], ('or',) + tuple(sorted((a, b), key=repr)))


def bitop(op, a, b):
    x, y = cst(a), cst(b)
    if x is not None and y is not None:
        return K(a[1], x & y if op == '&' else x ^ y)
    if op == '&':
        for u, c in ((a, y), (b, x)):
            if c is not None and c == (1 << a[1]) - 1:
                return u
            if c == (1 << 64) - 1 and a[1] == 128:
                return conv(trunc(u, 64), 128)
            if c == 0:
                return K(a[1], 0)
    return atom(a[1], (op,) + tuple(sorted((a, b), key=repr)))


def lt(a, b):
    """(atom, truth) for a < b unsigned; or bool"""
    x, y = cst(a), cst(b)
    if x is not None and y is not None:
        return x < y
    if y == 0 or a == b:
        return False
    if x == 0:
        return neg(eq(b, K(b[1], 0)))
    if y == 1:
        return eq(a, K(a[1], 0))
    return (('<', unz(a), unz(b)), True)


def unz(v):
    return v


def eq(a, b):
    x, y = cst(a), cst(b)
    if x is not None and y is not None:
        return x == y
    if a == b:
        return True
    d = add(a, b, -1)
    if len(a[2]) == 1 and len(b[2]) == 0 and a[2][0][1] == 1 and len(a[2][0][0]) == 1 and a[2][0][0][0][1][0] == 'zext':
        v = a[2][0][0][0][1][1]
        return eq(v, K(v[1], 0))
    e = add(b, a, -1)
    return (('==',) + ((d,) if repr(d) < repr(e) else (e,)), True)


def neg(c):
    if isinstance(c, bool):
        return not c
    return (c[0], not c[1])


class Path:
    __slots__ = ('env', 'conds', 'val')

    def __init__(self, env, conds, val):
        self.env, self.conds, self.val = env, conds, val

    def copy(self):
        return Path(dict(self.env), self.conds, dict(self.val))

    def assume(self, c, truth):
        """False when contradictory"""
        if isinstance(c, bool):
            return c == truth
        a, t = c if truth else neg(c)
        if (a, not t) in self.conds:
            return False
        self.conds = self.conds | {(a, t)}
        return True


class Eval:
    def __init__(self, prog, inline=lambda g: True):
        self.prog = prog
        self.want = inline
        self.steps = 0
        self.frames = 0

    # ------------------------------------------------------ running
    def headers(self, fn):
        color, hd = {}, set()
        st = [(fn.entry, iter([s for s in fn.blocks[fn.entry]['s'] if s >= 0]))]
        color[fn.entry] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color.get(s) == 1:
                    hd.add(s)
                elif s not in color:
                    color[s] = 1
                    st.append((s, iter([x for x in fn.blocks[s]['s'] if x >= 0])))
                    break
            else:
                color[b] = 2
                st.pop()
        return hd

    def function(self, fn, env, this=None):
        """[(Path, outcome)] with outcome ('ret', value) or ('head',); for a function with a loop also from the loop head"""
        hd = self.headers(fn)
        if len(hd) > 1:
            raise Undecided('%s has several loops' % fn.name)
        fr = self.frame(fn, env)
        out = self.blocks(fn, fr, fn.entry, Path(env, frozenset(), {}), hd, True)
        if not hd:
            return out, None, fr
        h = next(iter(hd))
        e2 = {}
        for p, o in out:
            if o == ('head',):
                for k, v in p.env.items():
                    if isinstance(v, tuple) and v and v[0] == 'P':
                        e2[k] = atom(v[1], ('loop', k))
                    else:
                        e2[k] = v
        # parameters and members never written in the loop keep their symbols
        wr = self.written(fn)
        for k in list(e2):
            if k not in env0_vars(fr, wr) and k in env and isinstance(env[k], tuple):
                e2[k] = env[k]
        out2 = self.blocks(fn, fr, h, Path(e2, frozenset(), {}), hd, False)
        return out, out2, fr

    def written(self, fn):
        w = set()
        for x in fn.nodes:
            if x['k'] in ('Assign',) or x['k'] == 'Un' and x['op'] in ('++', '--', 'post++', 'post--'):
                y = fn.nodes[x['c'][0]]
                if y['k'] == 'Ref':
                    w.add(y['d'])
            if x['k'] == 'Call':
                for c in x.get('c', ()):
                    y = fn.nodes[c]
                    if y['k'] == 'Ref' and y.get('lv'):
                        w.add(y['d'])
        return w

    def frame(self, fn, env):
        self.frames += 1
        return ('f', self.frames) if self.frames > 1 else ('f', 0)

    def blocks(self, fn, fr, b, path, hd, first):
        out = []
        work = [(b, path, True)]
        while work:
            b, p, start = work.pop()
            self.steps += 1
            if self.steps > LIMIT * 20 or len(out) > LIMIT:
                raise Undecided('%s is too large' % fn.name)
            if b in hd and not (start and not first):
                out.append((p, ('head',)))
                continue
            blk = fn.blocks[b]
            ps = [p]
            fin = []
            for e in blk['e']:
                if isinstance(e, dict):
                    raise Undecided('initialisers')
                nxt = []
                for q in ps:
                    for r in self.step(fn, fr, e, q):
                        if fn.nodes[e]['k'] == 'Return':
                            fin.append((r, ('ret', r.val.get((fr, e)))))
                        else:
                            nxt.append(r)
                ps = nxt
            out += fin
            if blk.get('nr'):
                continue
            for q in ps:
                if b == fn.exit or not blk['s']:
                    out.append((q, ('ret', None)))
                    continue
                if 'cond' in blk and len(blk['s']) == 2:
                    c = self.cond(fn, fr, blk['cond'], q)
                    for j, t in enumerate(blk['s']):
                        r = q.copy()
                        if t >= 0 and r.assume(c, j == 0):
                            work.append((t, r, False))
                elif len(blk['s']) > 2:
                    raise Undecided('switch')
                else:
                    if blk['s'][0] == fn.exit and not fn.blocks[fn.exit]['e']:
                        out.append((q, ('ret', None)))
                    else:
                        work.append((blk['s'][0], q, False))
        return out

    # ------------------------------------------------------ expressions
    def w(self, fn, n):
        T = fn.T(n)
        return (T['int'], T.get('sg')) if T.get('int') else (1, False) if T.get('bool') else (None, None)

    def lv(self, fn, fr, n, p):
        x = fn.nodes[n]
        k = x['k']
        if k == 'Ref':
            a = p.env.get(('ref', fr, x['d']))
            return a if a is not None else (fr, x['d'])
        if k in ('Cast', 'Paren') or k.endswith('CastExpr'):
            return self.lv(fn, fr, x['c'][0], p)
        if k == 'Mem':
            y = fn.nodes[x['c'][0]]
            if y['k'] == 'This':
                return p.env.get(('this', fr), 'this'), x['n']
            b = self.lv(fn, fr, x['c'][0], p)
            return (b, x['n']) if b is not None else None
        if k == 'Un' and x['op'] == '*':
            y = fn.nodes[x['c'][0]]
            if y['k'] == 'This':
                return p.env.get(('this', fr), 'this')
        if k == 'Un' and x['op'] in ('++', '--') or k == 'Assign':
            return self.lv(fn, fr, x['c'][0], p)
        return None

    def ev(self, fn, fr, n, p):
        v = p.val.get((fr, n))
        if v is not None:
            return v
        x = fn.nodes[n]
        k = x['k']
        w, sg = self.w(fn, n)
        if k == 'Cond':
            for i in (1, 2):
                v = p.val.get((fr, 'took', x['c'][i]))
                if v is not None:
                    return v
        if k in ('Ref', 'Mem', 'Assign') or k == 'Un' and x['op'] in ('++', '--', '*'):
            l = self.lv(fn, fr, n, p)
            if l is None:
                raise Undecided('%s in %s' % (fn.text(n), fn.name))
            v = p.env.get(l)
            if v is None:
                raise Undecided('value of %s in %s' % (fn.text(n), fn.name))
            return v
        if k == 'Int':
            return K(w, int(x['v']))
        if k == 'Bool':
            return x['v'] in ('1', 'true', True)
        if k in ('Cast', 'Paren') or k.endswith('CastExpr'):
            a = self.ev(fn, fr, x['c'][0], p)
            return self.convert(a, w, fn, x['c'][0], p)
        raise Undecided('%s in %s' % (fn.text(n), fn.name))

    def convert(self, a, w, fn, src, p):
        if isinstance(a, bool):
            return a if w == 1 else K(w, int(a)) if w else a
        if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], bool):
            if w == 1:
                return a
            raise Undecided('a comparison used as a number')
        if w == 1:
            return neg(eq(a, K(a[1], 0)))
        if w is None or not (isinstance(a, tuple) and a and a[0] == 'P'):
            return a
        return conv(a, w, bool(fn.T(src).get('sg')))

    def cond(self, fn, fr, n, p):
        x = fn.nodes[n]
        if x['k'] == 'Un' and x['op'] == '!':
            return neg(self.cond(fn, fr, x['c'][0], p))
        if x['k'] == 'Bin' and x['op'] in ('&&', '||'):
            # the block ends with the last evaluated operand
            for i in (x['c'][1], x['c'][0]):
                if (fr, i) in p.val:
                    v = p.val[(fr, i)]
                    return v if not (isinstance(v, tuple) and v and v[0] == 'P') else neg(eq(v, K(v[1], 0)))
            return self.cond(fn, fr, x['c'][0], p)
        v = self.ev(fn, fr, n, p)
        if isinstance(v, tuple) and v and v[0] == 'P':
            return neg(eq(v, K(v[1], 0)))
        return v

    def step(self, fn, fr, n, p):
        """[Path] after evaluating node n"""
        x = fn.nodes[n]
        k = x['k']
        c = [i for i in x.get('c', ()) if i >= 0]
        w, sg = self.w(fn, n)
        key = (fr, n)
        if k in ('FnRef', 'This', 'Str', 'Sizeof'):
            return [p]
        if k == 'Ref' or k == 'Mem':
            l = self.lv(fn, fr, n, p)
            if l is not None and l in p.env and not x.get('fn'):
                v = p.env[l]
                par = fn.parent.get(n)
                # an lvalue is read when converted, i.e. now, unless it is written by its parent
                p.val[key] = v
            return [p]
        if k == 'Un' and x['op'] == '*':
            return [p]
        if k == 'Int' or k == 'Bool':
            p.val[key] = self.ev(fn, fr, n, p)
            return [p]
        if k in ('Cast', 'Paren') or k.endswith('CastExpr'):
            if c and (w is not None):
                a = self.ev(fn, fr, c[0], p)
                if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], bool) and w > 1:
                    # comparison as 0/1: split
                    out = []
                    for t in (True, False):
                        q = p.copy()
                        if q.assume(a, t):
                            q.val[key] = K(w, int(t))
                            out.append(q)
                    return out
                p.val[key] = self.convert(a, w, fn, c[0], p)
            return [p]
        if k in ('ScalarInit', 'ImplicitValueInitExpr'):
            p.val[key] = K(w or 64, 0)
            return [p]
        if k == 'Decl':
            for v in x['vars']:
                d = v['d']
                T = self.prog_of(fn).T(fn.vars[d]['t'])
                if T.get('ref'):
                    l = self.lv(fn, fr, v['i'], p)
                    if l is None:
                        p.env[(fr, d)] = self.ev(fn, fr, v['i'], p)
                    else:
                        p.env[('ref', fr, d)] = l
                elif 'i' in v and v['i'] >= 0:
                    y = fn.nodes[v['i']]
                    if y['k'] == 'InitList' and not T.get('int'):
                        for i, (f, cc) in enumerate(zip(self.fields(fn, T), y['c'])):
                            p.env[((fr, d), f)] = self.ev(fn, fr, cc, p)
                    else:
                        p.env[(fr, d)] = self.ev(fn, fr, v['i'], p)
                else:
                    if T.get('int'):
                        p.env[(fr, d)] = atom(T['int'], ('uninit', d))
            return [p]
        if k == 'Return':
            if c:
                p.val[key] = self.ev(fn, fr, c[0], p)
            return [p]
        if k == 'Assign':
            l = self.lv(fn, fr, c[0], p)
            if l is None:
                raise Undecided('assignment %s in %s' % (fn.text(n), fn.name))
            if x['op'] == '=':
                v = self.ev(fn, fr, c[1], p)
            else:
                v = self.binop(fn, n, x['op'][:-1], p.env.get(l), self.ev(fn, fr, c[1], p), w)
            p.env[l] = v
            p.val[key] = v
            return [p]
        if k == 'Un':
            op = x['op']
            if op in ('++', '--', 'post++', 'post--'):
                l = self.lv(fn, fr, c[0], p)
                old = p.env.get(l)
                if old is None:
                    raise Undecided(fn.text(n))
                new = add(old, K(old[1], 1), 1 if '+' in op else -1)
                p.env[l] = new
                p.val[key] = old if op.startswith('post') else new
                return [p]
            a = self.ev(fn, fr, c[0], p) if op != '!' else self.cond(fn, fr, c[0], p)
            if op == '!':
                p.val[key] = neg(a)
            elif op == '-':
                p.val[key] = mul(a, K(a[1], -1))
            elif op == '~':
                p.val[key] = add(K(a[1], -1), a, -1)
            elif op == '+':
                p.val[key] = a
            else:
                raise Undecided(fn.text(n))
            return [p]
        if k == 'Bin':
            op = x['op']
            if op in ('&&', '||'):
                p.val[key] = self.cond(fn, fr, n, p)
                return [p]
            if op == ',':
                p.val[key] = self.ev(fn, fr, c[1], p)
                return [p]
            a, b = self.ev(fn, fr, c[0], p), self.ev(fn, fr, c[1], p)
            p.val[key] = self.binop(fn, n, op, a, b, w, bool(fn.T(c[0]).get('sg')))
            return [p]
        if k == 'Cond':
            # the arm evaluated on this path is the one with a value recorded after the condition was assumed
            cv = self.cond(fn, fr, c[0], p)
            if isinstance(cv, bool):
                p.val[key] = self.ev(fn, fr, c[1] if cv else c[2], p)
                return [p]
            a, t = cv
            if (a, t) in p.conds:
                p.val[key] = self.ev(fn, fr, c[1], p)
            elif (a, not t) in p.conds:
                p.val[key] = self.ev(fn, fr, c[2], p)
            else:
                raise Undecided(fn.text(n))
            return [p]
        if k == 'Call':
            return self.call(fn, fr, n, x, c, p, w)
        if k in ('InitList', 'Ctor'):
            return [p]
        if k == 'ExprWithCleanups' or k == 'MaterializeTemporaryExpr':
            if c:
                v = p.val.get((fr, c[0]))
                if v is not None:
                    p.val[key] = v
            return [p]
        raise Undecided('%s (%s) in %s' % (fn.text(n), k, fn.name))

    def fields(self, fn, T):
        r = self.prog_of(fn).records.get(T.get('s', '').replace('const ', ''))
        return [f['name'] for f in r['fields']] if r else []

    def prog_of(self, fn):
        return fn.prog

    def binop(self, fn, n, op, a, b, w, sg=False):
        if not (isinstance(a, tuple) and a and a[0] == 'P' and isinstance(b, tuple) and b and b[0] == 'P'):
            raise Undecided('%s in %s' % (fn.text(n), fn.name))
        if op in ('<<', '>>'):
            if w is not None and a[1] != w:
                a = conv(a, w)
            r = shl(a, b) if op == '<<' else shr(a, b)
            if r is None:
                raise Undecided('shift %s' % fn.text(n))
            return r
        if a[1] != b[1]:
            m = max(a[1], b[1])
            a, b = conv(a, m), conv(b, m)
        if op == '+':
            return add(a, b)
        if op == '-':
            return add(a, b, -1)
        if op == '*':
            return mul(a, b)
        if op == '|':
            return orv(a, b)
        if op in ('&', '^'):
            return bitop(op, a, b)
        if op in ('/', '%'):
            x, y = cst(a), cst(b)
            if x is not None and y:
                return K(a[1], x // y if op == '/' else x % y)
            return atom(a[1], (op, a, b))
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return neg(lt(b, a))
        if op == '>=':
            return neg(lt(a, b))
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return neg(eq(a, b))
        raise Undecided(op)

    def call(self, fn, fr, n, x, c, p, w):
        fq = x.get('fq', '')
        nm = fq.split('::')[-1]
        key = (fr, n)
        if nm in ('__builtin_clzll', '__builtin_clzl', '__builtin_clz', '__builtin_ctzll', '__builtin_popcountll'):
            p.val[key] = atom(32, (nm, self.ev(fn, fr, c[-1], p)))
            return [p]
        if nm == 'swap' and len(c) == 2:
            a, b = self.lv(fn, fr, c[0], p), self.lv(fn, fr, c[1], p)
            if a is None or b is None:
                raise Undecided(fn.text(n))
            p.env[a], p.env[b] = p.env[b], p.env[a]
            return [p]
        if nm in ('move', 'forward') and len(c) == 1:
            p.val[key] = self.ev(fn, fr, c[0], p)
            return [p]
        if nm in ('min', 'max') and len(c) == 2:
            a, b = self.ev(fn, fr, c[0], p), self.ev(fn, fr, c[1], p)
            out = []
            for t in (True, False):
                q = p.copy()
                if q.assume(lt(b, a) if nm == 'min' else lt(a, b), t):
                    q.val[key] = b if t else a
                    out.append(q)
            return out
        g = fn.prog.fns.get(x.get('f'))
        if g is None or not g.blocks or not self.want(g):
            raise Undecided('call of %s in %s' % (nm, fn.name))
        if self.headers(g):
            raise Undecided('loop in %s' % g.name)
        self.frames += 1
        if self.frames > 3000:
            raise Undecided('recursion')
        f2 = ('f', fn.name, n, fr)
        q = p.copy()
        args = c
        if x.get('obj'):
            l = 'this' if fn.nodes[c[0]]['k'] == 'This' else self.lv(fn, fr, c[0], p)
            if fn.nodes[c[0]]['k'] == 'This':
                l = p.env.get(('this', fr), 'this')
            q.env[('this', f2)] = l
            args = c[1:]
        for d, a in zip(g.params, args):
            T = g.prog.T(g.vars[d]['t'])
            if T.get('ref'):
                l = self.lv(fn, fr, a, p)
                if l is None or l not in p.env and not any(isinstance(k, tuple) and len(k) == 2 and k[0] == l for k in p.env):
                    q.env[(f2, d)] = self.ev(fn, fr, a, p)
                else:
                    q.env[('ref', f2, d)] = l
            else:
                v = self.ev(fn, fr, a, p)
                if T.get('int') and isinstance(v, tuple) and v[0] == 'P' and v[1] != T['int']:
                    v = conv(v, T['int'], bool(fn.T(a).get('sg')))
                q.env[(f2, d)] = v
        out = []
        for r, o in self.blocks(g, f2, g.entry, q, set(), True):
            if o[1] is not None:
                r.val[key] = o[1]
            out.append(r)
        return out


def env0_vars(fr, wr):
    return {(fr, d) for d in wr}


# ------------------------------------------------------------ comparison
def compat(a, b):
    return not any((x, not t) in b for x, t in a)


def outcomes(res, outs, ret=True):
    """[(conds, tuple of values)]"""
    r = []
    for p, o in res:
        if o[0] == 'ret':
            r.append((p.conds, ('ret', o[1] if ret else None) + tuple(p.env.get(k) for k in outs)))
        else:
            r.append((p.conds, o))
    return r


def same(A, B):
    """outcome sets agree wherever their conditions are compatible"""
    if not A or not B:
        return False
    for ca, oa in A:
        m = False
        for cb, ob in B:
            if compat(ca, cb):
                m = True
                if oa != ob:
                    return False
        if not m:
            return False
    return True


def rename(v, m):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'loop':
            return ('loop', m.get(v[1], v[1]))
        if len(v) == 3 and v[0] == 'P':
            d = {}
            for k, c in v[2]:
                q = tuple(sorted((rename(a, m) for a in k), key=repr))
                d[q] = d.get(q, 0) + c
            return mk(v[1], d)
        r = tuple(rename(a, m) for a in v)
        if r and r[0] in ('or', '&', '^') and len(r) == 3:
            r = (r[0],) + tuple(sorted(r[1:], key=repr))
        if r and r[0] == '==' and len(r) == 2:
            e = mul(r[1], K(r[1][1], -1))
            r = ('==', r[1] if repr(r[1]) < repr(e) else e)
        return r
    if isinstance(v, frozenset):
        return frozenset(rename(a, m) for a in v)
    return v


def symbols(v, acc):
    if isinstance(v, (tuple, frozenset)):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'loop':
            acc.add(v[1])
        else:
            for a in v:
                symbols(a, acc)
    return acc


def loop_form(res, res2, outs):
    """(direct outcomes, entry [(conds, env)], body [(conds, env)], exits [(conds, outcome)], relevant variables)"""
    direct = [(p.conds, ('ret', o[1]) + tuple(p.env.get(k) for k in outs)) for p, o in res if o[0] == 'ret']
    entry = [(p.conds, p.env) for p, o in res if o[0] == 'head']
    body = [(p.conds, p.env) for p, o in res2 if o[0] == 'head']
    exits = [(p.conds, ('ret', o[1]) + tuple(p.env.get(k) for k in outs)) for p, o in res2 if o[0] == 'ret']
    rel = set()
    for c, o in exits:
        symbols(c, rel)
        symbols(o, rel)
    for c, e in body:
        symbols(c, rel)
    while True:
        n = set(rel)
        for c, e in body:
            for k in rel:
                symbols(e.get(k), n)
        if n == rel:
            break
        rel = n
    return direct, entry, body, exits, sorted(rel, key=repr)


def same_loop(A, B):
    da, ea, ba, xa, ra = A
    db, eb, bb, xb, rb = B
    if len(ra) != len(rb) or bool(da) != bool(db) or da and not same(da, db):
        return False
    for perm in itertools.permutations(rb):
        m = dict(zip(ra, perm))
        inv = [(a, m[a]) for a in ra]
        A1 = [(c, tuple(e.get(a) for a, _ in inv)) for c, e in ea]
        B1 = [(c, tuple(e.get(b) for _, b in inv)) for c, e in eb]
        if not same(A1, B1):
            continue
        A2 = [(rename(c, m), tuple(rename(e.get(a), m) for a, _ in inv)) for c, e in ba]
        B2 = [(c, tuple(e.get(b) for _, b in inv)) for c, e in bb]
        if not same(A2, B2):
            continue
        A3 = [(rename(c, m), rename(o, m)) for c, o in xa]
        if same(A3, xb):
            # body and exit conditions must exclude each other alike
            if same([(c, ('go',)) for c, _ in A2] + [(c, ('stop',)) for c, _ in A3], [(c, ('go',)) for c, _ in B2] + [(c, ('stop',)) for c, _ in xb]):
                return True
    return False


# ------------------------------------------------------------ reference kernels
_ref = None


def reference():
    """functions of driver/ref_kernels.cc by name"""
    global _ref
    if _ref is not None:
        return _ref
    r = subprocess.run(['bash', ir.VERIF + '/tools/build.sh'], capture_output=True, text=True)
    if r.returncode != 0:
        raise ir.AnalysisBroken('cannot build the extractor')
    os.makedirs(ir.VERIF + '/build/ir', exist_ok=True)
    with tempfile.TemporaryDirectory(dir=ir.VERIF + '/build/ir') as td:
        r = subprocess.run([ir.VERIF + '/tools/bin/extract', ir.VERIF + '/driver/', td + '/ref.json', ir.VERIF + '/driver/ref_kernels.cc', '--', '-std=gnu++17', '-w'], capture_output=True, text=True)
        if r.returncode != 0:
            raise ir.AnalysisBroken('cannot read the reference kernels')
        data = [json.loads(l) for l in open(td + '/ref.json')]
    p = ir.Program.__new__(ir.Program)
    p.cfg, p.types, p.records, p.globals, p.fns, p.templates = 'ref', data[-1]['types'], data[-1]['records'], data[-1]['globals'], {}, []
    for o in data:
        if 'fn' in o:
            f = ir.Fn(o['fn'], p)
            p.fns[f.key] = f
    p._byqn = {}
    _ref = {f.name: f for f in p.fns.values()}
    return _ref


def evaluate(fn, binding, outs):
    """binding: list of (lvalue, width, symbol); outs: lvalues read at the end (relative to frame ('f',0))"""
    ev = Eval(fn.prog)
    ev.frames = 0
    env = {}
    for l, w, s in binding:
        env[l] = atom(w, ('in', s))
    res, res2, fr = ev.function(fn, env)
    if res2 is None:
        return ('flat', outcomes(res, outs))
    return ('loop', loop_form(res, res2, outs))


def agree(A, B):
    if A[0] != B[0]:
        return False
    return same(A[1], B[1]) and same(B[1], A[1]) if A[0] == 'flat' else same_loop(A[1], B[1])


def certify(fn, binding, outs, prefix, names, refouts=(), perms=()):
    """(True, name) when fn has the outcome of one of the reference kernels prefix_* (parameters in the order names); perms: pairs of symbols that may be exchanged"""
    try:
        A = evaluate(fn, binding, outs)
    except Undecided as e:
        return None, str(e)
    R = reference()
    for k in sorted(R):
        if not k.startswith(prefix + '_'):
            continue
        g = R[k]
        for ex in [()] + list(perms):
            m = {ex[0]: ex[1], ex[1]: ex[0]} if ex else {}
            b = []
            o2 = []
            for d, s in zip(g.params, names):
                T = g.prog.T(g.vars[d]['t'])
                b.append(((('f', 0), d), T['int'], m.get(s, s)))
                if s in refouts:
                    o2.append((('f', 0), d))
            o2.sort(key=lambda l: refouts.index(names[g.params.index(l[1])]))
            B = evaluate(g, b, o2)
            if agree(A, B):
                return True, k
    return False, 'its value graph differs from the proved kernel'


F0 = ('f', 0)


def params_of(fn, names):
    """binding of the parameters of fn to the symbols in names"""
    return [((F0, d), fn.prog.T(fn.vars[d]['t']).get('int') or fn.prog.T(fn.prog.T(fn.vars[d]['t']).get('to')).get('int') or 64, s) for d, s in zip(fn.params, names)]


def members(width, **k):
    return [(('this', a), width.get(a, 64), b) for a, b in k.items()]


def report(rep, fn, what, result, counter='kernels_certified'):
    """result of certify: a kernel that differs is a violation, one that could not be evaluated is noted and not judged"""
    ok, why = result
    rep.count('kernels')
    if ok:
        rep.count(counter)
    elif ok is None:
        rep.notes.append('%s: not evaluated (%s)' % (fn.qn, why))
    else:
        rep.violation('%s|kernel' % fn.qn, '%s: %s does not compute %s: %s' % (fn.loc(), fn.qn, what, why))
