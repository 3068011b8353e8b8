"""Abstract interpreter for the scalar number layer (ZZ, Zp helpers).

Domain: disjunctions of abstract states. An integer value is a set of intervals plus an optional value number (a linear
form over atoms); an mpz object has a life-cycle status and a content value; a pointer is null or points to one abstract
heap object. Calls to functions of the analysed layer are inlined, GMP calls and builtins have transfer functions, loops
are widened. Nothing is executed and no path is handed to a solver.
"""
import itertools
INF = float('inf')
M64 = 1 << 64
I64 = (-(1 << 63), (1 << 63) - 1)


# ------------------------------------------------------------------ interval sets
def norm(iv):
    iv = sorted((a, b) for a, b in iv if a <= b)
    out = []
    for a, b in iv:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    if len(out) > 6:
        out = [(out[0][0], out[-1][1])]
    return tuple(out)


def meet(x, y):
    return norm([(max(a, c), min(b, d)) for a, b in x for c, d in y])


def join(x, y):
    return norm(list(x) + list(y))


def lo(x):
    return x[0][0]


def hi(x):
    return x[-1][1]


def subset(x, y):
    return meet(x, y) == norm(x)


def mulb(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def s_add(x, y):
    return norm([(a + c, b + d) for a, b in x for c, d in y])


def s_neg(x):
    return norm([(-b, -a) for a, b in x])


def s_mul(x, y):
    r = []
    for a, b in x:
        for c, d in y:
            p = [mulb(a, c), mulb(a, d), mulb(b, c), mulb(b, d)]
            r.append((min(p), max(p)))
    return norm(r)


def tdiv(a, b):
    if a in (INF, -INF):
        return a if b > 0 else -a
    if b in (INF, -INF):
        return 0
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b > 0) else -q


def s_tdiv(x, y):
    r = []
    for c, d in meet(y, ((-INF, -1),)) + meet(y, ((1, INF),)):
        for a, b in x:
            p = [tdiv(u, v) for u in (a, b) for v in (c, d)]
            if a <= 0 <= b:
                p.append(0)
            r.append((min(p), max(p)))
    return norm(r)


def s_tmod(x, y):
    y = [(c, d) for c, d in y]
    m = max([max(abs(c), abs(d)) for c, d in y] or [1])
    r = []
    for a, b in x:
        l = 0 if a >= 0 else max(a, -(m - 1))
        h = 0 if b <= 0 else min(b, m - 1)
        r.append((l, h))
    return norm(r)


# ------------------------------------------------------------------ value numbers: linear forms
def L(atom):
    return (0, ((atom, 1),))


def C(k):
    return (k, ())


def l_add(x, y, s=1):
    if x is None or y is None:
        return None
    d = dict(x[1])
    for a, c in y[1]:
        d[a] = d.get(a, 0) + s * c
    return (x[0] + s * y[0], tuple(sorted(((a, c) for a, c in d.items() if c), key=repr)))


def l_scale(x, k):
    if x is None:
        return None
    if k == 0:
        return C(0)
    return (x[0] * k, tuple((a, c * k) for a, c in x[1]))


def l_mul(x, y):
    if x is None or y is None:
        return None
    if not x[1]:
        return l_scale(y, x[0])
    if not y[1]:
        return l_scale(x, y[0])
    return L(('mul',) + tuple(sorted((x, y), key=repr)))


def l_op(name, *args):
    if any(a is None for a in args):
        return None
    return L((name,) + args)


def _lead_neg(x):
    return bool(x[1]) and x[1][0][1] < 0 or not x[1] and x[0] < 0


def mk_tdiv(a, b):
    """truncated quotient, normalised so that equal quotients up to sign share one atom"""
    if a is None or b is None:
        return None
    if a == b:
        return C(1)
    s = 1
    if _lead_neg(a):
        a, s = l_scale(a, -1), -s
    if _lead_neg(b):
        b, s = l_scale(b, -1), -s
    return l_scale(L(('tdiv', a, b)), s)


def mk_tmod(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return C(0)
    s = 1
    if _lead_neg(a):
        a, s = l_scale(a, -1), -1
    if _lead_neg(b):
        b = l_scale(b, -1)
    return l_scale(L(('tmod', a, b)), s)


def l_const(x):
    return x is not None and not x[1]


class Int:
    __slots__ = ('s', 'n')

    def __init__(self, s, n=None):
        self.s = s
        self.n = n
        if n is not None and not n[1]:
            self.s = ((n[0], n[0]),)

    def __repr__(self):
        return 'Int(%s,%s)' % (self.s, self.n)

    def key(self):
        return ('I', self.s, self.n)


def K(k):
    return Int(((k, k),), C(k))


class Ptr:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Ptr(%s)' % (self.t,)

    def key(self):
        return ('P', self.t)


class LV:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'LV(%s)' % (self.p,)

    def key(self):
        return ('L', self.p)


class Mpz:
    __slots__ = ('st', 'c')

    def __init__(self, st, c):
        self.st = st
        self.c = c

    def __repr__(self):
        return 'Mpz(%s,%s)' % (self.st, self.c)

    def key(self):
        return ('M', self.st, self.c.key())


class Top:
    def key(self):
        return ('T',)

    def __repr__(self):
        return 'Top'


TOP = Top()


def rng(ty):
    if ty.get('bool'):
        return ((0, 1),)
    b = ty.get('int')
    if not b:
        return ((-INF, INF),)
    if ty.get('sg'):
        return ((-(1 << (b - 1)), (1 << (b - 1)) - 1),)
    return ((0, (1 << b) - 1),)


class State:
    __slots__ = ('mem', 'tmp', 'sym', 'sgn', 'ge', 'frame')

    def __init__(self):
        self.mem = {}
        self.tmp = {}
        self.sym = {}      # atom -> interval set
        self.sgn = {}      # linear form -> set of signs
        self.ge = []       # linear forms known >= 0
        self.frame = 0

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.tmp = dict(self.tmp)
        s.sym = dict(self.sym)
        s.sgn = dict(self.sgn)
        s.ge = list(self.ge)
        s.frame = self.frame
        return s

    # range of a linear form
    def range(self, n):
        if n is None:
            return ((-INF, INF),)
        r = ((n[0], n[0]),)
        for a, c in n[1]:
            r = s_add(r, s_mul(self.sym.get(a, ((-INF, INF),)), ((c, c),)))
        return r

    def signs(self, n):
        """possible signs of linear form n"""
        r = meet(self.range(n), ((-INF, INF),))
        s = set()
        if meet(r, ((-INF, -1),)):
            s.add(-1)
        if meet(r, ((0, 0),)):
            s.add(0)
        if meet(r, ((1, INF),)):
            s.add(1)
        if n in self.sgn:
            s &= self.sgn[n]
        m = l_scale(n, -1)
        if m in self.sgn:
            s &= {-x for x in self.sgn[m]}
        if self.ge:
            if -1 in s and self.prove_ge(n):
                s.discard(-1)
            if 1 in s and self.prove_ge(m):
                s.discard(1)
            if s == {0, 1} and self.prove_ge(l_add(n, C(-1))):
                s.discard(0)
            if s == {0, -1} and self.prove_ge(l_add(m, C(-1))):
                s.discard(0)
        return s

    def prove_ge(self, n):
        """n >= 0 follows from ranges, or from a sum of at most three recorded inequalities"""
        if n is None:
            return False
        if lo(self.range(n)) >= 0:
            return True
        g = [x for x in self.ge]
        for k in (1, 2, 3):
            for comb in (itertools.combinations_with_replacement(g, k) if k == 2 else itertools.combinations(g, k)):
                d = n
                for x in comb:
                    d = l_add(d, x, -1)
                if lo(self.range(d)) >= 0:
                    return True
        return False

    def add_ge(self, n):
        if n is not None and n[1] and n not in self.ge:
            self.ge.append(n)


class Alarm(Exception):
    pass


class Interp:
    """owner supplies: prog, inline(fn)->bool, alarm(kind, fn, node, text)"""

    def __init__(self, prog, inline, alarm, maxpaths=6000, opaque=()):
        self.prog = prog
        self.inline = inline
        self.alarm = alarm
        self.fresh = 0
        self.maxpaths = maxpaths
        self.opaque = set(opaque)
        self.stats = {'paths': 0, 'calls': 0, 'arith': 0, 'divs': 0, 'gmp': 0}
        self.stack = []

    def new(self, tag):
        self.fresh += 1
        return '%s#%d' % (tag, self.fresh)

    # ---------------------------------------------------------- memory
    def read(self, st, p, ty=None):
        if p in st.mem:
            return st.mem[p]
        return TOP

    def rv(self, st, v, ty=None):
        if isinstance(v, LV):
            return self.read(st, v.p)
        return v

    def as_int(self, st, v, ty):
        v = self.rv(st, v)
        if isinstance(v, Int):
            if v.n is not None and v.n[1]:
                s = meet(v.s, st.range(v.n))
                return Int(s if s else v.s, v.n)
            return v
        if isinstance(v, Ptr):
            return K(0) if v.t is None else K(1)
        return Int(rng(ty))

    def write(self, st, p, v):
        st.mem[p] = v

    def copyobj(self, st, dst, src):
        for q in list(st.mem):
            if q[:len(src)] == src:
                st.mem[dst + q[len(src):]] = st.mem[q]

    # ---------------------------------------------------------- driver
    def run(self, fn, st, binds, this=None):
        """binds: var id -> value (LV for references). returns list of (state, retvalue, how)"""
        if len(self.stack) > 8 or self.stack.count(fn.key) > 1:
            return [(st, TOP, 'return')]
        self.stack.append(fn.key)
        saved_tmp, saved_frame = st.tmp, st.frame
        st = st.copy()
        st.tmp = {}
        self.fresh += 1
        st.frame = myframe = self.fresh
        st.mem[('F', st.frame, 'this')] = this if this is not None else TOP
        for d, v in binds.items():
            ty = self.prog.T(fn.vars[d]['t'])
            if ty.get('ref'):
                st.mem[('R', st.frame, d)] = v
            else:
                st.mem[('V', st.frame, d)] = v if not isinstance(v, LV) else self.rv(st, v)
                if isinstance(v, LV) and self.rv(st, v) is TOP or isinstance(v, LV) and v.p not in st.mem:
                    # class object passed by value
                    self.copyobj(st, ('V', st.frame, d), v.p)
        outs = []
        heads = self.loopheads(fn)
        acc = {}
        work = [(fn.entry, st)]
        n = 0
        while work:
            b, s = work.pop()
            n += 1
            if n > self.maxpaths:
                self.alarm('budget', fn, None, 'analysis budget exceeded')
                break
            if b in heads:
                s2 = self.loop_join(fn, b, s, acc)
                if s2 is None:
                    continue
                s = s2
            blk = fn.blocks[b]
            states = [s]
            how = None
            ret = [None]
            results = []
            stack = [(s, 0)]
            while stack:
                cs, i = stack.pop()
                els = blk['e']
                done = False
                while i < len(els):
                    e = els[i]
                    i += 1
                    if isinstance(e, dict):
                        r = self.init_field(fn, cs, e)
                    else:
                        k = fn.nodes[e]['k']
                        if k == 'Return':
                            c = fn.nodes[e].get('c', [])
                            v = None
                            if c and c[0] >= 0:
                                v = cs.tmp.get(c[0], TOP)
                                rt = self.prog.T(fn.o['ret'])
                                if not rt.get('ref'):
                                    v0 = self.rv(cs, v)
                                    if isinstance(v, LV) and not isinstance(v0, (Int, Ptr)):
                                        v0 = v
                                    v = v0
                            results.append((cs, v, 'return'))
                            done = True
                            break
                        if k == 'Throw':
                            results.append((cs, None, 'throw'))
                            done = True
                            break
                        r = self.eval(fn, cs, e)
                    if len(r) == 0:
                        done = True
                        break
                    cs = r[0]
                    for o in r[1:]:
                        stack.append((o, i))
                if done:
                    continue
                if blk.get('nr'):
                    continue
                succ = blk['s']
                if not succ or b == fn.exit:
                    results.append((cs, None, 'return'))
                elif len(succ) == 1:
                    if succ[0] >= 0:
                        work.append((succ[0], cs))
                elif 'cond' in blk and len(succ) == 2:
                    cv = cs.tmp.get(blk['cond'])
                    cn = fn.nodes[blk['cond']]
                    iv = self.as_int(cs, cv, fn.T(blk['cond'])) if cv is not None else (K(int(cn['v'])) if 'v' in cn else Int(((0, 1),)))
                    isnz = meet(iv.s, ((-INF, -1), (1, INF)))
                    isz = meet(iv.s, ((0, 0),))
                    both = bool(isnz) and bool(isz)
                    if isz and succ[1] >= 0:
                        t = cs.copy() if both else cs
                        self.assume(fn, t, blk['cond'], False)
                        t.tmp[blk['cond']] = K(0)
                        work.append((succ[1], t))
                    if isnz and succ[0] >= 0:
                        t = cs.copy() if both else cs
                        self.assume(fn, t, blk['cond'], True)
                        t.tmp[blk['cond']] = K(1)
                        work.append((succ[0], t))
                else:
                    for x in succ:
                        if x >= 0:
                            work.append((x, cs.copy()))
            outs.extend(results)
        self.stats['paths'] += len(outs)
        self.stack.pop()
        for s, v, h in outs:
            s.tmp = dict(saved_tmp)
            s.frame = saved_frame
        self.lastframe = myframe
        return outs

    def loopheads(self, fn):
        if not hasattr(fn, '_heads'):
            order = {b: i for i, b in enumerate(fn.rpo())}
            h = set()
            for b in fn.blocks.values():
                for s in b['s']:
                    if s >= 0 and b['id'] in order and order.get(s, 1 << 30) <= order[b['id']]:
                        h.add(s)
            fn._heads = h
        return fn._heads

    THR = sorted({-(1 << 127), -(1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, -(1 << 31), -1, 0, 1, 2, 63, 64, (1 << 31) - 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 127})

    phi = False

    def loop_join(self, fn, b, s, acc):
        shape = (b, s.frame, tuple(sorted(((k, v.key()) for k, v in s.mem.items() if not isinstance(v, (Int, Mpz))), key=repr)))
        if shape not in acc:
            acc[shape] = [s.copy(), 1]
            return s
        o, n = acc[shape]
        j = s.copy()
        changed = False
        phis = []
        for k in list(o.mem):
            v, w = o.mem[k], s.mem.get(k)
            if isinstance(v, Int) and isinstance(w, Int):
                u = join(v.s, w.s)
                if u != v.s:
                    changed = True
                    if n >= 2:
                        l, h = lo(u), hi(u)
                        if l < lo(v.s):
                            l = max([t for t in self.THR if t <= l], default=-INF)
                        if h > hi(v.s):
                            h = min([t for t in self.THR if t >= h], default=INF)
                        u = ((l, h),)
                nn = v.n if v.n == w.n else None
                if nn is None and v.n is not None and w.n is not None and self.phi:
                    # different values meet: a fresh value, with the relations to the loop-invariant values that both obey
                    nn = L(('phi', fn.key, b, s.frame, k))
                    phis.append((nn, v, w, k))
                    j.sym[nn[1][0][0]] = u
                if nn != v.n:
                    changed = True
                j.mem[k] = Int(u, nn)
            elif isinstance(v, Mpz) and isinstance(w, Mpz):
                u = join(v.c.s, w.c.s)
                nn = v.c.n if v.c.n == w.c.n else None
                if u != v.c.s or nn != v.c.n:
                    changed = True
                    u = u if n < 2 else ((-INF, INF),)
                j.mem[k] = Mpz(v.st if v.st == w.st else 'mixed', Int(u, nn))
            elif w is None:
                j.mem.pop(k, None)
        for a in list(j.sym):
            if any(a == f[0][1][0][0] for f in phis):
                if o.sym.get(a) != j.sym[a]:
                    changed = True
            elif a in o.sym:
                u = join(o.sym[a], j.sym[a])
                if u != o.sym[a]:
                    changed = True
                j.sym[a] = u
            else:
                j.sym.pop(a)
        mine = set(f[0][1][0][0] for f in phis)
        about = lambda x: any(a in mine for a, c in x[1])
        g = [x for x in j.ge if x in o.ge and not about(x)]
        for nn, v, w, k in phis:
            a = nn[1][0][0]
            if v.n == nn:
                cand = [x for x in o.ge if any(y == a for y, c in x[1])]
            else:
                inv = []
                for q, z in o.mem.items():
                    if q != k and isinstance(z, Int) and z.n is not None and isinstance(s.mem.get(q), Int) and s.mem[q].n == z.n and z.n not in inv:
                        inv.append(z.n)
                cand = [nn]
                for z in inv:
                    cand += [l_add(z, nn, -1), l_add(l_add(z, C(-1)), nn, -1), l_add(nn, z, -1)]
            for x in cand:
                sub = lambda f: l_add(l_add(x, nn, -dict(x[1])[a]), l_scale(f, dict(x[1])[a]))
                if a in dict(x[1]) and o.prove_ge(sub(v.n)) and s.prove_ge(sub(w.n)) and x not in g:
                    g.append(x)
        if set(g) != set(o.ge):
            changed = True
        j.ge = g
        d = {k: v | o.sgn[k] for k, v in j.sgn.items() if k in o.sgn}
        if d != o.sgn:
            changed = True
        j.sgn = d
        if not changed or n > 40:
            return None
        acc[shape] = [j.copy(), n + 1]
        return j

    def init_field(self, fn, st, e):
        if 'field' in e:
            this = st.mem[('F', st.frame, 'this')]
            v = st.tmp.get(e.get('i', -1), TOP)
            if isinstance(this, Ptr) and this.t:
                p = this.t + (e['field'],)
                i = e.get('i', -1)
                if i >= 0 and fn.nodes[i]['k'] == 'CXXNullPtrLiteralExpr':
                    v = Ptr(None)
                x = self.rv(st, v)
                if isinstance(v, LV) and not isinstance(x, (Int, Ptr)):
                    self.copyobj(st, p, v.p)
                else:
                    self.write(st, p, x)
        elif e.get('i', -1) >= 0:
            # delegating constructor: the object built by the target is this object
            this, v = st.mem[('F', st.frame, 'this')], st.tmp.get(e['i'], TOP)
            if isinstance(this, Ptr) and this.t and isinstance(v, LV):
                self.copyobj(st, this.t, v.p)
                for k in [k for k in st.mem if k[:len(v.p)] == v.p]:
                    del st.mem[k]
        return [st]

    # ---------------------------------------------------------- assumptions
    def assume(self, fn, st, n, truth):
        v = st.tmp.get(n)
        if isinstance(v, LV):
            x = self.rv(st, v)
            if isinstance(x, Int):
                s = meet(x.s, ((-INF, -1), (1, INF))) if truth else meet(x.s, ((0, 0),))
                if s:
                    self.refine_place(st, v, s)
        elif isinstance(v, Int) and v.n is not None:
            self.refine_sym(st, v.n, meet(v.s, ((-INF, -1), (1, INF))) if truth else ((0, 0),))

    def refine_place(self, st, v, s):
        x = self.rv(st, v)
        if isinstance(v, LV) and isinstance(x, Int):
            ns = meet(x.s, s)
            st.mem[v.p] = Int(ns if ns else x.s, x.n)
            x = st.mem[v.p]
        if isinstance(x, Int) and x.n is not None:
            self.refine_sym(st, x.n, meet(x.s, s))

    def refine_sym(self, st, n, s):
        """value number n lies in s"""
        if n is None or not s:
            return
        if len(n[1]) == 1 and n[1][0][1] in (1, -1):
            a, c = n[1][0]
            t = s_add(s, ((-n[0], -n[0]),))
            if c < 0:
                t = s_neg(t)
            cur = st.sym.get(a, ((-INF, INF),))
            m = meet(cur, t)
            if m:
                st.sym[a] = m
            if isinstance(a, tuple) and a and a[0] == 'sgn' and c == 1 and n[0] == 0:
                sg = st.signs(a[1])
                keep = {k for k in sg if meet(m or t, ((-INF, -1),) if k < 0 else ((0, 0),) if k == 0 else ((1, INF),))}
                if keep:
                    self.set_signs(st, a[1], keep)
        else:
            sg = set()
            if meet(s, ((-INF, -1),)):
                sg.add(-1)
            if meet(s, ((0, 0),)):
                sg.add(0)
            if meet(s, ((1, INF),)):
                sg.add(1)
            cur = st.signs(n)
            self.set_signs(st, n, (cur & sg) or sg)
            if lo(s) not in (-INF,):
                st.add_ge(l_add(n, C(-lo(s))))
            if hi(s) not in (INF,):
                st.add_ge(l_add(C(hi(s)), n, -1))

    def set_signs(self, st, n, sg):
        st.sgn[n] = set(sg)
        if sg <= {0, 1}:
            st.add_ge(n if 0 in sg else l_add(n, C(-1)))
        if sg <= {0, -1}:
            m = l_scale(n, -1)
            st.add_ge(m if 0 in sg else l_add(m, C(-1)))
        # single atom: refine its range
        if len(n[1]) == 1 and n[1][0][1] in (1, -1):
            a, c = n[1][0]
            if isinstance(a, tuple) and len(a) == 3 and a[0] == 'tmod' and n[0] == 0 and 0 not in sg and a[1] is not None and a[2] is not None:
                # a non-zero remainder: the divisor is none of -1, 0, 1, which also bounds the quotient
                self.refine_sym(st, a[2], meet(st.range(a[2]), ((-INF, -2), (2, INF))))
                if len(sg) == 1:
                    self.refine_sym(st, a[1], meet(st.range(a[1]), ((1, INF),) if list(sg)[0] * c > 0 else ((-INF, -1),)))
                q = ('tdiv', a[1], a[2])
                if q in st.sym:
                    m = meet(st.sym[q], s_tdiv(st.range(a[1]), st.range(a[2])))
                    if m:
                        st.sym[q] = m
            if isinstance(a, tuple) and a and a[0] == 'sgn':
                return
            t = []
            if -1 in sg:
                t.append((-INF, -1))
            if 0 in sg:
                t.append((0, 0))
            if 1 in sg:
                t.append((1, INF))
            t = s_add(norm(t), ((-n[0], -n[0]),))
            if c < 0:
                t = s_neg(t)
            m = meet(st.sym.get(a, ((-INF, INF),)), t)
            if m:
                st.sym[a] = m

    # ---------------------------------------------------------- evaluation
    def eval(self, fn, st, n):
        x = fn.nodes[n]
        k = x['k']
        m = getattr(self, 'ev_' + k, None)
        if 'v' in x and k not in ('Assign', 'Call', 'Ref', 'Mem'):
            st.tmp[n] = K(int(x['v']))
            return [st]
        if m is None:
            if 'v' in x:
                st.tmp[n] = K(int(x['v']))
            else:
                st.tmp[n] = TOP
            return [st]
        return m(fn, st, n, x)

    def kid(self, fn, st, n, i=0):
        c = fn.nodes[n].get('c', [])
        if i >= len(c) or c[i] < 0:
            return TOP
        y = c[i]
        if y in st.tmp:
            return st.tmp[y]
        z = fn.nodes[y]
        if 'v' in z:
            return K(int(z['v']))
        if z['k'] == 'CXXNullPtrLiteralExpr':
            return Ptr(None)
        return TOP

    def ev_CXXNullPtrLiteralExpr(self, fn, st, n, x):
        st.tmp[n] = Ptr(None)
        return [st]

    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_Ref(self, fn, st, n, x):
        v = fn.vars[x['d']]
        ty = self.prog.T(v['t'])
        if v['k'] in ('global', 'enumc', 'staticlocal'):
            st.tmp[n] = K(int(x['v'])) if 'v' in x else LV(('G', v.get('qn', v['n'])))
            return [st]
        if ty.get('ref'):
            r = st.mem.get(('R', st.frame, x['d']))
            st.tmp[n] = r if r is not None else TOP
        else:
            st.tmp[n] = LV(('V', st.frame, x['d']))
        return [st]

    def ev_This(self, fn, st, n, x):
        st.tmp[n] = st.mem.get(('F', st.frame, 'this'), TOP)
        return [st]

    def base_place(self, st, v, arrow):
        if isinstance(v, Ptr):
            return v.t
        if isinstance(v, LV):
            if arrow:
                w = self.rv(st, v)
                return w.t if isinstance(w, Ptr) else None
            return v.p
        return None

    def ev_Mem(self, fn, st, n, x):
        if x.get('fn'):
            st.tmp[n] = TOP
            return [st]
        if x.get('svar'):
            st.tmp[n] = LV(('G', x['svar']))
            return [st]
        b = self.base_place(st, self.kid(fn, st, n), x.get('arrow'))
        if b and x['n'] == '_mp_size' and isinstance(st.mem.get(b), Mpz):
            # the limb count carries the sign of the value
            v = self.mpzval(st, b)
            st.tmp[n] = self.sign_int(st, v.n) if v.n is not None else Int(rng(self.prog.T(x.get('t'))))
            return [st]
        st.tmp[n] = LV(b + (x['n'],)) if b else TOP
        return [st]

    def ev_Index(self, fn, st, n, x):
        st.tmp[n] = TOP
        return [st]

    def ev_InitList(self, fn, st, n, x):
        c = fn.kids(n)
        st.tmp[n] = self.kid(fn, st, n) if len(c) == 1 else TOP
        return [st]

    def ev_CXXFunctionalCastExpr(self, fn, st, n, x):
        return self.ev_Cast(fn, st, n, x)

    def ev_CXXStaticCastExpr(self, fn, st, n, x):
        return self.ev_Cast(fn, st, n, x)

    def wrapped(self, st, v, b, ty, r):
        n = l_op('wrap', v.n, C(b), C(1 if ty.get('sg') else 0)) if v.n is not None else None
        if n is not None:
            st.sym[n[1][0][0]] = r
        return Int(r, n)

    def convert(self, st, v, ty):
        """integer conversion of Int v to type ty"""
        if ty.get('bool'):
            nz, z = meet(v.s, ((-INF, -1), (1, INF))), meet(v.s, ((0, 0),))
            if not z:
                return K(1)
            if not nz:
                return K(0)
            return Int(((0, 1),), None)
        r = rng(ty)
        if subset(v.s, r):
            return v
        b = ty.get('int')
        if not b:
            return Int(v.s, v.n)
        m = 1 << b
        out = []
        ks = set()
        for a, c in v.s:
            if a in (-INF, INF) or c in (-INF, INF):
                return self.wrapped(st, v, b, ty, r)
            ka, kc = (a - lo(r)) // m, (c - lo(r)) // m
            if kc - ka > 4:
                return self.wrapped(st, v, b, ty, r)
            for kk in range(ka, kc + 1):
                l, h = max(a, lo(r) + kk * m), min(c, hi(r) + kk * m)
                if l <= h:
                    out.append((l - kk * m, h - kk * m))
                    ks.add(kk)
        nn = None
        if len(ks) > 1:
            return self.wrapped(st, v, b, ty, norm(out))
        if len(ks) == 1 and v.n is not None:
            nn = l_add(v.n, C(-ks.pop() * m))
        return Int(norm(out), nn)

    def ev_Cast(self, fn, st, n, x):
        v = self.kid(fn, st, n)
        ty = self.prog.T(x.get('t'))
        ck = x.get('ck')
        if ck in ('IntegralCast', 'IntegralToBoolean', 'PointerToBoolean', 'NoOp', 'BooleanToSignedIntegral'):
            w = self.rv(st, v)
            if isinstance(w, Ptr):
                st.tmp[n] = K(0 if w.t is None else 1) if ty.get('bool') else v
                return [st]
            if ck == 'NoOp' and not (ty.get('int') or ty.get('bool')):
                st.tmp[n] = v
                return [st]
            if isinstance(w, Int) or ty.get('int') or ty.get('bool'):
                iv = self.as_int(st, v, fn.T(fn.kids(n)[0]) if fn.kids(n) else ty)
                if ty.get('bool'):
                    return self.split_bool(fn, st, n, v, iv)
                return self.split_convert(st, n, iv, ty)
            st.tmp[n] = v
            return [st]
        if ck in ('ConstructorConversion', 'UserDefinedConversion', 'LValueToRValue', 'BitCast', 'DerivedToBase', 'NullToPointer'):
            st.tmp[n] = Ptr(None) if ck == 'NullToPointer' else v
            return [st]
        st.tmp[n] = v
        return [st]

    def split_convert(self, st, n, iv, ty):
        """conversion that wraps differently for different parts of the range: one disjunct per part"""
        r = rng(ty)
        b = ty.get('int')
        if subset(iv.s, r) or not b or lo(iv.s) in (INF, -INF) or hi(iv.s) in (INF, -INF):
            st.tmp[n] = self.convert(st, iv, ty)
            return [st]
        m = 1 << b
        out = []
        k0, k1 = (lo(iv.s) - lo(r)) // m, (hi(iv.s) - lo(r)) // m
        if k1 - k0 > 2:
            st.tmp[n] = self.convert(st, iv, ty)
            return [st]
        for kk in range(k0, k1 + 1):
            part = meet(iv.s, ((lo(r) + kk * m, hi(r) + kk * m),))
            if part and iv.n is not None and (st.prove_ge(l_add(C(lo(part) - 1), iv.n, -1)) or st.prove_ge(l_add(iv.n, C(-hi(part) - 1)))):
                continue
            if part:
                t = st.copy()
                if iv.n is not None:
                    self.refine_sym(t, iv.n, part)
                t.tmp[n] = self.convert(t, Int(part, iv.n), ty)
                out.append(t)
        return out

    def split_bool(self, fn, st, n, v, iv):
        nz, z = meet(iv.s, ((-INF, -1), (1, INF))), meet(iv.s, ((0, 0),))
        out = []
        for part, val in ((nz, 1), (z, 0)):
            if part:
                t = st.copy()
                if isinstance(v, LV):
                    self.refine_place(t, v, part)
                elif iv.n is not None:
                    self.refine_sym(t, iv.n, part)
                t.tmp[n] = K(val)
                out.append(t)
        return out

    def cond_value(self, fn, st, n):
        """1, 0 or None: the decided truth of a condition whose operands were evaluated as branches"""
        x = fn.nodes[n]
        if x['k'] == 'Bin' and x['op'] in ('&&', '||'):
            a = self.cond_value(fn, st, x['c'][0])
            if a is None:
                return None
            if (a == 0) == (x['op'] == '&&'):
                return a
            return self.cond_value(fn, st, x['c'][1])
        if x['k'] == 'Un' and x['op'] == '!':
            a = self.cond_value(fn, st, x['c'][0])
            return None if a is None else 1 - a
        v = st.tmp.get(n)
        if v is None:
            return (1 if int(x['v']) else 0) if 'v' in x else None
        iv = self.as_int(st, v, fn.T(n))
        if iv.s == ((0, 0),):
            return 0
        if not meet(iv.s, ((0, 0),)):
            return 1
        return None

    def ev_Cond(self, fn, st, n, x):
        t = self.cond_value(fn, st, x['c'][0])
        st.tmp[n] = TOP if t is None else self.kid(fn, st, n, 1 if t else 2)
        return [st]

    def arith(self, fn, st, n, op, a, b, ty, split=False):
        self.stats['arith'] += 1
        if op == '+':
            s, v = s_add(a.s, b.s), l_add(a.n, b.n)
        elif op == '-':
            s, v = s_add(a.s, s_neg(b.s)), l_add(a.n, b.n, -1)
        elif op == '*':
            s, v = s_mul(a.s, b.s), l_mul(a.n, b.n)
            for x, y in ((a, b), (b, a)):
                # (u / w) * w is u less the remainder: between zero and u
                t = x.n[1] if x.n is not None and x.n[0] == 0 else ()
                if len(t) == 1 and isinstance(t[0][0], tuple) and t[0][0][0] == 'tdiv' and y.n is not None and y.n in (t[0][0][2], l_scale(t[0][0][2], -1)):
                    u, w = t[0][0][1], t[0][0][2]
                    k = t[0][1] * (1 if y.n == w else -1)
                    rem = mk_tmod(u, w)
                    if not rem[1]:
                        continue
                    ru = st.range(u)
                    at, co = rem[1][0]
                    rr = s_tmod(ru, meet(st.range(w), ((-INF, -1), (1, INF))))
                    cur = st.sym.get(at, ((-INF, INF),))
                    st.sym[at] = meet(cur, rr if co > 0 else s_neg(rr)) or cur
                    v = l_scale(l_add(u, rem, -1), k)
                    s = s_mul(((min(lo(ru), 0), max(hi(ru), 0)),), K(k).s)
                    if subset(s, rng(ty)):
                        return [Int(s, v)]
                    break
        elif op in ('/', '%'):
            self.stats['divs'] += 1
            if meet(b.s, ((0, 0),)) and not (b.n is not None and 0 not in st.signs(b.n)):
                self.alarm('divzero', fn, n, 'divisor of %s can be zero' % fn.text(n))
            bs = meet(b.s, ((-INF, -1), (1, INF)))
            if not bs:
                return []
            if ty.get('sg') and lo(a.s) == lo(rng(ty)) and meet(bs, ((-1, -1),)):
                self.alarm('overflow', fn, n, '%s can overflow (most negative value divided by -1)' % fn.text(n))
            if op == '/':
                s, v = s_tdiv(a.s, bs), mk_tdiv(a.n, b.n)
            else:
                s, v = s_tmod(a.s, bs), mk_tmod(a.n, b.n)
            if b.n is not None and v is not None and op == '%' and lo(a.s) >= 0:
                # 0 <= a%b <= b-1
                st.add_ge(v)
                st.add_ge(l_add(l_add(b.n, C(-1)), v, -1))
            r = rng(ty)
            s = meet(s, r) or r
            if v is not None and v[1]:
                at, co = v[1][0]
                cur = st.sym.get(at, ((-INF, INF),))
                st.sym[at] = meet(cur, s if co > 0 else s_neg(s)) or cur
            return [Int(s, v)]
        elif op == '<<':
            v = l_op('mshl', a.n, b.n)
            r = rng(ty)
            if v is not None:
                if ty.get('int') == 64 and not ty.get('sg') and b.n == L(('clz', a.n)) and lo(a.s) >= 1:
                    r = ((1 << 63, M64 - 1),)      # shifted up to the top bit
                st.sym[v[1][0][0]] = r
            if len(b.s) == 1 and lo(b.s) == hi(b.s) and 0 <= lo(b.s) < 128 and lo(a.s) > -INF and hi(a.s) < INF:
                x = s_mul(a.s, ((1 << lo(b.s),) * 2,))
                if subset(x, r):
                    return [Int(x, l_scale(a.n, 1 << lo(b.s)))]
            return [Int(r, v)]
        elif op == '>>':
            v = l_op('shr', a.n, b.n)
            if v is not None and a.n is not None:
                for at in list(st.sym):
                    # a < (p << k) with an exact shift gives (a >> k) < p
                    if isinstance(at, tuple) and at[:1] == ('mshl',) and at[2] == b.n and b.n == L(('clz', at[1])) and st.prove_ge(l_add(l_add(L(at), C(-1)), a.n, -1)):
                        st.sym[v[1][0][0]] = ((0, max(0, hi(a.s))),)
                        st.add_ge(v)
                        st.add_ge(l_add(l_add(at[1], C(-1)), v, -1))
            if len(b.s) == 1 and lo(b.s) == hi(b.s) and lo(a.s) >= 0 and hi(a.s) != INF:
                k = lo(b.s)
                return [Int(((lo(a.s) >> k, hi(a.s) >> k),), v)]
            return [Int(meet(rng(ty), ((min(lo(a.s), 0), max(hi(a.s), 0)),)) if a.s else rng(ty), v)]
        elif op == '^':
            # sign only
            sa = {-1 if h < 0 else 1 for l, h in a.s if l >= 0 or h < 0} if all(l >= 0 or h < 0 for l, h in a.s) else {-1, 1}
            sb = {-1 if h < 0 else 1 for l, h in b.s if l >= 0 or h < 0} if all(l >= 0 or h < 0 for l, h in b.s) else {-1, 1}
            res = {x * y for x in sa for y in sb}
            r = rng(ty)
            s = ()
            if -1 in res:
                s = join(s, ((lo(r), -1),)) if lo(r) < 0 else s
            if 1 in res:
                s = join(s, ((0, hi(r)),))
            return [Int(s or r, l_op('xor', a.n, b.n))]
        elif op in ('&', '|'):
            r = rng(ty)
            if op == '&' and lo(b.s) >= 0:
                return [Int(((0, hi(b.s)),), l_op('and', a.n, b.n))]
            return [Int(r, l_op(op, a.n, b.n))]
        else:
            return [Int(rng(ty))]
        r = rng(ty)
        if v is not None:
            t = meet(s, st.range(v))
            s = t or s
        if subset(s, r):
            return [Int(s, v)]
        if v is not None and ty.get('int'):
            # bounds from recorded inequalities
            lo_ok = lo(s) >= lo(r) or st.prove_ge(l_add(v, C(-lo(r))))
            hi_ok = hi(s) <= hi(r) or st.prove_ge(l_add(C(hi(r)), v, -1))
            if lo_ok and hi_ok:
                return [Int(meet(s, r), v)]
        if ty.get('sg') and ty.get('int', 0) <= 128 and ty.get('int'):
            self.alarm('overflow', fn, n, 'signed arithmetic %s can overflow (range %s)' % (fn.text(n), s))
            return [Int(meet(s, r) or r, v)]
        if split and v is not None and op in '+-' and ty.get('int') and not ty.get('sg'):
            return [Int(s, v)]          # the caller separates the case that wraps
        return [self.convert(st, Int(s, v), ty)]

    def ev_Bin(self, fn, st, n, x):
        op = x['op']
        ty = self.prog.T(x.get('t'))
        l, r = self.kid(fn, st, n, 0), self.kid(fn, st, n, 1)
        if op == ',':
            st.tmp[n] = r
            return [st]
        if op in ('&&', '||'):
            t = self.cond_value(fn, st, n)
            st.tmp[n] = K(t) if t is not None else Int(((0, 1),))
            return [st]
        lv, rv_ = self.rv(st, l), self.rv(st, r)
        if op in ('==', '!=') and (isinstance(lv, Ptr) or isinstance(rv_, Ptr)):
            if isinstance(lv, Ptr) and isinstance(rv_, Ptr):
                st.tmp[n] = K(int((lv.t == rv_.t) == (op == '==')))
            else:
                st.tmp[n] = Int(((0, 1),))
            return [st]
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(fn, st, n, op, l, r, x)
        lt, rt = fn.T(x['c'][0]), fn.T(x['c'][1])
        a, b = self.as_int(st, l, lt), self.as_int(st, r, rt)
        if op == '^' and ty.get('sg'):
            return self.split_xor(fn, st, n, l, r, a, b, ty)
        if op == '>>':
            sp = self.sign_shift(st, a, b, l)
            if sp:
                for t, w in sp:
                    t.tmp[n] = w
                return [t for t, w in sp]
        res = self.arith(fn, st, n, op, a, b, ty, True)
        if not res:
            return []
        if not subset(res[0].s, rng(ty)) and ty.get('int'):
            return self.split_convert(st, n, res[0], ty)
        st.tmp[n] = res[0]
        return [st]

    def sign_shift(self, st, a, b, l):
        """a shifted right by at least its width less one leaves the sign"""
        if not (len(b.s) == 1 and lo(b.s) == hi(b.s) == 63 and lo(a.s) < 0 and subset(a.s, ((-(1 << 63), (1 << 63) - 1),))):
            return None
        out = []
        for part, k in ((((-INF, -1),), -1), (((0, INF),), 0)):
            m = meet(a.s, part)
            if not m:
                continue
            t = st.copy()
            if a.n is not None:
                cur = t.signs(a.n) & ({-1} if k else {0, 1})
                if not cur:
                    continue
            if isinstance(l, LV):
                self.refine_place(t, l, m)
            elif a.n is not None:
                self.refine_sym(t, a.n, m)
            if a.n is not None and a.n[1]:
                self.set_signs(t, a.n, cur)
            out.append((t, K(k)))
        return out

    def split_xor(self, fn, st, n, l, r, a, b, ty):
        out = []
        for pa in (((-INF, -1),), ((0, INF),)):
            for pb in (((-INF, -1),), ((0, INF),)):
                sa, sb = meet(a.s, pa), meet(b.s, pb)
                if not sa or not sb:
                    continue
                t = st.copy()
                for v, x, part in ((l, a, sa), (r, b, sb)):
                    if x.n is not None:
                        cur = t.signs(x.n)
                        want = {-1} if hi(part) < 0 else {0, 1}
                        if not cur & want:
                            t = None
                            break
                    if isinstance(v, LV):
                        self.refine_place(t, v, part)
                    elif x.n is not None:
                        self.refine_sym(t, x.n, part)
                    if x.n is not None and x.n[1]:
                        self.set_signs(t, x.n, cur & want)
                if t is None:
                    continue
                rg = rng(ty)
                neg = (hi(sa) < 0) != (hi(sb) < 0)
                t.tmp[n] = Int(((lo(rg), -1),) if neg else ((0, hi(rg)),), None)
                out.append(t)
        return out

    def compare(self, fn, st, n, op, l, r, x):
        lt, rt = fn.T(x['c'][0]), fn.T(x['c'][1])
        if lt.get('float') or rt.get('float'):
            st.tmp[n] = Int(((0, 1),))
            return [st]
        a, b = self.as_int(st, l, lt), self.as_int(st, r, rt)
        out = []
        for truth in (True, False):
            o = op if truth else {'==': '!=', '!=': '==', '<': '>=', '>': '<=', '<=': '>', '>=': '<'}[op]
            sg = {'==': {0}, '!=': {-1, 1}, '<': {-1}, '>': {1}, '<=': {-1, 0}, '>=': {0, 1}}[o]
            t = st.copy()
            diff = l_add(a.n, b.n, -1)
            if diff is not None:
                cur = t.signs(diff)
                if not (cur & sg):
                    continue
            sa, sb = a.s, b.s
            if o == '==':
                sa = sb = meet(sa, sb)
            elif o == '!=':
                if len(b.s) == 1 and lo(b.s) == hi(b.s):
                    sa = meet(sa, ((-INF, lo(b.s) - 1), (lo(b.s) + 1, INF)))
                if len(a.s) == 1 and lo(a.s) == hi(a.s):
                    sb = meet(sb, ((-INF, lo(a.s) - 1), (lo(a.s) + 1, INF)))
            elif o == '<':
                sa, sb = meet(sa, ((-INF, hi(sb) - 1),)), meet(sb, ((lo(sa) + 1, INF),))
            elif o == '<=':
                sa, sb = meet(sa, ((-INF, hi(sb)),)), meet(sb, ((lo(sa), INF),))
            elif o == '>':
                sa, sb = meet(sa, ((lo(sb) + 1, INF),)), meet(sb, ((-INF, hi(sa) - 1),))
            elif o == '>=':
                sa, sb = meet(sa, ((lo(sb), INF),)), meet(sb, ((-INF, hi(sa)),))
            if not sa or not sb:
                continue
            if isinstance(l, LV):
                self.refine_place(t, l, sa)
            elif a.n is not None:
                self.refine_sym(t, a.n, sa) if a.s != sa else None
            if isinstance(r, LV):
                self.refine_place(t, r, sb)
            elif b.n is not None:
                self.refine_sym(t, b.n, sb) if b.s != sb else None
            if diff is not None and diff[1]:
                cur = t.signs(diff)
                if not (cur & sg):
                    continue
                self.set_signs(t, diff, cur & sg)
                # comparison of a sign value with zero
                if len(diff[1]) == 1 and isinstance(diff[1][0][0], tuple) and diff[1][0][0][:1] == ('sgn',) and diff[0] == 0 and diff[1][0][1] == 1:
                    inner = diff[1][0][0][1]
                    k = t.signs(inner) & sg
                    if not k:
                        continue
                    self.set_signs(t, inner, k)
            t.tmp[n] = K(int(truth))
            out.append(t)
        return out

    def ev_Un(self, fn, st, n, x):
        op = x['op']
        v = self.kid(fn, st, n)
        ty = self.prog.T(x.get('t'))
        if op == '*':
            w = self.rv(st, v)
            st.tmp[n] = LV(w.t) if isinstance(w, Ptr) and w.t else TOP
            return [st]
        if op == '&':
            st.tmp[n] = Ptr(v.p) if isinstance(v, LV) else TOP
            return [st]
        if op == '!':
            w = self.rv(st, v)
            if isinstance(w, Ptr):
                st.tmp[n] = K(int(w.t is None))
                return [st]
            iv = self.as_int(st, v, fn.T(x['c'][0]))
            out = []
            for s in self.split_bool(fn, st, n, v, iv):
                s.tmp[n] = K(1 - lo(s.tmp[n].s))
                out.append(s)
            return out
        if op in ('-', '+', '~'):
            a = self.as_int(st, v, fn.T(x['c'][0]))
            if op == '+':
                st.tmp[n] = a
                return [st]
            if op == '-':
                r = self.arith(fn, st, n, '-', K(0), a, ty)
            else:
                r = self.arith(fn, st, n, '-', K(-1), a, ty)
            st.tmp[n] = r[0]
            return [st]
        if op in ('++', '--', 'post++', 'post--'):
            w = self.rv(st, v)
            if isinstance(v, LV) and isinstance(w, Int):
                a = self.as_int(st, v, ty)
                r = self.arith(fn, st, n, '+' if '+' in op else '-', a, K(1), ty)
                self.write(st, v.p, r[0])
                st.tmp[n] = a if op.startswith('post') else v
            else:
                st.tmp[n] = TOP
            return [st]
        st.tmp[n] = TOP
        return [st]

    def ev_Assign(self, fn, st, n, x):
        l, r = self.kid(fn, st, n, 0), self.kid(fn, st, n, 1)
        op = x['op']
        ty = self.prog.T(x.get('t'))
        if not isinstance(l, LV):
            st.tmp[n] = TOP
            return [st]
        rt = fn.T(x['c'][1])
        if op == '=':
            w = self.rv(st, r)
            if isinstance(w, (Int, Ptr)):
                if isinstance(w, Ptr):
                    self.on_ptr_write(fn, st, n, l.p, w)
                else:
                    w = self.as_int(st, r, rt)
                self.write(st, l.p, w)
            elif ty.get('int') or ty.get('bool'):
                self.write(st, l.p, Int(rng(ty)))
            else:
                self.write(st, l.p, TOP)
        else:
            a, b = self.as_int(st, l, ty), self.as_int(st, r, rt)
            sp = self.sign_shift(st, a, b, l) if op == '>>=' else None
            if sp:
                for t, w in sp:
                    self.write(t, l.p, w)
                    t.tmp[n] = l
                return [t for t, w in sp]
            res = self.arith(fn, st, n, op[:-1], a, b, ty, True)
            if not res:
                return []
            if not subset(res[0].s, rng(ty)) and ty.get('int'):
                out = self.split_convert(st, n, res[0], ty)
                for t in out:
                    self.write(t, l.p, t.tmp[n])
                    t.tmp[n] = l
                return out
            self.write(st, l.p, res[0])
        st.tmp[n] = l
        return [st]

    def on_ptr_write(self, fn, st, n, place, val):
        old = st.mem.get(place)
        if isinstance(old, Ptr) and old.t is not None and isinstance(old.t, tuple) and old.t[0] == 'H' and (val.t != old.t):
            o = st.mem.get(old.t)
            # is the object still owned elsewhere?
            owned = [k for k, v in st.mem.items() if k != place and isinstance(v, Ptr) and v.t == old.t]
            if isinstance(o, Mpz) and o.st == 'init' and not owned:
                self.alarm('leak', fn, n, 'the big-integer storage held by %s is overwritten without being released' % (place[-1],))

    ev_CompoundAssignOperator = ev_Assign

    def ev_Decl(self, fn, st, n, x):
        for v in x['vars']:
            d = v['d']
            ty = self.prog.T(fn.vars[d]['t'])
            p = ('V', st.frame, d)
            if self.is_mpz(ty):
                st.mem[p] = Mpz('uninit', Int(((-INF, INF),)))
                continue
            if 'i' in v:
                val = st.tmp.get(v['i'])
                if val is None:
                    y = fn.nodes[v['i']]
                    val = K(int(y['v'])) if 'v' in y else Ptr(None) if y['k'] == 'CXXNullPtrLiteralExpr' else TOP
                if ty.get('ref'):
                    st.mem[('R', st.frame, d)] = val
                    continue
                w = self.rv(st, val)
                if isinstance(w, Mpz) and ty.get('ptr') and isinstance(val, LV):
                    w = Ptr(val.p)
                if isinstance(w, Int):
                    w = self.as_int(st, val, ty)
                if isinstance(w, (Int, Ptr)):
                    st.mem[p] = w
                elif isinstance(val, LV):
                    self.copyobj(st, p, val.p)
                elif ty.get('int') or ty.get('bool'):
                    st.mem[p] = Int(rng(ty))
            elif ty.get('int') or ty.get('bool'):
                st.mem[p] = Int(rng(ty))
        return [st]

    def is_mpz(self, ty):
        return ty.get('s', '').startswith('__mpz_struct[')

    # ---------------------------------------------------------- objects and calls
    def mpz_of(self, st, v):
        """place of the mpz denoted by argument v"""
        if isinstance(v, LV):
            w = st.mem.get(v.p)
            if isinstance(w, Mpz):
                return v.p
            if isinstance(w, Ptr):
                return w.t
            return None
        if isinstance(v, Ptr):
            return v.t
        return None

    def ev_New(self, fn, st, n, x):
        p = ('H', self.new('h'))
        st.mem[p] = Mpz('uninit', Int(((-INF, INF),)))
        st.tmp[n] = Ptr(p)
        return [st]

    def ev_Delete(self, fn, st, n, x):
        v = self.rv(st, self.kid(fn, st, n))
        if isinstance(v, Ptr) and v.t and v.t in st.mem:
            o = st.mem[v.t]
            if isinstance(o, Mpz):
                if o.st == 'freed':
                    self.alarm('double-free', fn, n, 'storage deleted twice')
                elif o.st == 'init':
                    self.alarm('leak', fn, n, 'storage deleted without mpz_clear')
                st.mem[v.t] = Mpz('freed', o.c)
        st.tmp[n] = TOP
        return [st]

    def ev_Ctor(self, fn, st, n, x):
        cls = x.get('cls')
        p = ('T', st.frame, n)
        c = x.get('c', [])
        if x.get('ck') in ('copy', 'move') and len(c) == 1 and x.get('elid'):
            st.tmp[n] = self.kid(fn, st, n)
            return [st]
        callee = self.prog.fns.get(x.get('f'))
        for k in [k for k in st.mem if k[:3] == p]:
            del st.mem[k]
        if callee is not None and self.inline(callee):
            return self.call(fn, st, n, callee, [self.kid(fn, st, n, i) for i in range(len(c))], Ptr(p), retobj=LV(p))
        if x.get('ck') in ('copy', 'move') and len(c) == 1:
            v = self.kid(fn, st, n)
            if isinstance(v, LV):
                self.copyobj(st, p, v.p)
                st.tmp[n] = LV(p)
                return [st]
        st.tmp[n] = LV(p)
        return [st]

    ev_CXXTemporaryObjectExpr = ev_Ctor

    def call(self, fn, st, n, callee, args, this, retobj=None):
        self.stats['calls'] += 1
        binds = {}
        pre = [st]
        for d, a in zip(callee.params, args):
            ty = self.prog.T(callee.vars[d]['t'])
            if not ty.get('ref'):
                w = self.rv(st, a)
                if isinstance(w, Int):
                    a = self.as_int(st, a, ty)
                elif isinstance(w, Mpz) and ty.get('ptr') and isinstance(a, LV):
                    a = Ptr(a.p)
            binds[d] = a
        outs = []
        res = self.run(callee, st, binds, this)
        dead = self.lastframe
        for s, v, how in res:
            if how == 'throw':
                self.on_throw(s)
                continue
            if retobj is not None:
                s.tmp[n] = retobj
            else:
                if isinstance(v, LV) and v.p and v.p[0] in ('V', 'T'):
                    # object returned by value: give it an identity in the caller
                    rt = self.prog.T(callee.o['ret'])
                    if not rt.get('ref') and not rt.get('ptr'):
                        p = ('T', s.frame, n)
                        tmpv = {k: w for k, w in s.mem.items() if k[:len(v.p)] == v.p}
                        for k in [k for k in s.mem if k[:3] == p]:
                            del s.mem[k]
                        for k, w in tmpv.items():
                            s.mem[p + k[len(v.p):]] = w
                        v = LV(p)
                rt = self.prog.T(callee.o['ret'])
                if isinstance(v, Int) and v.n is None and (rt.get('int')) and not rt.get('bool') and this is None:
                    an = [self.as_int(s, a, {}).n if isinstance(self.rv(s, a), Int) else None for a in args]
                    v = Int(v.s, l_op('call:' + callee.qn, *an)) if an else v
                s.tmp[n] = v if v is not None else TOP
            # the callee's frame is gone
            for k in [k for k in s.mem if k[0] in ('F', 'V', 'R', 'T') and k[1] == dead]:
                del s.mem[k]
            outs.append(s)
        return outs

    def on_throw(self, st):
        pass

    def ev_Call(self, fn, st, n, x):
        fq = x.get('fq', '')
        c = x.get('c', [])
        args = [self.kid(fn, st, n, i) for i in range(len(c))]
        callee = self.prog.fns.get(x.get('f'))
        if callee is not None and self.inline(callee) and callee.blocks:
            if x.get('obj'):
                b = self.base_place(st, args[0], x.get('arrow'))
                return self.call(fn, st, n, callee, args[1:], Ptr(b) if b else TOP)
            return self.call(fn, st, n, callee, args, None)
        name = fq.split('::')[-1]
        m = getattr(self, 'bi_' + name, None)
        if m is not None:
            return m(fn, st, n, x, args)
        if name.startswith('__gmpz_') or name.startswith('mpz_'):
            return self.gmp(fn, st, n, x, name.replace('__gmpz_', 'mpz_'), args)
        return self.unknown_call(fn, st, n, x, args)

    def unknown_call(self, fn, st, n, x, args):
        ty = self.prog.T(x.get('t'))
        for a in args:
            w = self.rv(st, a) if isinstance(a, LV) else a
            if isinstance(w, Int) and w.n is not None and "'stale'" in repr(w.n):
                self.alarm('representation', fn, n, '%s reads the word left over in an integer that is in heap storage' % fn.text(n)[:60])
        # arguments passed by non-const reference or pointer may change
        for a, t in zip(args[1:] if x.get('obj') else args, x.get('pt', [])):
            T = self.prog.T(t)
            if T.get('ref') == 1 and not T.get('const') and isinstance(a, LV):
                if isinstance(st.mem.get(a.p), Int):
                    st.mem[a.p] = Int(((-INF, INF),))
        st.tmp[n] = Int(rng(ty)) if ty.get('int') or ty.get('bool') else TOP
        return [st]

    # std helpers
    def bi_move(self, fn, st, n, x, args):
        st.tmp[n] = args[0] if args else TOP
        return [st]

    bi_forward = bi_move

    def bi_swap(self, fn, st, n, x, args):
        if len(args) == 2 and all(isinstance(a, LV) for a in args):
            a, b = args[0].p, args[1].p
            ma = {k[len(a):]: v for k, v in st.mem.items() if k[:len(a)] == a}
            mb = {k[len(b):]: v for k, v in st.mem.items() if k[:len(b)] == b}
            for k in [k for k in st.mem if k[:len(a)] == a or k[:len(b)] == b]:
                del st.mem[k]
            for k, v in ma.items():
                st.mem[b + k] = v
            for k, v in mb.items():
                st.mem[a + k] = v
        st.tmp[n] = TOP
        return [st]

    def bi_exchange(self, fn, st, n, x, args):
        if len(args) != 2 or not isinstance(args[0], LV):
            return self.unknown_call(fn, st, n, x, args)
        old = self.rv(st, args[0])
        w = self.rv(st, args[1])
        if isinstance(old, (Int, Ptr)):
            if isinstance(w, Int):
                w = self.as_int(st, args[1], fn.T(x['c'][1]) if len(x.get('c', ())) > 1 else {})
            self.write(st, args[0].p, w)
            st.tmp[n] = old
            return [st]
        return self.unknown_call(fn, st, n, x, args)

    def ovf(self, fn, st, n, x, args, op):
        ty64 = {'int': 64, 'sg': True}
        a, b = self.as_int(st, args[0], fn.T(x['c'][0])), self.as_int(st, args[1], fn.T(x['c'][1]))
        tp = self.rv(st, args[2])
        pt = self.prog.T(fn.T(x['c'][2]).get('pt', -1)) or ty64
        s = {'add': s_add(a.s, b.s), 'sub': s_add(a.s, s_neg(b.s)), 'mul': s_mul(a.s, b.s)}[op]
        v = {'add': l_add(a.n, b.n), 'sub': l_add(a.n, b.n, -1), 'mul': l_mul(a.n, b.n)}[op]
        r = rng(pt)
        out = []
        inr = meet(s, r)
        if inr:
            t = st.copy()
            if isinstance(tp, Ptr) and tp.t:
                t.mem[tp.t] = Int(inr, v)
            t.tmp[n] = K(0)
            out.append(t)
        if not subset(s, r):
            t = st.copy()
            if isinstance(tp, Ptr) and tp.t:
                t.mem[tp.t] = Int(r)
            t.tmp[n] = K(1)
            out.append(t)
        return out

    def bi___builtin_add_overflow(self, fn, st, n, x, args):
        return self.ovf(fn, st, n, x, args, 'add')

    def bi___builtin_sub_overflow(self, fn, st, n, x, args):
        return self.ovf(fn, st, n, x, args, 'sub')

    def bi___builtin_mul_overflow(self, fn, st, n, x, args):
        return self.ovf(fn, st, n, x, args, 'mul')

    def bi___builtin_clzll(self, fn, st, n, x, args):
        a = self.as_int(st, args[0], fn.T(x['c'][0]))
        v = l_op('clz', a.n)
        if v is not None:
            st.sym[v[1][0][0]] = ((0, 63),)
        st.tmp[n] = Int(((0, 63),), v)
        return [st]

    bi___builtin_clzl = bi___builtin_clzll

    # ---------------------------------------------------------- GMP
    def mz(self, fn, st, n, v, write=False, init=False):
        p = self.mpz_of(st, v)
        if p is None or p not in st.mem or not isinstance(st.mem[p], Mpz):
            w = self.rv(st, v)
            if isinstance(w, Ptr) and w.t is None:
                self.alarm('null', fn, n, 'big-integer operation %s on absent storage' % fn.text(n))
            return None
        o = st.mem[p]
        if init:
            if o.st == 'init':
                self.alarm('leak', fn, n, 'storage initialised again while already holding a value')
        elif o.st != 'init':
            self.alarm('lifetime', fn, n, '%s uses a big-integer object that is %s' % (fn.text(n), {'uninit': 'not initialised', 'cleared': 'already cleared', 'freed': 'already freed', 'mixed': 'not initialised on every path'}[o.st]))
        return p

    def sign_int(self, st, d):
        """the sign of linear form d as an integer value"""
        if not d[1]:
            return K((d[0] > 0) - (d[0] < 0))
        sg = st.signs(d)
        s = norm([(k, k) for k in sg]) or ((-1, 1),)
        st.sym[('sgn', d)] = s
        return Int(s, L(('sgn', d)))

    def mpzval(self, st, p):
        o = st.mem.get(p) if p else None
        if isinstance(o, Mpz):
            c = o.c
            if c.n is not None and c.n[1]:
                s = meet(c.s, st.range(c.n))
                return Int(s or c.s, c.n)
            return c
        return Int(((-INF, INF),))

    def gmp(self, fn, st, n, x, name, a):
        self.stats['gmp'] += 1
        ctypes = [fn.T(i) for i in x['c']]
        z = lambda i: self.mz(fn, st, n, a[i])
        val = lambda i: self.mpzval(st, z(i))
        ui = lambda i: self.as_int(st, a[i], ctypes[i])
        ANY = ((-INF, INF),)

        def setz(i, v):
            p = self.mz(fn, st, n, a[i])
            if p:
                if v.n is not None and len(v.n[1]) == 1 and v.n[1][0][0] not in st.sym and v.n[0] == 0 and v.n[1][0][1] == 1:
                    st.sym[v.n[1][0][0]] = v.s
                st.mem[p] = Mpz('init', v)

        st.tmp[n] = TOP
        nm = name[4:]
        if nm == 'init':
            p = self.mz(fn, st, n, a[0], init=True)
            if p:
                st.mem[p] = Mpz('init', K(0))
            return [st]
        if nm in ('inits', 'clears'):
            for v in a:
                if isinstance(v, (LV, Ptr)) and self.mpz_of(st, v):
                    if nm == 'inits':
                        p = self.mz(fn, st, n, v, init=True)
                        if p:
                            st.mem[p] = Mpz('init', K(0))
                    else:
                        p = self.mz(fn, st, n, v)
                        if p:
                            st.mem[p] = Mpz('cleared', st.mem[p].c)
            return [st]
        if nm in ('init_set', 'init_set_si', 'init_set_ui'):
            v = val(1) if nm == 'init_set' else ui(1)
            p = self.mz(fn, st, n, a[0], init=True)
            if p:
                st.mem[p] = Mpz('init', v)
            return [st]
        if nm == 'clear':
            p = self.mz(fn, st, n, a[0])
            if p:
                st.mem[p] = Mpz('cleared', st.mem[p].c)
            return [st]
        if nm == 'set':
            v = val(1)
            setz(0, v)
            return [st]
        if nm in ('set_si', 'set_ui'):
            setz(0, ui(1))
            return [st]
        if nm in ('add', 'sub', 'mul', 'add_ui', 'sub_ui', 'mul_ui', 'mul_si', 'addmul', 'submul', 'addmul_ui', 'submul_ui'):
            u = val(1)
            w = ui(2) if nm.endswith(('_ui', '_si')) else val(2)
            b = nm.split('_')[0]
            if b == 'add':
                r = Int(s_add(u.s, w.s), l_add(u.n, w.n))
            elif b == 'sub':
                r = Int(s_add(u.s, s_neg(w.s)), l_add(u.n, w.n, -1))
            elif b == 'mul':
                r = Int(s_mul(u.s, w.s), l_mul(u.n, w.n))
            else:
                t = val(0)
                ps, pn = s_mul(u.s, w.s), l_mul(u.n, w.n)
                r = Int(s_add(t.s, ps if b == 'addmul' else s_neg(ps)), l_add(t.n, pn, 1 if b == 'addmul' else -1))
            setz(0, r)
            return [st]
        if nm == 'ui_sub':
            u, w = ui(1), val(2)
            setz(0, Int(s_add(u.s, s_neg(w.s)), l_add(u.n, w.n, -1)))
            return [st]
        if nm == 'neg':
            u = val(1)
            setz(0, Int(s_neg(u.s), l_scale(u.n, -1)))
            return [st]
        if nm == 'abs':
            u = val(1)
            out = []
            for part, sg in ((meet(u.s, ((0, INF),)), 1), (meet(u.s, ((-INF, -1),)), -1)):
                if part:
                    t = st.copy()
                    if u.n is not None:
                        self.refine_sym(t, u.n, part)
                    p = self.mz(fn, t, n, a[0])
                    if p:
                        t.mem[p] = Mpz('init', Int(part if sg > 0 else s_neg(part), u.n if sg > 0 else l_scale(u.n, -1)))
                    out.append(t)
            return out
        DIV = {'tdiv_q': ('tdiv',), 'tdiv_r': ('tmod',), 'tdiv_qr': ('tdiv', 'tmod'), 'fdiv_q': ('fdiv',), 'fdiv_r': ('fmod',), 'fdiv_qr': ('fdiv', 'fmod'),
               'cdiv_q': ('cdiv',), 'cdiv_r': ('cmod',), 'divexact': ('exdiv',), 'mod': ('emod',), 'tdiv_q_ui': ('tdiv',), 'fdiv_q_ui': ('fdiv',), 'tdiv_r_ui': ('tmod',), 'fdiv_r_ui': ('fmod',), 'divexact_ui': ('exdiv',)}
        if nm in DIV:
            self.stats['divs'] += 1
            kinds = DIV[nm]
            i = len(kinds)
            u = val(i)
            w = ui(i + 1) if nm.endswith('_ui') else val(i + 1)
            if meet(w.s, ((0, 0),)) and not (w.n is not None and 0 not in st.signs(w.n)):
                self.alarm('divzero', fn, n, 'the divisor passed to %s can be zero: GMP terminates the process' % fn.text(n))
            for j, kd in enumerate(kinds):
                s = ANY
                if kd in ('fmod', 'tmod', 'emod') and hi(w.s) not in (INF,) and lo(w.s) not in (-INF,):
                    m = max(abs(hi(w.s)), abs(lo(w.s)))
                    s = ((-m + 1, m - 1),)
                setz(j, Int(s, mk_tdiv(u.n, w.n) if kd == 'tdiv' else mk_tmod(u.n, w.n) if kd == 'tmod' else l_op(kd, u.n, w.n)))
            return [st]
        if nm == 'invert':
            u, w = val(1), val(2)
            if meet(w.s, ((0, 0),)) and not (w.n is not None and 0 not in st.signs(w.n)):
                self.alarm('divzero', fn, n, 'the modulus passed to %s can be zero: GMP terminates the process' % fn.text(n))
            setz(0, Int(ANY, l_op('inv', u.n, w.n)))
            st.tmp[n] = Int(((0, 1),), l_op('invok', u.n, w.n))
            return [st]
        if nm in ('gcd', 'lcm'):
            u, w = val(1), val(2)
            setz(0, Int(((0, INF),), L((nm,) + tuple(sorted((u.n, w.n), key=repr))) if u.n is not None and w.n is not None else None))
            return [st]
        if nm == 'pow_ui':
            u, w = val(1), ui(2)
            setz(0, Int(ANY, l_op('pow', u.n, w.n)))
            return [st]
        if nm in ('mul_2exp', 'fdiv_q_2exp', 'tdiv_q_2exp', 'cdiv_q_2exp', 'fdiv_r_2exp'):
            u, w = val(1), ui(2)
            setz(0, Int(ANY, l_op({'mul_2exp': 'shl', 'fdiv_q_2exp': 'shr'}.get(nm, nm), u.n, w.n)))
            return [st]
        if nm in ('cmp', 'cmp_si', 'cmp_ui', '_cmp', '_cmp_si', '_cmp_ui'):
            u = val(0)
            w = val(1) if nm.endswith('cmp') else ui(1)
            d = l_add(u.n, w.n, -1)
            if d is not None:
                st.tmp[n] = self.sign_int(st, d)
            else:
                st.tmp[n] = Int(((-1, 1),))
            # ranges may already decide
            if lo(u.s) > hi(w.s):
                st.tmp[n] = K(1)
            elif hi(u.s) < lo(w.s):
                st.tmp[n] = K(-1)
            return [st]
        if nm in ('fits_slong_p', 'fits_ulong_p', 'fits_sint_p', 'fits_uint_p'):
            p = z(0)
            u = self.mpzval(st, p)
            r = {'fits_slong_p': I64, 'fits_ulong_p': (0, M64 - 1), 'fits_sint_p': (-(1 << 31), (1 << 31) - 1), 'fits_uint_p': (0, (1 << 32) - 1)}[nm]
            out = []
            for part, k in ((meet(u.s, (r,)), 1), (meet(u.s, ((-INF, r[0] - 1), (r[1] + 1, INF))), 0)):
                if part:
                    t = st.copy()
                    if p:
                        t.mem[p] = Mpz(t.mem[p].st, Int(part, u.n))
                    if u.n is not None:
                        self.refine_sym(t, u.n, part)
                    t.tmp[n] = K(k)
                    out.append(t)
            return out
        if nm in ('get_si', 'get_ui'):
            u = val(0)
            r = rng(self.prog.T(x.get('t')))
            st.tmp[n] = u if subset(u.s, r) else Int(r)
            return [st]
        if nm in ('fdiv_ui',):
            self.stats['divs'] += 1
            u, w = val(0), ui(1)
            if meet(w.s, ((0, 0),)) and not (w.n is not None and 0 not in st.signs(w.n)):
                self.alarm('divzero', fn, n, 'the divisor passed to %s can be zero: GMP terminates the process' % fn.text(n))
            v = l_op('fmod', u.n, w.n)
            st.tmp[n] = Int(((0, max(0, hi(w.s) - 1)),), v)
            return [st]
        if nm == 'sizeinbase':
            st.tmp[n] = Int(((1, M64 - 1),))
            val(0)
            return [st]
        if nm in ('nextprime', 'prevprime'):
            u = val(1)
            setz(0, Int(((2, INF),), l_op(nm, u.n)))
            return [st]
        if nm == 'set_str':
            p = self.mz(fn, st, n, a[0])
            if p:
                at = ('str', self.new('s'))
                st.mem[p] = Mpz('init', Int(ANY, L(at)))
            st.tmp[n] = Int(((-1, 0),))
            return [st]
        if nm in ('odd_p', 'even_p', 'sgn', 'get_str', 'import', 'export', 'get_d', 'size', 'hamdist', 'popcount', 'swap'):
            if nm == 'swap':
                p, q = z(0), z(1)
                if p and q:
                    st.mem[p], st.mem[q] = st.mem[q], st.mem[p]
                return [st]
            if nm == 'import':
                setz(0, Int(ANY))
            elif nm == 'sgn':
                u = val(0)
                st.tmp[n] = self.sign_int(st, u.n) if u.n is not None else Int(((-1, 1),))
            else:
                ty = self.prog.T(x.get('t'))
                st.tmp[n] = Int(rng(ty)) if ty.get('int') else TOP
            return [st]
        self.alarm('unmodelled', fn, n, 'GMP call %s has no transfer function' % name)
        return [st]
