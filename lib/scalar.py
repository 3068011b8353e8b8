"""Second level of the scalar analysis: rationals and residues, with the big-integer class as a primitive exact integer.

The big-integer operations are given the exact semantics that N05 proves for their implementation; rational and residue
functions are then interpreted over value numbers (lib/absint.py)."""
import itertools
import ir, zz
from absint import *

ZZC = 'clpoly::ZZ'


def canon_gcd(a, b):
    xs = []
    for x in (a, b):
        if x is None:
            return None
        if zz.lead_neg(x) or l_const(x) and x[0] < 0:
            x = l_scale(x, -1)
        xs.append(x)
    return ('gcd',) + tuple(sorted(xs, key=repr))


class ScalarInterp(Interp):
    """places of type ZZ hold an Int directly"""

    def iszz(self, t):
        T = self.prog.T(t)
        return T.get('s', '').replace('const ', '').replace(' &&', '').replace(' &', '') == ZZC and not T.get('ptr')

    def zval(self, st, v):
        w = self.rv(st, v)
        if isinstance(w, Int):
            if w.n is not None and w.n[1]:
                m = meet(w.s, st.range(w.n))
                return Int(m or w.s, w.n)
            return w
        return Int(((-INF, INF),))

    def fresh_int(self, st, s=((-INF, INF),), tag='u'):
        a = (tag, self.new(tag))
        st.sym[a] = s
        return Int(s, L(a))

    def named(self, st, v):
        """give an unnamed integer a name so that facts about it can be recorded"""
        if v.n is None:
            a = ('u', self.new('u'))
            st.sym[a] = v.s
            return Int(v.s, L(a))
        return v

    def ev_Ctor(self, fn, st, n, x):
        if x.get('cls') == ZZC:
            c = x.get('c', [])
            p = ('T', st.frame, n)
            if not c:
                st.mem[p] = K(0)
            else:
                a = self.kid(fn, st, n)
                w = self.rv(st, a)
                if isinstance(w, Int):
                    if x.get('ck') in ('copy', 'move') or self.iszz(fn.nodes[c[0]].get('t')):
                        st.mem[p] = w
                        if x.get('ck') == 'move' and isinstance(a, LV) and not x.get('elid') and a.p[0] != 'T':
                            st.mem[a.p] = K(0)
                    else:
                        st.mem[p] = self.as_int(st, a, fn.T(c[0]))
                else:
                    st.mem[p] = self.fresh_int(st)
            st.tmp[n] = LV(p)
            return [st]
        return super().ev_Ctor(fn, st, n, x)

    ev_CXXTemporaryObjectExpr = ev_Ctor

    def ev_Decl(self, fn, st, n, x):
        for v in x['vars']:
            d = v['d']
            t = fn.vars[d]['t']
            if self.iszz(t) and not self.prog.T(t).get('ref'):
                w = self.rv(st, st.tmp.get(v['i'], TOP)) if 'i' in v else K(0)
                st.mem[('V', st.frame, d)] = w if isinstance(w, Int) else self.fresh_int(st)
            else:
                y = dict(x, vars=[v])
                super().ev_Decl(fn, st, n, y)
        return [st]

    def is_zz_op(self, fn, x):
        callee = self.prog.fns.get(x.get('f'))
        if callee is None or not callee.file.endswith('/ZZ.hh'):
            return None
        return callee

    def ev_Call(self, fn, st, n, x):
        callee = self.is_zz_op(fn, x)
        if callee is not None and callee.cls != 'std::hash':
            return self.zz_call(fn, st, n, x, callee)
        return super().ev_Call(fn, st, n, x)

    def splits(self, st, n, form, cases):
        """one successor state per sign class of form: cases maps a sign set to the result"""
        out = []
        cur = st.signs(form)
        for sg, val in cases:
            k = cur & sg
            if not k:
                continue
            t = st.copy()
            if form[1]:
                self.set_signs(t, form, k)
            t.tmp[n] = val
            out.append(t)
        return out

    def zz_call(self, fn, st, n, x, callee):
        c = x.get('c', [])
        args = [self.kid(fn, st, n, i) for i in range(len(c))]
        op = x.get('op')
        name = callee.name
        isobj = bool(x.get('obj'))
        V = []
        for i, a in enumerate(args):
            w = self.rv(st, a)
            if isinstance(w, Int):
                v = self.zval(st, a) if self.iszz(fn.nodes[c[i]].get('t')) else self.as_int(st, a, fn.T(c[i]))
                V.append(self.named(st, v))
            else:
                V.append(None)

        def tmpval(v):
            p = ('T', st.frame, n)
            st.mem[p] = v
            st.tmp[n] = LV(p)
            return [st]
        ANY = ((-INF, INF),)

        def binop(o, a, b, s=None):
            s = s or st
            if o == '+':
                return Int(s_add(a.s, b.s), l_add(a.n, b.n))
            if o == '-':
                return Int(s_add(a.s, s_neg(b.s)), l_add(a.n, b.n, -1))
            if o == '*':
                r = zz.l_mul2(a.n, b.n)
                rs = s_mul(a.s, b.s)
                if len(r[1]) == 1 and r[0] == 0 and r[1][0][1] == 1:
                    at = r[1][0][0]
                    st.sym[at] = meet(st.sym.get(at, ANY), rs) or rs
                sa, sb = st.signs(a.n), st.signs(b.n)
                sg = {p * q for p in sa for q in sb}
                if r[1] and len(sg) < 3:
                    self.set_signs(st, r, sg)
                return Int(rs, r)
            if o == '/':
                v = mk_tdiv(a.n, b.n)
                if exact(v) is not None and v[1]:
                    sg = {p * q for p in st.signs(a.n) for q in st.signs(b.n)}
                    if len(sg) < 3:
                        self.set_signs(st, v, sg)
                return Int(ANY, v)
            if o == '%':
                return Int(ANY, mk_tmod(a.n, b.n))
            return self.fresh_int(st)
        if callee.cls == ZZC and op in ('+=', '-=', '*=', '/=', '%=') or op in ('/', '%') and len(V) == 2:
            o = op[0]
            if o in '/%':
                self.stats['divs'] += 1
                if V[1] is None or 0 in st.signs(V[1].n):
                    self.alarm('divzero', fn, n, 'divisor of %s can be zero' % fn.text(n))
        if any(v is None for v in V) and not (callee.cls == ZZC and op == '='):
            if self.iszz(callee.o['ret']):
                return tmpval(self.fresh_int(st))
            if op in ('<<', '>>'):
                # stream input stores an arbitrary value
                for a, cc in zip(args, c):
                    if isinstance(a, LV) and self.iszz(fn.nodes[cc].get('t')) and op == '>>':
                        st.mem[a.p] = self.fresh_int(st)
                st.tmp[n] = TOP
                return [st]
            return self.unknown_call(fn, st, n, x, args)
        if op == '=':
            if isinstance(args[0], LV):
                w = V[1] if V[1] is not None else self.fresh_int(st)
                st.mem[args[0].p] = w
                if callee.kind == 'ma' and isinstance(args[1], LV) and args[1].p[0] != 'T' and args[1].p != args[0].p:
                    st.mem[args[1].p] = K(0)
            st.tmp[n] = args[0]
            return [st]
        if callee.cls == ZZC and op in ('+=', '-=', '*=', '/=', '%='):
            if isinstance(args[0], LV):
                st.mem[args[0].p] = binop(op[0], V[0], V[1])
            st.tmp[n] = args[0]
            return [st]
        if op in ('+', '-', '*', '/', '%') and len(V) == 2:
            return tmpval(binop(op, V[0], V[1]))
        if op == '-' and len(V) == 1:
            return tmpval(Int(s_neg(V[0].s), l_scale(V[0].n, -1)))
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(V) == 2:
            t = {'==': {0}, '!=': {-1, 1}, '<': {-1}, '>': {1}, '<=': {-1, 0}, '>=': {0, 1}}[op]
            return self.splits(st, n, l_add(V[0].n, V[1].n, -1), [(t, K(1)), ({-1, 0, 1} - t, K(0))])
        if callee.cls == ZZC and name == 'is_zero':
            return self.splits(st, n, V[0].n, [({0}, K(1)), ({-1, 1}, K(0))])
        if callee.cls == ZZC and name == 'operator bool':
            return self.splits(st, n, V[0].n, [({0}, K(0)), ({-1, 1}, K(1))])
        if callee.cls == ZZC and name == 'is_one':
            return self.splits(st, n, l_add(V[0].n, C(-1)), [({0}, K(1)), ({-1, 1}, K(0))])
        if name == 'sgn':
            return self.splits(st, n, V[0].n, [({-1}, K(-1)), ({0}, K(0)), ({1}, K(1))])
        if name == 'abs' and len(V) == 1:
            out = []
            for sg, k in (({0, 1}, 1), ({-1}, -1)):
                keep = st.signs(V[0].n) & sg
                if keep:
                    t = st.copy()
                    if V[0].n[1]:
                        self.set_signs(t, V[0].n, keep)
                    p = ('T', st.frame, n)
                    t.mem[p] = Int(((0, INF),) if k > 0 else ((1, INF),), l_scale(V[0].n, k))
                    t.tmp[n] = LV(p)
                    out.append(t)
            return out
        if name == 'gcd' and len(V) == 2:
            at = canon_gcd(V[0].n, V[1].n)
            nz = 0 not in st.signs(V[0].n) or 0 not in st.signs(V[1].n)
            r = ((1 if nz else 0, INF),)
            st.sym[at] = meet(st.sym.get(at, ANY), r) or r
            return tmpval(Int(st.sym[at], L(at)))
        if name == 'pow' and len(V) == 2:
            at = ('pow', V[0].n, V[1].n)
            if lo(V[0].s) >= 1:
                st.sym[at] = ((1, INF),)
            return tmpval(Int(st.sym.get(at, ANY), L(at)))
        if name == 'fdiv_ui' and len(V) == 2:
            self.stats['divs'] += 1
            if 0 in st.signs(V[1].n):
                self.alarm('divzero', fn, n, 'divisor of %s can be zero' % fn.text(n))
            at = ('fmod', V[0].n, V[1].n)
            st.sym[at] = ((0, max(0, hi(V[1].s) - 1)),)
            st.add_ge(L(at))
            st.add_ge(l_add(l_add(V[1].n, C(-1)), L(at), -1))
            st.tmp[n] = Int(st.sym[at], L(at))
            return [st]
        if name == 'swap' and len(args) == 2 and all(isinstance(a, LV) for a in args):
            st.mem[args[0].p], st.mem[args[1].p] = V[1], V[0]
            st.tmp[n] = TOP
            return [st]
        if name in ('fdiv_q', 'fdiv_r', 'fdiv_qr'):
            k = 2 if name == 'fdiv_qr' else 1
            if 0 in st.signs(V[k + 1].n):
                self.alarm('divzero', fn, n, 'divisor of %s can be zero' % fn.text(n))
            outs = {'fdiv_q': ('fdiv',), 'fdiv_r': ('fmod',), 'fdiv_qr': ('fdiv', 'fmod')}[name]
            for a, o in zip(args, outs):
                if isinstance(a, LV):
                    st.mem[a.p] = Int(ANY, l_op(o, V[k].n, V[k + 1].n))
            st.tmp[n] = TOP
            return [st]
        if self.iszz(callee.o['ret']):
            if not self.prog.T(callee.o['ret']).get('ref'):
                return tmpval(self.fresh_int(st))
            st.tmp[n] = args[0] if args else TOP
            return [st]
        ty = self.prog.T(x.get('t'))
        st.tmp[n] = Int(rng(ty), l_op('call:' + callee.qn, *[v.n for v in V])) if ty.get('int') or ty.get('bool') else TOP
        return [st]

    # value returned by reference into a field, copied objects of class types
    def copyobj(self, st, dst, src):
        if src in st.mem and isinstance(st.mem[src], Int):
            st.mem[dst] = st.mem[src]
        super().copyobj(st, dst, src)


# ---------------------------------------------------------------- rationals
class QModel:
    C = 'clpoly::QQ'

    def __init__(self, prog):
        self.prog = prog
        rec = prog.records.get(self.C)
        if not rec:
            raise ir.AnalysisBroken('class QQ not found')
        zf = [f['name'] for f in rec['fields'] if prog.tstr(f['t']) == ZZC]
        if len(zf) != 2 or len(rec['fields']) != 2:
            raise ir.AnalysisBroken('QQ no longer consists of two big integers')
        # roles: the two-argument constructor stores its first argument in the numerator
        self.nf, self.df = zf
        for f in prog.fns.values():
            if f.cls == self.C and f.name == 'num' and not f.params:
                for x in f.nodes:
                    if x['k'] == 'Mem' and x['n'] in zf:
                        self.nf = x['n']
                        self.df = [q for q in zf if q != x['n']][0]
        self.layer = [f for f in prog.fns.values() if f.blocks and (f.cls == self.C or f.file.endswith('/QQ.hh') or f.name == '__div' and f.params and self.is_obj(f.vars[f.params[0]]['t']))]
        self.keys = set(f.key for f in self.layer)

    def is_obj(self, t):
        T = self.prog.T(t)
        return T.get('s', '').replace('const ', '').replace(' &&', '').replace(' &', '') == self.C and not T.get('ptr')

    def access(self, f):
        ms = [m for m in self.prog.records[self.C]['methods'] if m['line'] == f.line and f.cls == self.C]
        return all(m['acc'] == 0 for m in ms)


def single(f):
    """(atom, coefficient) of a one-atom form"""
    return f[1][0] if f is not None and len(f[1]) == 1 and f[0] == 0 else (None, 0)


def exact(v):
    """v = x / g with g = gcd(x, y) (an exact quotient): (x, g, y), else None"""
    a, c = single(v)
    if isinstance(a, tuple) and a[0] == 'tdiv' and c in (1, -1):
        g, k = single(a[2])
        if k == 1 and isinstance(g, tuple) and g[0] == 'gcd':
            for i in (0, 1):
                if g[1 + i] in (a[1], l_scale(a[1], -1)):
                    return l_scale(a[1], c), a[2], g[2 - i]
    return None


def factors(v):
    """the factors of a product form (products opened, exact quotients kept)"""
    a, c = single(v)
    if isinstance(a, tuple) and a[0] == 'mul' and c in (1, -1):
        out = []
        for f in a[1:]:
            out += factors(f)
        return out
    return [v]


def unsigned(v):
    return l_scale(v, -1) if v is not None and (zz.lead_neg(v) or l_const(v) and v[0] < 0) else v


def powers(v, k, acc):
    """acc: multiplicative normal form, up to sign, of v**k with exact quotients x/g expanded"""
    for f in factors(v):
        e = exact(f)
        if e is not None:
            powers(e[0], k, acc)
            powers(e[1], -k, acc)
        elif f != C(1) and f != C(-1):
            f = unsigned(f)
            acc[f] = acc.get(f, 0) + k
    return acc


def coprime_products(st, n, d, canon_pairs):
    """every factor of n is coprime to every factor of d"""
    for f in factors(n):
        for h in factors(d):
            ef, eh = exact(f), exact(h)
            bf, bh = (ef[0] if ef else f), (eh[0] if eh else h)
            ok = bh == C(1) or h == C(1) or bf in (C(1), C(-1))
            ok = ok or any(unsigned(bf) == unsigned(a) and unsigned(bh) == unsigned(b) for a, b in canon_pairs)
            ok = ok or ef and eh and ef[1] == eh[1] and single(ef[1])[0] == canon_gcd(ef[0], eh[0])
            if not ok:
                return False
    return True


def canonical(st, n, d, canon_pairs):
    """numerator n over denominator d is in lowest terms with a positive denominator in state st"""
    if n is None or d is None:
        return False
    nd = zz.norm_lin(st, d)
    if zz.point(st, nd) == 1 or zz.point(st, d) == 1:
        return True
    nn = zz.norm_lin(st, n)
    variants = [(n, d), (nn, nd)]
    for n, d in variants:
        # the same rational as a canonical input, possibly negated
        for (pn, pd) in canon_pairs:
            if d == pd and n in (pn, l_scale(pn, -1)):
                return True
            # equal powers of a canonical pair
            if len(d[1]) == 1 and d[0] == 0 and d[1][0][1] == 1 and len(n[1]) == 1 and n[0] == 0 and abs(n[1][0][1]) == 1:
                a, b = n[1][0][0], d[1][0][0]
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'pow' and a[2] == b[2] and b[1] == pd and a[1] in (pn, l_scale(pn, -1)):
                    return True
            # a zero power or unit exponent leaves constants
        at = canon_gcd(n, d)
        if at is not None and st.signs(l_add(L(at), C(-1))) == {0} and st.signs(d) <= {1}:
            return True
        x, y, g = common_gcd(st, n, d)
        if g is not None and st.signs(y) <= {1}:
            return True
        if coprime_products(st, n, d, canon_pairs) and st.signs(d) <= {1}:
            return True
    return False


def common_gcd(st, n, d):
    """n = tdiv(x, g), d = tdiv(y, g) with g = gcd(x, y): returns (x, y, g) or (n, d, None)"""
    def split(f):
        if len(f[1]) == 1 and f[0] == 0 and isinstance(f[1][0][0], tuple) and f[1][0][0][0] == 'tdiv' and f[1][0][1] in (1, -1):
            a = f[1][0][0]
            return l_scale(a[1], f[1][0][1]), a[2]
        return None, None
    x, g1 = split(n)
    y, g2 = split(d)
    if g1 is not None and g1 == g2 and g1 == L(canon_gcd(x, y)):
        return x, y, g1
    return n, d, None


def equal_atoms(st):
    """{atom: atom} for the atoms the state knows to be equal"""
    out = {}
    for f, sg in st.sgn.items():
        if sg == {0} and f[0] == 0 and len(f[1]) == 2 and sorted(c for _, c in f[1]) == [-1, 1]:
            x, y = sorted((a for a, _ in f[1]), key=repr)
            out[y] = x
    return out


def subst(v, eq):
    """form v with atoms replaced by the equal ones in eq"""
    def val(x):
        return subst(x, eq) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) and not isinstance(x[0], str) else x
    r = C(v[0])
    for a, c in v[1]:
        if a in eq:
            f = L(eq[a])
        elif isinstance(a, tuple) and a and a[0] == 'mul':
            f = C(1)
            for x in a[1:]:
                f = zz.l_mul2(f, val(x))
        elif isinstance(a, tuple) and a and a[0] in ('tdiv', 'tmod', 'pow', 'abs'):
            f = L((a[0],) + tuple(val(x) for x in a[1:]))
        else:
            f = L(a)
        r = l_add(r, l_scale(f, c))
    return r


def ratio_eq(st, n, d, N, D):
    """n/d == N/D"""
    if ratio_eq0(st, n, d, N, D):
        return True
    eq = equal_atoms(st)
    if not eq:
        return False
    n, d, g = common_gcd(st, n, d)
    return ratio_eq0(st, *(subst(x, eq) for x in (n, d, N, D)))


def ratio_eq0(st, n, d, N, D):
    for a, b in ((n, d), (zz.norm_lin(st, n), zz.norm_lin(st, d))):
        x, y, g = common_gcd(st, a, b)
        for X, Y in ((N, D), (zz.norm_lin(st, N), zz.norm_lin(st, D))):
            l, r = zz.l_mul2(x, Y), zz.l_mul2(y, X)
            if zz.eqv(st, l, r):
                return True
            if st.signs(X) == {0} and st.signs(x) == {0}:
                return True
            if x == X and y == Y:
                return True
            # same quotient after cancelling the exact divisors, and the same sign
            p, q = powers(b, -1, powers(a, 1, {})), powers(Y, -1, powers(X, 1, {}))
            if {k: e for k, e in p.items() if e} == {k: e for k, e in q.items() if e}:
                u, w = ({i * j for i in st.signs(t[0]) for j in st.signs(t[1])} for t in ((a, b), (X, Y)))
                if u == w and len(u) == 1:
                    return True
                if canon_sign(a) * canon_sign(b) == canon_sign(X) * canon_sign(Y):
                    return True
    return False


def canon_sign(v):
    """sign lost when the factors of v are taken up to sign"""
    r = 1
    a, c = single(v)
    if isinstance(a, tuple) and a[0] == 'mul' and c == -1:
        r = -1
    for f in factors(v):
        e = exact(f)
        g = e[0] if e else f
        if isinstance(single(g)[0], tuple) and single(g)[0][0] == 'mul':
            r *= canon_sign(g)
        elif unsigned(g) != g:
            r = -r
    return r


def enumerate_entries(prog, f, is_obj, cls, ctor_kinds=('ctor', 'cc', 'mc', 'dc')):
    objs, byval = [], []
    member = f.cls == cls and not zz.static_method(prog, f)
    if member and f.kind not in ctor_kinds:
        objs.append('this')
    for d in f.params:
        if is_obj(f.vars[d]['t']):
            (objs if prog.T(f.vars[d]['t']).get('ref') else byval).append(d)
    for part in zz.set_partitions(objs):
        yield [list(g) for g in part] + [[d] for d in byval], member


def analyse_q(prog):
    m = QModel(prog)
    found = []
    cov = {'functions': 0, 'entry_states': 0, 'exit_states': 0, 'canonical_obligations': 0, 'value_obligations': 0, 'division_obligations': 0}
    for f in sorted(m.layer, key=lambda f: (f.file, f.line)):
        if not m.access(f) or f.kind == 'dtor':
            continue
        if not (f.cls == m.C or any(m.is_obj(f.vars[d]['t']) for d in f.params) or m.is_obj(f.o['ret'])):
            continue
        cov['functions'] += 1
        for groups, member in enumerate_entries(prog, f, m.is_obj, m.C):
            if f.name == '__div' and any(len(g) > 1 and f.params[0] in g for g in groups):
                continue        # the internal division step computes in its output: its callers never alias (see DESIGN.md)
            st = State()
            names, pairs, vals = {}, [], {}
            for i, g in enumerate(groups):
                o = ('O', i)
                N, D = ('num', i), ('den', i)
                st.sym[N] = ((-INF, INF),)
                st.sym[D] = ((1, INF),)
                st.mem[o + (m.nf,)] = Int(((-INF, INF),), L(N))
                st.mem[o + (m.df,)] = Int(((1, INF),), L(D))
                pairs.append((L(N), L(D)))
                for d in g:
                    names[d] = o
                    vals[d] = (L(N), L(D))
            binds = {}
            for j, d in enumerate(f.params):
                t = f.vars[d]['t']
                T = prog.T(t)
                s = T.get('s', '').replace('const ', '').replace(' &&', '').replace(' &', '')
                if d in names:
                    binds[d] = LV(names[d])
                elif s == ZZC and not T.get('ptr'):
                    a = ('in', 'p%d' % j)
                    st.sym[a] = ((-INF, INF),)
                    st.mem[('O', 'p%d' % j)] = Int(((-INF, INF),), L(a))
                    binds[d] = LV(('O', 'p%d' % j))
                    vals[d] = L(a)
                elif T.get('int') or T.get('bool'):
                    a = ('in', 'p%d' % j)
                    st.sym[a] = rng(T)
                    binds[d] = Int(rng(T), L(a))
                    vals[d] = L(a)
                else:
                    binds[d] = TOP
            this = None
            if member:
                if f.kind in ('ctor', 'cc', 'mc', 'dc'):
                    names['this'] = ('O', 'this')
                this = Ptr(names['this'])
            label = 'distinct operands' if all(len(g) == 1 for g in groups) else 'same object: ' + '; '.join('/'.join('*this' if d == 'this' else f.vars[d]['n'] for d in g) for g in groups if len(g) > 1)
            it = ScalarInterp(prog, lambda g: g.key in m.keys, lambda kind, fn, n, text: found.append((kind, fn, n, text, label, f)))
            cov['entry_states'] += 1
            for s, v, how in it.run(f, st, binds, this):
                cov['exit_states'] += 1
                if how != 'return':
                    continue
                check_q_exit(m, f, s, v, names, vals, pairs, label, found, cov)
            cov['division_obligations'] += it.stats['divs']
    return found, cov


def check_q_exit(m, f, s, v, names, vals, pairs, label, found, cov):
    prog = m.prog
    outs = {}
    moved = [d for d in f.params if d in names and prog.T(f.vars[d]['t']).get('ref') == 2]
    for d, o in names.items():
        if d in moved and not any(e not in moved and p == o for e, p in names.items()):
            continue
        if d != 'this' and not prog.T(f.vars[d]['t']).get('ref'):
            continue
        outs[o] = '*this' if d == 'this' else 'parameter ' + f.vars[d]['n']
    if isinstance(v, LV) and m.is_obj(f.o['ret']) and not prog.T(f.o['ret']).get('ref'):
        outs[v.p] = 'result'

    def rd(o, fld):
        w = s.mem.get(o + (fld,))
        return w.n if isinstance(w, Int) else None
    for o, nm in outs.items():
        cov['canonical_obligations'] += 1
        n, d = rd(o, m.nf), rd(o, m.df)
        if not canonical(s, n, d, pairs):
            z = d is None or 0 in s.signs(d)
            found.append(('zeroden' if z else 'canonical', f, None, '%s may be left %s' % (nm, 'with a zero denominator' if z else 'not in lowest terms with a positive denominator'), label, f))
    sp = q_spec(m, f, vals, names)
    if not sp:
        return
    ps = f.params
    dv = None
    if f.cls == m.C and f.o.get('op') == '/=':
        dv = vals.get(ps[0])
    elif f.cls is None and f.o.get('op') == '/' and len(ps) == 2 or f.kind == 'ctor' and len(ps) == 2:
        dv = vals.get(ps[1])
    if dv is not None:
        cov['zero_divisor_obligations'] = cov.get('zero_divisor_obligations', 0) + 1
        if isinstance(dv, tuple) and len(dv) == 2 and isinstance(dv[0], tuple) and isinstance(dv[1], tuple) and m.is_obj(f.vars[ps[-1]]['t']):
            dv = dv[0]
        if 0 in s.signs(dv):
            found.append(('zeroden', f, None, 'a normal return although the divisor may be zero', label, f))
    for k, w in sp.items():
        cov['value_obligations'] += 1
        if k in ('bool', 'eq', 'sgn'):
            x = v if isinstance(v, Int) else None
            r = None if x is None else 0 if x.s == ((0, 0),) else 1 if not meet(x.s, ((0, 0),)) else None
            if k == 'sgn':
                sg = s.signs(w)
                ok = x is not None and len(sg) == 1 and x.s == ((list(sg)[0],) * 2,)
            elif k == 'eq':
                (an, ad), (bn, bd), neg = w
                dn, dd = s.signs(l_add(an, bn, -1)), s.signs(l_add(ad, bd, -1))
                if r is not None and neg:
                    r = 1 - r
                ok = r == 1 and dn == {0} and dd == {0} or r == 0 and (0 not in dn or 0 not in dd)
            else:
                form, truth = w
                sg = s.signs(form)
                ok = r == 1 and sg <= truth or r == 0 and not sg & truth
            if not ok:
                found.append(('value', f, None, 'the answer returned does not follow from the compared values', label, f))
            continue
        o = v.p if k == 'ret' and isinstance(v, LV) else names.get(k)
        nm = 'the value returned' if k == 'ret' else '*this' if k == 'this' else f.vars[k]['n']
        if o is None:
            found.append(('value', f, None, '%s is not the specified result' % nm, label, f))
            continue
        n, d = rd(o, m.nf), rd(o, m.df)
        if k == 'ret' and f.name == 'abs':
            sg = s.signs(w[0])
            w = (w[0] if sg <= {0, 1} else l_scale(w[0], -1), w[1])
        if n is None or d is None or not ratio_eq(s, n, d, w[0], w[1]):
            found.append(('value', f, None, '%s is not the specified result' % nm, label, f))


def q_spec(m, f, vals, names):
    op = f.o.get('op')
    ps = f.params
    P = lambda i: vals.get(ps[i]) if i < len(ps) else None
    pair = lambda x: x if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) else (x, C(1)) if x is not None else None
    M, A = zz.l_mul2, l_add
    if f.kind == 'dc':
        return {'this': (C(0), C(1))}
    if f.kind in ('cc', 'mc'):
        return {'this': P(0)}
    if f.kind == 'ctor':
        if len(ps) == 1 and P(0) is not None:
            return {'this': (P(0), C(1))}
        if len(ps) == 2 and P(0) is not None and P(1) is not None:
            return {'this': (P(0), P(1))}
        return {}
    isq = lambda i: i < len(ps) and m.is_obj(f.vars[ps[i]]['t'])
    if op == '=' and len(ps) == 1:
        return {'this': P(0) if isq(0) else (P(0), C(1))} if P(0) is not None else {}

    def comb(o, a, b):
        if o == '+':
            return A(M(a[0], b[1]), M(b[0], a[1])), M(a[1], b[1])
        if o == '-':
            return A(M(a[0], b[1]), M(b[0], a[1]), -1), M(a[1], b[1])
        if o == '*':
            return M(a[0], b[0]), M(a[1], b[1])
        return M(a[0], b[1]), M(a[1], b[0])
    if f.cls == m.C and op in ('+=', '-=', '*=', '/=') and isq(0):
        return {'this': comb(op[0], vals['this'], P(0))}
    if f.cls is None and op in ('+', '-', '*', '/') and isq(0) and isq(1):
        return {'ret': comb(op, P(0), P(1))}
    if f.cls is None and op == '-' and len(ps) == 1 and isq(0):
        return {'ret': (l_scale(P(0)[0], -1), P(0)[1])}
    if f.cls is None and op in ('==', '!=') and isq(0) and isq(1):
        return {'eq': (P(0), P(1), op == '!=')}
    if f.cls is None and op in ('<', '>', '<=', '>=') and isq(0) and isq(1):
        a, b = P(0), P(1)
        return {'bool': (A(M(a[0], b[1]), M(b[0], a[1]), -1), {'<': {-1}, '>': {1}, '<=': {-1, 0}, '>=': {0, 1}}[op])}
    if f.cls == m.C and f.name == 'operator bool':
        return {'bool': (vals['this'][0], {-1, 1})}
    if f.cls == m.C and f.name == 'is_zero':
        return {'bool': (vals['this'][0], {0})}
    if f.cls is None and f.name == 'sgn' and isq(0):
        return {'sgn': P(0)[0]}
    if f.cls is None and f.name == 'abs' and isq(0):
        return {'ret': P(0)}
    if f.cls is None and f.name == 'pow' and isq(0) and len(ps) == 2:
        return {'ret': (L(('pow', P(0)[0], P(1))), L(('pow', P(0)[1], P(1))))}
    if f.cls == m.C and f.name == 'swap' and isq(0):
        return {'this': P(0), ps[0]: vals['this']}
    if f.cls is None and f.name == '__div' and len(ps) in (3, 4) and names.get(ps[0]) != (names.get(ps[1]) if len(ps) == 4 else 0):
        a, b = pair(P(len(ps) - 2)), pair(P(len(ps) - 1))
        r = {ps[0]: comb('/', a, b)} if a and b else {}
        if r and len(ps) == 4:
            r[ps[1]] = (C(0), C(1))
        return r
    return {}


# ---------------------------------------------------------------- residues modulo a word-size prime
class ZpModel:
    C = 'clpoly::Zp'

    def __init__(self, prog):
        self.prog = prog
        rec = prog.records.get(self.C)
        if not rec:
            raise ir.AnalysisBroken('class Zp not found')
        names = [f['name'] for f in rec['fields']]
        for need in ('_i', '_p', '_ninv', '_norm'):
            if need not in names:
                raise ir.AnalysisBroken('Zp no longer has the field ' + need)
        if len(names) != 4:
            raise ir.AnalysisBroken('Zp has other fields than residue, modulus and the two constants')
        self.layer = [f for f in prog.fns.values() if f.blocks and (f.cls == self.C or f.file.endswith('/number.hh') and f.name not in ('inv_prime',))]
        self.keys = set(f.key for f in self.layer)
        pre = [f for f in prog.fns.values() if f.cls == self.C and len(f.params) == 3 and not self.is_obj(f.vars[f.params[0]]['t']) and all(prog.T(f.vars[d]['t']).get('ref') == 1 for d in f.params[1:])]
        if len(pre) != 1:
            raise ir.AnalysisBroken('the function computing the reduction constants of Zp was not recognised')
        self.pre = pre[0]
        self.mulk = set(f.key for f in prog.fns.values() if f.cls == self.C and f.kind not in ('ctor', 'cc', 'mc', 'dc') and len(f.params) == 2 and prog.T(f.o['ret']).get('int') and any(
            x['k'] == 'Mem' and x.get('n') == '_ninv' for x in f.nodes))
        if not self.mulk:
            raise ir.AnalysisBroken('the modular product of Zp was not recognised')
        self.svars = {}
        for f in self.layer:
            for x in f.nodes:
                if x['k'] == 'Mem' and x.get('svar'):
                    self.svars[x['svar']] = 1
                if x['k'] == 'Ref' and f.vars[x['d']]['k'] == 'global' and 'Zp' in f.vars[x['d']].get('qn', ''):
                    self.svars[f.vars[x['d']]['qn']] = 1

    def is_obj(self, t):
        T = self.prog.T(t)
        return T.get('s', '').replace('const ', '').replace(' &&', '').replace(' &', '') == self.C and not T.get('ptr')


PMAX = M64 - 1


class ZpInterp(ScalarInterp):
    """the three kernels (reduction constants, modular product, modular inverse) are abstracted by what they compute; the
    bodies of the first two are certified separately (check_constants_kernel, lib/kernel.py)"""
    model = None
    phi = True

    def call(self, fn, st, n, callee, args, this, retobj=None):
        m = self.model
        if callee.key == m.pre.key:
            d = callee.params
            p = self.as_int(st, args[0], {'int': 64})
            out = []
            for t, cn, ck in zp_constants(self, st, p):
                for a, v in ((args[1], cn), (args[2], ck)):
                    if not isinstance(a, LV):
                        raise ir.AnalysisBroken('reduction constants are not stored through a reference')
                    t.mem[a.p] = v
                t.tmp[n] = TOP
                out.append(t)
            return out
        if callee.key in m.mulk:
            a, b = (self.as_int(st, z, {'int': 64}) for z in args[:2])
            o = this.t if isinstance(this, Ptr) else None
            p = st.mem.get(o + ('_p',)) if o else None
            c, k = (st.mem.get(o + (q,)) if o else None for q in ('_ninv', '_norm'))
            ok = isinstance(p, Int) and p.n is not None and a.n is not None and b.n is not None and isinstance(c, Int) and isinstance(k, Int)
            if ok:
                ok = zz.eqv(st, c.n, l_op('ninv', p.n)) and zz.eqv(st, k.n, l_op('clz', p.n)) if st.signs(p.n) == {1} else False
                for z in (a, b):
                    ok = ok and (st.prove_ge(z.n) or lo(z.s) >= 0) and st.prove_ge(l_add(l_add(p.n, C(-1)), z.n, -1))
            if not ok:
                self.alarm('kernel', fn, n, 'modular product called with an operand outside 0..p-1 or with constants of another modulus')
                st.tmp[n] = Int(((0, PMAX),))
                return [st]
            v = L(('mulmod',) + tuple(sorted((a.n, b.n), key=repr)) + (p.n,))
            st.sym[v[1][0][0]] = ((0, PMAX),)
            st.add_ge(v)
            st.add_ge(l_add(l_add(p.n, C(-1)), v, -1))
            st.tmp[n] = Int(((0, PMAX),), v)
            return [st]
        return super().call(fn, st, n, callee, args, this, retobj)

    def bi_inv_prime(self, fn, st, n, x, args):
        i, p = self.as_int(st, args[0], {'int': 64}), self.as_int(st, args[1], {'int': 64})
        v = l_op('modinv', i.n, p.n)
        if v is None:
            st.tmp[n] = Int(((0, PMAX),))
            return [st]
        if not st.signs(i.n) == {1}:
            self.alarm('divzero', fn, n, 'the inverse of a residue that may be zero is computed')
            st = st.copy()
            self.set_signs(st, i.n, {1})
        st.sym[v[1][0][0]] = ((0, PMAX),)
        st.add_ge(v)
        st.add_ge(l_add(l_add(p.n, C(-1)), v, -1))
        st.tmp[n] = Int(((0, PMAX),), v)
        return [st]


def zp_constants(it, st, p):
    """the reduction constants belonging to modulus value p in state st: [(state, ninv, norm)]"""
    out = []
    if p.n is None:
        return [(st, Int(((0, PMAX),)), Int(((0, 63),)))]
    sg = st.signs(p.n)
    if 0 in sg:
        t = st.copy()
        if not p.n[1] or it.set_signs(t, p.n, {0}) is None:
            out.append((t, K(0), K(0)))
    if 1 in sg:
        t = st.copy()
        if not p.n[1] or it.set_signs(t, p.n, {1}) is None:
            a, b = l_op('ninv', p.n), l_op('clz', p.n)
            t.sym[a[1][0][0]] = ((0, PMAX),)
            t.sym[b[1][0][0]] = ((0, 63),)
            out.append((t, Int(((0, PMAX),), a), Int(((0, 63),), b)))
    return out


def analyse_zp(prog):
    m = ZpModel(prog)
    found = []
    cov = {'functions': 0, 'entry_states': 0, 'exit_states': 0, 'constant_obligations': 0, 'residue_obligations': 0, 'value_obligations': 0, 'division_obligations': 0}
    acc = {f.line: f['acc'] if isinstance(f, dict) else 0 for f in []}
    RAW = set()
    for f in sorted(m.layer, key=lambda f: (f.file, f.line)):
        if f.kind == 'dtor' or f.lambda_ if hasattr(f, 'lambda_') else False:
            continue
        meths = [q for q in prog.records[m.C]['methods'] if q['line'] == f.line] if f.cls == m.C else []
        if meths and all(q['acc'] != 0 for q in meths):
            continue
        if not (f.cls == m.C or any(m.is_obj(f.vars[d]['t']) for d in f.params) or m.is_obj(f.o['ret'])):
            continue
        # accessor handing out the residue by reference: the caller's writes are outside the class
        rt = prog.T(f.o['ret'])
        if f.cls == m.C and rt.get('ref') == 1 and not rt.get('const') and not m.is_obj(f.o['ret']):
            RAW.add(f.key)
            continue
        cov['functions'] += 1
        for groups, member in enumerate_entries(prog, f, m.is_obj, m.C):
            reps = [('set',) * len(groups)]
            if f.kind in ('cc', 'mc', 'ca', 'ma') or f.o.get('op') == '=' or len(groups) <= 1 or f.name in ('addmul', 'submul', 'swap', '__div'):
                for k in range(len(groups)):
                    g = groups[k]
                    if f.name in ('addmul', 'submul') and not g == [f.params[0]]:
                        continue
                    if f.name == '__div' and any(d in f.params[-2:] for d in g):
                        continue
                    if f.o.get('op') in ('/', '*', '+', '-', '/=', '*=', '+=', '-=', '==', '!=', '>=', '<=', '<', '>') or f.name in ('inv', 'normalization', 'pow'):
                        continue
                    reps.append(tuple('unset' if i == k else 'set' for i in range(len(groups))))
            for rep in reps:
                one_zp(m, prog, f, groups, member, rep, found, cov)
    return found, cov


def one_zp(m, prog, f, groups, member, rep, found, cov):
    st = State()
    P = ('prime',)
    st.sym[P] = ((2, PMAX),)
    it = ZpInterp(prog, lambda g: g.key in m.keys, lambda kind, fn, n, text: found.append((kind, fn, n, text, label, f)))
    it.model = m
    (st, cn, ck), = zp_constants(it, st, Int(((2, PMAX),), L(P)))
    names, vals = {}, {}
    for i, (g, r) in enumerate(zip(groups, rep)):
        o = ('O', i)
        if r == 'set':
            a = ('in', i)
            st.sym[a] = ((0, PMAX - 1),)
            st.add_ge(L(a))
            st.add_ge(l_add(l_add(L(P), C(-1)), L(a), -1))
            st.mem[o + ('_i',)] = Int(st.sym[a], L(a))
            st.mem[o + ('_p',)] = Int(st.sym[P], L(P))
            st.mem[o + ('_ninv',)] = cn
            st.mem[o + ('_norm',)] = ck
            val = (L(a), L(P))
        else:
            for q in ('_i', '_p', '_ninv', '_norm'):
                st.mem[o + (q,)] = K(0)
            val = (C(0), C(0))
        for d in g:
            names[d] = o
            vals[d] = val
    for sv in m.svars:
        a = ('static',)
        st.sym[a] = ((0, 0), (2, PMAX))
        st.mem[('G', sv)] = Int(st.sym[a], L(a))
    binds = {}
    for j, d in enumerate(f.params):
        T = prog.T(f.vars[d]['t'])
        s = T.get('s', '').replace('const ', '').replace(' &&', '').replace(' &', '')
        if d in names:
            binds[d] = LV(names[d])
        elif s == ZZC and not T.get('ptr'):
            a = ('in', 'p%d' % j)
            st.sym[a] = ((-INF, INF),)
            st.mem[('O', 'p%d' % j)] = Int(((-INF, INF),), L(a))
            binds[d] = LV(('O', 'p%d' % j))
            vals[d] = L(a)
        elif T.get('int') or T.get('bool'):
            a = ('in', 'p%d' % j)
            r = rng(T)
            # a modulus handed in is at least 2 (documented precondition of every modular type)
            if modulus_param(m, f, d):
                r = ((2, PMAX),)
            st.sym[a] = r
            binds[d] = Int(r, L(a))
            vals[d] = L(a)
        else:
            binds[d] = TOP
    this = None
    if member:
        if f.kind in ('ctor', 'cc', 'mc', 'dc'):
            names['this'] = ('O', 'this')
        this = Ptr(names['this'])
    label = ('same object: ' if any(len(g) > 1 for g in groups) else '') + '; '.join('%s %s' % ('/'.join('*this' if d == 'this' else f.vars[d]['n'] for d in g), r) for g, r in zip(groups, rep))
    cov['entry_states'] += 1
    for s, v, how in it.run(f, st, binds, this):
        cov['exit_states'] += 1
        if how == 'return':
            zp_exit(m, it, f, s, v, names, vals, label, found, cov, rep)
    cov['division_obligations'] += it.stats['divs']


def modulus_param(m, f, d):
    if f.vars[d]['n'] in ('p', 'prime', 'mod'):
        return True
    return f.cls == m.C and f.kind == 'ctor' and d == f.params[-1]


def zp_exit(m, it, f, s, v, names, vals, label, found, cov, rep):
    prog = m.prog
    outs = {}
    for d, o in names.items():
        if d != 'this' and (not prog.T(f.vars[d]['t']).get('ref') or prog.T(f.vars[d]['t']).get('ref') == 2):
            continue
        outs[o] = '*this' if d == 'this' else 'parameter ' + f.vars[d]['n']
    if isinstance(v, LV) and m.is_obj(f.o['ret']) and not prog.T(f.o['ret']).get('ref'):
        outs[v.p] = 'result'

    def rd(o, fld):
        w = s.mem.get(o + (fld,))
        return w if isinstance(w, Int) else None
    for o, nm in outs.items():
        i, p, c, k = (rd(o, q) for q in ('_i', '_p', '_ninv', '_norm'))
        cov['constant_obligations'] += 1
        if None in (i, p, c, k) or p.n is None:
            found.append(('constants', f, None, 'fields of %s are not all set' % nm, label, f))
            continue
        ok = True
        for t, cn, ck in zp_constants(it, s, Int(p.s, p.n)):
            if not zz.eqv(t, c.n, cn.n) or not zz.eqv(t, k.n, ck.n):
                ok = False
        if not ok:
            found.append(('constants', f, None, 'the reduction constants of %s do not belong to its modulus' % nm, label, f))
        cov['residue_obligations'] += 1
        setter = f.cls == m.C and f.name == 'prime' and len(f.params) == 1
        if setter:
            continue            # changing the modulus of an object is only done on a zero residue; see DESIGN.md
        z = s.signs(p.n)
        if z == {0}:
            good = s.signs(i.n) == {0} if i.n is not None else False
        else:
            good = i.n is not None and (s.signs(i.n) == {0} or (s.prove_ge(i.n) or lo(i.s) >= 0) and s.prove_ge(l_add(l_add(p.n, C(-1)), i.n, -1)))
        if not good:
            found.append(('residue', f, None, 'the residue of %s may lie outside 0..p-1' % nm, label, f))
    sp = zp_spec(m, f, vals, names)
    for k, w in sp.items():
        cov['value_obligations'] += 1
        if k == 'bool':
            form, truth = w
            sg = s.signs(zz.norm_lin(s, form)) & s.signs(form)
            x = v if isinstance(v, Int) else None
            r = None if x is None else 0 if x.s == ((0, 0),) else 1 if not meet(x.s, ((0, 0),)) else None
            if not (r == 1 and sg <= truth or r == 0 and not sg & truth):
                found.append(('value', f, None, 'the answer returned does not follow from the compared residues', label, f))
            continue
        o = v.p if k == 'ret' and isinstance(v, LV) else names.get(k)
        nm = 'the value returned' if k == 'ret' else '*this' if k == 'this' else f.vars[k]['n']
        i, p = (rd(o, '_i'), rd(o, '_p')) if o else (None, None)
        if i is None or p is None or not zz.eqv(s, p.n, w[1]):
            found.append(('value', f, None, '%s does not carry the modulus of its operands' % nm, label, f))
            continue
        if w[0] is None:
            continue
        if not congruent(s, i.n, w[0], w[1]):
            found.append(('value', f, None, '%s is not congruent to the specified result' % nm, label, f))


def congruent(s, a, b, p):
    """a and b are equal modulo p, also inside modular products"""
    if a is None or b is None:
        return False
    d = l_add(zz.norm_lin(s, a), zz.norm_lin(s, b), -1)
    if zz.point(s, d) == 0 or any(l_add(d, l_scale(p, q)) == C(0) for q in (-1, 1)):
        return True
    (x, c), (y, e) = single(a), single(b)
    if c == e and isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'mulmod' and x[3] == y[3] == p:
        return any(congruent(s, x[1], y[j], p) and congruent(s, x[2], y[3 - j], p) for j in (1, 2))
    return False


def zp_spec(m, f, vals, names):
    op = f.o.get('op')
    ps = f.params
    P = lambda i: vals.get(ps[i]) if i < len(ps) else None
    iso = lambda i: i < len(ps) and m.is_obj(f.vars[ps[i]]['t'])
    if f.kind in ('cc', 'mc'):
        return {'this': P(0)}
    if f.kind == 'ctor':
        if len(ps) == 2 and P(0) is not None:
            return {'this': (l_op('fmod', P(0), P(1)), P(1))}
        if len(ps) == 1:
            return {'this': (C(0), P(0))}
        return {}
    if f.cls == m.C and op == '=' and len(ps) == 1 and P(0) is not None:
        if iso(0):
            return {'this': P(0)}
        t = vals['this']
        return {'this': (l_op('fmod', P(0), t[1]) if t[1] != C(0) else None, t[1])}
    if f.cls == m.C and op in ('+=', '-=') and iso(0):
        t = vals['this']
        return {'this': (l_add(t[0], P(0)[0], 1 if op == '+=' else -1), t[1])}
    mm = lambda a, b, p: L(('mulmod',) + tuple(sorted((a, b), key=repr)) + (p,))
    inv = lambda a, p: l_op('modinv', a, p)
    if f.cls == m.C and op in ('*=', '/=') and iso(0):
        t, b = vals['this'], P(0)[0]
        return {'this': (mm(t[0], b if op == '*=' else inv(b, t[1]), t[1]), t[1])}
    if f.cls is None and op in ('+', '-') and iso(0) and iso(1):
        return {'ret': (l_add(P(0)[0], P(1)[0], 1 if op == '+' else -1), P(0)[1])}
    if f.cls is None and op in ('*', '/') and iso(0) and iso(1):
        a, b, p = P(0)[0], P(1)[0], P(0)[1]
        return {'ret': (mm(a, b if op == '*' else inv(b, p), p), p)}
    if f.cls is None and f.name in ('addmul', 'submul') and len(ps) == 3 and iso(0) and P(0)[1] != C(0):
        a, b, p = P(1)[0], P(2)[0], P(1)[1]
        return {ps[0]: (l_add(P(0)[0], mm(a, b, p), 1 if f.name == 'addmul' else -1), p)}
    if f.cls is None and f.name in ('addmul', 'submul') and len(ps) == 3 and iso(0):
        a, b, p = P(1)[0], P(2)[0], P(1)[1]
        v = mm(a, b, p)
        return {ps[0]: (v if f.name == 'addmul' else l_scale(v, -1), p)}
    if f.cls is None and op in ('*', '/') and len(ps) == 2 and (iso(0) or iso(1)):
        k = 0 if iso(0) else 1
        p = P(k)[1]
        o = l_op('fmod', P(1 - k), p) if P(1 - k) is not None else None
        if o is None or op == '/' and k == 1:
            return {'ret': (None, p)}
        return {'ret': (mm(P(k)[0], o if op == '*' else inv(o, p), p), p)}
    if f.cls is None and f.name == '__div' and len(ps) in (3, 4) and all(iso(i) for i in range(len(ps))):
        a, b, p = P(len(ps) - 2)[0], P(len(ps) - 1)[0], P(len(ps) - 2)[1]
        r = {ps[0]: (mm(a, inv(b, p), p), p)}
        if len(ps) == 4:
            if names[ps[0]] == names[ps[1]]:
                return {}
            r[ps[1]] = (C(0), p)
        return r
    if f.cls == m.C and op == '-' and not ps:
        t = vals['this']
        return {'ret': (l_scale(t[0], -1), t[1])}
    if f.cls == m.C and f.name == 'inv' and not ps:
        return {'ret': (inv(vals['this'][0], vals['this'][1]), vals['this'][1])}
    if f.cls == m.C and f.name == 'operator bool':
        return {'bool': (vals['this'][0], {-1, 1})}
    if f.cls is None and op in ('==', '!=', '>=') and len(ps) == 2:
        t = {'==': {0}, '!=': {-1, 1}, '>=': {0, 1}}[op]
        if iso(0) and iso(1):
            return {'bool': (l_add(P(0)[0], P(1)[0], -1), t)}
        if iso(0) and op != '>=':
            return {'bool': (l_add(P(0)[0], l_op('fmod', P(1), P(0)[1]), -1), t)}
        if iso(0):
            return {'bool': (l_add(P(0)[0], P(1), -1), t)}
        if iso(1):
            return {'bool': (l_add(P(1)[0], l_op('fmod', P(0), P(1)[1]), -1), t)}
    return {}
