"""Entry states, contracts and exit obligations for the arbitrary-precision integer class, run on lib/absint.py."""
import itertools
import ir
from absint import *
import absint

ANY = ((-INF, INF),)
BIG = ((-INF, I64[0] - 1), (I64[1] + 1, INF))
SMALL = (I64,)


def set_partitions(xs):
    if not xs:
        yield []
        return
    h, t = xs[0], xs[1:]
    for p in set_partitions(t):
        yield [[h]] + p
        for i in range(len(p)):
            yield p[:i] + [[h] + p[i]] + p[i + 1:]


def norm_lin(st, n):
    """normal form of a linear form in state st: atoms with a point range become constants, operations are folded,
    floor division is expressed by truncated division where the signs decide it"""
    if n is None:
        return None
    r = C(n[0])
    for a, c in n[1]:
        r = l_add(r, l_scale(norm_atom(st, a), c))
    return r


class RawSigns:
    """state view that remembers the remainder atom as the program wrote it"""

    def __init__(self, st, raw):
        self.st, self.raw = st, raw
        self.sym = st.sym

    def signs(self, n):
        return self.st.signs(n)

    def range(self, n):
        return self.st.range(n)


def point(st, n):
    if not n[1]:
        return n[0]
    s = st.range(n)
    if len(s) == 1 and s[0][0] == s[0][1]:
        return s[0][0]
    if st.signs(n) == {0}:
        return 0
    return None


def norm_atom(st, a):
    s = st.sym.get(a)
    if s and len(s) == 1 and s[0][0] == s[0][1] and s[0][0] not in (INF, -INF):
        return C(s[0][0])
    if isinstance(a, tuple) and a and isinstance(a[0], str) and len(a) > 1 and a[0] in OPS:
        args = [norm_lin(st, x) for x in a[1:]]
        if any(x is None for x in args):
            return L(a)
        if a[0] in ('fdiv', 'fmod'):
            raw = mk_tmod(a[1], a[2])
            st = RawSigns(st, raw)
        args2 = []
        for x in args:
            p = point(st, x)
            args2.append(C(p) if p is not None else x)
        return OPS[a[0]](st, *args2)
    return L(a)


def lead_neg(x):
    return bool(x[1]) and x[1][0][1] < 0


def o_mul(st, *xs):
    r = C(1)
    for x in xs:
        r = l_mul2(r, x)
    return r


def l_mul2(x, y):
    """distribute products over sums so that equal polynomials get equal forms"""
    r = C(x[0] * y[0])
    for a, c in x[1]:
        r = l_add(r, l_scale(L(a), c * y[0]))
    for b, d in y[1]:
        r = l_add(r, l_scale(L(b), d * x[0]))
    for a, c in x[1]:
        for b, d in y[1]:
            fa = list(a[1:]) if isinstance(a, tuple) and a[0] == 'mul' else [L(a)]
            fb = list(b[1:]) if isinstance(b, tuple) and b[0] == 'mul' else [L(b)]
            r = l_add(r, l_scale(L(('mul',) + tuple(sorted(fa + fb, key=repr))), c * d))
    return r


def o_tdiv(st, a, b):
    if l_const(a) and l_const(b) and b[0]:
        return C(absint.tdiv(a[0], b[0]))
    if l_const(a) and a[0] == 0:
        return C(0)
    if l_const(b) and b[0] in (1, -1):
        return l_scale(a, b[0])
    return mk_tdiv(a, b)


def o_tmod(st, a, b):
    if l_const(a) and l_const(b) and b[0]:
        return C(a[0] - b[0] * absint.tdiv(a[0], b[0]))
    if l_const(b) and b[0] in (1, -1) or l_const(a) and a[0] == 0:
        return C(0)
    return mk_tmod(a, b)


def tsign(st, r, a, b):
    """possible signs of the truncated remainder r of a by b in st"""
    if l_const(r):
        return {(r[0] > 0) - (r[0] < 0)}
    sg = st.signs(r)
    if isinstance(st, RawSigns) and st.raw is not None:
        sg &= st.signs(st.raw)
    sa = st.signs(a)
    if 1 not in sa:
        sg -= {1}
    if -1 not in sa:
        sg -= {-1}
    return sg


def o_fdiv(st, a, b):
    q, r = o_tdiv(st, a, b), o_tmod(st, a, b)
    sg, sb = tsign(st, r, a, b), st.signs(b)
    if sg <= {0} or sg <= {0, 1} and sb <= {1} or sg <= {0, -1} and sb <= {-1}:
        return q
    if 0 not in sg and len(sg) == 1 and len(sb - {0}) == 1 and sg != sb - {0}:
        return l_add(q, C(-1))
    return L(('fdiv', a, b))


def o_fmod(st, a, b):
    r = o_tmod(st, a, b)
    sg, sb = tsign(st, r, a, b), st.signs(b)
    if sg <= {0} or sg <= {0, 1} and sb <= {1} or sg <= {0, -1} and sb <= {-1}:
        return r if sg != {0} else C(0)
    if 0 not in sg and len(sg) == 1 and len(sb - {0}) == 1 and sg != sb - {0}:
        return l_add(r, b)
    return L(('fmod', a, b))


def o_pow(st, a, e):
    if l_const(e) and e[0] == 0:
        return C(1)
    if l_const(e) and e[0] == 1:
        return a
    if l_const(a) and a[0] == 1:
        return C(1)
    if l_const(a) and a[0] == 0 and lo(st.range(e)) > 0:
        return C(0)
    return L(('pow', a, e))


def o_shr(st, a, n):
    # floor division by 2^n; inside the int64 range every n >= 63 gives -1 or 0
    ra = st.range(a)
    if lo(ra) >= I64[0] and hi(ra) <= I64[1] and lo(st.range(n)) >= 63:
        if hi(ra) < 0:
            return C(-1)
        if lo(ra) >= 0:
            return C(0)
    if l_const(n) and n[0] == 0:
        return a
    if l_const(a) and a[0] in (0, -1):
        return a
    return L(('shr', a, n))


def o_shl(st, a, n):
    if l_const(n) and n[0] == 0:
        return a
    if l_const(a) and a[0] == 0:
        return a
    if l_const(a) and l_const(n):
        return C(a[0] << n[0])
    return L(('shl', a, n))


def generic(name):
    return lambda st, *xs: L((name,) + xs)


def comm(name):
    return lambda st, *xs: L((name,) + tuple(sorted(xs, key=repr)))


OPS = {'mul': o_mul, 'tdiv': o_tdiv, 'tmod': o_tmod, 'fdiv': o_fdiv, 'fmod': o_fmod, 'pow': o_pow, 'shr': o_shr, 'shl': o_shl,
       'gcd': comm('gcd'), 'lcm': comm('lcm'), 'inv': generic('inv'), 'nextprime': generic('nextprime'), 'prevprime': generic('prevprime')}


def eqv(st, got, want):
    if got is None or want is None:
        return False
    if got == want:
        return True
    d = norm_lin(st, l_add(got, want, -1))
    if d is not None and not d[1]:
        return d[0] == 0
    g, w = norm_lin(st, got), norm_lin(st, want)
    if g == w:
        return True
    d = l_add(g, w, -1)
    return point(st, d) == 0


class ZZModel:
    """field roles are taken from the record: the integer field is the inline value, the pointer field the heap storage"""

    def __init__(self, prog):
        self.prog = prog
        rec = prog.records.get('clpoly::ZZ')
        if not rec:
            raise ir.AnalysisBroken('class clpoly::ZZ not found')
        self.vf = self.pf = None
        for f in rec['fields']:
            t = prog.T(f['t'])
            if t.get('ptr') and '__mpz_struct' in t.get('s', ''):
                self.pf = f['name']
            elif t.get('int') == 64 and t.get('sg'):
                self.vf = f['name']
        if not self.vf or not self.pf or len(rec['fields']) != 2:
            raise ir.AnalysisBroken('ZZ no longer has one 64-bit value field and one mpz pointer field')
        self.layer = [f for f in prog.fns.values() if f.blocks and (f.cls == 'clpoly::ZZ' or self.touches(f))]

    def is_zz(self, t):
        T = self.prog.T(t)
        s = T.get('s', '').replace('const ', '').replace(' &&', '').replace(' &', '')
        return s == 'clpoly::ZZ' and not T.get('ptr')

    def touches(self, f):
        """free function of the integer layer: works on ZZ objects' fields or on raw mpz storage"""
        if not f.file.startswith(ir.SRC):
            return False
        if f.file.endswith('/ZZ.hh'):
            return True
        return False

    def access(self, f):
        for m in self.prog.records['clpoly::ZZ']['methods']:
            if m['line'] == f.line and f.file.endswith('ZZ.hh'):
                return m['acc']
        return 0

    def private(self, f):
        """helpers whose contract is internal are verified at their call sites by inlining"""
        if f.cls == 'clpoly::ZZ':
            ms = [m for m in self.prog.records['clpoly::ZZ']['methods'] if m['line'] == f.line]
            if ms:
                return all(m['acc'] != 0 for m in ms)
        # raw storage helpers
        for d in f.params:
            s = self.prog.tstr(f.vars[d]['t'])
            if '__mpz_struct' in s and f.cls != 'clpoly::ZZ':
                return True
        return False


def run_function(model, f, on_alarm, on_exit, interp_hook=None, pre=()):
    """analyse f from every representation of its integer arguments and every way they may coincide"""
    prog = model.prog
    zzp = []           # ('this') and parameter ids that denote ZZ objects by reference
    byval = []
    isctor = f.kind in ('ctor', 'cc', 'mc', 'dc')
    member = f.cls == 'clpoly::ZZ' and not static_method(prog, f)
    if member and not isctor:
        zzp.append('this')
    for d in f.params:
        if model.is_zz(f.vars[d]['t']):
            (zzp if prog.T(f.vars[d]['t']).get('ref') else byval).append(d)
    n_entry = 0
    keyset = set(g.key for g in model.layer)
    for part in set_partitions(zzp):
        # two output references naming one object are a misuse of the interface, except through this/other
        outs = [d for d in zzp if d != 'this' and not prog.T(f.vars[d]['t']).get('const') and prog.T(f.vars[d]['t']).get('ref') == 1]
        if any(len([d for d in c if d in outs]) > 1 for c in part) and f.name != 'swap':
            continue
        groups = list(part) + [[d] for d in byval]
        for reps in itertools.product(('small', 'big'), repeat=len(groups)):
            st = State()
            names = {}
            vals = {}
            for i, (g, rep) in enumerate(zip(groups, reps)):
                o = ('O', i)
                a = ('in', i)
                for d in g:
                    names[d] = o
                    vals[d] = L(a)
                if rep == 'small':
                    st.sym[a] = SMALL
                    st.mem[o + (model.vf,)] = Int(SMALL, L(a))
                    st.mem[o + (model.pf,)] = Ptr(None)
                else:
                    st.sym[a] = BIG
                    b = ('stale', i)
                    st.sym[b] = SMALL
                    st.mem[o + (model.vf,)] = Int(SMALL, L(b))
                    h = ('H', 'in%d' % i)
                    st.mem[o + (model.pf,)] = Ptr(h)
                    st.mem[h] = Mpz('init', Int(BIG, L(a)))
            binds = {}
            sc = {}
            for j, d in enumerate(f.params):
                ty = prog.T(f.vars[d]['t'])
                if d in names:
                    binds[d] = LV(names[d])
                elif ty.get('ptr') and '__mpz_struct' in ty.get('s', ''):
                    h = ('X', j)
                    a = ('in', 'z%d' % j)
                    st.mem[h] = Mpz('init', Int(ANY, L(a)))
                    st.sym[a] = ANY
                    binds[d] = Ptr(h)
                    vals[d] = L(a)
                elif ty.get('int') or ty.get('bool'):
                    a = ('in', 'p%d' % j)
                    r = rng(ty)
                    if (f.name, f.vars[d]['n']) in pre:
                        r = (pre[(f.name, f.vars[d]['n'])],)
                    st.sym[a] = r
                    binds[d] = Int(r, L(a))
                    vals[d] = L(a)
                else:
                    binds[d] = TOP
            this = None
            if member:
                if isctor:
                    names['this'] = ('O', 'this')
                    st.mem[('O', 'this', model.vf)] = Int(SMALL, L(('uninit', 'v')))
                    st.mem[('O', 'this', model.pf)] = TOP
                this = Ptr(names['this'])
            label = ', '.join('%s=%s' % ('/'.join('*this' if d == 'this' else f.vars[d]['n'] for d in g), r) for g, r in zip(groups, reps))
            al = lambda kind, fn, n, text, label=label: on_alarm(kind, fn, n, text, label)
            it = Interp(prog, lambda g: g.key in keyset, al)
            it.model = model
            if interp_hook:
                interp_hook(it)
            n_entry += 1
            for s, v, how in it.run(f, st, binds, this):
                on_exit(s, v, how, names, vals, label, it)
    return n_entry


def static_method(prog, f):
    for m in prog.records.get(f.cls, {}).get('methods', []):
        if m['line'] == f.line and m['name'] == f.name:
            return m['static']
    return False


def has_stale(n):
    return n is not None and ('stale' in repr(n) or "'uninit'" in repr(n))


def check_objects(model, s, v, how, f, names, label, report):
    """exit obligations on representation and ownership"""
    prog = model.prog
    objs = {}
    for d, o in names.items():
        if d != 'this' and prog.T(f.vars[d]['t']).get('ref') != 1 and not prog.T(f.vars[d]['t']).get('ref'):
            continue
        nm = '*this' if d == 'this' else 'parameter ' + f.vars[d]['n']
        objs[o] = nm
    if f.kind == 'dtor':
        objs = {}
    if how == 'throw' and f.kind in ('ctor', 'cc', 'mc', 'dc'):
        objs = {k: w for k, w in objs.items() if w != '*this'}
    if how == 'return' and isinstance(v, LV) and model.is_zz(f.o['ret']) and not prog.T(f.o['ret']).get('ref'):
        objs[v.p] = 'result'
    held = {}
    for o, nm in objs.items():
        p = s.mem.get(o + (model.pf,))
        if not isinstance(p, Ptr):
            report('representation', f, '%s: storage pointer of %s is not determined' % (label, nm))
            continue
        if p.t is None:
            w = s.mem.get(o + (model.vf,))
            if not isinstance(w, Int) or has_stale(w.n):
                report('representation', f, '%s: %s has no heap storage and its inline value was never set' % (label, nm))
            continue
        m = s.mem.get(p.t)
        if not isinstance(m, Mpz) or m.st != 'init':
            report('lifetime', f, '%s: %s is left owning storage that is %s' % (label, nm, m.st if isinstance(m, Mpz) else 'unknown'))
            continue
        if p.t in held:
            report('ownership', f, '%s: %s and %s are left owning the same storage' % (label, held[p.t], nm))
        held[p.t] = nm
        if p.t[0] == 'X':
            report('ownership', f, '%s: %s is left owning storage of the caller' % (label, nm))
        c = m.c
        rr = meet(c.s, s.range(c.n)) if c.n is not None else c.s
        if meet(rr, SMALL):
            # perhaps provable by normal form
            nn = norm_lin(s, c.n)
            rr2 = meet(rr, s.range(nn)) if nn is not None else rr
            if meet(rr2, SMALL):
                report('representation', f, '%s: %s is left in heap storage with a value that may fit in 64 bits (range %s)' % (label, nm, fmt(rr)))
    # leaks: initialised heap or stack storage without owner
    owners = {w.t for k, w in s.mem.items() if isinstance(w, Ptr) and w.t and k[-1] == model.pf}
    for k, m in s.mem.items():
        if not isinstance(m, Mpz):
            continue
        if k[0] == 'H':
            if m.st in ('init', 'mixed') and (k not in owners or f.kind == 'dtor'):
                report('leak', f, '%s: big-integer storage obtained here has no owner on exit (%s)' % (label, how))
            elif m.st == 'cleared':
                report('leak', f, '%s: heap cell is cleared but never deleted' % label)
            elif m.st == 'uninit' and k not in owners:
                report('leak', f, '%s: heap cell is neither initialised nor deleted' % label)
        elif k[0] == 'V' and m.st in ('init', 'mixed'):
            report('leak', f, '%s: local big-integer storage is not cleared on exit (%s)' % (label, how))
        elif k[0] == 'X' and m.st != 'init':
            report('lifetime', f, '%s: storage of the caller is released' % label)


def fmt(s):
    def g(x):
        if x == INF:
            return '+inf'
        if x == -INF:
            return '-inf'
        return str(x)
    return ' '.join('[%s,%s]' % (g(a), g(b)) for a, b in s)


def value_of(model, s, o):
    """value number of object o in state s"""
    p = s.mem.get(o + (model.pf,))
    if not isinstance(p, Ptr):
        return None
    if p.t is None:
        w = s.mem.get(o + (model.vf,))
        return w.n if isinstance(w, Int) else None
    m = s.mem.get(p.t)
    return m.c.n if isinstance(m, Mpz) else None
