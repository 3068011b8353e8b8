"""A01: a gcd found through modular images or evaluation is returned only after it has been shown to divide both inputs.
A02: factor recombination accepts only exact divisors of the current cofactor, and replaces the cofactor by the quotient."""
import ir
import flow
import inline
from engine import Engine, E0, isplace

KEEP = {'cont', 'gcd', 'pp', 'polynomial_GCD', '__polynomial_GCD', 'polynomial_mod', 'prev_prime_64', 'next_prime_64', 'leadcoeff', 'get_first_var',
        'get_deg', 'degree', 'get_variables', 'poly_convert', 'pair_vec_div', 'pair_vec_multiplies', 'pair_vec_add', 'pair_vec_sub', 'is_number',
        'assign', 'factorize', '__mtshl_lift', '__wang_leading_coeff', '__select_eval_point', '__hensel_lift', '__cld_polys', '__build_cld_matrix',
        '__lll_reduce', '__extract_candidates', '__subset_product_mod', '__upoly_const_term', '__symmetric_mod', '__upoly_symmetric_mod',
        '__upoly_mod_coeff', '__zassenhaus_recombine', '__vanhoeij_recombine', '__factor_recombine', 'squarefreefactorize', 'derivative', 'lcm', 'abs',
        'comp_consistent', 'prem', 'pquo', 'swap', 'pow', 'resultant', 'discriminant', 'normalization', 'pair_vec_normalization'}
CORE = ('clpoly::ZZ', 'clpoly::QQ', 'clpoly::Zp', 'clpoly::basic_polynomial', 'clpoly::basic_monomial', 'clpoly::umonomial', 'clpoly::variable', 'clpoly::basic_polynomial<', 'clpoly::basic_monomial<')


def want(cur, e, g):
    if g.name in KEEP or not g.qn.startswith('clpoly::'):
        return False
    if g.o.get('lambda'):
        return True
    if g.cls and (g.cls in CORE or g.cls.split('<')[0] in CORE):
        return False
    if g.name.startswith('operator') or len(g.nodes) > 2500:
        return False
    if g.o.get('body') is False:
        return False
    return True


def base_type(prog, t):
    return prog.tstr(t)


class Verified(Engine):
    """tokens: ('P', i) parameter i; ('U', why) unverified; ('V', site) verified divisor; ('Q', site) its quotient"""

    def __init__(self, fn, mode, taint_params=(), nparams=2, rep=None):
        super().__init__(fn)
        self.mode = mode
        self.taint_params = taint_params
        self.rep = rep
        self.sites = set()
        self.accepted = set()
        self.bad = []
        self.checked = 0
        self.divinfo = {}

    # ---- provenance
    def is_zp(self, t):
        s = self.prog.tstr(t)
        return 'Zp' in s

    def is_raw(self, t):
        return '__mpz_struct' in self.prog.tstr(t) or 'mpz_t' in self.prog.tstr(t)

    def init(self, st):
        for i, d in enumerate(self.fn.params):
            if i in self.taint_params:
                st.prov[(('v', d), ())] = frozenset({('U', 'modular factors ' + self.fn.vars[d]['n'])})
            else:
                st.prov[(('v', d), ())] = frozenset({('P', i)})

    def place_tokens(self, p, st):
        if p[0][0] == 'v':
            v = self.fn.vars[p[0][1]]
            if self.is_zp(v['t']):
                return frozenset({('U', 'modular image ' + v['n'])})
            if self.is_raw(v['t']):
                return frozenset({('U', 'value rebuilt from raw words ' + v['n'])})
        return E0

    ARITH = {'int', 'long', 'unsigned long', 'unsigned int', 'bool', 'size_t', 'std::size_t', 'long long', 'int64_t', 'uint64_t', 'std::int64_t', 'unsigned long long', 'std::uint64_t', 'uint32_t'}

    def call_value(self, n, st):
        x = self.fn.nodes[n]
        nm = x.get('fq', '').split('::')[-1]
        c = x.get('c', [])
        ts = self.prog.tstr(x.get('t')).replace('const ', '').replace('&', '').strip()
        if self.is_zp(x.get('t')):
            return frozenset({('U', 'modular image')})
        if ts in self.ARITH and nm not in ('number',) and not nm.startswith('operator'):
            return E0
        if nm in ('begin', 'end', 'cbegin', 'cend'):
            return None
        if nm in ('assign', '__mtshl_lift', '__hensel_lift') and not x.get('obj'):
            return frozenset({('U', 'result of ' + nm)})
        if nm in ('__zassenhaus_recombine', '__vanhoeij_recombine', '__factor_recombine'):
            return self.value(c[0], st) | frozenset({('Z', n)})
        if nm == 'polynomial_GCD' and len(c) == 2:
            return self.value(c[0], st) | self.value(c[1], st)
        return None

    # ---- facts
    def one(self, ps):
        ps = [p for p in ps if p[0] != ('?',)]
        return ps[0] if len(ps) == 1 else None

    def owner(self, n):
        """place of the polynomial behind expression n (X, X.data(), *X)"""
        n = self.skip(n)
        x = self.fn.nodes[n]
        if x['k'] == 'Call' and x.get('obj') and x.get('fq', '').split('::')[-1] == 'data':
            return self.owner(x['c'][0])
        if x['k'] == 'Mem' and x.get('n') == '__data' and x.get('c'):
            return self.owner(x['c'][0])
        p = self.one(self.fl.places(n))
        if p is None:
            return None
        if p[1] and p[1][-1] in ('__data',):
            p = (p[0], p[1][:-1])
        return p

    def after(self, n, st):
        x = self.fn.nodes[n]
        c = x.get('c', [])
        nm = x.get('fq', '').split('::')[-1]
        if x['k'] == 'Call' and nm == 'pair_vec_div' and len(c) >= 5:
            q, r, a, b = [self.owner(i) for i in c[:4]]
            if r and a and b:
                self.add(st, [('rem', r, a, b, n)] + ([('quo', q, n)] if q else []))
                self.divinfo[n] = (a, b)
                self.sites.add(n)
        if x['k'] == 'Call' and x.get('op') == '%' and len(c) == 2:
            a, b = self.owner(c[0]), self.owner(c[1])
            if a and b:
                self.add(st, [('rem', (('t', n), ()), a, b, n)])
                self.sites.add(n)
                self.divinfo[n] = (a, b)
        if x['k'] == 'Call' and x.get('op') == '/' and len(c) == 2 and 'polynomial' in self.prog.tstr(x.get('t')):
            a, b = self.owner(c[0]), self.owner(c[1])
            if a and b:
                self.add(st, [('exq', (('t', n), ()), a, b, n)])
        if x['k'] == 'Call' and x.get('op') == '*' and len(c) == 2:
            a, b = self.owner(c[0]), self.owner(c[1])
            if a and b:
                for f in list(st.facts):
                    if f[0] == 'exq' and (f[1] == a and f[3] == b or f[1] == b and f[3] == a):
                        self.add(st, [('back', (('t', n), ()), f[2], f[3], f[4])])
        if x['k'] == 'Call' and x.get('obj') and nm in self.CHANGERS and c or x.get('op') in self.CHANGE_OPS and c:
            self.changed(n, c[0], nm or x.get('op'), st)
        if self.mode == 'recombine':
            self.accept_events(n, st)

    CHANGERS = {'pop_back', 'push_back', 'emplace_back', 'erase', 'insert', 'resize', 'emplace'}
    CHANGE_OPS = {'+=', '-=', '%=', '++', '--'}

    def changed(self, n, tgt, how, st):
        """a polynomial that was verified is changed afterwards: it is a different polynomial"""
        for p in self.fl.places(tgt):
            if p[0][0] != 'v':
                continue
            t = self.prog.tstr(self.fn.vars[p[0][1]]['t'])
            if 'polynomial' not in t or 'vector<clpoly::basic_polynomial' in t or 'factorization' in t or 'pair<clpoly::basic_polynomial' in t or 'vector<clpoly::polynomial' in t:
                continue
            base = (p[0], tuple(e for e in p[1] if e not in ('[]', '*', '__data', 'first', 'second')))
            toks = self.read(base, st)
            if any(k[0] == 'V' for k in toks):
                self.set(base, frozenset(k for k in toks if k[0] != 'V') | {('U', 'a change (%s) made after the division' % how)}, st, True)

    def emptiness(self, n):
        """(place, truth): the polynomial at place is empty exactly when n == truth"""
        n = self.skip(n)
        x = self.fn.nodes[n]
        c = x.get('c', [])
        nm = x.get('fq', '').split('::')[-1]
        if x['k'] == 'Call' and nm == 'empty' and c:
            p = self.owner(c[0])
            return (p, True) if p else None
        if x['k'] in ('Bin', 'Call') and x.get('op') in ('==', '!=', '>', '<', '<=') and len(c) == 2:
            a, b = self.skip(c[0]), self.skip(c[1])
            A, B = self.fn.nodes[a], self.fn.nodes[b]
            if A['k'] == 'Call' and A.get('fq', '').split('::')[-1] == 'size' and B['k'] == 'Int' and B['v'] == '0':
                p = self.owner(A['c'][0])
                if p and x['op'] in ('==', '<='):
                    return p, True
                if p and x['op'] in ('!=', '>'):
                    return p, False
            if A['k'] == 'Call' and B['k'] == 'Call' and {A.get('fq', '').split('::')[-1], B.get('fq', '').split('::')[-1]} == {'begin', 'end'}:
                p, q = self.owner(A['c'][0]), self.owner(B['c'][0])
                if p and p == q and x['op'] in ('==', '!='):
                    return p, x['op'] == '=='
        if x['k'] == 'Call' and x.get('op') == '!' and c:
            p = self.owner(c[0])
            return (p, True) if p else None
        return None

    def atom(self, n, truth, st):
        r = []
        x = self.fn.nodes[n]
        c = x.get('c', [])
        e = self.emptiness(n)
        if e is not None and e[1] == truth:
            for f in st.facts:
                if f[0] == 'rem' and f[1] == e[0]:
                    r.append(('div', f[2], f[3], f[4]))
            r.append(('triv', e[0]))
        if x.get('op') in ('==', '!=') and len(c) == 2 and x['k'] == 'Call' and truth == (x['op'] == '=='):
            a, b = self.owner(c[0]), self.owner(c[1])
            if a and b:
                for f in st.facts:
                    if f[0] == 'back' and (f[1] == a and f[2] == b or f[1] == b and f[2] == a):
                        r.append(('div', f[2], f[3], f[4]))
        # triviality of a cofactor, or of a normalised copy of it
        nm = x.get('fq', '').split('::')[-1]
        if x['k'] == 'Call' and nm == 'is_number' and truth and c:
            p = self.owner(c[0])
            if p:
                r.append(('triv', p))
        if x['k'] == 'Bin' and x['op'] in ('>', '<=', '>=', '<', '==', '!='):
            A, B = self.fn.nodes[self.skip(c[0])], self.fn.nodes[self.skip(c[1])]
            op = x['op']
            if A['k'] == 'Int':
                A, B = B, A
                op = {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(op, op)
            if A['k'] == 'Call' and A.get('fq', '').split('::')[-1] in ('get_deg', 'degree') and B['k'] == 'Int' and A.get('c'):
                p = self.owner(A['c'][0])
                v = B['v']
                if p and (op == '>' and v == '0' and not truth or op == '<=' and v == '0' and truth or op == '==' and v == '0' and truth
                          or op == '!=' and v == '0' and not truth or op == '>=' and v == '1' and not truth or op == '<' and v == '1' and truth):
                    r.append(('triv', p))
        for f in [f for f in r if f[0] == 'triv']:
            toks = self.read(f[1], st)
            for N in self.cofactors():
                pt = self.read(N, st)
                if N != f[1] and pt and pt <= toks and not any(t[0] in 'VU' for t in toks):
                    r.append(('triv', N))
        return r

    def survives(self, f, p):
        return False

    # ---- verification
    def settled(self, st):
        divs = [f for f in st.facts if f[0] == 'div']
        if not divs:
            return
        byD = {}
        for f in divs:
            byD.setdefault(f[2], []).append(f)
        for D, fs in byD.items():
            toks = self.read(D, st)
            if not any(t[0] == 'U' for t in toks):
                continue
            if self.mode == 'gcd':
                ok = False
                for a in fs:
                    for b in fs:
                        if a[1] != b[1] and ('P', 0) in self.read(a[1], st) and ('P', 1) in self.read(b[1], st):
                            ok = True
                if ok:
                    self.clean(D, st, ('V', fs[0][3]))
                    for f in fs:
                        self.accepted.add(f[3])
            else:
                for a in fs:
                    nt = self.read(a[1], st)
                    if ('P', 0) in nt and not any(t[0] == 'U' for t in nt):
                        site = a[3]
                        self.accepted.add(site)
                        self.clean(D, st, ('V', site))
                        for f in st.facts:
                            if f[0] == 'quo' and f[2] == site:
                                self.clean(f[1], st, ('Q', site))
                        st.aux = frozenset(z for z in st.aux if z[0] != 'acc' or z[1] != site) | {('acc', site, a[1], False, False)}
                        break

    def clean(self, p, st, tok):
        k = self.key(p)
        toks = self.read(p, st)
        for q in [q for q in st.prov if q[0] == k[0] and q[1][:len(k[1])] == k[1]]:
            del st.prov[q]
        st.prov[k] = frozenset(t for t in toks if t[0] not in ('U', 'V', 'Q')) | {tok}

    # ---- acceptance (recombination)
    PUSH = {'push_back', 'emplace_back', 'insert', 'emplace', 'push'}

    def accept_events(self, n, st):
        x = self.fn.nodes[n]
        nm = x.get('fq', '').split('::')[-1]
        c = x.get('c', [])
        if x['k'] == 'Call' and x.get('obj') and nm in self.PUSH and 'polynomial' in self.prog.tstr(self.fn.nodes[c[0]].get('t')) and 'vector' in self.prog.tstr(self.fn.nodes[c[0]].get('t')):
            toks = E0
            for i in c[1:]:
                toks |= self.value(i, st)
            out = set()
            for z in st.aux:
                if z[0] == 'acc' and ('V', z[1]) in toks:
                    z = ('acc', z[1], z[2], True, z[4])
                    if z[4]:
                        continue
                out.add(z)
            st.aux = frozenset(out)
            if not any(t[0] in ('V', 'U') for t in toks):
                self.disposed(st, toks)
        src = None
        dst = None
        if x['k'] == 'Call' and x.get('op') == '=' and len(c) == 2:
            dst, src = self.one(self.fl.places(c[0])), c[1]
        elif x['k'] == 'Call' and nm == 'swap':
            cs = c
            ps = [self.owner(i) for i in cs[:2]]
            for p in ps:
                if p:
                    self.replaced(st, p, self.read(p, st))
        if dst is not None and self.srctoks is not None:
            self.replaced(st, dst, self.srctoks)
        if x['k'] == 'Call' and nm in ('__zassenhaus_recombine', '__vanhoeij_recombine', '__factor_recombine'):
            self.disposed(st, self.value(c[0], st))

    def replaced(self, st, p, toks):
        out = set()
        for z in st.aux:
            if z[0] == 'acc' and z[2] == p and ('Q', z[1]) in toks:
                z = ('acc', z[1], z[2], z[3], True)
                if z[3]:
                    continue
            out.add(z)
        st.aux = frozenset(out)

    def disposed(self, st, toks):
        """a whole cofactor (or a normalised copy of it) went into the result"""
        for p in self.cofactors():
            pt = self.read(p, st)
            if pt and pt <= toks and any(t[0] in 'PQ' for t in pt):
                self.add(st, [('triv', p)])

    def cofactors(self):
        return {a for a, b in self.divinfo.values()}

    def owed(self, st):
        return [z for z in st.aux if z[0] == 'acc' and z[3] != z[4]]

    def before(self, n, st):
        fn = self.fn
        x = fn.nodes[n]
        c = x.get('c', [])
        self.srctoks = None
        if x['k'] == 'Call' and x.get('op') == '=' and len(c) == 2:
            p = self.one(self.fl.places(c[0]))
            if p is not None:
                t = st.copy()
                self.set(p, E0, t, True)
                self.srctoks = self.value(c[1], t)
        if not self.recording:
            return
        nm = x.get('fq', '').split('::')[-1]
        if x['k'] == 'Return' and c and c[0] >= 0:
            toks = self.value(c[0], st)
            self.checked += 1
            u = sorted(t[1] for t in toks if t[0] == 'U')
            if u:
                self.bad.append((n, 'unverified', 'returns %s, which may come from %s without having been shown to divide %s' % (
                    fn.text(c[0])[:60], u[0], 'both inputs' if self.mode == 'gcd' else 'the polynomial being factored')))
            if self.mode == 'recombine':
                for z in self.owed(st):
                    if ('V', z[1]) in toks:
                        self.bad.append((n, 'cofactor', self.owed_text(z)))
                for site in {t[1] for t in toks if t[0] == 'V'}:
                    N = self.divinfo[site][0]
                    if ('triv', N) not in st.facts and not any(t[0] == 'Z' for t in toks):
                        self.bad.append((n, 'leftover', 'returns the accepted factors while the remaining cofactor %s may still be a non-constant polynomial that is in no factor' % self.pname(N)))
        if self.mode == 'recombine':
            if x['k'] == 'Call' and nm == 'pair_vec_div' and len(c) >= 5:
                a = self.owner(c[2])
                for z in self.owed(st):
                    if z[2] == a:
                        self.bad.append((n, 'cofactor', self.owed_text(z)))

    def pname(self, p):
        return self.fn.vars[p[0][1]]['n'] if p[0][0] == 'v' else str(p)

    def owed_text(self, z):
        if z[3]:
            return 'the divisor accepted after line %d is put into the result but %s still contains it' % (self.fn.nodes[z[1]]['l'], self.pname(z[2]))
        return 'the quotient of line %d replaces %s but the divisor is not put into the result' % (self.fn.nodes[z[1]]['l'], self.pname(z[2]))


def zzpoly(prog, t):
    s = prog.tstr(t)
    return ('polynomial' in s) and 'ZZ' in s and 'Zp' not in s and 'vector' not in s and 'pair' not in s


def gcd_roots(prog):
    out = []
    for f in prog.fns.values():
        if f.name == 'polynomial_GCD' and f.qn == 'clpoly::polynomial_GCD' and len(f.params) == 2 and f.blocks and all(zzpoly(prog, f.vars[d]['t']) for d in f.params):
            out.append(f)
    return out


def run_gcd(prop, tier, rep):
    rep.rule = ('In every instantiation of polynomial_GCD over the integers (helpers expanded), a value built from modular images or from an '
                'evaluation at an integer may reach a return only if, on every path, a division with remainder of each of the two inputs by it was '
                'found to leave an empty remainder and the value was not rebuilt afterwards.')
    for cfg in ('rel', 'dbg') if tier == 'thorough' else ('rel',):
        prog = ir.load(cfg)
        for f in gcd_roots(prog):
            inl = set()
            g = inline.expand(f, want, 4, inl)
            v = Verified(g, 'gcd').run()
            rep.count('functions')
            rep.count('helpers expanded', len(inl))
            rep.count('returns checked', v.checked)
            rep.count('division sites', len(v.sites))
            rep.count('verified acceptances', len(v.accepted))
            for n, kind, text in v.bad:
                rep.violation('%s:%s' % (f.qn, kind), '%s %s: %s' % (g.loc(n), f.key[:110], text))
    rep.need('functions', 3)
    rep.need('returns checked', 8)


ROOTS = {'__zassenhaus_recombine': (1,), '__vanhoeij_recombine': (1,), '__wang_core': ()}


def run_fac(prop, tier, rep):
    rep.rule = ('In every factor recombination (helpers and lambdas expanded), a polynomial derived from lifted modular factors may enter the result only '
                'where a division of the current cofactor by it is known to have left an empty remainder; acceptance and replacement of the cofactor by '
                'that quotient come together before the cofactor is divided again or the result returned; the last cofactor is in the result or constant.')
    for cfg in ('rel', 'dbg') if tier == 'thorough' else ('rel',):
        prog = ir.load(cfg)
        for nm, tp in ROOTS.items():
            for f in prog.byqn('clpoly::' + nm):
                inl = set()
                g = inline.expand(f, want, 4, inl)
                v = Verified(g, 'recombine', tp).run()
                rep.count('functions')
                rep.count('lambdas and helpers expanded', len(inl))
                rep.count('returns checked', v.checked)
                rep.count('division sites', len(v.sites))
                rep.count('verified acceptances', len(v.accepted))
                for n, kind, text in v.bad:
                    rep.violation('%s:%s' % (f.qn, kind), '%s %s: %s' % (g.loc(n), f.name, text))
    rep.need('functions', 3)
    rep.need('verified acceptances', 1)


def run(prop, tier, rep):
    (run_gcd if prop == 'A01' else run_fac)(prop, tier, rep)
