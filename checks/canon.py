"""P01: polynomials and monomials never store a zero coefficient or exponent (typestate of term containers)."""
import json, os
import ir
import flow
import inline
from engine import Engine, E0, isplace

RAW = {'normalization', 'pair_vec_normalization', 'pair_vec_first_normalization', 'pair_vec_normal_check', 'pair_vec_first_normal_check', 'is_normal'}
ADD = {'push_back', 'emplace_back', 'emplace', 'insert', 'push_front', 'emplace_front'}
COEF = ('clpoly::ZZ', 'clpoly::QQ', 'clpoly::Zp', 'clpoly::basic_polynomial<')
NZFN = {'abs', 'move', 'forward', 'get_den', 'as_const', 'ref', 'cref'}
READS = {'front', 'back', 'empty', 'size'}
INTS = {'clpoly::ZZ', 'long', 'unsigned long', 'int', 'unsigned int', 'int64_t', 'uint64_t', 'long long', 'unsigned long long', 'size_t', 'std::size_t'}
API = None


def api():
    global API
    if API is None:
        with open(os.path.join(ir.VERIF, 'meta', 'api.json')) as f:
            API = set(json.load(f))
    return API


def targs(s):
    """template arguments of the type string s"""
    i = s.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for ch in s[i + 1:]:
        if ch == '<':
            d += 1
        if ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


_bare = {}


def bare(s):
    r = _bare.get(s)
    if r is None:
        r = s
        for _ in range(3):
            r = r.strip()
            if r.startswith('const '):
                r = r[6:]
            r = r.rstrip('&* ')
        _bare[s] = r
    return r


_kind = {}


def kind(s):
    """'poly' | 'mono' | 'pair' (a term) | 'other' (holds terms somewhere inside) | None"""
    k = _kind.get(s, 0)
    if k != 0:
        return k
    b = bare(s)
    k = None
    if b.startswith('clpoly::basic_polynomial<') or b == 'clpoly::basic_polynomial':
        k = 'poly'
    elif b.startswith('clpoly::basic_monomial<') or b == 'clpoly::basic_monomial':
        k = 'mono'
    elif b.startswith('std::vector<std::pair<'):
        p = targs(targs(b)[0])
        if len(p) == 2 and p[0] == 'clpoly::variable' and p[1] in ('long', 'int64_t'):
            k = 'mono'
        elif len(p) == 2 and (p[0].startswith('clpoly::basic_monomial<') or p[0] == 'clpoly::umonomial') and p[1].startswith(COEF):
            k = 'poly'
        elif 'clpoly::basic_' in b or 'clpoly::umonomial' in b:
            k = 'other'
    elif b.startswith('std::pair<'):
        p = targs(b)
        if len(p) == 2 and (p[0] == 'clpoly::variable' and p[1] in ('long', 'int64_t') or (p[0].startswith('clpoly::basic_monomial<') or p[0] == 'clpoly::umonomial') and p[1].startswith(COEF)):
            k = 'pair'
        elif 'clpoly::basic_' in b:
            k = 'other'
    elif 'clpoly::basic_polynomial<' in b or 'clpoly::basic_monomial<' in b or 'pair<clpoly::umonomial' in b:
        k = 'other'
    _kind[s] = k
    return k


def coefish(s):
    b = bare(s)
    return b in ('clpoly::ZZ', 'clpoly::QQ', 'clpoly::Zp') or b.startswith('clpoly::basic_polynomial<')


class Canon(Engine):
    trunc = 2

    def __init__(self, fn, ctx, mode='clean'):
        super().__init__(fn)
        self.ctx = ctx
        self.mode = mode
        self.viol = []
        self.pushes = self.guarded = self.elemwrites = self.calls = 0
        self.requires = set()
        self.exit = {}
        self.pending = None
        self._comp = None

    # ------------------------------------------------ places
    def canon(self, p):
        if '__data' in p[1]:
            p = (p[0], tuple(f for f in p[1] if f != '__data'))
        return p

    def key(self, p):
        return super().key(self.canon(p))

    def kill(self, st, p):
        super().kill(st, self.canon(p))

    def tkind(self, n):
        return kind(self.prog.tstr(self.fn.nodes[n].get('t')))

    def onep(self, n):
        ps = {self.canon(p) for p in self.fl.places(n)}
        if len(ps) != 1:
            x = self.fn.nodes[self.skip(n)]
            if x['k'] == 'Ref' and flow.cref(self.prog, self.prog.T(self.fn.vars[x['d']]['t'])):
                return (('v', x['d']), ())
            return None
        p = next(iter(ps))
        return None if p[0] == ('?',) else p

    def elem(self, p):
        """container of an element place, or None"""
        if p is None:
            return None
        path = p[1]
        if path and path[-1] == '[]':
            return (p[0], path[:-1])
        if len(path) >= 2 and path[-2] == '[]' and path[-1] in ('first', 'second'):
            return (p[0], path[:-2])
        return None

    def termpart(self, n, depth=0):
        """expression n designates (part of) a term, not an element of some other container"""
        n = self.skip(n)
        x = self.fn.nodes[n]
        c = x.get('c', [])
        if self.tkind(n) == 'pair':
            return True
        if x['k'] == 'Mem' and x.get('n') in ('second', 'first') and c:
            return self.tkind(c[0]) == 'pair'
        if x['k'] == 'Ref':
            d = x['d']
            if d in self.fl.bindof:
                return self.tkind_var(self.fl.bindof[d][0]) == 'pair'
            if depth < 4 and self.fl.defs.get(d):
                return all(self.termpart(i, depth + 1) for i in self.fl.defs[d])
        if x['k'] == 'Un' and x['op'] in ('&', '*') or x['k'] == 'Call' and x.get('fq', '').split('::')[-1] == 'move':
            return bool(c) and self.termpart(c[0], depth + 1)
        return False

    def desc(self, n):
        """a name for the element behind the (reference to, iterator to, position of) expression n: a place that is written whenever the name moves on"""
        n = self.skip(n)
        if n < 0:
            return None
        x = self.fn.nodes[n]
        c = x.get('c', [])
        if x['k'] == 'Mem' and x.get('n') in ('first', 'second') and c:
            return self.desc(c[0])
        if x['k'] == 'Call' and x.get('op') in ('*', '->') and len(c) == 1:
            return self.desc(c[0])
        if x['k'] == 'Un' and x['op'] == '*':
            return self.desc(c[0])
        if x['k'] == 'Ref':
            d = x['d']
            if self.fl.byref(d) or self.fl.pointerlike(d):
                if d in self.fl.bindof:
                    return (('v', self.fl.bindof[d][0]), ())
                ds = self.fl.defs.get(d) or []
                if len(ds) == 1 and self.fl.byref(d):
                    y = self.fn.nodes[self.skip(ds[0])]
                    if y['k'] == 'Call' and y.get('obj') and y.get('fq', '').split('::')[-1] in ('back', 'front'):
                        return self.desc(ds[0])
                return (('v', d), ())
            return None
        if x['k'] == 'Call' and x.get('obj') and x.get('fq', '').split('::')[-1] in ('back', 'front') and c:
            ps = self.fl.obj_places(n)
            if len(ps) == 1:
                p = self.canon(next(iter(ps)))
                return (p[0], p[1] + ('$' + x['fq'].split('::')[-1],))
        if (x['k'] == 'Call' and x.get('op') == '[]' and len(c) == 2 or x['k'] == 'Index') and c:
            i = self.fn.nodes[self.skip(c[1])]
            ps = self.fl.places(c[0])
            if i['k'] == 'Ref' and len(ps) == 1:
                return (('v', i['d']), ())
        if x['k'] == 'Call' and x.get('fq', '').split('::')[-1] == 'move' and c:
            return self.desc(c[0])
        return None

    # ------------------------------------------------ what is known to be non-zero
    def nz(self, n, st, depth=0):
        n = self.skip(n)
        if n < 0 or depth > 40:
            return False
        if ('nz', (('t', n), ())) in st.facts:
            return True
        x = self.fn.nodes[n]
        k = x['k']
        c = x.get('c', [])
        nm = x.get('fq', '').split('::')[-1]
        if k == 'Int':
            return x['v'] not in ('0', 0)
        if k == 'Ref' and self.modulus(n):
            return True
        if k in ('Ref', 'Mem', 'Index') or k == 'Un' and x['op'] == '*' or k == 'Call' and x.get('op') in ('[]', '*') and len(c) <= 2 and x.get('lv'):
            p = self.onep(n)
            if p is None and k == 'Mem' and x.get('n') == 'second':
                return self.unknown_elem(n)
            if p is None:
                return False
            if ('nz', p) in st.facts:
                return True
            e = self.elem(p)
            if e is not None and self.termpart(n):
                return self.elem_nz(e, n, st)
            if p[0][0] == 't' and k == 'Mem' and x.get('n') == 'second':
                q = self.onep(c[0])
                y = self.fn.nodes[self.skip(c[0])]
                if y['k'] == 'Call' and y.get('fq', '').split('::')[-1] in ('front', 'back') or y['k'] == 'Call' and y.get('op') in ('*', '->', '[]'):
                    return True
            if p[1] and p[1][-1] == '*':
                return self.unknown_elem(n)
            if k == 'Ref':
                v = self.fn.vars[x['d']]
                if v['k'] == 'global' or v['k'] == 'staticlocal':
                    return False
            return False
        if k == 'Un' and x['op'] == '-':
            return self.nz(c[0], st, depth + 1)
        if k in ('Bin', 'Call') and x.get('op') == '-' and len(c) == 1:
            return self.nz(c[0], st, depth + 1)
        if k in ('Bin', 'Call') and x.get('op') == '*' and len(c) == 2:
            t = self.ty(n)
            return self.nz_as(c[0], t, st, depth + 1) and self.nz_as(c[1], t, st, depth + 1)
        if k in ('Bin', 'Call') and x.get('op') == '/' and len(c) == 2:
            t = bare(self.prog.tstr(x.get('t')))
            if t in ('clpoly::QQ', 'clpoly::Zp'):
                return self.nz(c[0], st, depth + 1)
            p = self.onep(c[0])
            if p is not None and self.elem(p) is not None and self.termpart(c[0]) and self.divides(c[1], p, st):
                return self.nz(c[0], st, depth + 1)
            return self.exact(n, st) and self.nz(c[0], st, depth + 1)
        if k == 'Assign' or k == 'Call' and x.get('op') == '=':
            p = self.onep(c[0])
            return p is not None and ('nz', p) in st.facts or self.nz_as(c[1], self.ty(c[0]), st, depth + 1)
        if k == 'Cond':
            a = self.cond_facts(c[0], True, st)
            b = self.cond_facts(c[0], False, st)
            return self.nz_under(c[1], st, a, depth) and self.nz_under(c[2], st, b, depth)
        if k in ('Ctor', 'InitList') or k == 'Call' and (nm in NZFN or nm.startswith('operator ')) or k.endswith('CastExpr'):
            cs = [i for i in c if i >= 0 and self.fn.nodes[i]['k'] != 'DefaultArg']
            if x['k'] == 'Ctor' and coefish(x.get('cls', '') or '') or k == 'Ctor':
                t = bare(self.prog.tstr(x.get('t')))
                if t == 'clpoly::Zp':
                    return self.zp_nz(cs, st, depth)
                if t == 'clpoly::QQ' and len(cs) == 2:
                    return self.nz(cs[0], st, depth + 1)
                if t.startswith('clpoly::basic_polynomial<'):
                    return len(cs) == 1 and self.nz(cs[0], st, depth + 1)
            if nm == 'get_den':
                return True
            return len(cs) == 1 and self.nz(cs[0], st, depth + 1)
        if k == 'Call' and nm in ('number', 'get_num', 'get_mpz', 'pow', 'get_mpz_t') and c:
            return self.nz(c[0], st, depth + 1)
        if k == 'Call' and nm in ('max', 'min') and len(c) == 2:
            return self.nz(c[0], st, depth + 1) and self.nz(c[1], st, depth + 1)
        if k == 'Call' and nm in ('degree', 'get_deg', 'get_up_deg') and c and self.fn.name.startswith('__'):
            return True         # the main variable occurs in whatever is being lifted
        if k == 'Call' and nm in ('inv', 'inv_prime', 'cont') and c:
            return True
        if k == 'Call' and nm in ('prime', 'modulus') and c:
            return True
        if self.exprkey_known(n, st):
            return True
        if k in ('Bin', 'Call') and x.get('op') in ('+', '-', '*') and len(c) == 2 and self.garner(n, st):
            return True
        if k == 'Call' and nm == 'gcd' and len(c) == 2:
            return self.nz(c[0], st, depth + 1) or self.nz(c[1], st, depth + 1)
        if k == 'Call' and nm == 'lcm' and len(c) == 2:
            return self.nz(c[0], st, depth + 1) and self.nz(c[1], st, depth + 1)
        if k == 'Call' and nm == 'nonzero_coeff':
            return True
        return False

    def ty(self, n):
        return bare(self.prog.tstr(self.fn.nodes[self.skip(n)].get('t')))

    def nz_as(self, n, t, st, depth=0):
        """expression n is non-zero after conversion to type t: an integer may become zero modulo p"""
        n = self.skip(n)
        s = self.ty(n)
        if t == 'clpoly::Zp' and s in INTS:
            x = self.fn.nodes[n]
            if x['k'] == 'Un' and x['op'] == '-':
                x = self.fn.nodes[self.skip(x['c'][0])]
            if x['k'] == 'Int':
                return x['v'] in ('1', 1)
            p = self.onep(n)
            return p is not None and ('nzmod', p) in st.facts
        return self.nz(n, st, depth)

    # expressions found non-zero, named by their structure
    def exprkey(self, n):
        n = self.skip(n)
        x = self.fn.nodes[n]
        k = x['k']
        c = [i for i in x.get('c', ()) if i >= 0]
        deps = set()
        if k == 'Int':
            return str(x['v']), deps
        if k == 'This':
            return 'this', deps
        if k == 'Ref':
            p = self.onep(n)
            if p is None:
                return None
            deps.add((('v', x['d']), ()))
            if p[0][0] in ('v', 'this'):
                deps.add(p)
            return 'v%d' % x['d'], deps
        if k == 'Mem' and not x.get('fn'):
            if not c:
                return 'this.' + x['n'], {(('this',), (x['n'],))}
            r = self.exprkey(c[0])
            if r is None:
                return None
            p = self.onep(n)
            return r[0] + '.' + x['n'], r[1] | ({p} if p is not None and p[0][0] in ('v', 'this') else set())
        if k in ('Bin', 'Un', 'Index', 'Call'):
            if k == 'Call' and not (x.get('op') in ('+', '-', '*', '[]', '->') or x.get('obj') and x.get('mconst') and len(c) == 1):
                return None
            if k == 'Un' and x['op'] not in ('-', '*', '&'):
                return None
            parts = [self.exprkey(i) for i in c]
            if any(q is None for q in parts) or not parts:
                return None
            for q in parts:
                deps |= q[1]
            nm = x.get('op') or x.get('fq', '').split('::')[-1] or '[]'
            return '%s(%s)' % (nm, ','.join(q[0] for q in parts)), deps
        return None

    def exprkey_known(self, n, st):
        if not any(f[0] == 'nzx' for f in st.facts):
            return False
        r = self.exprkey(n)
        return r is not None and any(f[0] == 'nzx' and f[1] == r[0] for f in st.facts)

    # a + (b - a) * inv * P: congruent to a modulo P and to b modulo the new prime
    def modulus(self, n):
        """expression n is a variable only ever given word-sized primes or products of them"""
        n = self.skip(n)
        x = self.fn.nodes[n]
        if x['k'] == 'Bin' and x['op'] == '/' or x['k'] == 'Call' and x.get('op') == '/':
            return self.modulus(x['c'][0])
        if x['k'] == 'Un' and x['op'] == '-' or x['k'] == 'Call' and x.get('op') == '-' and len(x['c']) == 1:
            return self.modulus(x['c'][0])
        if x['k'] != 'Ref' or bare(self.prog.tstr(x.get('t'))) != 'clpoly::ZZ':
            return False
        d = x['d']
        src = []
        for i, y in enumerate(self.fn.nodes):
            if y['k'] == 'Decl':
                src += [v['i'] for v in y['vars'] if v['d'] == d and 'i' in v]
            elif y['k'] in ('Assign', 'Call') and y.get('op') in ('=', '*=', '+=', '-=') and len(y.get('c', ())) == 2:
                z = self.fn.nodes[self.skip(y['c'][0])]
                if z['k'] == 'Ref' and z['d'] == d:
                    if y['op'] in ('+=', '-='):
                        return False
                    src.append(y['c'][1])
        return bool(src) and all(self.wordprime(i) for i in src)

    def wordprime(self, n):
        n = self.skip(n)
        x = self.fn.nodes[n]
        c = [i for i in x.get('c', ()) if i >= 0]
        t = bare(self.prog.tstr(x.get('t')))
        if x['k'] == 'Ctor':
            return not c or len(c) == 1 and self.wordprime(c[0])
        return t in ('unsigned long', 'uint64_t', 'std::uint64_t') and x['k'] != 'Int' or x['k'] == 'Int' and x['v'] not in ('0', 0)

    def garner(self, n, st):
        for i in self.fn.walk(n):
            x = self.fn.nodes[i]
            if x['k'] in ('Bin', 'Call') and x.get('op') == '*' and len(x.get('c', ())) == 2 and (self.modulus(x['c'][1]) or self.modulus(x['c'][0])):
                top = self.fn.nodes[self.skip(n)]
                if top['op'] == '*':
                    return self.nz(x['c'][0], st, 1) or any(self.fn.nodes[j]['k'] == 'Mem' and self.fn.nodes[j].get('n') == 'second' for j in self.fn.walk(n))
                return any(self.fn.nodes[j]['k'] == 'Mem' and self.fn.nodes[j].get('n') == 'second' for j in self.fn.walk(n))
        return False

    def nz_under(self, n, st, extra, depth):
        t = st.copy()
        self.add(t, extra)
        return self.nz(n, t, depth + 1)

    def unknown_elem(self, n):
        """the coefficient of a term of some stored polynomial reached in a way places cannot name"""
        c = self.fn.nodes[n].get('c', [])
        return bool(c) and self.tkind(c[0]) == 'pair' and not self.is_local_pair(c[0])

    def is_local_pair(self, n):
        x = self.fn.nodes[self.skip(n)]
        return x['k'] == 'Ref' and not self.fl.byref(x['d']) and not self.fl.pointerlike(x['d'])

    def elem_nz(self, e, n, st):
        if self.mode == 'raw':
            d = self.desc(n)
            return d is not None and any(f[0] == 'nzel' and f[1] == d for f in st.facts)
        toks = self.read(e, st)
        if any(t[0] == 'Z' for t in toks):
            d = self.desc(n)
            return d is not None and any(f[0] == 'nzel' and f[1] == d for f in st.facts)
        self.require(toks)
        if e[0][0] == 'v' and not e[1] or True:
            return True

    def require(self, toks):
        for t in toks:
            if t[0] == 'P' and self.recording:
                self.requires.add(t[1])

    def zp_nz(self, cs, st, depth):
        if not cs:
            return False
        if len(cs) == 1:
            t = bare(self.prog.tstr(self.fn.nodes[self.skip(cs[0])].get('t')))
            return t == 'clpoly::Zp' and self.nz(cs[0], st, depth + 1)
        y = self.fn.nodes[self.skip(cs[0])]
        if y['k'] == 'Int':
            return y['v'] in ('1', '-1')
        if y['k'] == 'Un' and y['op'] == '-':
            z = self.fn.nodes[self.skip(y['c'][0])]
            return z['k'] == 'Int' and z['v'] == '1'
        if y['k'] == 'Bin' and y['op'] == '-':
            a, b = self.fn.nodes[self.skip(y['c'][0])], self.fn.nodes[self.skip(y['c'][1])]
            p = self.fn.nodes[self.skip(cs[1])]
            return b['k'] == 'Int' and b['v'] == '1' and a['k'] == 'Ref' and p['k'] == 'Ref' and a['d'] == p['d']
        p = self.onep(cs[0])
        if p is not None and ('nzmod', p) in st.facts:
            return True
        q = self.onep(cs[1])
        if q is not None and q[0] == ('this',) and p is not None and p[0][0] == 'v' and not p[1]:
            i = self.copied(p[0][1])
            r = self.onep(i) if i is not None else None
            if r is not None and r[0] == ('this',):
                return self.exprkey_known(cs[0], st) or self.nz(cs[0], st, depth + 1)
        if q is not None and q[0] == ('this',) and p is not None and p[0] == ('this',):
            return self.exprkey_known(cs[0], st) or self.nz(cs[0], st, depth + 1)      # words of a dense polynomial are residues of its modulus
        if self.drawn(cs[0], cs[1]):
            return self.nz(cs[0], st, depth + 1)
        return False

    def copied(self, d):
        """the initialiser of local d, which nothing else writes"""
        i = None
        for x in self.fn.nodes:
            if x['k'] == 'Decl':
                for v in x['vars']:
                    if v['d'] == d:
                        i = v.get('i')
            if x['k'] == 'Assign' or x['k'] == 'Un' and x['op'] in ('++', '--', 'post++', 'post--', '&'):
                y = self.fn.nodes[self.skip(x['c'][0])]
                if y['k'] == 'Ref' and y['d'] == d:
                    return None
        T = self.prog.T(self.fn.vars[d]['t'])
        return i if i is not None and i >= 0 and not T.get('ref') and self.fn.vars[d]['k'] != 'param' else None

    def drawn(self, a, p):
        """a is drawn from a distribution over 0 .. p-1"""
        a = self.fn.nodes[self.skip(a)]
        p = self.fn.nodes[self.skip(p)]
        if a['k'] != 'Ref' or p['k'] != 'Ref':
            return False
        for i in self.fl.defs.get(a['d'], ()):
            y = self.fn.nodes[self.skip(i)]
            if not (y['k'] == 'Call' and y.get('op') == '()' and 'distribution' in y.get('fq', '')):
                return False
            z = self.fn.nodes[self.skip(y['c'][0])]
            ok = False
            for j in self.fl.defs.get(z.get('d'), ()):
                for q in self.fn.walk(j):
                    w = self.fn.nodes[q]
                    if w['k'] == 'Bin' and w['op'] == '-' and self.fn.nodes[self.skip(w['c'][0])].get('d') == p['d'] and self.fn.nodes[self.skip(w['c'][1])].get('v') == '1':
                        ok = True
            if not ok:
                return False
        return True

    def exact(self, n, st):
        """a division known to leave no remainder: by the denominator of a term after multiplication by a common denominator"""
        c = self.fn.nodes[n]['c']
        d = self.fn.nodes[self.skip(c[1])]
        return d['k'] == 'Call' and d.get('fq', '').split('::')[-1] == 'get_den'

    # ------------------------------------------------ guards
    ZEROFN = {'is_zero', 'is_zero_poly'}

    def zero_test(self, n):
        """(expression, truth): the value of the expression is zero exactly when n has that truth"""
        x = self.fn.nodes[n]
        c = x.get('c', [])
        nm = x.get('fq', '').split('::')[-1]
        if x['k'] == 'Call' and x.get('op') == '()' and 'zore_check' in x.get('fq', '') and len(c) == 2:
            return c[1], True
        if x['k'] == 'Call' and nm in ('is_zero', 'empty') and c:
            return c[0], True
        if x['k'] == 'Call' and x.get('op') == '!' and len(c) == 1:
            return c[0], True
        if x['k'] in ('Bin', 'Call') and x.get('op') in ('==', '!=', '>', '<') and len(c) == 2:
            a, b = self.skip(c[0]), self.skip(c[1])
            if self.zero_lit(a):
                a, b = b, a
            if self.zero_lit(b):
                return a, x['op'] == '=='
        if x['k'] in ('Ref', 'Mem', 'Index') or x['k'] in ('Call', 'Bin') and x.get('op') in ('*', '->', '=', '-', '+', '[]'):
            return n, False
        if x['k'] == 'Call' and nm in ('number', 'size', 'get_num'):
            return n, False
        return None

    def zero_lit(self, n):
        n = self.skip(n)
        x = self.fn.nodes[n]
        if x['k'] == 'Int':
            return x['v'] in ('0', 0)
        if x['k'] == 'Ctor' and len([i for i in x.get('c', ()) if i >= 0]) <= 2:
            cs = [i for i in x.get('c', ()) if i >= 0 and self.fn.nodes[i]['k'] != 'DefaultArg']
            return (coefish(self.prog.tstr(x.get('t')))) and (not cs or self.zero_lit(cs[0]))
        return False

    def target(self, n):
        """the coefficient expression whose being zero n decides (looks through number(), sgn, %, assignment)"""
        n = self.skip(n)
        x = self.fn.nodes[n]
        c = x.get('c', [])
        nm = x.get('fq', '').split('::')[-1]
        if x['k'] == 'Call' and nm in ('number', 'size', 'get_num', 'sgn', 'get_mpz', 'abs', 'mpz_sgn', 'get_mpz_t', 'data', 'move') and c:
            return self.target(c[0])
        if x['k'] == 'Un' and x['op'] == '*':
            return n
        if (x['k'] == 'Assign' or x['k'] == 'Call' and x.get('op') == '=') and c:
            return self.target(c[0])
        return n

    def atom(self, n, truth, st):
        r = []
        z = self.zero_test(n)
        x = self.fn.nodes[n]
        if z is not None:
            zero = truth == z[1]
            if x.get('op') in ('>', '<'):
                if not truth:
                    return r
                zero = False
            y = self.fn.nodes[self.skip(z[0])]
            if y['k'] in ('Bin', 'Call') and y.get('op') == '%' and len(y['c']) == 2 and not zero:
                p = self.onep(self.target(y['c'][0]))
                if p is not None:
                    r += [('nz', p), ('nzmod', p)]
                return r
            t = self.target(z[0])
            p = self.onep(t)
            if not zero:
                ek = self.exprkey(z[0])
                if ek is not None and ek[1]:
                    r.append(('nzx', ek[0]) + tuple(sorted(ek[1])))
            if p is not None:
                r.append(('zero' if zero else 'nz', p))
                e = self.elem(p)
                if e is not None and p[1][-1] == 'second':
                    d = self.desc(t)
                    if d is not None:
                        r.append(('zeroel' if zero else 'nzel', d, (e[0], e[1] + ('[]',))))
            elif not zero and self.fn.nodes[self.skip(t)]['k'] == 'Mem' and self.fn.nodes[self.skip(t)].get('n') == 'second':
                d = self.desc(t)                    # an iterator that walks several containers in turn
                for q in {self.canon(q) for q in self.fl.places(t)}:
                    e = self.elem(q)
                    if e is not None and d is not None:
                        r.append(('nzel', d, (e[0], e[1] + ('[]',))))
        return r

    def settled(self, st):
        """an element found to be non-zero is no longer a reason to distrust its container"""
        known = {f[1] for f in st.facts if f[0] == 'nzel'}
        if not known:
            return
        for k, toks in list(st.prov.items()):
            dead = [t for t in toks if t[0] == 'Z' and len(t) > 3 and t[3] in known]
            if dead:
                st.prov[k] = toks - frozenset(dead)

    def forget(self, st, p, exact=False):
        """descriptor place p is about to name something else: open reasons become permanent"""
        for k, toks in list(st.prov.items()):
            hit = [t for t in toks if t[0] == 'Z' and len(t) > 3 and t[3] is not None and (t[3] == p if exact else flow.overlap(t[3], p))]
            if hit:
                st.prov[k] = (toks - frozenset(hit)) | frozenset((t[0], t[1], t[2], None) for t in hit)

    # ------------------------------------------------ values
    def init(self, st):
        ps = list(enumerate(self.fn.params))
        for i, d in ps:
            s = self.prog.tstr(self.fn.vars[d]['t'])
            k = kind(s)
            if k is None:
                continue
            if self.mode == 'raw' and k == 'poly' or self.rawparam(s):
                st.prov[(('v', d), ())] = frozenset({('Z', -1, 'the terms given as ' + self.fn.vars[d]['n'], None)}) if self.mode != 'raw' else E0
            else:
                st.prov[(('v', d), ())] = frozenset({('P', i)})
        if self.fn.cls and kind(self.fn.cls) and self.fn.kind not in ('ctor', 'cc', 'mc', 'dc'):
            st.prov[(('this',), ())] = frozenset({('P', -1)}) if self.mode != 'raw' else E0
        self.assume_params(st)

    def assume_params(self, st):
        """scalars handed to internal functions (moduli, leading coefficients, inverses) are taken to be non-zero"""
        if not self.fn.name.startswith('_'):
            return
        for d in self.fn.params:
            if bare(self.prog.tstr(self.fn.vars[d]['t'])) in ('clpoly::ZZ', 'clpoly::QQ', 'clpoly::Zp'):
                self.add(st, [('nz', (('v', d), ()))])

    def rawparam(self, s):
        """terms supplied by the user: any order, any coefficients"""
        b = bare(s)
        return self.fn.cls is not None and kind(self.fn.cls) in ('poly', 'mono') and (b.startswith('std::vector<std::pair<') or 'initializer_list' in b)

    def member_init(self, field, n, st):
        if self.tkind(n) is None:
            return
        v = self.value(n, st)
        if v:
            self.set((('this',), (field,)), v, st, False)

    def value(self, n, st, depth=0):
        if n is None or n < 0:
            return E0
        x = self.fn.nodes[n]
        t = x.get('t')
        s = self.prog.tstr(t)
        if depth == 0 or True:
            if kind(s) is None and not ('iterator' in s) and x['k'] not in ('InitList', 'CXXStdInitializerListExpr', 'Cast') and not x['k'].endswith('Expr'):
                return E0
        if x['k'] == 'Ctor':
            g = self.prog.fns.get(x.get('f'))
            if g is not None and g.blocks and not g.o.get('dfl') and g.cls and kind(g.cls):
                sm = self.ctx.summary(g)
                if sm is not None:
                    out = set()
                    for t in sm.exit.get(-1, E0):
                        if t[0] == 'P':
                            a = self.argn(n, t[1])
                            if a is not None:
                                out |= self.value(a, st, depth + 1)
                        else:
                            out.add(('Z', n, 'what the constructor %s leaves' % g.name, None))
                    return frozenset(out)
        return super().value(n, st, depth)

    def call_value(self, n, st):
        x = self.fn.nodes[n]
        nm = x.get('fq', '').split('::')[-1]
        c = x.get('c', [])
        if nm in ('move', 'forward', 'get', 'front', 'back', 'at', 'data', 'as_const', 'begin', 'end', 'make_pair', 'pair', 'tie', 'ref', 'swap', 'find', 'lower_bound', 'cbegin', 'rbegin') or x.get('op') in ('*', '->', '[]', '++', '--', '='):
            if nm == 'make_pair':
                return self.value(c[0], st)
            return None
        if kind(self.prog.tstr(x.get('t'))) is None:
            return E0
        g = self.prog.fns.get(x.get('f'))
        if g is None:
            return None
        s = self.ctx.summary(g)
        if s is None:
            return E0
        out = set()
        for t in s.exit.get('ret', E0):
            if t[0] == 'P':
                a = self.argn(n, t[1])
                if a is not None:
                    out |= self.value(a, st)
            else:
                out.add(('Z', n, 'what %s returns' % g.name, None))
        return frozenset(out)

    def argn(self, n, i):
        x = self.fn.nodes[n]
        c = x.get('c', [])
        if x.get('obj'):
            return c[0] if i == -1 else (c[i + 1] if i + 1 < len(c) else None)
        g = self.prog.fns.get(x.get('f'))
        if g is not None and g.cls and x['k'] == 'Call' and x.get('op') and len(c) == len(g.params) + 1:
            return c[0] if i == -1 else c[i + 1]
        return None if i == -1 else (c[i] if i < len(c) else None)

    # ------------------------------------------------ events
    def term_tokens(self, n, st, what):
        """tokens of the term expression n being stored into a container"""
        n = self.skip(n)
        x = self.fn.nodes[n]
        c = [i for i in x.get('c', ()) if i >= 0]
        nm = x.get('fq', '').split('::')[-1]
        k = self.tkind(n)
        if x['k'] in ('Ctor', 'InitList') and len(c) == 2 or x['k'] == 'Call' and nm in ('make_pair',):
            out = set(self.value(c[0], st))
            if self.tkind(c[1]) is not None:
                out |= self.value(c[1], st)
            return frozenset(out), ('nz', (('t', n), ('second',))) in st.facts or self.nz(c[1], st)
        if x['k'] == 'Ctor' and len(c) == 1 or x['k'] == 'Call' and nm in ('move', 'forward') and c:
            return self.term_tokens(c[0], st, what)
        if x['k'] == 'Ctor' and not c:
            return E0, False
        toks = self.value(n, st)
        if x['k'] in ('Ref', 'Mem') or x['k'] == 'Call':
            p = self.onep(n)
            if x['k'] == 'Call' and x.get('op') in ('++', '--', 'post++') and not x.get('lv'):
                p = None
            if p is not None:
                e = self.elem(p)
                d = self.desc(n) if e is not None else None
                if d is not None and any(f[0] == 'nzel' and f[1] == d for f in st.facts) and (targs(bare(self.prog.tstr(x.get('t')))) or [''])[-1] in COEF[:3]:
                    # this very element was found non-zero: doubts about the coefficients of the others do not concern it
                    toks = frozenset(t for t in toks if not (t[0] == 'Z' and 'coefficient' in t[2]))
                if ('nz', (p[0], p[1] + ('second',))) in st.facts:
                    return toks, True
                if e is not None:
                    return toks, self.elem_nz(e, n, st)
                if p[0][0] == 'v' and not p[1]:
                    v = self.fn.vars[p[0][1]]
                    if v['k'] == 'param' and k == 'pair':
                        return toks, ('nz', (p[0], ('second',))) in st.facts
                    return toks, False
            if k == 'pair':
                return toks, True            # a copy of a stored term
        if k == 'pair':
            return toks, not any(t[0] == 'Z' for t in toks)
        return toks, False

    def itercopy(self, n):
        n = self.skip(n)
        x = self.fn.nodes[n]
        while x['k'] == 'Ctor' and len([i for i in x.get('c', ()) if i >= 0]) == 1:
            n = self.skip(x['c'][0])
            x = self.fn.nodes[n]
        return n

    def isend(self, n, p):
        x = self.fn.nodes[self.itercopy(n)]
        return x['k'] == 'Call' and x.get('fq', '').split('::')[-1] in ('end', 'cend') and self.container(self.fl.obj_places(self.itercopy(n))) == {p} or x['k'] == 'Ref'

    def pointees1(self, n):
        ps = {self.canon(p) for p in self.fl.pointees(self.itercopy(n))}
        return {(p[0], p[1][:-1]) for p in ps if p[1] and p[1][-1] == '[]'}

    def zero_lambda(self, n):
        for i in self.fn.walk(n):
            g = self.prog.fns.get(self.fn.nodes[i].get('f')) if self.fn.nodes[i].get('f') else None
            if self.fn.nodes[i]['k'] == 'Lambda' or g is not None and g.o.get('lambda'):
                g = g or self.prog.fns.get(self.fn.nodes[i].get('op'))
                if g is None:
                    return True
                for y in g.nodes:
                    if y['k'] == 'Return' and y.get('c'):
                        a = Canon(g, self.ctx)
                        z = a.zero_test(a.skip(y['c'][0]))
                        w = g.nodes[a.skip(y['c'][0])]
                        neg = w['k'] == 'Un' and w['op'] == '!'
                        return neg or z is not None and z[1]
        return False

    def compactors(self):
        """iterators written through from another iterator of the same container (out -> [it])"""
        if self._comp is None:
            self._comp = {}
            for i, x in enumerate(self.fn.nodes):
                if (x['k'] == 'Assign' or x['k'] == 'Call') and x.get('op') == '=' and len(x.get('c', ())) == 2:
                    a, b = self.skip(x['c'][0]), self.skip(x['c'][1])
                    A, B = self.fn.nodes[a], self.fn.nodes[b]
                    while B['k'] == 'Call' and B.get('fq', '').split('::')[-1] == 'move' and B.get('c') or B['k'] == 'Ctor' and len(B.get('c', ())) == 1:
                        b = self.skip(B['c'][0])
                        B = self.fn.nodes[b]
                    if self.tkind(a) != 'pair':
                        continue
                    da, db = self.desc(a), self.desc(b)
                    if da and db and da[0][0] == 'v' and db[0][0] == 'v' and da != db and not da[1] and not db[1] and {self.canon(p) for p in self.fl.places(a)} == {self.canon(p) for p in self.fl.places(b)}:
                        self._comp.setdefault(da[0][1], set()).add(db[0][1])
        return self._comp

    def backdesc(self, ob):
        if len(ob) != 1:
            return None
        p = next(iter(ob))
        return (p[0], p[1] + ('$back',))

    def dirty(self, st, p, n, why, desc=None):
        self.set(p, frozenset({('Z', n, why, desc)}), st, False)

    def container(self, ps):
        return {self.canon(p) for p in ps if p[0] != ('?',)}

    def before(self, n, st):
        fn = self.fn
        x = fn.nodes[n]
        c = x.get('c', [])
        k = x['k']
        nm = x.get('fq', '').split('::')[-1]
        self.pending = []
        if k == 'Call' and x.get('obj') and nm in ADD and c and self.tkind(c[0]) in ('poly', 'mono'):
            ob = self.container(self.fl.obj_places(n))
            args = [i for i in c[1:] if i >= 0]
            if nm in ('insert', 'emplace') and args and flow.is_iter(self.prog, fn.nodes[args[0]].get('t')):
                args = args[1:]
            if len(args) == 2 and nm.startswith('emplace'):
                toks, ok = set(self.value(args[0], st)), self.nz(args[1], st)
                if self.tkind(args[1]) is not None:
                    toks |= self.value(args[1], st)
            elif len(args) == 1:
                toks, ok = self.term_tokens(args[0], st, 'term')
            elif len(args) == 2 and all(flow.is_iter(self.prog, fn.nodes[i].get('t')) for i in args):
                toks, ok = set(), True
                for i in args:
                    for p in self.fl.pointees(i):
                        toks |= self.read(p, st)
            else:
                toks, ok = set(), False
            if self.recording:
                self.pushes += 1
                self.guarded += bool(ok)
            if not ok and (len(args) != 2 or nm.startswith('emplace')) and args and self.tkind(args[-1]) == 'other':
                ok = True
            toks = {t for t in toks if t[0] in 'ZP'}
            toks = {t for t in toks if t[0] == 'Z'}
            if not ok:
                toks.add(('Z', n, 'stores %s, whose %s may be zero' % (fn.text(args[-1])[:70] if args else 'a term', 'exponent' if self.tkind(c[0]) == 'mono' else 'coefficient'), self.backdesc(ob) if nm in ('push_back', 'emplace_back') else None))
            self.pending.append((ob, frozenset(toks)))
        elif k == 'Call' and x.get('obj') and nm == 'resize' and c and self.tkind(c[0]) in ('poly', 'mono') and fn.name not in RAW:
            a = fn.nodes[self.skip(c[1])]
            if not (a['k'] == 'Int' and a['v'] == '0'):
                self.pending.append((self.container(self.fl.obj_places(n)), frozenset({('Z', n, 'resize may add terms with coefficient zero', None)})))
        elif k == 'Call' and x.get('obj') and nm == 'pop_back' and c:
            for p in self.container(self.fl.obj_places(n)):
                d = (p[0], p[1] + ('$back',))
                kk = self.key(p)
                for q, toks in list(st.prov.items()):
                    if q[0] == kk[0]:
                        st.prov[q] = frozenset(t for t in toks if not (t[0] == 'Z' and len(t) > 3 and t[3] == d))
        if k in ('Ctor', 'InitList') and len(c) == 2 and self.tkind(n) == 'pair' or k == 'Call' and nm == 'make_pair' and len(c) == 2:
            super().kill(st, (('t', n), ()))
            if self.nz(c[1], st):
                self.pending.append(('fact', ('nz', (('t', n), ('second',)))))
        elif k in ('Ctor', 'Call') and coefish(self.prog.tstr(x.get('t'))) and not x.get('lv'):
            super().kill(st, (('t', n), ()))
            if self.nz(n, st):
                self.pending.append(('fact', ('nz', (('t', n), ()))))
        # element writes
        for p, desc, ok, why in self.elem_writes(n, st):
            e = self.elem(p)
            if e is None:
                continue
            if self.recording:
                self.elemwrites += 1
            self.pending.append(('el', e, desc, ok, (n, why)))
        if self.recording:
            self.check_call(n, st)
            if k == 'Call' and c and (x.get('obj') and nm in READS or x.get('op') in ('==', '!=')) and self.tkind(c[0]) in ('poly', 'mono'):
                for i in c[:1] if x.get('obj') else c:
                    if self.tkind(i) in ('poly', 'mono'):
                        for p in self.container(self.fl.obj_places(n) if x.get('obj') else self.fl.places(i)):
                            self.require(self.read(p, st))
        if k == 'Return' and c and c[0] >= 0 and self.recording:
            v = self.value(c[0], st)
            self.exit['ret'] = self.exit.get('ret', E0) | v
        if k == 'Call' and nm == 'erase' and x.get('obj') and len(c) == 3 and self.tkind(c[0]) in ('poly', 'mono'):
            ob = self.container(self.fl.obj_places(n))
            y = fn.nodes[self.skip(self.itercopy(c[1]))]
            if len(ob) == 1 and self.isend(c[2], next(iter(ob))):
                if y['k'] == 'Ref' and next(iter(ob)) in self.pointees1(c[1]) and ('comp', y['d']) in st.aux and ('compbad', y['d']) not in st.aux:
                    self.pending.append(('wash', next(iter(ob))))
                elif y['k'] == 'Call' and y.get('fq', '').split('::')[-1] == 'remove_if' and self.zero_lambda(y['c'][-1]):
                    self.pending.append(('wash', next(iter(ob))))
        inc = None
        if k == 'Un' and x['op'] in ('++', 'post++') or k == 'Call' and x.get('op') == '++':
            inc = fn.nodes[self.skip(c[0])]
        if inc is not None and inc['k'] == 'Ref' and inc['d'] in self.compactors():
            it = self.compactors()[inc['d']]
            ok = any(f[0] == 'nzel' and f[1] == (('v', i), ()) for f in st.facts for i in it)
            st.aux = st.aux | {('comp', inc['d'])}
            if not ok:
                st.aux = st.aux | {('compbad', inc['d'])}
        # names that move on
        if k == 'Un' and x['op'].strip('post') in ('++', '--') or k == 'Call' and x.get('op') in ('++', '--', '+=', '-=') or k in ('Assign',) or k == 'Call' and x.get('op') == '=':
            if c:
                y = fn.nodes[self.skip(c[0])]
                if y['k'] == 'Ref' and (self.fl.pointerlike(y['d']) or self.prog.tstr(y.get('t')) in ('int', 'long', 'unsigned long', 'std::size_t', 'size_t', 'unsigned int')):
                    self.forget(st, (('v', y['d']), ()))
        if k == 'Decl':
            for v in x['vars']:
                self.forget(st, (('v', v['d']), ()))
                if self.fl.byref(v['d']):
                    super().kill(st, (('v', v['d']), ()))
        if k == 'Un' and x['op'] in ('--', 'post--') and self.mode == 'raw':
            # the counter goes back over an element known to be zero
            zs = {f[1] for f in st.facts if f[0] == 'zeroel'}
            for q, toks in list(st.prov.items()):
                st.prov[q] = frozenset(t for t in toks if not (t[0] == 'Z' and len(t) > 3 and t[3] in zs))

    def elem_lv(self, n):
        """(place, desc) when expression n designates a stored term or its coefficient"""
        n = self.skip(n)
        x = self.fn.nodes[n]
        t = self.tkind(n)
        if x['k'] == 'Mem' and x.get('n') == 'second' and x.get('c') and self.tkind(x['c'][0]) == 'pair':
            p = self.onep(n)
            if p is not None and self.elem(p) is not None:
                return p, self.desc(n), 'coef'
        elif t == 'pair':
            p = self.onep(n)
            if p is not None and p[1] and p[1][-1] == '[]':
                return p, self.desc(n), 'term'
        elif x['k'] == 'Ref' and x['d'] in self.fl.bindof:
            p = self.onep(n)
            if p is not None and self.elem(p) is not None and p[1][-1] == 'second' and self.tkind_var(self.fl.bindof[x['d']][0]) == 'pair':
                return p, self.desc(n), 'coef'
        return None

    def elem_writes(self, n, st):
        fn = self.fn
        x = fn.nodes[n]
        c = x.get('c', [])
        k = x['k']
        nm = x.get('fq', '').split('::')[-1]
        out = []
        asg = k == 'Assign' or k == 'Call' and x.get('op') in ('=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=') and len(c) == 2
        if asg:
            e = self.elem_lv(c[0])
            d = self.desc(c[0]) if x['op'] == '=' and self.tkind(c[0]) == 'pair' else None
            if d is not None and d[0][0] == 'v' and d[0][1] in self.compactors():
                for f in st.facts:
                    if f[0] == 'nzel' and f[1] != d:
                        self.pending.append(('fact', f))
            if e:
                op = x['op']
                if e[2] == 'term':
                    toks, ok = self.term_tokens(c[1], st, 'term')
                else:
                    t = bare(self.prog.tstr(fn.nodes[self.skip(c[0])].get('t')))
                    if op == '=':
                        ok = self.nz_as(c[1], t, st)
                    elif op == '*=':
                        ok = self.nz(c[0], st) and self.nz_as(c[1], t, st)
                    elif op == '/=':
                        ok = self.nz(c[0], st) and (t in ('clpoly::QQ', 'clpoly::Zp') or self.divides(c[1], e[0], st))
                    elif op == '<<=':
                        ok = self.nz(c[0], st)
                    elif op in ('%=', '+=', '-=') and self.modulus(c[1]):
                        ok = self.nz(c[0], st)
                    else:
                        ok = False
                out.append((e[0], e[1], ok, '%s may make a stored %s zero' % (fn.text(n)[:70], 'coefficient')))
            for i in (c[1],):
                self.moved_elem(i, out)
        elif k in ('Call', 'Ctor') and nm not in ('move', 'forward', 'get', 'swap'):
            w = {self.canon(p): kd for p, s, kd in self.fl.writes(n)}
            for i in c:
                if i < 0:
                    continue
                e = self.elem_lv(i)
                if e and e[0] in w and w[e[0]] != 'move' and not (x.get('obj') and i == c[0] and nm in ('operator=',)):
                    if nm == 'clear':
                        continue
                    out.append((e[0], e[1], self.keeps(n, nm), '%s may make a stored coefficient zero' % fn.text(n)[:70]))
                self.moved_elem(i, out, n)
        return out

    def keeps(self, n, nm):
        return nm in ('normalization', 'prime', 'comp', 'reserve', 'shrink_to_fit', 'negate')

    def moved_elem(self, i, out, call=None):
        x = self.fn.nodes[self.skip(i)] if i >= 0 else None
        if x and x['k'] == 'Call' and x.get('fq', '').split('::')[-1] == 'move' and x.get('c'):
            e = self.elem_lv(x['c'][0])
            if e and e[2] == 'coef':
                out.append((e[0], e[1], False, '%s leaves an unspecified coefficient behind' % self.fn.text(i)[:60]))

    def divides(self, n, p, st):
        """the divisor is a common divisor of the coefficients of the container"""
        q = self.onep(self.target(n))
        e = self.elem(p)
        if q is not None and e is not None and q[0][0] == 'v' and not q[1] and self.contentlike(q[0][1], e):
            return True
        if q is not None and e is not None:
            for f in st.facts:
                if f[0] == 'cdiv' and f[1] == q and (f[2] == e):
                    return True
        return False

    def contentlike(self, d, e):
        """everything variable d is ever given is a gcd over the coefficients of e (a loop accumulating it is taken to run to the end or to stop at 1)"""
        src = list(self.fl.defs.get(d, ()))
        for i, y in enumerate(self.fn.nodes):
            if y['k'] in ('Assign', 'Call') and y.get('op') in ('=', '*=', '+=', '-=', '/=') and len(y.get('c', ())) == 2:
                z = self.fn.nodes[self.skip(y['c'][0])]
                if z['k'] == 'Ref' and z['d'] == d:
                    if y['op'] != '=':
                        return False
                    src.append(y['c'][1])
        gc = [0]

        def good(n):
            n = self.skip(n)
            x = self.fn.nodes[n]
            c = [i for i in x.get('c', ()) if i >= 0]
            nm = x.get('fq', '').split('::')[-1]
            if x['k'] == 'Ref' and x['d'] == d or x['k'] == 'Int' and x['v'] in ('1', 1):
                return True
            if x['k'] in ('Un', 'Call') and x.get('op') == '-' and len(c) == 1:
                return good(c[0])
            if x['k'] == 'Ctor' and len(c) == 1 or x['k'] == 'Call' and nm in ('abs', 'move') and c:
                return good(c[0])
            if x['k'] == 'Call' and nm == 'gcd' and len(c) == 2:
                gc[0] += 1
                return good(c[0]) and good(c[1])
            if x['k'] == 'Call' and nm == 'cont' and c:
                gc[0] += 1
                return self.onep(c[0]) == e
            p = self.onep(n)
            return p is not None and self.elem(p) == e
        return bool(src) and all(good(i) for i in src) and gc[0] > 0

    def after(self, n, st):
        x = self.fn.nodes[n]
        for z in self.pending or ():
            if z[0] == 'fact':
                self.add(st, [z[1]])
            elif z[0] == 'wash':
                self.set(z[1], E0, st, True)
                self.wash(z[1], st)
            elif z[0] == 'el':
                _, e, desc, ok, (site, why) = z
                if not ok:
                    self.dirty(st, e, site, why, desc)
                else:
                    if desc is not None:
                        k = self.key(e)
                        for q, toks in list(st.prov.items()):
                            if q[0] == k[0]:
                                st.prov[q] = frozenset(t for t in toks if not (t[0] == 'Z' and len(t) > 3 and t[3] == desc))
                        if self.mode == 'raw' or any(t[0] == 'Z' for t in self.read(e, st)):
                            self.add(st, [('nzel', desc, (e[0], e[1] + ('[]',)))])
            else:
                ob, toks = z
                if self.backdesc(ob):
                    self.forget(st, self.backdesc(ob), exact=True)
                for p in ob:
                    self.set(p, toks, st, False)
        self.pending = []
        # scalars given a value
        k = x['k']
        c = x.get('c', [])
        if k == 'Decl':
            for v in x['vars']:
                if 'i' in v and not self.fl.byref(v['d']):
                    p = (('v', v['d']), ())
                    if self.tkind_var(v['d']) == 'pair':
                        toks, ok = self.term_tokens(v['i'], st, 'term')
                        if ok:
                            self.add(st, [('nz', (p[0], ('second',)))])
                    elif self.nz(v['i'], st):
                        self.add(st, [('nz', p)])
        elif (k == 'Assign' or k == 'Call') and x.get('op') in ('=', '*=') and len(c) == 2:
            p = self.onep(c[0])
            if p is not None and '[]' not in p[1] and p[0][0] in ('v', 'this'):
                y = self.tkind(c[0])
                if y == 'pair':
                    toks, ok = self.term_tokens(c[1], st, 'term')
                    if ok:
                        self.add(st, [('nz', (p[0], p[1] + ('second',)))])
                elif x['op'] == '=' and self.nz_as(c[1], self.ty(c[0]), st):
                    self.add(st, [('nz', p)])
        nm = x.get('fq', '').split('::')[-1]
        if k == 'Call' and x.get('obj') and nm in ADD and c:
            for p in self.container(self.fl.obj_places(n)):
                if '[]' not in p[1]:
                    self.add(st, [('nz', p)])
                    kk = (p[0], p[1] + ('$back',))
        if k == 'Decl':
            for v in x['vars']:
                if 'i' in v:
                    self.common_divisor((('v', v['d']), ()), v['i'], st)
        elif (k == 'Assign' or k == 'Call') and x.get('op') == '=' and len(c) == 2:
            p = self.onep(c[0])
            if p is not None:
                self.common_divisor(p, c[1], st)

    def common_divisor(self, p, n, st):
        n = self.skip(n)
        x = self.fn.nodes[n]
        if x['k'] == 'Ctor' and len(x.get('c', ())) == 1:
            return self.common_divisor(p, x['c'][0], st)
        if x['k'] in ('Un', 'Call') and x.get('op') == '-' and len(x['c']) == 1:
            q = self.onep(x['c'][0])
            for f in list(st.facts):
                if f[0] == 'cdiv' and f[1] == q and q != p:
                    self.add(st, [('cdiv', p, f[2])])
            return
        if x['k'] == 'Call' and x.get('fq', '').split('::')[-1] == 'cont' and x.get('c'):
            q = self.onep(x['c'][0])
            if q is not None:
                self.add(st, [('cdiv', p, q)])

    def survives(self, f, p):
        # dividing or multiplying every coefficient does not change which value was the content, only whether it still divides
        if f[0] == 'cdiv' and f[2] != p and f[1] != p and flow.overlap(f[2], p) and len(p[1]) > len(f[2][1]):
            return True
        return False

    def tkind_var(self, d):
        return kind(self.prog.tstr(self.fn.vars[d]['t']))

    KEEPNZ = {'+': 0}

    def call_effect(self, n, st, w):
        x = self.fn.nodes[n]
        k = x['k']
        c = x.get('c', [])
        nm = x.get('fq', '').split('::')[-1]
        if k in ('Assign', 'Un') or k == 'Call' and x.get('op') in ('+=', '-=', '*=', '/=', '%=', '++', '--', '<<=', '>>='):
            keep = []
            if x.get('op') == '*=' and len(c) == 2 and self.nz(c[0], st) and self.nz_as(c[1], self.ty(c[0]), st):
                p = self.onep(c[0])
                if p is not None:
                    keep.append(('nz', p))
            for p, strong, kd in w:
                self.kill(st, p)
                if kd != 'move' and x.get('op') in ('+=', '-=', '*=', '/=') and self.tkind(c[0]) in ('poly', 'other') and self.elem(self.canon(p)) is None:
                    self.set(p, E0, st, True)
            self.add(st, keep)
            return True
        if k == 'Call' and x.get('obj') and c and self.tkind(c[0]) is not None and nm in ADD | {'pop_back', 'resize', 'reserve', 'shrink_to_fit', 'erase', 'comp', 'deg', 're_deg', 'data', 'begin', 'end', 'front', 'back', 'normalization', 'clear', 'sort', 'splice', 'pop_front', 'unique'}:
            for p, strong, kd in w:
                self.kill(st, p)
            if nm in ('clear', 'normalization'):
                for p in self.container(self.fl.obj_places(n)):
                    if nm == 'normalization' or '[]' not in p[1]:
                        self.set(p, E0, st, '[]' not in p[1])
                        if nm == 'normalization':
                            self.wash(p, st)
            elif nm in ADD and self.tkind(c[0]) == 'other':
                toks = set()
                for i in c[1:]:
                    toks |= self.value(i, st)
                for p in self.container(self.fl.obj_places(n)):
                    self.set(p, frozenset(t for t in toks if t[0] == 'Z'), st, False)
            return True
        g = self.prog.fns.get(x.get('f'))
        if nm == 'pair_vec_normalization' or nm == 'pair_vec_first_normalization':
            for p, strong, kd in w:
                self.kill(st, p)
            if nm == 'pair_vec_normalization' and c and self.mode != 'raw':
                p = self.onep(c[0])
                if p is not None:
                    self.set(p, E0, st, True)
            return True
        if g is not None and g.blocks and not g.o.get('dfl'):
            s = self.ctx.summary(g)
            vals = {}
            if s is not None:
                for i in range(-1, len(g.params)):
                    a = self.argn(n, i)
                    if a is not None:
                        vals[i] = self.value(a, st)
                for p, strong, kd in w:
                    self.kill(st, p)
                for i, toks in s.exit.items():
                    if i == 'ret':
                        continue
                    a = self.argn(n, i)
                    if a is None or k == 'Ctor':
                        continue
                    if self.elem_lv(a) and self.tkind(a) == 'pair':
                        continue
                    out = set()
                    for t in toks:
                        if t[0] == 'P':
                            out |= vals.get(t[1], E0)
                        else:
                            out.add(('Z', n, 'the terms %s leaves in %s' % (g.name, self.fn.text(a)[:30]), None))
                    ps = self.container(self.fl.places(a) if not (x.get('obj') and i == -1) else self.fl.obj_places(n))
                    for p in ps:
                        if len(ps) == 1 and '[]' not in p[1]:
                            self.set(p, frozenset(out), st, True)
                        else:
                            self.set(p, frozenset(t for t in out if t[0] == 'Z'), st, False)
                return True
        if nm in ('sort', 'reverse', 'rotate', 'swap', 'iter_swap', 'stable_sort'):
            return nm != 'swap'
        for p, strong, kd in w:
            self.kill(st, p)
        toks = set()
        if k in ('Ctor', 'Call'):
            for i in c:
                toks |= self.value(i, st)
        toks = frozenset(t for t in toks if t[0] == 'Z')
        if toks:
            for p, strong, kd in w:
                if kd != 'move':
                    self.set(p, toks, st, strong)
        return True

    def wash(self, p, st):
        k = self.key(p)
        for q in list(st.prov):
            if q[0] == k[0] and q[1][:len(k[1])] == k[1]:
                st.prov[q] = E0

    # ------------------------------------------------ obligations
    def check_call(self, n, st):
        x = self.fn.nodes[n]
        if x['k'] not in ('Call', 'Ctor'):
            return
        g = self.prog.fns.get(x.get('f'))
        if g is None or g.name in RAW or not g.qn.startswith('clpoly::'):
            return
        if x['k'] == 'Call' and x.get('obj') and g.cls and kind(g.cls) and g.name in ADD | {'data', 'clear', 'begin', 'end', 'size', 'empty', 'reserve', 'resize', 'pop_back', 'front', 'back', 'operator[]', 'comp', 'comp_ptr', 'capacity', 'shrink_to_fit', 'operator=', 'swap', 'deg', 're_deg', 'at'}:
            return
        hot = []
        for i in range(-1, len(g.params)):
            a = self.argn(n, i)
            if a is None or self.tkind(a) is None:
                continue
            if x.get('obj') and i == -1:
                toks = E0
                for p in self.fl.obj_places(n):
                    if p[0][0] != 't':
                        toks |= self.read(p, st)
            else:
                toks = self.value(a, st)
            if toks:
                hot.append((i, a, toks))
        if not hot:
            return
        s = self.ctx.summary(g)
        if s is None:
            return
        for i, a, toks in hot:
            if i in s.requires:
                self.calls += 1
                for t in toks:
                    if t[0] == 'P':
                        self.requires.add(t[1])
                    elif t[0] == 'Z':
                        self.viol.append((n, t, '%s is given to %s, which relies on it having no zero %s' % (
                            self.fn.text(a)[:40], g.name, 'coefficients')))

    def finish(self):
        fn = self.fn
        st = self.IN.get(fn.exit)
        if st is None:
            return self
        for i, d in enumerate(fn.params):
            T = self.prog.T(fn.vars[d]['t'])
            if kind(self.prog.tstr(fn.vars[d]['t'])) and T.get('ref') == 1 and not flow.cref(self.prog, T):
                self.exit[i] = self.read((('v', d), ()), st)
        if fn.cls and kind(fn.cls):
            self.exit[-1] = self.read((('this',), ()), st)
        return self


class Context:
    def __init__(self, prog):
        self.prog = prog
        self.sums = {}
        self.busy = set()
        self.api = api()

    def want(self, cur, e, g):
        if g.o.get('lambda'):
            return True
        return g.qn.startswith('clpoly::') and g.qn not in self.api and len(g.nodes) < 1500

    def relevant(self, g):
        if any(kind(self.prog.tstr(v['t'])) for v in g.vars):
            return True
        return bool(g.cls and kind(g.cls)) or bool(kind(self.prog.tstr(g.o.get('ret')))) if g.o.get('ret') is not None else bool(g.cls and kind(g.cls))

    def summary(self, g):
        k = g.key
        if k in self.sums:
            return self.sums[k]
        if k in self.busy or not g.blocks or not self.relevant(g):
            return None
        if len(self.busy) > 60:
            return None
        if g.name in RAW:
            self.sums[k] = None
            return None
        self.busy.add(k)
        try:
            f = inline.expand(g, self.want, 3)
            a = Canon(f, self)
            a.run()
            a.finish()
            self.sums[k] = a
        finally:
            self.busy.discard(k)
        return self.sums[k]


class Compact:
    """pair_vec_normalization: path sets of (what is known of the element behind each iterator, counter minus position of the write cursor)"""

    def __init__(self, f, ctx):
        self.fn = f
        self.c = Canon(f, ctx, 'raw')
        self.prog = f.prog
        self.bad = []
        self.returns = 0
        self.its = {d for d, v in enumerate(f.vars) if 'iterator' in self.prog.tstr(v['t'])}
        self.cur = set(self.c.compactors())

    def it(self, n):
        n = self.c.itercopy(n)
        x = self.fn.nodes[n]
        return x['d'] if x['k'] == 'Ref' and x['d'] in self.its else None

    def elem(self, n):
        """iterator behind the element expression *t / t->second"""
        d = self.c.desc(n)
        return d[0][1] if d and d[0][0] == 'v' and not d[1] and d[0][1] in self.its else None

    def run(self):
        fn = self.fn
        if len(self.cur) != 1:
            return False
        self.t1 = next(iter(self.cur))
        IN = {fn.entry: {(frozenset(), frozenset(), None)}}
        work = [fn.entry]
        while work:
            b = work.pop()
            S = IN[b]
            if len(S) > 400:
                return False
            out = set(S)
            for e in fn.blocks[b]['e']:
                if not isinstance(e, dict):
                    out = {y for s in out for y in self.step(e, s)}
            blk = fn.blocks[b]
            if blk.get('nr'):
                continue
            for j, t in enumerate(blk['s']):
                if t < 0:
                    continue
                o = out
                if 'cond' in blk and len(blk['s']) == 2:
                    o = {y for s in out for y in self.edge(blk['cond'], j == 0, s)}
                old = IN.get(t, set())
                if not o <= old:
                    IN[t] = old | o
                    work.append(t)
        return True

    def get(self, s, d):
        return dict(s[0]).get(d)

    def put(self, s, d, v, learn=False):
        m = dict(s[0])
        m.pop(d, None)
        if not learn:
            m = {a: b for a, b in m.items() if not (isinstance(a, tuple) and b[0] == d)}
        if v:
            m[d] = v
        return (frozenset(m.items()), s[1], s[2])

    def edge(self, n, truth, s):
        c = self.c
        n = c.skip(n)
        x = self.fn.nodes[n]
        if x['k'] == 'Un' and x['op'] == '!':
            return self.edge(x['c'][0], not truth, s)
        if x['k'] in ('Bin', 'Call') and x.get('op') in ('==', '!=') and len(x['c']) == 2:
            a, b = self.it(x['c'][0]), self.it(x['c'][1])
            if a is not None and b is not None:
                if truth == (x['op'] == '=='):
                    v = self.get(s, a) or self.get(s, b)
                    if {self.get(s, a), self.get(s, b)} == {'nz', 'zero'}:
                        return []
                    return [self.put(self.put(s, a, v, True), b, v, True)]
                return [s]
            for i, j in ((0, 1), (1, 0)):
                v = c.boolval(c.skip(x['c'][j]))
                y = self.fn.nodes[c.skip(x['c'][i])]
                if v is not None and y['k'] == 'Ref' and c.isbool(y['d']):
                    return self.edge(x['c'][i], truth == ((x['op'] == '==') == v), s)
        if x['k'] == 'Ref' and c.isbool(x['d']):
            q = dict(s[0]).get(('b', x['d']))
            return [s] if q is None else self.learn(s, q[0], truth == q[1])
        z = self.tested(n)
        return [s] if z is None else self.learn(s, z[0], truth == z[1])

    def learn(self, s, d, zero):
        v = 'zero' if zero else 'nz'
        return [] if self.get(s, d) not in (None, v) else [self.put(s, d, v, True)]

    def tested(self, n):
        """(iterator, truth): the value behind the iterator is zero exactly when n has that truth"""
        c = self.c
        n = c.skip(n)
        x = self.fn.nodes[n]
        if x['k'] == 'Un' and x['op'] == '!':
            r = self.tested(x['c'][0])
            return r and (r[0], not r[1])
        z = c.zero_test(n)
        if z is None or x.get('op') in ('<', '>'):
            return None
        d = self.elem(c.target(z[0]))
        return None if d is None else (d, z[1])

    def note(self, n, text):
        if (n, text) not in self.bad:
            self.bad.append((n, text))

    def step(self, n, s):
        fn, c = self.fn, self.c
        x = fn.nodes[n]
        k = x['k']
        ch = x.get('c', [])
        nm = x.get('fq', '').split('::')[-1]
        if k == 'Decl':
            for v in x['vars']:
                if 'i' not in v:
                    continue
                if v['d'] in self.its:
                    src = self.it(v['i'])
                    s = self.put(s, v['d'], self.get(s, src) if src is not None else None)
                    if v['d'] == self.t1:
                        y = fn.nodes[c.itercopy(v['i'])]
                        atb = y['k'] == 'Call' and y.get('fq', '').split('::')[-1] in ('begin', 'cbegin') or y['k'] == 'Ref' and self.isbegin(y['d'])
                        s = (s[0], s[1], 0 if atb else None)
                else:
                    y = fn.nodes[c.skip(v['i'])]
                    if c.isbool(v['d']):
                        r = self.tested(v['i'])
                        s = self.put(s, ('b', v['d']), r, True)
                    m = dict(s[1])
                    m.pop(v['d'], None)
                    if y['k'] == 'Int' and (s[2] is not None or s[2] is None):
                        m[v['d']] = int(y['v']) - (s[2] or 0)
                    s = (s[0], frozenset(m.items()), s[2])
            return [s]
        inc = 0
        if k in ('Un', 'Call') and x.get('op', '').replace('post', '') in ('++', '--') and ch:
            inc = 1 if '+' in x['op'] else -1
        if inc:
            y = fn.nodes[c.skip(ch[0])]
            if y['k'] == 'Ref':
                d = y['d']
                if d == self.t1:
                    if inc > 0 and self.get(s, d) != 'nz':
                        self.note(n, 'the write position moves on past an element whose value may be zero (merged terms may have cancelled)')
                    s = self.put(s, d, None)
                    m = {a: b - inc for a, b in s[1]}
                    if any(abs(b) > 8 for b in m.values()):
                        m = {}
                    return [(s[0], frozenset(m.items()), None if s[2] is None else (s[2] + inc if s[2] < 3 else 3))]
                if d in self.its:
                    return [self.put(s, d, None)]
                m = dict(s[1])
                if d in m and not c.isbool(d):
                    m[d] += inc
                    if abs(m[d]) > 8:
                        del m[d]
                return [(s[0], frozenset(m.items()), s[2])]
        if (k == 'Assign' or k == 'Call') and x.get('op') in ('=', '+=', '-=', '*=') and len(ch) == 2:
            d = self.elem(ch[0])
            if c.tkind(ch[0]) == 'pair' and d is not None and x['op'] == '=':
                r = c.skip(ch[1])
                mv = fn.nodes[r]['k'] == 'Call' and fn.nodes[r].get('fq', '').endswith('move')
                e = self.elem(r)
                if e is None:
                    return [self.put(s, d, None)]
                s2 = self.put(s, d, self.get(s, e))
                return [self.put(s2, e, None) if mv and e != d else s2]
            y = fn.nodes[c.skip(ch[0])]
            if d is not None and y['k'] == 'Mem' and y.get('n') == 'second':
                for q in self.its:
                    if q != d and self.get(s, q) is None:
                        pass
                return [self.put(s, d, None)]
            if y['k'] == 'Ref' and x['op'] == '=' and y['d'] in self.its:
                src = self.it(ch[1])
                return [self.put(s, y['d'], self.get(s, src) if src is not None else None)]
            if y['k'] == 'Ref' and c.isbool(y['d']):
                return [self.put(s, ('b', y['d']), self.tested(ch[1]) if x['op'] == '=' else None, True)]
            if y['k'] == 'Ref':
                m = dict(s[1])
                z = fn.nodes[c.skip(ch[1])]
                if y['d'] in m:
                    if x['op'] in ('+=', '-=') and z['k'] == 'Int':
                        m[y['d']] += int(z['v']) * (1 if x['op'] == '+=' else -1)
                    else:
                        del m[y['d']]
                return [(s[0], frozenset(m.items()), s[2])]
        if k == 'Call' and nm in ('addmul', 'submul', '__addmul', '__submul') and ch:
            d = self.elem(ch[0])
            if d is not None:
                return [self.put(s, d, None)]
        if k == 'Call' and nm in ('swap', 'iter_swap') and len(ch) == 2:
            a, b = self.elem(ch[0]), self.elem(ch[1])
            if nm == 'iter_swap':
                a, b = self.it(ch[0]), self.it(ch[1])
            if a is not None and b is not None:
                va, vb = self.get(s, a), self.get(s, b)
                return [self.put(self.put(s, a, vb), b, va)]
        if k == 'Return' and ch and ch[0] >= 0:
            self.returns += 1
            off = self.size(ch[0], s)
            if off is None:
                return [s]
            if off == 'zero':
                return [s]
            if off > 1:
                self.note(n, 'the returned size counts more elements than were written')
            elif off == 1 and self.get(s, self.t1) != 'nz':
                self.note(n, 'the returned size counts the last written element, whose value may be zero')
        return [s]

    def isbegin(self, d):
        for i in self.c.fl.defs.get(d, ()):
            y = self.fn.nodes[self.c.itercopy(i)]
            if not (y['k'] == 'Call' and y.get('fq', '').split('::')[-1] in ('begin', 'cbegin')):
                return False
        return bool(self.c.fl.defs.get(d))

    def size(self, n, s):
        c = self.c
        n = c.skip(n)
        x = self.fn.nodes[n]
        if x['k'] == 'Int':
            return 'zero' if x['v'] in ('0', 0) else None
        if x['k'] == 'Ref':
            return dict(s[1]).get(x['d'])
        if x['k'] in ('Bin', 'Call') and x.get('op') in ('+', '-') and len(x['c']) == 2:
            a, b = self.it(x['c'][0]), self.it(x['c'][1])
            if x['op'] == '-' and a == self.t1 and b is not None and self.isbegin(b):
                return 0
            y = self.fn.nodes[c.skip(x['c'][1])]
            if y['k'] == 'Int':
                r = self.size(x['c'][0], s)
                return r + int(y['v']) * (1 if x['op'] == '+' else -1) if isinstance(r, int) else None
        if x['k'] == 'Cond':
            return None
        return None


class P01:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep

    def go(self):
        prog, rep = self.prog, self.rep
        ctx = Context(prog)
        seen = set()
        for g in sorted(prog.fns.values(), key=lambda f: f.key):
            if not g.blocks or g.o.get('lambda') or not g.qn.startswith('clpoly::') or g.name in RAW or not ctx.relevant(g):
                continue
            a = ctx.summary(g)
            if a is None:
                continue
            rep.count('functions')
            rep.count('stores of terms', a.pushes)
            rep.count('stores shown non-zero', a.guarded)
            rep.count('coefficient updates', a.elemwrites)
            rep.count('calls relying on it', a.calls)
            for n, t, text in a.viol:
                why = t[2]
                key = (g.qn, a.fn.loc(n), text)
                if key in seen:
                    continue
                seen.add(key)
                rep.violation('%s:arg' % g.qn, '%s %s: %s, but %s' % (self.loc(a, n), g.name, text, why))
            if g.cls and kind(g.cls) and g.name in ADD | {'resize'}:
                continue            # the element interface of the containers: the caller's obligation, checked where it is called
            if g.qn in ctx.api and not g.name.startswith('__'):
                for i, toks in sorted(a.exit.items(), key=str):
                    for t in sorted((t for t in toks if t[0] == 'Z'), key=str):
                        what = 'the result' if i == 'ret' else 'the object' if i == -1 else a.fn.vars[g.params[i]]['n']
                        key = (g.qn, self.loc(a, t[1]), t[2])
                        if key in seen:
                            continue
                        seen.add(key)
                        rep.violation('%s:%s' % (g.qn, i), '%s %s leaves a term with value zero in %s: %s' % (self.loc(a, t[1]), g.name, what, t[2]))
        return ctx

    def norm(self, ctx):
        """the function that establishes the property: compaction keeps no zero element, and the container is cut to what it returns"""
        prog, rep = self.prog, self.rep
        for g in sorted(prog.byqn('clpoly::pair_vec_normalization'), key=lambda f: f.key):
            if not g.blocks:
                continue
            f = inline.expand(g, ctx.want, 3)
            a = Compact(f, ctx)
            if not a.run():
                rep.count('normalizations not analysed (no in-place write cursor)')
                continue
            rep.count('normalizations')
            rep.count('paths to a normalized size', a.returns)
            for n, text in a.bad:
                rep.violation('%s:compact' % g.qn, '%s %s: %s' % (f.loc(n), g.name, text))
        for g in prog.fns.values():
            if g.name != 'normalization' or not g.blocks or not g.cls or not kind(g.cls):
                continue
            f = inline.expand(g, ctx.want, 3)
            c = Canon(f, ctx)
            call = [i for i, x in enumerate(f.nodes) if x['k'] == 'Call' and x.get('fq', '').split('::')[-1] == 'pair_vec_normalization']
            used = False
            for i, x in enumerate(f.nodes):
                if x['k'] == 'Call' and x.get('fq', '').split('::')[-1] in ('resize', 'erase') and len(x.get('c', ())) >= 2:
                    for j in f.walk(x['c'][1]):
                        y = f.nodes[j]
                        if j in call or y['k'] == 'Ref' and any(q in call for z in c.fl.defs.get(y['d'], ()) for q in f.walk(z)):
                            used = True
            rep.count('normalizing members')
            if call and not used:
                rep.violation('%s:cut' % g.qn, '%s %s: the terms beyond the size returned by pair_vec_normalization are not removed' % (f.loc(call[0]), g.name))

    def loc(self, a, n):
        return a.fn.loc(n) if n >= 0 else a.fn.loc()


def run(prop, tier, rep):
    rep.rule = ('Every term container is clean while every store into it (push, insertion, element assignment or update, resize) is of a coefficient or exponent '
                'shown non-zero on every path by a test, by construction (product, negation or quotient over a field of non-zero values) or by a later removal; '
                'a public function may not return with an unclean result, nor hand an unclean container to a function that relies on it; '
                'pair_vec_normalization advances its write position and counts an element only when it is known to be non-zero.')
    for cfg in ('rel', 'dbg') if tier == 'thorough' else ('rel',):
        prog = ir.load(cfg)
        p = P01(prog, rep)
        p.norm(p.go())
    rep.need('functions', 1000)
    rep.need('stores of terms', 500)
    rep.need('coefficient updates', 60)
    rep.need('normalizing members', 2)
