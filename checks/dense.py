"""N08: dense polynomials over a word-sized prime (class dense_upoly_zp): residues, constants, trimmed lengths, word kernels."""
import re
import ir
import kernel

C = 'clpoly::dense_upoly_zp'
COEF, P, NINV, NORM = '_coeffs', '_p', '_ninv', '_norm'
FIELDS = (P, NINV, NORM)
T0 = frozenset()
ASM = ['addq b0,lo', 'adcq b1,mid', 'adcq $0,hi']


class Model:
    def __init__(self, prog):
        self.prog = prog
        rec = prog.records.get(C)
        if not rec or [f['name'] for f in rec['fields']] != [COEF, P, NINV, NORM]:
            raise ir.AnalysisBroken('class dense_upoly_zp was not recognised')
        self.fns = [f for f in prog.fns.values() if f.cls == C and f.blocks]
        g = lambda n: [f for f in self.fns if f.name == n]
        self.add, self.sub, self.mul, self.inv = g('nmod_add'), g('nmod_sub'), g('nmod_mul'), g('nmod_inv')
        self.lll, self.umul, self.carry, self.pre = g('_lll_mod_preinv'), g('_umul128'), g('_add_carry3'), g('__precompute')
        self.kern = {}
        for k in ('add', 'sub', 'mul', 'inv', 'lll', 'umul', 'carry', 'pre'):
            if not getattr(self, k):
                raise ir.AnalysisBroken('kernel %s of dense_upoly_zp was not recognised' % k)
            for f in getattr(self, k):
                self.kern[f.key] = k
        self.preinv = {f.key for f in g('__preinvert_limb')}
        self.work = [f for f in self.fns if f.key not in self.kern and f.key not in self.preinv and f.kind not in ('cc', 'mc', 'ca', 'ma', 'dtor')]
        self.sum = {}        # key -> Summary

    def isobj(self, t):
        return self.prog.tstr(t).replace('const ', '').rstrip(' &') == C

    def T(self, t):
        return self.prog.T(t)

    def isword(self, t):
        return self.prog.tstr(t).replace('const ', '').rstrip(' &') in ('unsigned long', 'uint64_t', 'size_t', 'std::size_t', 'std::uint64_t', 'unsigned long long', 'long', 'int64_t', 'long long', 'std::int64_t')

    def public(self, f):
        m = [q for q in self.prog.records[C]['methods'] if q['line'] == f.line]
        return f.kind is not None or not m or any(q['acc'] == 0 for q in m)


class Summary:
    """need: facts about parameters the function relies on; rnorm/rres: every return value is a normalised length / residue;
    out: parameter indices (lengths by reference, objects, 'this') established at exit; keeps: objects kept trimmed"""
    def __init__(self):
        self.need = set()
        self.ret = T0            # {'norm','res'} or, for pairs, {('norm',0),('norm',1)}
        self.out = T0
        self.keep = T0
        self.writes = T0


class An:
    def __init__(self, m, f, assume, rep=None):
        self.m, self.f, self.prog, self.assume, self.rep = m, f, m.prog, assume, rep
        self.fails = []
        self.refs = {}
        self.obl = 0
        for x in f.nodes:
            if x['k'] == 'Decl':
                for v in x['vars']:
                    if 'i' in v and self.m.T(f.vars[v['d']]['t']).get('ref') and self.obj(v['i']) is not None:
                        self.refs[v['d']] = self.obj(v['i'])

    # ---- places
    def strip(self, n):
        f = self.f
        while n is not None and n >= 0:
            x = f.nodes[n]
            k = x['k']
            c = [i for i in x.get('c', ()) if i >= 0]
            if (k in ('Cast', 'Paren') or k.endswith('CastExpr') or k == 'Ctor' and len(c) == 1 and x.get('ck') in ('copy', 'move') or k == 'Call' and x.get('fq') in ('std::move', 'std::forward')) and c:
                n = c[0]
            else:
                return n
        return n

    def obj(self, n):
        """'this', a variable holding an object of the class, or None"""
        n = self.strip(n)
        if n is None or n < 0:
            return None
        x = self.f.nodes[n]
        if x['k'] == 'This':
            return 'this'
        if x['k'] == 'Un' and x.get('op') == '*':
            return self.obj(x['c'][0]) if self.f.nodes[self.strip(x['c'][0])]['k'] == 'This' else None
        if x['k'] == 'Ref' and self.m.isobj(self.f.vars[x['d']]['t']):
            return self.refs.get(x['d'], x['d'])
        return None

    def field(self, n):
        """(object, field) for an access to a field of the class"""
        n = self.strip(n)
        if n is None or n < 0:
            return None
        x = self.f.nodes[n]
        if x['k'] == 'Mem' and not x.get('fn') and x.get('own') == C and x.get('c'):
            o = self.obj(x['c'][0])
            return (o, x['n']) if o is not None else None
        return None

    def coef(self, n):
        """object whose coefficient vector n denotes (also through a reference or the range of a loop)"""
        n = self.strip(n)
        if n is None or n < 0:
            return None
        x = self.f.nodes[n]
        p = self.field(n)
        if p and p[1] == COEF:
            return p[0]
        if x['k'] == 'Ref':
            i = self.init(x['d'])
            if i is not None and self.m.T(self.f.vars[x['d']]['t']).get('ref'):
                return self.coef(i)
        return None

    def init(self, d):
        for x in self.f.nodes:
            if x['k'] == 'Decl':
                for v in x['vars']:
                    if v['d'] == d:
                        return v.get('i')
        return None

    def var(self, n):
        n = self.strip(n)
        if n is not None and n >= 0 and self.f.nodes[n]['k'] == 'Ref':
            return self.f.nodes[n]['d']
        return None

    def const(self, n):
        n0 = n
        while n0 is not None and n0 >= 0:
            x = self.f.nodes[n0]
            if x.get('v') is not None and x['k'] in ('Int', 'Cast', 'Mem', 'Ref', 'Bool', 'Sizeof'):
                try:
                    return int(x['v'])
                except ValueError:
                    return None
            c = x.get('c', ())
            if x['k'] in ('Cast', 'Paren') and c:
                n0 = c[0]
                continue
            return None
        return None

    def elem(self, n):
        """('vec', obj) / ('ptr',) when n denotes a word inside an array of words"""
        n = self.strip(n)
        if n is None or n < 0:
            return None
        x = self.f.nodes[n]
        if x['k'] == 'Index' or x['k'] == 'Call' and x.get('op') == '[]' or x['k'] == 'Call' and x.get('fq') in ('std::vector::at', 'std::vector::back', 'std::vector::front'):
            if not self.m.isword(x.get('t')):
                return None
            if '[' in self.prog.tstr(self.f.nodes[self.strip(x['c'][0])].get('t')):
                return None         # small fixed array of lengths
            o = self.coef(x['c'][0])
            if o is not None:
                return ('vec', o)
            if x['k'] == 'Call' and self.obj(x['c'][0]) is not None:
                return ('val', self.obj(x['c'][0]))
            return ('ptr',)
        if x['k'] == 'Un' and x.get('op') == '*' and self.m.isword(x.get('t')):
            return ('ptr',)
        if x['k'] == 'Ref' and self.m.T(self.f.vars[x['d']]['t']).get('ref') and self.m.isword(self.f.vars[x['d']]['t']) and self.f.vars[x['d']]['k'] != 'param':
            i = self.init(x['d'])
            i = self.strip(i) if i is not None else None
            if i is not None and self.f.nodes[i]['k'] == 'Call' and self.f.nodes[i].get('op') == '*':
                for rg in self.f.vars:
                    pass
                o = self.range_of(i)
                return ('vec', o) if o is not None else ('ptr',)
            if i is not None:
                return self.elem(i)
        return None

    def range_of(self, n):
        """object over whose coefficients the iterator dereferenced at n runs"""
        it = self.var(self.f.nodes[n]['c'][0])
        if it is None:
            return None
        i = self.init(it)
        i = self.strip(i) if i is not None else None
        if i is not None and self.f.nodes[i]['k'] == 'Call' and self.f.nodes[i].get('fq', '').endswith('::begin'):
            return self.coef(self.f.nodes[i]['c'][0])
        return None

    def w3(self, n):
        """text of the three-word accumulator place n, or None"""
        n = self.strip(n)
        if n is None or n < 0:
            return None
        if self.prog.tstr(self.f.nodes[n].get('t')).replace('const ', '').rstrip(' &').endswith('word3'):
            x = self.f.nodes[n]
            if x['k'] == 'Ref' and self.m.T(self.f.vars[x['d']]['t']).get('ref') and self.init(x['d']) is not None:
                return self.w3(self.init(x['d'])) or 'v%d' % x['d']
            return self.f.text(n)
        return None

    # ---- value predicates
    def res(self, n, st):
        n = self.strip(n)
        x = self.f.nodes[n]
        c = x.get('c', [])
        v = self.const(n)
        if v is not None:
            return 0 <= v <= 1
        if self.elem(n) is not None:
            return True
        if x['k'] == 'Ref':
            return ('res', x['d']) in st
        if x['k'] == 'Assign' and x.get('op') == '=':
            return self.res(c[1], st)
        if x['k'] == 'Cond':
            return self.res(c[1], st | self.cond(c[0], True, st)) and self.res(c[2], st | self.cond(c[0], False, st))
        if x['k'] == 'Bin' and x.get('op') == '-':
            return self.modulus(c[0], st) == (P, 'P') and self.res(c[1], st) and self.nz(c[1], st)
        if x['k'] == 'Bin' and x.get('op') == '%':
            return self.modulus(c[1], st) == (P, 'P')
        if x['k'] == 'Call':
            if x.get('f') in self.m.kern:
                return self.m.kern[x['f']] in ('add', 'sub', 'mul', 'inv', 'lll')
            if x.get('fq') == 'clpoly::Zp::number' or x.get('fq') == C + '::lead':
                return True
            s = self.m.sum.get(x.get('f'))
            return s is not None and 'res' in s.ret
        return False

    def upto(self, n, st):
        """0..p"""
        if self.res(n, st):
            return True
        n = self.strip(n)
        x = self.f.nodes[n]
        if x['k'] == 'Ref':
            return ('upto', x['d']) in st
        if x['k'] == 'Bin' and x.get('op') == '-':
            return self.modulus(x['c'][0], st) == (P, 'P') and self.res(x['c'][1], st)
        return False

    def same(self, a, b):
        return self.f.text(self.strip(a)) == self.f.text(self.strip(b))

    def nz(self, n, st):
        v = self.const(n)
        if v is not None:
            return v != 0
        n = self.strip(n)
        d = self.var(n)
        if d is not None and ('nz', d) in st:
            return True
        x = self.f.nodes[n]
        if x['k'] == 'Call' and self.m.kern.get(x.get('f')) == 'mul':
            a = x['c'][-2:]
            return all(self.nz(i, st) for i in a)
        return ('nzt', self.f.text(n)) in st

    def modulus(self, n, st):
        """(field, base) of a modulus or constant"""
        n = self.strip(n)
        p = self.field(n)
        if p and p[1] in FIELDS:
            for t in st:
                if t[0] == 'tok' and t[1] == p[0] and t[2] == p[1]:
                    return (p[1], t[3])
            return (p[1], '?')
        d = self.var(n)
        if d is not None:
            for t in st:
                if t[0] == 'lv' and t[1] == d:
                    return (t[2], t[3])
        x = self.f.nodes[n]
        if x['k'] == 'Call' and x.get('fq') == C + '::prime':
            o = self.obj(x['c'][0])
            for t in st:
                if t[0] == 'tok' and t[1] == o and t[2] == P:
                    return (P, t[3])
        return None

    def norm(self, n, st):
        """n is a length without leading zeros"""
        n = self.strip(n)
        x = self.f.nodes[n]
        c = x.get('c', [])
        if self.const(n) is not None:
            return self.const(n) == 0
        if x['k'] == 'Ref':
            return ('norm', x['d']) in st
        if x['k'] == 'Cond':
            return self.norm(c[1], st) and self.norm(c[2], st)
        if x['k'] == 'Bin' and x.get('op') == '-':
            return self.norm(c[0], st) and self.highpart(c[1])
        if x['k'] == 'Mem' and x.get('n') in ('first', 'second') and c:
            d = self.var(c[0])
            i = 0 if x['n'] == 'first' else 1
            if d is not None:
                return ('normp', d, i) in st
            y = self.f.nodes[self.strip(c[0])]
            s = self.m.sum.get(y.get('f')) if y['k'] == 'Call' else None
            return s is not None and ('norm', i) in s.ret
        if x['k'] == 'Call':
            if x.get('fq') in ('std::vector::size', C + '::size'):
                o = self.coef(c[0]) if x['fq'] == 'std::vector::size' else self.obj(c[0])
                return o is not None and ('trim', o) in st
            if x.get('fq') == 'std::get':
                d = self.var(c[0])
                i = int(re.search(r'get<(\d+)', x.get('f', '')).group(1)) if 'get<' in x.get('f', '') else -1
                return d is not None and ('normp', d, i) in st
            s = self.m.sum.get(x.get('f'))
            return s is not None and 'norm' in s.ret
        return False

    def highpart(self, m):
        """some pointer is advanced by m here: the length minus m is that of the high part"""
        t = self.f.text(self.strip(m))
        if self.const(m) is not None:
            return False
        return any(x['k'] == 'Bin' and x.get('op') == '+' and self.f.T(i).get('ptr') and self.f.text(self.strip(x['c'][1])) == t for i, x in enumerate(self.f.nodes))

    def pos(self, n, st):
        v = self.const(n)
        if v is not None:
            return v > 0
        n = self.strip(n)
        x = self.f.nodes[n]
        if x['k'] == 'Ref':
            return ('pos', x['d']) in st or ('nz', x['d']) in st and not self.m.T(self.f.vars[x['d']]['t']).get('s', '').startswith('long')
        if x['k'] == 'Bin' and x.get('op') == '+':
            return any(self.pos(i, st) for i in x['c'])
        if x['k'] == 'Call' and x.get('fq') in ('std::vector::size', C + '::size'):
            o = self.coef(x['c'][0]) if x['fq'] == 'std::vector::size' else self.obj(x['c'][0])
            return o is not None and ('full', o) in st
        return ('nzt', self.f.text(n)) in st

    # ---- conditions
    def cond(self, n, truth, st):
        n = self.strip(n)
        x = self.f.nodes[n]
        c = x.get('c', [])
        k = x['k']
        if k == 'Un' and x.get('op') == '!':
            return self.cond(c[0], not truth, st)
        if k == 'Bin' and x.get('op') == ('&&' if truth else '||'):
            a = self.cond(c[0], truth, st)
            return a | self.cond(c[1], truth, st | a)
        if k == 'Bin' and x.get('op') in ('&&', '||'):
            # only the common facts of the three outcomes
            a = self.cond(c[0], truth, st)
            b = self.cond(c[0], not truth, st) | self.cond(c[1], truth, st)
            return a & b
        out = set()
        if k == 'Bin' and x.get('op') in ('==', '!=', '<', '>', '<=', '>='):
            op = x['op']
            a, b = c[0], c[1]
            if not truth:
                op = {'==': '!=', '!=': '==', '<': '>=', '>': '<=', '<=': '>', '>=': '<'}[op]
            if self.const(b) is None and self.const(a) is not None or op in ('<', '<=') and self.const(b) is None:
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            v = self.const(b)
            zero = v == 0 and op in ('==', '<=') or v == 1 and op == '<'
            non0 = v == 0 and op in ('!=', '>') or v is not None and v > 0 and op in ('>', '>=') or v is None and (op == '>' or op == '>=' and self.pos(b, st)) or v is not None and v > 0 and op == '=='
            self.zero_facts(a, zero, non0, out)
        elif k == 'Call' and x.get('fq') in ('std::vector::empty', C + '::empty'):
            o = self.coef(c[0]) if x['fq'] == 'std::vector::empty' else self.obj(c[0])
            if o is not None:
                out.add(('trim', o) if truth else ('full', o))
        else:
            self.zero_facts(n, not truth, truth, out)
        return frozenset(out)

    def zero_facts(self, a, zero, non0, out):
        a = self.strip(a)
        d = self.var(a)
        x = self.f.nodes[a]
        e = self.elem(a)
        if zero:
            if d is not None:
                out.add(('norm', d))
                out.add(('res', d))
            if x['k'] == 'Call' and x.get('fq') == 'std::vector::size':
                o = self.coef(x['c'][0])
                if o is not None:
                    out.add(('trim', o))
        if non0:
            if d is not None:
                out.add(('nz', d))
                out.add(('pos', d))
            elif self.pure(a):
                out.add(('nzt', self.f.text(a)))
            if x['k'] == 'Call' and x.get('fq') == 'std::vector::back':
                o = self.coef(x['c'][0])
                if o is not None:
                    out.add(('trim', o))
            if x['k'] == 'Call' and x.get('fq') in ('std::vector::size', C + '::size'):
                o = self.coef(x['c'][0]) if x['fq'] == 'std::vector::size' else self.obj(x['c'][0])
                if o is not None:
                    out.add(('full', o))
            # A[len - 1] != 0: len is normalised
            if x['k'] == 'Index' or x['k'] == 'Call' and x.get('op') == '[]':
                y = self.f.nodes[self.strip(x['c'][1])]
                if y['k'] == 'Bin' and y.get('op') == '-' and self.const(y['c'][1]) == 1:
                    dl = self.var(y['c'][0])
                    if dl is not None:
                        out.add(('norm', dl))
                    z = self.f.nodes[self.strip(y['c'][0])]
                    if z['k'] == 'Call' and z.get('fq') == 'std::vector::size' and e and e[0] == 'vec' and self.coef(z['c'][0]) == e[1]:
                        out.add(('trim', e[1]))

    def pure(self, n):
        return all(self.f.nodes[i]['k'] in ('Ref', 'Index', 'Mem', 'Int', 'Cast', 'This', 'Bin', 'Paren') or self.f.nodes[i]['k'] == 'Call' and self.f.nodes[i].get('op') == '[]' for i in self.f.walk(n))

    # ---- transfer
    def kill(self, st, pred):
        return frozenset(t for t in st if not pred(t))

    def killvar(self, st, d):
        nm = self.f.vars[d]['n']
        rx = re.compile(r'\b%s\b' % re.escape(nm)) if nm else None
        return frozenset(t for t in st if not (t[0] in ('res', 'upto', 'nz', 'pos', 'norm', 'normp', 'lv', 'prod', 'lenof') and d in t[1:3] or t[0] == 'nzt' and rx and rx.search(t[1])))

    def killtexts(self, st):
        return frozenset(t for t in st if t[0] != 'nzt')

    def fail(self, n, kind, text):
        self.fails.append((n, kind, text))

    def need(self, ok, n, kind, text):
        self.obl += 1
        if not ok:
            self.fail(n, kind, text)

    def setvar(self, st, d, src, n):
        """variable d takes the value of expression src"""
        f = self.f
        new = set()
        if src is not None and src >= 0:
            if self.res(src, st):
                new.add(('res', d))
            if self.upto(src, st):
                new.add(('upto', d))
            if self.norm(src, st):
                new.add(('norm', d))
            if self.pos(src, st):
                new.add(('pos', d))
            if self.nz(src, st):
                new.add(('nz', d))
            md = self.modulus(src, st)
            if md:
                new.add(('lv', d) + md)
            x = f.nodes[self.strip(src)]
            if x['k'] == 'Call':
                s = self.m.sum.get(x.get('f'))
                if s:
                    new |= {('normp', d, r[1]) for r in s.ret if isinstance(r, tuple)}
            dv = self.var(src)
            if dv is not None:
                new |= {('normp', d, t[2]) for t in st if t[0] == 'normp' and t[1] == dv}
            if (x['k'] == 'Ctor' and x.get('cls') == 'std::pair' or x['k'] == 'Call' and x.get('fq') == 'std::make_pair') and len(x.get('c', ())) == 2:
                new |= {('normp', d, i) for i in (0, 1) if self.norm(x['c'][i], st)}
        return self.killvar(st, d) | frozenset(new)

    def copyobj(self, st, dst, src, move=False):
        s2 = self.kill(st, lambda t: t[0] in ('trim', 'full', 'tok', 'pend', 'fill') and t[1] == dst)
        if src is not None:
            s2 |= frozenset((t[0], dst) + t[2:] for t in st if t[0] in ('trim', 'full', 'tok') and t[1] == src)
            if move and dst != src:
                s2 = self.kill(s2, lambda t: t[0] == 'full' and t[1] == src) | {('trim', src)}
        return s2

    def store(self, st, n, lhs, rhs):
        """word store lhs = rhs"""
        e = self.elem(lhs)
        f = self.f
        keep = False
        if e[0] == 'vec':
            x = f.nodes[self.strip(rhs)]
            if x['k'] == 'Call' and self.m.kern.get(x.get('f')) == 'mul':
                a, b = x['c'][-2:]
                keep = any(self.same(p, lhs) and self.nz(q, st) for p, q in ((a, b), (b, a)))
        self.need(self.res(rhs, st), n, 'residue', 'the word stored in %s is not known to be below the modulus: %s' % (f.text(lhs)[:40], f.text(rhs)[:60]))
        st = self.killtexts(st)
        if e[0] == 'vec' and not keep:
            o = e[1]
            fillable = ('pend', o) in st
            st = self.kill(st, lambda t: t[0] == 'trim' and t[1] == o)
            if fillable and self.degidx(lhs):
                st |= {('fill', o)}
        return st

    def degidx(self, lhs):
        x = self.f.nodes[self.strip(lhs)]
        i = self.strip(x['c'][1]) if len(x.get('c', ())) > 1 else None
        for _ in range(3):
            if i is None:
                return False
            y = self.f.nodes[i]
            if y['k'] == 'Call' and y.get('fq', '').endswith('::deg') or y['k'] == 'Call' and y.get('fq', '').endswith('get_deg'):
                return True
            d = self.var(i)
            i = self.strip(self.init(d)) if d is not None and self.init(d) is not None else None
        return False

    def resize(self, st, n, o, arg):
        st0 = st
        st = self.kill(st, lambda t: t[0] in ('trim', 'full', 'pend') and t[1] == o)
        if self.norm(arg, st0):
            st |= {('trim', o)}
        elif self.leaddeg(arg):
            st |= {('pend', o)}
        if self.pos(arg, st0):
            st |= {('full', o)}
        return st

    def leaddeg(self, n):
        """degree of the first term of a sparse polynomial, plus one"""
        x = self.f.nodes[self.strip(n)]
        if x['k'] == 'Bin' and x.get('op') == '+' and any(self.const(i) == 1 for i in x['c']):
            i = [i for i in x['c'] if self.const(i) is None]
            for _ in range(3):
                if not i:
                    return False
                j = self.strip(i[0])
                t = self.f.text(j)
                if ('front()' in t or '[0]' in t or '*' in t and 'begin()' in t) and 'deg' in t or re.search(r'\b(degree|get_deg|deg)\(', t):
                    return True
                d = self.var(j)
                i = [self.init(d)] if d is not None and self.init(d) is not None else []
        d = self.var(n)
        if d is not None and self.init(d) is not None:
            return self.leaddeg(self.init(d))
        return False

    def consts_ok(self, st, o):
        b = {t[2]: t[3] for t in st if t[0] == 'tok' and t[1] == o}
        return len(b) == 3 and len(set(b.values())) == 1

    def base(self, st, o):
        b = {t[2]: t[3] for t in st if t[0] == 'tok' and t[1] == o}
        return b.get(P)

    def usable(self, st, o, n, what):
        ok = self.consts_ok(st, o) and self.base(st, o) == 'P'
        self.need(ok, n, 'constants', '%s uses the modulus of %s, whose modulus and reduction constants are not those of the operands here' % (what, 'the object' if o == 'this' else self.f.vars[o]['n']))

    def step(self, st, n):
        f, m = self.f, self.m
        x = f.nodes[n]
        k = x['k']
        c = x.get('c', [])
        if k == 'Decl':
            for v in x['vars']:
                d, i = v['d'], v.get('i')
                t = f.vars[d]['t']
                T = m.T(t)
                if m.isobj(t) and not T.get('ref') and not T.get('ptr'):
                    src = self.obj(i) if i is not None else None
                    if src is not None:
                        mv = i is not None and f.nodes[i]['k'] == 'Ctor' and f.nodes[i].get('ck') == 'move'
                        st = self.copyobj(st, d, src, mv)
                    else:
                        st = self.copyobj(st, d, None)
                        ci = f.nodes[i] if i is not None else None
                        na = [a for a in ci.get('c', ()) if a >= 0] if ci and ci['k'] == 'Ctor' else []
                        b = 'P' if na else 'none'
                        st |= {('trim', d)} | {('tok', d, q, b) for q in FIELDS}
                elif v.get('bind'):
                    s = m.sum.get(f.nodes[self.strip(i)].get('f')) if i is not None else None
                    st = self.setvar(st, d, i, n)
                    for j, bd in enumerate(v['bind']):
                        st = self.killvar(st, bd)
                        if s and ('norm', j) in s.ret:
                            st |= {('norm', bd)}
                elif m.isword(t) and self.elem_ref(d):
                    pass
                else:
                    st = self.setvar(st, d, i, n)
                    if i is not None:
                        self.escape_data(i, T)
                        st = self.killdata(st, i, T)
            return st
        if k == 'Assign':
            lhs, rhs = c[0], c[1]
            p = self.field(lhs)
            if p and p[1] in FIELDS:
                st = self.setfield(st, p, rhs, n)
                return self.killtexts(st)
            op = x.get('op')
            if self.elem(lhs) is not None:
                if op != '=':
                    self.need(False, n, 'residue', 'plain machine arithmetic on the residue %s' % f.text(lhs)[:40])
                    return self.killtexts(st)
                return self.store(st, n, lhs, rhs)
            if self.coef(lhs) is not None:
                return self.assignvec(st, n, self.coef(lhs), rhs)
            d = self.var(lhs)
            if d is not None:
                if op == '=':
                    st = self.setvar(st, d, rhs, n)
                    return self.killdata(st, rhs, m.T(f.vars[d]['t']))
                return self.killvar(st, d)
            return self.killtexts(st)
        if k == 'Un' and x.get('op', '').replace('post', '') in ('++', '--'):
            if self.elem(c[0]) is not None:
                self.need(False, n, 'residue', 'plain machine arithmetic on the residue %s' % f.text(c[0])[:40])
            d = self.var(c[0])
            return self.killvar(st, d) if d is not None else self.killtexts(st)
        if k == 'InitList':
            if self.prog.tstr(x.get('t')).replace('const ', '').endswith('word3') and len(c) == 3:
                ok = self.res(c[0], st) and self.const(c[1]) == 0 and self.const(c[2]) == 0
                self.need(ok, n, 'accumulator', 'a three-word accumulator starts from something other than one residue: %s' % f.text(n)[:60])
            return st
        if k == 'Call':
            return self.call(st, n, x, c)
        if k == 'Asm':
            return st
        return st

    def elem_ref(self, d):
        return self.m.T(self.f.vars[d]['t']).get('ref') and self.init(d) is not None and self.elem(self.init(d)) is not None

    def escape_data(self, i, T):
        pass

    def killdata(self, st, i, T):
        """a writable pointer to the coefficients was taken"""
        if i is None or not T.get('ptr') or T.get('pconst'):
            return st
        s = self.prog.tstr(self.f.nodes[self.strip(i)].get('t'))
        if s.startswith('const '):
            return st
        for j in self.f.walk(i):
            y = self.f.nodes[j]
            if y['k'] == 'Call' and y.get('fq') == 'std::vector::data' and not y.get('mconst'):
                o = self.coef(y['c'][0])
                if o is not None:
                    st = self.kill(st, lambda t: t[0] == 'trim' and t[1] == o)
        return st

    def setfield(self, st, p, rhs, n):
        o, q = p
        md = self.modulus(rhs, st)
        st = self.kill(st, lambda t: t[0] == 'tok' and t[1] == o and t[2] == q)
        d = self.var(rhs)
        if md:
            if md[0] == q:
                return st | {('tok', o, q, md[1])}
            return st
        if q == P and d is not None and self.f.vars[d]['k'] == 'param':
            return st | {('tok', o, q, 'P')}
        if self.const(rhs) == 0:
            return st | {('tok', o, q, 'none')}
        return st

    def assignvec(self, st, n, o, rhs):
        s = self.coef(rhs)
        st2 = self.kill(st, lambda t: t[0] in ('trim', 'full', 'pend') and t[1] == o)
        if s is not None:
            st2 |= frozenset((t[0], o) for t in st if t[0] in ('trim', 'full') and t[1] == s)
        return self.killtexts(st2)

    def call(self, st, n, x, c):
        f, m = self.f, self.m
        fq = x.get('fq', '')
        key = x.get('f')
        isobj = bool(x.get('obj')) or (c and f.nodes[c[0]]['k'] == 'This' and x.get('arrow'))
        meth = x.get('cls') == C and not x.get('mstatic') and x.get('arrow') is not None or x.get('cls') == C and x.get('obj')
        # assignments and moves
        if x.get('op') == '=':
            o = self.obj(c[0])
            if o is not None:
                s = self.obj(c[1])
                mv = f.nodes[c[1]].get('fq') == 'std::move' or 'fq' in f.nodes[self.peel(c[1])] and f.nodes[self.peel(c[1])]['fq'] == 'std::move'
                return self.killtexts(self.copyobj(st, o, s, mv))
            v = self.coef(c[0])
            if v is not None:
                return self.assignvec(st, n, v, c[1])
            y = f.nodes[self.strip(c[0])]
            if y['k'] == 'Call' and y.get('fq') == 'std::tie':
                z = f.nodes[self.strip(c[1])]
                s = m.sum.get(z.get('f')) if z['k'] == 'Call' else None
                for i, a in enumerate(y['c']):
                    d = self.var(a)
                    if d is not None:
                        dv = self.var(c[1])
                        ok = s and ('norm', i) in s.ret or dv is not None and ('normp', dv, i) in st
                        st = self.killvar(st, d)
                        if ok:
                            st |= {('norm', d)}
                return st
            d = self.var(c[0])
            if d is not None:
                return self.setvar(st, d, c[1], n)
            if self.w3(c[0]) is not None:
                return st
            return self.killtexts(st)
        if fq in ('std::swap',) and len(c) == 2:
            a, b = self.obj(c[0]), self.obj(c[1])
            if a is None:
                a, b = self.coef(c[0]), self.coef(c[1])
            if a is not None and b is not None:
                mp = {a: b, b: a}
                return frozenset((t[0], mp.get(t[1], t[1])) + t[2:] if t[0] in ('trim', 'full', 'tok', 'pend', 'fill') else t for t in st)
            a, b = self.var(c[0]), self.var(c[1])
            if a is not None and b is not None:
                mp = {a: b, b: a}
                return frozenset((t[0], mp.get(t[1], t[1])) + t[2:] if t[0] in ('res', 'nz', 'pos', 'norm', 'upto', 'lv', 'normp') else t for t in st)
            return self.killtexts(st)
        # vector operations
        if fq.startswith('std::vector::') and c:
            o = self.coef(c[0])
            nm = fq.split('::')[-1]
            if o is not None:
                if nm == 'clear':
                    return self.kill(st, lambda t: t[0] in ('full', 'pend') and t[1] == o) | {('trim', o)}
                if nm == 'resize':
                    if len(c) > 2:
                        self.need(self.res(c[2], st), n, 'residue', 'padding word is not below the modulus')
                    return self.killtexts(self.resize(st, n, o, c[1]))
                if nm in ('assign', 'push_back', 'emplace_back', 'insert', 'pop_back', 'erase'):
                    if nm in ('push_back', 'emplace_back'):
                        self.need(self.res(c[1], st), n, 'residue', 'the word appended is not known to be below the modulus: %s' % f.text(c[1])[:60])
                        st2 = self.kill(st, lambda t: t[0] in ('trim', 'pend') and t[1] == o)
                        return self.killtexts(st2 | ({('trim', o)} if self.nz(c[1], st) else T0))
                    if nm == 'assign' and len(c) == 3 and self.m.isword(f.nodes[self.strip(c[2])].get('t')) and self.const(c[2]) != 0:
                        self.need(self.res(c[2], st), n, 'residue', 'the word assigned is not known to be below the modulus')
                    if nm == 'assign' and len(c) == 3:
                        st0, st = st, self.kill(st, lambda t: t[0] in ('trim', 'full', 'pend') and t[1] == o)
                        if self.pos(c[1], st0):
                            st |= {('full', o)}
                        if self.const(c[2]) == 0 and self.leaddeg(c[1]):
                            st |= {('pend', o)}
                        return self.killtexts(st)
                    return self.killtexts(self.kill(st, lambda t: t[0] in ('trim', 'full', 'pend') and t[1] == o))
                if nm in ('swap',):
                    b = self.coef(c[1])
                    mp = {o: b, b: o}
                    return frozenset((t[0], mp.get(t[1], t[1])) + t[2:] if t[0] in ('trim', 'full') else t for t in st)
            return st
        if fq in ('memset', 'std::memset'):
            self.need(self.const(c[1]) == 0, n, 'residue', 'words are filled with bytes other than zero')
            return self.killtexts(self.killptr(st, c[0]))
        if fq in ('memcpy', 'memmove', 'std::memcpy', 'std::memmove', 'std::copy', 'std::fill'):
            i = 2 if fq == 'std::copy' else 0
            if fq == 'std::fill':
                self.need(self.res(c[2], st), n, 'residue', 'words are filled with a value not below the modulus')
            return self.killtexts(self.killptr(st, c[i]))
        kk = m.kern.get(key)
        if kk:
            args = c[1:] if isobj and kk in ('add', 'sub', 'mul', 'inv', 'pre') else c
            if kk == 'pre':
                o = self.obj(c[0])
                b = self.base(st, o)
                st = self.kill(st, lambda t: t[0] == 'tok' and t[1] == o and t[2] != P)
                return st | ({('tok', o, NINV, b), ('tok', o, NORM, b)} if b else T0)
            if kk in ('add', 'sub', 'mul', 'inv'):
                o = self.obj(c[0])
                if o is not None:
                    self.usable(st, o, n, f.text(n)[:50])
                for a in args:
                    self.need(self.res(a, st), n, 'residue', 'operand %s of modular arithmetic is not known to be below the modulus' % f.text(a)[:40])
                return st
            if kk == 'umul':
                hi, lo = self.var(args[0]), self.var(args[1])
                for a in args[2:]:
                    self.need(self.upto(a, st), n, 'accumulator', 'factor %s of an accumulated product may exceed the modulus' % f.text(a)[:40])
                for d in (hi, lo):
                    if d is not None:
                        st = self.killvar(st, d)
                if hi is not None and lo is not None:
                    st |= {('prod', hi, lo)}
                return st
            if kk == 'carry':
                h, l = self.var(args[1]), self.var(args[2])
                ok = ('prod', h, l) in st or self.const(args[1]) == 0 and self.upto(args[2], st)
                self.need(ok, n, 'accumulator', 'what is added to the accumulator is not a product (high word, low word)')
                return st
            if kk == 'lll':
                md = [self.modulus(a, st) for a in args[3:6]]
                ok = [q and q[0] for q in md] == list(FIELDS) and len({q[1] for q in md}) == 1 and md[0][1] == 'P'
                self.need(ok, n, 'constants', 'three-word reduction with constants that are not (modulus, inverse, shift) of one object')
                pl = []
                for a in args[:3]:
                    y = f.nodes[self.strip(a)]
                    pl.append((y.get('n'), self.w3(y['c'][0]) if y['k'] == 'Mem' and y.get('c') else None) if y['k'] == 'Mem' else None)
                if all(pl):
                    self.need([q[0] for q in pl] == ['hi', 'mid', 'lo'] and len({q[1] for q in pl}) == 1, n, 'accumulator', 'three-word reduction of %s' % ', '.join(f.text(a)[:24] for a in args[:3]))
                else:
                    h, l = self.var(args[1]), self.var(args[2])
                    self.need(self.const(args[0]) == 0 and (('prod', h, l) in st or self.const(args[1]) == 0 and self.upto(args[2], st)), n, 'accumulator', 'three-word reduction of words that are not one accumulator')
                return st
        callee = self.prog.fns.get(key)
        if callee is not None and callee.cls == C:
            s = m.sum.get(key)
            if s is None:
                return st
            objx = self.obj(c[0]) if c and callee.o.get('static') is None and callee.kind is None else None
            args = c[1:] if objx is not None or (c and callee.o.get('static') is None and callee.kind is None) else c
            binding = {i: a for i, a in enumerate(args)}
            for i, d in enumerate(callee.params):
                if i in binding and m.isobj(callee.vars[d]['t']) and self.cref(m.T(callee.vars[d]['t'])) and self.obj(binding[i]) is not None:
                    self.usable(st, self.obj(binding[i]), n, f.text(n)[:50])
            for w in sorted(s.need, key=str):
                if not isinstance(w, tuple):
                    continue
                i, fact = w
                if i == 'this':
                    if fact == 'mod':
                        if objx is not None:
                            self.usable(st, objx, n, f.text(n)[:50])
                        continue
                    ok = (fact, objx) in st
                    nm = 'the object'
                elif i not in binding:
                    continue
                else:
                    a = binding[i]
                    nm = f.text(a)[:40]
                    o = self.obj(a)
                    ok = self.norm(a, st) if fact == 'norm' else self.pos(a, st) if fact == 'pos' else self.res(a, st) if fact == 'res' else (fact, o) in st if fact in ('trim', 'full') else True
                    if fact == 'mod' and o is not None:
                        self.usable(st, o, n, f.text(n)[:50])
                txt = {'norm': 'length %s may count leading zeros', 'pos': 'length %s may be zero', 'res': '%s may not be below the modulus', 'trim': '%s may have leading zeros', 'full': '%s may be empty', 'mod': '%s'}[fact] % nm
                if fact != 'mod':
                    self.need(ok, n, fact, txt + ' where %s relies on it' % callee.name)
            st = self.killtexts(st)
            st0 = st
            # effects
            for i, d in enumerate(callee.params):
                if i not in binding:
                    continue
                T = self.prog.T(callee.vars[d]['t'])
                a = binding[i]
                if m.isobj(callee.vars[d]['t']) and T.get('ref') and not self.cref(T):
                    o = self.obj(a)
                    if o is not None:
                        keep = ('trim', i) in s.out or ('trim', i) in s.keep and ('trim', o) in st0
                        st = self.copyobj(st, o, None)
                        if keep:
                            st |= {('trim', o)}
                        if ('mod', i) in s.out:
                            st |= {('tok', o, q, 'P') for q in FIELDS}
                elif T.get('ref') and not self.cref(T):
                    v = self.var(a)
                    if v is not None:
                        st = self.killvar(st, v)
                        if ('norm', i) in s.out:
                            st |= {('norm', v)}
                elif T.get('ptr') and not self.prog.tstr(callee.vars[d]['t']).startswith('const '):
                    st = self.killptr(st, a)
            if objx is not None and not callee.o.get('const') and 'this' in s.writes:
                keep = ('trim', 'this') in s.out or ('trim', 'this') in s.keep and ('trim', objx) in st0
                toks = {t for t in st if t[0] == 'tok' and t[1] == objx}
                if ('mod', 'this') in s.out:
                    toks = {('tok', objx, q, 'P') for q in FIELDS}
                st = self.copyobj(st, objx, None) | toks
                if keep:
                    st |= {('trim', objx)}
            return st
        return st

    def cref(self, T):
        return self.prog.T(T.get('to')).get('const') if T.get('to') is not None else T.get('s', '').startswith('const ')

    def peel(self, n):
        x = self.f.nodes[n]
        while x['k'] in ('Cast', 'Paren') or x['k'].endswith('CastExpr'):
            n = x['c'][0]
            x = self.f.nodes[n]
        return n

    def killptr(self, st, a):
        for j in self.f.walk(a):
            y = self.f.nodes[j]
            if y['k'] == 'Call' and y.get('fq') == 'std::vector::data':
                o = self.coef(y['c'][0])
                if o is not None:
                    st = self.kill(st, lambda t: t[0] == 'trim' and t[1] == o)
            if y['k'] == 'Un' and y.get('op') == '&' and self.elem(y['c'][0]) and self.elem(y['c'][0])[0] == 'vec':
                o = self.elem(y['c'][0])[1]
                st = self.kill(st, lambda t: t[0] == 'trim' and t[1] == o)
        return st

    # ---- solving
    def entry(self):
        f, m = self.f, self.m
        s = set(('res', d) for d in f.params if m.isword(f.vars[d]['t']) and not m.T(f.vars[d]['t']).get('ref'))
        isctor = f.kind in ('ctor', 'dc')
        if f.o.get('static') is None:
            if isctor:
                s.add(('trim', 'this'))
            else:
                s |= {('tok', 'this', q, 'P' if ('mod', 'this') in self.assume else ('old', 'this')) for q in FIELDS}
                if ('trim', 'this') in self.assume:
                    s.add(('trim', 'this'))
        for i, d in enumerate(f.params):
            t = f.vars[d]['t']
            if m.isobj(t):
                T = m.T(t)
                inp = self.cref(T) or not T.get('ref')
                s |= {('tok', d, q, 'P' if inp else ('old', d)) for q in FIELDS}
                s.add(('trim', d)) if ('trim', i) in self.assume else None
                if ('full', i) in self.assume:
                    s.add(('full', d))
                if ('mod', i) in self.assume:
                    s = {t for t in s if not (t[0] == 'tok' and t[1] == d)} | {('tok', d, q, 'P') for q in FIELDS}
            else:
                for a in ('norm', 'pos'):
                    if (a, i) in self.assume:
                        s.add((a, d))
        return frozenset(s)

    def block(self, b, st, note=False):
        f = self.f
        rets = []
        for e in f.blocks[b]['e']:
            if isinstance(e, dict):
                if 'field' in e:
                    q, i = e['field'], e.get('i')
                    if q in FIELDS and i is not None:
                        st = self.setfield(st, ('this', q), i, i)
                    elif q == COEF and i is not None and f.nodes[i]['k'] == 'Ctor' and not [z for z in f.nodes[i].get('c', ()) if z >= 0 and not f.nodes[z].get('dfl')]:
                        st = st | {('trim', 'this')}
                    elif q == COEF and i is not None:
                        s2 = self.coef(i)
                        st = self.kill(st, lambda t: t[0] == 'trim' and t[1] == 'this')
                        if s2 is not None and ('trim', s2) in st:
                            st |= {('trim', 'this')}
                continue
            x = f.nodes[e]
            if x['k'] == 'Return':
                rets.append((e, st))
            st = self.step(st, e)
        return st, rets

    def run(self):
        f = self.f
        inn = {f.entry: self.entry()}
        work = [f.entry]
        cnt = 0
        order = {b: i for i, b in enumerate(f.rpo())}
        while work:
            work.sort(key=lambda b: order.get(b, 0))
            b = work.pop(0)
            cnt += 1
            if cnt > 20000:
                raise ir.AnalysisBroken('no fixpoint in ' + f.qn)
            out, _ = self.block(b, inn[b])
            for t, s in self.edges(b, out):
                if t not in inn:
                    inn[t] = s
                    work.append(t)
                else:
                    j = inn[t] & s
                    if j != inn[t]:
                        inn[t] = j
                        if t not in work:
                            work.append(t)
        self.fails, self.obl = [], 0
        rets = []
        exits = []
        for b in sorted(inn):
            out, r = self.block(b, inn[b])
            rets += r
            for t, s in self.edges(b, out):
                if t == f.exit and not self.dead(b):
                    exits.append((r[-1][0] if r else None, s))
        self.rets, self.exits = rets, exits
        return self

    def dead(self, b):
        """the block ends in a failed assertion or a throw"""
        for e in self.f.blocks[b]['e']:
            if not isinstance(e, dict):
                x = self.f.nodes[e]
                if x['k'] in ('Throw', 'CXXThrowExpr') or x['k'] == 'Call' and x.get('fq', '').split('::')[-1] in ('__assert_fail', 'abort', '__throw_length_error', 'exit', 'terminate', '__assert_rtn'):
                    return True
        return False

    def edges(self, b, out):
        blk = self.f.blocks[b]
        su = blk['s']
        if self.dead(b):
            return
        for j, t in enumerate(su):
            if t < 0:
                continue
            s = out
            if 'cond' in blk and len(su) == 2:
                s = out | self.cond(blk['cond'], j == 0, out)
            yield t, s


def outcome(m, a):
    """what the analysed function establishes: (ret facts, out facts)"""
    f = a.f
    ret = None
    for n, st in a.rets:
        c = [i for i in f.nodes[n].get('c', ()) if i >= 0]
        if not c:
            continue
        r = set()
        if a.norm(c[0], st):
            r.add('norm')
        if a.res(c[0], st):
            r.add('res')
        x = f.nodes[a.strip(c[0])]
        if (x['k'] in ('Ctor', 'InitList') or x['k'] == 'Call' and x.get('fq') == 'std::make_pair') and len(x.get('c', ())) == 2:
            for i in (0, 1):
                if a.norm(x['c'][i], st):
                    r.add(('norm', i))
        d = a.var(c[0])
        if d is not None:
            r |= {('norm', t[2]) for t in st if t[0] == 'normp' and t[1] == d}
        if x['k'] == 'Call' and m.sum.get(x.get('f')):
            r |= {q for q in m.sum[x['f']].ret if isinstance(q, tuple)}
        ret = r if ret is None else ret & r
    out = None
    for n, st in a.exits:
        o = set()
        for i, d in enumerate(f.params):
            for fact in ('norm', 'trim'):
                if (fact, a.refs.get(d, d)) in st:
                    o.add((fact, i))
            if m.isobj(f.vars[d]['t']) and a.consts_ok(st, d) and a.base(st, d) == 'P':
                o.add(('mod', i))
        if a.consts_ok(st, 'this') and a.base(st, 'this') == 'P':
            o.add(('mod', 'this'))
        if ('trim', 'this') in st or ('fill', 'this') in st or ('pend', 'this') in st and has_fill(a):
            o.add(('trim', 'this'))
        out = o if out is None else out & o
    return frozenset(ret or ()), frozenset(out or ())


def has_fill(a):
    """the object was sized by the leading degree of a sparse polynomial and every term of it is stored"""
    f = a.f
    return any(x['k'] == 'Assign' and a.elem(x['c'][0]) is not None and a.degidx(x['c'][0]) for x in f.nodes if x['k'] == 'Assign')


def writes_this(m, f):
    if f.o.get('const'):
        return False
    return True


def cands(m, f):
    """facts about parameters a private function may rely on"""
    r = set()
    for i, d in enumerate(f.params):
        T = m.T(f.vars[d]['t'])
        if m.isobj(f.vars[d]['t']):
            r |= {('trim', i), ('full', i), ('mod', i)}
        elif m.isword(f.vars[d]['t']) and not T.get('ref'):
            r |= {('norm', i), ('pos', i)}
    if f.o.get('static') is None and f.kind is None:
        r |= {('trim', 'this'), ('mod', 'this')}
    return r


def kernels(prog, m, rep):
    F = kernel.F0
    P3 = kernel.members({'_norm': 32}, _p='p', _ninv='ninv', _norm='norm')
    par, cert = kernel.params_of, kernel.certify
    R = lambda f, what, r: kernel.report(rep, f, what, r)
    for f in m.pre:
        R(f, 'the normalised inverse and shift of the modulus', cert(f, P3, [('this', NINV), ('this', NORM)], 'precompute', ['p', 'ninv', 'norm'], ('ninv', 'norm')))
    for f in m.add:
        R(f, 'the residue of the sum', cert(f, par(f, ['a', 'b']) + P3, [], 'add', ['a', 'b', 'p'], (), [('a', 'b')]))
    for f in m.sub:
        R(f, 'the residue of the difference', cert(f, par(f, ['a', 'b']) + P3, [], 'sub', ['a', 'b', 'p']))
    for f in m.mul:
        R(f, 'the residue of the product', cert(f, par(f, ['a', 'b']) + P3, [], 'mulmod', ['a', 'b', 'p', 'ninv', 'norm'], (), [('a', 'b')]))
    for f in m.umul:
        R(f, 'the double-word product', cert(f, par(f, ['hi', 'lo', 'a', 'b']), [(F, f.params[0]), (F, f.params[1])], 'umul', ['hi', 'lo', 'a', 'b'], ('hi', 'lo'), [('a', 'b')]))
    for f in m.lll:
        R(f, 'the residue of the three-word number', cert(f, par(f, ['hi', 'mid', 'lo', 'p', 'ninv', 'norm']), [], 'mod3', ['hi', 'mid', 'lo', 'p', 'ninv', 'norm']))
    for f in m.inv:
        g = [x for x in f.nodes if x['k'] == 'Call' and x.get('fq') == 'clpoly::inv_prime']
        if len(g) == 1 and len(f.nodes) < 20:
            x = g[0]
            rep.count('kernels')
            a = x['c']
            t = [f.nodes[An(m, f, ()).strip(i)] for i in a]
            if t[0]['k'] == 'Ref' and t[0]['d'] == f.params[0] and t[1]['k'] == 'Mem' and t[1]['n'] == P:
                rep.count('kernels_certified')
            else:
                rep.violation('%s|kernel' % f.qn, '%s: %s does not invert its argument modulo the modulus' % (f.loc(), f.qn))
        else:
            rep.notes.append('%s: not evaluated' % f.qn)
    for f in m.carry:
        carry(f, m, rep)


def carry(f, m, rep):
    """s.lo,s.mid,s.hi += b0,b1,0 by assembler template or in plain C"""
    rep.count('kernels')
    asm = [(n, x) for n, x in enumerate(f.nodes) if x['k'] == 'Asm']
    if not asm:
        rep.notes.append('%s: portable form, not evaluated' % f.qn)
        return
    why = None
    if len(asm) != 1:
        why = 'more than one assembler statement'
    else:
        n, x = asm[0]
        outs, ins, c = x['outs'], x['ins'], x['c']
        role = {}
        a = An(m, f, ())
        names = [f.vars[d]['n'] for d in f.params]
        for (nm, cs), e in list(zip(outs + ins, c)):
            y = f.nodes[a.strip(e)]
            if y['k'] == 'Mem' and y.get('c') and a.var(y['c'][0]) == f.params[0]:
                r = y['n']
            elif y['k'] == 'Ref' and y['d'] in f.params[1:]:
                r = 'b1' if y['d'] == f.params[1] else 'b0'
            else:
                r = '?'
            role[nm] = (r, cs)
        lines = []
        for l in re.split(r'[\n;]+', x['asm']):
            l = ' '.join(l.split())
            if not l:
                continue
            l = re.sub(r'%\[(\w+)\]', lambda q: role.get(q.group(1), ('?',))[0], l)
            l = re.sub(r'%(\d)', lambda q: role.get((outs + ins)[int(q.group(1))][0], ('?',))[0], l)
            lines.append(re.sub(r'\s*,\s*', ',', l))
        if lines != ASM:
            why = 'the instructions are %s' % '; '.join(lines)
        ro = {r: cs for r, cs in role.values()}
        for r in ('lo', 'mid', 'hi'):
            if '+' not in ro.get(r, ''):
                why = 'word %s is not read and written by the statement' % r
        for r in ('lo', 'mid'):
            if '+' in ro.get(r, '') and '&' not in ro.get(r, ''):
                why = 'word %s is written before all inputs are read, but may share a register with an input' % r
    if why:
        rep.violation('%s|kernel' % f.qn, '%s: %s does not add with carry over three words: %s' % (f.loc(asm[0][0] if asm else None), f.qn, why))
    else:
        rep.count('kernels_certified')


def analyse(prog, rep):
    m = Model(prog)
    kernels(prog, m, rep)
    # optimistic summaries, then weaken to a fixpoint
    for f in m.work:
        s = Summary()
        s.ret = frozenset(['norm', 'res', ('norm', 0), ('norm', 1)])
        s.out = frozenset([(k, i) for k in ('norm', 'trim', 'mod') for i in list(range(len(f.params))) + ['this']])
        s.keep = frozenset([('trim', i) for i in list(range(len(f.params))) + ['this']])
        s.writes = frozenset(['this']) if writes_this(m, f) else T0
        m.sum[f.key] = s
    for rnd in range(12):
        changed = False
        for f in m.work:
            s = m.sum[f.key]
            pub = m.public(f)
            full = frozenset(cands(m, f)) if not pub else frozenset(public_assume(m, f))
            a = An(m, f, full).run()
            ret, out = outcome(m, a)
            # what is really relied on (or needed to establish a result): leave out each assumption in turn
            if pub:
                need = {(i, k) for k, i in full if k in ('trim', 'full') and i != 'this'}
                nf = len(a.fails)
                for q in sorted((q for q in full if q[1] == 'this'), key=str):
                    b = An(m, f, full - {q}).run()
                    r2, o2 = outcome(m, b)
                    if len(b.fails) > nf or r2 != ret or (o2 - {q}) != (out - {q}):
                        need.add((q[1], q[0]))
                bare = out
            else:
                need = set()
                nf = len(a.fails)
                for q in sorted(full, key=str):
                    b = An(m, f, full - {q}).run()
                    r2, o2 = outcome(m, b)
                    if len(b.fails) > nf or r2 != ret or (o2 - {q}) != (out - {q}):
                        need.add((q[1], q[0]))
                bare = outcome(m, An(m, f, frozenset(q for q in full if (q[1], q[0]) in need)).run())[1]
            nret, nout = s.ret & ret, s.out & bare
            nkeep = s.keep & out
            nneed = s.need | need
            if (nret, nout, nkeep, nneed) != (s.ret, s.out, s.keep, s.need):
                s.ret, s.out, s.keep, s.need = nret, nout, nkeep, nneed
                changed = True
        if not changed:
            break
    for f in m.work:
        pub = m.public(f)
        full = frozenset(cands(m, f)) if not pub else frozenset(public_assume(m, f))
        a = An(m, f, full).run()
        rep.count('functions')
        rep.count('obligations', a.obl)
        for n, kind, text in a.fails:
            rep.violation('%s|%s|%s' % (f.qn, kind, text), '%s: in %s: %s' % (f.loc(n), f.qn, text))
        if not pub:
            continue
        objs = [('this', 'this', None)] if f.o.get('static') is None else []
        for i, d in enumerate(f.params):
            if m.isobj(f.vars[d]['t']) and m.T(f.vars[d]['t']).get('ref') and not a.cref(m.T(f.vars[d]['t'])):
                objs.append((d, i, d))
        for o, i, d in objs:
            if o == 'this' and f.o.get('const'):
                continue
            nm = 'the object' if o == 'this' else f.vars[d]['n']
            for n, st in a.exits:
                rep.count('obligations', 2)
                trimmed = ('trim', o) in st or o == 'this' and (('fill', o) in st or ('pend', o) in st and has_fill(a))
                if not trimmed:
                    rep.violation('%s|trim|%s' % (f.qn, nm), '%s: %s may leave %s with a leading coefficient that is zero' % (f.loc(n), f.qn, nm))
                if not a.consts_ok(st, o):
                    rep.violation('%s|constants|%s' % (f.qn, nm), '%s: %s leaves %s with reduction constants that are not those of its modulus' % (f.loc(n), f.qn, nm))
                elif a.base(st, o) not in ('P', 'none') and d is not None and f.o.get('static'):
                    rep.violation('%s|constants|%s' % (f.qn, nm), '%s: %s leaves %s with its previous modulus instead of that of the operands' % (f.loc(n), f.qn, nm))
    return m


def public_assume(m, f):
    """objects handed to public functions are valid; divisors are not empty (asserted)"""
    r = set()
    for i, d in enumerate(f.params):
        if m.isobj(f.vars[d]['t']):
            r.add(('trim', i))
            if f.name in ('divrem', 'div', 'rem', 'mod') and f.params[-1] == d:
                r.add(('full', i))
    if f.kind is None and f.o.get('static') is None:
        r |= {('trim', 'this'), ('mod', 'this')}
    return r


RULE = 'must-dataflow over every function of the dense polynomial class (words below the modulus, lengths without leading zeros, trimmed coefficient vectors, modulus constants copied together), with summaries inferred for private helpers; word kernels compared with proved reference kernels by value numbering'


def run(prop, tier, rep):
    for cfg in ['rel'] if tier == 'quick' else ['rel', 'dbg']:
        analyse(ir.load(cfg), rep)
    rep.rule = RULE
    rep.need('functions', 15)
    rep.need('obligations', 120)
    rep.need('kernels', 7)
