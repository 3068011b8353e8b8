"""M01: monomials packed into one machine word (bit-field layouts evaluated from the source for every number of variables)."""
import ir
import flow
import inline
from engine import Engine, E0

CAN, PACK, UNPACK, MOLD = '__is_monomial_can_compression', '__monomial_compression', '__monomial_decompression', '__monomial_compression_div_mold'
WIDTH = {'unsigned long': (64, 0), 'uint64_t': (64, 0), 'std::uint64_t': (64, 0), 'size_t': (64, 0), 'std::size_t': (64, 0), 'unsigned long long': (64, 0), 'long': (64, 1), 'int64_t': (64, 1), 'long long': (64, 1),
         'unsigned int': (32, 0), 'uint32_t': (32, 0), 'int': (32, 1), 'bool': (1, 0), 'unsigned char': (8, 0), 'unsigned short': (16, 0)}


class Unsupported(Exception):
    pass


class Defect(Exception):
    def __init__(self, n, text):
        self.n, self.text = n, text


class Bits:
    """sum of disjoint slices (symbol, its low bit, width or None, position)"""
    def __init__(self, sl):
        self.sl = tuple(sl)

    def __eq__(self, o):
        return isinstance(o, Bits) and sorted(self.sl, key=str) == sorted(o.sl, key=str)

    def __hash__(self):
        return hash(self.sl)

    def __repr__(self):
        return 'Bits%r' % (self.sl,)


def wrap(v, t):
    w = WIDTH.get(t)
    if w is None:
        return v
    b, s = w
    if b == 1:
        return int(bool(v))
    v &= (1 << b) - 1
    if s and v >> (b - 1):
        v -= 1 << b
    return v


class Interp:
    """evaluates one function on the abstract monomial with the variables S out of n, or on facts about two polynomials"""
    def __init__(self, fn, n, S=(), word=None):
        self.fn, self.prog = fn, fn.prog
        self.n, self.S = n, list(S)
        self.val = {}
        self.env = {}
        self.stamp = 0
        self.when = {}
        self.out = []
        self.outdeg = None
        self.ub = []
        for d in fn.params:
            t = self.ty_s(fn.vars[d]['t'])
            if 'std::list<' in t or 'std::vector<clpoly::variable' in t:
                self.env[d] = ('V',)
            elif 'basic_monomial<' in t:
                self.env[d] = ('M',)
            elif t == 'unsigned long' and word is not None:
                self.env[d] = word
            elif t == 'unsigned long':
                self.env[d] = n
            else:
                self.env[d] = ('?',)

    def ty_s(self, t):
        s = self.prog.tstr(t)
        return s.replace('const ', '').rstrip(' &')

    def ty(self, n):
        return self.ty_s(self.fn.nodes[n].get('t'))

    def get(self, n):
        if n not in self.val:
            return self.ev(n)
        return self.val[n]

    def need(self, c, t=None):
        if c is None:
            raise Unsupported(t or 'unknown value')
        return c

    def run(self):
        fn = self.fn
        b = fn.entry
        for _ in range(40000):
            blk = fn.blocks[b]
            for e in blk['e']:
                if isinstance(e, dict):
                    continue
                self.stamp += 1
                r = self.ev(e)
                self.val[e] = r
                self.when[e] = self.stamp
                if fn.nodes[e]['k'] == 'Return':
                    return r
            su = blk['s']
            if b == fn.exit or not su:
                return None
            if 'cond' in blk and len(su) == 2:
                v = self.truth(self.get(blk['cond']))
                b = su[0] if v else su[1]
            else:
                b = su[0]
            if b < 0:
                raise Unsupported('unreachable edge')
            if b == fn.exit and not fn.blocks[b]['e']:
                return None
        raise Unsupported('too many steps')

    def truth(self, v):
        if isinstance(v, Bits):
            return bool(v.sl)
        if isinstance(v, bool) or isinstance(v, int):
            return bool(v)
        if isinstance(v, tuple) and v[0] == 'e':
            return True
        raise Unsupported('condition %r' % (v,))

    # ---- lvalues
    def assign(self, n, v):
        fn = self.fn
        x = fn.nodes[n]
        k = x['k']
        if k in ('Cast', 'Paren') or k.endswith('CastExpr'):
            return self.assign(x['c'][0], v)
        if k == 'Ref':
            self.env[x['d']] = v
            return
        if k == 'Call' and x.get('fq', '').endswith('::deg') and self.get(x['c'][0]) == ('M',):
            self.outdeg = v
            return
        raise Unsupported('assignment to ' + fn.text(n))

    def cast(self, v, t):
        if isinstance(v, bool):
            return v if t == 'bool' else int(v)
        if isinstance(v, int):
            return bool(v) if t == 'bool' else wrap(v, t)
        if isinstance(v, Bits) and t == 'bool':
            return bool(v.sl)
        if isinstance(v, Bits) and WIDTH.get(t, (64, 0))[0] < 64:
            b = WIDTH[t][0]
            for s, lo, w, pos in v.sl:
                if w is None or pos + w > b:
                    raise Defect(-1, 'an exponent field is cut to %d bits' % b)
        return v

    def bits(self, v):
        if isinstance(v, Bits):
            return v
        if isinstance(v, tuple) and v[0] in ('e', 'deg'):
            return Bits([(v, 0, None, 0)])
        if isinstance(v, int) and v == 0:
            return Bits([])
        return None

    def arith(self, op, a, b, t, n):
        if isinstance(a, int) and isinstance(b, int):
            w = WIDTH.get(t, (64, 0))[0]
            a, b = int(a), int(b)
            if op in ('<<', '>>'):
                if not 0 <= b < w:
                    raise Defect(n, '%s shifts a %d-bit value by %d' % (self.fn.text(n), w, b))
                return wrap(a << b if op == '<<' else a >> b, t)
            if op in ('/', '%'):
                if b == 0:
                    raise Defect(n, '%s divides by zero' % self.fn.text(n))
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return wrap(q if op == '/' else a - q * b, t)
            f = {'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '^': a ^ b}
            if op in f:
                return wrap(f[op], t)
            c = {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}
            if op in c:
                return c[op]
            raise Unsupported(op)
        if op in ('==', '!=') and isinstance(a, tuple) and isinstance(b, tuple):
            return (a == b) == (op == '==')
        if op in ('==', '!=', '>', '<') and (isinstance(b, int) and b == 0 or isinstance(a, int) and a == 0):
            z = a if isinstance(b, int) else b
            if isinstance(z, Bits) or isinstance(z, tuple) and z[0] in ('e', 'deg'):
                nz = self.truth(z) if isinstance(z, Bits) else True
                if op == '<' and z is a or op == '>' and z is b:
                    return False
                return nz == (op != '==')
        if op in ('<<', '>>') and isinstance(b, int):
            a = self.bits(a)
            if a is None:
                raise Unsupported(self.fn.text(n))
            if not 0 <= b < 64:
                raise Defect(n, '%s shifts a 64-bit value by %d' % (self.fn.text(n), b))
            out = []
            for s, lo, w, pos in a.sl:
                if w is None:
                    if op == '>>':
                        raise Unsupported(self.fn.text(n))
                    pos += b
                    if pos >= 64:
                        raise Defect(n, 'the field of %s is shifted out of the word' % self.name(s))
                    out.append((s, lo, None, pos))
                elif op == '<<':
                    pos += b
                    if pos + w > 64:
                        cut = pos + w - 64
                        w -= cut
                    if w > 0:
                        out.append((s, lo, w, pos))
                else:
                    pos -= b
                    if pos < 0:
                        lo -= pos
                        w += pos
                        pos = 0
                    if w > 0:
                        out.append((s, lo, w, pos))
            return Bits(out)
        if op == '&':
            m, a = (b, a) if isinstance(b, int) else (a, b)
            a = self.bits(a)
            if a is None or not isinstance(m, int):
                raise Unsupported(self.fn.text(n))
            m &= (1 << 64) - 1
            out = []
            for s, lo, w, pos in a.sl:
                if w is None:
                    raise Unsupported(self.fn.text(n))
                i = 0
                while i < w:
                    if m >> (pos + i) & 1:
                        j = i
                        while j < w and m >> (pos + j) & 1:
                            j += 1
                        out.append((s, lo + i, j - i, pos + i))
                        i = j
                    else:
                        i += 1
            return Bits(out)
        if op in ('+', '|'):
            a2, b2 = self.bits(a), self.bits(b)
            if a2 is not None and b2 is not None:
                return Bits(a2.sl + b2.sl)
        raise Unsupported(self.fn.text(n))

    def name(self, s):
        return 'the degree' if s[0] == 'deg' else 'variable %d' % s[1]

    def deref(self, v):
        if v[0] == 'it' and v[1] == 'V':
            if not 0 <= v[2] < self.n:
                raise Defect(-1, 'reads past the last variable')
            return ('v', v[2])
        if v[0] == 'it' and v[1] == 'M':
            if not 0 <= v[2] < len(self.S):
                raise Defect(-1, 'reads past the last variable of the monomial')
            return ('pr', self.S[v[2]])
        raise Unsupported('dereference of %r' % (v,))

    def ev(self, n):
        fn = self.fn
        x = fn.nodes[n]
        k = x['k']
        c = [i for i in x.get('c', ()) if i >= 0]
        nm = x.get('fq', '').split('::')[-1]
        if k == 'Int':
            return wrap(int(x['v']), self.ty(n))
        if k == 'Bool':
            return x['v'] in ('1', 'true', True)
        if k == 'FnRef' or k == 'Mem' and x.get('fn'):
            return None
        if k == 'Ref':
            return self.env.get(x['d'], ('uninit', x.get('n', '?')))
        if k in ('Cast', 'Paren') or k.endswith('CastExpr') or k in ('ExprWithCleanups', 'MaterializeTemporaryExpr'):
            return self.cast(self.get(c[0]), self.ty(n)) if c else 0
        if k in ('ScalarInit', 'ImplicitValueInitExpr', 'CXXScalarValueInitExpr'):
            return 0
        if k == 'Decl':
            for v in x['vars']:
                if 'i' in v and v['i'] >= 0:
                    self.env[v['d']] = self.cast(self.get(v['i']), self.ty_s(fn.vars[v['d']]['t']))
                else:
                    self.env[v['d']] = ('uninit', fn.vars[v['d']]['n'])
            return None
        if k == 'Return':
            return self.get(c[0]) if c else None
        if k == 'Assign':
            if x['op'] == '=':
                v = self.cast(self.get(c[1]), self.ty(c[0]))
            else:
                v = self.arith(x['op'][:-1], self.get(c[0]), self.get(c[1]), self.ty(c[0]), n)
            self.assign(c[0], v)
            return v
        if k == 'Bin':
            if x['op'] in ('&&', '||'):
                last = [i for i in c if i in self.when]
                if not last:
                    a = self.truth(self.get(c[0]))
                    return a if a == (x['op'] == '||') else self.truth(self.get(c[1]))
                return self.truth(self.val[max(last, key=lambda i: self.when[i])])
            if x['op'] == ',':
                return self.get(c[1])
            return self.arith(x['op'], self.get(c[0]), self.get(c[1]), self.ty(n), n)
        if k == 'Un':
            op = x['op']
            if op == '!':
                return not self.truth(self.get(c[0]))
            if op in ('++', '--', 'post++', 'post--'):
                v = self.get(c[0])
                d = 1 if '+' in op else -1
                w = (v[0], v[1], v[2] + d) if isinstance(v, tuple) and v[0] == 'it' else self.arith('+' if d > 0 else '-', v, 1, self.ty(c[0]), n)
                self.assign(c[0], w)
                return v if op.startswith('post') else w
            v = self.get(c[0])
            if op == '~' and isinstance(v, int):
                return wrap(~v, self.ty(n))
            if op == '-' and isinstance(v, int):
                return wrap(-v, self.ty(n))
            if op == '+':
                return v
            if op in ('*', '&'):
                return v
            raise Unsupported(fn.text(n))
        if k == 'Cond':
            last = [i for i in c[1:] if i in self.when]
            if last:
                return self.val[max(last, key=lambda i: self.when[i])]
            return self.get(c[1]) if self.truth(self.get(c[0])) else self.get(c[2])
        if k == 'Mem':
            v = self.get(c[0])
            if isinstance(v, tuple) and v[0] == 'it':
                v = self.deref(v)
            if isinstance(v, tuple) and v[0] == 'pr':
                return ('v', v[1]) if x['n'] == 'first' else ('e', v[1])
            raise Unsupported(fn.text(n))
        if k in ('Ctor', 'InitList'):
            if len(c) == 1:
                return self.get(c[0])
            if len(c) == 2:
                return ('mk', self.get(c[0]), self.get(c[1]))
            raise Unsupported(fn.text(n))
        if k == 'Call':
            op = x.get('op')
            if op in ('==', '!='):
                return self.arith(op, self.get(c[0]), self.get(c[1]), 'bool', n)
            if op in ('++', '--'):
                v = self.get(c[0])
                if not (isinstance(v, tuple) and v[0] == 'it'):
                    raise Unsupported(fn.text(n))
                w = (v[0], v[1], v[2] + (1 if op == '++' else -1))
                self.assign(c[0], w)
                return v if len(c) == 2 else w
            if op in ('*', '->') and len(c) == 1:
                v = self.get(c[0])
                return v if op == '->' else self.deref(v)
            if op == '=':
                v = self.get(c[1])
                self.assign(c[0], v)
                return v
            if op == '[]' and len(c) == 2:
                v, i = self.get(c[0]), self.get(c[1])
                if v in (('V',), ('M',)) and isinstance(i, int):
                    return self.deref(('it', v[0], i))
            if nm in ('max', 'min') and len(c) == 2:
                a, b = self.get(c[0]), self.get(c[1])
                if isinstance(a, int) and isinstance(b, int):
                    return max(a, b) if nm == 'max' else min(a, b)
            if nm in ('move', 'forward', 'data', 'as_const') and c:
                return self.get(c[0])
            if nm == 'make_pair':
                return ('mk', self.get(c[0]), self.get(c[1]))
            if x.get('obj') and c:
                o = self.get(c[0])
                if o in (('V',), ('M',)):
                    sz = self.n if o == ('V',) else len(self.S)
                    if nm == 'size':
                        return sz
                    if nm == 'empty':
                        return sz == 0
                    if nm in ('begin', 'cbegin'):
                        return ('it', o[0], 0)
                    if nm in ('end', 'cend'):
                        return ('it', o[0], sz)
                    if nm == 'front':
                        return self.deref(('it', o[0], 0))
                    if nm == 'back':
                        return self.deref(('it', o[0], sz - 1))
                    if nm == 'deg':
                        if len(c) == 1:
                            return ('deg',) if self.S else 0
                    if nm in ('clear', 'comp', 'reserve', 're_deg', 'shrink_to_fit'):
                        if nm == 'clear':
                            self.out = []
                        return None
                    if nm in ('push_back', 'emplace_back'):
                        v = self.get(c[1]) if len(c) == 2 else ('mk', self.get(c[1]), self.get(c[2]))
                        if not (isinstance(v, tuple) and v[0] == 'mk'):
                            raise Unsupported(fn.text(n))
                        inner = fn.nodes[c[0]]
                        raw = inner['k'] == 'Call' and inner.get('fq', '').endswith('::data')
                        self.out.append((v[1], v[2], raw))
                        return None
            raise Unsupported(fn.text(n))
        raise Unsupported(k + ' ' + fn.text(n)[:60])


# ------------------------------------------------ capacity test
class Capacity:
    """what holds on the paths of the capacity test that return true, for n variables and a given delta"""
    def __init__(self, fn, n, delta):
        self.fn, self.prog = fn, fn.prog
        self.n, self.delta = n, delta
        self.fl = flow.Flow(fn)
        self.polys = [d for d in fn.params if 'std::vector<std::pair<' in self.ts(d)]
        self.I = Interp(fn, n)
        self.bad = []
        self._max = {}

    def ts(self, d):
        return self.prog.tstr(self.fn.vars[d]['t']).replace('const ', '').rstrip(' &')

    def poly_of(self, n):
        """(index of the polynomial, path) behind the expression"""
        ps = self.fl.places(n)
        if len(ps) == 1:
            p = next(iter(ps))
            if p[0][0] == 'v' and p[0][1] in self.polys:
                return self.polys.index(p[0][1]), p[1]
        return None

    def skip(self, n):
        x = self.fn.nodes[n]
        while x['k'] in ('Cast', 'Paren') or x['k'].endswith('CastExpr') or x['k'] in ('ExprWithCleanups', 'MaterializeTemporaryExpr'):
            c = [i for i in x.get('c', ()) if i >= 0]
            if not c:
                break
            n = c[0]
            x = self.fn.nodes[n]
        return n

    def term(self, n, st):
        """('max', exp or deg or front, poly) terms: list of alternatives ('sum', [..]) | ('all', [..]) or an int"""
        n = self.skip(n)
        x = self.fn.nodes[n]
        c = [i for i in x.get('c', ()) if i >= 0]
        nm = x.get('fq', '').split('::')[-1]
        if x['k'] == 'Int':
            return int(x['v'])
        if x['k'] == 'Ref':
            d = x['d']
            if d in st:
                return st[d]
            if d in self.fn.params:
                if self.ts(d) == 'int' or self.ts(d) in WIDTH:
                    return self.delta
            m = self.maxvar(d)
            if m:
                return ('sum', (m,))
            return None
        if x['k'] == 'Bin' and x['op'] in ('+', '-', '*', '/', '<<', '>>', '%', '&', '|'):
            a, b = self.term(c[0], st), self.term(c[1], st)
            if isinstance(a, int) and isinstance(b, int):
                try:
                    return self.I.arith(x['op'], a, b, self.I.ty(n), n)
                except Defect as e:
                    self.bad.append((e.n, e.text))
                    return None
            if x['op'] == '+' and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'sum':
                return ('sum', tuple(sorted(a[1] + b[1])))
            return None
        if x['k'] in ('Bin', 'Un') and x.get('op') == '-' and len(c) == 1:
            a = self.term(c[0], st)
            return -a if isinstance(a, int) else None
        if x['k'] == 'Call' and nm == 'max' and len(c) == 2:
            a, b = self.term(c[0], st), self.term(c[1], st)
            if isinstance(a, int) and isinstance(b, int):
                return max(a, b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return ('all', tuple((a[1] if a[0] == 'all' else (a,)) + (b[1] if b[0] == 'all' else (b,))))
            return None
        if x['k'] == 'Cond':
            cv = self.term(c[0], st)
            return self.term(c[1] if cv else c[2], st) if isinstance(cv, int) else None
        if x['k'] == 'Bin' and x['op'] in ('<', '>', '<=', '>=', '==', '!='):
            a, b = self.term(c[0], st), self.term(c[1], st)
            if isinstance(a, int) and isinstance(b, int):
                return int({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[x['op']])
            return None
        if x['k'] == 'Call' and nm == 'size' and 'std::list' in self.prog.tstr(self.fn.nodes[c[0]].get('t')):
            return self.n
        if x['k'] == 'Call' and nm == 'empty' and 'std::list' in self.prog.tstr(self.fn.nodes[c[0]].get('t')):
            return int(self.n == 0)
        if x['k'] == 'Call' and nm == 'deg' and c:
            p = self.poly_of(c[0])
            y = self.fn.nodes[self.skip(c[0])]
            if p and y['k'] == 'Mem' and y.get('n') == 'first' and self.isfront(y['c'][0]):
                return ('sum', (('front', p[0]),))
        return None

    def isfront(self, n):
        n = self.skip(n)
        x = self.fn.nodes[n]
        c = x.get('c', [])
        nm = x.get('fq', '').split('::')[-1]
        if x['k'] == 'Call' and x.get('op') in ('*', '->') and c:
            return self.isfront(c[0])
        if x['k'] == 'Call' and nm in ('begin', 'cbegin', 'front'):
            return self.poly_of(c[0]) is not None
        if x['k'] == 'Call' and x.get('op') == '[]':
            y = self.fn.nodes[self.skip(c[1])]
            return y['k'] == 'Int' and y['v'] in ('0', 0)
        if x['k'] == 'Ref' and self.fl.defs.get(x['d']):
            return all(self.isfront(i) for i in self.fl.defs[x['d']])
        return False

    def exponent(self, n):
        """(kind, poly): expression is an exponent (of any variable) or total degree of a term of the polynomial"""
        n = self.skip(n)
        x = self.fn.nodes[n]
        c = x.get('c', [])
        if x['k'] == 'Mem' and x.get('n') == 'second' and c and 'variable' in self.prog.tstr(self.fn.nodes[c[0]].get('t')):
            p = self.poly_of(n)
            return ('exp', p[0]) if p else None
        if x['k'] == 'Call' and x.get('fq', '').endswith('::deg') and c:
            p = self.poly_of(c[0])
            return ('deg', p[0]) if p else None
        if x['k'] == 'Ref' and self.fl.defs.get(x['d']) and x['d'] not in self.fn.params:
            s = {self.exponent(i) for i in self.fl.defs[x['d']]}
            return s.pop() if len(s) == 1 else None
        return None

    def maxvar(self, d):
        if d in self._max:
            return self._max[d]
        self._max[d] = None
        fn = self.fn
        src = set()
        ok = True
        for i, x in enumerate(fn.nodes):
            if x['k'] == 'Decl':
                for v in x['vars']:
                    if v['d'] == d and 'i' in v:
                        y = fn.nodes[self.skip(v['i'])]
                        ok &= y['k'] == 'Int'
            elif x['k'] == 'Assign' and fn.nodes[self.skip(x['c'][0])].get('d') == d and fn.nodes[self.skip(x['c'][0])]['k'] == 'Ref':
                if x['op'] != '=':
                    ok = False
                    continue
                r = self.skip(x['c'][1])
                y = fn.nodes[r]
                if y['k'] == 'Call' and y.get('fq', '').endswith('max') and len(y['c']) == 2:
                    es = [self.exponent(j) for j in y['c']]
                    me = [fn.nodes[self.skip(j)].get('d') == d for j in y['c']]
                    if any(me) and [e for e in es if e]:
                        src.add([e for e in es if e][0])
                        continue
                    ok = False
                elif y['k'] == 'Cond':
                    es = [self.exponent(j) for j in y['c'][1:]]
                    me = [fn.nodes[self.skip(j)].get('d') == d for j in y['c'][1:]]
                    w = self.greater(y['c'][0], d)
                    if w is None or not any(me) or (me[1] and w) == (me[0] and not w) or not [e for e in es if e]:
                        ok = False
                    else:
                        src.add([e for e in es if e][0])
                else:
                    e = self.exponent(r)
                    if e is None or not self.guarded(i, d):
                        ok = False
                    else:
                        src.add(e)
        if ok and len(src) == 1:
            self._max[d] = src.pop()
        elif any(True for _ in src):
            self._max[d] = ('unknown', -1)
        return self._max[d]

    def greater(self, n, d):
        """True when the condition says that an exponent exceeds d, False when it says the opposite"""
        n = self.skip(n)
        x = self.fn.nodes[n]
        if x['k'] == 'Un' and x['op'] == '!':
            r = self.greater(x['c'][0], d)
            return None if r is None else not r
        if x['k'] != 'Bin' or x['op'] not in ('<', '>', '<=', '>='):
            return None
        a, b = x['c']
        da, db = self.fn.nodes[self.skip(a)].get('d') == d, self.fn.nodes[self.skip(b)].get('d') == d
        if da and self.exponent(b):
            return x['op'] in ('<', '<=')
        if db and self.exponent(a):
            return x['op'] in ('>', '>=')
        return None

    def guarded(self, n, d):
        """the block of assignment n is entered only where the exponent exceeds d"""
        fn = self.fn
        for b, blk in fn.blocks.items():
            if n in blk['e']:
                ps = fn.preds.get(b, ())
                good = bool(ps)
                for p in ps:
                    pb = fn.blocks[p]
                    if 'cond' not in pb or len(pb['s']) != 2:
                        good = False
                        continue
                    g = self.greater(pb['cond'], d)
                    if g is None or pb['s'][0 if g else 1] != b:
                        good = False
                return good
        return False

    def atom(self, n, truth, st):
        """None when the edge is impossible, else the facts (sum key, bound) it gives"""
        n = self.skip(n)
        x = self.fn.nodes[n]
        c = [i for i in x.get('c', ()) if i >= 0]
        if x['k'] == 'Un' and x['op'] == '!':
            return self.atom(c[0], not truth, st)
        if x['k'] == 'Bin' and x['op'] in ('&&', '||'):
            if (x['op'] == '&&') == truth:
                a, b = self.atom(c[0], truth, st), self.atom(c[1], truth, st)
                return None if a is None or b is None else a | b
            a, b = self.atom(c[0], truth, st), self.atom(c[1], truth, st)
            if a is None or b is None:
                return b if a is None else a
            return a & b
        v = self.term(n, st)
        if isinstance(v, int):
            return frozenset() if bool(v) == truth else None
        if x['k'] == 'Bin' and x['op'] in ('<', '>', '<=', '>='):
            a, b = self.term(c[0], st), self.term(c[1], st)
            op = x['op']
            if isinstance(a, int) and isinstance(b, tuple):
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
            if isinstance(a, tuple) and isinstance(b, int):
                if not truth:
                    op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}[op]
                if op in ('<', '<='):
                    hi = b - 1 if op == '<' else b
                    return frozenset((s[1], hi) for s in (a[1] if a[0] == 'all' else (a,)))
        return frozenset()

    def run(self):
        """(facts common to all paths returning true | None when no path does, negative exponents rejected per polynomial)"""
        fn = self.fn
        res = None
        self.states = 0
        seen = set()
        work = [(fn.entry, frozenset(), ())]
        self.trues = 0
        while work:
            b, facts, env = work.pop()
            if (b, facts, env) in seen:
                continue
            seen.add((b, facts, env))
            if len(seen) > 6000:
                raise Unsupported('too many paths')
            st = dict(env)
            blk = fn.blocks[b]
            done = False
            for e in blk['e']:
                if isinstance(e, dict):
                    continue
                x = fn.nodes[e]
                if x['k'] == 'Decl':
                    for v in x['vars']:
                        if 'i' in v and self.ts(v['d']) in WIDTH and not self.maxvar(v['d']):
                            t = self.term(v['i'], st)
                            if t is not None:
                                st[v['d']] = t
                elif x['k'] == 'Assign':
                    y = fn.nodes[self.skip(x['c'][0])]
                    if y['k'] == 'Ref' and not self.maxvar(y['d']):
                        t = self.term(x['c'][1], st) if x['op'] == '=' else None
                        if t is None and x['op'] != '=' and isinstance(st.get(y['d']), int):
                            r = self.term(x['c'][1], st)
                            if isinstance(r, int):
                                try:
                                    t = self.I.arith(x['op'][:-1], st[y['d']], r, self.ts(y['d']), e)
                                except Defect as er:
                                    self.bad.append((er.n, er.text))
                        st.pop(y['d'], None)
                        if t is not None:
                            st[y['d']] = t
                elif x['k'] == 'Return':
                    done = True
                    v = self.term(x['c'][0], st) if x.get('c') else None
                    y = fn.nodes[self.skip(x['c'][0])]
                    if y['k'] == 'Bool':
                        v = int(y['v'] in ('1', 'true', True))
                    f = facts
                    if v is None:
                        g = self.atom(x['c'][0], True, st)
                        if g is None:
                            continue
                        f = facts | g
                        v = 1
                    if v:
                        self.trues += 1
                        res = f if res is None else self.meet(res, f)
            if done:
                continue
            su = blk['s']
            for j, t in enumerate(su):
                if t < 0:
                    continue
                f = facts
                if 'cond' in blk and len(su) == 2:
                    y = fn.nodes[self.skip(blk['cond'])]
                    if y['k'] == 'Bool':
                        g = frozenset() if (y['v'] in ('1', 'true', True)) == (j == 0) else None
                    else:
                        g = self.atom(blk['cond'], j == 0, st)
                    if g is None:
                        continue
                    f = facts | g
                work.append((t, f, tuple(sorted(st.items()))))
        return res

    def meet(self, a, b):
        """facts implied by both: the weaker bound of each key"""
        A, B = {}, {}
        for F, D in ((a, A), (b, B)):
            for k, v in F:
                D[k] = min(v, D.get(k, v))
        return frozenset((k, max(A[k], B[k])) for k in A if k in B)

    def negatives(self):
        """polynomials whose every exponent is compared with zero, a negative one leading to `return false` only"""
        fn = self.fn
        good = set()
        falses = {}

        def only_false(b):
            todo, seen = [b], set()
            while todo:
                q = todo.pop()
                if q in seen:
                    continue
                seen.add(q)
                if len(seen) > 4:
                    return False
                for e in fn.blocks[q]['e']:
                    if not isinstance(e, dict) and fn.nodes[e]['k'] == 'Return':
                        y = fn.nodes[self.skip(fn.nodes[e]['c'][0])]
                        if not (y['k'] == 'Bool' and y['v'] in ('0', 'false', False)):
                            return False
                        break
                else:
                    todo += [t for t in fn.blocks[q]['s'] if t >= 0]
                    if not fn.blocks[q]['s']:
                        return False
            return True
        for b, blk in fn.blocks.items():
            if 'cond' not in blk or len(blk['s']) != 2:
                continue
            n = self.skip(blk['cond'])
            x = fn.nodes[n]
            neg = False
            while x['k'] == 'Un' and x['op'] == '!':
                neg = not neg
                n = self.skip(x['c'][0])
                x = fn.nodes[n]
            if x['k'] != 'Bin' or x['op'] not in ('<', '>', '<=', '>='):
                continue
            a, c = x['c']
            for u, v, op in ((a, c, x['op']), (c, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[x['op']])):
                e = self.exponent(u)
                y = fn.nodes[self.skip(v)]
                k = int(y['v']) if y['k'] == 'Int' else None
                if y['k'] == 'Un' and y['op'] == '-':
                    k = -int(fn.nodes[self.skip(y['c'][0])].get('v', 0))
                if e and e[0] == 'exp' and k is not None:
                    isneg = (op, k) in (('<', 0), ('<=', -1))
                    isnon = (op, k) in (('>=', 0), ('>', -1))
                    if not (isneg or isnon):
                        continue
                    j = 0 if isneg != neg else 1
                    if blk['s'][j] >= 0 and only_false(blk['s'][j]):
                        good.add(e[1])
        for i, x in enumerate(fn.nodes):
            if x['k'] == 'Call' and x.get('fq', '').split('::')[-1] in ('any_of', 'all_of', 'none_of', 'find_if', 'for_each', 'accumulate') and x.get('c'):
                for p in self.fl.pointees(x['c'][0]):
                    if p[0][0] == 'v' and p[0][1] in self.polys:
                        good.add(self.polys.index(p[0][1]))
        return good


# ------------------------------------------------ users of packed words
class Users(Engine):
    def __init__(self, fn, div):
        super().__init__(fn)
        self.div = div
        self.bad = []
        self.packs = self.sums = self.rets = 0
        self.molds = {d for d, v in enumerate(fn.vars) for i in self.fl.defs.get(d, ()) if any(self.isfn(j, MOLD) for j in fn.walk(i))}

    def isfn(self, n, name):
        return self.fn.nodes[n]['k'] == 'Call' and self.fn.nodes[n].get('fq', '').split('::')[-1] == name

    def ismold(self, n):
        n = self.skip(n)
        x = self.fn.nodes[n]
        return x['k'] == 'Ref' and x['d'] in self.molds or self.isfn(n, MOLD)

    def masked(self, n):
        """text of e when the expression is e & mold"""
        n = self.skip(n)
        x = self.fn.nodes[n]
        if x['k'] == 'Bin' and x['op'] == '&':
            for i, j in ((0, 1), (1, 0)):
                if self.ismold(x['c'][j]):
                    return self.fn.text(self.skip(x['c'][i]))
        return None

    def atom(self, n, truth, st):
        x = self.fn.nodes[n]
        if self.isfn(n, CAN):
            return [('can', truth, (('t', n), ()))]
        z, t = n, truth
        if x['k'] == 'Bin' and x['op'] in ('==', '!=') and self.boolval(self.skip(x['c'][1])) is False:
            z, t = self.skip(x['c'][0]), truth == (x['op'] == '!=')
        y = self.fn.nodes[z]
        if y['k'] == 'Ref' and not t:
            return [('z', (('v', y['d']), ()))]
        m = self.masked(z)
        if m is not None and not t:
            st.aux = frozenset(a for a in st.aux if a != ('sum', m))
            return [('fits', m, (('t', z), ()))]
        return []

    def edge_hook(self, b, j, t, st):
        blk = self.fn.blocks[b]
        if 'cond' not in blk:
            return
        n = self.skip(blk['cond'])
        x = self.fn.nodes[n]
        neg = j == 1
        while x['k'] == 'Un' and x['op'] == '!':
            neg = not neg
            n = self.skip(x['c'][0])
            x = self.fn.nodes[n]
        if x['k'] == 'Bin' and x['op'] in ('==', '!='):
            if self.boolval(self.skip(x['c'][1])) is False:
                neg = neg == (x['op'] == '!=')
                n = self.skip(x['c'][0])
        m = self.masked(n)
        if m is not None:
            st.aux = frozenset(a for a in st.aux if a[:2] != ('sum', m))

    def before(self, n, st):
        fn = self.fn
        x = fn.nodes[n]
        c = x.get('c', [])
        nm = x.get('fq', '').split('::')[-1]
        can = any(f[0] == 'can' and f[1] for f in st.facts)
        if self.isfn(n, PACK):
            if self.recording:
                self.packs += 1
                if not can:
                    self.bad.append((n, 'pack', 'packs a monomial although the capacity test has not been passed'))
        if self.isfn(n, UNPACK) and not can and self.recording:
            self.bad.append((n, 'pack', 'unpacks a word although the capacity test has not been passed'))
        if x['k'] == 'Assign' and x['op'] == '=' and self.prog.tstr(fn.nodes[c[0]].get('t')).replace('const ', '') in ('unsigned long', 'uint64_t'):
            r = self.skip(c[1])
            y = fn.nodes[r]
            l = fn.nodes[self.skip(c[0])]
            if y['k'] == 'Bin' and y['op'] == '+' and l['k'] == 'Mem' and l.get('n') == 'mono':
                self.sums += self.recording
                if self.div:
                    st.aux = st.aux | {('sum', fn.text(self.skip(c[0])), n)}
        if x['k'] == 'Assign' and x['op'] in ('|=', '=', '+='):
            m = self.masked(c[1])
            y = fn.nodes[self.skip(c[0])]
            r = fn.nodes[self.skip(c[1])]
            if m is None and x['op'] == '=' and r['k'] == 'Bin' and r['op'] == '|':
                for i in r['c']:
                    m = m or self.masked(i)
            if m is not None and y['k'] == 'Ref':
                if self.recording and x['op'] == '=' and ('col', y['d']) in st.aux and ('z', (('v', y['d']), ())) not in st.facts and \
                        not any(fn.nodes[i]['k'] == 'Ref' and fn.nodes[i]['d'] == y['d'] for i in fn.walk(c[1])):
                    self.bad.append((n, 'lost', 'forgets that an earlier sum outgrew its field'))
                st.aux = frozenset(a for a in st.aux if a[:2] != ('sum', m)) | {('col', y['d'])}
                self.kill(st, (('v', y['d']), ()))
        if nm in ('VHC_insert', 'VHC_extract') and self.recording:
            for a in sorted(st.aux, key=str):
                if a[0] == 'sum':
                    self.bad.append((a[2], 'carry', 'the sum of packed exponents %s is used without having been tested for fields that outgrew their width' % a[1]))
        if x['k'] == 'Call' and x.get('obj') and nm in ('push_back', 'emplace_back') and c and 'basic_monomial' in self.prog.tstr(fn.nodes[c[0]].get('t')):
            for p in self.fl.obj_places(n):
                if p[0][0] == 'v' and p[0][1] in fn.params:
                    st.aux = st.aux | {('dirty', p[0][1])}
        if x['k'] == 'Call' and x.get('obj') and nm in ('clear', 'resize') and c:
            for p in self.fl.obj_places(n):
                if p[0][0] == 'v':
                    st.aux = frozenset(a for a in st.aux if a != ('dirty', p[0][1]))
        if x['k'] == 'Return' and c and self.recording:
            y = fn.nodes[self.skip(c[0])]
            v = self.boolval(self.skip(c[0]))
            self.rets += 1
            if v is not False:
                for a in sorted(st.aux, key=str):
                    if a[0] == 'col' and ('z', (('v', a[1]), ())) not in st.facts and not (v is None and self.negated(c[0], a[1])):
                        self.bad.append((n, 'overflow', 'reports success although %s may say that a field outgrew its width' % fn.vars[a[1]]['n']))
            if v is not True:
                for a in sorted(st.aux, key=str):
                    if a[0] == 'dirty' and v is False:
                        self.bad.append((n, 'partial', 'gives up leaving terms in %s' % fn.vars[a[1]]['n']))

    def negated(self, n, d):
        n = self.skip(n)
        x = self.fn.nodes[n]
        return x['k'] == 'Un' and x['op'] == '!' and self.fn.nodes[self.skip(x['c'][0])].get('d') == d or \
            x['k'] == 'Bin' and x['op'] == '==' and self.fn.nodes[self.skip(x['c'][0])].get('d') == d


class M01:
    LIMIT = 130

    def __init__(self, prog, rep, tier):
        self.prog, self.rep, self.tier = prog, rep, tier

    def want(self, cur, e, g):
        return g.qn.startswith('clpoly::') and g.name not in (CAN, PACK, UNPACK, MOLD) and not g.cls and len(g.nodes) < 400 and 'pair_vec' not in g.name and 'VHC' not in g.name and not g.name.startswith('__div')

    def go(self):
        prog = self.prog
        fam = {}
        for nm in (CAN, PACK, UNPACK, MOLD):
            for f in prog.byqn('clpoly::' + nm):
                if not f.blocks:
                    continue
                key = None
                for d in f.params:
                    s = prog.tstr(f.vars[d]['t'])
                    for o in ('clpoly::grlex_<', 'clpoly::lex_<'):
                        i = s.find(o)
                        if i >= 0:
                            j = s.index('>', i)
                            key = s[i:j + 1]
                            break
                    if key:
                        break
                fam.setdefault(key, {}).setdefault(nm, []).append(f)
        for key, m in sorted(fam.items(), key=str):
            if key and all(nm in m for nm in (CAN, PACK, UNPACK)):
                self.family(key, m)
        self.users()

    def x(self, f):
        return inline.expand(f, self.want, 3)

    def family(self, key, m):
        rep = self.rep
        pack, unpack, cans = self.x(m[PACK][0]), self.x(m[UNPACK][0]), [self.x(f) for f in m[CAN]]
        mold = self.x(m[MOLD][0]) if MOLD in m else None
        graded = 'grlex_' in key
        rep.count('orders')
        bad = {}

        def viol(f, n, what, text, nv):
            bad.setdefault((f.qn, what), (f, n, text, []))[3].append(nv)
        limit = 0
        for nv in range(1, self.LIMIT + 1):
            reach = False
            cap = {}
            for c in cans:
                for delta in (0, 1):
                    a = Capacity(c, nv, delta)
                    try:
                        f = a.run()
                    except Unsupported as e:
                        rep.count('capacity tests not analysed')
                        rep.notes.append(str(e))
                        continue
                    for n, t in a.bad:
                        viol(c, n, 'shift', t, nv)
                    if f is not None:
                        reach = True
                        cap.setdefault(delta, []).append((c, f))
            if not reach:
                continue
            limit = nv
            layout = None
            sets = [list(range(nv)), []]
            if nv > 1:
                sets += [list(range(0, nv, 2)), list(range(1, nv, 2)), [nv - 1], [0]]
            lay = None
            try:
                full = Interp(pack, nv, sets[0]).run()
                if not isinstance(full, Bits):
                    full = Interp(pack, nv).bits(full)
                if full is None:
                    raise Unsupported('packed word')
                lay = {}
                for s, lo, w, pos in full.sl:
                    if s in lay:
                        viol(pack, -1, 'layout', 'packs %s twice' % (s,), nv)
                    lay[s] = pos
                rep.count('layouts')
            except Unsupported as e:
                rep.count('layouts not analysed')
                rep.notes.append(str(e))
                continue
            except Defect as e:
                viol(pack, e.n, 'shift', e.text, nv)
                continue
            deg0 = nv == 1 and set(lay) == {('deg',)}
            if deg0:
                lay = {('e', 0): lay[('deg',)]}
            miss = [i for i in range(nv) if ('e', i) not in lay]
            if miss:
                viol(pack, -1, 'layout', 'the exponent of variable %d is not in the packed word' % miss[0], nv)
                continue
            order = [('deg',)] * (('deg',) in lay) + [('e', i) for i in range(nv)]
            poss = [lay[s] for s in order]
            if graded and nv > 1 and ('deg',) not in lay:
                viol(pack, -1, 'order', 'the total degree is not packed, so words do not compare as monomials do', nv)
            if any(a <= b for a, b in zip(poss, poss[1:])):
                viol(pack, -1, 'order', 'fields are not in descending order of variables, so words do not compare as monomials do', nv)
                continue
            width = {}
            hi = 64
            for s, p in zip(order, poss):
                width[s] = hi - p
                hi = p
            # with a subset of the variables
            for S in sets[1:]:
                try:
                    w = Interp(pack, nv, S).run()
                    b = Interp(pack, nv).bits(w)
                    got = {(('e', 0) if deg0 and s == ('deg',) else s): pos for s, lo, _, pos in b.sl} if b is not None else None
                    want = {s: p for s, p in lay.items() if s[0] == 'e' and s[1] in S or s == ('deg',) and S}
                    if got != want:
                        viol(pack, -1, 'layout', 'a monomial without some of the variables is packed differently', nv)
                except Unsupported as e:
                    rep.count('layouts not analysed')
                except Defect as e:
                    viol(pack, e.n, 'shift', e.text, nv)
            # capacity
            for delta, cs in sorted(cap.items()):
                for c, f in cs:
                    rep.count('capacity tests')
                    fd = {}
                    for k, v in f:
                        fd[k] = min(v, fd.get(k, v))
                    if nv == 1:
                        continue            # exponents are signed 64-bit numbers: one field holds any sum of two
                    kinds = ('front', 'deg') if graded else ('exp', 'deg')
                    if delta == 0:
                        need = min(width.values())
                        ok = any(fd.get(tuple(sorted(((a, 0), (b, 1)))), 1 << 70) < 1 << need for a in kinds for b in kinds)
                        if not ok:
                            for a in kinds:
                                for b in kinds:
                                    if fd.get(((a, 0),), 1 << 70) + fd.get(((b, 1),), 1 << 70) < 1 << need:
                                        ok = True
                        if not ok:
                            viol(c, -1, 'capacity', 'the sum of two exponents may exceed its field of %d bits' % need, nv)
                    else:
                        need = min(width.values()) - 1
                        for p in (0, 1):
                            if not any(fd.get(((a, p),), 1 << 70) < 1 << need for a in kinds):
                                viol(c, -1, 'capacity', 'for division, an exponent of operand %d may reach the guard bit of its %d-bit field' % (p + 1, need + 1), nv)
            # unpacking
            for S in sets:
                sl = [(s, 0, min(width.values()) if s == order[0] else width[s], lay[s]) for s in order if s == ('deg',) and S or s[0] == 'e' and s[1] in S]
                if nv == 1:
                    sl = [(s, 0, 64, p) for s, _, _, p in sl]
                if S and len(S) < nv and nv > 8 and S not in ([0], [nv - 1]) and self.tier != 'thorough' and nv % 7:
                    continue
                try:
                    it = Interp(unpack, nv, S, Bits(sl))
                    it.run()
                except Unsupported as e:
                    rep.count('unpackings not analysed')
                    rep.notes.append(str(e))
                    continue
                except Defect as e:
                    viol(unpack, e.n, 'shift', e.text, nv)
                    continue
                rep.count('unpackings')
                got = []
                for v, e, raw in it.out:
                    b = it.bits(e)
                    got.append((v, b.sl if b is not None else e))
                exp = [(('v', i), ((('e', i), 0, width[('e', i)] if nv > 1 and ('e', i) != order[0] else (64 if nv == 1 else min(width.values())), 0),)) for i in S]
                if [g for g in got] != exp:
                    viol(unpack, -1, 'layout', 'unpacking a packed monomial does not give its exponents back', nv)
                elif any(raw for _, _, raw in it.out):
                    b = it.bits(it.outdeg) if it.outdeg is not None else None
                    if b is None or b.sl != ((('deg',), 0, min(width.values()), 0),):
                        viol(unpack, -1, 'degree', 'the unpacked monomial does not get its total degree', nv)
            # guard bits
            if mold is not None and 1 in cap:
                try:
                    it = Interp(mold, nv)
                    v = it.run()
                    want = 0
                    for s in order:
                        want |= 1 << (lay[s] + min(width.values()) - 1) if s == order[0] else 1 << (lay[s] + width[s] - 1)
                    rep.count('guard masks')
                    if v != want:
                        viol(mold, -1, 'mask', 'the guard mask does not mark the top bit of every field' , nv)
                except Unsupported as e:
                    rep.count('guard masks not analysed')
                    rep.notes.append(str(e))
                except Defect as e:
                    viol(mold, e.n, 'shift', e.text, nv)
        rep.cov['largest number of variables packed'] = max(limit, rep.cov.get('largest number of variables packed', 0))
        if limit >= self.LIMIT:
            viol(cans[0], -1, 'limit', 'accepts any number of variables', limit)
        for c in cans:
            good = Capacity(c, 2, 0).negatives()
            rep.count('operands tested for negative exponents', len(good))
            for p in (0, 1):
                if p not in good:
                    viol(c, -1, 'negative', 'negative exponents of operand %d are not rejected' % (p + 1), 0)
        for (qn, what), (f, n, text, ns) in sorted(bad.items(), key=lambda z: z[0]):
            where = '' if ns == [0] else ' (with %s variables)' % (', '.join(map(str, sorted(set(ns))[:6])) + ('...' if len(set(ns)) > 6 else ''))
            rep.violation('%s:%s' % (qn, what), '%s %s for %s: %s%s' % (f.loc(n) if n >= 0 else f.loc(), f.name, key, text, where))

    def users(self):
        rep = self.rep
        for f in sorted(self.prog.fns.values(), key=lambda f: f.key):
            if not f.blocks or f.name in (CAN, PACK, UNPACK, MOLD) or not any(x['k'] == 'Call' and x.get('fq', '').split('::')[-1] == PACK for x in f.nodes):
                continue
            g = self.x(f)
            names = {x.get('fq', '').split('::')[-1] for x in g.nodes if x['k'] == 'Call'}
            div = MOLD in names or bool({'__div', 'submul'} & names)
            u = Users(g, div)
            u.run()
            rep.count('functions on packed words')
            rep.count('packing calls', u.packs)
            rep.count('sums of packed words', u.sums)
            for i, x in enumerate(g.nodes):
                if x['k'] == 'Call' and x.get('fq', '').split('::')[-1] == CAN:
                    a = x['c'][4] if len(x['c']) > 4 else -1
                    y = g.nodes[u.skip(a)] if a >= 0 else None
                    v = int(y['v']) if y is not None and y['k'] == 'Int' else 0 if y is None or y['k'] == 'DefaultArg' else None
                    if v is not None and bool(v) != div:
                        rep.violation('%s:delta' % f.qn, '%s %s: %s tests the capacity needed for %s' % (g.loc(i), f.name, g.text(i)[:60], 'division' if v else 'multiplication'))
                for o in ('gcomp',):
                    pass
            if div and not u.molds and not any(u.isfn(i, MOLD) for i in range(len(g.nodes))):
                rep.violation('%s:carry' % f.qn, '%s %s: quotient exponents are subtracted without guard bits' % (g.loc(), f.name))
            if div:
                self.subtract(f, g, u)
            for n, kind, text in sorted(set(u.bad)):
                rep.violation('%s:%s' % (f.qn, kind), '%s %s: %s' % (g.loc(n), f.name, text))

    def subtract(self, f, g, u):
        """words are subtracted only where the guard bits of the difference were found clear"""
        facts = {}
        run = u

        class S(Users):
            def before(s, n, st):
                x = s.fn.nodes[n]
                if s.recording and x['k'] == 'Assign' and x['op'] == '-=' and s.prog.tstr(s.fn.nodes[x['c'][0]].get('t')) == 'unsigned long':
                    t = '%s - %s' % (s.fn.text(s.skip(x['c'][0])), s.fn.text(s.skip(x['c'][1])))
                    facts[n] = any(z[0] == 'fits' and z[1].strip('()') == t for z in st.facts)
                super().before(n, st)
        s = S(g, True)
        s.run()
        for n, ok in facts.items():
            if 'size' in g.text(n) or '->' not in g.text(n):
                continue
            self.rep.count('differences of packed words')
            if not ok:
                self.rep.violation('%s:borrow' % f.qn, '%s %s: %s is computed although a field may borrow from its neighbour' % (g.loc(n), f.name, g.text(n)))


def run(prop, tier, rep):
    rep.rule = ('For every monomial order and every number of variables the capacity test can accept, the fields written by packing are disjoint, ordered as the monomials are, and '
                'read back by unpacking; on every path of the capacity test returning true no exponent sum (for division: no exponent) can reach beyond its field (its guard bit) and negative '
                'exponents are rejected; packing happens only after that test; sums in division are tested against the guard bits before use and a set bit makes the division give up cleanly; '
                'no shift is by the word width or more.')
    for cfg in ('rel', 'dbg') if tier == 'thorough' else ('rel',):
        prog = ir.load(cfg)
        M01(prog, rep, tier).go()
    if rep.notes:
        rep.rule += ' Not analysed: %s.' % '; '.join(sorted(set(rep.notes))[:5])
    rep.need('orders', 2)
    rep.need('functions on packed words', 2)
