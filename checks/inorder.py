"""P02: the terms of every polynomial stay in order, one per monomial (typestate of term lists).

Every list of terms a function fills is followed along all paths: empty, holding one term, filled along a walk over terms that
are already in order (one term per position, positions only moving on), filled by a falling degree, or filled in an order that
is not known.  A list of the last kind has to be normalised (or sorted, or handed to a constructor that normalises) before it
is returned, handed to another function, copied into a polynomial or left in an output."""
import ir
import canon
import merge
from flow import Flow

ADD = {'push_back', 'emplace_back'}
NORM = {'normalization', 'pair_vec_normalization'}
HARMLESS = {'size', 'empty', 'reserve', 'capacity', 'shrink_to_fit', 'comp', 'comp_ptr', 'front', 'back', 'operator[]', 'at', 'data', 'begin', 'end', 'cbegin', 'cend',
            'rbegin', 'rend', 'pop_back', '__auto_shrink', 'max_size', 'is_sorted'}
# results that come off a heap or out of an interpolation: their order is an argument about the algorithm, not about the code that stores it
ASSUMED = {
    'pair_vec_multiplies': 'products come off a heap ordered by the monomial order',
    'pair_vec_div': 'quotient and remainder terms come off a heap ordered by the monomial order',
    '__pair_vec_multiplies_compression': 'products come off a heap of packed monomials',
    '__pair_vec_div_compression': 'quotient and remainder terms come off a heap of packed monomials',
    '__normal_form': 'the terms taken off are the leading terms of a falling remainder',
    '__normal_form_with_sugar': 'the terms taken off are the leading terms of a falling remainder',
    '__upoly_divmod_mod': 'quotient degrees are those of a falling remainder',
    '__polynomial_GCD': 'interpolation puts out the powers of the last variable downwards for each monomial',
    'pquo': 'each pseudo-division step adds quotient terms of a lower power of the variable',
    'derivative/2': 'all terms kept contain the variable, and lowering its power keeps their order',
}
BITS = ('basic_polynomial', 'basic_monomial')


class Give(Exception):
    pass


def strip(t):
    return t.replace('.data()', '').replace('->', '').replace('(', '').replace(')', '').replace('*this.', '').replace('this', '').replace('.__data', '').replace('__data', '')


class Fn:
    def __init__(self, fn, prog, rep):
        self.fn, self.prog, self.rep = fn, prog, rep
        self.N = fn.nodes
        self.bad = {}
        self.why = {}
        self.proved = set()
        self.normed = set()
        self.assumed = set()
        self.where = None
        self.assume = fn.name in ASSUMED or '%s/%d' % (fn.name, len(fn.params)) in ASSUMED
        self.ex = merge.Exec(fn, prog, None)
        self.firsttests = self.tests()
        self.merged = set()
        try:
            for h, mine, outs, cur in merge.merges(fn, prog)[1]:
                self.merged |= {self.keyvar(o) for o in outs}
        except Exception:
            pass

    # ------------------------------------------------------------ names
    def skip(self, n):
        while n is not None and n >= 0:
            x = self.N[n]
            if x['k'] in ('Cast', 'Paren') or x['k'] == 'Ctor' and len([i for i in x.get('c', ()) if i >= 0]) == 1 and not self.conv(x):
                n = [i for i in x['c'] if i >= 0][0]
            elif x['k'] == 'Call' and self.nm(x) in ('move', 'forward', 'as_const', 'ref', 'cref') and x.get('c'):
                c = [i for i in x['c'] if i >= 0]
                if not c:
                    return n
                n = c[-1]
            else:
                return n
        return n

    def conv(self, x):
        """a constructor that makes another kind of object out of its argument"""
        a = self.N[[i for i in x['c'] if i >= 0][0]]
        return canon.bare(self.prog.tstr(x.get('t'))) != canon.bare(self.prog.tstr(a.get('t')))

    def nm(self, x):
        return x.get('fq', '').split('::')[-1]

    def keyvar(self, d):
        return 'v%d' % d

    def key(self, n):
        """the list of terms an expression names, or None"""
        n = self.skip(n)
        if n is None or n < 0:
            return None
        x = self.N[n]
        if x['k'] == 'Ref':
            V = self.fn.vars[x['d']]
            i = self.inits.get(x['d'])
            if self.prog.T(V['t']).get('ref') and i is not None and x['d'] not in self.fn.params:
                if x['d'] in self.seen:
                    return None
                self.seen.add(x['d'])
                r = self.element(i) or self.key(i)
                self.seen.discard(x['d'])
                return r or self.keyvar(x['d'])
            if x['d'] in self.binds and i is not None:
                return self.element(i) or self.keyvar(x['d'])
            return self.keyvar(x['d'])
        if x['k'] == 'This':
            return 'this'
        if x['k'] == 'Mem':
            c = [i for i in x.get('c', ()) if i >= 0]
            o = self.key(c[0]) if c else 'this'
            if x.get('n') == '__data':
                return o
            return o + '.' + x['n'] if o and not x.get('fn') else None
        if x['k'] == 'Call':
            c = [i for i in x.get('c', ()) if i >= 0]
            if self.nm(x) == 'data' and c:
                return self.key(c[0])
            if self.nm(x) in ('operator[]', 'at', 'front', 'back') and c:
                o = self.key(c[0])
                return o + '[' + ''.join(self.fn.text(i) for i in c[1:]) + self.nm(x)[:1] + ']' if o else None
            if self.nm(x) in ('operator*', 'operator->') and c:
                o = self.key(c[0])
                return o + '[*]' if o else None
        if x['k'] == 'Index':
            o = self.key(x['c'][0])
            return o + '[' + self.fn.text(x['c'][1]) + ']' if o else None
        if x['k'] == 'Un' and x.get('op') == '*':
            c = self.N[self.skip(x['c'][0])]
            return 'this' if c['k'] == 'This' else None
        return None

    def element(self, i):
        """the name of the elements of a container, where i reads what a range-for stands at"""
        x = self.N[self.skip(i)]
        c = [j for j in x.get('c', ()) if j >= 0]
        if not (x['k'] == 'Call' and self.nm(x) == 'operator*' or x['k'] == 'Un' and x.get('op') == '*') or not c:
            return None
        y = self.N[self.skip(c[0])]
        if y['k'] != 'Ref' or not self.fn.vars[y['d']]['n'].startswith('__begin') or self.itersrc(y['d']) is not None:
            return None
        b = self.inits.get(y['d'])
        while b is not None:
            z = self.N[self.skip(b)]
            c = [j for j in z.get('c', ()) if j >= 0]
            if z['k'] in ('Call', 'Ctor') and c and (z['k'] == 'Ctor' or self.nm(z) in ('begin', 'cbegin')):
                b = c[0]
            elif z['k'] == 'Ref' and self.fn.vars[z['d']]['n'].startswith('__range'):
                b = self.inits.get(z['d'])
            else:
                o = self.key(b)
                return o + '[*]' if o else None
        return None

    def look(self, st, k):
        """what is known of the list k; of the elements of a container: the worst"""
        v = st.get(k)
        if k.endswith('[*]'):
            for q, w in st.items():
                if q[0] != 'm' and q.split('[')[0] == k[:-3] and '[' in q and w[0] == 'U':
                    return w
        return v

    def kind(self, n):
        return canon.kind(canon.bare(self.prog.tstr(self.N[n].get('t')))) if n is not None and n >= 0 else None

    def isvec(self, n):
        return canon.bare(self.prog.tstr(self.N[n].get('t'))).startswith('std::vector<')

    def tests(self):
        """the branches of the function look at the leading variable of monomials"""
        for b, B in self.fn.blocks.items():
            c = B.get('cond')
            if c is None:
                continue
            for n in self.fn.walk(c):
                x = self.fn.nodes[n]
                if x['k'] == 'Call' and self.nm(x) in ('get_first_var', 'get_first_deg', 'get_up_deg', 'get_up_var') or x['k'] == 'Call' and self.nm(x) == 'front' and canon.kind(canon.bare(self.prog.tstr(self.fn.nodes[self.skip0(x)].get('t')))) == 'mono':
                    return True
        return False

    def skip0(self, x):
        c = [i for i in x.get('c', ()) if i >= 0]
        return c[0] if c else 0

    # ------------------------------------------------------------ positions and monomials
    def position(self, n):
        """the position variable the term expression n stands at: (variable, moved on in the expression), or None"""
        n = self.skip(n)
        if n is None or n < 0:
            return None
        x = self.N[n]
        c = [i for i in x.get('c', ()) if i >= 0]
        if x['k'] == 'Ref':
            d = x['d']
            i = self.inits.get(d)
            V = self.fn.vars[d]
            if i is None or d in self.fn.params:
                return None
            s = canon.kind(canon.bare(self.prog.tstr(V['t'])))
            if s == 'pair':
                return self.position(i) if d not in self.elemwrites else None
            if V['n'].startswith('__begin') or s is None and self.itersrc(d) is not None:
                return d, False
            return self.position(i) if self.prog.T(V['t']).get('ref') else None
        if x['k'] == 'Call' and self.nm(x) in ('operator*', 'operator->') and c:
            return self.itpos(c[0])
        if x['k'] == 'Un' and x.get('op') in ('*',) and c:
            return self.itpos(c[0])
        if x['k'] == 'Call' and self.nm(x) in ('operator[]', 'at') and len(c) == 2 and self.kind(self.skip(c[0])) == 'poly' or x['k'] == 'Index' and len(c) == 2 and self.kind(self.skip(c[0])) == 'poly':
            i = self.N[self.skip(c[1])]
            if i['k'] == 'Ref' and i['d'] not in self.fn.params:
                self.idx[i['d']] = self.key(c[0])
                return i['d'], False
        return None

    def itpos(self, n):
        n = self.skip(n)
        x = self.N[n]
        c = [i for i in x.get('c', ()) if i >= 0]
        if x['k'] == 'Call' and self.nm(x) == 'operator->' and c:
            return self.itpos(c[0])
        if x['k'] == 'Call' and (x.get('op') == '++' or self.nm(x) == 'operator++') and c or x['k'] == 'Un' and x.get('op', '')[-2:] == '++' and c:
            y = self.N[self.skip(c[0])]
            if y['k'] == 'Ref' and self.itersrc(y['d']) is not None:
                post = len(c) == 2 or x.get('op', '').startswith('post')
                return y['d'], bool(post)
            return None
        if x['k'] == 'Ref' and self.itersrc(x['d']) is not None:
            return x['d'], False
        if x['k'] == 'Call' and x.get('op') == '+' and len(c) == 2:
            b, i = self.N[self.skip(c[0])], self.N[self.skip(c[1])]
            a = [q for q in b.get('c', ()) if q >= 0]
            if b['k'] == 'Call' and self.nm(b) in ('begin', 'cbegin') and a and self.kind(self.skip(a[0])) == 'poly' and i['k'] == 'Ref' and i['d'] not in self.fn.params:
                self.idx[i['d']] = self.key(a[0])
                return i['d'], False
        return None

    def itersrc(self, d):
        """the list of terms the position variable d walks over, or None"""
        if d in self.srcs:
            return self.srcs[d]
        self.srcs[d] = None
        i = self.inits.get(d)
        r = None
        starts = [i] if i is not None else []
        starts += self.asg.get(d, [])
        for i in starts:
            x = self.N[self.skip(i)]
            c = [j for j in x.get('c', ()) if j >= 0]
            if x['k'] == 'Ctor' and len(c) == 1:
                x = self.N[self.skip(c[0])]
                c = [j for j in x.get('c', ()) if j >= 0]
            if x['k'] == 'Call' and self.nm(x) in ('begin', 'cbegin') and c:
                o = self.skip(c[0])
                t = canon.bare(self.prog.tstr(self.N[o].get('t')))
                if canon.kind(t) == 'poly' or t.startswith('std::map<') and 'std::greater<' in t:
                    r = self.key(c[0]) or '?'
                else:
                    r = None
                    break
            elif x['k'] == 'Ref' and self.itersrc(x['d']) is not None:
                r = self.itersrc(x['d'])
            elif x['k'] == 'Call' and self.nm(x) in ('operator++', 'next', 'end', 'cend', 'find', 'lower_bound'):
                continue
            else:
                r = None
                break
        self.srcs[d] = r
        return r

    def mono(self, n, st):
        """what is known of the monomial expression n: ('src', v, moved) | ('deg', v, sign) | ('none',) (the monomial 1) | ('other', text)"""
        n0 = n
        n = self.skip(n)
        x = self.N[n]
        c = [i for i in x.get('c', ()) if i >= 0]
        if x['k'] == 'Mem' and x.get('n') in ('first', 'second') and c:
            # (the first of a pair)
            if x['n'] == 'first':
                p = self.position(c[0]) or (self.itpos(c[0]) if x.get('arrow') else None)
                if p:
                    return ('src',) + p
            return ('other', self.fn.text(n))
        if x['k'] == 'Bind' or x['k'] == 'Ref':
            d = x['d']
            v = st.get('m%d' % d)
            if v is not None:
                return v
            i = self.inits.get(d)
            if i is not None and d not in self.mutated:
                if d in self.binds:
                    p = self.position(i)
                    return ('src',) + p if p and self.binds[d] == 0 else ('other', self.fn.text(n))
                return self.mono(i, st)
            return ('other', self.fn.text(n))
        if x['k'] in ('Ctor', 'InitList'):
            t = canon.bare(self.prog.tstr(x.get('t')))
            if t == 'clpoly::umonomial':
                if not c:
                    return ('none',)
                if self.N[self.skip(c[0])]['k'] == 'Int':
                    return ('none',) if self.N[self.skip(c[0])].get('v') in (0, '0') else ('fix', self.fn.text(n))
                return self.degree(c[0], st)
            if canon.kind(t) == 'mono':
                if not c or all('*' in self.prog.tstr(self.N[i].get('t')) or 'order' in self.prog.tstr(self.N[i].get('t')) or 'lex' in self.prog.tstr(self.N[i].get('t')) and canon.kind(canon.bare(self.prog.tstr(self.N[i].get('t')))) is None for i in c):
                    return ('none',)
                if len(c) == 1:
                    return self.mono(c[0], st)
            return ('other', self.fn.text(n))
        if x['k'] == 'Call' and self.nm(x) in ('__change_up_monomial_var_deg', '__change_monomial_var_deg') and len(c) >= 2:
            m = self.mono(c[0], st)
            if m[0] == 'src' and (self.nm(x) == '__change_up_monomial_var_deg' or self.firsttests):
                return m
            return ('other', self.fn.text(n))
        if x['k'] == 'Call' and x.get('op') in (None, '', '()') and self.kind(n) == 'mono' and self.firsttests and x.get('f') in self.prog.fns:
            m = [m for m in (self.mono(a, st) for a in c if self.kind(self.skip(a)) == 'mono') if m[0] == 'src']
            if m:
                return m[0]
        if x['k'] == 'Call' and x.get('op') in ('*', '/') and len(c) == 2:
            m = self.mono(c[0], st)
            if m[0] == 'src' and self.mono(c[1], st)[0] not in ('src', 'deg') and not self.varies(c[1]):
                return m
        return ('other', self.fn.text(n))

    def varies(self, n):
        """the value is made anew in the loops of the function"""
        x = self.N[self.skip(n)]
        return not (x['k'] == 'Ref' and x['d'] not in self.mutated)

    def degree(self, n, st):
        """a degree as a falling or rising function of a counter or of the degree of a term"""
        n = self.skip(n)
        x = self.N[n]
        c = [i for i in x.get('c', ()) if i >= 0]
        if x['k'] == 'Ref':
            d = x['d']
            if d in self.counters:
                return ('deg', d, 1)
            i = self.inits.get(d)
            if d in self.binds:
                p = self.position(i) if i is not None else None
                return ('src',) + p if p and self.binds[d] == 0 else ('other', self.fn.text(n))
            if i is not None and d not in self.mutated and d not in self.fn.params:
                return self.degree(i, st)
            return ('fix', self.fn.text(n)) if d in self.fn.params and d not in self.mutated else ('other', self.fn.text(n))
        if x['k'] == 'Int':
            return ('fix', self.fn.text(n))
        if x['k'] == 'Call' and self.nm(x) == 'deg' and len(c) == 1:
            return self.mono(c[0], st)
        if x['k'] == 'Mem' and x.get('n') == 'first' and c:
            p = self.position(c[0]) or (self.itpos(c[0]) if x.get('arrow') else None)
            return ('src',) + p if p else ('other', self.fn.text(n))
        if x['k'] == 'Bin' and len(c) == 2:
            a, b = self.degree(c[0], st), self.degree(c[1], st)
            if x['op'] in ('+', '-', '*', '/') and b[0] in ('fix', 'other') and a[0] in ('src', 'deg') and (b[0] == 'fix' or not self.varies(c[1])):
                return a
            if x['op'] in ('+', '*') and a[0] in ('fix', 'other') and b[0] in ('src', 'deg') and (a[0] == 'fix' or not self.varies(c[0])):
                return b
            if x['op'] == '-' and a[0] in ('fix', 'other') and b[0] == 'deg' and (a[0] == 'fix' or not self.varies(c[0])):
                return ('deg', b[1], -b[2])
            if a[0] == b[0] == 'fix':
                return ('fix', self.fn.text(n))
        return ('other', self.fn.text(n))

    def termmono(self, call, st):
        """monomial of the term a push_back or emplace_back puts in"""
        c = [i for i in self.N[call].get('c', ()) if i >= 0][1:]
        if len(c) >= 2 and not (len(c) == 2 and self.kind(self.skip(c[0])) == 'pair'):
            return self.mono(c[0], st)
        if not c:
            return ('other', '')
        n = self.skip(c[0])
        x = self.N[n]
        a = [i for i in x.get('c', ()) if i >= 0]
        if (x['k'] in ('Ctor', 'InitList') or x['k'] == 'Call' and self.nm(x) == 'make_pair') and len(a) == 2:
            return self.mono(a[0], st)
        p = self.position(n)
        if p:
            return ('src',) + p
        if x['k'] == 'Ref':
            i = self.inits.get(x['d'])
            if i is not None and x['d'] not in self.elemwrites and x['d'] not in self.fn.params:
                y = self.N[self.skip(i)]
                a = [j for j in y.get('c', ()) if j >= 0]
                if (y['k'] in ('Ctor', 'InitList') or y['k'] == 'Call' and self.nm(y) == 'make_pair') and len(a) == 2:
                    return self.mono(a[0], st)
        return ('other', self.fn.text(n))

    # ------------------------------------------------------------ set up
    def scan(self):
        fn = self.fn
        self.inits, self.asg, self.mutated, self.elemwrites = {}, {}, set(), set()
        self.srcs, self.idx, self.seen, self.binds, self.pieces = {}, {}, set(), {}, {}
        updn = {}
        for n, x in enumerate(self.N):
            c = [i for i in x.get('c', ()) if i >= 0]
            if x['k'] == 'Decl':
                for w in x['vars']:
                    if w.get('i') is not None and w['i'] >= 0:
                        self.inits[w['d']] = w['i']
                    for j, b in enumerate(w.get('bind', ())):
                        self.inits[b] = w['i']
                        self.binds[b] = j
            if x['k'] == 'Assign' or x['k'] == 'Bin' and x.get('op') in ('=', '+=', '-=', '*=', '/=', '>>=', '<<='):
                y = self.N[self.skip(c[0])]
                if y['k'] == 'Ref':
                    op = x.get('op', '=')
                    if op == '=':
                        self.asg.setdefault(y['d'], []).append(c[1])
                        self.mutated.add(y['d'])
                    updn.setdefault(y['d'], set()).add(op)
                    self.mutated.add(y['d'])
                if y['k'] == 'Mem' and y.get('n') == 'first':
                    self.touch(y)
            if x['k'] == 'Call' and x.get('op') in ('=', '+=', '-=', '*=', '/=', '++', '--') and c:
                y = self.N[self.skip(c[0])]
                if y['k'] == 'Ref':
                    if x['op'] == '=' and len(c) > 1:
                        self.asg.setdefault(y['d'], []).append(c[1])
                    self.mutated.add(y['d'])
                    updn.setdefault(y['d'], set()).add(x['op'])
                if y['k'] == 'Mem' and y.get('n') == 'first':
                    self.touch(y)
            if x['k'] == 'Un' and x.get('op', '')[-2:] in ('++', '--'):
                y = self.N[self.skip(c[0])]
                if y['k'] == 'Ref':
                    self.mutated.add(y['d'])
                    updn.setdefault(y['d'], set()).add(x['op'][-2:])
            if x['k'] == 'Call' and len(c) > 1 and self.kind(self.skip(c[0])) == 'mono' and self.nm(x) in ('push_back', 'emplace_back', 'insert'):
                y = self.N[self.skip(c[0])]
                if y['k'] == 'Ref':
                    self.pieces.setdefault(y['d'], []).append(n)
            if x['k'] == 'Call' and c and self.kind(self.skip(c[0])) == 'mono' and self.nm(x) in ('push_back', 'clear', 'pop_back', 'normalization', 'swap', 'erase', 'emplace_back', 'resize', 'insert'):
                y = self.N[self.skip(c[0])]
                if y['k'] == 'Ref':
                    self.mutated.add(y['d'])
        self.counters = {d for d, s in updn.items() if s & {'++', '--', '+=', '-='} and self.prog.T(fn.vars[d]['t']).get('int')}

    def touch(self, y):
        c = [i for i in y.get('c', ()) if i >= 0]
        z = self.N[self.skip(c[0])] if c else {'k': ''}
        if z['k'] == 'Ref':
            self.elemwrites.add(z['d'])

    # ------------------------------------------------------------ the dataflow
    def run(self):
        fn = self.fn
        self.scan()
        rpo = fn.rpo()
        ins = {fn.entry: {}}
        work = [fn.entry]
        pos = {b: i for i, b in enumerate(rpo)}
        rounds = 0
        while work:
            work.sort(key=lambda b: pos.get(b, 0))
            b = work.pop(0)
            rounds += 1
            if rounds > 40 * len(rpo) + 200:
                raise Give('no fixpoint')
            st = dict(ins[b])
            for e in fn.blocks[b]['e']:
                if isinstance(e, dict):
                    continue
                self.step(e, st)
            for t in fn.blocks[b]['s']:
                if t is None or t < 0:
                    continue
                if t not in ins:
                    ins[t] = dict(st)
                    work.append(t)
                else:
                    j = self.join(ins[t], st)
                    if j != ins[t]:
                        ins[t] = j
                        if t not in work:
                            work.append(t)
        # what is left in outputs
        end = ins.get(fn.exit, {})
        self.report = True
        for k, v in end.items():
            if v[0] == 'U' and self.outlives(k):
                self.flag(v, None, 'left in an output')

    def outlives(self, k):
        if k == 'this' or k.startswith('this.'):
            return True
        h = k.split('.')[0].split('[')[0]
        if not h.startswith('v'):
            return False
        d = int(h[1:])
        T = self.prog.T(self.fn.vars[d]['t'])
        return d in self.fn.params and T.get('ref') == 1

    RANK = {'E': 0, 'C': 1, 'W': 2, 'D': 2, 'K': 3, 'S': 4, 'U': 5}

    def join(self, a, b):
        r = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x == y:
                r[k] = x
            elif k[0] == 'm':
                r[k] = ('other', 'joined')
            elif x is None or y is None:
                z = x or y
                h = k.split('.')[0].split('[')[0]
                r[k] = z
            else:
                r[k] = self.jv(x, y)
        return r

    def jv(self, x, y):
        if self.RANK[x[0]] > self.RANK[y[0]]:
            x, y = y, x
        if x[0] == 'E':
            return y
        if x[0] == y[0] == 'W' or x[0] == y[0] == 'D':
            if x[1:-1] == y[1:-1]:
                return x[:-1] + (x[-1] and y[-1],)
            return ('C', 'several')
        if x[0] == y[0] == 'U':
            return min(x, y)
        if x[0] == y[0] == 'C':
            return ('C', 'several')
        if y[0] in ('U',):
            return y
        if x[0] == 'C' and y[0] in 'WD':
            return ('C', 'several')
        return y

    def step(self, n, st):
        x = self.N[n]
        k = x['k']
        c = [i for i in x.get('c', ()) if i >= 0]
        if k == 'Decl':
            for w in x['vars']:
                self.declare(w, st, n)
        elif k == 'Call':
            self.call(n, x, c, st)
        elif k == 'Un' and x.get('op', '')[-2:] in ('++', '--'):
            self.moved(c[0], x['op'][-2:], st, n)
        elif k in ('Assign', 'Bin') and (k == 'Assign' or x.get('op') in ('=', '+=', '-=')) and len(c) == 2:
            self.moved(c[0], x.get('op', '='), st, n, c[1])
        elif k == 'Return' and c:
            if self.failure(c[0]):
                for q in [q for q, v in st.items() if q[0] != 'm' and v[0] == 'U' and self.outlives(q)]:
                    st[q] = ('S',)
            self.hand(c[0], st, n, 'returned')
        elif k == 'Ctor':
            self.ctor(n, x, c, st)

    def failure(self, n):
        """the value returned says that there is no result"""
        x = self.N[self.skip(n)]
        return x['k'] in ('Bool', 'Int', 'Lit') and str(x.get('v', '')).lower() in ('false', '0') and self.prog.tstr(x.get('t')) == 'bool'

    def ctor(self, n, x, c, st):
        t = canon.bare(self.prog.tstr(x.get('t')))
        kd = canon.kind(t)
        for i in c:
            if self.kind(i) != 'poly':
                continue
            key = self.key(i)
            if key is None:
                continue
            v = self.look(st, key)
            if v is None or v[0] != 'U':
                continue
            if t.startswith('clpoly::basic_polynomial<') and self.isvec(self.skip(i)):
                self.normed.add(v[1])
                continue            # this constructor normalises
            if kd == 'poly':
                p = self.use(n)
                if p is not None:
                    continue        # looked at where the copy goes
            self.flag(v, n, 'stored away')

    def use(self, n):
        """the declaration, assignment or return a copy is made for"""
        par = self.fn.parent() if callable(self.fn.parent) else self.fn.parent
        p = par.get(n) if isinstance(par, dict) else par[n]
        for _ in range(6):
            if p is None or p < 0:
                return None
            y = self.N[p]
            if y['k'] in ('Decl', 'Return') or y['k'] == 'Assign' or y['k'] == 'Call' and y.get('op') == '=':
                return p
            if y['k'] in ('Cast', 'Paren', 'Ctor'):
                p = par.get(p) if isinstance(par, dict) else par[p]
                continue
            return None
        return None

    def declare(self, w, st, n):
        d = w['d']
        V = self.fn.vars[d]
        T = self.prog.T(V['t'])
        i = w.get('i')
        kd = canon.kind(canon.bare(self.prog.tstr(V['t'])))
        self.restart(d, st)
        if kd == 'mono' and not T.get('ref'):
            v = self.mono(i, st) if i is not None and i >= 0 else ('none',)
            st['m%d' % d] = self.built(d, st) if v == ('none',) and d in self.pieces else v
            return
        if kd != 'poly' or T.get('ref'):
            return
        key = self.keyvar(d)
        if i is None or i < 0:
            st[key] = ('E',)
            return
        st[key] = self.value(i, st, n)

    def value(self, i, st, n):
        j = self.skip(i)
        x = self.N[j]
        c = [q for q in x.get('c', ()) if q >= 0]
        if x['k'] in ('Ctor', 'InitList') and (not c or all(self.kind(self.skip(q)) is None and not self.prog.tstr(self.N[q].get('t')).startswith('std::initializer') for q in c)):
            if any('initializer_list' in self.prog.tstr(self.N[q].get('t')) for q in c):
                return ('S',)
            return ('E',)
        k = self.key(i)
        v = self.look(st, k) if k else None
        if v is not None:
            if v[0] == 'U':
                t = canon.bare(self.prog.tstr(self.N[i].get('t')))
                if t.startswith('clpoly::basic_polynomial<') and self.isvec(j):
                    self.normed.add(v[1])
                    return ('S',)
                return v
            if v[0] == 'E':
                return v
        return ('S',)

    def restart(self, d, st):
        for k, v in list(st.items()):
            if k[0] != 'm' and v[0] in 'WD' and v[1] == d:
                st[k] = ('C', 'walked')

    def moved(self, tgt, op, st, n, rhs=None):
        y = self.N[self.skip(tgt)]
        if y['k'] == 'Mem' and y.get('n') == 'first' and op in ('=', '*=', '/='):
            self.inplace(y, rhs, op, st, n)
            return
        if y['k'] != 'Ref':
            return
        d = y['d']
        back = 'reverse_iterator' in self.prog.tstr(self.fn.vars[d]['t'])
        for k, v in list(st.items()):
            if k[0] == 'm':
                if v[0] in ('src', 'deg') and v[1] == d:
                    st[k] = ('other', 'of an earlier term')
                continue
            if v[0] == 'W' and v[1] == d:
                if op in ('++', '+='):
                    st[k] = ('W', d, True) if not back else ('U', self.last.get(k, n), 'the source is walked backwards')
                elif op in ('--', '-='):
                    st[k] = ('C', 'backwards')
                else:
                    st[k] = ('C', 'walked')
            elif v[0] == 'D' and v[1] == d:
                if op in ('--', '-='):
                    st[k] = v[:3] + (True,) if v[2] > 0 else ('C', 'rising')
                elif op in ('++', '+='):
                    st[k] = v[:3] + (True,) if v[2] < 0 else ('C', 'rising')
                else:
                    st[k] = ('C', 'set anew')

    def inplace(self, y, rhs, op, st, n):
        """the monomial of a stored term is changed"""
        c = [i for i in y.get('c', ()) if i >= 0]
        if not c:
            return
        o = self.N[self.skip(c[0])]
        key = None
        p = self.position(c[0]) or (self.itpos(c[0]) if y.get('arrow') else None)
        if p:
            key = self.itersrc(p[0]) or self.idx.get(p[0])
        if key is None or key == '?':
            return
        if op == '=':
            z = self.N[self.skip(rhs)]
            a = [i for i in z.get('c', ()) if i >= 0]
            if z['k'] == 'Call' and z.get('op') in ('*', '/') and len(a) == 2 and (self.mono(a[0], st)[0] == 'src' and not self.varies2(a[1]) or self.mono(a[1], st)[0] == 'src' and not self.varies2(a[0])):
                self.proved.add(n)
                return
            if self.mono(rhs, st)[0] == 'src':
                self.proved.add(n)
                return
        elif not self.varies2(rhs):
            self.proved.add(n)
            return
        st[key] = ('U', n, 'its monomials are changed in place')
        self.last[key] = n

    def varies2(self, n):
        """the factor may be another one for the next term"""
        x = self.N[self.skip(n)]
        if x['k'] != 'Ref':
            return x['k'] not in ('Mem',)
        return x['d'] in self.binds

    def call(self, n, x, c, st):
        nm = self.nm(x)
        if x.get('op') in ('++', '--') and c:
            self.moved(c[0], x['op'], st, n)
            return
        if x.get('op') in ('=', '+=', '-=', '*=', '/=') and len(c) == 2:
            t = self.skip(c[0])
            kd = self.kind(t)
            if kd == 'mono' and self.N[t]['k'] == 'Ref' and x['op'] == '=':
                st['m%d' % self.N[t]['d']] = self.mono(c[1], st)
                return
            if kd == 'poly':
                k = self.key(c[0])
                v = self.value(c[1], st, n)
                if v[0] == 'U' and canon.bare(self.prog.tstr(self.N[t].get('t'))).startswith('clpoly::basic_polynomial<') and self.isvec(self.skip(c[1])) :
                    self.normed.add(v[1])
                    v = ('S',)
                if x['op'] != '=' and v[0] == 'U':
                    self.flag(v, n, 'used as an operand')
                    v = ('S',)
                if k:
                    if v[0] == 'U' and '[' in k and not self.normlater(k):
                        self.flag(v, n, 'stored away')
                        v = ('S',)
                    st[k] = v if x['op'] == '=' else ('S',)
                elif v[0] == 'U':
                    self.flag(v, n, 'stored away')
                return
            self.moved(c[0], x['op'], st, n, c[1])
            return
        ok = self.key(c[0]) if c and self.kind(self.skip(c[0])) in ('poly',) else None
        if ok and self.member(x):
            if nm in ADD:
                self.push(n, ok, st)
                return
            if nm in NORM:
                v = st.get(ok)
                if v and v[0] == 'U':
                    self.normed.add(v[1])
                for q in [q for q in st if q == ok or '[' in q and '[' in ok and q.split('[')[0] == ok.split('[')[0]]:
                    st[q] = ('S',)
                return
            if nm == 'clear':
                st[ok] = ('E',)
                return
            if nm == 'swap' and len(c) == 2:
                b = self.key(c[1])
                if b:
                    st[ok], st[b] = st.get(b, ('S',)), st.get(ok, ('S',))
                return
            if nm in HARMLESS or nm in ('erase', 'resize', 'assign', 'insert', 'emplace'):
                return
        m = self.N[self.skip(c[0])] if c else None
        if m is not None and m['k'] == 'Ref' and self.kind(self.skip(c[0])) == 'mono' and self.member(x):
            if nm == 'clear':
                st['m%d' % m['d']] = self.built(m['d'], st) if m['d'] in self.pieces else ('none',)
            elif nm in ('push_back', 'emplace_back', 'pop_back', 'insert', 'erase', 'resize', 'swap'):
                st['m%d' % m['d']] = self.built(m['d'], st)
            return
        if nm == 'reverse' and c:
            y = self.N[self.skip(c[0])]
            a = [j for j in y.get('c', ()) if j >= 0]
            k = self.key(a[0]) if y['k'] == 'Call' and a else None
            if k and st.get(k):
                v = st[k]
                st[k] = ('S',) if v[0] == 'U' and v[2] in ('the degrees rise', 'the source is walked backwards') or v[0] in 'ECS' else ('U', self.last.get(k, n), 'it is turned round')
            return
        if nm == 'for_each' or nm in ('move', 'forward', 'as_const', 'addressof'):
            return
        if nm in ('sort', 'stable_sort', 'pair_vec_normalization') and c:
            for i in c:
                y = self.N[self.skip(i)]
                a = [j for j in y.get('c', ()) if j >= 0]
                k = self.key(i) if self.kind(self.skip(i)) == 'poly' else self.key(a[0]) if y['k'] == 'Call' and self.nm(y) in ('begin', 'end') and a else None
                if k:
                    v = st.get(k)
                    if v and v[0] == 'U':
                        self.normed.add(v[1])
                    st[k] = ('S',)
            return
        if nm == 'swap' and len(c) == 2:
            a, b = self.key(c[0]), self.key(c[1])
            if a and b and self.kind(self.skip(c[0])) == 'poly':
                st[a], st[b] = st.get(b, ('S',)), st.get(a, ('S',))
            return
        if nm in HARMLESS:
            return
        # an ordinary call: its arguments are handed over
        callee = self.prog.fns.get(x.get('f'))
        args = c
        for j, i in enumerate(args):
            if self.kind(self.skip(i)) != 'poly':
                continue
            k = self.key(i)
            if k is None:
                continue
            v = self.look(st, k)
            pt = self.partype(x, callee, i, j, args)
            out = pt is not None and pt.get('ref') == 1 and not self.constref(pt)
            if v is not None and v[0] == 'U' and not out:
                self.flag(v, n, 'handed to %s' % nm)
            if out and v is not None:
                d = self.appended(x, callee, j, args, st)
                if d is not None:
                    self.push(n, k, st, d)
                else:
                    st[k] = ('S',)
        for j, i in enumerate(args):
            y = self.N[self.skip(i)]
            if self.kind(self.skip(i)) == 'mono' and y['k'] == 'Ref' and y['d'] in self.mutated | set(self.pieces) | {q for q in [y['d']] if 'm%d' % q in st}:
                pt = self.partype(x, callee, i, j, args)
                if pt is not None and pt.get('ref') == 1 and not self.constref(pt):
                    src = [m for m in (self.mono(a, st) for a in args if a != i and self.kind(self.skip(a)) == 'mono') if m[0] == 'src']
                    st['m%d' % y['d']] = src[0] if src and self.firsttests else ('other', 'put together')

    def appended(self, x, callee, j, args, st):
        """the callee does nothing to its list but put one term in: its monomial"""
        if callee is None or not callee.blocks:
            return None
        off = len(args) - len(callee.params)
        if off not in (0, 1) or not 0 <= j - off < len(callee.params):
            return None
        out = callee.params[j - off]
        N = callee.nodes
        uses = [i for i, y in enumerate(N) if y['k'] == 'Ref' and y['d'] == out]
        adds = [i for i, y in enumerate(N) if y['k'] == 'Call' and self.nm(y) in ADD and y.get('c') and self.strip(N, y['c'][0]) in uses]
        if len(adds) != 1 or any(y['k'] in ('For', 'While', 'Do', 'ForRange') for y in N):
            return None
        for q in callee.walk(adds[0]):
            y = N[q]
            if y['k'] == 'Ref' and y['d'] != out and y['d'] in callee.params:
                a = args[callee.params.index(y['d']) + off]
                kd = self.kind(self.skip(a))
                if kd == 'pair':
                    p = self.position(a)
                    return ('src',) + p if p else ('other', self.fn.text(a))
                if kd == 'mono' or canon.bare(self.prog.tstr(self.N[self.skip(a)].get('t'))) == 'clpoly::umonomial':
                    return self.mono(a, st)
                if self.prog.T(callee.vars[y['d']]['t']).get('int'):
                    return self.degree(a, st)
        return ('other', self.fn.text(args[j]))

    def strip(self, N, n):
        while N[n]['k'] in ('Cast', 'Paren') and N[n].get('c') or N[n]['k'] == 'Call' and self.nm(N[n]) == 'data' and N[n].get('c'):
            n = N[n]['c'][0]
        return n

    def built(self, d, st):
        """a monomial put together from the one at hand: still one that goes down with it, where the branches look at the leading variable"""
        cur = st.get('m%d' % d, ('none',))
        p = self.single(d, st)
        if p:
            return ('src',) + p
        if self.firsttests or self.assume:
            for k, v in self.inits.items():
                V = self.fn.vars[k]
                if canon.kind(canon.bare(self.prog.tstr(V['t']))) == 'pair' and not V['n'].startswith('__'):
                    p = self.position(v)
                    if p:
                        return ('src',) + p
        return ('other', 'put together')

    def single(self, d, st):
        """the monomial has one variable at most, to a power that goes with the term at hand"""
        if len(self.pieces.get(d, ())) != 1:
            return None
        n = self.pieces[d][0]
        c = [i for i in self.N[n].get('c', ()) if i >= 0][1:]
        if len(c) == 1:
            y = self.N[self.skip(c[0])]
            c = [i for i in y.get('c', ()) if i >= 0] if y['k'] in ('Ctor', 'InitList', 'Call') else []
        if len(c) != 2:
            return None
        g = self.degree(c[1], st)
        return g[1:] if g[0] == 'src' else None

    def partype(self, x, callee, i, j, args):
        if callee is None:
            f = x.get('pt')
            return None
        off = 1 if callee.cls is not None and callee.kind is None and len(args) == len(callee.params) + 1 else 0
        q = j - off
        if q < 0 or q >= len(callee.params):
            return None
        return self.prog.T(callee.vars[callee.params[q]]['t'])

    def constref(self, T):
        return 'const' in T.get('s', '').split('<')[0] or T.get('const') or T.get('pc')

    def member(self, x):
        c = [i for i in x.get('c', ()) if i >= 0]
        return True

    def normlater(self, k):
        base = k.split('[')[0]
        for y in self.N:
            if y['k'] == 'Call' and self.nm(y) in NORM and y.get('c'):
                q = self.key(y['c'][0])
                if q and q.split('[')[0] == base and '[' in q:
                    return True
        return False

    def push(self, n, k, st, d=None):
        if k in self.merged or self.assume:
            self.assumed.add(n)
            return
        v = st.get(k)
        if v is None and k[0] == 'v' and k[1:].isdigit() and int(k[1:]) in self.fn.params and self.prog.T(self.fn.vars[int(k[1:])]['t']).get('ref'):
            self.assumed.add(n)     # adds to what the caller has in the list
            return
        if v is None:
            v = ('S',) if k[0] == 'v' and k[1:].isdigit() and int(k[1:]) in self.fn.params or k == 'this' else ('E',)
        d = self.termmono(n, st) if d is None else d
        if d[0] in ('none', 'fix') and v[0] in 'EW':
            t = self.tested(n)
            if t is not None and (v[0] == 'E' or v[1] == t):
                d = ('src', t, False)
        self.last[k] = n
        w = self.after(v, d, n, st, k) if v[0] != 'S' or not self.behind(n, k) else v
        st[k] = w
        if w[0] != 'U':
            self.proved.add(n)

    def tested(self, n):
        """the position whose monomial a branch just above the node n compares with the constant one"""
        fn = self.fn
        b = self.blockof(n)
        for _ in range(6):
            if b is None:
                return None
            ps = list(fn.preds[b])
            if len(ps) != 1:
                return None
            a = ps[0]
            c = fn.blocks[a].get('cond')
            if c is not None:
                c = self.skip(c)
                if self.N[c]['k'] == 'Ref' and self.N[c]['d'] not in self.mutated and self.inits.get(self.N[c]['d']) is not None:
                    c = self.skip(self.inits[self.N[c]['d']])
                x = self.N[c]
                if x['k'] == 'Bin' and x.get('op') == '==' or x['k'] == 'Call' and (x.get('op') == '==' or self.nm(x) == 'empty'):
                    if fn.blocks[a]['s'] and fn.blocks[a]['s'][0] == b:
                        for q in fn.walk(c):
                            y = self.N[q]
                            if y['k'] == 'Mem' and y.get('n') == 'first' or y['k'] == 'Ref' and y['d'] in self.binds:
                                m = self.mono(q, {})
                                if m[0] == 'src':
                                    return m[1]
            b = a
        return None

    def behind(self, n, k):
        """every way to the node n has found the list k empty or its last monomial in front of the new one"""
        fn = self.fn
        b = self.blockof(n)
        if b is None:
            return False
        ps = [(a, b) for a in fn.preds[b]]
        while len(ps) == 1 and fn.blocks[ps[0][0]].get('cond') is None and len(fn.preds[ps[0][0]]):
            b = ps[0][0]
            ps = [(a, b) for a in fn.preds[b]]
        for a, b in ps:
            B = fn.blocks[a]
            if B.get('cond') is None or len(B['s']) != 2 or B['s'][0] == B['s'][1]:
                return False
            truth = B['s'][0] == b
            c = self.skip(B['cond'])
            while self.N[c]['k'] == 'Un' and self.N[c].get('op') == '!':
                truth = not truth
                c = self.skip(self.N[c]['c'][0])
            x = self.N[c]
            q = [i for i in x.get('c', ()) if i >= 0]
            if x['k'] == 'Call' and self.nm(x) == 'empty' and q and self.key(q[0]) == k and truth:
                continue
            if x['k'] == 'Call' and (self.nm(x) in ('comp', 'operator()')) and len(q) >= 2 and truth:
                y = self.N[self.skip(q[-2])]
                z = [i for i in y.get('c', ()) if i >= 0]
                if y['k'] == 'Mem' and y.get('n') == 'first' and z:
                    w = self.N[self.skip(z[0])]
                    e = [i for i in w.get('c', ()) if i >= 0]
                    if w['k'] == 'Call' and self.nm(w) == 'back' and e and self.key(e[0]) == k:
                        continue
            return False
        return bool(ps)

    def blockof(self, n):
        if self.where is None:
            self.where = {e: b for b, B in self.fn.blocks.items() for e in B['e'] if not isinstance(e, dict)}
        return self.where.get(n)

    def after(self, v, d, n, st, k):
        U = lambda why: ('U', n, why)
        src = None
        if d[0] == 'src':
            src = self.itersrc(d[1]) or self.idx.get(d[1])
            s = self.look(st, src) if src else None
            if s and s[0] == 'U':
                return ('U', s[1], s[2])
        if v[0] == 'U':
            return v
        if v[0] == 'E':
            if d[0] == 'src':
                return ('W', d[1], d[2])
            if d[0] == 'deg':
                return ('D', d[1], d[2], False)
            if d[0] == 'none':
                return ('K',)
            return ('C', d[1] if len(d) > 1 else '')
        if v[0] == 'W':
            if d[0] == 'src' and d[1] == v[1]:
                if not v[2]:
                    return U('two terms are put in for one term of the source')
                return ('W', v[1], d[2])
            if d[0] == 'none':
                return ('K',)
            return U('a term whose place is not known is put in behind others')
        if v[0] == 'D':
            if d[0] == 'deg' and d[1:3] == v[1:3]:
                if not v[3]:
                    return U('two terms are put in for one degree')
                return v[:3] + (False,)
            if d[0] == 'none':
                return ('K',)
            return U('a term whose place is not known is put in behind others')
        if v[0] == 'C':
            if d[0] == 'none' and v[1] not in ('several',):
                return ('K',)
            if d[0] == 'none':
                return ('K',)
            return U('the degrees rise' if v[1] == 'rising' else 'the source is walked backwards' if v[1] == 'backwards' else 'a term whose place is not known is put in behind others')
        if v[0] == 'K':
            return U('a term is put in behind the constant term')
        if d[0] == 'none':
            return ('K',)
        return U('a term whose place is not known is put in behind others')

    def hand(self, i, st, n, what):
        k = self.key(i)
        if k is None:
            return
        for q, v in st.items():
            if q[0] != 'm' and v[0] == 'U' and (q == k or q.startswith(k + '.') or q.startswith(k + '[')):
                t = canon.bare(self.prog.tstr(self.fn.o.get('ret')))
                if q == k and t.startswith('clpoly::basic_polynomial<') and self.isvec(self.skip(i)):
                    self.normed.add(v[1])
                    continue
                self.flag(v, n, what)

    def flag(self, v, n, what):
        self.bad.setdefault(v[1], (v[2], n, what))


def normalises(fn, prog):
    """every path through fn normalises the object itself"""
    N = fn.nodes
    ok = set()
    for b, B in fn.blocks.items():
        for e in B['e']:
            if isinstance(e, dict):
                continue
            x = N[e]
            if x['k'] == 'Call' and x.get('fq', '').split('::')[-1] in NORM | {'operator='} :
                if x.get('fq', '').split('::')[-1] == 'operator=' and not norm_target(prog, x):
                    continue
                c = [i for i in x.get('c', ()) if i >= 0]
                t = fn.text(c[0]) if c else ''
                if 'this' in t or not c:
                    ok.add(b)
    seen, work = set(), [fn.entry]
    while work:
        b = work.pop()
        if b in seen or b in ok:
            continue
        seen.add(b)
        if b == fn.exit:
            return False
        work += [t for t in fn.blocks[b]['s'] if t is not None and t >= 0]
    return True


def norm_target(prog, x):
    g = prog.fns.get(x.get('f'))
    return g is not None and g.cls and g.cls.split('::')[-1] in BITS and takes(g, prog)


def takes(fn, prog):
    return len(fn.params) >= 1 and any(canon.bare(prog.tstr(fn.vars[p]['t'])).startswith(('std::vector<std::pair', 'std::initializer_list<')) for p in fn.params)


def makers(prog, rep, seen):
    n = 0
    for fn in prog.fns.values():
        if not fn.cls or fn.cls.split('::')[-1] not in BITS or not fn.blocks:
            continue
        if (fn.kind == 'ctor' or fn.name == 'operator=') and takes(fn, prog):
            n += 1
            if not normalises(fn, prog):
                key = (fn.file, fn.line, 'ctor')
                if key not in seen:
                    seen.add(key)
                    rep.violation('%s:%s' % (fn.name, 'terms taken over'), '%s: %s takes a list of terms over and does not normalise it on every path' % (fn.loc(), fn.qn))
        elif fn.name == 'normalization':
            n += 1
            if not any(x['k'] == 'Call' and x.get('fq', '').split('::')[-1] == 'pair_vec_normalization' for x in fn.nodes) or not calls_all(fn, 'pair_vec_normalization'):
                key = (fn.file, fn.line, 'norm')
                if key not in seen:
                    seen.add(key)
                    rep.violation('normalization:%s' % fn.cls, '%s: %s does not put the list in order on every path' % (fn.loc(), fn.qn))
    for fn in prog.byqn('clpoly::pair_vec_normalization'):
        if fn.blocks:
            n += 1
            bad = unsorted_use(fn, prog)
            if bad is not None:
                key = (fn.file, fn.nodes[bad]['l'], 'sort')
                if key not in seen:
                    seen.add(key)
                    rep.violation('pair_vec_normalization:sort', '%s: %s puts terms together that have not been sorted by the order given' % (fn.loc(bad), fn.qn))
    return n


def calls_all(fn, name):
    ok = {b for b, B in fn.blocks.items() for e in B['e'] if not isinstance(e, dict) and fn.nodes[e]['k'] == 'Call' and fn.nodes[e].get('fq', '').split('::')[-1] == name}
    seen, work = set(), [fn.entry]
    while work:
        b = work.pop()
        if b in seen or b in ok:
            continue
        seen.add(b)
        if b == fn.exit:
            return False
        work += [t for t in fn.blocks[b]['s'] if t is not None and t >= 0]
    return True


def unsorted_use(fn, prog):
    """a place of pair_vec_normalization that adds coefficients or moves terms before the whole list is known to be sorted"""
    N = fn.nodes
    comp = fn.params[1] if len(fn.params) > 1 else None
    name = lambda x: x.get('fq', '').split('::')[-1]

    def whole(x):
        c = [i for i in x.get('c', ()) if i >= 0]
        return len(c) == 3 and comp is not None and any(N[q]['k'] == 'Ref' and N[q]['d'] == comp for q in fn.walk(c[2])) and not any(N[q]['k'] in ('Un', 'Bin') or N[q]['k'] == 'Call' and N[q].get('op') in ('+', '-', '++', '--') for i in c[:2] for q in fn.walk(i))
    IN = {fn.entry: False}
    work = [fn.entry]
    while work:
        b = work.pop()
        s = IN[b]
        B = fn.blocks[b]
        for e in B['e']:
            if not isinstance(e, dict) and N[e]['k'] == 'Call' and name(N[e]) in ('sort', 'stable_sort') and whole(N[e]):
                s = True
        for j, t in enumerate(B['s']):
            if t is None or t < 0:
                continue
            o = s
            if 'cond' in B and len(B['s']) == 2:
                c = B['cond']
                neg = False
                while True:
                    x = N[c]
                    if x['k'] == 'Un' and x.get('op') == '!':
                        neg = not neg
                        c = x['c'][0]
                    elif x['k'] in ('Cast', 'Paren') and x.get('c'):
                        c = x['c'][0]
                    elif x['k'] == 'Ref' and not neg is None:
                        i = [w.get('i') for y in N if y['k'] == 'Decl' for w in y['vars'] if w['d'] == x['d']]
                        if not i or i[0] is None or i[0] < 0:
                            break
                        c = i[0]
                    else:
                        break
                x = N[c]
                if x['k'] == 'Call' and name(x) == 'is_sorted' and whole(x) and (j == 0) != neg:
                    o = True
            n = o if t not in IN else IN[t] and o
            if t not in IN or n != IN[t]:
                IN[t] = n
                work.append(t)
    for b, s in IN.items():
        for e in fn.blocks[b]['e']:
            if isinstance(e, dict):
                continue
            x = N[e]
            if x['k'] == 'Call' and name(x) in ('sort', 'stable_sort') and whole(x):
                s = True
            if not s and (x['k'] == 'Call' and x.get('op') == '+=' or x['k'] in ('Assign', 'Bin') and x.get('op') == '+=') and 'second' in fn.text(e):
                return e
    return None


RULE = ('every list of terms a function fills is followed along all paths through it: a list is in order while it is empty, holds one term, is filled along a walk over terms '
        'already in order (one term per position, positions only moving forward), by a falling degree, or by a merge decided by T01; in any other case it has to be normalised or '
        'sorted before it is returned, passed on, copied or left in an output')


def run(prop, tier, rep):
    rep.rule = RULE
    seen = set()
    tot = set()
    proved, normed, assumed = set(), set(), set()
    for cfg in (('rel',) if tier == 'quick' else ('rel', 'dbg')):
        prog = ir.load(cfg)
        for fn in prog.fns.values():
            if not fn.blocks or fn.entry is None or fn.cls and fn.cls.split('<')[0].split('::')[-1] in BITS or fn.name in NORM:
                continue
            if not any(x['k'] == 'Call' and x.get('fq', '').split('::')[-1] in ADD | {'operator='} or x['k'] == 'Mem' and x.get('n') == 'first' for x in fn.nodes):
                continue
            f = Fn(fn, prog, rep)
            f.last = {}
            try:
                f.run()
            except Give:
                rep.count('functions not decided')
                continue
            at = lambda s: {(fn.file, fn.nodes[n]['l']) for n in s}
            if f.proved or f.normed or f.assumed or f.bad:
                tot.add((fn.file, fn.line))
            proved |= at(f.proved)
            normed |= at(f.normed)
            assumed |= at(f.assumed)
            for n, (why, at_, what) in f.bad.items():
                key = (fn.file, fn.nodes[n]['l'], what)
                if key in seen:
                    continue
                seen.add(key)
                rep.violation('%s:%s:%s' % (fn.name, fn.text(n)[:60], what), '%s: in %s %s: %s, and the list is %s%s without having been put in order' % (
                    fn.loc(n), fn.qn, fn.text(n)[:80], why, what, ' at line %s' % fn.nodes[at_]['l'] if at_ is not None else ''))
        made = makers(prog, rep, seen)
    rep.count('constructors and normalisations', made)
    rep.need('constructors and normalisations', 10)
    rep.count('functions that fill lists of terms', len(tot))
    rep.count('stores shown in order', len(proved - normed))
    rep.count('stores normalised afterwards', len(normed))
    rep.count('stores whose order is assumed (heaps, merges)', len(assumed))
    rep.need('functions that fill lists of terms', 30)
    rep.need('stores shown in order', 30)
