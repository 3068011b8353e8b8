"""H01: products and quotients that go over a heap of partial products count each of them exactly once.

A function of this kind takes the largest monomial off the heap, adds up the chain of products that have it, puts each chain entry
aside (advanced to its next product), and returns the entries to the heap before it looks for the next monomial.  Decided here:
 - every pass through the chain multiplies once, before it advances, and moves on to the next entry once (paths of the loop body);
 - an entry that has a next product is put aside, with the monomial of that product; one that has not is dropped, or counted as
   waiting where the list it walks still grows (paths of the loop body);
 - the sum is started anew for every monomial, and used only after all entries with that monomial were taken off (must facts);
 - the entries put aside, and those that wait for a new quotient term, are back in the heap before the next one is taken (must facts);
 - the heap keeps every entry it is given: chained before the equal one it displaces, or counted (paths of VHC_insert)."""
import ir
import re

MULS = {'addmul', 'submul'}
NE = ('!=', '<')


def nm(x):
    return x.get('fq', '').split('::')[-1]


class Heap:
    def __init__(self, fn, prog):
        self.fn, self.prog, self.N = fn, prog, fn.nodes
        self.out = []
        self.n = {}
        self.inits = {}
        self.changed = {}
        for i, x in enumerate(self.N):
            if x['k'] == 'Decl':
                for v in x['vars']:
                    if v.get('i') is not None and v['i'] >= 0:
                        self.inits[v['d']] = v['i']
            c = [j for j in x.get('c', ()) if j >= 0]
            t = None
            if x['k'] == 'Assign' or x['k'] == 'Call' and x.get('op') in ('=', '+=', '-='):
                t = c[0] if c else None
            elif x['k'] == 'Un' and x.get('op', '')[-2:] in ('++', '--') or x['k'] == 'Call' and x.get('op') in ('++', '--'):
                t = c[0] if c else None
            elif x['k'] == 'Call' and nm(x) in ('push_back', 'emplace_back') and c:
                t = c[0]
            if t is not None:
                y = self.N[self.skip(t)]
                if y['k'] == 'Ref':
                    self.changed.setdefault(y['d'], []).append(i)

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def skip(self, n):
        while True:
            x = self.N[n]
            c = [i for i in x.get('c', ()) if i >= 0]
            if x['k'] in ('Cast', 'Paren') and c:
                n = c[0]
            elif x['k'] == 'Ctor' and len(c) == 1:
                n = c[0]
            elif x['k'] == 'Call' and nm(x) in ('move', 'forward') and c:
                n = c[-1]
            elif x['k'] == 'Call' and len(c) == 1 and x.get('fq', '').split('::')[-1].startswith('operator ') and x.get('obj'):
                n = c[0]
            else:
                return n

    def entry(self, n):
        """the heap entry an expression names: 'top', ('var', d), or None"""
        n = self.skip(n)
        x = self.N[n]
        if x['k'] == 'Index':
            a, i = self.N[self.skip(x['c'][0])], self.N[self.skip(x['c'][1])]
            if i['k'] == 'Int' and str(i.get('v')) == '0' and a['k'] == 'Ref':
                return 'top'
            return None
        if x['k'] == 'Un' and x.get('op') == '*':
            a = self.N[self.skip(x['c'][0])]
            return 'top' if a['k'] == 'Ref' and '**' in self.prog.tstr(a.get('t')).replace(' ', '') else self.entry(x['c'][0])
        if x['k'] == 'Ref' and 'VHC<' in self.prog.tstr(x.get('t')) and '**' not in self.prog.tstr(x.get('t')).replace(' ', ''):
            V = self.fn.vars[x['d']]
            if self.prog.T(V['t']).get('ref') and x['d'] in self.inits:
                return self.entry(self.inits[x['d']])
            return ('var', x['d'])
        return None

    def member(self, n, f):
        """the entry whose member f the expression is"""
        n = self.skip(n)
        x = self.N[n]
        if x['k'] == 'Mem' and x.get('n') == f and x.get('c'):
            return self.entry(x['c'][0])
        if x['k'] == 'Ref' and x['d'] in self.inits and self.prog.T(self.fn.vars[x['d']]['t']).get('ref'):
            return self.member(self.inits[x['d']], f)
        return None

    def mentions(self, n, f):
        """entries whose member f occurs below n"""
        r = set()
        for q in self.fn.walk(n):
            x = self.N[q]
            if x['k'] == 'Mem' and x.get('n') == f and x.get('c'):
                e = self.entry(x['c'][0])
                if e:
                    r.add(e)
            if x['k'] == 'Ref' and x['d'] in self.inits and not self.changed.get(x['d']) and q != n:
                y = self.inits[x['d']]
                if self.fn.vars[x['d']]['k'] != 'param' and not self.fn.vars[x['d']]['n'].startswith('__'):
                    for z in self.fn.walk(y):
                        w = self.N[z]
                        if w['k'] == 'Mem' and w.get('n') == f and w.get('c') and self.entry(w['c'][0]):
                            r.add(self.entry(w['c'][0]))
        return r

    # ------------------------------------------------------------ the chain
    def loops(self):
        """natural loops, one per way back: (header, latch) -> blocks"""
        fn = self.fn
        order = {b: i for i, b in enumerate(fn.rpo())}
        res = {}
        for b in fn.blocks:
            for t in fn.blocks[b]['s']:
                if t is not None and t >= 0 and t in order and b in order and order[t] <= order[b]:
                    body = {t}
                    w = [b]
                    while w:
                        q = w.pop()
                        if q in body:
                            continue
                        body.add(q)
                        w += list(fn.preds[q])
                    res[(t, b)] = body
        return res

    def events(self, e):
        """what the node e does to the entry at hand: list of (kind, entry, node)"""
        x = self.N[e]
        c = [i for i in x.get('c', ()) if i >= 0]
        if x['k'] == 'Call' and nm(x) in MULS and len(c) == 3:
            a, b = self.mentions(c[1], 'v1_ptr') | self.mentions(c[2], 'v1_ptr'), self.mentions(c[1], 'v2_ptr') | self.mentions(c[2], 'v2_ptr')
            if a or b:
                return [('mul', a, b, e)]
        if (x['k'] == 'Call' and x.get('op') == '++' or x['k'] == 'Un' and x.get('op', '')[-2:] == '++') and c:
            for f in ('v1_ptr', 'v2_ptr'):
                h = self.member(c[0], f)
                if h:
                    return [('inc', h, f, e)]
            return [('plus', None, None, e)]
        if x['k'] == 'Assign' or x['k'] == 'Call' and x.get('op') == '=':
            if len(c) == 2:
                h = self.member(c[0], 'mono')
                if h:
                    return [('mono', h, (self.mentions(c[1], 'v1_ptr'), self.mentions(c[1], 'v2_ptr')), e)]
                t = self.N[self.skip(c[0])]
                s = self.entry(c[1])
                h = self.entry(c[0])
                if self.member(c[1], 'next') is not None and h:
                    return [('next', self.member(c[1], 'next'), h, e)]
                if t['k'] == 'Index' and h is None and s:
                    return [('aside', s, None, e)]
                r = self.N[self.skip(c[1])]
                if t['k'] == 'Index' and r['k'] == 'Index' and '**' in self.prog.tstr(self.N[self.skip(r['c'][0])].get('t')).replace(' ', ''):
                    return [('start', frozenset(self.N[q]['d'] for q in self.fn.walk(r['c'][1]) if self.N[q]['k'] == 'Ref'), None, e)]
        if x['k'] == 'Call' and nm(x) == '__mono_mult__' and len(c) == 3:
            h = self.member(c[0], 'mono')
            if h:
                return [('mono', h, (self.mentions(c[1], 'v1_ptr') | self.mentions(c[2], 'v1_ptr'), self.mentions(c[1], 'v2_ptr') | self.mentions(c[2], 'v2_ptr')), e)]
        if self.helper(e):
            return [('call', None, None, e)]
        return []

    def helper(self, e):
        """a call of another function of the library (or of a lambda) that is given entries: what it does with them is not followed"""
        x = self.N[e]
        if x['k'] != 'Call' or nm(x) in MULS | {'VHC_insert', 'VHC_extract', 'VHC_init', '__mono_mult__'} or x.get('f') not in self.prog.fns:
            return False
        c = [i for i in x.get('c', ()) if i >= 0]
        return nm(x) == 'operator()' and 'lambda' in x.get('fq', '') + self.prog.tstr(self.N[self.skip(c[0])].get('t')) or not x.get('op') and any('VHC<' in self.prog.tstr(self.N[self.skip(i)].get('t')) or self.entry(i) for i in c)

    def branch(self, b, t):
        """the way out of block b to t, if b compares an advanced position with its end: 'more', 'end' or None; and the other side of the comparison"""
        B = self.fn.blocks[b]
        if B.get('cond') is None or len(B['s']) != 2 or B['s'][0] == B['s'][1]:
            return None
        truth = B['s'][0] == t
        n = self.skip(B['cond'])
        while self.N[n]['k'] == 'Un' and self.N[n].get('op') == '!':
            truth = not truth
            n = self.skip(self.N[n]['c'][0])
        if self.N[n]['k'] == 'Ref' and self.N[n]['d'] in self.inits:
            n = self.skip(self.inits[self.N[n]['d']])
        x = self.N[n]
        c = [i for i in x.get('c', ()) if i >= 0]
        op = x.get('op')
        if op not in ('!=', '==', '<') or len(c) != 2:
            return None
        for a, o in ((c[0], c[1]), (c[1], c[0])):
            y = self.N[self.skip(a)]
            z = [i for i in y.get('c', ()) if i >= 0]
            inc = (y['k'] == 'Call' and y.get('op') == '++' or y['k'] == 'Un' and y.get('op') == 'pre++' or y['k'] == 'Un' and y.get('op') == '++') and z
            for f in ('v1_ptr', 'v2_ptr'):
                if self.member(z[0] if inc else a, f):
                    return ('more' if (op != '==') == truth else 'end'), o, f, bool(inc)
        return None

    def grows(self, o):
        """the end compared with belongs to something the function still makes longer"""
        for q in self.fn.walk(o):
            x = self.N[q]
            if x['k'] == 'Ref' and any(self.N[w]['k'] == 'Un' and self.N[w].get('op', '')[-2:] == '++' or nm(self.N[w]) in ('push_back', 'emplace_back') for w in self.changed.get(x['d'], ())):
                return True
        return False

    def chain(self):
        fn = self.fn
        L = self.loops()
        self.hdr = None
        muls = [(b, e) for b, B in fn.blocks.items() for e in B['e'] if not isinstance(e, dict) and any(v[0] == 'mul' for v in self.events(e))]
        if not muls:
            return False
        b0 = muls[0][0]
        own = [(len(body), h) for h, body in L.items() if b0 in body]
        if not own:
            return False
        h = min(own)[1]
        body = L[h]
        h = h[0]
        if any(o[0] != h and o[0] in body for o in L):
            return False
        if not all(b in body for b, e in muls):
            return False
        # the loop goes along the chain: something in it moves on to the next entry
        if not any(v[0] == 'next' for b in body for e in fn.blocks[b]['e'] if not isinstance(e, dict) for v in self.events(e)):
            return False
        if any(v[0] == 'call' for b in body for e in fn.blocks[b]['e'] if not isinstance(e, dict) for v in self.events(e)):
            return False
        paths = []

        def go(b, acc, seen):
            if len(paths) > 64:
                return
            acc = acc + [v for e in fn.blocks[b]['e'] if not isinstance(e, dict) for v in self.events(e)]
            for t in fn.blocks[b]['s']:
                if t is None or t < 0 or t not in body:
                    continue
                a = acc
                r = self.branch(b, t)
                if r:
                    a = acc + [(r[0], r[1], r[2], fn.blocks[b]['cond'])]
                elif fn.blocks[b].get('cond') is not None:
                    n = self.skip(fn.blocks[b]['cond'])
                    ns = [n] + ([self.inits[self.N[n]['d']]] if self.N[n]['k'] == 'Ref' and self.N[n]['d'] in self.inits else [])
                    a = acc + [('if', frozenset(self.N[q]['d'] for m in ns for q in fn.walk(m) if self.N[q]['k'] == 'Ref'), None, fn.blocks[b]['cond'])]
                if t == h:
                    paths.append(a)
                elif t not in seen:
                    go(t, a, seen | {t})
        go(h, [], {h})
        if not paths or len(paths) > 64:
            return False
        self.count('chain loops')
        # rows started late: entries that join when the first product of the row before is taken
        st = [v for p in paths for v in p if v[0] == 'start']
        rows = frozenset().union(*(v[1] for v in st)) if st else None
        if rows is None and self.rows():
            self.out.append((muls[0][1], 'the rows after the first never join the heap'))
        for p in paths:
            self.count('paths through a chain')
            self.path(p, rows)
        self.body = body
        return True

    def rows(self):
        """the heap starts with the first of several entries stored in it"""
        one, many = False, False
        for x in self.N:
            c = [i for i in x.get('c', ()) if i >= 0]
            if x['k'] == 'Decl':
                for v in x['vars']:
                    if v.get('i') is not None and v['i'] >= 0 and str(self.N[self.skip(v['i'])].get('v')) == '1' and v['d'] in self.sizes():
                        one = True
            if x['k'] == 'Assign' and len(c) == 2:
                t, r = self.N[self.skip(c[0])], self.N[self.skip(c[1])]
                if t['k'] == 'Index' and self.N[self.skip(t['c'][1])]['k'] == 'Ref' and '**' in self.prog.tstr(self.N[self.skip(t['c'][0])].get('t')).replace(' ', '') and (r['k'] == 'Bin' or nm(r) == 'VHC_init'):
                    many = True
        return one and many

    def sizes(self):
        r = set()
        for x in self.N:
            if x['k'] == 'Call' and nm(x) in ('VHC_extract', 'VHC_insert'):
                a = [i for i in x['c'] if i >= 0]
                if len(a) > 1 and self.N[self.skip(a[1])]['k'] == 'Ref':
                    r.add(self.N[self.skip(a[1])]['d'])
        return r

    def side(self, o):
        """'begin', 'end' or '': what the expression a position is compared with is"""
        o = self.skip(o)
        x = self.N[o]
        if x['k'] == 'Ref' and x['d'] in self.inits and not self.changed.get(x['d']):
            return self.side(self.inits[x['d']])
        if x['k'] == 'Call' and nm(x) in ('begin', 'cbegin', 'end', 'cend'):
            return nm(x).lstrip('c')
        return ''

    def path(self, p, rows=None):
        bad = lambda n, why: self.out.append((n, why))
        k = [v[0] for v in p]
        mu = [v for v in p if v[0] == 'mul']
        inc = [v for v in p if v[0] == 'inc']
        nx = [v for v in p if v[0] == 'next']
        end = [v for v in p if v[0] in ('more', 'end')]
        last = p[-1][3] if p else None
        if not mu:
            return bad(last, 'an entry of the chain is passed over without its product being added')
        if len(mu) > 1:
            return bad(mu[1][3], 'the product of an entry is added twice')
        if len(mu[0][1]) != 1 or mu[0][1] != mu[0][2]:
            return bad(mu[0][3], 'the product is not that of the two terms of one entry') if mu[0][1] and mu[0][2] else bad(mu[0][3], 'the product takes only one of the two terms of the entry')
        if len(nx) == 0:
            return bad(last, 'the chain does not move on to its next entry')
        if len(nx) > 1:
            return bad(nx[1][3], 'the chain moves on twice')
        if len(inc) == 0:
            return bad(last, 'the entry does not move on to its next product')
        if len(inc) > 1:
            return bad(inc[1][3], 'the entry moves on by two products')
        i = p.index(inc[0])
        if p.index(mu[0]) > i:
            return bad(mu[0][3], 'the entry moves on before its product was added')
        h = inc[0][1]
        if p.index(nx[0]) < i and h == 'top' and nx[0][2] == 'top':
            return bad(inc[0][3], 'the chain moves on before the entry does: the wrong entry is advanced')
        if not end or p.index(end[-1]) < i:
            return bad(inc[0][3], 'it is not looked at whether the entry has a next product')
        if any(self.side(q) == 'begin' for q in self.fn.walk(end[-1][3])):
            return bad(end[-1][3], 'the entry that moved on is compared with the start of its list')
        if rows:
            st = [v for v in p if v[0] == 'start']
            first = [v for v in end if p.index(v) < i]
            left = [v for v in p if v[0] == 'if' and v[1] & rows]
            if len(st) > 1:
                return bad(st[1][3], 'two rows join the heap at once')
            if st and not first:
                return bad(st[0][3], 'a row joins the heap with every product of the one before')
            if st and first[-1][0] != 'end':
                return bad(st[0][3], 'a row joins the heap with a product that is not the first of the row before')
            if st and not left:
                return bad(st[0][3], 'a row joins the heap though none may be left')
            if first and first[-1][0] == 'end' and not st and not left:
                return bad(first[-1][3], 'no row joins the heap with the first product of the one before')
        aside = [v for v in p if v[0] == 'aside' and v[1] == h]
        late = [v for v in aside if h == 'top' and nx[0][2] == 'top' and p.index(v) > p.index(nx[0])]
        mono = [v for v in p if v[0] == 'mono' and v[1] == h and p.index(v) > i]
        if end[-1][0] == 'more':
            if not aside:
                return bad(end[-1][3], 'an entry that has a next product is not kept')
            if late:
                return bad(late[0][3], 'the next entry is kept instead of the one that has moved on')
            if len(aside) > 1:
                return bad(aside[1][3], 'an entry is kept twice')
            if not mono:
                return bad(aside[0][3], 'an entry is kept with the monomial of its last product')
            if h == 'top' and nx[0][2] == 'top' and p.index(mono[0]) > p.index(nx[0]):
                return bad(mono[0][3], 'the monomial is written to the next entry')
            a, b = mono[0][2]
            if a != {h} or b != {h}:
                # (one factor may have been looked up through another list)
                if not a or not b:
                    return bad(mono[0][3], 'the monomial of the next product leaves one of its factors out')
        else:
            if aside:
                return bad(aside[0][3], 'an entry without a next product is kept')
            if self.grows(end[-1][1]) and not any(v[0] == 'plus' for v in p):
                return bad(end[-1][3], 'an entry at the end of a list that still grows is forgotten')

    def divd(self, n):
        """the variables that say where the term is whose monomial the expression is, if it is that of a term of a list"""
        n = self.skip(n)
        x = self.N[n]
        if x['k'] == 'Ref' and x['d'] in self.inits and not self.changed.get(x['d']) and self.prog.T(self.fn.vars[x['d']]['t']).get('ref'):
            return self.divd(self.inits[x['d']])
        if x['k'] != 'Mem' or x.get('n') != 'first' or not x.get('c'):
            return set()
        r, w = set(), [x['c'][0]]
        while w:
            i = w.pop()
            for q in self.fn.walk(i):
                y = self.N[q]
                if y['k'] == 'Mem' and y.get('n') in ('v1_ptr', 'v2_ptr', 'mono'):
                    return set()
                if y['k'] == 'Ref':
                    if y['d'] in self.inits and not self.changed.get(y['d']) and self.prog.T(self.fn.vars[y['d']]['t']).get('ref') and self.fn.vars[y['d']]['k'] != 'param':
                        w.append(self.inits[y['d']])
                    elif self.changed.get(y['d']):
                        r.add(y['d'])
        return r

    # ------------------------------------------------------------ must facts over the function
    def facts(self):
        fn, N = self.fn, self.N
        calls = [e for b, B in fn.blocks.items() for e in B['e'] if not isinstance(e, dict) and N[e]['k'] == 'Call']
        if not any(nm(N[e]) == 'VHC_extract' for e in calls):
            return
        mul = [e for e in calls if any(v[0] == 'mul' for v in self.events(e))]
        kd = {N[self.skip(N[e]['c'][0])].get('d') for e in mul if N[self.skip(N[e]['c'][0])]['k'] == 'Ref'}
        md = set()
        for b, B in fn.blocks.items():
            for e in B['e']:
                if isinstance(e, dict):
                    continue
                x = N[e]
                c = [i for i in x.get('c', ()) if i >= 0]
                if (x['k'] == 'Assign' or x['k'] == 'Call' and x.get('op') == '=') and len(c) == 2 and self.member(c[1], 'mono') == 'top' and N[self.skip(c[0])]['k'] == 'Ref':
                    md.add(N[self.skip(c[0])]['d'])
        if len(kd) != 1 or len(md) != 1 or any(self.helper(e) for e in calls):
            return
        k, m = kd.pop(), md.pop()
        # the position in the dividend
        dvs = set()
        for b, B in fn.blocks.items():
            for e in B['e']:
                if not isinstance(e, dict):
                    x = N[e]
                    c = [i for i in x.get('c', ()) if i >= 0]
                    if (x['k'] == 'Assign' or x['k'] == 'Call' and x.get('op') == '=') and len(c) == 2 and N[self.skip(c[0])].get('d') == m and N[self.skip(c[0])]['k'] == 'Ref':
                        dvs |= self.divd(c[1])
        # counters of the entries put aside, and of those waiting
        lins, waits = set(), set()
        for e in calls:
            if nm(N[e]) == 'VHC_insert':
                a = [i for i in N[e]['c'] if i >= 0]
                if len(a) < 3:
                    continue
                x = N[self.skip(a[2])]
                for q in fn.walk(a[2]):
                    y = N[q]
                    if y['k'] == 'Ref' and self.prog.T(fn.vars[y['d']]['t']).get('int') and x['k'] != 'Index':
                        waits.add(y['d'])
        for b, B in fn.blocks.items():
            for e in B['e']:
                if not isinstance(e, dict) and any(v[0] == 'aside' for v in self.events(e)):
                    t = self.skip([i for i in N[e]['c'] if i >= 0][0])
                    lins |= {N[q]['d'] for q in fn.walk(t) if N[q]['k'] == 'Ref' and self.prog.T(fn.vars[N[q]['d']]['t']).get('int')}
        if len(lins) != 1:
            return
        lin = next(iter(lins))
        waits -= lins

        # what becomes of a sum: quotient, remainder, product
        outs = [p for p in fn.params if 'vector<' in self.prog.tstr(fn.vars[p]['t']) and not self.prog.T(fn.vars[p]['t']).get('const') and 'const' not in self.prog.tstr(fn.vars[p]['t']).split('<')[0]]
        keep = {k} if not dvs or len(outs) > 1 else set()
        for e in calls:
            if nm(N[e]) == '__div':
                a = [self.skip(i) for i in N[e]['c'] if i >= 0]
                if any(N[i].get('d') == k for i in a[len(a) - 2:]):
                    keep |= {N[i]['d'] for i in a[:len(a) - 2] if N[i]['k'] == 'Ref'}
        flags = set()
        for d, at in self.changed.items():
            if any(N[i].get('op') == '|=' for i in at) or any(N[i]['k'] == 'Assign' and N[i].get('op', '=') == '=' and str(N[self.skip(N[i]['c'][1])].get('v', '')).lower() in ('1', 'true') for i in at):
                if d not in keep | {k, m, lin} | waits:
                    flags.add(d)

        def cond(n, truth):
            n = self.skip(n)
            x = N[n]
            c = [i for i in x.get('c', ()) if i >= 0]
            if x['k'] == 'Un' and x.get('op') == '!':
                return cond(c[0], not truth)
            if x['k'] == 'Bin' and x.get('op') in ('&&', '||'):
                a, b = cond(c[0], truth), cond(c[1], truth)
                return a | b if (x['op'] == '&&') == truth else a & b
            if x['k'] == 'Ref' and x['d'] in self.inits and not self.changed.get(x['d']) and self.prog.tstr(x.get('t')).replace('const ', '') == 'bool':
                return cond(self.inits[x['d']], truth)
            if x['k'] == 'Ref' and not truth:
                return (zero(x['d']) if self.prog.T(fn.vars[x['d']]['t']).get('int') else frozenset()) | {('put', x['d'])}
            if x['k'] == 'Ref' and truth and x['d'] in flags:
                return frozenset({'x'})
            if x['k'] == 'Call' and x.get('op') == '()' and 'zore_check' in x.get('fq', '') and truth:
                y = N[self.skip(c[-1])]
                return frozenset({('put', y['d'])} if y['k'] == 'Ref' else ())
            op = x.get('op')
            ab = c[1:] if x['k'] == 'Call' and op == '()' and len(c) == 3 else c if op in ('<', '>', '<=', '>=') and len(c) == 2 else ()
            if ab:
                w = ['top' if self.member(i, 'mono') == 'top' else 'div' if self.divd(i) else '' for i in ab]
                if w in (['top', 'div'], ['div', 'top']):
                    g = '>' if op == '()' else op
                    if not truth:
                        g = {'>': '<=', '<': '>=', '>=': '<', '<=': '>'}[g]
                    if w[0] == 'div':
                        g = {'>': '<', '<': '>', '>=': '<=', '<=': '>='}[g]
                    # g: the top of the heap compared with the next term of the dividend
                    return frozenset({'hp'} if g == '>' else {'dv'} if g in ('<', '<=') else ())
            if op in ('==', '!=', '<') and len(c) == 2:
                for a, o in ((c[0], c[1]), (c[1], c[0])):
                    y = N[self.skip(a)]
                    if y['k'] == 'Ref' and y['d'] in dvs and (self.side(o) == 'end' or nm(N[self.skip(o)]) == 'size') and (op == '==') == truth:
                        return frozenset({'hp', 'v1e'})
            if op in ('==', '!=', '>', '<', '>=', '<=') and len(c) == 2:
                y, z = N[self.skip(c[0])], N[self.skip(c[1])]
                if y['k'] == 'Int' and op in ('<', '!=', '=='):
                    y, z, op = z, y, {'<': '>'}.get(op, op)
                if y['k'] == 'Ref' and z['k'] == 'Int' and str(z.get('v')) == '0':
                    if op in ('>', '!=') and not truth or op == '==' and truth or op == '<=' and truth:
                        return zero(y['d']) | {('put', y['d'])}
                    if y['d'] in flags and (op == '!=' and truth or op == '==' and not truth):
                        return frozenset({'x'})
                    return frozenset()
                tm = (self.member(c[0], 'mono'), self.member(c[1], 'mono'))
                ms = [N[self.skip(i)].get('d') for i in c]
                if 'top' in tm and m in ms and (op == '==' and not truth or op == '!=' and truth):
                    return frozenset({'done'})
            return frozenset()

        def zero(d):
            r = set()
            if d in sizes:
                r |= {'done', 'dv', 'hz'}
            if d == lin:
                r.add('lin')
            if d in waits:
                r.add('wait')
            return frozenset(r)
        sizes = set()
        for e in calls:
            if nm(N[e]) in ('VHC_extract', 'VHC_insert'):
                a = [i for i in N[e]['c'] if i >= 0]
                y = N[self.skip(a[1])]
                if y['k'] == 'Ref':
                    sizes.add(y['d'])
        grown = set()
        for b in getattr(self, 'body', ()):
            for t in fn.blocks[b]['s']:
                if t is not None and t >= 0:
                    r = self.branch(b, t)
                    if r:
                        for q in fn.walk(r[1]):
                            if N[q]['k'] == 'Ref':
                                grown.add(N[q]['d'])
        self.count('heap loops')

        def step(e, s, report):
            x = N[e]
            c = [i for i in x.get('c', ()) if i >= 0]
            if x['k'] == 'Decl':
                for v in x['vars']:
                    if v['d'] == lin and v.get('i') is not None and v['i'] >= 0 and str(N[self.skip(v['i'])].get('v')) == '0':
                        s = s | {'lin'}
                    if v.get('i') is not None and v['i'] >= 0 and not self.prog.T(fn.vars[v['d']]['t']).get('int') and self.prog.tstr(fn.vars[v['d']]['t']).replace('const ', '') != 'bool':
                        s = s | {('put', N[q]['d']) for q in fn.walk(v['i']) if N[q]['k'] == 'Ref' and N[q]['d'] in keep}
                    if v['d'] == k:
                        s = (s | {'kc', 'kok'}) if v.get('i') is not None else s - {'kc', 'kok'}
                return s
            if x['k'] == 'Assign' and x.get('op', '=') == '=' or x['k'] == 'Call' and x.get('op') == '=':
                t = N[self.skip(c[0])] if c else {'k': ''}
                if t['k'] == 'Ref' and t['d'] in flags and str(N[self.skip(c[1])].get('v', '')).lower() in ('1', 'true'):
                    return s | {'x'}
                if t['k'] == 'Ref' and t['d'] == k:
                    return (s | {'kc', 'kok'}) - {('put', k)}
                if t['k'] == 'Ref' and t['d'] == m:
                    if report and dvs:
                        self.count('obligations')
                        if self.member(c[1], 'mono') == 'top' and 'hp' not in s:
                            self.out.append((e, 'the monomial is taken from the heap although the next term of the dividend may be as large'))
                        if self.divd(c[1]) and 'dv' not in s:
                            self.out.append((e, 'the monomial is taken from the dividend although a larger one may be in the heap'))
                        if 'took' in s:
                            self.out.append((e, 'a term of the dividend is taken twice'))
                        elif not self.divd(c[1]) and 'even' not in s or self.divd(c[1]) and not {'even', 'ahead'} & s:
                            self.out.append((e, 'a term of the dividend may be taken twice or passed over'))
                    if self.divd(c[1]):
                        s = s - {'even', 'took', 'ahead'} | ({'even'} if 'ahead' in s else {'took'})
                    if report:
                        for d in keep:
                            self.count('obligations')
                            if ('put', d) not in s:
                                self.out.append((e, 'the next monomial is taken while %s may be lost' % ('the sum' if d == k else 'a coefficient from dividing it')))
                    s = s - {'hp', 'dv', 'x', 'hz'}
                    if report:
                        self.count('obligations')
                        if 'lin' not in s:
                            self.out.append((e, 'the next monomial is taken while entries put aside may not be back in the heap'))
                        if waits and 'wait' not in s and 'first' not in s:
                            self.out.append((e, 'the next monomial is taken while entries waiting for the new quotient term may not be in the heap'))
                    s = s - {'done'}
                    if 'kc' not in s:
                        s = s - {'kok'}
                    return s
                if t['k'] == 'Ref' and t['d'] == lin:
                    z = N[self.skip(c[1])]
                    return s | {'lin'} if str(z.get('v')) == '0' else s - {'lin'}
                if any(v[0] == 'aside' for v in self.events(e)):
                    return s - {'lin'}
                if t['k'] == 'Index' and any(N[q]['k'] == 'Ref' and N[q]['d'] == lin for q in fn.walk(c[0])):
                    return s - {'lin'}
                return s
            if (x['k'] == 'Un' and x.get('op', '')[-2:] == '++' or x['k'] == 'Call' and x.get('op') == '++') and N[self.skip(c[0])].get('d') in dvs:
                if report:
                    self.count('obligations')
                    if 'ahead' in s:
                        self.out.append((e, 'a term of the dividend is passed over'))
                s = s - {'even', 'took', 'ahead'} | ({'even'} if 'took' in s else {'ahead'} if 'even' in s else set())
                return s if 'ahead' in s else s - {'hp', 'dv'}
            if x['k'] == 'Un' and x.get('op', '')[-2:] == '++' and N[self.skip(c[0])].get('d') == lin:
                return s - {'lin'}
            if x['k'] == 'Un' and x.get('op', '')[-2:] == '++' and N[self.skip(c[0])].get('d') in grown and waits:
                return s - {'wait', 'first'}
            if x['k'] == 'Call':
                if nm(x) == 'set_zero' and c and N[self.skip(c[0])].get('d') == k:
                    return s | {'kc', 'kok'}
                if e in mul:
                    if report:
                        self.count('obligations')
                        if 'kok' not in s:
                            self.out.append((e, 'the sum may still hold what was added for an earlier monomial'))
                    return s - {'kc', ('put', k)}
                if nm(x) == '__div':
                    a = [self.skip(i) for i in c]
                    if report and any(N[i].get('d') == k for i in a[len(a) - 2:]) and 'done' not in s:
                        self.out.append((e, 'the sum is used although the heap may still hold products with the same monomial'))
                    return (s | {('put', N[i]['d']) for i in a[len(a) - 2:] if N[i]['k'] == 'Ref'}) - {('put', N[i]['d']) for i in a[:len(a) - 2] if N[i]['k'] == 'Ref'}
                if nm(x) in ('push_back', 'emplace_back'):
                    s = s | {('put', N[q]['d']) for i in c[1:] for q in fn.walk(i) if N[q]['k'] == 'Ref'}
                if nm(x) in ('VHC_extract', 'VHC_insert'):
                    return s - {'done', 'hp', 'dv'} - ({'x', 'hz'} if nm(x) == 'VHC_insert' else set())
                if nm(x) in ('push_back', 'emplace_back') and c and N[self.skip(c[0])].get('d') in grown and waits:
                    return s - {'wait', 'first'}
                if any(N[self.skip(i)]['k'] == 'Ref' and N[self.skip(i)]['d'] == k for i in c) and nm(x) not in ('move', 'forward', 'set_zero'):
                    if report:
                        self.count('obligations')
                        if 'done' not in s:
                            self.out.append((e, 'the sum is used although the heap may still hold products with the same monomial'))
                return s
            return s
        IN = {fn.entry: frozenset({'first', 'wait', 'done', 'even', 'x'} | {('put', d) for d in keep})}
        work = [fn.entry]
        while work:
            b = work.pop()
            s = IN[b]
            B = fn.blocks[b]
            for e in B['e']:
                if not isinstance(e, dict):
                    s = step(e, s, False)
            for j, t in enumerate(B['s']):
                if t is None or t < 0:
                    continue
                o = s
                if B.get('cond') is not None and len(B['s']) == 2:
                    o = s | cond(B['cond'], j == 0)
                    if 'hz' in o and ('v1e' in o or not dvs):
                        o = o | {'x'}
                q = o if t not in IN else IN[t] & o
                if t not in IN or q != IN[t]:
                    IN[t] = q
                    work.append(t)
        for b, s in IN.items():
            last = None
            for e in fn.blocks[b]['e']:
                if not isinstance(e, dict):
                    s = step(e, s, True)
                    last = e
            if fn.exit in fn.blocks[b]['s'] and last is not None and N[last]['k'] != 'Throw':
                if N[last]['k'] == 'Return' and any(str(N[self.skip(i)].get('v', '')).lower() in ('0', 'false') for i in N[last].get('c', ()) if i >= 0):
                    continue
                self.count('obligations')
                if 'x' not in s:
                    self.out.append((last, 'the function ends while %s' % ('terms of the dividend or products in the heap may be left' if dvs else 'products may be left in the heap')))
                elif any(('put', d) not in s for d in keep):
                    self.out.append((last, 'the function ends while the last sum may be lost'))


def insert(fn, prog, out):
    """VHC_insert: on every path the new entry is stored, and either chained before the entry it displaces (whose monomial is equal) or counted"""
    H = Heap(fn, prog)
    N = fn.nodes
    if len(fn.params) < 4:
        return 0
    new, size = fn.params[2], fn.params[1]
    if any(H.helper(e) for b, B in fn.blocks.items() for e in B['e'] if not isinstance(e, dict)):
        return 0
    paths = []

    def go(b, acc, seen):
        if len(paths) > 200:
            return
        B = fn.blocks[b]
        acc = acc + [('e', e) for e in B['e'] if not isinstance(e, dict)]
        if b == fn.exit:
            paths.append(acc)
            return
        for j, t in enumerate(B['s']):
            if t is None or t < 0 or t in seen:
                continue
            a = acc + ([('c', B['cond'], j == 0)] if B.get('cond') is not None and len(B['s']) == 2 else [])
            if t in seen:
                continue
            go(t, a, seen | {t})
    go(fn.entry, [], {fn.entry})
    text = lambda n: re.sub(r'\s', '', fn.text(H.skip(n)))
    for p in paths:
        store, nxt, cnt, eq, at = [], [], 0, set(), []
        for pi, v in enumerate(p):
            x = N[v[1]]
            c = [i for i in x.get('c', ()) if i >= 0]
            if v[0] == 'c':
                y = N[H.skip(v[1])]
                z = [i for i in y.get('c', ()) if i >= 0]
                if y.get('op') == '==' and v[2] and len(z) == 2:
                    eq |= {text(i).replace('->mono', '') for i in z}
                continue
            if x['k'] == 'Un' and x.get('op', '')[-2:] == '++' and N[H.skip(c[0])].get('d') == size:
                cnt += 1
            if x['k'] == 'Assign' and len(c) == 2:
                t, r = N[H.skip(c[0])], N[H.skip(c[1])]
                if t['k'] == 'Ref' and t['d'] == size:
                    cnt += 1
                if t['k'] == 'Index' and r['k'] == 'Ref' and r.get('d') == new:
                    store.append(text(c[0]))
                    at.append(pi)
                if t['k'] == 'Mem' and t.get('n') == 'next' and N[H.skip(t['c'][0])].get('d') == new:
                    if r['k'] == 'Ref' and r['d'] in H.inits and not H.changed.get(r['d']):
                        d = next((n for n, q in enumerate(p) if q[0] == 'e' and N[q[1]]['k'] == 'Decl' and any(z['d'] == r['d'] for z in N[q[1]]['vars'])), None)
                        i = H.inits[r['d']]
                        nxt.append((text(i), N[H.skip(i)]['k'], sum(1 for z in at if d is not None and z < d)))
                    else:
                        nxt.append((text(c[1]), r['k'], len(store)))
        last = next((v[1] for v in reversed(p) if v[0] == 'e'), None)
        if not store:
            out.append((last, 'an entry given to the heap is not stored on some path'))
        elif not nxt:
            out.append((last, 'an entry is stored with its old chain'))
        else:
            v, kind, before = nxt[-1]
            if kind == 'Index':
                if v != store[-1] or before:
                    out.append((last, 'the chain of the entry displaced is lost'))
                elif v not in eq:
                    out.append((last, 'an entry is chained to one with another monomial'))
                elif cnt:
                    out.append((last, 'the heap counts an entry that is in a chain'))
            elif not cnt:
                out.append((last, 'the heap does not count the entry stored'))
            elif cnt > 1:
                out.append((last, 'the heap counts an entry twice'))
    return len(paths)


RULE = __doc__.split('\n\n', 1)[1]


def run(prop, tier, rep):
    rep.rule = ' '.join(RULE.split())
    seen = set()
    tot = {}
    for cfg in (('rel',) if tier == 'quick' else ('rel', 'dbg')):
        prog = ir.load(cfg)
        for fn in prog.fns.values():
            if not fn.blocks or fn.entry is None:
                continue
            out = []
            if fn.name == 'VHC_insert':
                key = (fn.file, fn.line)
                n = insert(fn, prog, out)
                tot.setdefault('paths of VHC_insert', {})[key] = n
            elif any(x['k'] == 'Mem' and x.get('n') in ('v1_ptr', 'v2_ptr') for x in fn.nodes) and any(x['k'] == 'Call' and nm(x) in MULS | {'VHC_extract'} for x in fn.nodes):
                H = Heap(fn, prog)
                if H.chain():
                    H.facts()
                else:
                    tot.setdefault('functions not decided', {})[(fn.file, fn.line)] = 1
                for k, n in H.n.items():
                    tot.setdefault(k, {})[(fn.file, fn.line)] = n
                out = H.out
            for n, why in out:
                key = (fn.file, fn.nodes[n]['l'], why)
                if key in seen:
                    continue
                seen.add(key)
                rep.violation('%s:%s' % (fn.name, why), '%s: in %s: %s' % (fn.loc(n), fn.qn, why))
    for k, d in sorted(tot.items()):
        rep.count(k, sum(d.values()))
    rep.need('chain loops', 1)
