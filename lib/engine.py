"""Forward dataflow engine with must-facts, boolean-conditional facts and provenance sets, over (inlined) functions.

State: facts   set of tuples (kind, args...); a fact dies when a place it mentions is written.
       prov    {place: frozenset(tokens)}  where the value of the place may come from (may-analysis).
       aux     frozenset of client tuples (may-analysis, joined by union).
Facts about booleans are kept as ('if', var, truth, fact), so a test stored in a flag and used later still counts."""
import flow
from flow import Flow, overlap

E0 = frozenset()


def isplace(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and x[0] and x[0][0] in ('v', 'this', 'g', 't', '?') and isinstance(x[1], tuple)


_deps = {}


def deps(f):
    r = _deps.get(f)
    if r is None:
        s = set()
        if f[0] == 'if':
            s.add((('v', f[1]), ()))
            s |= deps(f[3])
        elif f[0] == 'const':
            s.add((('v', f[1]), ()))
        elif f[0] == 'imp':         # f[3] holds whenever places f[1] and f[2] differ
            s.add(f[1])
            s.add(f[2])
            s |= deps(f[3])
        else:
            for a in f[1:]:
                if isplace(a):
                    s.add(a)
        r = _deps[f] = frozenset(s)
    return r


def subst(f, m):
    """replace places in f by m(place)"""
    if f[0] == 'if':
        return ('if', f[1], f[2], subst(f[3], m))
    if f[0] == 'imp':
        return ('imp', m(f[1]), m(f[2]), subst(f[3], m))
    return tuple(m(a) if isplace(a) else a for a in f)


class State:
    __slots__ = ('facts', 'prov', 'aux')

    def __init__(self, facts=E0, prov=None, aux=E0):
        self.facts = facts
        self.prov = prov if prov is not None else {}
        self.aux = aux

    def copy(self):
        return State(self.facts, dict(self.prov), self.aux)

    def same(self, o):
        return self.facts == o.facts and self.aux == o.aux and self.prov == o.prov


class Engine:
    """client methods: init(st), atom(cond, truth, st) -> facts, before(n, st), after(n, st), settled(st), value(n, st)"""
    OVERWRITE = {'poly_convert': (1, 2), 'pair_vec_multiplies': (0,), 'pair_vec_add': (0,), 'pair_vec_sub': (0,), 'pair_vec_negate': (0,)}
    trunc = 2

    def __init__(self, fn):
        self.fn = fn
        self.prog = fn.prog
        self.fl = Flow(fn)
        self.recording = False
        self.iters = 0

    # ---- hooks
    def init(self, st):
        pass

    def atom(self, n, truth, st):
        return ()

    def before(self, n, st):
        pass

    def after(self, n, st):
        pass

    def settled(self, st):
        pass

    def call_value(self, n, st):
        return None

    def call_effect(self, n, st, written):
        return False

    def place_tokens(self, p, st):
        return E0

    def edge_hook(self, b, j, t, st):
        pass

    def member_init(self, field, n, st):
        self.set((('this',), (field,)), self.value(n, st), st, True)

    # ---- facts
    def kill(self, st, p):
        if not st.facts:
            return
        dead = [f for f in st.facts if any(overlap(p, q) for q in deps(f)) and not self.survives(f, p)]
        if dead:
            st.facts = st.facts - frozenset(dead)

    def survives(self, f, p):
        return False

    def add(self, st, fs):
        if fs:
            st.facts = st.facts | frozenset(fs)

    def holds(self, st, f):
        if f in st.facts:
            return True
        if f[0] == 'if':
            return f[3] in st.facts or ('const', f[1], not f[2]) in st.facts
        return False

    # ---- conditions
    def strip(self, n):
        x = self.fn.nodes[n]
        while x['k'] in ('Cast', 'Paren') or x['k'].endswith('CastExpr') or x['k'] == 'Call' and x.get('fq', '').endswith('operator bool'):
            c = [i for i in x.get('c', ()) if i >= 0]
            if not c:
                break
            n = c[0]
            x = self.fn.nodes[n]
        return n

    def boolval(self, n):
        x = self.fn.nodes[n]
        if x['k'] == 'Bool':
            return x['v'] in ('1', 'true', True)
        if x['k'] == 'Int':
            return x['v'] not in ('0', 0)
        return None

    def cond_facts(self, n, truth, st):
        n0 = n
        n = self.skip(n)
        if n < 0:
            return frozenset()
        x = self.fn.nodes[n]
        k = x['k']
        c = x.get('c', [])
        if k == 'Un' and x['op'] == '!':
            return self.cond_facts(c[0], not truth, st)
        if k == 'Bin' and x['op'] in ('&&', '||'):
            a = self.cond_facts(c[0], truth, st)
            if (x['op'] == '&&') == truth:
                if a:
                    st = st.copy()
                    self.add(st, a)
                return a | self.cond_facts(c[1], truth, st)
            b = self.cond_facts(c[1], truth, st)
            r = a & b
            for this, other, facts in ((c[0], c[1], b), (c[1], c[0], a)):
                pq = self.differ(this, not truth)
                if pq:
                    r |= frozenset(('imp', pq[0], pq[1], f) for f in facts if f[0] not in ('imp', 'if', 'const', 'ne'))
            return r
        if k in ('Bin', 'Call') and x.get('op') in ('==', '!=') and len(c) == 2:
            for i, j in ((0, 1), (1, 0)):
                v = self.boolval(self.skip(c[j]))
                y = self.fn.nodes[self.skip(c[i])]
                if v is not None and self.prog.tstr(y.get('t')).replace('const ', '') in ('bool', '_Bool'):
                    return self.cond_facts(c[i], truth == ((x['op'] == '==') == v), st)
        r = set()
        if k == 'Ref' and self.isbool(x['d']):
            d = x['d']
            for f in st.facts:
                if f[0] == 'if' and f[1] == d and f[2] == truth:
                    r.add(f[3])
            r.add(('const', d, truth))
        if k == 'Cond':
            v1, v2 = self.boolval(self.skip(c[1])), self.boolval(self.skip(c[2]))
            if v1 is not None and v2 is None and v1 != truth:
                r |= self.cond_facts(c[0], False, st) | self.cond_facts(c[2], truth, st)
            if v2 is not None and v1 is None and v2 != truth:
                r |= self.cond_facts(c[0], True, st) | self.cond_facts(c[1], truth, st)
        pq = self.differ(n, truth)
        if pq:
            r.add(('ne', pq[0], pq[1]))
            for f in st.facts:
                if f[0] == 'imp' and f[1] == pq[0] and f[2] == pq[1]:
                    r.add(f[3])
        return frozenset(r | set(self.atom(n, truth, st)))

    def differ(self, n, truth):
        """(p, q) when expression n having value truth means that the values at p and q differ"""
        n = self.skip(n)
        if n < 0:
            return None
        x = self.fn.nodes[n]
        c = x.get('c', [])
        if x['k'] == 'Un' and x['op'] == '!':
            return self.differ(c[0], not truth)
        if x['k'] in ('Bin', 'Call') and x.get('op') in ('==', '!=') and len(c) == 2 and truth == (x['op'] == '!='):
            a, b = self.fn.nodes[self.skip(c[0])], self.fn.nodes[self.skip(c[1])]
            if a['k'] == 'Ref' and b['k'] == 'Ref':
                p, q = (('v', a['d']), ()), (('v', b['d']), ())
                return (p, q) if p <= q else (q, p)
        return None

    def skip(self, n):
        while n >= 0:
            x = self.fn.nodes[n]
            if x['k'] in ('Cast', 'Paren') or x['k'].endswith('CastExpr') or x['k'] in ('ExprWithCleanups', 'MaterializeTemporaryExpr'):
                c = [i for i in x.get('c', ()) if i >= 0]
                if not c:
                    return n
                n = c[0]
            elif x['k'] == 'Call' and x.get('f', '').split('::')[-1].startswith('operator bool') and x.get('c'):
                n = x['c'][0]
            else:
                return n
        return n

    def isbool(self, d):
        return self.prog.tstr(self.fn.vars[d]['t']) in ('bool', 'const bool', '_Bool')

    # ---- provenance
    def key(self, p):
        root, path = p
        out = []
        for f in path:
            if f in ('[]', '*'):
                break
            out.append(f)
            if len(out) >= self.trunc:
                break
        return (root, tuple(out))

    def read(self, p, st):
        k = self.key(p)
        r = set(self.place_tokens(p, st))
        for q, t in st.prov.items():
            if q[0] == k[0] and overlap(q, k):
                r |= t
        return frozenset(r)

    def set(self, p, toks, st, strong, fields=None):
        k = self.key(p)
        if k[0] == ('?',):
            return
        if strong and '[]' not in p[1] and '*' not in p[1]:
            for q in [q for q in st.prov if q[0] == k[0] and q[1][:len(k[1])] == k[1]]:
                del st.prov[q]
            if fields:
                for f, t in fields.items():
                    st.prov[(k[0], k[1] + (f,))] = t
            else:
                st.prov[k] = frozenset(toks)
        else:
            st.prov[k] = st.prov.get(k, E0) | frozenset(toks)

    def value(self, n, st, depth=0):
        """tokens of the value of expression n"""
        if n is None or n < 0 or depth > 60:
            return E0
        x = self.fn.nodes[n]
        k = x['k']
        c = x.get('c', [])
        if k in ('Ref', 'Mem', 'Index') or k == 'Un' and x['op'] == '*':
            if k == 'Mem' and x.get('fn'):
                return self.value(c[0], st, depth + 1) if c else E0
            r = E0
            for p in self.fl.places(n):
                if p[0][0] == 't':
                    r |= self.value(p[0][1], st, depth + 1) if p[0][1] != n else E0
                else:
                    r |= self.read(p, st)
            T = self.prog.T(x.get('t'))
            if T.get('ptr') or flow.is_iter(self.prog, x.get('t')):
                for p in self.fl.pointees(n):
                    if p[0][0] != 't':
                        r |= self.read(p, st)
            return r
        if k in ('Int', 'Bool', 'Str', 'This', 'FnRef', 'Sizeof', 'Lambda', 'Float', 'Nullptr'):
            return E0
        if k == 'Call':
            v = self.call_value(n, st)
            if v is not None:
                return v
            if x.get('op') in ('==', '!=', '<', '>', '<=', '>=', '!'):
                return E0
        if k == 'Bin' and x['op'] in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'):
            return E0
        if k == 'Cond':
            return self.value(c[1], st, depth + 1) | self.value(c[2], st, depth + 1)
        r = E0
        for i in c:
            r |= self.value(i, st, depth + 1)
        return r

    def fields(self, n, st):
        """for a pair-valued expression: {'first': tokens, 'second': tokens}, or None"""
        n = self.skip(n)
        if n < 0:
            return None
        x = self.fn.nodes[n]
        s = self.prog.tstr(x.get('t'))
        if 'pair<' not in s.split('(')[0][:40] or 'vector<' in s[:14]:
            return None
        if x['k'] in ('Ctor', 'InitList') and len(x.get('c', [])) == 2:
            return {'first': self.value(x['c'][0], st), 'second': self.value(x['c'][1], st)}
        if x['k'] in ('Ctor',) and len(x.get('c', [])) == 1:
            return self.fields(x['c'][0], st)
        if x['k'] == 'Call' and x.get('fq') in ('std::make_pair',) and len(x['c']) == 2:
            return {'first': self.value(x['c'][0], st), 'second': self.value(x['c'][1], st)}
        if x['k'] == 'Call' and x.get('fq') in ('std::move', 'std::forward'):
            return self.fields(x['c'][0], st)
        if x['k'] == 'Ref':
            ps = self.fl.places(n)
            if len(ps) == 1:
                p = next(iter(ps))
                k = self.key(p)
                sub = {q[1][len(k[1])]: t for q, t in st.prov.items() if q[0] == k[0] and len(q[1]) == len(k[1]) + 1 and q[1][:len(k[1])] == k[1]}
                if sub and k not in st.prov:
                    return {f: sub.get(f, E0) for f in ('first', 'second')}
        return None

    # ---- transfer
    def source_place(self, n):
        """the single place whose value n copies or moves, or None"""
        n = self.skip(n)
        if n < 0:
            return None
        x = self.fn.nodes[n]
        if x['k'] == 'Ctor' and x.get('ck') in ('copy', 'move') and len(x.get('c', ())) == 1:
            return self.source_place(x['c'][0])
        if x['k'] == 'Call' and x.get('fq') in ('std::move', 'std::forward', 'std::as_const'):
            return self.source_place(x['c'][0])
        if x['k'] in ('Ref', 'Mem'):
            ps = self.fl.places(n)
            if len(ps) == 1:
                p = next(iter(ps))
                return p if '[]' not in p[1] and '*' not in p[1] and p[0] != ('?',) else None
        if x['k'] == 'Call' and len(x.get('c', ())) >= 1:
            return (('t', n), ())
        if x['k'] == 'Call' and x.get('fq', '').endswith('::get'):
            ps = self.fl.places(n)
            if len(ps) == 1:
                return next(iter(ps))
        if x['k'] in ('Ctor', 'InitList'):
            return (('t', n), ())
        return None

    def assign(self, st, dst, src, rhs):
        """whole assignment dst := value of rhs; src its source place or None"""
        toks = self.value(rhs, st)
        fld = self.fields(rhs, st)
        inherit = []
        if src is not None and src != dst:
            for f in st.facts:
                if src in deps(f):
                    g = subst(f, lambda a: dst if a == src else a)
                    if dst not in deps(f):
                        inherit.append(g)
        self.kill(st, dst)
        self.set(dst, toks, st, True, fld)
        self.add(st, inherit)

    def swap(self, st, a, b):
        def m(x):
            if x == a:
                return b
            if x == b:
                return a
            return x
        out = set()
        for f in st.facts:
            d = deps(f)
            if a in d or b in d:
                out.add(subst(f, m))
            elif any(overlap(a, q) or overlap(b, q) for q in d):
                continue
            else:
                out.add(f)
        st.facts = frozenset(out)
        ka, kb = self.key(a), self.key(b)
        np = {}
        for q, t in st.prov.items():
            if q[0] == ka[0] and q[1][:len(ka[1])] == ka[1]:
                np[(kb[0], kb[1] + q[1][len(ka[1]):])] = t
            elif q[0] == kb[0] and q[1][:len(kb[1])] == kb[1]:
                np[(ka[0], ka[1] + q[1][len(kb[1]):])] = t
            else:
                np[q] = t
        st.prov = np

    def step(self, n, st):
        fn = self.fn
        x = fn.nodes[n]
        k = x['k']
        c = x.get('c', [])
        self.before(n, st)
        nm = x.get('fq', '').split('::')[-1]
        done = False
        if k == 'Call' and nm == 'swap' and len(c) == 2:
            pa, pb = self.fl.obj_places(n) if x.get('obj') else self.fl.places(c[0]), self.fl.places(c[1])
            if len(pa) == 1 and len(pb) == 1:
                a, b = next(iter(pa)), next(iter(pb))
                if '[]' not in a[1] and '[]' not in b[1] and a[0] != ('?',) and b[0] != ('?',):
                    self.swap(st, a, b)
                    done = True
        if not done and k == 'Decl':
            done = True
            for v in x['vars']:
                d = v['d']
                if self.fl.byref(d):
                    continue
                p = (('v', d), ())
                if 'i' in v:
                    if self.isbool(d):
                        self.assign_bool(st, d, v['i'])
                    else:
                        self.assign(st, p, self.source_place(v['i']), v['i'])
                else:
                    self.kill(st, p)
                    self.set(p, E0, st, True)
        elif not done and (k == 'Assign' and x['op'] == '=' or k == 'Call' and x.get('op') == '=' and len(c) == 2):
            ps = self.fl.places(c[0])
            if len(ps) == 1:
                p = next(iter(ps))
                if '[]' not in p[1] and '*' not in p[1] and p[0][0] not in ('?', 't'):
                    y = fn.nodes[self.skip(c[0])]
                    if y['k'] == 'Ref' and self.isbool(y['d']) and p == (('v', y['d']), ()):
                        self.assign_bool(st, y['d'], c[1])
                    else:
                        self.assign(st, p, self.source_place(c[1]), c[1])
                    # a moved-from source keeps no facts
                    self.moved(n, st)
                    done = True
        if not done:
            w = self.fl.writes(n)
            if w and not self.call_effect(n, st, w):
                toks = E0
                for i in c:
                    toks |= self.value(i, st)
                for p, strong, kind in w:
                    self.kill(st, p)
                    if kind == 'move':
                        continue
                    strong2 = strong or self.overwrites(n, p)
                    if nm == 'clear':
                        self.set(p, E0, st, True)
                        continue
                    if k in ('Call', 'Ctor') and strong2:
                        t2 = E0
                        for i in c:
                            if p not in self.fl.places(i):
                                t2 |= self.value(i, st)
                        self.set(p, t2, st, True)
                    elif k in ('Assign',):
                        self.set(p, self.value(c[1], st), st, False)
                    else:
                        self.set(p, toks, st, strong2)
        self.after(n, st)
        self.settled(st)

    def moved(self, n, st):
        pass

    def overwrites(self, n, p):
        x = self.fn.nodes[n]
        nm = x.get('fq', '').split('::')[-1]
        c = x.get('c', [])
        if nm == 'pair_vec_div':
            idx = (0, 1) if len(c) >= 5 else (0,)
        else:
            idx = self.OVERWRITE.get(nm, ())
        for i in idx:
            if i < len(c) and p in self.fl.places(c[i]):
                return True
        return False

    def assign_bool(self, st, d, rhs):
        p = (('v', d), ())
        n = self.skip(rhs)
        v = self.boolval(n)
        new = set()
        if v is not None:
            new.add(('const', d, v))
        else:
            x = self.fn.nodes[n]
            if x['k'] == 'Ref' and self.isbool(x['d']):
                s = x['d']
                for f in st.facts:
                    if f[0] == 'if' and f[1] == s:
                        new.add(('if', d, f[2], f[3]))
                    elif f[0] == 'const' and f[1] == s:
                        new.add(('const', d, f[2]))
            for t in (True, False):
                for f in self.cond_facts(n, t, st):
                    if f[0] != 'const' or f[1] != d:
                        new.add(('if', d, t, f))
        self.kill(st, p)
        self.set(p, E0, st, True)
        self.add(st, new)

    def nestable(self, f, d, o):
        """what a returned value says, kept where the call was only reached under condition d (a short-circuit)"""
        return f[3][0] not in ('if', 'const', 'imp', 'ne') and f[1] != d and self.fn.vars[f[1]]['n'].startswith('$')

    # ---- fixpoint
    def join(self, a, b):
        A, B = a.facts, b.facts
        if A == B:
            facts = A
        else:
            r = set(A & B)
            onlyA, onlyB = A - B, B - A
            for f in onlyA:
                if self.holds(b, f):
                    r.add(f)
            for f in onlyB:
                if self.holds(a, f):
                    r.add(f)
            ca = {f[1]: f[2] for f in A if f[0] == 'const'}
            cb = {f[1]: f[2] for f in B if f[0] == 'const'}
            for d, v in ca.items():
                if cb.get(d) != v:
                    for f in onlyB:
                        if f[0] != 'const' and (f[0] != 'if' or self.nestable(f, d, a)):
                            r.add(('if', d, not v, f))
            for d, v in cb.items():
                if ca.get(d) != v:
                    for f in onlyA:
                        if f[0] != 'const' and (f[0] != 'if' or self.nestable(f, d, b)):
                            r.add(('if', d, not v, f))
            facts = frozenset(r)
        prov = dict(a.prov)
        for k, t in b.prov.items():
            prov[k] = prov.get(k, E0) | t
        return State(facts, prov, a.aux | b.aux)

    def run(self):
        fn = self.fn
        st0 = State()
        self.init(st0)
        order = {b: i for i, b in enumerate(fn.rpo())}
        edge = {}
        IN = {fn.entry: st0}
        visits = {}
        work = {fn.entry}
        while work:
            b = min(work, key=lambda z: order.get(z, 1 << 30))
            work.discard(b)
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > 60:
                continue
            outs = self.flow_block(b, IN[b].copy())
            for t, o in outs:
                old = edge.get((b, t))
                if old is not None and old.same(o):
                    continue
                edge[(b, t)] = o
                new = None
                for q in fn.preds.get(t, ()):
                    e = edge.get((q, t))
                    if e is not None:
                        new = e if new is None else self.join(new, e)
                if t == fn.entry:
                    new = self.join(new, st0)
                if visits.get(t, 0) > 30 and t in IN:
                    new = self.join(new, IN[t])
                    new = State(new.facts & IN[t].facts, new.prov, new.aux)
                if t not in IN or not IN[t].same(new):
                    IN[t] = new
                    work.add(t)
        self.IN = IN
        self.recording = True
        for b in fn.rpo():
            if b in IN:
                self.flow_block(b, IN[b].copy())
        return self

    def flow_block(self, b, st):
        fn = self.fn
        blk = fn.blocks[b]
        for e in blk['e']:
            if not isinstance(e, dict):
                self.step(e, st)
            elif e.get('field') and e.get('i', -1) >= 0:
                self.member_init(e['field'], e['i'], st)
        if blk.get('nr'):
            return []
        su = blk['s']
        outs = {}
        for j, t in enumerate(su):
            if t < 0:
                continue
            o = st.copy()
            if 'cond' in blk and len(su) == 2 and blk.get('tk') != 'SwitchStmt':
                g = self.cond_facts(blk['cond'], j == 0, st)
                dead = False
                for f in g:
                    if f[0] == 'const' and ('const', f[1], not f[2]) in st.facts:
                        dead = True
                if dead:
                    continue
                self.add(o, g)
                # facts conditional on what is now known
                for f in g:
                    if f[0] == 'const':
                        self.add(o, [h[3] for h in o.facts if h[0] == 'if' and h[1] == f[1] and h[2] == f[2]])
            self.edge_hook(b, j, t, o)
            self.settled(o)
            outs[t] = self.join(outs[t], o) if t in outs else o
        return list(outs.items())
