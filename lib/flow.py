"""Places, aliases, write effects and forward must-facts over the extracted CFG. Used by the structural rules.

A place is (root, path): root is ('v', variable id) | ('this',) | ('g', name) | ('t', node) | ('?',); path is a tuple of field
names and '[]' (element, also reached through iterators and pointers). Reference variables, pointers and iterators are
resolved to the places they were bound to anywhere in the function (flow-insensitive), so a write through them is a write to
the container."""
import re
import ir

GETI = re.compile(r'get<(\d+)')

VIEW = {'data', 'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'get', 'base'}
ELEM = {'front', 'back', 'at', 'operator[]', 'find', 'lower_bound', 'upper_bound', 'top', 'emplace_back', 'insert', 'emplace', 'erase', 'value', 'second', 'first', 'next', 'prev'}
ITER_FREE = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'next', 'prev', 'find', 'find_if', 'lower_bound', 'upper_bound', 'max_element', 'min_element', 'remove_if', 'remove', 'unique', 'advance', 'partition', 'addressof', '__addressof'}
CONSTY = {'begin', 'end', 'rbegin', 'rend', 'data', 'front', 'back', 'at', 'operator[]', 'find', 'lower_bound', 'upper_bound', 'top', 'get', 'size', 'empty', 'count', 'capacity', 'first', 'second', 'operator*', 'operator->', 'base', 'equal_range', 'max_size', 'c_str', 'length', 'what', 'str', 'rdbuf'}
PASS = {'move', 'forward', 'as_const', 'ref', 'cref', 'forward_as_tuple', 'move_if_noexcept'}


def is_iter(prog, t):
    s = prog.tstr(t)
    return 'iterator' in s or '__normal_iterator' in s or '_Node_iterator' in s or '_Rb_tree' in s and 'iterator' in s


def cref(prog, T):
    return T.get('ref') == 1 and T.get('const') or T.get('s', '').startswith('const ') and T.get('s', '').endswith('&') and '&&' not in T.get('s', '')


def isref(T):
    return bool(T.get('ref'))


class Flow:
    cache = {}

    def __init__(self, fn):
        self.fn = fn
        self.prog = fn.prog
        self._pts = {}
        self._busy = set()
        self.bindof = {}        # structured binding -> (hidden variable, position)
        self.defs = {}          # variable -> [(kind, node)] initialisers / assigned expressions of references, pointers, iterators
        for i, x in enumerate(fn.nodes):
            if x['k'] == 'Decl':
                for v in x['vars']:
                    if 'i' in v:
                        self.defs.setdefault(v['d'], []).append(v['i'])
                        for j, b in enumerate(v.get('bind', ())):
                            self.defs.setdefault(b, []).append(v['i'])
                            self.bindof[b] = (v['d'], j)
            elif x['k'] == 'Assign' or x['k'] == 'Call' and x.get('op') == '=' and len(x.get('c', ())) == 2:
                c = x['c']
                if c and c[0] >= 0 and fn.nodes[c[0]]['k'] == 'Ref' and x.get('op') == '=':
                    d = fn.nodes[c[0]]['d']
                    if self.pointerlike(d):
                        self.defs.setdefault(d, []).append(c[1])
            elif x['k'] == 'ForRange':
                pass

    @staticmethod
    def of(fn):
        f = Flow.cache.get(id(fn))
        if f is None:
            f = Flow.cache[id(fn)] = Flow(fn)
        return f

    def pointerlike(self, d):
        v = self.fn.vars[d]
        T = self.prog.T(v['t'])
        return bool(T.get('ptr')) or is_iter(self.prog, v['t']) and not isref(T)

    def byref(self, d):
        v = self.fn.vars[d]
        return isref(self.prog.T(v['t'])) and v['k'] != 'param' or v['k'] == 'binding'

    # ------------------------------------------------------------ places
    def var_places(self, d):
        """places designated by naming variable d"""
        if self.byref(d):
            return self.pts(d)
        v = self.fn.vars[d]
        if v['k'] in ('global', 'staticlocal'):
            return {(('g', v.get('qn', v['n'])), ())}
        if v['k'] == 'enumc':
            return set()
        return {(('v', d), ())}

    def bindfield(self, h, j):
        s = self.prog.tstr(self.fn.vars[h]['t'])
        if 'pair<' in s and j < 2:
            return ('first', 'second')[j]
        return 'get%d' % j

    def pts(self, d):
        if d in self._pts:
            return self._pts[d]
        if d in self._busy:
            return set()
        self._busy.add(d)
        r = set()
        ref = self.byref(d)
        if d in self.bindof:
            h, j = self.bindof[d]
            r = self.add(self.var_places(h), self.bindfield(h, j))
            self._busy.discard(d)
            self._pts[d] = r
            return r
        for i in self.defs.get(d, ()):
            if ref:
                r |= self.places(i)
            else:
                r |= self.pointees(i)
        self._busy.discard(d)
        if not r:
            v = self.fn.vars[d]
            if v['k'] == 'param' and not ref:
                r = {(('v', d), ('[]',))}          # pointer parameter: its own pointee
            else:
                r = {(('?',), ())}
        self._pts[d] = r
        return r

    def add(self, ps, f):
        out = set()
        for a, p in ps:
            if f == '[]' and p and p[-1] == '[]':
                out.add((a, p))
            elif len(p) >= 4:
                out.add((a, p))
            else:
                out.add((a, p + (f,)))
        return out

    def pointees(self, n):
        """places reached by dereferencing expression n (pointer, iterator)"""
        if n is None or n < 0:
            return set()
        x = self.fn.nodes[n]
        k = x['k']
        c = x.get('c', [])
        if k == 'Ref':
            d = x['d']
            v = self.fn.vars[d]
            T = self.prog.T(v['t'])
            if self.pointerlike(d) and not self.byref(d):
                return self.pts(d)
            if self.byref(d):
                return self.add(self.pts(d), '[]')
            if T.get('arr'):
                return self.add(self.var_places(d), '[]')
            return self.add(self.var_places(d), '[]')
        if k == 'This':
            return {(('this',), ())}
        if k == 'Un' and x['op'] == '&':
            return self.places(c[0])
        if k in ('Un',) and x['op'] in ('++', '--', 'post++', 'post--'):
            return self.pointees(c[0])
        if k == 'Bin' and x['op'] in ('+', '-'):
            r = set()
            for i in c:
                T = self.fn.T(i)
                if T.get('ptr') or T.get('arr'):
                    r |= self.pointees(i)
            return r
        if k == 'Cond':
            return self.pointees(c[1]) | self.pointees(c[2])
        if k in ('Cast',) or k.endswith('CastExpr'):
            return self.pointees(c[0]) if c else set()
        if k == 'Ctor':
            r = set()
            for i in c:
                if i >= 0:
                    r |= self.pointees(i)
            return r
        if k == 'Call':
            nm = x.get('fq', '').split('::')[-1]
            if x.get('op') in ('+', '-', '++', '--', '+=', '-=', '->', '*'):
                return self.pointees(c[0]) if c else set()
            if x.get('obj') and c:
                if nm in VIEW or nm in ELEM:
                    return self.add(self.obj_places(n), '[]')
                if self.fn.T(n).get('ptr') or is_iter(self.prog, x.get('t')):
                    return self.add(self.obj_places(n), '[]')
            if nm in ITER_FREE or nm in PASS:
                r = set()
                for i in c:
                    if i >= 0:
                        r |= self.pointees(i) if self.fn.T(i).get('ptr') or is_iter(self.prog, self.fn.nodes[i].get('t')) else self.add(self.places(i), '[]')
                return r
            r = set()
            for i in c:
                if i >= 0 and (self.fn.T(i).get('ptr') or is_iter(self.prog, self.fn.nodes[i].get('t'))):
                    r |= self.pointees(i)
            return r
        if k == 'Mem' and not x.get('fn'):
            return self.add(self.places(n), '[]')
        if k == 'Assign':
            return self.pointees(c[0])
        if k == 'New':
            return {(('t', n), ())}
        if k == 'InitList':
            r = set()
            for i in c:
                if i >= 0:
                    r |= self.pointees(i)
            return r
        return set()

    def obj_places(self, n):
        """places of the object a member call works on"""
        x = self.fn.nodes[n]
        o = x['c'][0]
        if x.get('arrow'):
            return self.pointees(o)
        return self.places(o)

    def places(self, n):
        """places designated by glvalue expression n; temporaries are ('t', n)"""
        if n is None or n < 0:
            return set()
        x = self.fn.nodes[n]
        k = x['k']
        c = x.get('c', [])
        if k == 'Ref':
            return self.var_places(x['d'])
        if k == 'This':
            return {(('this',), ())}
        if k == 'Mem':
            if x.get('fn'):
                return set()
            if x.get('svar'):
                return {(('g', x['svar']), ())}
            b = c[0] if c else -1
            if b < 0:
                return {(('this',), (x['n'],))}
            base = self.pointees(b) if x.get('arrow') else self.places(b)
            return self.add(base, x['n'])
        if k == 'Index':
            return self.pointees(c[0])
        if k == 'Un':
            if x['op'] == '*':
                return self.pointees(c[0])
            if x['op'] in ('++', '--'):
                return self.places(c[0])
            return {(('t', n), ())}
        if k == 'Cond':
            return self.places(c[1]) | self.places(c[2])
        if k == 'Cast' or k.endswith('CastExpr'):
            return self.places(c[0]) if c else set()
        if k == 'Assign':
            return self.places(c[0])
        if k == 'Bin' and x['op'] == ',':
            return self.places(c[1])
        if k == 'Ctor':
            if x.get('elid') and len(c) == 1:
                return self.places(c[0])
            return {(('t', n), ())}
        if k == 'Call':
            nm = x.get('fq', '').split('::')[-1]
            op = x.get('op')
            if op in ('*', '->') and len(c) == 1:
                return self.pointees(c[0])
            if op == '[]':
                T = self.fn.T(c[0])
                if T.get('ptr') or is_iter(self.prog, self.fn.nodes[c[0]].get('t')):
                    return self.pointees(c[0])
                return self.add(self.places(c[0]), '[]')
            if op in ('=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '|=', '&=', '^=', '++', '--') and c:
                return self.places(c[0])
            lv = x.get('lv')
            if nm in PASS:
                return self.places(c[0]) if c else set()
            if not lv:
                return {(('t', n), ())}
            if nm == 'get' and len(c) == 1:
                m = GETI.search(x.get('f', ''))
                if m:
                    j = int(m.group(1))
                    pair = 'std::pair<' in x.get('f', '')
                    return self.add(self.places(c[0]), ('first', 'second')[j] if pair and j < 2 else 'get%d' % j)
            if x.get('obj') and c:
                ob = self.obj_places(n)
                if nm in ('data',):
                    return ob
                if nm in ELEM or nm in VIEW:
                    return self.add(ob, '[]')
                callee = self.prog.fns.get(x.get('f'))
                fl = ret_field(callee)
                if fl:
                    return self.add(ob, fl)
                return self.add(ob, '*')
            r = set()
            if op in ('<<', '>>'):
                return self.places(c[0])
            for i, t in zip(c, x.get('pt', [])):
                if i >= 0 and isref(self.prog.T(t)):
                    r |= self.places(i)
            return r or {(('?',), ())}
        return {(('t', n), ())}

    # ------------------------------------------------------------ effects
    def writes(self, n):
        """(place, strong, kind) written when element n itself is evaluated; kind: assign|modify|move"""
        fn = self.fn
        x = fn.nodes[n]
        k = x['k']
        c = x.get('c', [])
        out = []
        if k == 'Assign':
            ps = self.places(c[0])
            lhs = fn.nodes[c[0]]
            strong = x['op'] == '=' and len(ps) == 1 and lhs['k'] in ('Ref', 'Mem')
            for p in ps:
                out.append((p, strong, 'assign' if x['op'] == '=' else 'modify'))
        elif k == 'Un' and x['op'] in ('++', '--', 'post++', 'post--'):
            for p in self.places(c[0]):
                out.append((p, False, 'modify'))
        elif k in ('Call', 'Ctor'):
            nm = x.get('fq', '').split('::')[-1]
            if nm in PASS:
                return out
            callee = self.prog.fns.get(x.get('f'))
            args = c
            pt = x.get('pt', [])
            if k == 'Call' and x.get('obj'):
                args = c[1:]
                op = x.get('op')
                if not x.get('mconst') and c:
                    ob = self.obj_places(n)
                    mutates = True
                    if callee is not None and callee.blocks:
                        mutates = 'this' in mutated(callee)
                    elif nm in CONSTY:
                        mutates = False
                    if op in ('++', '--', '+=', '-=') and is_iter(self.prog, fn.nodes[c[0]].get('t')):
                        ob = self.places(c[0])
                    if mutates:
                        whole = nm in ('operator=', 'clear', 'assign') and len(ob) == 1
                        for p in ob:
                            out.append((p, whole and fn.nodes[c[0]]['k'] in ('Ref', 'Mem', 'This', 'Un', 'Call'), 'assign' if whole else 'modify'))
                if op == '()' and callee is not None and callee.o.get('lambda'):
                    for p in captured_writes(self, callee):
                        out.append((p, False, 'modify'))
            mut = mutated(callee) if callee is not None and callee.blocks else None
            for i, a in enumerate(args):
                if a < 0:
                    continue
                T = self.prog.T(pt[i]) if i < len(pt) else {}
                if T.get('ref') == 1 and not T.get('const'):
                    if k == 'Ctor' and callee is None:
                        continue            # library constructors copy from lvalues
                    if mut is not None and i not in mut:
                        continue
                    if mut is None and nm in CONSTY | {'begin', 'end', 'addressof', 'get', 'size', 'tie'}:
                        continue
                    for p in self.places(a):
                        out.append((p, False, 'modify'))
                elif T.get('ref') == 2:
                    y = fn.nodes[a]
                    if y['k'] == 'Call' and y.get('fq', '').split('::')[-1] in ('move',) or y.get('lv') == 2:
                        if mut is not None and i not in mut:
                            continue
                        for p in self.places(a):
                            if p[0][0] != 't':
                                out.append((p, False, 'move'))
                elif T.get('ptr') and not T.get('pconst') or is_iter(self.prog, pt[i]) if i < len(pt) else False:
                    if mut is not None and i not in mut:
                        continue
                    if mut is None and (nm in ITER_FREE or nm in ('distance', 'accumulate', 'count', 'equal', 'any_of', 'all_of', 'none_of', 'copy', 'operator-', 'operator+', 'operator==', 'operator!=', 'insert', 'assign', 'vector', '(ctor)', 'lexicographical_compare') or k == 'Ctor'):
                        continue
                    if is_iter(self.prog, pt[i]) and 'const_iterator' in self.prog.tstr(pt[i]):
                        continue
                    for p in self.pointees(a):
                        out.append((p, False, 'modify'))
            if nm == 'tie' or False:
                pass
        elif k == 'Decl':
            for v in x['vars']:
                if not self.byref(v['d']):
                    out.append(((('v', v['d']), ()), True, 'assign'))
        elif k == 'Lambda':
            for cp in x.get('caps', ()):
                pass
        return out


def overlap(p, q):
    """one place is a prefix of the other"""
    if p[0] == ('?',) or q[0] == ('?',):
        return False
    if p[0] != q[0]:
        return False
    a, b = p[1], q[1]
    m = min(len(a), len(b))
    return a[:m] == b[:m] or '*' in a[:m] or '*' in b[:m]


_ret = {}


def ret_field(callee):
    """field whose reference a member function returns"""
    if callee is None or not callee.blocks:
        return None
    if callee.key in _ret:
        return _ret[callee.key]
    _ret[callee.key] = None
    f = None
    fl = Flow.of(callee)
    for i, x in enumerate(callee.nodes):
        if x['k'] == 'Return' and x.get('c'):
            ps = fl.places(x['c'][0])
            for a, p in ps:
                if a == ('this',) and p:
                    f = p[0]
    _ret[callee.key] = f
    return f


_mut = {}


def compute_mutated(prog):
    """for every function: the parameters (index) and 'this' that it may write through; least fixpoint over the call graph"""
    if _mut.get('prog') is prog:
        return
    _mut.clear()
    _mut['prog'] = prog
    for f in prog.fns.values():
        _mut[f.key] = set()
    callers = {}
    for f in prog.fns.values():
        for x in f.nodes:
            if x['k'] in ('Call', 'Ctor') and x.get('f') in prog.fns:
                callers.setdefault(x['f'], set()).add(f.key)
    work = list(prog.fns)
    inq = set(work)
    while work:
        k = work.pop()
        inq.discard(k)
        f = prog.fns[k]
        if not f.blocks:
            if f.o.get('dfl'):
                new = {'this'} | set(range(len(f.params))) if f.kind == 'ma' or f.kind == 'mc' else {'this'}
            else:
                new = {'this'} | set(range(len(f.params)))
        else:
            new = set()
            fl = Flow.of(f)
            if f.kind in ('ctor', 'cc', 'mc', 'dc'):
                new.add('this')
            if f.o.get('dfl') and f.kind in ('ca', 'ma'):
                new |= {'this'} | ({0} if f.kind == 'ma' else set())
            if f.o.get('dfl') and f.kind == 'mc':
                new.add(0)
            for i in reach_nodes(f):
                for (root, path), strong, kind in fl.writes(i):
                    if root == ('this',):
                        new.add('this')
                    elif root[0] == 'v' and root[1] in f.params:
                        d = root[1]
                        T = prog.T(f.vars[d]['t'])
                        if T.get('ref') and not cref(prog, T) or T.get('ptr') and path or path and is_iter(prog, f.vars[d]['t']):
                            new.add(f.params.index(d))
            for e in (b for bl in f.blocks.values() for b in bl['e'] if isinstance(b, dict)):
                pass
        if new != _mut[k]:
            _mut[k] = new
            for c in callers.get(k, ()):
                if c not in inq:
                    inq.add(c)
                    work.append(c)


def reach_nodes(f):
    for b in f.rpo():
        for e in f.blocks[b]['e']:
            if not isinstance(e, dict):
                yield e
            elif e.get('i', -1) >= 0:
                pass


def mutated(callee):
    if callee.key not in _mut:
        compute_mutated(callee.prog)
    return _mut.get(callee.key, set())


_cw = {}


def captured_writes(flow, lam):
    """places of the enclosing function written by a call of lambda lam"""
    out = set()
    fl = Flow.of(lam)
    names = {(v['n'], v['l']): d for d, v in enumerate(flow.fn.vars)}
    for i in reach_nodes(lam):
        for (root, path), strong, kind in fl.writes(i):
            if root[0] == 'v':
                v = lam.vars[root[1]]
                d = names.get((v['n'], v['l']))
                if d is not None and root[1] not in lam.params:
                    for a, p in flow.var_places(d):
                        out.add((a, p + path))
    return out


# ------------------------------------------------------------------ must facts
class Facts:
    """forward must-analysis: facts are tuples; the client says which places a fact mentions (fact[-1] is a frozenset of
    places) so that a write kills it. transfer(el, facts) -> facts to add; edge(cond, truth, facts) -> facts to add"""

    def __init__(self, fn, gen, edge, entry=frozenset(), keep=None, boolvars=True):
        self.fn = fn
        self.fl = Flow.of(fn)
        self.gen = gen
        self.edge = edge
        self.keep = keep
        self.entry = frozenset(entry)
        self.at = {}            # element -> facts before it
        self.solve()

    def step(self, s, n, record=None):
        if record is not None:
            record[n] = s
        w = self.fl.writes(n)
        if w:
            s2 = set()
            for f in s:
                dead = False
                for p, strong, kind in w:
                    if any(overlap(p, q) for q in f[-1]):
                        if self.keep is not None and self.keep(f, n, p, kind):
                            continue
                        dead = True
                        break
                if not dead:
                    s2.add(f)
            s = s2
        g = self.gen(n, frozenset(s))
        if g is not None:
            s = set(s) | set(g)
        return frozenset(s)

    def solve(self):
        fn = self.fn
        IN = {fn.entry: self.entry}
        order = {b: i for i, b in enumerate(fn.rpo())}
        work = [fn.entry]
        while work:
            work.sort(key=lambda b: -order.get(b, 0))
            b = work.pop()
            s = IN[b]
            blk = fn.blocks[b]
            for e in blk['e']:
                if not isinstance(e, dict):
                    s = self.step(s, e)
            if blk.get('nr'):
                continue
            su = blk['s']
            for j, t in enumerate(su):
                if t < 0:
                    continue
                o = s
                if 'cond' in blk and len(su) == 2 and blk.get('tk') != 'SwitchStmt':
                    g = self.edge(blk['cond'], j == 0, s)
                    if g is None:
                        continue
                    o = s | frozenset(g)
                if t in IN:
                    m = IN[t] & o
                    if m == IN[t]:
                        continue
                    IN[t] = m
                else:
                    IN[t] = o
                if t not in work:
                    work.append(t)
        self.IN = IN
        for b, s in IN.items():
            for e in fn.blocks[b]['e']:
                if not isinstance(e, dict):
                    s = self.step(s, e, self.at)
        return


def reachable_from(fn, n):
    """blocks reachable after element n"""
    start = [b['id'] for b in fn.blocks.values() if n in b['e']]
    seen = set()
    st = list(start)
    out = set()
    while st:
        b = st.pop()
        for s in fn.blocks[b]['s']:
            if s >= 0 and s not in out:
                out.add(s)
                st.append(s)
    return set(start), out


def block_of(fn, n):
    for b in fn.blocks.values():
        if n in b['e']:
            return b['id']
    return None
