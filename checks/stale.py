"""S01: nothing is used after it went away.

Three typestates over the control flow of every library function:
1. an iterator, pointer or reference into a container is not used once an operation on the container invalidated it;
2. an object is not read after it was moved from, until it is set again;
3. storage obtained with new[] is released exactly once on every path and not used afterwards.
Calls are judged by summaries: which containers of its arguments a function invalidates, which arguments it reads before setting."""
import re
import ir, flow
from flow import Flow

RULE = 'no use of an invalidated iterator/reference, of a moved-from object or of released storage; every new[] is released on every path'

ALL = {'push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'reserve', 'shrink_to_fit', 'clear', 'assign', 'erase', 'operator=', 'append', 'push_front', 'emplace_front', 'insert_range'}
NODE = re.compile(r'^(const )?std::(list|map|set|multimap|multiset|unordered_map|unordered_set|forward_list)<')
UNORD = re.compile(r'^(const )?std::unordered_')
CONT = re.compile(r'^(const )?std::(vector|deque|list|map|set|multimap|multiset|unordered_map|unordered_set|forward_list|basic_string|string|__cxx11::list|__cxx11::basic_string)\b')
HEAVY = re.compile(r'std::(vector|deque|list|map|set|unordered|multimap|multiset|function|unique_ptr|shared_ptr|basic_string|string|optional|__cxx11)|clpoly::(ZZ|QQ|basic_monomial|basic_polynomial|upolynomial|graph|factorization|polynomial|dense_upoly|Ideal|umonomial)|VHC')
NOREAD = {'push_back', 'emplace_back', 'insert', 'emplace', 'capacity', 'shrink_to_fit', 'clear', 'assign', 'operator=', 'comp', 'comp_ptr', 'reset', 'prime'}
ACC = {'addmul', 'submul', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator%=', 'operator++', 'operator--', 'operator<<=', 'operator>>='}
SWAP = {'swap', 'iter_swap'}


def nm_of(x):
    return x.get('fq', '').split('::')[-1]


def skipc(f, n):
    while n is not None and n >= 0:
        x = f.nodes[n]
        if x['k'] in ('Cast', 'Paren') or x['k'].endswith('CastExpr') or x['k'] == 'Ctor' and x.get('elid') and len(x.get('c', ())) == 1:
            n = x['c'][0]
        else:
            break
    return n


class Fn:
    """what an access expression designates: (variable or 'this', tuple of steps); steps are fields, '[]' for an element"""
    cache = {}

    def __init__(self, f, sums):
        self.f = f
        self.prog = f.prog
        self.fl = Flow.of(f)
        self.sums = sums
        self._deps = {}
        self.lamcap = {}
        f.nodes

    # ---------------------------------------------------------- access paths by name
    def name(self, n):
        f = self.f
        n = skipc(f, n)
        if n is None or n < 0:
            return None
        x = f.nodes[n]
        k, c = x['k'], x.get('c', [])
        if k == 'Ref':
            if f.vars[x['d']]['k'] in ('enumc',):
                return None
            return (x['d'], ())
        if k == 'This':
            return ('this', ())
        if k == 'Mem':
            if x.get('fn') or x.get('svar'):
                return None
            if not c or c[0] < 0:
                return ('this', (x['n'],))
            b = self.name(c[0])
            if b is None:
                return None
            if x.get('arrow') and f.nodes[skipc(f, c[0])]['k'] != 'This':
                y = f.nodes[skipc(f, c[0])]
                if not (y['k'] == 'Call' and y.get('op') == '->'):
                    return (b[0], b[1] + ('[]', x['n']))
            return (b[0], b[1] + (x['n'],))
        if k == 'Index':
            b = self.name(c[0])
            return b and (b[0], b[1] + ('[]',))
        if k == 'Un':
            if x['op'] == '*':
                y = f.nodes[skipc(f, c[0])]
                b = self.name(c[0])
                if y['k'] == 'This':
                    return b
                return b and (b[0], b[1] + ('[]',))
            if x['op'] in ('++', '--', 'post++', 'post--'):
                return self.name(c[0])
            return None
        if k == 'Call':
            nm = nm_of(x)
            if nm in flow.PASS:
                return self.name(c[0]) if c else None
            if x.get('op') in ('*', '->') and len(c) == 1:
                b = self.name(c[0])
                return b and (b[0], b[1] + ('[]',))
            if x.get('op') == '[]':
                b = self.name(c[0])
                return b and (b[0], b[1] + ('[]',))
            if x.get('op') in ('+', '-', '++', '--', '+=', '-=') and c:
                return self.name(c[0])
            if x.get('op') == '=' and c:
                return self.name(c[0])
            if x.get('obj') and c:
                b = self.name(c[0])
                if b is None:
                    return None
                if x.get('arrow') and f.nodes[skipc(f, c[0])]['k'] != 'This':
                    b = (b[0], b[1] + ('[]',))
                g = self.prog.fns.get(x.get('f'))
                if x.get('lv'):
                    fl = flow.ret_field(g)
                    if fl:
                        return (b[0], b[1] + (fl,)) if nm in ('data', 'deg') or fl in ('__data',) and nm == 'data' else (b[0], b[1] + (fl, '[]'))
                    if nm in flow.ELEM or nm in flow.VIEW:
                        return (b[0], b[1] + ('[]',))
            return None
        return None

    # ---------------------------------------------------------- handles
    def handle(self, d):
        """variable d is a reference, pointer or iterator"""
        v = self.f.vars[d]
        if v['k'] in ('global', 'staticlocal', 'enumc'):
            return False
        if v['k'] == 'param':
            return False
        return self.fl.byref(d) or self.fl.pointerlike(d)

    def strictly(self, n, depth=0):
        """containers (as names) of which expression n designates, points to or iterates over an element"""
        f = self.f
        n = skipc(f, n)
        if n is None or n < 0 or depth > 12:
            return set()
        x = f.nodes[n]
        k, c = x['k'], x.get('c', [])
        nm = nm_of(x) if k == 'Call' else ''
        r = set()
        if k == 'Ref':
            if self.handle(x['d']):
                return set(self.deps(x['d']))
            return r
        if k == 'Mem':
            return self.strictly(c[0], depth + 1) if c and c[0] >= 0 else r
        if k == 'Index':
            b = self.name(c[0])
            T = f.T(skipc(f, c[0]))
            if b and not T.get('ptr'):
                r.add(self.strip(b))
            return r | self.strictly(c[0], depth + 1)
        if k == 'Un':
            if x['op'] == '&':
                return self.strictly(c[0], depth + 1)
            return self.strictly(c[0], depth + 1)
        if k == 'Bin' and x['op'] in ('+', '-'):
            for i in c:
                r |= self.strictly(i, depth + 1) if f.T(i).get('ptr') else set()
            return r
        if k == 'Cond':
            return self.strictly(c[1], depth + 1) | self.strictly(c[2], depth + 1)
        if k == 'Ctor':
            for i in c:
                if i >= 0 and (flow.is_iter(self.prog, x.get('t'))):
                    r |= self.strictly(i, depth + 1)
            return r
        if k == 'Call':
            if nm in flow.PASS:
                return self.strictly(c[0], depth + 1) if c else r
            if x.get('op') in ('*', '->', '+', '-', '++', '--', '+=', '-=') and c:
                return self.strictly(c[0], depth + 1)
            if x.get('op') == '[]':
                b = self.name(c[0])
                if b and not flow.is_iter(self.prog, f.nodes[skipc(f, c[0])].get('t')):
                    r.add(self.strip(b))
                return r | self.strictly(c[0], depth + 1)
            if x.get('obj') and c:
                b = self.name(c[0])
                rt = f.T(n)
                isit = rt.get('ptr') or flow.is_iter(self.prog, x.get('t'))
                g = self.prog.fns.get(x.get('f'))
                if b and x.get('arrow') and f.nodes[skipc(f, c[0])]['k'] != 'This':
                    b = (b[0], b[1] + ('[]',))
                if b and (isit or x.get('lv') and (nm in flow.ELEM | flow.VIEW and nm != 'data')):
                    r.add(self.strip(b))
                    r |= self.strictly(c[0], depth + 1)
                elif b and x.get('lv'):
                    fl = flow.ret_field(g)
                    if fl:
                        r |= self.strictly(c[0], depth + 1)
                        if fl != '__data' or nm != 'data':
                            pass
                return r
            if nm in flow.ITER_FREE and c:
                for i in c:
                    if i >= 0 and (f.T(i).get('ptr') or flow.is_iter(self.prog, f.nodes[i].get('t'))):
                        r |= self.strictly(i, depth + 1)
                    elif i >= 0 and nm in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend'):
                        b = self.name(i)
                        if b:
                            r.add(self.strip(b))
                        r |= self.strictly(i, depth + 1)
                return r
        return r

    def strip(self, b):
        """transparent fields of the polynomial and monomial wrappers removed"""
        return (b[0], tuple(s for s in b[1] if s != '__data'))

    def deps(self, d):
        if d in self._deps:
            return self._deps[d]
        self._deps[d] = frozenset()
        r = set()
        for i in self.fl.defs.get(d, ()):
            r |= self.strictly(i)
        # names reached through references: the container a reference variable designates
        out = set(r)
        for b in r:
            out |= self.resolve(b)
        self._deps[d] = frozenset(out)
        return self._deps[d]

    def resolve(self, b):
        """other names of the object b (references resolved)"""
        out = {b}
        seen = set()
        work = [b]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            if isinstance(b[0], int) and self.fl.byref(b[0]) and self.f.vars[b[0]]['k'] != 'param' and b[0] not in self.fl.bindof:
                for i in self.fl.defs.get(b[0], ()):
                    a = self.name(i)
                    if a:
                        a = (a[0], self.strip(a)[1] + b[1])
                        if len(a[1]) < 6 and '[]' not in a[1]:
                            out.add(a)
                            work.append(a)
        return out

    # ---------------------------------------------------------- events
    def kind(self, n):
        T = self.f.T(skipc(self.f, n))
        return self.prog.tstr(T['ut']) if 'ut' in T else T.get('s', '')

    def invalidated(self, n):
        """[(container name, what)] invalidated by element n; what: 'all', or ('el', names of the element handles)"""
        f = self.f
        x = f.nodes[n]
        k, c = x['k'], x.get('c', [])
        out = []
        if k == 'Call' and x.get('obj') and c:
            nm = nm_of(x)
            g = self.prog.fns.get(x.get('f'))
            b = self.name(c[0])
            if b and x.get('arrow') and f.nodes[skipc(f, c[0])]['k'] != 'This':
                b = (b[0], b[1] + ('[]',))
            if g is None or not g.blocks and not g.o.get('dfl'):
                cl = x.get('fq', '')
                if nm in ALL and b and cl.startswith('std::'):
                    out += self.std_event(cl, nm, b, c)
        args = self.args(n)
        g = self.prog.fns.get(x.get('f')) if k in ('Call', 'Ctor') else None
        if g is not None:
            for i, path, what in self.sums.inv.get(g.key, ()):
                if i in args:
                    b = self.name(args[i])
                    if b:
                        if i == -1 and x.get('arrow') and f.nodes[skipc(f, args[i])]['k'] != 'This':
                            b = (b[0], b[1] + ('[]',))
                        out.append((self.strip((b[0], b[1] + path)), what))
                elif isinstance(i, tuple):
                    pass
            if g.o.get('dfl') and g.kind in ('ca', 'ma') and -1 in args:
                b = self.name(args[-1])
                if b:
                    out.append((self.strip(b), 'all'))
        elif k == 'Call' and x.get('op') == '=' and len(c) == 2 and not x.get('obj') or k == 'Call' and x.get('op') == '=' and g is None:
            b = self.name(c[0])
            if b and CONT.match(self.kind(c[0])):
                out.append((self.strip(b), 'all'))
        if k == 'Call' and nm_of(x) in SWAP and g is None:
            for a in c:
                b = self.name(a) if a >= 0 else None
                if b and CONT.match(self.kind(a)):
                    out.append((self.strip(b), 'swap'))
        return out

    def std_event(self, cl, nm, b, c):
        b = self.strip(b)
        m = re.match(r'std::(?:__cxx11::)?(\w+)', cl)
        t = m.group(1) if m else ''
        node = t in ('list', 'map', 'set', 'multimap', 'multiset', 'forward_list', 'unordered_map', 'unordered_set', '_List_base')
        if t in ('optional', 'unique_ptr', 'shared_ptr', 'pair', 'tuple', 'function', 'array', 'atomic', 'basic_ostream', 'basic_stringstream', 'complex'):
            return []
        if node:
            if nm in ('clear', 'assign', 'operator='):
                return [(b, 'all')]
            if nm == 'erase' and len(c) == 2:
                y = self.f.nodes[skipc(self.f, c[1])]
                while y['k'] == 'Ctor' and y.get('c'):
                    y = self.f.nodes[skipc(self.f, y['c'][0])]
                if y['k'] == 'Ref' and self.handle(y['d']):
                    return [(b, ('el', y['d']))]
                return []
            if nm == 'erase':
                return [(b, 'all')]
            return []
        if nm == 'operator=' and t not in ('vector', 'deque', 'basic_string'):
            return []
        return [(b, 'all')]

    def args(self, n):
        """parameter index -> argument node (-1 the object)"""
        x = self.f.nodes[n]
        c = list(x.get('c', []))
        if x['k'] == 'Call' and x.get('obj'):
            return {i - 1: a for i, a in enumerate(c) if a >= 0}
        g = self.prog.fns.get(x.get('f'))
        if x.get('op') and g is not None and g.cls and not g.o.get('static') and len(c) == len(g.params) + 1:
            return {i - 1: a for i, a in enumerate(c) if a >= 0}
        return {i: a for i, a in enumerate(c) if a >= 0}

    def moved_args(self, n):
        """names moved from by element n"""
        f = self.f
        x = f.nodes[n]
        if x['k'] not in ('Call', 'Ctor'):
            return
        if nm_of(x) in flow.PASS:
            return
        pt = x.get('pt', [])
        c = x.get('c', [])
        a0 = 1 if x['k'] == 'Call' and x.get('obj') else 0
        g = self.prog.fns.get(x.get('f'))
        mut = flow.mutated(g) if g is not None and (g.blocks or g.o.get('dfl')) else None
        for j, a in enumerate(c[a0:]):
            if a < 0 or j >= len(pt) or self.prog.T(pt[j]).get('ref') != 2:
                continue
            m = skipc(f, a)
            y = f.nodes[m]
            if not (y['k'] == 'Call' and nm_of(y) == 'move' and len(y.get('c', ())) == 1):
                continue
            if mut is not None and j not in mut:
                continue
            b = self.name(y['c'][0])
            t = f.T(y['c'][0])
            ts = self.prog.tstr(t['ut']) if 'ut' in t else t.get('s', '')
            if b is None or not HEAVY.search(ts) or ts.startswith('const ') or flow.is_iter(self.prog, f.nodes[y['c'][0]].get('t')):
                continue
            yield b, y['c'][0]


class Sums:
    def __init__(self, prog):
        self.prog = prog
        self.inv = {}       # key -> {(param index | -1, path, what)}
        self.reads = {}     # (key, param) -> reads its content before setting it


def run_inv(prog, sums, fs):
    """which containers reached from its parameters a function invalidates"""
    callers = {}
    for f in prog.fns.values():
        for x in f.nodes:
            if x['k'] in ('Call', 'Ctor') and x.get('f') in prog.fns:
                callers.setdefault(x['f'], set()).add(f.key)
    work = [f.key for f in fs]
    byk = {f.key: f for f in fs}
    FN = {f.key: Fn(f, sums) for f in fs}
    while work:
        k = work.pop()
        f = byk.get(k)
        if f is None:
            continue
        F = FN[k]
        new = set()
        for n in flow.reach_nodes(f):
            for b, what in F.invalidated(n):
                if what == 'swap':
                    what = 'all'
                if isinstance(what, tuple):
                    continue
                for r in F.resolve(b):
                    if '[]' in r[1]:
                        # an element's container: kept with its path
                        pass
                    if r[0] == 'this':
                        new.add((-1, r[1], 'all'))
                    elif r[0] in f.params:
                        T = prog.T(f.vars[r[0]]['t'])
                        if T.get('ref') == 1 and not flow.cref(prog, T):
                            new.add((f.params.index(r[0]), r[1], 'all'))
        new = {z for z in new if len(z[1]) < 5}
        if new != sums.inv.get(k, set()):
            sums.inv[k] = new
            work.extend(callers.get(k, ()))
    return FN


class Walk:
    """forward may-analysis of one function; tokens ('stale', var, why), ('moved', name, path, node), ('own', var, node), ('freed', var, node)"""

    def __init__(self, F, sums, init=()):
        self.F, self.f, self.sums = F, F.f, sums
        self.prog = F.prog
        self.init = frozenset(init)
        f = self.f
        self.handles = {}
        for d, v in enumerate(f.vars):
            if F.handle(d) and F.fl.defs.get(d):
                dp = F.deps(d)
                if dp:
                    self.handles[d] = dp
        self.bad = []
        self.solve()

    def kind_of_use(self, n):
        """node n (a Ref) is only rebound, not used"""
        f = self.f
        p = f.parent.get(n)
        m = n
        while p is not None and (f.nodes[p]['k'] in ('Cast', 'Paren') or f.nodes[p]['k'].endswith('CastExpr')):
            m, p = p, f.parent.get(p)
        if p is None:
            return None, None, None
        return p, f.nodes[p], m

    def step(self, s, n, rec):
        f, F = self.f, self.F
        x = f.nodes[n]
        k = x['k']
        c = x.get('c', [])
        # uses
        if k == 'Ref' and s:
            d = x['d']
            for t in s:
                if t[0] == 'stale' and t[1] == d:
                    p, y, m = self.kind_of_use(n)
                    if y is not None and (y['k'] == 'Assign' and y['op'] == '=' or y['k'] == 'Call' and y.get('op') == '=') and y['c'][0] == m and F.fl.pointerlike(d):
                        continue
                    if rec is not None:
                        rec.append(('stale', n, t))
                elif t[0] == 'freed' and t[1] == d:
                    p, y, m = self.kind_of_use(n)
                    if y is not None and y['k'] == 'Assign' and y['c'][0] == m:
                        continue
                    if rec is not None:
                        rec.append(('freed', n, t))
        if s and k in ('Ref', 'Mem', 'This', 'Call', 'Index') and rec is not None:
            self.moved_use(s, n, rec)
        if rec is not None and k == 'Call' and (nm_of(x) == 'erase' and x.get('obj') and len(c) == 2 or x.get('op') in ('*', '->') and len(c) == 1):
            y = f.nodes[skipc(f, c[-1])]
            while y['k'] == 'Ctor' and len(y.get('c', ())) == 1:
                y = f.nodes[skipc(f, y['c'][0])]
            if y['k'] == 'Call' and nm_of(y) in ('end', 'cend', 'rend') and y.get('obj') and CONT.match(self.F.kind(y['c'][0]).replace('const ', '')):
                rec.append(('end', n, ('end', 0, n)))
        # effects
        for b, node in F.moved_args(n):
            tgt = None
            p = f.parent.get(n)
            if k == 'Call' and (x.get('op') == '=' or nm_of(x) == 'operator=') and c:
                tgt = F.name(c[0])
            if tgt is not None and F.strip(tgt) == F.strip(b):
                continue
            if '[]' in b[1]:
                continue
            s = s | {('moved', b[0], b[1], node)}
        for name, what in F.invalidated(n):
            s = self.invalidate(s, name, what, n)
        s = self.reset(s, n)
        # storage
        if k == 'Decl':
            for v in x['vars']:
                ds = {v['d']} | set(v.get('bind', ()))
                s = frozenset(t for t in s if not (t[0] in ('stale', 'freed', 'moved') and t[1] in ds))
                if 'i' in v:
                    y = f.nodes[skipc(f, v['i'])]
                    if y['k'] == 'New' and y.get('arr'):
                        s = s | {('own', v['d'], skipc(f, v['i']))}
        elif k == 'Assign' and x['op'] == '=':
            y = f.nodes[skipc(f, c[1])]
            z = f.nodes[skipc(f, c[0])]
            if z['k'] == 'Ref':
                d = z['d']
                if F.fl.pointerlike(d):
                    s = frozenset(t for t in s if not (t[0] in ('stale', 'freed') and t[1] == d))
                if y['k'] == 'New' and y.get('arr'):
                    if rec is not None and any(t[0] == 'own' and t[1] == d for t in s):
                        rec.append(('leak', n, ('own', d, n)))
                    s = s | {('own', d, skipc(f, c[1]))}
            if y['k'] == 'Ref' and z['k'] != 'Ref' and any(t[0] == 'own' and t[1] == y['d'] for t in s) and z['k'] == 'Mem':
                s = frozenset(t for t in s if not (t[0] == 'own' and t[1] == y['d']))
        elif k == 'Call' and x.get('op') == '=' and len(c) == 2:
            z = f.nodes[skipc(f, c[0])]
            if z['k'] == 'Ref' and F.fl.pointerlike(z['d']):
                s = frozenset(t for t in s if not (t[0] == 'stale' and t[1] == z['d']))
        elif k == 'Delete':
            z = f.nodes[skipc(f, c[0])] if c else {}
            if z.get('k') == 'Ref':
                d = z['d']
                if rec is not None and any(t[0] == 'own' and t[1] == d for t in s) and not x.get('arr'):
                    rec.append(('scalar', n, ('own', d, n)))
                s = frozenset(t for t in s if not (t[0] in ('own',) and t[1] == d)) | {('freed', d, n)}
        elif k == 'Return' and c:
            z = f.nodes[skipc(f, c[0])]
            if z['k'] == 'Ref':
                s = frozenset(t for t in s if not (t[0] == 'own' and t[1] == z['d']))
        return s

    def invalidate(self, s, name, what, n):
        add = set()
        if isinstance(what, tuple):
            e = what[1]
            add.add(('stale', e, n))
            for d, dp in self.handles.items():
                if d != e and self.F.fl.byref(d) and any(self.mentions(i, e) for i in self.F.fl.defs.get(d, ())):
                    add.add(('stale', d, n))
        else:
            for d, dp in self.handles.items():
                for b in dp:
                    if b == name or b[0] == name[0] and len(b[1]) > len(name[1]) and b[1][:len(name[1])] == name[1]:
                        if '[]' in name[1] and b != name:
                            continue
                        if '[]' in name[1] and not self.same_elem(d, name, n):
                            continue
                        add.add(('stale', d, n))
                        break
        return s | frozenset(add)

    def same_elem(self, d, name, n):
        """the container is itself an element m[i]: only when the handle was taken with the same text"""
        f, F = self.f, self.F
        x = f.nodes[n]
        obj = f.text(skipc(f, x['c'][0])) if x.get('c') else ''
        for i in F.fl.defs.get(d, ()):
            if obj and obj in f.text(i):
                return True
        return False

    def mentions(self, i, e):
        return any(self.f.nodes[m]['k'] == 'Ref' and self.f.nodes[m]['d'] == e for m in self.f.walk(i))

    # ---------------------------------------------------------- moved objects
    def moved_use(self, s, n, rec):
        f, F = self.f, self.F
        x = f.nodes[n]
        mv = [t for t in s if t[0] == 'moved']
        if not mv:
            return
        b = F.name(n)
        if b is None or x['k'] == 'Call' and not (x.get('obj') and nm_of(x) == 'data' or nm_of(x) == 'get'):
            return
        if x['k'] == 'Mem':
            T = f.T(n)
            ts = self.prog.tstr(T['ut']) if 'ut' in T else T.get('s', '')
            if not HEAVY.search(ts):
                return                  # plain words keep their value
        hit = [t for t in mv if t[1] == b[0] and (t[2] == b[1][:len(t[2])] or b[1] == t[2][:len(b[1])])]
        if not hit:
            return
        p, y, m = self.kind_of_use(n)
        if y is None:
            return
        if y['k'] == 'Mem' and y.get('c') and y['c'][0] == m and not y.get('fn'):
            return                      # judged at the member
        if y['k'] == 'Call' and y.get('obj') and y['c'][0] == m:
            g = self.prog.fns.get(y.get('f'))
            nm = nm_of(y)
            if nm == 'data' or nm in flow.PASS:
                return
            if nm in NOREAD or nm in ('empty', 'size', 'resize', 'reserve', 'swap'):
                return
            if g is not None and g.blocks and not self.sums_reads(g, -1):
                return
            rec.append(('moved', n, hit[0]))
            return
        if y['k'] == 'Call' and (y.get('op') == '=') and y['c'][0] == m:
            return
        if y['k'] == 'Assign' and y['op'] == '=' and y['c'][0] == m:
            return
        if y['k'] == 'Un' and y['op'] == '&':
            return
        if y['k'] == 'Call' and nm_of(y) in flow.PASS:
            q = f.parent.get(p)
            z = f.nodes[q] if q is not None else {}
            # moving again: a read unless it is the operand already counted
            if any(t[3] == n for t in hit):
                if len(hit) == 1 and not self.looped(n, hit[0]):
                    return
            rec.append(('moved', n, hit[0]))
            return
        if y['k'] in ('Call', 'Ctor'):
            nm = nm_of(y)
            if nm in SWAP:
                return
            g = self.prog.fns.get(y.get('f'))
            ar = self.argi(p, m)
            if g is not None and ar is not None and g.blocks:
                T = self.prog.T(g.vars[g.params[ar]]['t']) if 0 <= ar < len(g.params) else {}
                if T.get('ref') == 1 and not flow.cref(self.prog, T):
                    if '/number' in g.file:
                        if nm not in ACC:
                            return
                    elif not self.sums_reads(g, ar):
                        return
            rec.append(('moved', n, hit[0]))
            return
        if y['k'] == 'Decl':
            for v in y['vars']:
                if v.get('i') == m and self.prog.T(f.vars[v['d']]['t']).get('ref'):
                    return
        if y['k'] in ('Compound', 'ExprStmt'):
            return
        rec.append(('moved', n, hit[0]))

    def looped(self, n, t):
        return True

    def argi(self, p, m):
        for i, a in self.F.args(p).items():
            if a == m or skipc(self.f, a) == skipc(self.f, m):
                return i
        return None

    def sums_reads(self, g, i):
        k = (g.key, i)
        if k in self.sums.reads:
            return self.sums.reads[k]
        self.sums.reads[k] = False
        F = self.sums.FN.get(g.key)
        if F is None:
            self.sums.reads[k] = True
            return True
        tok = ('moved', 'this' if i == -1 else g.params[i], (), -1)
        w = Walk(F, self.sums, [tok])
        self.sums.reads[k] = any(b[0] == 'moved' and b[2][3] == -1 for b in w.bad)
        return self.sums.reads[k]

    def reset(self, s, n):
        f, F = self.f, self.F
        mv = [t for t in s if t[0] == 'moved']
        if not mv:
            return s
        x = f.nodes[n]
        c = x.get('c', [])
        k = x['k']
        targets = []
        if k == 'Assign' and x['op'] == '=' or k == 'Call' and (x.get('op') == '=' or nm_of(x) in ('clear', 'assign', 'reset', 'swap', 'operator=', 'reserve', 'push_back', 'emplace_back', 'resize', 'insert', 'emplace')) and c:
            b = F.name(c[0])
            if b:
                targets.append(b)
        if k == 'Call' and nm_of(x) in SWAP:
            for a in c:
                b = F.name(a) if a >= 0 else None
                if b:
                    targets.append(b)
        g = self.prog.fns.get(x.get('f')) if k in ('Call', 'Ctor') else None
        if g is not None and g.blocks:
            mut = flow.mutated(g)
            for i, a in F.args(n).items():
                if i in mut or i == -1 and 'this' in mut:
                    b = F.name(a)
                    if b and b[0] in {t[1] for t in mv} and (nm_of(x) not in ACC if '/number' in g.file else not self.sums_reads(g, i)):
                        targets.append(b)
        for b in targets:
            b = F.strip(b)
            fld = len(b[1]) == 1 and b[1][0] != '[]'
            s = frozenset(t for t in s if not (t[0] == 'moved' and t[1] == b[0] and (F.strip(t[1:3])[1][:len(b[1])] == b[1] or fld and not t[2])))
        return s

    # ---------------------------------------------------------- small integer constants, to follow counted loops
    def ival(self, n, env):
        f = self.f
        n = skipc(f, n)
        x = f.nodes[n]
        k, c = x['k'], x.get('c', [])
        if k == 'Int':
            try:
                return int(x['v'])
            except ValueError:
                return None
        if k == 'Bool':
            return 1 if x['v'] in ('true', 1, True, '1') else 0
        if k == 'Ref':
            return dict(env).get(x['d'])
        if k == 'Un' and x['op'] in ('-', '!'):
            a = self.ival(c[0], env)
            return None if a is None else -a if x['op'] == '-' else int(not a)
        if k == 'Bin':
            a, b = self.ival(c[0], env), self.ival(c[1], env)
            if x['op'] == '&&':
                return 0 if a == 0 or b == 0 else 1 if a and b else None
            if x['op'] == '||':
                return 1 if a or b else 0 if a == 0 and b == 0 else None
            if a is None or b is None:
                return None
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b), '>=': lambda: int(a >= b), '==': lambda: int(a == b), '!=': lambda: int(a != b)}[x['op']]()
            except KeyError:
                return None
        return None

    def cstep(self, env, n):
        """constants after element n"""
        f = self.f
        x = f.nodes[n]
        k, c = x['k'], x.get('c', [])
        e = None
        if k == 'Decl':
            for v in x['vars']:
                e = dict(env) if e is None else e
                e.pop(v['d'], None)
                if 'i' in v and self.isint(v['d']):
                    a = self.ival(v['i'], env)
                    if a is not None:
                        e[v['d']] = a
        elif k in ('Assign', 'Un') and c:
            y = f.nodes[skipc(f, c[0])]
            if y['k'] == 'Ref' and (k == 'Assign' or x['op'] in ('++', '--', 'post++', 'post--')):
                e = dict(env)
                old = e.pop(y['d'], None)
                if k == 'Assign' and x['op'] == '=':
                    a = self.ival(c[1], env)
                    if a is not None and self.isint(y['d']):
                        e[y['d']] = a
                elif k == 'Un' and old is not None:
                    e[y['d']] = old + (1 if '+' in x['op'] else -1)
        elif k in ('Call', 'Ctor', 'Lambda'):
            ds = {d for d, _ in env}
            for a in c:
                if a >= 0 and f.nodes[a]['k'] == 'Ref' and f.nodes[a]['d'] in ds:
                    e = dict(env) if e is None else e
                    e.pop(f.nodes[a]['d'], None)
        return env if e is None else frozenset(e.items())

    def isint(self, d):
        T = self.prog.T(self.f.vars[d]['t'])
        return self.f.vars[d]['k'] in ('local', 'param') and not T.get('ref') and T.get('s', '').replace('const ', '') in ('int', 'long', 'unsigned long', 'unsigned int', 'bool', 'size_t', 'int64_t', 'uint64_t', 'std::size_t')

    def cedge(self, env, cond, truth, depth=0):
        f = self.f
        n = skipc(f, cond)
        if n is None or n < 0 or depth > 6:
            return env
        x = f.nodes[n]
        v = self.ival(n, env)
        if v is not None and bool(v) != truth:
            return None
        e = dict(env)
        if x['k'] == 'Un' and x['op'] == '!':
            return self.cedge(env, x['c'][0], not truth, depth + 1)
        if x['k'] == 'Bin' and (x['op'] == '&&' and truth or x['op'] == '||' and not truth):
            for c in x['c']:
                env = self.cedge(env, c, truth, depth + 1)
                if env is None:
                    return None
            return env
        if x['k'] == 'Ref' and self.isint(x['d']) and not truth:
            e[x['d']] = 0
        elif x['k'] == 'Ref' and self.isint(x['d']) and self.prog.tstr(f.vars[x['d']]['t']).endswith('bool'):
            e[x['d']] = 1
        elif x['k'] == 'Bin' and x['op'] in ('==', '!=') and truth == (x['op'] == '=='):
            for a, b in (x['c'], x['c'][::-1]):
                y = f.nodes[skipc(f, a)]
                w = self.ival(b, env)
                if y['k'] == 'Ref' and self.isint(y['d']) and w is not None:
                    e[y['d']] = w
        return frozenset(e.items())

    def solve(self):
        f = self.f
        IN = {f.entry: (frozenset((t, frozenset()) for t in self.init), frozenset())}
        work = [f.entry]
        order = {b: i for i, b in enumerate(f.rpo())}

        def elem(S, env, e, rec):
            cur = frozenset(t for t, _ in S)
            nx = self.step(cur, e, rec)
            if nx != cur:
                S = frozenset(p for p in S if p[0] in nx) | frozenset((t, env) for t in nx - cur)
            if f.nodes[e]['k'] in ('Decl', 'Assign', 'Un', 'Call', 'Ctor', 'Lambda'):
                S = frozenset((t, self.cstep(v, e)) for t, v in S)
                env = self.cstep(env, e)
            return S, env
        while work:
            work.sort(key=lambda b: -order.get(b, 0))
            b = work.pop()
            S, env = IN[b]
            blk = f.blocks[b]
            for e in blk['e']:
                if not isinstance(e, dict):
                    S, env = elem(S, env, e, None)
            if blk.get('nr'):
                continue
            su = blk['s']
            for j, t in enumerate(su):
                if t < 0:
                    continue
                S2, env2 = S, env
                if 'cond' in blk and len(su) == 2 and blk.get('tk') != 'SwitchStmt':
                    env2 = self.cedge(env, blk['cond'], j == 0)
                    if env2 is None:
                        continue
                    S2 = frozenset((k, v) for k, v in ((k, self.cedge(v, blk['cond'], j == 0)) for k, v in S) if v is not None)
                if t not in IN:
                    IN[t] = (S2, env2)
                    work.append(t)
                    continue
                m, me = IN[t]
                ks = {}
                for k, v in m | S2:
                    ks.setdefault(k, []).append(v)
                # at most a few environments per token
                m2 = set()
                for k, vs in ks.items():
                    vs = [v for v in vs if not any(w < v for w in vs)]
                    m2.update((k, v) for v in (vs if len(vs) <= 3 else [frozenset.intersection(*vs)]))
                m2 = frozenset(m2)
                e2 = me & env2
                if m2 != m or e2 != me:
                    IN[t] = (m2, e2)
                    if t not in work:
                        work.append(t)
        for b in f.rpo():
            if b in IN:
                S, env = IN[b]
                for e in f.blocks[b]['e']:
                    if not isinstance(e, dict):
                        S, env = elem(S, env, e, self.bad)
                        if f.nodes[e]['k'] == 'Throw':
                            for t, _ in S:
                                if t[0] == 'own':
                                    self.bad.append(('leak', e, t))
        for t, _ in IN.get(f.exit, ((), ()))[0]:
            if t[0] == 'own':
                self.bad.append(('leak', t[2], t))


def analyse(prog):
    flow.compute_mutated(prog)
    fs = [f for f in prog.fns.values() if f.file.startswith(ir.SRC) and f.blocks]
    sums = Sums(prog)
    sums.FN = run_inv(prog, sums, fs)
    for f in fs:
        w = Walk(sums.FN[f.key], sums)
        yield f, w


WHAT = {'stale': '"%s" is used after the container it points into changed (%s)', 'moved': '"%s" is read after it was moved from (%s)',
        'freed': '"%s" is used after it was released (%s)', 'leak': 'storage "%s" is not released on a path (obtained at %s)',
        'end': '"%s" names the position after the last element (%s)', 'scalar': 'the array "%s" is released with the scalar delete (%s)'}


# ------------------------------------------------------------------ searches that may have found nothing
SEARCH = {'find', 'find_if', 'find_if_not', 'lower_bound', 'upper_bound', 'search', 'adjacent_find', 'min_element', 'max_element'}
ENDS = {'end', 'cend', 'rend', 'crend'}


def is_search(f, n):
    """n is a search whose answer is a position"""
    n = skipc(f, n)
    x = f.nodes[n]
    while x['k'] == 'Ctor' and len(x.get('c', ())) == 1:
        n = skipc(f, x['c'][0])
        x = f.nodes[n]
    if x['k'] == 'Cond':
        return is_search(f, x['c'][1]) or is_search(f, x['c'][2])
    if x['k'] != 'Call' or nm_of(x) not in SEARCH or nm_of(x) in ('min_element', 'max_element'):
        return False
    return f.T(n).get('ptr') or flow.is_iter(f.prog, x.get('t'))


def counted(f):
    return any(x['k'] == 'Call' and nm_of(x) in ('count', 'contains') for x in f.nodes)


def searches(f):
    """[(use, variable or None, search)]: a position found by a search is used as an element although it may be the end"""
    hits = []
    gen = {}
    for n in flow.reach_nodes(f):
        x = f.nodes[n]
        if x['k'] == 'Decl':
            for v in x['vars']:
                if 'i' in v and f.vars[v['d']]['k'] == 'local' and is_search(f, v['i']):
                    gen.setdefault(n, []).append(v['d'])
        elif x['k'] == 'Assign' and x['op'] == '=' or x['k'] == 'Call' and x.get('op') == '=' and len(x.get('c', ())) == 2:
            y = f.nodes[skipc(f, x['c'][0])]
            if y['k'] == 'Ref' and is_search(f, x['c'][1]) and f.vars[y['d']]['k'] == 'local':
                gen.setdefault(n, []).append(y['d'])
    if counted(f):
        return hits, len(gen)

    def deref(n):
        x = f.nodes[n]
        c = x.get('c', ())
        if x['k'] == 'Un' and x['op'] == '*' or x['k'] == 'Call' and x.get('op') in ('*', '->') and len(c) == 1:
            return skipc(f, c[0])
        if x['k'] == 'Mem' and x.get('arrow') and c:
            return skipc(f, c[0])
        return None
    for n in flow.reach_nodes(f):
        m = deref(n)
        if m is not None and is_search(f, m):
            hits.append((n, None, m))
    if not gen:
        return hits, 0
    vs = {d for l in gen.values() for d in l}

    def refs(n):
        return {f.nodes[m]['d'] for m in f.walk(n) if f.nodes[m]['k'] == 'Ref'} & vs

    def cmp(n):
        """(variable, is ==) of a comparison with the end"""
        n = skipc(f, n)
        x = f.nodes[n]
        if x['k'] == 'Un' and x['op'] == '!':
            r = cmp(x['c'][0])
            return r and (r[0], not r[1])
        if x['k'] in ('Bin', 'Call') and x.get('op') in ('==', '!=') and len(x.get('c', ())) == 2:
            for a, b in (x['c'], x['c'][::-1]):
                y = f.nodes[skipc(f, a)]
                while y['k'] == 'Ctor' and len(y.get('c', ())) == 1:
                    y = f.nodes[skipc(f, y['c'][0])]
                if y['k'] == 'Assign' and y['op'] == '=' or y['k'] == 'Call' and y.get('op') == '=':
                    y = f.nodes[skipc(f, y['c'][0])]
                if y['k'] == 'Ref' and y['d'] in vs:
                    return y['d'], x['op'] == '=='
        return None

    def step(n, s, rec):
        x = f.nodes[n]
        m = deref(n)
        if m is not None and s:
            y = f.nodes[m]
            if y['k'] == 'Ref' and y['d'] in s and rec is not None:
                rec.append((n, y['d'], n))
        if x['k'] in ('Bin', 'Call') and x.get('op') in ('==', '!=', '<', '>', '-') and s:
            p = f.parent.get(n)
            while p is not None and (f.nodes[p]['k'] in ('Cast', 'Paren', 'Un') or f.nodes[p]['k'].endswith('CastExpr')):
                p = f.parent.get(p)
            q = f.nodes[p]['k'] if p is not None else ''
            if q in ('Decl', 'Assign', 'Return', 'Call', 'Ctor', 'Cond') or x.get('op') in ('<', '>', '-'):
                s = s - refs(n)                 # remembered elsewhere, or tested in another way: not followed
        t = None
        if x['k'] == 'Decl':
            t = {v['d'] for v in x['vars']}
        elif x['k'] == 'Assign' or x['k'] == 'Call' and x.get('op') in ('=', '++', '--', '+='):
            y = f.nodes[skipc(f, x['c'][0])] if x.get('c') else {}
            t = {y['d']} if y.get('k') == 'Ref' else None
        if t:
            s = s - t
        return s | frozenset(gen.get(n, ()))
    IN = {f.entry: frozenset()}
    work = [f.entry]
    final = False
    while True:
        while work:
            b = work.pop()
            s = IN[b]
            for e in f.blocks[b]['e']:
                if not isinstance(e, dict):
                    s = step(e, s, None)
            blk = f.blocks[b]
            for j, t in enumerate(blk['s']):
                if t < 0:
                    continue
                o = s
                if 'cond' in blk and len(blk['s']) == 2:
                    r = cmp(blk['cond'])
                    if r is not None:
                        if (j == 0) != r[1]:
                            o = o - {r[0]}
                    else:
                        o = o - (refs(blk['cond']) if f.nodes[skipc(f, blk['cond'])].get('op') in ('<', '>', '<=', '>=') else set())
                m = IN.get(t, frozenset()) | o
                if t not in IN or m != IN[t]:
                    IN[t] = m
                    work.append(t)
        break
    for b in IN:
        s = IN[b]
        rec = []
        for e in f.blocks[b]['e']:
            if not isinstance(e, dict):
                s = step(e, s, rec)
        hits += rec
    return hits, len(gen)


def temporaries(f):
    """[(declaration, variable)]: a reference or position kept into a container that is a temporary of the same statement"""
    out = []
    for n in flow.reach_nodes(f):
        x = f.nodes[n]
        if x['k'] != 'Decl':
            continue
        for v in x['vars']:
            V = f.vars[v['d']]
            T = f.prog.T(V['t'])
            if 'i' not in v or not (T.get('ref') or T.get('ptr') or flow.is_iter(f.prog, V['t'])):
                continue
            m = skipc(f, v['i'])
            hops = 0
            while True:
                y = f.nodes[m]
                if y['k'] == 'Un' and y['op'] in ('*', '&') and y.get('c'):
                    m = skipc(f, y['c'][0])
                    continue
                if y['k'] == 'Mem' and y.get('c') and not y.get('fn'):
                    m = skipc(f, y['c'][0])
                    continue
                if y['k'] == 'Ctor' and len(y.get('c', ())) == 1 and y.get('ck') in ('copy', 'move') and hops == 0 and not T.get('ref'):
                    m = skipc(f, y['c'][0])
                    continue
                nm = nm_of(y)
                if y['k'] == 'Call' and y.get('c') and (y.get('obj') or y.get('op') in ('*', '->', '[]')):
                    isit = f.T(m).get('ptr') or flow.is_iter(f.prog, y.get('t'))
                    if y.get('lv') and (nm in flow.ELEM | flow.VIEW or nm == 'data' or y.get('op') in ('*', '->', '[]')) or isit and nm in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'find', 'data'):
                        m = skipc(f, y['c'][0])
                        hops += 1
                        continue
                break
            y = f.nodes[m]
            if hops and y['k'] in ('Call', 'Ctor') and not y.get('lv') and not f.T(m).get('ptr') and not flow.is_iter(f.prog, y.get('t')) and CONTENT.search(f.prog.tstr(y.get('t'))):
                out.append((n, v['d']))
    return out


CONTENT = re.compile(r'std::(vector|map|set|list|deque|basic_string|unordered_|array)|clpoly::basic_(polynomial|monomial)|clpoly::graph')


def run(prop, tier, rep):
    rep.rule = RULE
    for cfg in ('rel', 'dbg') if tier == 'thorough' else ('rel',):
        prog = ir.load(cfg)
        for f, w in analyse(prog):
            rep.count('functions')
            rep.count('handles', len(w.handles))
            for x in f.nodes:
                if x['k'] == 'New' and x.get('arr'):
                    rep.count('array_allocations')
                elif x['k'] == 'Call' and nm_of(x) == 'move' and len(x.get('c', ())) == 1:
                    rep.count('moves')
            for kind, n, t in w.bad:
                v = '' if kind == 'end' else f.vars[t[1]]['n'] if isinstance(t[1], int) else 'this'
                v += ''.join('.' + p for p in t[2]) if kind == 'moved' else ''
                where = '%s: %s' % (f.loc(t[-1]), f.text(t[-1])[:60]) if isinstance(t[-1], int) and t[-1] >= 0 else ''
                rep.violation('%s/%s/%s' % (kind, f.qn, v), '%s: in %s, ' % (f.loc(n), f.qn) + WHAT[kind] % (f.text(n)[:60] if kind != 'leak' else v, where))
        for f in ir.load('dbg').fns.values():       # an asserted search has found something
            if not f.file.startswith(ir.SRC) or not f.blocks:
                continue
            hits, k = searches(f)
            rep.count('searches kept', k)
            for n, d, m in hits:
                rep.violation('found/%s' % f.qn, '%s: in %s, "%s" is taken for an element although the search may have found nothing' % (f.loc(n), f.qn, f.text(n)[:60]))
            for n, d in temporaries(f):
                rep.violation('temporary/%s/%s' % (f.qn, f.vars[d]['n']), '%s: in %s, %s points into an object that is gone at the end of the statement' % (f.loc(n), f.qn, f.vars[d]['n']))
    rep.need('functions', 1500)
    rep.need('handles', 500)
    rep.need('moves', 300)
    rep.need('array_allocations', 20)
