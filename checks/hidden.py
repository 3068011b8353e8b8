"""D01: results depend on nothing but the arguments.

1. hidden state: a variable with static storage is written only by the members of the class that keeps it (the variable registry,
   the default modulus), and only functions whose purpose it is reach the writers;
2. randomness, clocks and the environment are consulted only inside the procedures that are randomised by purpose (or helpers
   called from nowhere else);
3. no order that differs from run to run is observed: iteration over hashed containers, comparison or hashing of addresses,
   ordered containers keyed by pointers;
4. nothing is read before it has been set: local scalars and fields of plain local structures (definite assignment), scalar
   members after every constructor;
5. members marked mutable are changed in const operations only together with the flag that guards them."""
import re
import ir, flow, effects
from flow import Flow

RULE = 'functions read and write no state beyond their arguments except by role, observe no run-dependent order, and read no unset value'

# randomised by purpose: objects drawn at random, elimination orderings with random ties, random points whose result is checked
RANDOMISED = re.compile(r'^clpoly::(RandomSample|random_\w+|__MCS(_M)?|__polynomial_GCD|__mtshl_sparse_int)$')
# operations that register variables by name (their purpose, or documented: univariate factors are named x)
REGISTERS = re.compile(r'^clpoly::random_upolynomial$')
SCALAR = re.compile(r'^(const )?(bool|char|signed char|unsigned char|short|unsigned short|int|unsigned int|long|unsigned long|long long|unsigned long long|float|double|long double|__int128|unsigned __int128)$')
HASHORD = re.compile(r'std::(__detail::_Node_(const_)?iterator|unordered_(map|set|multimap|multiset))')


def scalar(prog, t):
    T = prog.T(t)
    if T.get('ref'):
        return False
    return bool(T.get('ptr')) or bool(SCALAR.match(T.get('s', ''))) or 'en' in T


class Init:
    """definite assignment over one function. Facts: ('v', d, field|None) is set."""

    def __init__(self, fn, outs, rd=()):
        self.fn, self.prog, self.outs, self.rd = fn, fn.prog, outs, rd
        self.track = {}          # variable -> fields to be set (None for scalars)
        self.elems = set()
        for b in fn.blocks.values():
            for e in b['e']:
                if not isinstance(e, dict):
                    self.elems.add(e)
        self.lam = set()
        for i, x in enumerate(fn.nodes):
            if x['k'] == 'Decl':
                for v in x['vars']:
                    d = v['d']
                    V = fn.vars[d]
                    if V['k'] != 'local':
                        continue
                    if 'i' not in v:
                        if scalar(self.prog, V['t']):
                            self.track[d] = None
                        continue
                    fs = self.plain(v['i'], V['t'])
                    if fs:
                        self.track[d] = fs
        for b in fn.blocks.values():
            # a variable set together with a flag that says so (a search, taken to succeed)
            lhs, flag = set(), False
            for e in b['e']:
                if isinstance(e, dict) or fn.nodes[e]['k'] != 'Assign' or fn.nodes[e]['op'] != '=':
                    continue
                y = fn.nodes[self.skip(fn.nodes[e]['c'][0])]
                z = fn.nodes[self.skip(fn.nodes[e]['c'][1])]
                if y['k'] == 'Ref' and z['k'] == 'Bool' and self.prog.tstr(fn.vars[y['d']]['t']) == 'bool':
                    flag = True
                elif y['k'] == 'Ref':
                    lhs.add(y['d'])
            if flag:
                for d in lhs:
                    self.track.pop(d, None)

    def plain(self, i, t):
        """fields of a class object that its initialiser leaves unset"""
        x = self.fn.nodes[i]
        if x['k'] != 'Ctor' or [c for c in x.get('c', ()) if c >= 0]:
            return None
        if x.get('zi') or x.get('il'):
            return None
        r = self.prog.records.get(self.prog.T(t).get('s', '').replace('const ', ''))
        if r is None:
            return None
        if any(m.get('sm') == 'dc' and not m['implicit'] and not m['def'] for m in r['methods']):
            return None
        if any(m['name'] == r['name'].split('::')[-1].split('<')[0] and not m['implicit'] and not m.get('sm') for m in r['methods']):
            return None
        fs = {f['name'] for f in r['fields'] if scalar(self.prog, f['t']) and not f['init']}
        return fs or None

    def facts_of(self, d):
        fs = self.track[d]
        return {(d, None)} if fs is None else {(d, f) for f in fs}

    # what element n sets
    def sets(self, n):
        x = self.fn.nodes[n]
        k = x['k']
        c = x.get('c', [])
        out = set()
        if k == 'Assign' and x['op'] == '=' or k == 'Call' and x.get('op') == '=':
            out |= self.target(c[0])
        elif k == 'Asm':
            for m in self.fn.walk(n):
                out |= self.target(m)
        elif k in ('Call', 'Ctor'):
            args = c[1:] if k == 'Call' and x.get('obj') else c
            outs = self.outs.get(x.get('f'))
            for i, a in enumerate(args):
                if a < 0:
                    continue
                if outs is not None and i not in outs:
                    if not self.unknownish(x, i):
                        continue
                T = self.prog.T(x['pt'][i]) if i < len(x.get('pt', ())) else {}
                if T.get('ref') and not flow.cref(self.prog, T):
                    out |= self.target(a)
                elif T.get('ptr') or x.get('f') not in self.prog.fns:
                    y = self.fn.nodes[self.skip(a)]
                    if y['k'] == 'Un' and y['op'] == '&':
                        out |= self.target(y['c'][0])
            if k == 'Call' and x.get('op') == '>>' and len(c) == 2:
                out |= self.target(c[1])
            if k == 'Call' and x.get('fq') in ('std::tie',):
                for a in c:
                    out |= self.target(a)
            if k == 'Call' and x.get('op') == '()' and x.get('f') in self.prog.fns and self.prog.fns[x['f']].o.get('lambda'):
                out |= self.lambda_sets(self.prog.fns[x['f']])
        elif k == 'Un' and x['op'] == '&':
            p = self.fn.parent.get(n)
            q = self.fn.nodes[p] if p is not None else {}
            if q.get('k') not in ('Call', 'Ctor'):
                out |= self.target(c[0])          # address stored: followed no further
        elif k == 'Decl':
            for v in x['vars']:
                if 'i' in v and flow.isref(self.prog.T(self.fn.vars[v['d']]['t'])):
                    out |= self.target(v['i'])     # a reference is bound: followed no further
        elif k == 'Lambda':
            pass
        return out

    def unknownish(self, x, i):
        return False

    def lambda_sets(self, lam):
        out = set()
        names = {(v['n'], v['l']): d for d, v in enumerate(self.fn.vars)}
        for i in flow.reach_nodes(lam):
            for (root, path), strong, kind in Flow.of(lam).writes(i):
                if root[0] == 'v':
                    v = lam.vars[root[1]]
                    d = names.get((v['n'], v['l']))
                    if d in self.track and root[1] not in lam.params:
                        out |= self.facts_of(d)
        return out

    def skip(self, n):
        while n >= 0 and (self.fn.nodes[n]['k'] in ('Cast', 'Paren') or self.fn.nodes[n]['k'].endswith('CastExpr')):
            c = [i for i in self.fn.nodes[n].get('c', ()) if i >= 0]
            if not c:
                break
            n = c[0]
        return n

    def target(self, n):
        n = self.skip(n)
        if n < 0:
            return set()
        x = self.fn.nodes[n]
        if x['k'] == 'Ref' and x['d'] in self.track:
            return self.facts_of(x['d'])
        if x['k'] == 'Mem' and x.get('c') and x['c'][0] >= 0 and not x.get('arrow'):
            b = self.fn.nodes[self.skip(x['c'][0])]
            if b['k'] == 'Ref' and self.track.get(b['d']):
                return {(b['d'], x['n'])}
        if x['k'] == 'Cond':
            return self.target(x['c'][1]) & self.target(x['c'][2])
        if x['k'] == 'Bin' and x['op'] == ',':
            return self.target(x['c'][1])
        return set()

    def needs(self, n):
        """facts that reading at Ref node n relies on"""
        fn = self.fn
        x = fn.nodes[n]
        if x['k'] != 'Ref' or x['d'] not in self.track:
            return None
        d = x['d']
        p, q = n, fn.parent.get(n)
        mem = None
        while q is not None:
            y = fn.nodes[q]
            k = y['k']
            if k in ('Cast', 'Paren') or k.endswith('CastExpr'):
                if k == 'Cast' and y.get('ck') == 'ToVoid':
                    return None
                p, q = q, fn.parent.get(q)
                continue
            if k == 'Mem' and self.track[d] is not None and mem is None and not y.get('fn'):
                mem = y['n']
                p, q = q, fn.parent.get(q)
                continue
            if k == 'Bin' and y['op'] == ',' and y['c'][1] == p:
                p, q = q, fn.parent.get(q)
                continue
            if k == 'Cond' and p != y['c'][0]:
                p, q = q, fn.parent.get(q)
                continue
            break
        need = {(d, mem)} if self.track[d] is None or mem is not None else None
        if mem is not None and mem not in self.track[d]:
            return None
        if q is None:
            return None
        y = fn.nodes[q]
        k = y['k']
        if self.track[d] is not None and mem is None:
            # the whole object: copied or returned only when complete; methods are not looked into
            if k == 'Ctor' and y.get('ck') in ('copy', 'move') or k == 'Return':
                return self.facts_of(d)
            return None
        if k == 'Assign' and y['op'] == '=' and y['c'][0] == p:
            return None
        if k == 'Un' and y['op'] == '&':
            return None
        if k == 'Sizeof' or k == 'Asm':
            return None
        if k == 'Decl':
            for v in y['vars']:
                if v.get('i') == p and flow.isref(self.prog.T(fn.vars[v['d']]['t'])):
                    return None
            return need
        if k in ('Call', 'Ctor'):
            args = y['c'][1:] if k == 'Call' and y.get('obj') else y['c']
            if k == 'Call' and y.get('op') == '>>' and len(y['c']) == 2 and y['c'][1] == p:
                return None
            if y.get('fq') == 'std::tie':
                return None
            for i, a in enumerate(args):
                if a == p and i < len(y.get('pt', ())):
                    T = self.prog.T(y['pt'][i])
                    if T.get('ref') and not flow.cref(self.prog, T):
                        g = self.prog.fns.get(y.get('f'))
                        if g is not None and (y['f'], i) in self.rd:
                            return need
                        return None
            return need
        if k == 'Lambda':
            return None
        if k in ('Block', 'ExprStmt') and False:
            return None
        return need

    def run(self, report):
        fn = self.fn
        if not self.track:
            return 0
        IN = {fn.entry: frozenset()}
        order = {b: i for i, b in enumerate(fn.rpo())}
        work = {fn.entry}
        cache = {}
        allf = set()
        for d in self.track:
            allf |= self.facts_of(d)

        def sets(n):
            if n not in cache:
                cache[n] = self.sets(n)
            return cache[n]

        def block(b, s, rec=None):
            blk = fn.blocks[b]
            for e in blk['e']:
                if isinstance(e, dict):
                    continue
                if rec is not None:
                    nd = self.needs(e) if fn.nodes[e]['k'] == 'Ref' else None
                    if nd and not nd <= s:
                        rec(e, nd - s)
                x = fn.nodes[e]
                if x['k'] == 'Decl':
                    for v in x['vars']:
                        if v['d'] in self.track:
                            s = s - self.facts_of(v['d'])
                st = sets(e)
                if st:
                    s = s | st
            return s
        while work:
            b = min(work, key=lambda z: order.get(z, 1 << 30))
            work.discard(b)
            s = block(b, IN[b])
            if fn.blocks[b].get('nr'):
                continue
            for t in fn.blocks[b]['s']:
                if t < 0:
                    continue
                m = IN[t] & s if t in IN else s
                if t not in IN or m != IN[t]:
                    IN[t] = m
                    work.add(t)
        for b in fn.rpo():
            if b in IN:
                block(b, IN[b], report)
        return len(self.track)


def definite_outs(prog):
    """for each function with a body: the reference/pointer parameters of scalar type it sets on every path to its end"""
    outs = {}
    cand = {}
    for f in prog.fns.values():
        if not f.blocks:
            continue
        ps = {}
        for i, d in enumerate(f.params):
            T = prog.T(f.vars[d]['t'])
            if T.get('ref') == 1 and not flow.cref(prog, T):
                U = prog.T(T['ut']) if 'ut' in T else {}
                if SCALAR.match(U.get('s', '')) or U.get('ptr'):
                    ps[i] = d
        outs[f.key] = set(i for i in range(len(f.params)) if i not in ps)
        if ps:
            cand[f.key] = ps
            outs[f.key] |= set(ps)
    ch = True
    rounds = 0
    while ch and rounds < 8:
        ch = False
        rounds += 1
        for k, ps in cand.items():
            f = prog.fns[k]
            a = Init(f, outs)
            a.track = {d: None for d in ps.values()}
            got = set_at_exit(a)
            for i, d in ps.items():
                if (d, None) not in got and i in outs[k]:
                    outs[k].discard(i)
                    ch = True
    rd = set()
    ch = True
    while ch:
        ch = False
        for k, ps in cand.items():
            a = Init(prog.fns[k], outs, rd)
            a.track = {d: None for i, d in ps.items() if (k, i) not in rd}
            idx = {d: i for i, d in ps.items()}
            hit = set()
            a.run(lambda e, miss: hit.update(idx[d] for d, _ in miss))
            for i in hit:
                rd.add((k, i))
                ch = True
    return outs, rd


def set_at_exit(a):
    fn = a.fn
    IN = {fn.entry: frozenset()}
    work = [fn.entry]
    while work:
        b = work.pop()
        s = IN[b]
        for e in fn.blocks[b]['e']:
            if not isinstance(e, dict):
                s = s | a.sets(e)
        if fn.blocks[b].get('nr'):
            continue
        for t in fn.blocks[b]['s']:
            if t < 0:
                continue
            m = IN[t] & s if t in IN else s
            if t not in IN or m != IN[t]:
                IN[t] = m
                work.append(t)
    return IN.get(fn.exit, frozenset((d, None) for d in a.track))


class Members:
    """scalar members set by a constructor on every path"""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def set_by(self, f, depth=0):
        """members of *this that f surely sets"""
        if f.key in self.memo:
            return self.memo[f.key]
        self.memo[f.key] = frozenset()
        init = set()
        for i in f.o.get('inits', ()):
            if i.get('field'):
                init.add(i['field'])
            elif i.get('deleg') or not i.get('base'):
                n = i.get('i', -1)
                if n >= 0 and f.nodes[n]['k'] == 'Ctor' and f.nodes[n].get('f') in self.prog.fns:
                    g = self.prog.fns[f.nodes[n]['f']]
                    if g.cls == f.cls:
                        init |= self.set_by(g, depth + 1)
        fl = Flow.of(f)
        IN = {f.entry: frozenset(init)}
        work = [f.entry]

        def gen(e):
            out = set()
            x = f.nodes[e]
            if x['k'] == 'Assign' and x['op'] == '=' or x['k'] == 'Call' and x.get('op') == '=':
                for root, path in fl.places(x['c'][0]):
                    if root == ('this',) and len(path) == 1:
                        out.add(path[0])
                    if root == ('this',) and not path:
                        out.add('*')
            if x['k'] in ('Call', 'Ctor'):
                args = x['c'][1:] if x['k'] == 'Call' and x.get('obj') else x.get('c', [])
                for i, a in enumerate(args):
                    if a < 0 or i >= len(x.get('pt', ())):
                        continue
                    T = self.prog.T(x['pt'][i])
                    if T.get('ref') == 1 and not flow.cref(self.prog, T):
                        for root, path in fl.places(a):
                            if root == ('this',) and len(path) == 1:
                                out.add(path[0])
                    elif T.get('ptr'):
                        for root, path in fl.pointees(a):
                            if root == ('this',) and len(path) == 1:
                                out.add(path[0])
                if x['k'] == 'Call' and x.get('obj') and x.get('f') in self.prog.fns and depth < 4:
                    if all(r == ('this',) and not p for r, p in fl.obj_places(e)) and fl.obj_places(e):
                        g = self.prog.fns[x['f']]
                        if g.blocks:
                            out |= self.set_by(g, depth + 1)
                if x['k'] == 'Call' and x.get('fq') == 'memset':
                    out.add('*')
            return out
        while work:
            b = work.pop()
            s = IN[b]
            for e in f.blocks[b]['e']:
                if isinstance(e, dict):
                    if e.get('field'):
                        s = s | {e['field']}
                    continue
                s = s | frozenset(gen(e))
            if f.blocks[b].get('nr'):
                continue
            for t in f.blocks[b]['s']:
                if t < 0:
                    continue
                m = IN[t] & s if t in IN else s
                if t not in IN or m != IN[t]:
                    IN[t] = m
                    work.append(t)
        r = self.memo[f.key] = IN.get(f.exit, frozenset())
        return r


def owner_ok(f, g):
    """f is a member of the class that keeps global g"""
    return f.qn.startswith(g.rsplit('::', 1)[0] + '::') and '::' in g and bool(f.cls)


def by_role(prog, f, role, callers, seen=None):
    """f has the role, or is called only from functions that do"""
    if role.match(f.qn.split('::(lambda)')[0]):
        return True
    seen = seen or set()
    if f.key in seen:
        return True
    seen.add(f.key)
    cs = callers.get(f.key, ())
    if not cs:
        return False
    return all(by_role(prog, prog.fns[c], role, callers, seen) for c in cs)


def run(prop, tier, rep):
    rep.rule = RULE
    prog = ir.load('rel')
    flow.compute_mutated(prog)
    gw = effects.compute(prog)
    callers = {}
    for f in prog.fns.values():
        for x in f.nodes:
            if x['k'] in ('Call', 'Ctor', 'Lambda', 'FnRef') and x.get('f') in prog.fns:
                callers.setdefault(x['f'], set()).add(f.key)
    lib = [f for f in prog.fns.values() if f.file.startswith(ir.SRC) and f.blocks]
    outs, rd = definite_outs(prog)
    # --- 1, 2
    for f in lib:
        rep.count('functions')
        for g, n in effects.direct(f):
            rep.count('accesses to state outside the arguments')
            if g in ('!random', '!clock', '!env'):
                if not by_role(prog, f, RANDOMISED, callers):
                    rep.violation('%s:%s' % (f.qn, g), '%s: %s %s (%s), so its results differ from call to call' % (f.loc(n), f.qn, {'!random': 'draws unseeded random numbers', '!clock': 'reads the clock', '!env': 'consults the environment'}[g], f.text(n)[:70]))
            elif g == '!io':
                continue
            elif not owner_ok(f, g):
                if static_init_only(prog, f, g, n):
                    continue
                rep.violation('%s:%s' % (f.qn, g), '%s: %s changes %s (%s), which outlives the call' % (f.loc(n), f.qn, g, f.text(n)[:70]))
    for f in lib:
        if f.qn.startswith('clpoly::variable::'):
            continue
        for n, x in enumerate(f.nodes):
            if x['k'] in ('Call', 'Ctor', 'FnRef') and x.get('f') in prog.fns and prog.fns[x['f']].qn.startswith('clpoly::variable::'):
                if x['k'] == 'FnRef' or not any(w.startswith('clpoly::variable::') for w in gw[x['f']]):
                    continue
                rep.count('lookups of variables by name')
                if x['k'] == 'Ctor' and any(f.nodes[m]['k'] == 'Str' for m in f.walk(n)) and not any(f.nodes[m]['k'] == 'Ref' for m in f.walk(n)):
                    continue                    # a fixed name: documented for univariate polynomials
                if not by_role(prog, f, REGISTERS, callers):
                    rep.violation('%s:registry' % f.qn, '%s: %s creates variables (%s), so that names and the order of variables depend on which calls came before' % (f.loc(n), f.qn, f.text(n)[:60]))
        if 'clpoly::Zp::_s_prime' in gw[f.key] and f.qn != 'clpoly::Zp::set_prime':
            rep.violation('%s:_s_prime' % f.qn, '%s: %s changes the default modulus' % (f.loc(), f.qn))
        for n in flow.reach_nodes(f):
            x = f.nodes[n]
            if x['k'] == 'Decl':
                for v in x['vars']:
                    if f.vars[v['d']]['k'] == 'staticlocal':
                        rep.count('static locals')
                        if not static_init_only(prog, f, f.vars[v['d']].get('qn', f.vars[v['d']]['n']), n):
                            rep.violation('%s:static' % f.qn, '%s: %s keeps %s between calls, set from the arguments of the first call' % (f.loc(n), f.qn, f.vars[v['d']]['n']))
    # --- 3
    for f in lib:
        for n, x in enumerate(f.nodes):
            if x['k'] == 'Decl':
                for v in x['vars']:
                    if keyed_by_address(prog.tstr(f.vars[v['d']]['t'])):
                        rep.violation('%s:ptrkey' % f.qn, '%s: %s orders by addresses (%s)' % (f.loc(n), f.qn, prog.tstr(f.vars[v['d']]['t'])[:80]))
            elif x['k'] == 'ForRange':
                r = x.get('range', -1)
                if r is not None and r >= 0 and HASHORD.search(prog.tstr(f.nodes[r].get('t'))[:60]):
                    rep.violation('%s:hashorder' % f.qn, '%s: %s goes through a hashed container, whose order is not fixed' % (f.loc(n), f.qn))
            elif x['k'] == 'Call':
                nm = x.get('fq', '').split('::')[-1]
                if nm in ('begin', 'cbegin') and x.get('c') and x.get('cls', '').startswith('std::unordered'):
                    rep.violation('%s:hashorder' % f.qn, '%s: %s goes through a hashed container, whose order is not fixed' % (f.loc(n), f.qn))
                if x.get('cls', '').startswith('std::hash') and x.get('op') == '()' and len(x.get('c', ())) == 2 and prog.T(f.nodes[x['c'][1]].get('t')).get('ptr'):
                    rep.violation('%s:ptrhash' % f.qn, '%s: %s hashes an address' % (f.loc(n), f.qn))
            elif x['k'] == 'Bin' and x['op'] in ('<', '>', '<=', '>=') and len(x['c']) == 2 and all(c >= 0 and f.T(c).get('ptr') for c in x['c']):
                a, b = (Flow.of(f).pointees(c) for c in x['c'])
                rep.count('address comparisons')
                if not (a & b):
                    rep.violation('%s:ptrorder' % f.qn, '%s: %s compares addresses of different objects (%s)' % (f.loc(n), f.qn, f.text(n)[:70]))
            elif x['k'] == 'Cast' and x.get('ck') == 'PointerToIntegral':
                rep.violation('%s:ptrint' % f.qn, '%s: %s turns an address into a number (%s)' % (f.loc(n), f.qn, f.text(n)[:70]))
    # --- 4
    for f in lib:
        a = Init(f, outs, rd)
        n = a.run(lambda e, miss, f=f: rep.violation('%s:%s' % (f.qn, f.nodes[e]['n']), '%s: %s reads %s before it is set on some path' % (f.loc(e), f.qn, f.nodes[e]['n'] + ''.join('.' + m for _, m in sorted(miss, key=str) if m))))
        rep.count('variables declared unset', n)
    mem = Members(prog)
    done = set()
    for f in lib:
        if f.kind not in ('ctor', 'dc', 'cc', 'mc') or f.o.get('dfl'):
            continue
        r = prog.records.get(f.cls) or prog.records.get(prog.tstr(f.o.get('clst')))
        if r is None:
            continue
        rep.count('constructors')
        got = mem.set_by(f)
        miss = [x['name'] for x in r['fields'] if scalar(prog, x['t']) and not x['init'] and x['name'] not in got] if '*' not in got else []
        if miss and not (f.cls == 'clpoly::ZZ'):
            rep.violation('%s:%s' % (f.qn, ','.join(miss)), '%s: a constructor of %s leaves %s unset' % (f.loc(), f.cls, ', '.join(miss)))
    # --- 5
    for k, r in prog.records.items():
        mut = [x for x in r['fields'] if x['mut']]
        if mut and r['file'].startswith(ir.SRC):
            rep.count('classes with mutable members')
            Cache(prog, k, r, mut, rep).run()
    rep.need('functions', 1000)
    rep.need('variables declared unset', 20)
    rep.need('constructors', 60)


class Cache:
    """a class that keeps computed values in mutable members: a flag member says whether they are valid. Facts along paths:
    T the flag is known true, W every cache member was assigned since the last change of what it is computed from,
    F the flag is known false."""

    def __init__(self, prog, k, r, mut, rep):
        self.prog, self.k, self.r, self.rep = prog, k, r, rep
        self.flags = [x['name'] for x in mut if prog.tstr(x['t']) == 'bool']
        self.cache = {x['name'] for x in mut if prog.tstr(x['t']) != 'bool'}
        self.inputs = {x['name'] for x in r['fields'] if not x['mut']}

    def run(self):
        if not self.cache:
            return
        if len(self.flags) != 1:
            self.rep.violation('%s:flag' % self.k, '%s keeps %s between calls of const operations without a flag that says whether it is valid' % (self.k, ', '.join(sorted(self.cache))))
            return
        fl = next(x for x in self.r['fields'] if x['name'] == self.flags[0])
        if not fl['init']:
            self.rep.violation('%s:flag' % self.k, '%s: the flag %s is not initialised' % (self.k, self.flags[0]))
        for f in self.prog.fns.values():
            if f.blocks and not f.o.get('lambda') and self.prog.tstr(f.o.get('clst')) == self.k:
                self.method(f)

    def field(self, f, n):
        for root, path in Flow.of(f).places(n):
            if root == ('this',) and path:
                return path[0]
        return None

    def method(self, f):
        flow_ = Flow.of(f)
        flag = self.flags[0]
        ctor = f.kind in ('ctor', 'dc')
        copies = f.kind in ('cc', 'mc', 'ca', 'ma')
        if copies:
            return
        self.rep.count('methods of caching classes')
        start = frozenset({'F'}) if ctor else frozenset()
        IN = {f.entry: start}
        work = [f.entry]
        prog = self.prog

        def step(n, s, rec):
            x = f.nodes[n]
            if x['k'] == 'Mem' and self.field(f, n) in self.cache and rec is not None:
                p = f.parent.get(n)
                y = f.nodes[p] if p is not None else {}
                written = y.get('k') == 'Assign' and y['c'][0] == n or y.get('k') == 'Call' and (y.get('op') == '=' and y['c'][0] == n or y.get('obj') and y['c'][0] == n and y.get('fq', '').split('::')[-1] in ('clear', 'push_back', 'assign', 'swap', 'reserve', 'resize', 'emplace_back'))
                if not written and not ('T' in s or 'W' in s):
                    rec(n, 'uses %s without knowing that it is valid' % x['n'])
            for (root, path), strong, kind in flow_.writes(n):
                if root != ('this',):
                    continue
                if not path:
                    s = frozenset()
                    continue
                m = path[0]
                if m in self.inputs:
                    s = s - {'T', 'W'} if 'F' in s else frozenset({'stale'})
                elif m in self.cache:
                    s = s | {'W'} if x['k'] == 'Assign' or x.get('op') == '=' else s
                elif m == flag:
                    v = f.nodes[self.skip(f, x['c'][1])] if len(x.get('c', ())) > 1 else {}
                    if v.get('k') == 'Bool' and v['v'] in ('0', 'false', False):
                        s = (s - {'T', 'stale'}) | {'F'}
                    elif v.get('k') == 'Bool':
                        if 'W' not in s and rec is not None:
                            rec(n, 'declares the kept value valid without having computed it')
                        s = (s - {'F', 'stale'}) | {'T'}
                    elif rec is not None:
                        rec(n, 'sets the flag %s to something that is not decided' % flag)
            return s

        def block(b, s, rec=None):
            for e in f.blocks[b]['e']:
                if not isinstance(e, dict):
                    s = step(e, s, rec)
            return s
        while work:
            b = work.pop()
            s = block(b, IN[b])
            blk = f.blocks[b]
            if blk.get('nr'):
                continue
            for j, t in enumerate(blk['s']):
                if t < 0:
                    continue
                o = s
                if 'cond' in blk and len(blk['s']) == 2:
                    v = self.tests(f, blk['cond'], j == 0)
                    if v is not None:
                        o = o | {'T'} if v and 'stale' not in o else (o | {'F'} if not v else o)
                m = IN[t] & o if t in IN else o
                if t in IN and 'stale' in (IN[t] | o):
                    m = m | {'stale'}
                if t not in IN or m != IN[t]:
                    IN[t] = m
                    work.append(t)
        for b in f.rpo():
            if b in IN:
                block(b, IN[b], lambda n, why: self.rep.violation('%s:cache' % f.qn, '%s: %s %s' % (f.loc(n), f.qn, why)))
        if 'stale' in IN.get(f.exit, ()):
            self.rep.violation('%s:cache' % f.qn, '%s: %s changes what the kept value is computed from and leaves the flag %s as it was' % (f.loc(), f.qn, flag))

    def skip(self, f, n):
        while n >= 0 and (f.nodes[n]['k'] in ('Cast', 'Paren') or f.nodes[n]['k'].endswith('CastExpr')):
            n = f.nodes[n]['c'][0]
        return n

    def tests(self, f, n, truth):
        n = self.skip(f, n)
        x = f.nodes[n]
        if x['k'] == 'Un' and x['op'] == '!':
            return self.tests(f, x['c'][0], not truth)
        if x['k'] == 'Mem' and self.field(f, n) == self.flags[0]:
            return truth
        return None


def static_init_only(prog, f, g, n):
    """the initialisation of a static constant: run once, from constants"""
    x = f.nodes[n]
    v = [v for v in f.vars if v.get('qn', v['n']) == g and v['k'] == 'staticlocal']
    if not v:
        return False
    if x['k'] != 'Decl':
        return False
    for w in x['vars']:
        if f.vars[w['d']].get('qn', f.vars[w['d']]['n']) == g and 'i' in w:
            for m in f.walk(w['i']):
                y = f.nodes[m]
                if y['k'] == 'This' or y['k'] == 'Ref' and f.vars[y['d']]['k'] in ('param', 'local'):
                    return False
    return True


def keyed_by_address(t):
    m = re.match(r'(?:const )?std::(map|set|multimap|multiset|priority_queue)<', t)
    if not m:
        return False
    d = 0
    for i in range(m.end(), len(t)):
        if t[i] in '<(':
            d += 1
        elif t[i] in '>)' and d:
            d -= 1
        elif t[i] in ',>' and d == 0:
            return t[m.end():i].rstrip().endswith('*')
    return False
