"""L01: an argument may be input and output at once.

For every function with an output parameter (or object) and an input parameter of the same type, the paths consistent with the two
being the same object are followed: once the output has been written, the input must not be read any more."""
import re
import ir, flow
from flow import Flow

RULE = 'on every path consistent with an output and an input being the same object, the input is not read after the output was written'


def norm(s):
    s = s.replace('const ', '')
    while s.endswith('&') or s.endswith(' '):
        s = s[:-1]
    return s


def pairs(prog, f):
    """[(o, i)] of parameter indices (-1 the object) that may be the same object"""
    outs, ins = [], []
    mut = flow.mutated(f)
    for i, d in enumerate(f.params):
        T = prog.T(f.vars[d]['t'])
        if T.get('ref') != 1:
            continue
        U = norm(prog.tstr(T['ut']) if 'ut' in T else T['s'])
        if flow.cref(prog, T) or i not in mut:
            ins.append((i, U))
        else:
            outs.append((i, U))
    if f.cls and not f.o.get('static') and 'this' in mut and f.kind not in ('ctor', 'cc', 'mc', 'dc', 'dtor'):
        outs.append((-1, norm(prog.tstr(f.o.get('clst')))))
    elif f.cls and not f.o.get('static') and f.kind not in ('ctor', 'cc', 'mc', 'dc', 'dtor'):
        ins.append((-1, norm(prog.tstr(f.o.get('clst')))))
    # an input of the element type may be an element of the object
    return [(o, i) for o, U in outs for i, V in ins if U == V or o == -1 and i != -1 and len(V) > 3 and element(prog, f, V)]


def element(prog, f, V):
    """objects of f's class keep elements of type V in containers that move them"""
    c = f.o.get('clst')
    if c is None:
        return False
    T = prog.tstr(c)
    m = re.search(r'\bgraph<(.*)>$', T)
    if m:
        return m.group(1) == V
    m = re.search(r'\b(basic_polynomial|basic_monomial)<', T)
    return bool(m) and V in T and ('basic_monomial' in V and m.group(1) == 'basic_polynomial' or V in ('clpoly::ZZ', 'clpoly::QQ', 'clpoly::Zp', 'clpoly::variable'))


def skip(f, n):
    while n >= 0:
        x = f.nodes[n]
        if x['k'] in ('Cast', 'Paren') or x['k'].endswith('CastExpr'):
            n = x['c'][0]
        elif x['k'] == 'Call' and x.get('fq', '').split('::')[-1] == '__builtin_expect':
            n = x['c'][0]
        else:
            break
    return n


def single_init(f, d):
    ds = [v['i'] for y in f.nodes if y['k'] == 'Decl' for v in y['vars'] if v['d'] == d and 'i' in v]
    if len(ds) != 1 or any(y['k'] == 'Assign' and f.nodes[skip(f, y['c'][0])].get('d') == d for y in f.nodes):
        return None
    return ds[0]


class Pair:
    def __init__(self, f, o, i, unsafe):
        self.f, self.o, self.i, self.unsafe = f, o, i, unsafe
        self.prog = f.prog
        self.fl = Flow.of(f)
        self.R = ('this',) if o == -1 else ('v', f.params[o])
        self.S = ('this',) if i == -1 else ('v', f.params[i])

    def same_test(self, n, truth, f=None, env=None, depth=0):
        """n compares the addresses of the two: returns whether they are the same on this edge"""
        f = f or self.f
        if depth > 6:
            return None
        n = skip(f, n)
        x = f.nodes[n]
        if x['k'] == 'Un' and x['op'] == '!':
            return self.same_test(x['c'][0], not truth, f, env, depth + 1)
        if x['k'] == 'Bin' and x['op'] in ('==', '!='):
            a, b = (self.addr(c, f, env, depth) for c in x['c'])
            if a is not None and b is not None and {a, b} == {self.R, self.S}:
                return truth == (x['op'] == '==')
            for c, d in (x['c'], x['c'][::-1]):
                y = f.nodes[skip(f, d)]
                if y['k'] in ('Bool', 'Int') and y.get('v') in (0, 1, '0', '1', True, False):
                    v = y['v'] in (1, '1', True)
                    return self.same_test(c, truth == (v == (x['op'] == '==')), f, env, depth + 1)
        if x['k'] == 'Bin' and x['op'] in ('&&', '||'):
            if truth == (x['op'] == '&&'):
                for c in x['c']:
                    r = self.same_test(c, truth, f, env, depth + 1)
                    if r is not None:
                        return r
            else:
                rs = [self.same_test(c, truth, f, env, depth + 1) for c in x['c']]
                if rs[0] is not None and rs[0] == rs[1]:
                    return rs[0]
        if x['k'] == 'Ref' and f.vars[x['d']]['k'] == 'local':
            i = single_init(f, x['d'])
            if i is not None and self.prog.tstr(f.vars[x['d']]['t']) in ('bool', 'const bool'):
                return self.same_test(i, truth, f, env, depth + 1)
        if x['k'] == 'Call' and x.get('f') in self.prog.fns and not x.get('obj'):
            g = self.prog.fns[x['f']]
            rets = [y for y in g.nodes if y['k'] == 'Return' and y.get('c')]
            if g.blocks and len(rets) == 1 and len(x['c']) == len(g.params):
                e = {p: self.place(a, f, env, depth) for p, a in zip(g.params, x['c'])}
                for p, a in zip(g.params, x['c']):
                    if self.prog.T(g.vars[p]['t']).get('ptr'):
                        e[p] = ('&', self.addr(a, f, env, depth))
                return self.same_test(rets[0]['c'][0], truth, g, e, depth + 1)
        return None

    def place(self, n, f, env, depth=0):
        """the object the glvalue n designates"""
        n = skip(f, n)
        y = f.nodes[n]
        if y['k'] == 'Ref':
            if env is not None:
                return env.get(y['d'])
            v = f.vars[y['d']]
            if v['k'] == 'local' and self.prog.T(v['t']).get('ref') and depth < 6:
                i = single_init(f, y['d'])
                return self.place(i, f, env, depth + 1) if i is not None else None
            return ('v', y['d'])
        if y['k'] == 'Un' and y['op'] == '*' and f.nodes[skip(f, y['c'][0])]['k'] == 'This' and env is None:
            return ('this',)
        if y['k'] == 'Call' and y.get('obj') and y.get('fq', '').split('::')[-1] == 'data' and not self.prog.T(y['t']).get('ptr'):
            return self.place(y['c'][0], f, env, depth)
        return None

    def addr(self, n, f, env, depth=0):
        """the object whose address n is"""
        n = skip(f, n)
        x = f.nodes[n]
        if x['k'] == 'This':
            return ('this',) if env is None else None
        if x['k'] == 'Ref':
            if env is not None:
                r = env.get(x['d'])
                return r[1] if isinstance(r, tuple) and r[0] == '&' else None
            if f.vars[x['d']]['k'] == 'local' and depth < 6:
                i = single_init(f, x['d'])
                return self.addr(i, f, env, depth + 1) if i is not None else None
            return None
        if x['k'] == 'Un' and x['op'] == '&' or x['k'] == 'Call' and x.get('fq', '').split('::')[-1] in ('addressof', '__addressof'):
            return self.place(x['c'][0], f, env, depth)
        return None

    def reads(self, n):
        """node n reads the content of the input"""
        f = self.f
        x = f.nodes[n]
        k = x['k']
        hit = False
        if k == 'Ref' and self.S == ('v', x.get('d')):
            hit = True
            p = f.parent.get(n)
            y = f.nodes[p] if p is not None else {}
            if y.get('k') == 'Un' and y['op'] == '&' or y.get('k') == 'Sizeof':
                return False
            if y.get('k') == 'Call' and y.get('fq', '').split('::')[-1] in ('comp', 'comp_ptr', 'prime', 'swap'):
                return False
            if y.get('k') in ('Call', 'Ctor'):
                return False            # judged at the call
            if y.get('k') == 'Decl':
                return False
            if y.get('k') == 'Mem' or y.get('k') == 'Return' and f.T(n):
                return y.get('k') == 'Return' and not self.prog.tstr(f.o.get('ret')).endswith('&')
        elif k == 'Mem' and not x.get('fn') or k == 'Index' or k == 'Un' and x['op'] == '*' or k == 'Call' and x.get('op') in ('*', '->', '[]'):
            hit = any(p[0] == self.S for p in self.fl.places(n))
            p = f.parent.get(n)
            y = f.nodes[p] if p is not None else {}
            if y.get('k') == 'Assign' and y['op'] == '=' and y['c'][0] == n:
                return False
            if y.get('k') == 'Mem' or y.get('k') == 'Call' and y.get('obj') and y['c'][0] == n:
                return False
        elif k in ('Call', 'Ctor'):
            c = x.get('c', [])
            nm = x.get('fq', '').split('::')[-1]
            if nm in ('move', 'forward', 'comp', 'comp_ptr', 'swap', 'begin', 'end', 'data', 'prime', 'addressof'):
                return False
            for a in c:
                if a >= 0 and any(p[0] == self.S for p in self.fl.places(a)):
                    hit = True
        return hit

    def call_writes(self, n):
        """call n gets both: does it write the output and read the input afterwards?"""
        f = self.f
        x = f.nodes[n]
        if x['k'] not in ('Call', 'Ctor') or x.get('f') not in self.prog.fns:
            return False
        g = self.prog.fns[x['f']]
        args = list(enumerate(x.get('c', [])))
        if x['k'] == 'Call' and x.get('obj'):
            args = [(i - 1, a) for i, a in args]
        elif x.get('op') and g.cls and not g.o.get('static') and len(args) == len(g.params) + 1:
            args = [(i - 1, a) for i, a in args]
        os = [i for i, a in args if a >= 0 and any(p[0] == self.R and not p[1] for p in (self.fl.obj_places(n) if i == -1 and x.get('obj') else self.fl.places(a)))]
        is_ = [i for i, a in args if a >= 0 and any(p[0] == self.S and not p[1] for p in (self.fl.obj_places(n) if i == -1 and x.get('obj') else self.fl.places(a)))]
        return [(g, o, i) for o in os for i in is_ if (g.key, o, i) in self.unsafe]

    def rpath(self, e):
        """the part of the input element e reads: a tuple of fields, () for all of it"""
        f = self.f
        x = f.nodes[e]
        out = set()
        if x['k'] == 'Call' and x.get('obj'):
            fl = flow.ret_field(self.prog.fns.get(x.get('f')))
            if fl and all(p[0] != self.S for a in x['c'][1:] if a >= 0 for p in self.fl.places(a)):
                return {(fl,)}
        if x['k'] == 'Mem':
            return {p[1] for p in self.fl.places(e) if p[0] == self.S}
        if x['k'] in ('Call', 'Ctor'):
            for a in x.get('c', ()):
                if a >= 0:
                    out |= self.apath(a, self.S)
            if x.get('obj') and x.get('arrow'):
                out.add(())
            return out or {()}
        return {()}

    def apath(self, a, root):
        f = self.f
        n = skip(self.f, a)
        y = f.nodes[n]
        if y['k'] == 'Call' and y.get('obj'):
            fl = flow.ret_field(self.prog.fns.get(y.get('f')))
            if fl:
                return {p[1] + (fl,) for p in self.fl.obj_places(n) if p[0] == root}
        return {p[1] for p in self.fl.places(a) if p[0] == root}

    def wpaths(self, e):
        """parts of the output element e writes"""
        f = self.f
        x = f.nodes[e]
        ws = [p for p, strong, kind in self.fl.writes(e) if p[0] == self.R]
        if not ws:
            return ()
        if x['k'] == 'Call':
            if x.get('fq', '').split('::')[-1] in ('reserve', 'comp', 'shrink_to_fit'):
                return ()
            out = set()
            for p in ws:
                if not p[1]:
                    q = set()
                    for a in x.get('c', ()):
                        if a >= 0:
                            q |= self.apath(a, self.R)
                    out |= q or {()}
                else:
                    out.add(p[1])
            return out
        return {p[1] for p in ws}

    def run(self):
        f = self.f
        if f.o.get('dfl'):
            return []
        IN = {f.entry: frozenset()}
        work = [f.entry]
        bad = []

        def block(b, s, rec):
            for e in f.blocks[b]['e']:
                if isinstance(e, dict):
                    continue
                if rec:
                    if s and self.reads(e) and any(m[:min(len(m), len(w))] == w[:min(len(m), len(w))] for m in self.rpath(e) for w in s):
                        bad.append((e, None))
                    for g, o, i in self.call_writes(e) or ():
                        bad.append((e, g))
                s = s | frozenset(self.wpaths(e))
            return s
        while work:
            b = work.pop()
            s = block(b, IN[b], False)
            blk = f.blocks[b]
            if blk.get('nr'):
                continue
            for j, t in enumerate(blk['s']):
                if t < 0:
                    continue
                if 'cond' in blk and len(blk['s']) == 2:
                    if self.same_test(blk['cond'], j == 0) is False:
                        continue
                m = IN.get(t, frozenset()) | s
                if t not in IN or m != IN[t]:
                    IN[t] = m
                    work.append(t)
        for b in f.rpo():
            if b in IN:
                block(b, IN[b], True)
        return bad


def unsafe_pairs(prog):
    unsafe = {}
    fs = []
    for f in prog.fns.values():
        if f.file.startswith(ir.SRC) and f.blocks and not f.o.get('lambda') and '/number' not in f.file:
            pr = pairs(prog, f)
            if pr:
                fs.append((f, pr))
    ch = True
    while ch:
        ch = False
        for f, pr in fs:
            for o, i in pr:
                if (f.key, o, i) in unsafe:
                    continue
                b = Pair(f, o, i, unsafe).run()
                if b:
                    unsafe[(f.key, o, i)] = b
                    ch = True
    return unsafe, fs


def pname(f, i):
    return 'the object' if i == -1 else f.vars[f.params[i]]['n']


def internal(f):
    return any(p.startswith('_') for p in f.qn.split('::'))


def args_of(prog, f, x, g):
    """[(parameter index, argument node, places)] of a call to g"""
    fl = Flow.of(f)
    args = list(enumerate(x.get('c', [])))
    if x['k'] == 'Call' and x.get('obj') or x.get('op') and g.cls and not g.o.get('static') and len(args) == len(g.params) + 1:
        args = [(i - 1, a) for i, a in args]
    return {i: a for i, a in args if a >= 0}


def same_arg(f, x, a, b, oo, io):
    """the two arguments designate the same object"""
    fl = Flow.of(f)
    if a == b:
        return False
    ta, tb = f.text(a), f.text(b)
    pa = fl.obj_places(oo) if oo is not None else fl.places(a)
    pb = fl.obj_places(io) if io is not None else fl.places(b)
    fix = lambda ps: {p for p in ps if p[0][0] in ('v', 'this', 'g') and '[]' not in p[1] and '*' not in p[1]}
    if fix(pa) & fix(pb):
        return True
    strip = lambda n: n
    return ta == tb and ta and '(' not in ta.replace('()', '') and bool(pa & pb) and '++' not in ta


def run(prop, tier, rep):
    rep.rule = RULE
    prog = ir.load('dbg')
    flow.compute_mutated(prog)
    unsafe, fs = unsafe_pairs(prog)
    rep.count('functions', len(fs))
    rep.count('output_input_pairs', sum(len(p) for _, p in fs))
    for f, pr in fs:
        if internal(f):
            continue
        for o, i in pr:
            rep.count('public_pairs')
            b = unsafe.get((f.key, o, i))
            if b:
                e, g = b[0]
                rep.violation('%s(%s,%s)' % (f.qn, pname(f, o), pname(f, i)), '%s: %s may be called with %s and %s the same object, but "%s" reads %s after %s was written%s' % (
                    f.loc(e), f.qn, pname(f, o), pname(f, i), f.text(e)[:60], pname(f, i), pname(f, o), (' (inside %s)' % g.qn) if g is not None else ''))
    keys = {k for k, _, _ in unsafe}
    for f in prog.fns.values():
        if not f.file.startswith(ir.SRC) or not f.blocks:
            continue
        for n, x in enumerate(f.nodes):
            if x['k'] != 'Call' or x.get('f') not in prog.fns:
                continue
            g = prog.fns[x['f']]
            args = args_of(prog, f, x, g)
            for o, i in pairs(prog, g) if g.blocks and '/number' not in g.file else ():
                if o not in args or i not in args:
                    continue
                rep.count('call_sites')
                if (g.key, o, i) not in unsafe:
                    continue
                rep.count('call_sites_of_internal_functions')
                arrow = lambda j: n if j == -1 and x.get('obj') and x.get('arrow') else None
                if same_arg(f, x, args[o], args[i], arrow(o), arrow(i)):
                    rep.violation('%s->%s' % (f.qn, g.qn), '%s: %s passes the same object as %s and %s of %s, which reads the latter after writing the former' % (
                        f.loc(n), f.qn, pname(g, o), pname(g, i), g.qn))
    rep.need('public_pairs', 200)
    rep.need('call_sites', 300)
