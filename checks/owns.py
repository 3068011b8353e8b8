"""O01: copies, moves and swaps carry every member.

Every written-out copy/move constructor, copy/move assignment and swap of a class is followed path by path with one symbol per
member of each operand (a transfer function over the members). At each return the members of the target must be the members
the source had at entry; the members of the other operand of a swap those the target had. Assignment and swap are followed a
second time with both operands the same object: it must come out unchanged."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir

SKIP = {'clpoly::ZZ'}    # tagged words, decided under N01-N05


class Unknown(Exception):
    pass


class State:
    def __init__(self):
        self.f = {}      # (object, member) -> value
        self.env = {}    # (frame, var) -> value
        self.eq = frozenset()    # pairs of values the path has found equal
        self.n = 0

    def copy(self):
        s = State()
        s.f, s.env, s.n, s.eq = dict(self.f), dict(self.env), self.n, self.eq
        return s


def base(prog, t):
    return re.sub(r'^const | [&]+$|&+$', '', prog.tstr(t)).strip()


class Walk:
    def __init__(self, prog, cls, fields):
        self.prog, self.cls, self.fields = prog, cls, fields
        self.depth = 0
        self.paths = 0
        self.frames = 0

    # value of a place or value
    def val(self, st, v):
        if isinstance(v, tuple) and v[0] == 'loc':
            return st.f.get(v[1:], ('S',) + v[1:])
        return v

    def roots(self, fn):
        used = {e['i'] for b in (fn.blocks.values() if isinstance(fn.blocks, dict) else fn.blocks) for e in b['e'] if isinstance(e, dict) and e.get('i') is not None}
        for i, x in enumerate(fn.nodes):
            if x['k'] in ('FnRef', 'Block', 'If', 'For', 'While', 'Do', 'ForRange', 'Switch', 'CaseStmt', 'DefaultStmt') or x['k'] == 'Mem' and x.get('fn'):
                continue
            for c in x.get('c', ()):
                used.add(c)
            if x['k'] == 'Decl':
                for v in x['vars']:
                    if 'i' in v:
                        used.add(v['i'])
        return used

    def call(self, fn, st, this, args):
        """all ways through fn: yields (state, returned value)"""
        if self.depth > 8 or not fn.blocks:
            raise Unknown('call of %s' % fn.qn)
        self.depth += 1
        self.frames += 1
        fr = self.frames
        try:
            for d, a in zip(fn.params, args):
                st.env[(fr, d)] = a
            used = self.roots(fn)
            conds = {b['cond'] for b in fn.blocks.values() if 'cond' in b} if isinstance(fn.blocks, dict) else {b['cond'] for b in fn.blocks if 'cond' in b}
            out = []
            todo = [(fn.entry, st, frozenset())]
            while todo:
                b, st, seen = todo.pop()
                if b in seen:
                    raise Unknown('a loop in %s' % fn.qn)
                blk = fn.blocks[b]
                states = [(st, None)]
                for e in blk['e']:
                    nxt = []
                    for s, ret in states:
                        if ret is not None:
                            nxt.append((s, ret))
                            continue
                        if isinstance(e, dict):
                            if 'field' in e:
                                if e.get('i') is not None and this is not None:
                                    for v, s2 in self.ev(fn, e['i'], s, fr, this):
                                        s2.f[(this, e['field'])] = self.val(s2, v)
                                        nxt.append((s2, None))
                                    continue
                            nxt.append((s, None))
                            continue
                        if e in used or e in conds:
                            nxt.append((s, None))
                            continue
                        x = fn.nodes[e]
                        if x['k'] == 'Return':
                            if x.get('c'):
                                for v, s2 in self.ev(fn, x['c'][0], s, fr, this):
                                    nxt.append((s2, ('r', v)))
                            else:
                                nxt.append((s, ('r', None)))
                        elif x['k'] == 'Decl':
                            cur = [s]
                            for v in x['vars']:
                                if 'i' in v:
                                    c2 = []
                                    for s1 in cur:
                                        for val, s2 in self.ev(fn, v['i'], s1, fr, this):
                                            t = self.prog.tstr(fn.vars[v['d']]['t'])
                                            s2.env[(fr, v['d'])] = val if t.endswith('&') or isinstance(val, tuple) and val[0] in ('obj', 'ptr') else self.val(s2, val)
                                            c2.append(s2)
                                    cur = c2
                            nxt += [(s2, None) for s2 in cur]
                        else:
                            for v, s2 in self.ev(fn, e, s, fr, this):
                                nxt.append((s2, None))
                    states = nxt
                for s, ret in states:
                    if ret is not None:
                        out.append((s, ret[1]))
                        continue
                    if blk.get('nr'):
                        continue
                    su = [x for x in blk['s']]
                    if not su or su == [fn.exit]:
                        out.append((s, None))
                        continue
                    if 'cond' in blk and len(su) == 2:
                        for v, s2 in self.ev(fn, blk['cond'], s, fr, this):
                            for k, nb in enumerate(su):
                                if nb is None or nb < 0:
                                    continue
                                if v is True and k == 1 or v is False and k == 0:
                                    continue
                                s3 = s2.copy()
                                kk, v0 = k, v
                                while isinstance(v, tuple) and v[:1] == ('not',):
                                    v, kk = v[1], 1 - kk
                                if isinstance(v, tuple) and v[:1] in (('bin',), ('call',)) and len(v) == 4 and (v[1] in ('==', 'operator==') and kk == 0 or v[1] in ('!=', 'operator!=') and kk == 1):
                                    s3.eq |= {(v[2], v[3]), (v[3], v[2])}
                                v = v0
                                if nb == fn.exit:
                                    out.append((s3, None))
                                else:
                                    todo.append((nb, s3, seen | {b}))
                    else:
                        for nb in su:
                            if nb is None or nb < 0:
                                continue
                            if nb == fn.exit:
                                out.append((s.copy(), None))
                            else:
                                todo.append((nb, s.copy(), seen | {b}))
                if len(todo) > 200 or len(out) > 400:
                    raise Unknown('too many paths in %s' % fn.qn)
            return out
        finally:
            self.depth -= 1

    def evs(self, fn, ids, st, fr, this):
        acc = [([], st)]
        for i in ids:
            acc = [(vs + [v], s2) for vs, s in acc for v, s2 in self.ev(fn, i, s, fr, this)]
        return acc

    def ev(self, fn, n, st, fr, this):
        """[(value, state)]"""
        x = fn.nodes[n]
        k = x['k']
        c = [i for i in x.get('c', []) if i >= 0]
        if k == 'Ref':
            return [(st.env.get((fr, x['d']), ('var', x['n'])), st)]
        if k == 'This':
            return [(('ptr', ('obj', this)), st)]
        if k in ('Int', 'Bool', 'Null', 'Str', 'Float'):
            return [(('cst', x.get('v')), st)]
        if k == 'FnRef':
            return [(('fn', x.get('f')), st)]
        if k == 'Mem' and not x.get('fn'):
            out = []
            for v, s in (self.ev(fn, c[0], st, fr, this) if c else [(('ptr', ('obj', this)), st)]):
                if v[0] == 'ptr':
                    v = v[1]
                if v[0] == 'obj' and x['n'] in self.fields:
                    out.append((('loc', v[1], x['n']), s))
                else:
                    out.append((('mem', v, x['n']), s))
            return out
        if k == 'Un':
            out = []
            for v, s in self.ev(fn, c[0], st, fr, this):
                if x['op'] == '&':
                    out.append((('ptr', v), s))
                elif x['op'] == '*':
                    out.append((v[1] if v[0] == 'ptr' else ('deref', self.val(s, v)), s))
                elif x['op'] == '!':
                    out.append((not v if isinstance(v, bool) else ('not', v), s))
                elif x['op'] in ('++', '--', 'post++', 'post--') and v[0] == 'loc':
                    s.f[v[1:]] = ('chg', self.val(s, v))
                    out.append((v, s))
                else:
                    out.append((('un', x['op'], self.val(s, v)), s))
            return out
        if k == 'Assign':
            out = []
            for (r,), s in self.evs(fn, [c[1]], st, fr, this):
                for l, s2 in self.ev(fn, c[0], s, fr, this):
                    rv = self.val(s2, r)
                    if x['op'] != '=':
                        rv = ('chg', self.val(s2, l), rv)
                    if l[0] == 'loc':
                        s2.f[l[1:]] = rv
                    elif fn.nodes[c[0]]['k'] == 'Ref':
                        s2.env[(fr, fn.nodes[c[0]]['d'])] = rv
                    out.append((l, s2))
            return out
        if k == 'Bin':
            out = []
            for (a, b), s in self.evs(fn, c[:2], st, fr, this):
                if x['op'] in ('==', '!=') and a[0] == b[0] == 'ptr' and a[1][0] == b[1][0] == 'obj':
                    e = a[1] == b[1]
                    out.append((e if x['op'] == '==' else not e, s))
                elif x['op'] in ('&&', '||') and isinstance(a, bool) and isinstance(b, bool):
                    out.append(((a and b) if x['op'] == '&&' else (a or b), s))
                else:
                    out.append((('bin', x['op'], self.val(s, a), self.val(s, b)), s))
            return out
        if k == 'Ctor':
            return self.ctor(fn, n, x, c, st, fr, this)
        if k == 'Call':
            return self.evcall(fn, n, x, c, st, fr, this)
        if k == 'Cond':
            out = []
            for v, s in self.ev(fn, c[0], st, fr, this):
                for i in ([1] if v is True else [2] if v is False else [1, 2]):
                    out += self.ev(fn, c[i], s.copy(), fr, this)
            return out
        if k == 'Cast' and len(c) == 1 or len(c) == 1 and k in ('Paren', 'InitList', 'Bind', 'Temp', 'ExprWithCleanups'):
            r = self.ev(fn, c[0], st, fr, this)
            if k == 'InitList':
                r = [(self.val(s, v), s) for v, s in r]
            return r
        out = []
        for vs, s in self.evs(fn, c, st, fr, this):
            out.append((('x', k) + tuple(self.val(s, v) for v in vs), s))
        return out

    def ctor(self, fn, n, x, c, st, fr, this):
        out = []
        for vs, s in self.evs(fn, c, st, fr, this):
            ck = x.get('ck')
            t = base(self.prog, x['t']) if x.get('t') is not None else ''
            callee = self.prog.fns.get(x.get('f'))
            if t == self.cls and callee is not None and callee.blocks:
                s.n += 1
                o = 'new%d_%d' % (s.n, self.frames)
                for s2, r in self.call(callee, s, o, vs):
                    out.append((('obj', o), s2))
                continue
            if len(vs) == 1 and ck in ('copy', 'move', 'cc', 'mc'):
                v = self.val(s, vs[0])
                if ck in ('move', 'mc') and vs[0][0] == 'loc':
                    s.f[vs[0][1:]] = ('moved', v)
                out.append((v, s))
                continue
            if len(vs) == 1 and vs[0][0] == 'obj':
                out.append((vs[0], s))
                continue
            if not vs:
                out.append((('empty',), s))
                continue
            out.append((('ctor', t) + tuple(self.val(s, v) for v in vs), s))
        return out

    def evcall(self, fn, n, x, c, st, fr, this):
        out = []
        nm = x.get('fq', '').split('::')[-1]
        callee = self.prog.fns.get(x.get('f'))
        std = x.get('fq', '').startswith('std::') or x.get('fq', '').startswith('__gnu')
        for vs, s in self.evs(fn, c, st, fr, this):
            if nm in ('move', 'forward', 'as_const') and std and vs:
                out.append((vs[0], s))
                continue
            if nm in ('addressof', '__addressof') and std:
                out.append((('ptr', vs[0]), s))
                continue
            if nm == 'exchange' and std and len(vs) == 2:
                old = self.val(s, vs[0])
                if vs[0][0] == 'loc':
                    s.f[vs[0][1:]] = self.val(s, vs[1])
                out.append((old, s))
                continue
            if x.get('obj') and x.get('arrow') and vs and vs[0][0] == 'ptr':
                vs[0] = vs[0][1]
            if x.get('op') == '=' and len(vs) == 2 and vs[0][0] == 'loc':
                v = self.val(s, vs[1])
                if x.get('ck') == 'ma' and vs[1][0] == 'loc':
                    s.f[vs[1][1:]] = ('moved', v)
                    if vs[1] == vs[0]:
                        v = ('moved', v)
                s.f[vs[0][1:]] = v
                out.append((vs[0], s))
                continue
            if x.get('op') == '=' and len(vs) == 2 and vs[0][0] != 'obj' and fn.nodes[c[0]]['k'] == 'Ref':
                s.env[(fr, fn.nodes[c[0]]['d'])] = self.val(s, vs[1])
                out.append((vs[0], s))
                continue
            if nm in ('swap', 'iter_swap') and len(vs) == 2 and (std or callee is None or vs[0][0] == 'loc'):
                a, b = vs
                if a[0] == 'loc' and b[0] == 'loc':
                    va, vb = self.val(s, a), self.val(s, b)
                    s.f[a[1:]], s.f[b[1:]] = vb, va
                    out.append((None, s))
                    continue
                if a[0] == 'obj' and b[0] == 'obj':
                    if a != b:
                        for f in self.fields:
                            va, vb = self.val(s, ('loc', a[1], f)), self.val(s, ('loc', b[1], f))
                            s.f[(a[1], f)], s.f[(b[1], f)] = vb, va
                    out.append((None, s))
                    continue
                if a[0] == 'loc' or b[0] == 'loc' or fn.nodes[c[0]]['k'] == 'Ref' or fn.nodes[c[1]]['k'] == 'Ref':
                    va, vb = self.val(s, a), self.val(s, b)
                    for p, q, i in ((a, vb, 0), (b, va, 1)):
                        if p[0] == 'loc':
                            s.f[p[1:]] = q
                        elif fn.nodes[c[i]]['k'] == 'Ref':
                            s.env[(fr, fn.nodes[c[i]]['d'])] = q
                    out.append((None, s))
                    continue
            if nm == 'assign' and std and len(vs) == 3 and vs[0][0] == 'loc' and vs[1][:2] == ('call', 'begin') and vs[2] == ('call', 'end') + vs[1][2:]:
                s.f[vs[0][1:]] = vs[1][2]
                out.append((None, s))
                continue
            if x.get('op') == '=' and len(vs) == 2 and vs[0][0] == 'obj' and vs[1][0] == 'obj' and (callee is None or not callee.blocks):
                if vs[0] != vs[1]:
                    for f in self.fields:
                        s.f[(vs[0][1], f)] = self.val(s, ('loc', vs[1][1], f))
                out.append((vs[0], s))
                continue
            if x.get('obj') and vs and vs[0][0] == 'obj' and callee is not None and callee.blocks and callee.file.startswith(ir.SRC):
                for s2, r in self.call(callee, s, vs[0][1], vs[1:]):
                    out.append((r if r is not None else ('void',), s2))
                continue
            if not x.get('obj') and any(v[0] == 'obj' or v[0] == 'ptr' and v[1][0] == 'obj' for v in vs) and callee is not None and callee.blocks and callee.file.startswith(ir.SRC):
                for s2, r in self.call(callee, s, None, vs):
                    out.append((r if r is not None else ('void',), s2))
                continue
            if x.get('obj') and vs and vs[0][0] == 'loc':
                const = x.get('const') or nm in ('size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'capacity', 'get', 'front', 'back', 'data', 'max_size')
                if not const:
                    v = self.val(s, vs[0])
                    s.f[vs[0][1:]] = ('empty',) if nm == 'clear' else v if nm in ('shrink_to_fit', 'reserve') else ('chg', nm, v)
                if nm in ('reserve', 'shrink_to_fit'):
                    out.append((('void',), s))
                    continue
                out.append((('call', nm) + tuple(self.val(s, v) for v in vs), s))
                continue
            # places handed to somebody else by non-const reference may change
            pts = x.get('pt', [])
            args = vs[1:] if x.get('obj') else vs
            for v, p in zip(args, pts):
                t = self.prog.tstr(p)
                if v[0] == 'loc' and t.endswith('&') and not t.startswith('const ') and not t.endswith('&&'):
                    s.f[v[1:]] = ('chg', nm, self.val(s, v))
                if v[0] == 'obj' and t.endswith('&') and not t.startswith('const '):
                    raise Unknown('object handed to %s' % nm)
            out.append((('call', nm) + tuple(self.val(s, v) for v in vs), s))
        return out


def same(v, want, eq=()):
    if v == want or (v, want) in eq:
        return True
    # a copy made through the member's own constructor
    if isinstance(v, tuple) and v[0] == 'ctor' and len(v) == 3:
        return same(v[2], want, eq)
    return False


def show(v):
    if not isinstance(v, tuple):
        return str(v)
    if v[0] == 'S':
        return 'the %s of %s' % (v[2], {'this': 'the target', 'm': 'the source'}.get(v[1], v[1]))
    if v[0] == 'empty':
        return 'empty'
    if v[0] == 'moved':
        return 'moved away'
    return 'something else'


def check(prog, rep):
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f.rel(), f.line)):
        if not f.file.startswith(ir.SRC) or not f.blocks or f.cls in SKIP or f.o.get('dfl') or not f.cls:
            continue
        if f.kind not in ('cc', 'mc', 'ca', 'ma') and not (f.name == 'swap' and len(f.params) == 1):
            continue
        cls = base(prog, f.o['clst'])
        rec = prog.records.get(cls)
        if rec is None:
            # records are named by their full spelling
            continue
        fields = {x['name']: x for x in rec.get('fields', ()) if not x.get('mut')}
        if not fields:
            continue
        if base(prog, f.vars[f.params[0]]['t']) != cls:
            continue
        kind = f.kind if f.kind in ('cc', 'mc', 'ca', 'ma') else 'swap'
        rep.count('copies, moves and swaps examined')
        modes = [False] if kind in ('cc', 'mc') else [False, True]
        for alias in modes:
            w = Walk(prog, cls, fields)
            st = State()
            src = 'this' if alias else 'm'
            try:
                ends = w.call(f, st, 'this', [('obj', src)])
            except Unknown as e:
                rep.count('members not followed')
                rep.notes.append('%s of %s not decided: %s' % (f.name, cls[:60], e))
                continue
            rep.count('paths followed', len(ends))
            for s, r in ends:
                for fl in fields:
                    got = w.val(s, ('loc', 'this', fl))
                    want = ('S', src, fl) if not alias else ('S', 'this', fl)
                    if kind in ('cc', 'mc') and ('this', fl) not in s.f:
                        got = ('default',)
                    rep.count('members decided')
                    ident = '%s:%s:%s:%s' % (f.rel(), f.qn, kind, fl)
                    names = {'cc': 'copy constructor', 'mc': 'move constructor', 'ca': 'copy assignment', 'ma': 'move assignment', 'swap': 'swap'}
                    if not same(got, want, s.eq):
                        if alias:
                            rep.violation(ident + ':self', '%s: %s of %s with itself changes its %s' % (f.loc(), names[kind], f.cls, fl))
                        else:
                            rep.violation(ident, '%s: after the %s of %s the target\'s %s is not that of the source (%s)' % (f.loc(), names[kind], f.cls, fl, show(got)))
                    if kind == 'swap' and not alias:
                        got = w.val(s, ('loc', 'm', fl))
                        if not same(got, ('S', 'this', fl), s.eq):
                            rep.violation(ident + ':other', '%s: after the swap of %s the other operand\'s %s is not what the target had (%s)' % (f.loc(), f.cls, fl, show(got)))
                    if kind in ('cc', 'ca') and not alias and not same(w.val(s, ('loc', 'm', fl)), ('S', 'm', fl)):
                        rep.violation(ident + ':source', '%s: the %s of %s changes the %s of the source' % (f.loc(), names[kind], f.cls, fl))
                if kind in ('ca', 'ma') and not (isinstance(r, tuple) and r[0] == 'obj' and r[1] == 'this') and r is not None and r != ('void',):
                    rep.count('returned objects not followed')


RULE = ('every written-out copy/move constructor, copy/move assignment and swap is followed over all its paths with one symbol per member and operand; at every return each member of the '
        'target must be the one the source had, and self-assignment and self-swap must leave every member as it was')


def run(prop, tier, rep):
    rep.rule = RULE
    prog = ir.load('rel')
    check(prog, rep)
    rep.need('copies, moves and swaps examined', 20)
    rep.need('members decided', 40)
