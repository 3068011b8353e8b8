"""D02: debug checks and profiling are inert.

1. every assert condition is free of effects (no write to anything but temporaries of the condition itself, no state outside);
2. every function of the debug (profiling) configuration equals the one of the release configuration except for extra
   statements that write nothing the rest of the function, its arguments, or the program can see, and leave the function only
   through a failing assertion."""
import difflib
import ir, flow, effects
from flow import Flow

RULE = 'assert conditions and statements that exist in only one build configuration have no effect on anything outside them'


def ser(f, n, memo):
    """structural rendering of node n without line numbers and assertion text"""
    if n is None or n < 0:
        return '-'
    if n in memo:
        return memo[n]
    x = f.nodes[n]
    if asserted(f, n):
        memo[n] = 'ASSERT'
        return 'ASSERT'
    k = x['k']
    p = [k]
    for a in ('op', 'n', 'fq', 'v', 's', 'fv', 'ck', 'arrow', 'asm'):
        if a in x and not (a == 'v' and k == 'Call'):
            p.append('%s=%s' % (a, x[a]))
    if k in ('Cast', 'Ctor', 'New', 'InitList', 'Sizeof'):
        p.append(f.prog.tstr(x.get('t')))
    if k == 'Decl':
        for v in x['vars']:
            d = f.vars[v['d']]
            p.append('%s:%s:%s' % (d['n'], f.prog.tstr(d['t']), d['k']))
    if k == 'Lambda':
        g = f.prog.fns.get(x.get('f'))
        if g is not None and g is not f:
            p.append(ser(g, g.o.get('body'), {}))
    p.append('(')
    p.append(','.join(ser(f, c, memo) for c in x.get('c', ()) if not (c >= 0 and inert_null(f, c))))
    p.append(')')
    r = memo[n] = ' '.join(p)
    return r


def asserted(f, n):
    """the statement node is the expansion of assert"""
    x = f.nodes[n]
    return bool(x.get('as')) and x['k'] in ('Cond', 'Cast', 'Call') and f.prog.tstr(x.get('t')) == 'void'


def inert_null(f, n):
    x = f.nodes[n]
    if x['k'] == 'NullStmt':
        return True
    if asserted(f, n):
        return True
    return x['k'] == 'Cast' and x.get('ck') == 'ToVoid' and x.get('c') and f.nodes[x['c'][0]]['k'] in ('Int', 'Ref')


class Cmp:
    def __init__(self, rep, conf, base, prog, reldefs, gw):
        self.rep, self.conf, self.prog, self.base = rep, conf, prog, base
        self.relglobals = reldefs
        self.gw = gw

    def bad(self, f, n, why):
        self.rep.violation('%s:%s' % (f.qn, self.conf), '%s: in %s, a statement that exists only in the %s build (%s) %s' % (f.loc(n), f.qn, self.conf, f.text(n)[:100], why))

    def inert(self, f, stmts, conf):
        """statements only in one configuration: may they be left out without any visible difference?"""
        local = set()
        loops = 0
        for s in stmts:
            for n in f.walk(s):
                x = f.nodes[n]
                if x['k'] == 'Decl':
                    for v in x['vars']:
                        local.add(v['d'])
                        local.update(v.get('bind', ()))
                if x['k'] == 'ForRange' and isinstance(x.get('lv'), int):
                    local.add(x['lv'])
        for s in stmts:
            self.rep.count('statements of one build only')
            for n in f.walk(s):
                x = f.nodes[n]
                if x['k'] == 'Return':
                    self.bad(f, n, 'returns from the function')
                elif x['k'] == 'Throw':
                    self.bad(f, n, 'throws')
                elif x['k'] in ('BreakStmt', 'ContinueStmt', 'GotoStmt'):
                    if not self.inside_loop(f, s, n):
                        self.bad(f, n, 'leaves a loop of the surrounding code')
                self.effects(f, n, local, lambda why: self.bad(f, n, why))
        inside = {n for s in stmts for n in f.walk(s)}
        for n in f.walk(f.o['body']):
            x = f.nodes[n]
            if x['k'] == 'Ref' and x.get('d') in local and n not in inside and not self.elsewhere(f, n):
                self.bad(f, n, 'declares %s, which the rest of the function uses' % x['n'])
                break

    def inside_loop(self, f, s, n):
        p = f.parent.get(n)
        while p is not None:
            if f.nodes[p]['k'] in ('For', 'While', 'Do', 'ForRange', 'Switch'):
                return True
            if p == s:
                return False
            p = f.parent.get(p)
        return False

    def effects(self, f, n, local, bad):
        fl = Flow.of(f)
        x = f.nodes[n]
        if x['k'] == 'Call' and effects.call_class(x) == '!io':
            return
        for (root, path), strong, kind in list(fl.writes(n)) + effects.inserts(f, n):
            if root[0] == 't':
                continue
            if root[0] == 'v' and root[1] in local and f.vars[root[1]]['k'] not in ('global', 'staticlocal'):
                if not path or not self.pointer(f, root[1]):
                    continue
                if all(p[0][0] == 'v' and p[0][1] in local or p[0][0] == 't' for p in fl.var_places(root[1])):
                    continue
            if root[0] == 'g':
                if root[1] in effects.STREAMS or root[1] not in self.relglobals:
                    continue
                bad('changes %s' % root[1])
                continue
            if root == ('?',):
                bad('may change something through %s' % f.text(n)[:60])
                continue
            nm = f.vars[root[1]]['n'] if root[0] == 'v' else 'the object'
            bad('changes %s' % (nm + ''.join('.' + p if p != '[]' else '[]' for p in path)))
        if x['k'] in ('Call', 'Ctor', 'Lambda') and x.get('f') in self.prog.fns:
            if x['k'] == 'Ctor' and self.known_name(f, n):
                return
            for g in self.gw.get(x['f'], {}):
                if g == '!io' or g == '!clock' or g not in self.relglobals and not g.startswith('!'):
                    continue
                bad('calls %s, which %s' % (x.get('fq', 'a lambda').split('::')[-1], 'draws random numbers' if g == '!random' else 'changes %s' % g))
        elif x['k'] in ('Call', 'Ctor'):
            p = effects.call_class(x)
            if p in ('!random', '!env'):
                bad('calls %s' % x.get('fq'))

    def elsewhere(self, f, n):
        """inside an assertion: not part of the release build"""
        while n is not None:
            if asserted(f, n):
                return True
            n = f.parent.get(n)
        return False

    def known_name(self, f, n):
        """looking up a variable by a literal name that an earlier statement of an enclosing block has looked up already"""
        x = f.nodes[n]
        if not x.get('fq', '').endswith('variable::(ctor)'):
            return False
        lit = [f.nodes[m].get('s') for m in f.walk(n) if f.nodes[m]['k'] == 'Str']
        if len(lit) != 1:
            return False
        m, p = n, f.parent.get(n)
        while p is not None:
            if f.nodes[p]['k'] == 'Block':
                for s in f.kids(p):
                    if s == m:
                        break
                    if f.nodes[s]['k'] == 'Decl':
                        for y in f.walk(s):
                            if f.nodes[y]['k'] == 'Ctor' and f.nodes[y].get('f') == x['f'] and \
                                    [f.nodes[z].get('s') for z in f.walk(y) if f.nodes[z]['k'] == 'Str'] == lit:
                                return True
            m, p = p, f.parent.get(p)
        return False

    def pointer(self, f, d):
        return Flow.of(f).pointerlike(d)

    # ---- alignment of two versions of a function
    def align(self, fr, a, fd, b, mr, md):
        if ser(fr, a, mr) == ser(fd, b, md):
            return True
        x, y = fr.nodes[a], fd.nodes[b]
        if x['k'] != y['k']:
            return False
        k = x['k']
        if k == 'Block':
            la = [c for c in x.get('c', ()) if c >= 0 and not inert_null(fr, c)]
            lb = [c for c in y.get('c', ()) if c >= 0 and not inert_null(fd, c)]
            sa = [ser(fr, c, mr) for c in la]
            sb = [ser(fd, c, md) for c in lb]
            exa, exb = [], []
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, sa, sb, autojunk=False).get_opcodes():
                if tag == 'equal':
                    continue
                A, B = la[i1:i2], lb[j1:j2]
                while A and B:
                    # pair nested statements of the same kind; what is left over is extra
                    hit = None
                    for bi, bb in enumerate(B):
                        if fr.nodes[A[0]]['k'] == fd.nodes[bb]['k'] and self.same_head(fr, A[0], fd, bb, mr, md):
                            hit = bi
                            break
                    if hit is None:
                        exa.append(A.pop(0))
                        continue
                    exb += B[:hit]
                    if not self.align(fr, A[0], fd, B[hit], mr, md):
                        exa.append(A[0])
                        exb.append(B[hit])
                    A.pop(0)
                    B = B[hit + 1:]
                exa += A
                exb += B
            if exb:
                self.exb += exb
            if exa:
                self.exa += exa
            return True
        if k in ('If', 'For', 'While', 'Do', 'ForRange', 'Switch', 'CXXTryStmt', 'CXXCatchStmt', 'CaseStmt', 'DefaultStmt'):
            if not self.same_head(fr, a, fd, b, mr, md):
                return False
            ca, cb = [c for c in x.get('c', ()) if c >= 0], [c for c in y.get('c', ()) if c >= 0]
            if len(ca) != len(cb):
                return False
            return all(self.align(fr, c, fd, d, mr, md) for c, d in zip(ca, cb))
        return False

    def same_head(self, fr, a, fd, b, mr, md):
        x, y = fr.nodes[a], fd.nodes[b]
        if x['k'] == 'Block':
            return True
        if x['k'] not in ('If', 'For', 'While', 'Do', 'ForRange', 'Switch', 'CXXTryStmt', 'CXXCatchStmt', 'CaseStmt', 'DefaultStmt'):
            return False
        for h in ('cond', 'init', 'inc', 'range'):
            if (h in x) != (h in y) or h in x and ser(fr, x[h], mr) != ser(fd, y[h], md):
                return False
        return ('else' in x) == ('else' in y)

    def function(self, fr, fd):
        mr, md = {}, {}
        self.rep.count('functions compared between builds')
        ia = [(i.get('field') or i.get('base'), ser(fr, i.get('i', -1), mr)) for i in fr.o.get('inits', ())]
        ib = [(i.get('field') or i.get('base'), ser(fd, i.get('i', -1), md)) for i in fd.o.get('inits', ())]
        if ia != ib:
            self.rep.violation('%s:%s' % (fd.qn, self.conf), '%s: the constructor initialises members differently in the %s build' % (fd.loc(), self.conf))
        self.exa, self.exb = [], []
        same = self.align(fr, fr.o['body'], fd, fd.o['body'], mr, md)
        if same and self.exb:
            self.inert(fd, self.exb, self.conf)
        if same and self.exa:
            self.inert(fr, self.exa, 'release')
        if not same:
            self.rep.violation('%s:%s' % (fd.qn, self.conf), '%s: %s differs between the release and the %s build' % (fd.loc(), fd.qn, self.conf))


def asserts(prog, rep):
    gw = effects.compute(prog)
    c = Cmp(rep, 'debug', None, prog, {g['qn'] for g in prog.globals}, gw)
    for f in prog.fns.values():
        if not f.file.startswith(ir.SRC):
            continue
        for n, x in enumerate(f.nodes):
            if not (x.get('as') and x['k'] == 'Cond' and f.parent.get(n) is not None and not f.nodes[f.parent[n]].get('as')):
                continue
            rep.count('assertions')
            local = set()
            for m in f.walk(x['c'][0]):
                if f.nodes[m]['k'] == 'Lambda':
                    continue
                rep.count('expressions in assertions')
                c.effects(f, m, local, lambda why, m=m: rep.violation('%s:assert' % f.qn, '%s: in %s, the condition of an assertion (%s) %s' % (f.loc(n), f.qn, f.text(m)[:100], why)))
                if f.nodes[m]['k'] == 'New' or f.nodes[m]['k'] == 'Delete':
                    rep.violation('%s:assert' % f.qn, '%s: in %s, the condition of an assertion allocates or frees' % (f.loc(n), f.qn))


def run(prop, tier, rep):
    rep.rule = RULE
    rel, dbg, prof = ir.load('rel'), ir.load('dbg'), ir.load('prof')
    relg = {g['qn'] for g in rel.globals}
    flow._mut.clear()
    effects._st.clear()
    flow.compute_mutated(dbg)
    asserts(dbg, rep)
    for conf, prog in (('debug', dbg), ('profiling', prof)):
        flow._mut.clear()
        effects._st.clear()
        flow.compute_mutated(prog)
        gw = effects.compute(prog)
        c = Cmp(rep, conf, rel, prog, relg, gw)
        crel = Cmp(rep, 'release', prog, rel, relg, gw)
        for k, fd in sorted(prog.fns.items()):
            if not fd.file.startswith(ir.SRC) or not fd.blocks:
                continue
            fr = rel.fns.get(k)
            if fr is None or not fr.blocks or fd.o.get('lambda'):
                continue
            c.function(fr, fd)
        for k, r in prog.records.items():
            if k in rel.records and rel.records[k] != r:
                a = [(x.get('n'), rel.tstr(x.get('t'))) for x in rel.records[k].get('fields', ())] if isinstance(r, dict) else rel.records[k]
                b = [(x.get('n'), prog.tstr(x.get('t'))) for x in r.get('fields', ())] if isinstance(r, dict) else r
                if a != b:
                    rep.violation('%s:%s' % (k, conf), 'the fields of %s differ between the release and the %s build' % (k, conf))
        for k, fr in sorted(rel.fns.items()):
            if fr.file.startswith(ir.SRC) and fr.blocks and k not in prog.fns and not fr.o.get('lambda') and fr.qn.startswith('clpoly'):
                rep.notes.append('%s is not instantiated in the %s build' % (k, conf))
    rep.need('assertions', 60)
    rep.need('functions compared between builds', 1000)
