"""Loads the IR of /repo's current source (extracted by tools/extract with clang) and offers helpers over it."""
import os, sys, json, hashlib, subprocess, glob, pickle, tempfile, time, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CLPOLY_REPO', '/repo')
SRC = os.path.join(REPO, 'clpoly')


class AnalysisBroken(Exception):
    pass


def sources():
    r = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith(('.hh', '.cc', '.h', '.hpp', '.cpp')):
                r.append(os.path.join(d, f))
    return sorted(r)


def _hash(cfg):
    h = hashlib.sha256()
    for f in sources() + sorted(glob.glob(VERIF + '/driver/*')) + [VERIF + '/tools/extract.cc', os.path.abspath(__file__)]:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    h.update(cfg.encode())
    return h.hexdigest()[:24]


FLAGS = {'rel': ['-DNDEBUG'], 'dbg': ['-DDEBUG'], 'prof': ['-DNDEBUG', '-DCLPOLY_PROFILE']}


def load(cfg='rel'):
    """IR of the whole library in build configuration cfg; extraction is repeated whenever any source changed."""
    hb = _hash(cfg)
    cdir = os.path.join(VERIF, 'build', 'ir')
    os.makedirs(cdir, exist_ok=True)
    pk = os.path.join(cdir, '%s-%s.pkl' % (cfg, hb))
    if os.path.exists(pk) and not os.environ.get('NOCACHE'):
        try:
            with open(pk, 'rb') as f:
                return Program(pickle.load(f), cfg)
        except Exception:
            pass
    r = subprocess.run(['bash', VERIF + '/tools/build.sh'], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('cannot build the extractor: ' + r.stderr[-2000:])
    with tempfile.TemporaryDirectory(dir=cdir) as td:
        with open(td + '/lib_sources.inc', 'w') as f:
            for s in sorted(glob.glob(SRC + '/*.cc')):
                if os.path.basename(s) != 'interval.cc':      # the Makefile leaves it out of the build too
                    f.write('#include "%s"\n' % s)
        out = td + '/ir.json'
        cmd = [VERIF + '/tools/bin/extract', SRC + '/', out, VERIF + '/driver/drv_main.cc', '--', '-std=gnu++17', '-I' + REPO, '-I' + td] + \
            FLAGS[cfg] + ['-fdelayed-template-parsing', '-w', '-ferror-limit=20']
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=td)
        if r.returncode != 0 or not os.path.exists(out) or os.path.getsize(out) < 1000:
            raise AnalysisBroken('clang could not parse the library: ' + '\n'.join(l for l in r.stderr.split('\n') if 'error' in l)[:3000])
        data = []
        with open(out) as f:
            for l in f:
                data.append(json.loads(l))
    tmp = pk + '.%d' % os.getpid()
    with open(tmp, 'wb') as f:
        pickle.dump(data, f, protocol=4)
    os.replace(tmp, pk)
    # keep the cache small
    old = sorted(glob.glob(cdir + '/*.pkl'), key=os.path.getmtime)
    for o in old[:-6]:
        try:
            os.remove(o)
        except OSError:
            pass
    return Program(data, cfg)


class Program:
    def __init__(self, data, cfg):
        self.cfg = cfg
        self.types = []
        self.records = {}
        self.globals = []
        self.fns = {}
        self.templates = []
        last = data[-1]
        self.types = last['types']
        self.records = last['records']
        self.globals = last['globals']
        for o in data:
            if 'fn' in o:
                f = Fn(o['fn'], self)
                self.fns[f.key] = f
            elif 'tmpl' in o:
                self.templates.append(o['tmpl'])
        self._byqn = {}
        for f in self.fns.values():
            self._byqn.setdefault(f.qn, []).append(f)
        if len(self.fns) < 500:
            raise AnalysisBroken('only %d functions extracted' % len(self.fns))

    def byqn(self, qn):
        return self._byqn.get(qn, [])

    def byname(self, name):
        return [f for f in self.fns.values() if f.name == name]

    def T(self, i):
        return self.types[i] if i is not None and i >= 0 else {}

    def tstr(self, i):
        return self.T(i).get('s', '?')


class Fn:
    def __init__(self, o, prog):
        self.o = o
        self.prog = prog
        self.key = o['key']
        self.qn = o['qn']
        self.name = o['name']
        self.file = o['file']
        self.line = o['line']
        self.nodes = o['nodes']
        self.vars = o['vars']
        self.params = o['params']
        self.cls = o.get('cls')
        self.kind = o.get('kind')
        self.blocks = {b['id']: b for b in o.get('blocks', [])}
        self.entry = o.get('entry')
        self.exit = o.get('exit')
        self._preds = None
        self._parent = None
        self._rpo = None

    def rel(self):
        return os.path.relpath(self.file, REPO)

    def loc(self, n=None):
        return '%s:%d' % (self.rel(), self.nodes[n]['l'] if n is not None and n >= 0 else self.line)

    @property
    def preds(self):
        if self._preds is None:
            p = {b: [] for b in self.blocks}
            for b in self.blocks.values():
                for s in b['s']:
                    if s >= 0:
                        p[s].append(b['id'])
            self._preds = p
        return self._preds

    @property
    def parent(self):
        """syntactic parent of each node"""
        if self._parent is None:
            p = {}
            for i, n in enumerate(self.nodes):
                for c in n.get('c', ()):
                    if c >= 0 and c not in p:
                        p[c] = i
            self._parent = p
        return self._parent

    def kids(self, n):
        return [c for c in self.nodes[n].get('c', ()) if c >= 0]

    def walk(self, n):
        st = [n]
        seen = set()
        while st:
            x = st.pop()
            if x < 0 or x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(reversed(self.nodes[x].get('c', ())))

    def T(self, n):
        return self.prog.T(self.nodes[n].get('t'))

    def rpo(self):
        if self._rpo is None:
            seen, order = set(), []
            st = [(self.entry, iter([s for s in self.blocks[self.entry]['s'] if s >= 0]))]
            seen.add(self.entry)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter([x for x in self.blocks[s]['s'] if x >= 0])))
                        break
                else:
                    order.append(b)
                    st.pop()
            self._rpo = order[::-1]
        return self._rpo

    def text(self, n, d=0):
        """short source-like rendering, for reports only"""
        if n is None or n < 0:
            return ''
        x = self.nodes[n]
        k = x['k']
        c = x.get('c', [])
        if d > 8:
            return '..'
        t = lambda i: self.text(i, d + 1)
        if k == 'Ref' or k == 'FnRef':
            return x['n']
        if k == 'This':
            return 'this'
        if k in ('Int', 'Bool'):
            return x['v']
        if k == 'Str':
            return '"%s"' % x.get('s', '')[:30]
        if k == 'Mem':
            b = t(c[0]) if c else ''
            return x['n'] if b == 'this' else b + ('->' if x.get('arrow') else '.') + x['n']
        if k == 'Call':
            nm = x.get('fq', '?').split('::')[-1]
            if x.get('op') and len(c) == 2 and x['op'] not in ('()', '[]', '->'):
                return '%s %s %s' % (t(c[0]), x['op'], t(c[1]))
            if x.get('op') == '[]':
                return '%s[%s]' % (t(c[0]), t(c[1]))
            if x.get('op') in ('*', '->', '!', '-', '++', '--') and len(c) == 1:
                return x['op'] + t(c[0])
            if x.get('obj'):
                return '%s.%s(%s)' % (t(c[0]), nm, ', '.join(t(i) for i in c[1:]))
            return '%s(%s)' % (nm, ', '.join(t(i) for i in c))
        if k == 'Ctor':
            if len(c) == 1 and x.get('ck') in ('copy', 'move'):
                return t(c[0])
            return '%s(%s)' % (x.get('cls', '?').split('::')[-1], ', '.join(t(i) for i in c))
        if k in ('Bin', 'Assign'):
            return '%s %s %s' % (t(c[0]), x['op'], t(c[1]))
        if k == 'Un':
            return (t(c[0]) + x['op'][4:]) if x['op'].startswith('post') else x['op'] + t(c[0])
        if k in ('Cast', 'CXXFunctionalCastExpr'):
            return t(c[0]) if c else ''
        if k == 'Index':
            return '%s[%s]' % (t(c[0]), t(c[1]))
        if k == 'Cond':
            return '%s ? %s : %s' % (t(c[0]), t(c[1]), t(c[2]))
        if k == 'Return':
            return 'return ' + (t(c[0]) if c else '')
        if k == 'Decl':
            return ', '.join(self.vars[v['d']]['n'] + (' = ' + t(v['i']) if 'i' in v else '') for v in x['vars'])
        if k == 'InitList':
            return '{' + ', '.join(t(i) for i in c) + '}'
        return k + '(' + ', '.join(t(i) for i in c[:4]) + ')'


# ---------------------------------------------------------------- reporting
class Report:
    def __init__(self, prop, tier, rule):
        self.prop, self.tier, self.rule = prop, tier, rule
        self.t0 = time.time()
        self.viol = []       # (id, text)
        self.cov = {}
        self.seen = set()
        self.notes = []

    def violation(self, ident, text):
        """ident: stable identification of the construct (file/function/site), no line numbers"""
        if (ident, text) in self.seen:
            return
        self.seen.add((ident, text))
        self.viol.append((ident, text))

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def need(self, k, least):
        if self.cov.get(k, 0) < least:
            raise AnalysisBroken('%s: only %d %s found, at least %d expected (anchor vanished)' % (self.prop, self.cov.get(k, 0), k, least))


def known_findings():
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def finish(rep, level='other'):
    kf = [k for k in known_findings() if k['property'] == rep.prop and k.get('status') == 'known']
    out, hit = [], set()
    for ident, text in rep.viol:
        m = [k for k in kf if k['id'] == ident]
        if m:
            hit.add(ident)
        else:
            out.append((ident, text))
    for k in kf:
        if k['id'] in hit:
            print('KNOWN-FINDING: property=%s %s' % (rep.prop, k['what']))
    edir = os.environ.get('EVDIR', VERIF + '/evidence')
    os.makedirs(edir, exist_ok=True)
    ev = {'property': rep.prop, 'tier': rep.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': dict(rep.cov, explanation=rep.rule), 'wall_s': round(time.time() - rep.t0, 2),
          'violations': len(out)}
    if rep.notes:
        ev['assumptions'] = rep.notes
    with open('%s/%s.json' % (edir, rep.prop), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    rc = 0
    if out:
        rdir = VERIF + '/build/replay'
        os.makedirs(rdir, exist_ok=True)
        path = '%s/%s.txt' % (rdir, rep.prop)
        with open(path, 'w') as f:
            f.write('property %s\nrule: %s\n\n' % (rep.prop, rep.rule))
            for ident, text in out:
                f.write('[%s]\n%s\n\n' % (ident, text))
        for ident, text in out[:int(os.environ.get("MAXV","25"))]:
            print('  %s: %s' % (ident, text))
        print('VIOLATION property=%s replay=%s' % (rep.prop, path))
        rc = 1
    else:
        print('OK property=%s %s' % (rep.prop, json.dumps(rep.cov)))
    return rc
