#!/usr/bin/env python3
"""run.py [FILTER...]: apply the textual edits of cases_*.py to scratch copies of the library and compare the checks' answers.
A case is (name, property, expected, [(file, old, new), ...]); expected 'V' = violation, 'Q' = quiet."""
import sys, os, glob, shutil, subprocess, importlib.util, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))


def cases():
    for f in sorted(glob.glob(H + '/cases_*.py')):
        sp = importlib.util.spec_from_file_location('c', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        yield from m.CASES


def one(c):
    name, prop, exp, edits = c
    d = tempfile.mkdtemp(prefix='selftest.')
    try:
        shutil.copytree(os.environ.get('BASE', '/repo') + '/clpoly', d + '/clpoly')
        for f, old, new in edits:
            p = d + '/clpoly/' + f
            s = open(p).read()
            n = s.count(old)
            if n < 1:
                return name, prop, 'EDIT-FAILS: ' + old[:50]
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        res = []
        for q in props:
            r = subprocess.run([sys.executable, H + '/../check.py', q], capture_output=True, text=True, env=dict(os.environ, CLPOLY_REPO=d, EVDIR=d))
            got = {0: 'Q', 1: 'V'}.get(r.returncode, 'BROKEN')
            first = [l for l in (r.stdout + r.stderr).split('\n') if l.strip()][:1] if got == 'V' else (r.stdout + r.stderr)[-300:]
            res.append(('ok  ' if got == exp else 'FAIL') + ' %s expected %s got %s %s' % (q, exp, got, first if got != exp or got == 'V' else ''))
        return name, prop, ' | '.join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    flt = sys.argv[1:]
    cs = [c for c in cases() if not flt or any(x in c[0] or x == c[1] for x in flt)]
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for n, p, r in ex.map(one, cs):
            print('%-32s %s' % (n, r[:260]), flush=True)
            bad += not r.startswith('ok') or 'FAIL' in r
    print('%d cases, %d wrong' % (len(cs), bad))
