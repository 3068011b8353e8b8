#!/usr/bin/env python3
"""plant.py SPECDIR...: verify planted bugs in scratch copies of /repo and keep them in /verif/seeded.
SPECDIR/spec.json: {property, needs, what_it_breaks, edits:[[file, old, new], ...]}, SPECDIR/demo.sh and files it needs.
A bug is kept when it builds, passes the stable tests, and the demo passes without it and fails with it."""
import sys, os, json, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, timeout=1800):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def support(work):
    d = work + '.vp'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/opt/vp', d)
    sh("sed -i 's#/repo#%s#g;s#/opt/vp#%s#g' %s/*.sh %s/support/*.sh" % (work, d, d, d))
    return d


def one(spec):
    name = os.path.basename(os.path.normpath(spec))
    S = json.load(open(spec + '/spec.json'))
    work = '/tmp/plant.' + name
    shutil.rmtree(work, ignore_errors=True)
    sh('cp -a /repo %s' % work)
    vp = support(work)
    msg = []
    try:
        sh('git checkout -q -- .', work)
        for f, old, new in S['edits']:
            s = open(work + '/' + f).read()
            if s.count(old) != 1:
                return name, 'edit matches %d times: %r' % (s.count(old), old[:60])
            open(work + '/' + f, 'w').write(s.replace(old, new))
        rc, diff = sh('git diff', work)
        rc, _ = sh('bash %s/demo.sh' % os.path.abspath(spec), '/repo', 300)
        if rc != 0:
            return name, 'demo fails on the unchanged tree\n' + _[-1500:]
        rc, o = sh('bash %s/test.sh %s.json' % (vp, work), work)
        if not os.path.exists(work + '.json'):
            return name, 'no test result\n' + o[-1500:]
        res = json.load(open(work + '.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = set(base if isinstance(base, list) else base.get('passed', base.get('stable', [])))
        lost = sorted(stable - set(res['passed']))
        if lost:
            return name, 'tests fail: %d %s\n%s' % (len(lost), lost[:5], o[-600:] if len(lost) > 100 else '')
        rc, dm = sh('bash %s/demo.sh' % os.path.abspath(spec), work, 300)
        if rc == 0:
            return name, 'demo passes with the change'
        dst = HERE + '/seeded/' + name
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        for f in os.listdir(spec):
            if f != 'spec.json':
                shutil.copy(spec + '/' + f, dst)
        open(dst + '/patch.diff', 'w').write(diff)
        json.dump({k: S[k] for k in ('property', 'needs', 'what_it_breaks')}, open(dst + '/meta.json', 'w'), indent=1)
        return name, 'KEPT (demo: %s)' % dm.strip().split('\n')[-1][:120]
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(vp, ignore_errors=True)
        if os.path.exists(work + '.json'):
            os.remove(work + '.json')


if __name__ == '__main__':
    with ThreadPoolExecutor(2) as ex:
        for n, r in ex.map(one, sys.argv[1:]):
            print(n, r, flush=True)
