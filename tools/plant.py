#!/usr/bin/env python3
"""plant.py new <id> <prop> <file> --old TEXT --new TEXT ...   (used while planting bugs; no check uses it)
plant.py verify <id>...      confirm in a scratch copy: demo passes without, fails with the patch, tests pass
plant.py detect <id>... [--all-checks]  apply to /repo, run the property's quick check, undo"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/plant'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def scratch():
    if os.path.exists(S):
        shutil.rmtree(S)
    os.makedirs(S)
    sh('cp -a /repo %s/repo' % S)
    shutil.rmtree(S + '/repo/_build', ignore_errors=True)
    sh('cp -a /opt/vp %s/vp' % S)
    sh("sed -i 's#/repo#%s/repo#g; s#/opt/vp#%s/vp#g' %s/vp/build.sh %s/vp/test.sh" % (S, S, S, S))
    sh('cd %s/repo && git checkout -q -- .' % S)
    p = sh('bash %s/vp/build.sh' % S)
    if p.returncode:
        sys.exit('scratch build failed\n' + p.stdout[-3000:])


def tests():
    p = sh('bash %s/vp/test.sh %s/o.json' % (S, S))
    try:
        o = json.load(open(S + '/o.json'))
    except Exception:
        return False, p.stdout[-2000:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('passed') or base
    miss = [t for t in stable if t not in o['passed']] if isinstance(stable, list) else o['failed']
    return not miss, str(miss)[:600] + p.stdout[-500:]


def demo(i):
    d = '/tmp/plantdemo'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('%s/seeded/%s' % (V, i), d)
    for f in os.listdir(d):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json':
            os.unlink(d + '/' + f)
    p = sh('bash %s/demo.sh' % d, cwd=S + '/repo', timeout=300)
    return p.returncode, p.stdout[-600:]


def verify(ids):
    scratch()
    for i in ids:
        rc0, out0 = demo(i)
        p = sh('git apply %s/seeded/%s/patch.diff' % (V, i), cwd=S + '/repo')
        if p.returncode:
            print(i, 'PATCH DOES NOT APPLY', p.stdout)
            continue
        t0 = time.time()
        ok, why = tests()
        rc1, out1 = demo(i)
        sh('git checkout -q -- .', cwd=S + '/repo')
        sh('bash %s/vp/build.sh' % S)
        good = rc0 == 0 and rc1 != 0 and ok
        print(i, 'GOOD' if good else 'BAD', 'demo clean rc=%d patched rc=%d tests=%s' % (rc0, rc1, ok), '' if good else (out0[-200:], out1[-200:], why[-200:]), flush=True)
    shutil.rmtree(S)


def detect(ids):
    for i in ids:
        m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
        if sh('git -C /repo status --porcelain').stdout.strip():
            sys.exit('/repo is dirty')
        sh('git -C /repo apply %s/seeded/%s/patch.diff' % (V, i))
        t0 = time.time()
        try:
            p = sh('python3 check.py %s' % m['property'], cwd=V)
        finally:
            sh('git -C /repo checkout -q -- .')
        last = [l for l in p.stdout.split('\n') if l.startswith(('VIOLATION', 'violation', 'OK', 'ERROR'))]
        print(i, m['property'], {0: 'MISSED', 1: 'caught'}.get(p.returncode, 'ERROR rc=%d' % p.returncode), '%.0fs' % (time.time() - t0),
              ' | '.join(last)[:300], flush=True)


if __name__ == '__main__':
    {'verify': verify, 'detect': detect}[sys.argv[1]](sys.argv[2:] or sorted(os.listdir(V + '/seeded')))
