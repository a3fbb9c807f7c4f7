#!/usr/bin/env python3
"""Planting bugs. Usage: seed.py make SPEC.py [id…] | verify [id…] | run id[,id…] [CNN…] [check options]

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)…], needs, breaks, demo, files={}, spare=[checks])…].
'make' writes seeded/<id>/, 'verify' confirms in a scratch copy that the change builds, passes the stable tests and that
the demonstration tells the two trees apart; 'run' runs checks (default: that of its property) against the changed copy.
"""
import json, os, re, shutil, subprocess, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, 'seeded')
SW = '/tmp/seedwork'


def sh(cmd, cwd=None, timeout=600, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                       timeout=timeout, env=env)
    return r.returncode, r.stdout


def fresh(name):
    d = os.path.join(SW, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SW, exist_ok=True)
    sh('cp -a /repo %s' % d)
    for s in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + s).read().replace('/opt/vp/build.sh', d + '.build.sh').replace('/repo', d)
        open(d + '.' + s, 'w').write(t)
    return d


def drop(d):
    shutil.rmtree(d, ignore_errors=True)
    for s in ('.build.sh', '.test.sh', '.json'):
        if os.path.exists(d + s):
            os.remove(d + s)


def names(x):
    if isinstance(x, dict):
        for k in ('passed', 'stable', 'pass', 'tests'):
            if k in x:
                return set(x[k])
    return set(x)


def make(spec, ids):
    sp = importlib.util.spec_from_file_location('spec', spec)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for s in m.SEEDS:
        if ids and s['id'] not in ids:
            continue
        d = fresh('make-' + s['id'])
        try:
            for f, old, new in s['edits']:
                p = os.path.join(d, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'EDIT MATCHES %d TIMES:' % t.count(old), old[:80])
                    raise SystemExit(1)
                open(p, 'w').write(t.replace(old, new))
            rc, diff = sh('git diff', d)
            o = os.path.join(SEEDED, s['id'])
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o)
            open(o + '/patch.diff', 'w').write(diff)
            open(o + '/demo.sh', 'w').write('#!/bin/bash\n' + s['demo'].strip() + '\n')
            os.chmod(o + '/demo.sh', 0o755)
            if 'check ' in s['demo']:
                s2 = fresh('rec')
                sh('bash %s.build.sh' % s2)
                sh('bash %s/demo.sh' % o, s2, env=dict(os.environ, RECORD='1'))
                drop(s2)
            for n, t in s.get('files', {}).items():
                open(os.path.join(o, n), 'w').write(t)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'),
                      indent=1)
        finally:
            drop(d)
        verify(s['id'])


def verify(i):
    d = fresh('verify-' + i)
    o = os.path.join(SEEDED, i)
    lay = d + '.demo'
    shutil.rmtree(lay, ignore_errors=True)
    shutil.copytree(o, lay)
    for f in ('patch.diff', 'meta.json'):
        os.remove(os.path.join(lay, f))
    try:
        def build():
            rc, out = sh('bash %s.build.sh' % d)
            return '' if rc == 0 else out[-500:]
        b = build()
        rc0, out0 = sh('bash %s/demo.sh' % lay, d, 300)
        rc, out = sh('git apply %s/patch.diff' % o, d)
        if rc:
            print(i, 'PATCH DOES NOT APPLY', out)
            return False
        b = b or build()
        if b:
            print(i, 'DOES NOT BUILD', b)
            return False
        sh('bash %s.test.sh %s.json' % (d, d))
        missing = sorted(names(json.load(open('/opt/vp/BASELINE.json'))) - names(json.load(open(d + '.json'))))
        rc1, out1 = sh('bash %s/demo.sh' % lay, d, 300)
        ok = rc0 == 0 and rc1 != 0 and not missing
        files = dict((f, sh('git show 2afd365:' + f, '/repo')[1].splitlines()) for f in re.findall(r'^--- a/(\S+)', open(o + '/patch.diff').read(), re.M))
        cur, orig = None, 0
        for l in open(o + '/patch.diff').read().splitlines():
            if l.startswith('--- a/'):
                cur = l[6:]
            elif l.startswith('-') and l[1:].strip() and l[1:] in files[cur]:
                orig += 1
        if not orig:
            print(i, 'CHANGES NO LINE OF THE ORIGINAL REPOSITORY')
        print(i, 'ok' if ok else 'BAD: demo %d -> %d, tests missing %s\n%s\n--\n%s' % (rc0, rc1, missing[:4], out0[-500:], out1[-500:]))
        return ok
    finally:
        drop(d)
        shutil.rmtree(lay, ignore_errors=True)


def run(ids, args):
    checks = [a for a in args if re.fullmatch(r'C\d\d', a)]
    opts = [a for a in args if a not in checks]
    for i in ids:
        o = os.path.join(SEEDED, i)
        prop = json.load(open(o + '/meta.json'))['property']
        d = fresh('run-' + i)
        try:
            sh('git apply %s/patch.diff' % o, d)
            for c in checks or [prop]:
                env = dict(os.environ, VERIF_REPO=d)
                rc, out = sh('python3 check.py %s %s' % (c, ' '.join(opts)), V, 900, env)
                v = [l for l in out.splitlines() if 'VIOLATION' in l]
                print('%-28s %s rc=%d %s' % (i, c, rc, 'CAUGHT ' + (v[0] if v else '') if rc == 1 else 'missed ' + out[-300:]))
                sys.stdout.flush()
        finally:
            drop(d)


if __name__ == '__main__':
    cmd, rest = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        make(rest[0], rest[1:])
    elif cmd == 'verify':
        for i in rest or sorted(os.listdir(SEEDED)):
            verify(i)
    elif cmd == 'run':
        run(sorted(os.listdir(SEEDED)) if rest[0] == 'all' else rest[0].split(','), rest[1:])
