#!/usr/bin/env python3
"""Planted bugs: build /verif/seeded/<id>/ from the definitions in tools/seeds/*.py and
try them out, each in a private copy of /repo bound over /repo in a mount namespace.

  seedtest.py make ID...       write patch.diff, demo.sh, meta.json; confirm that the patched
                               tree builds, passes the stable tests, and that the demo tells them apart
  seedtest.py check ID...      run the check of the seed's property (quick) against it
  seedtest.py check ID --props P01,P02   ... or these checks
With no ID: all. This is a development tool; no check uses it."""
import concurrent.futures as cf
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = r'''#!/bin/bash
# exit 0 if the property holds for this case, 1 if not
R=$PWD
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
cd "$D" || exit 2
export HOME=$D
bl() { timeout 100 "$R/blang" -L "$R/runtime" "$@"; }
no() { echo "FAIL: $*"; exit 1; }
'''


def seeds():
    res = {}
    for f in sorted(glob.glob(os.path.join(VERIF, 'tools', 'seeds', '*.py'))):
        for s in runpy.run_path(f)['SEEDS']:
            assert s['id'] not in res, s['id']
            res[s['id']] = s
    return res


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy_repo(d):
    dst = os.path.join(d, 'repo')
    sh(['cp', '-a', '/repo', dst])
    sh(['git', '-C', dst, 'checkout', '-q', '--', '.'])
    return dst


def inns(copy, script, cwd='/repo', timeout=1500):
    """run a script with the copy at /repo"""
    return sh(['unshare', '-Urm', 'bash', '-c',
               'mount --bind "$0" /repo && cd "$1" && ' + script, copy, cwd], timeout=timeout)


def make(s):
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        out = os.path.join(VERIF, 'seeded', s['id'])
        repo = copy_repo(d)
        for name, old, new in s['edits']:
            p = os.path.join(repo, name)
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], 'EDIT matches %d times: %s %r' % (t.count(old), name, old[:60])
            open(p, 'w').write(t.replace(old, new))
        sh(['gofmt', '-w'] + sorted({e[0] for e in s['edits'] if e[0].endswith('.go')}), cwd=repo)
        diff = sh(['git', '-C', repo, 'diff', '--', '.']).stdout
        # only original lines may be changed
        demo = PRE + s['demo'].strip('\n') + '\nexit 0\n'
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(demo)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        shutil.copy(os.path.join(out, 'demo.sh'), os.path.join(d, 'demo.sh'))
        r = inns(repo, 'bash /opt/vp/test.sh %s/out.json && bash /opt/vp/build.sh' % d)
        if r.returncode:
            return s['id'], 'BUILD/TEST: ' + r.stdout[-600:]
        base = json.load(open('/opt/vp/BASELINE.json'))
        res = json.load(open(d + '/out.json'))

        def passed(x):
            for k in ('stable', 'passed', 'pass', 'tests'):
                if k in x:
                    return set(x[k]) if not isinstance(x[k], dict) else {a for a, b in x[k].items() if b in ('pass', 'passed', True)}
        miss = sorted(passed(base) - passed(res))
        if miss:
            return s['id'], 'TESTS FAIL: %s' % miss[:6]
        r = inns(repo, 'bash %s/demo.sh' % d)
        if r.returncode == 0:
            return s['id'], 'DEMO passes with the patch'
        fail = r.stdout.strip()[-200:]
        clean = os.path.join(d, 'clean')
        os.makedirs(clean)
        repo2 = copy_repo(clean)
        r = inns(repo2, 'bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh' % d)
        if r.returncode:
            return s['id'], 'DEMO fails on the unchanged tree: ' + r.stdout[-400:]
        return s['id'], 'ok   (%s)' % fail.replace('\n', ' | ')[:120]
    except subprocess.TimeoutExpired:
        return s['id'], 'TIMEOUT'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(s, props=None, seed='1'):
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = copy_repo(d)
        p = os.path.join(VERIF, 'seeded', s['id'], 'patch.diff')
        r = sh(['git', '-C', repo, 'apply', p])
        if r.returncode:
            return s['id'], ['patch does not apply: ' + r.stdout]
        v = os.path.join(d, 'verif')
        os.makedirs(v)
        sh('cp -a /verif/* %s/; rm -rf %s/seeded %s/evidence %s/replays' % (v, v, v, v), shell=True)
        out = []
        for prop in props or [s['prop']]:
            r = sh(['unshare', '-Urm', 'bash', '-c',
                    'mount --bind %s /repo && mount --bind %s /verif && cd /verif && '
                    'VERIF_SEED=%s VERIF_TIER=quick timeout 900 python3 run.py %s quick' % (repo, v, seed, prop)])
            viol = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % prop)]
            if r.returncode == 1 and viol:
                out.append('%s CAUGHT' % prop)
            elif r.returncode == 0:
                out.append('%s missed' % prop)
            else:
                out.append('%s ERROR rc=%d %s' % (prop, r.returncode, r.stdout[-300:]))
        return s['id'], out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def demo(ids):
    """do the patches apply, and do the demos tell the trees apart? (without the stable tests)"""
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = copy_repo(d)
        for i in ids:
            src = os.path.join(VERIF, 'seeded', i)
            sh(['git', '-C', repo, 'checkout', '-q', '--', '.'])
            inns(repo, 'bash /opt/vp/build.sh')
            shutil.rmtree(d + '/demo', ignore_errors=True)
            shutil.copytree(src, d + '/demo')
            r = inns(repo, 'bash %s/demo/demo.sh' % d)
            if r.returncode:
                yield i, 'DEMO fails on the unchanged tree: ' + r.stdout[-300:]
                continue
            r = sh(['git', '-C', repo, 'apply', src + '/patch.diff'])
            if r.returncode:
                yield i, 'PATCH does not apply: ' + r.stdout[-300:]
                continue
            r = inns(repo, 'bash /opt/vp/build.sh')
            if r.returncode:
                yield i, 'BUILD fails: ' + r.stdout[-300:]
                continue
            r = inns(repo, 'bash %s/demo/demo.sh' % d)
            yield i, 'ok' if r.returncode else 'DEMO passes with the patch'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    mode = sys.argv[1]
    args = sys.argv[2:]
    props = None
    seed = '1'
    if '--props' in args:
        i = args.index('--props')
        props = args[i + 1].split(',')
        del args[i:i + 2]
    if '--seed' in args:
        i = args.index('--seed')
        seed = args[i + 1]
        del args[i:i + 2]
    all_ = seeds()
    ids = [i for i in all_ if not args or any(i == a or i.startswith(a + '-') for a in args)]
    if mode == 'make':
        with cf.ThreadPoolExecutor(4) as ex:
            for f in cf.as_completed([ex.submit(make, all_[i]) for i in ids]):
                print('%-28s %s' % f.result(), flush=True)
    elif mode == 'demo':
        with cf.ThreadPoolExecutor(4) as ex:
            for res in ex.map(lambda k: list(demo(ids[k::4])), range(4)):
                for i, o in res:
                    if o != 'ok':
                        print('%-28s %s' % (i, o), flush=True)
    else:
        with cf.ThreadPoolExecutor(2) as ex:
            for f in cf.as_completed([ex.submit(check, all_[i], props, seed) for i in ids]):
                i, o = f.result()
                print('%-28s %s' % (i, '; '.join(o)), flush=True)


if __name__ == '__main__':
    main()
