#!/usr/bin/env python3
"""Mutation campaign (a development tool; no check uses it): small changes to blang and its runtime
that compile and pass the stable tests, to see which checks notice them.

  mutate.py find N SEED OUT.json        sample N mutants, keep those that survive build and tests
  mutate.py hunt OUT.json [FROM [TO]]   run the checks, likely ones first, until one catches each"""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedtest import copy_repo, inns, sh  # noqa: E402

GO = ['expressions.go', 'irbuilder.go', 'parser_stmt.go', 'parser_decls.go', 'lexer.go', 'driver.go', 'main.go', 'options.go']
SWAPS = [('==', '!='), ('!=', '=='), ('<', '<='), ('<=', '<'), ('>', '>='), ('>=', '>'), ('&&', '||'), ('||', '&&'), ('true', 'false'), ('false', 'true'),
         ('+', '-'), ('-', '+'), ('++', '--'), ('continue', 'break'), ('break', 'continue'), ('*', '+'), ('<<', '>>'), ('&', '|')]
LIKELY = {'driver.go': '15 16 23 17 22 12', 'main.go': '15 23 22 16', 'options.go': '15 23 16 17', 'lexer.go': '10 11 18 8 21 1 2', 'expressions.go': '1 2 18 4 7 9 19 3',
          'parser_stmt.go': '3 18 6 4 9 5 2', 'parser_decls.go': '5 18 11 6 9 10', 'irbuilder.go': '4 5 17 6 19 9 12 21', 'runtime': '13 14 20 19 17'}


def candidates(f, text):
    lines = text.split('\n')
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if f.endswith('.c') or f.endswith('.h'):
            if '/*' in s and '*/' not in s:
                incomment = True
            if incomment:
                if '*/' in s:
                    incomment = False
                continue
            if s.startswith(('#', '//', '*', '/*')):
                continue
        if not s or s.startswith(('//', 'import', 'package', '"', 'case "')) or 'Errorf' in s or 'Fprint' in s or 'Printf' in s and 'Verbose' not in s:
            continue
        code = re.sub(r'//.*', '', l)
        # operators and words
        for a, b in SWAPS:
            pat = r'(?<![\w])%s(?![\w])' % re.escape(a) if a.isalpha() else r'(?<![-+*/<>=!&|%%:\'"])%s(?![-+*/<>=!&|%%\'"])' % re.escape(a)
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2 or code[:m.start()].count("'") % 2:
                    continue
                if a in '*&' and not re.match(r'.*[\w)\]] $', code[:m.start()]):
                    continue
                yield i, l[:m.start()] + b + l[m.end():], '%s -> %s' % (a, b)
        for m in re.finditer(r'(?<![\w."%])\d+(?![\w.])', code):
            if code[:m.start()].count('"') % 2:
                continue
            n = int(m.group())
            for v in {n + 1, n - 1, 0} - {n}:
                if v >= 0:
                    yield i, l[:m.start()] + str(v) + l[m.end():], '%d -> %d' % (n, v)
        m = re.match(r"(.*)'(\\?.)'(.*)$", code)
        if m and f.endswith('.go'):
            yield i, m.group(1) + "'`'" + m.group(3), "char -> '`'"
        m = re.match(r'(\s*(?:\} else )?if )((?!err)[^;{]+)( \{)$', code) if f.endswith('.go') else re.match(r'(\s*if \()(.*)(\) *\{?)$', code)
        if m:
            yield i, m.group(1) + '!(' + m.group(2) + ')' + m.group(3), 'negate'
            yield i, m.group(1) + ('false && ' if f.endswith('.go') else '0 && ') + '(' + m.group(2) + ')' + m.group(3), 'never'
        if re.match(r'\s*[\w.\[\]]+( =|\+\+|--|\(| \+=| -=)[^{]*$', code) and ':=' not in code and not s.startswith(('return', 'if', 'for', 'switch', 'case', 'func', 'go ', 'defer')):
            yield i, '', 'delete'
        if s.startswith('return') and 'nil, false, err' not in s and s not in ('return err', 'return nil, err'):
            if f.endswith('.c'):
                yield i, re.sub(r'return\b.*;', 'return 0;', l), 'return 0'


def all_mutants():
    out = []
    fs = GO + ['runtime/' + x for x in sorted(os.listdir('/repo/runtime')) if x.endswith('.c') or x == 'x86_64.h']
    for f in fs:
        text = open('/repo/' + f).read()
        lines = text.split('\n')
        for i, new, what in candidates(f, text):
            if new != lines[i]:
                out.append((f, i, lines[i], new, what))
    return out


def survive(m):
    f, i, old, new, what = m
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        repo = copy_repo(d)
        p = os.path.join(repo, f)
        L = open(p).read().split('\n')
        L[i] = new
        open(p, 'w').write('\n'.join(L))
        try:
            r = inns(repo, 'bash /opt/vp/build.sh && go vet . && timeout 100 bash /opt/vp/test.sh %s/out.json' % d, timeout=200)
        except subprocess.TimeoutExpired:
            return None
        if r.returncode or not os.path.exists(d + '/out.json'):
            return None
        base = json.load(open('/opt/vp/BASELINE.json'))
        res = json.load(open(d + '/out.json'))

        def passed(x):
            for k in ('stable', 'passed', 'pass', 'tests'):
                if k in x:
                    return set(x[k]) if not isinstance(x[k], dict) else {a for a, b in x[k].items() if b in ('pass', 'passed', True)}
        return None if passed(base) - passed(res) else m
    except OSError:
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def hunt(m):
    f, i, old, new, what = m
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        repo = copy_repo(d)
        p = os.path.join(repo, f)
        L = open(p).read().split('\n')
        if L[i] != old:
            return m, 'stale'
        L[i] = new
        open(p, 'w').write('\n'.join(L))
        v = os.path.join(d, 'verif')
        os.makedirs(v)
        sh('cp -a /verif/* %s/; rm -rf %s/seeded %s/evidence %s/replays' % (v, v, v, v), shell=True)
        first = [int(x) for x in LIKELY[f if '/' not in f else 'runtime'].split()]
        order = first + [x for x in range(1, 25) if x not in first]
        for n in order:
            prop = 'P%02d' % n
            r = sh(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && mount --bind %s /verif && cd /verif && VERIF_DEADLINE=120 '
                    'VERIF_SEED=1 VERIF_TIER=quick timeout 400 python3 run.py %s quick' % (repo, v, prop)])
            if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                return m, prop
            if r.returncode != 0:
                return m, '%s ERROR rc=%d' % (prop, r.returncode)
        return m, 'MISSED'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == 'find':
        ms = all_mutants()
        print(len(ms), 'candidates')
        random.Random(int(sys.argv[3])).shuffle(ms)
        ms = ms[:int(sys.argv[2])]
        with cf.ThreadPoolExecutor(3) as ex:
            left = [m for m in ex.map(survive, ms) if m]
        json.dump(left, open(sys.argv[4], 'w'), indent=0)
        print(len(left), 'of', len(ms), 'survive build and tests')
        return
    left = json.load(open(sys.argv[2]))
    a = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    b = int(sys.argv[4]) if len(sys.argv) > 4 else len(left)
    with cf.ThreadPoolExecutor(3) as ex:
        for m, res in ex.map(hunt, left[a:b]):
            print('%-22s %s:%d %s | %s => %s' % (res, m[0], m[1] + 1, m[4], m[2].strip(), m[3].strip()), flush=True)


if __name__ == '__main__':
    main()
