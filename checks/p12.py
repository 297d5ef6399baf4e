"""P12: compilation is deterministic and inputs do not influence each other.

Monitors: (1) the module of one source is recorded once and every later compilation of it
is compared byte by byte, whatever the file name, directory, environment, companions and
order; (2) an in-process harness repeats that within one process, in sequence and
concurrently, under Go's race detector."""
import json
import re

from vf.batch import *
from vf.common import GOENV, REPO, sh
from vf.corpus import *

DIRS = ['.', 'sub', 'sub/deep.er', 'with space', 'x.b.d']
NAMES = ['a', 'main', 'prog', 'v1.2', 'UPPER', 'a_b-c', 'x.b', 'tmp', 'l' * 100, 'é', 'entry', '0']


def emit(d, args, env=None, cwd=None):
    return run([G.tc.blang, '--emit-llvm'] + args, cwd or d, env=env or G.tc.env, cpu=30, mem=10 << 30)


def source(rng):
    r = rng.random()
    if r < .35:
        return program_text(Tame(rng).program(), rng, 'plain', .05).encode('latin-1')
    if r < .8:
        return program_text(static_program(rng), rng, 'plain', .05).encode('latin-1')
    if r < .9:
        return program_text(Wild(rng).program(), rng, 'plain').encode('latin-1')
    return mutate_bytes(rng, program_text(static_program(rng, nfun=1), rng, 'plain').encode('latin-1'), 2)


def put(p, data):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(data)


def get(p):
    if not os.path.exists(p):
        return None
    with open(p, 'rb') as f:
        return f.read()


@with_dir
def repeat(spec, d, o):
    """One source, many circumstances."""
    kind, i = spec
    rng = G.check.rng(kind, i)
    data = source(rng)
    put(os.path.join(d, 'p.b'), data)
    r = emit(d, ['-o', 'ref.ll', 'p.b'])
    ref = get(os.path.join(d, 'ref.ll'))
    rc0 = r.rc
    o.seen.add(digest(data))
    o.stats['accepted' if rc0 == 0 else 'refused'] += 1
    for n in range(14):
        how = rng.choice(['again', 'name', 'abs', 'env', 'default', 'busy'])
        env, args, cwd, outp = dict(G.tc.env), None, d, os.path.join(d, 'out.ll')
        sub = os.path.join(rng.choice(DIRS), '%s.b' % rng.choice(NAMES))
        if how == 'again' or n < 4:
            args = ['-o', 'out.ll', 'p.b']
        elif how == 'name':
            put(os.path.join(d, sub), data)
            args = ['-o', 'out.ll', sub]
        elif how == 'abs':
            put(os.path.join(d, sub), data)
            cwd = os.path.join(d, 'other')
            os.makedirs(cwd, exist_ok=True)
            args = ['-o', outp, os.path.join(d, sub)]
        elif how == 'env':
            env.update(rng.choice([{'GOMAXPROCS': '1'}, {'GOGC': '1'}, {'TZ': 'Asia/Tokyo', 'LANG': 'tr_TR.UTF-8', 'LC_ALL': 'tr_TR'},
                                   {'HOME': '/nonexistent'}, {'GODEBUG': 'randautoseed=0'}, {'TERM': 'xterm', 'COLUMNS': '10'},
                                   {'SOURCE_DATE_EPOCH': '1'}, {'TMPDIR': d}, {'USER': 'x', 'B': 'y'}]))
            args = ['-o', 'out.ll', 'p.b']
        elif how == 'default':
            put(os.path.join(d, sub), data)
            args = [sub]
            outp = os.path.join(d, os.path.basename(sub)[:-2] + '.ll')
        else:
            # the directory is full of other things
            for x in ('p.ll', 'p.tmp.ll', 'b.b', 'libb.a', 'printf.b'):
                put(os.path.join(d, x), b'main(){other();}')
            args = ['-o', 'out.ll', 'p.b']
        if os.path.exists(outp):
            os.unlink(outp)
        r = emit(d, args, env, cwd)
        got = get(outp)
        o.stats['recompilations'] += 1
        if r.rc != rc0 or got != ref:
            o.violate('repeat%d' % i, 'repeat%d: compiled %s (%s): exit status %d, before %d; module %s' % (
                i, how, args, r.rc, rc0, 'differs' if got is not None and ref is not None else 'missing or unexpected'),
                {'p.b': data, 'first.ll': ref or b'', 'second.ll': got or b'', 'stderr.txt': r.err})
            return
    if not o.samples:
        o.samples.append('repeat%d: %d bytes, module of %d bytes, 14 times the same' % (i, len(data), len(ref or b'')))


@with_dir
def together(spec, d, o):
    """Several inputs of one command: each yields the module it yields alone."""
    kind, i = spec
    rng = G.check.rng(kind, i)
    n = rng.randint(2, 8)
    alone, names = {}, []
    shared = rng.random() < .5
    for k in range(n):
        if shared and k and rng.random() < .6:
            # files that use the same names differently
            data = program_text(Tame(rng).program(), rng, 'plain').encode('latin-1')
        else:
            data = source(rng)
        x = 'm%d' % k
        put(os.path.join(d, x + '.b'), data)
        r = emit(d, ['-o', x + '.alone', x + '.b'])
        if r.rc != 0:
            os.unlink(os.path.join(d, x + '.b'))
            continue
        alone[x] = get(os.path.join(d, x + '.alone'))
        names.append(x)
        o.seen.add(digest(data))
    for rep in range(3):
        if not names:
            return
        rng.shuffle(names)
        use = names[:rng.randint(1, len(names))]
        if rng.random() < .2:
            use = use + [rng.choice(use)]
        for x in use:
            p = os.path.join(d, x + '.ll')
            if os.path.exists(p):
                os.unlink(p)
        r = emit(d, [x + '.b' for x in use])
        o.stats['commands_with_several_inputs'] += 1
        for x in use:
            o.stats['recompilations'] += 1
            got = get(os.path.join(d, x + '.ll'))
            if r.rc != 0 or got != alone[x]:
                o.violate('together%d' % i, 'together%d: %s of %s: %s; the module of %s %s' % (
                    i, x, use, r.describe(), x, 'is missing' if got is None else 'differs from the one it yields alone'),
                    dict([(y + '.b', get(os.path.join(d, y + '.b'))) for y in use] +
                         [('alone.ll', alone[x]), ('together.ll', got or b''), ('stderr.txt', r.err)]))
                return


@with_dir
def objects(spec, d, o):
    """The same through the back end: -S of several inputs, alone and together, also in parallel processes."""
    kind, i = spec
    rng = G.check.rng(kind, i)
    names = []
    for k in range(3):
        data = program_text(static_program(rng, nfun=1), rng, 'plain').encode('latin-1')
        put(os.path.join(d, 'm%d.b' % k), data)
        names.append('m%d' % k)
        o.seen.add(digest(data))
    fl = rng.choice(['-O0', '-O1', '-O2', '-O3'])
    ref = {}
    for x in names:
        os.makedirs(os.path.join(d, 'solo'), exist_ok=True)
        r = run([G.tc.blang, fl, '-S', '-o', x + '.s', x + '.b'], d, env=G.tc.env, cpu=60)
        ref[x] = get(os.path.join(d, x + '.s'))
        if r.rc != 0 or ref[x] is None:
            o.violate('objects%d' % i, 'objects%d: a valid program was not compiled: %r' % (i, r.err[:300]),
                      {'p.b': get(os.path.join(d, x + '.b'))})
            return
        os.unlink(os.path.join(d, x + '.s'))
    run([G.tc.blang, fl, '-S'] + [x + '.b' for x in names], d, env=G.tc.env, cpu=60)
    for how in ('together', 'parallel'):
        if how == 'parallel':
            ps = [subprocess.Popen([G.tc.blang, fl, '-S', x + '.b'], cwd=d, env=G.tc.env, stderr=subprocess.DEVNULL)
                  for x in names]
            for p in ps:
                p.wait()
        for x in names:
            o.stats['recompilations'] += 1
            got = get(os.path.join(d, x + '.s'))
            # the name of the temporary file may appear in .file directives
            if got is None or strip(got) != strip(ref[x]):
                o.violate('objects%d:%s' % (i, how), 'objects%d %s: assembly of %s compiled %s %s' % (
                    i, fl, x, how, 'is missing' if got is None else 'differs'),
                    {'p.b': get(os.path.join(d, x + '.b')), 'alone.s': ref[x], 'now.s': got or b''})
                return
            os.unlink(os.path.join(d, x + '.s'))


def strip(s):
    return re.sub(rb'(?m)^\s*\.(file|ident)\b.*$', b'', s)


def build_harness(scratch):
    ov = os.path.join(scratch, 'overlay.json')
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'support', 'go', 'zz_verif_test.go')
    with open(ov, 'w') as f:
        json.dump({'Replace': {os.path.join(REPO, 'zz_verif_test.go'): src}}, f)
    exe = os.path.join(scratch, 'harness.test')
    env = dict(GOENV, CGO_ENABLED='1')
    r = sh(['go', 'test', '-c', '-race', '-vet=off', '-overlay', ov, '-o', exe, '.'], cwd=REPO, env=env)
    return (exe, r) if r.returncode == 0 else (None, r)


@with_dir
def inproc(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    src, out = os.path.join(d, 'in'), os.path.join(d, 'out')
    os.makedirs(src)
    os.makedirs(out)
    for k in range(24):
        data = source(rng)
        p = os.path.join(src, 's%02d.b' % k)
        put(p, data)
        emit(d, ['-o', p[:-2] + '.ll', p])
        o.seen.add(digest(data))
    env = dict(G.tc.env, VERIF_IN=src, VERIF_OUT=out, VERIF_SEED=str(digest((G.seed, i)) & 0xffffff),
               VERIF_ROUNDS='6' if G.tier == 'quick' else '40', GOMAXPROCS=str(rng.choice([2, 4, 8])),
               GORACE='halt_on_error=0 exitcode=66')
    r = run([G.harness, '-test.run', 'TestVerifIsolation', '-test.v'], d, env=env, cpu=900)
    text = r.out.decode('latin-1') + r.err.decode('latin-1')
    m = re.search(r'VERIF-STATS (.*)', text)
    if 'DATA RACE' in text or 'VERIF-MISMATCH' in text or (r.rc not in (0, 66) and m):
        files = {'harness-output.txt': text[:200000]}
        for f in sorted(os.listdir(src)):
            files[f] = get(os.path.join(src, f))
        first = re.search(r'(VERIF-MISMATCH.*|WARNING: DATA RACE(?:.*\n){1,12})', text)
        o.violate('inproc%d' % i, 'inproc%d: compilations within one process influence each other: %s' % (
            i, first.group(1) if first else r.describe()), files)
    elif not m:
        o.violate('inproc%d:died' % i, 'inproc%d: the process compiling many sources died: %s: %s' % (i, r.describe(), text[-600:]),
                  {'harness-output.txt': text[:200000]})
    else:
        for k, v in re.findall(r'(\w+)=(\d+)', m.group(1)):
            if k == 'max_running':
                continue
            o.stats['inprocess_' + k] += int(v)
        o.stats['recompilations'] += int(re.search(r'compiled=(\d+)', text).group(1))
        o.samples.append('inproc%d: %s' % (i, m.group(1)))


def task(spec):
    return {'repeat': repeat, 'together': together, 'objects': objects, 'inproc': inproc}[spec[0]](spec)


def main(tier, seed):
    quick = tier == 'quick'
    c = setup('P12', tier, seed, 'exploration',
              'one evaluation = one compilation compared with the first one of the same source; distinct = different sources',
              ['the race detector sees only the interleavings executed'])
    G.harness, r = build_harness(c.scratch.dir)
    c.extra['in_process_harness'] = 'built with the race detector' if G.harness else 'not built: ' + r.stderr.decode()[-300:]
    m = 1 if quick else 12
    tasks = []
    for k, n in [('repeat', 110), ('together', 60), ('objects', 16)] + ([('inproc', 8)] if G.harness else []):
        tasks += [(k, i) for i in range(n * m)]
    tasks.sort(key=lambda t: (t[0] != 'inproc', digest(t)))
    c.run_tasks(task, tasks)
    return c.finish('recompilations', 100)
