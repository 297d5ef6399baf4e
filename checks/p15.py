"""P15: a successful command leaves exactly the requested files.

A file-system monitor takes snapshots of everything a command can reach (its directory, the
inputs' directories, the temporary directory, decoy files with the names of intermediate
files) before and after; a model of the command line says which files may appear and what
each must do. Outputs are judged by behaviour: every source says at run time which it is."""
import struct

from vf.batch import *
from vf.cmd import *
from vf.fs import *
from vf.gen import heavy

DECOYS = ['{}.tmp.ll', '{}.ll', '{}.s', '{}.o', '{}.s.tmp.ll', '{}.o.tmp.ll', '{}.tmp.0.ll', '{}.tmp.1.ll', '{}.bak', '{}.out', 'a.out', '{}.ll.tmp.ll',
          '{}.tmp.s', '{}.tmp.o', '{}.tmp']


def options(rng, mode, outname, g):
    """(list of option groups, each a list of words)"""
    ops = []
    if mode:
        ops.append([rng.choice(MODES[mode])])
    if outname is not None:
        ops.append(rng.choice([['-o', outname], ['-o' + outname], ['--output', outname], ['--output=' + outname], ['-o=' + outname]])
                   if not outname.startswith('=') else ['-o', outname])
    if rng.random() < .4:
        n = rng.choice('0123')
        ops.append(rng.choice([['-O' + n], ['-O', n], ['--optimize=' + n], ['--optimize', n], ['-O=' + n]]))
    if rng.random() < .2:
        ops.append([rng.choice(['-g', '--debug', '--debug=true'])])
    if g['verbose']:
        ops.append([rng.choice(['-v', '--verbose'])])
    if g['save']:
        ops.append(['--save-temps'])
    if rng.random() < .2:
        ops.append([rng.choice(['--save-temps=false', '-g=false', '--verbose=false', '--emit-llvm=false'])] if not (g['save'] or g['verbose'] or mode == 'll') else ['-g'])
    rt = G.tc.rt
    if not g['home']:
        ops.append(rng.choice([['-L', rt], ['-L' + rt], ['--library-dir', rt], ['--library-dir=' + rt]]))
    if rng.random() < .1:
        ops.append(['-L', '/nonexistent'])
    return ops


def arrange(rng, ops, inputs):
    """Options in any order, before, between and after the inputs (whose order is kept)."""
    rng.shuffle(ops)
    seq = [None] * len(inputs) + ops
    rng.shuffle(seq)
    it = iter(inputs)
    out = []
    for x in seq:
        out += [next(it)] if x is None else x
    if not ops or rng.random() < .05 or any(x.startswith('-') for x in inputs):
        out = [w for x in ops for w in x] + ['--'] + list(inputs)
    return out


def stem_of(path):
    b = os.path.basename(path)
    return b[:b.rindex('.')]


def setup_tree(rng, d, ninputs, mode, long=False):
    """Inputs and decoys. Returns [(path, kind, tag)]."""
    cwd = os.path.join(d, 'w', 'cwd')
    os.makedirs(cwd)
    for s in ('w/tmp', 'w/side', 'w/cwd/sub', 'w/cwd/dots.b', 'w/cwd/sub/deep dir', 'w/home'):
        os.makedirs(os.path.join(d, s), exist_ok=True)
    stems = rng.sample(STEMS + ['-dash', '@at', '-', '-o', '--'], ninputs)
    if ninputs > 1 and rng.random() < .5:
        # names much like one another
        s = rng.choice(stems + ['x', 'a', 'prog', 'Ab'])
        like = [s, s.swapcase(), s.upper(), s.capitalize(), s + '1', s + '0', s + '.tmp', s + '.tmp.0', s + '.b', s + '.ll', s + s, s + ' ',
                s + '.', '.' + s, s + '-', s + '~', s[:1], s + '_', s + '.o', s + '.s', s + '.tmp.1', 'lib' + s]
        like = list(dict.fromkeys(x for x in like if x))
        rng.shuffle(like)
        stems = (like + stems)[:ninputs]
        if mode == '' and rng.random() < .4:
            stems = [rng.choice(stems) for _ in stems]       # the same name in several directories
    if long:
        # as long as a name may be, or nearly
        size = rng.choice([200, 220, 240, 245, 246, 247, 248, 249, 250, 251, 252])
        s = rng.choice(['x', 'a b', '-dash', '@at', 'prog', '.hid'])
        s = rng.choice([s.ljust(size, rng.choice('nz-')), (s + '.tmp' * 70)[:size - 1] + 'x', (s + 'é' * 200)[:(size + len(s)) // 2]])
        stems = [s]
    inputs = []
    for t, s in enumerate(stems):
        kinds = ACCEPTS[mode]
        kind = rng.choice(kinds) if rng.random() < .5 else '.b'
        if t == 0 and kind == '.a':
            kind = '.o'
        if long:
            kind = '.b'
        p = rng.choice(DIRS) + s + kind
        if rng.random() < .15:
            p = os.path.join(cwd, p)
        if any(os.path.realpath(os.path.join(cwd, p)) == os.path.realpath(os.path.join(cwd, q)) for q, _, _ in inputs):
            p = 'u%d/%s%s' % (t, s, kind)
        callees = tuple(range(1, ninputs)) if mode == '' and t == 0 else ()
        prepare(d, os.path.join(cwd, p), unit(t, callees, mode != '' or t == 0), kind)
        inputs.append((p, kind, t))
    return cwd, inputs


def modules_of(d, cwd, inputs):
    """Reference module of each .b input, made elsewhere."""
    out = {}
    w = os.path.join(d, 'ref')
    os.makedirs(w)
    for p, kind, t in inputs:
        if kind == '.b':
            shutil.copy(os.path.join(cwd, p), os.path.join(w, 'u.b'))
            must(['--emit-llvm', '-o', 'u.ll', 'u.b'], w)
            out[p] = get(os.path.join(w, 'u.ll'))
    return out


def check_output(d, path, mode, tags, mods, p, g):
    """Does the file do what its name and input promise? Returns a complaint or None."""
    data = get(path)
    want, status = behaviour(tags[0], tags[1:])
    if mode == 'll':
        return None if data == mods[p] else 'is not the module of %s: %r' % (p, data[:100])
    if mode == '':
        if not os.access(path, os.X_OK) or data[:4] != b'\x7fELF':
            return 'is not an executable: %r' % data[:40]
        r = run([path], d, env=G.tc.env)
    else:
        if mode == 's' and (b'\0' in data or b'b.fn%d' % tags[0] not in data):
            return 'is not the assembly of input %d: %r' % (tags[0], data[:80])
        if mode == 'o' and (data[:4] != b'\x7fELF' or struct.unpack_from('<H', data, 16)[0] != 1):
            return 'is not a relocatable object file: %r' % data[:40]
        x = os.path.join(d, 'x')
        os.makedirs(x, exist_ok=True)
        shutil.copy(path, os.path.join(x, 'x.' + mode))
        r = blang(['-L', G.tc.rt, '-o', 'x', 'x.' + mode], x)
        if r.rc != 0:
            return 'cannot be linked: ' + r.err.decode('latin-1')[:300]
        r = run([os.path.join(x, 'x')], d, env=G.tc.env)
        shutil.rmtree(x)
    if (r.out, r.rc) != (want, status):
        return 'behaves differently: expected %r status %d, observed %r, %s' % (want, status, r.out[:200], r.describe())
    return None


@with_dir
def success(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    mode = rng.choice(['ll', 's', 'o', '', ''])
    n = rng.choice([1, 1, 1, 2, 3, 5])
    try:
        long = n == 1 and rng.random() < .25
        cwd, inputs = setup_tree(rng, d, n, mode, long)
        mods = modules_of(d, cwd, inputs)
    except PrepError as e:
        o.violate('%s%d:prep' % spec, '%s%d: preparing an input failed: %s' % (kind, i, e))
        return
    g = {'verbose': rng.random() < .2, 'save': rng.random() < .25 and not long, 'home': rng.random() < .2}
    outname = None
    if (n == 1 or mode == '') and rng.random() < .6:
        outname = rng.choice(['', '', 'sub/', './', '../side/', os.path.join(d, 'w', 'side') + '/', 'dots.b/']) + rng.choice(
            ['out', 'result.x', 'r.b.c', 'out put', 'o.tmp.ll', 'a.ll', 'a.s', 'a.o', 'z', 'UP.', 'x=y', 'prog2'])
    # which files must appear, with the tags of the code they contain
    expect = {}
    if mode == '':
        expect[outname if outname is not None else stem_of(inputs[0][0])] = (tuple(range(n)), None)
    elif outname is not None:
        expect[outname] = ((0,), inputs[0][0])
    else:
        for p, k, t in inputs:
            expect[stem_of(p) + '.' + mode] = ((t,), p)
    temps = {}
    if g['save'] and mode != 'll':
        for j, (p, k, t) in enumerate(inputs):
            if k == '.b':
                if mode == '':
                    name = next(iter(expect)) + '.tmp.ll' if n == 1 else '%s.tmp.%d.ll' % (stem_of(p), j)
                else:
                    name = (outname if outname is not None else stem_of(p) + '.' + mode) + '.tmp.ll'
                temps[name] = p
    names = {os.path.realpath(os.path.join(cwd, x)) for x in list(expect) + list(temps)}
    ins = {os.path.realpath(os.path.join(cwd, p)) for p, _, _ in inputs}
    dirs = {os.path.realpath(os.path.join(cwd, x)) for x in ('sub', 'dots.b', '.')}
    if names & ins or names & dirs or len(names) < len(expect) + len(temps):
        o.stats['cases_discarded'] += 1      # outputs would overwrite inputs
        return
    # decoys: unrelated files with tempting names, and old outputs to be replaced
    for x in [stem_of(p) for p, _, _ in inputs] + [os.path.basename(e) for e in expect]:
        for dec in rng.sample(DECOYS, 5):
            p = os.path.join(cwd, rng.choice(['', '', 'sub/']), dec.format(x))
            if os.path.realpath(p) not in names | ins | dirs and len(os.fsencode(os.path.basename(p))) < 250 and not os.path.exists(p):
                put(p, b'decoy ' + dec.encode() * 50)
    for x in list(expect) + list(temps):
        if rng.random() < .25:
            put(os.path.join(cwd, x), rng.choice([b'', b'old', b'old content\n' * 20000]))
    if g['home']:
        os.makedirs(os.path.join(d, 'w/home/.local/lib'))
        shutil.copy(os.path.join(G.tc.rt, 'libb.a'), os.path.join(d, 'w/home/.local/lib/libb.a'))
    env = dict(G.tc.env, TMPDIR=os.path.join(d, 'w', 'tmp'), HOME=os.path.join(d, 'w/home') if g['home'] else G.tc.home)
    args = arrange(rng, options(rng, mode, outname, g), [p for p, _, _ in inputs])
    before = snapshot(os.path.join(d, 'w'))
    r = blang(args, cwd, env)
    after = snapshot(os.path.join(d, 'w'))
    what = '%s%d: blang %s' % (kind, i, ' '.join(map(repr, args)))
    files = {'command.txt': what + '\n' + '\n'.join('%s %s %d' % x for x in inputs)}
    for p, k, t in inputs:
        files['input%d%s' % (t, k)] = get(os.path.join(cwd, p))

    def bad(msg):
        o.violate('%s%d' % spec, '%s: %s' % (what, msg), files)
    if r.rc != 0:
        return bad('%s: %s' % (r.describe(), r.err.decode('latin-1')[:500]))
    if r.err or (r.out and not g['verbose']):
        return bad('printed %r %r' % (r.out[:300], r.err[:300]))
    if g['verbose'] and not r.out:
        return bad('printed nothing with -v')
    created, removed, altered = changes(before, after)
    relnames = {os.path.relpath(x, os.path.realpath(os.path.join(d, 'w'))) for x in names}
    missing = sorted(x for x in relnames if x not in after)
    if missing:
        return bad('did not create %r' % missing)
    extra = [x for x in created if x not in relnames]
    alt = [x for x in altered if x not in relnames]
    stale = [x for x in relnames if x in before and x not in altered]
    if extra or removed or alt or stale:
        return bad('created %r, removed %r, altered %r, left as it was %r' % (extra, removed, alt, stale))
    for x, (tags, p) in expect.items():
        c = check_output(d, os.path.join(cwd, x), mode, tags, mods, p, g)
        if c:
            return bad('%r %s' % (x, c))
    for x, p in temps.items():
        if get(os.path.join(cwd, x)) != mods[p]:
            return bad('the temporary %r is not the module of %r' % (x, p))
    o.stats['commands'] += 1
    o.stats['commands_' + (mode or 'exe')] += 1
    o.stats['files_in_snapshots'] += len(after)
    o.stats['outputs_checked'] += len(expect) + len(temps)
    o.seen.add(digest(args))
    if not o.samples:
        o.samples.append(what)


BAD = [
    # (arguments, files)
    (['-O4', 'a.b'], 0), (['-Ofast', 'a.b'], 0), (['-O', '-1', 'a.b'], 0), (['-O', '', 'a.b'], 0), (['-O12', 'a.b'], 0), (['-O00', 'a.b'], 0),
    (['--frobnicate', 'a.b'], 0), (['-x', 'a.b'], 0), (['-W', 'a.b'], 0), (['a.b', '-z'], 0), (['--emit-lvm', 'a.b'], 0),
    (['-c', '-o', 'x.o', 'a.b', 'b.b'], 0), (['-S', '-o', 'x.s', 'a.b', 'b.b'], 0), (['--emit-llvm', '-o', 'x.ll', 'a.b', 'b.b'], 0),
    (['a.b', '-c', 'b.b', '-o', 'x.o'], 0), (['-S', 'a.o'], 0), (['-S', 'a.s'], 0), (['-S', 'a.a'], 0), (['-S', 'b.b', 'a.o'], 0),
    (['-c', 'a.o'], 0), (['-c', 'a.a'], 0), (['-c', 'b.b', 'a.a'], 0), (['--emit-llvm', 'a.ll'], 0), (['--emit-llvm', 'a.s'], 0),
    (['--emit-llvm', 'a.o'], 0), (['--emit-llvm', 'b.b', 'a.ll'], 0), (['a'], 0), (['a.c'], 0), (['a.txt', 'a.b'], 0), (['a.b', 'a.B'], 0),
    (['a.b.'], 0), (['nosuch.b'], 0), (['a.b', 'nosuch.b'], 0), (['-c', 'nosuch.ll'], 0), (['a.b', 'nosuch.o'], 0), (['a.b', 'nosuch.a'], 0),
    (['-o'], 0), (['a.b', '-o'], 0), (['a.b', '-L'], 0), (['a.b', '-l'], 0), (['-o', 'x'], 0), (['-c'], 0), (['-v'], 0), ([], 0), (['--'], 0),
    (['a.b', '-l', 'nosuchlib'], 0), (['a.b', '-lnosuchlib', '-o', 'x'], 0), ([''], 0), (['-g=maybe', 'a.b'], 0), (['.'], 0), (['sub'], 0),
    (['sub.b'], 0), (['-c', 'sub.b'], 0), (['-S', 'sub.ll'], 0), (['a.b', 'sub.o'], 0), (['a.b', 'sub.a'], 0),
]
INFO = [['-h'], ['--help'], ['-V'], ['--version'], ['-V', 'a.b'], ['a.b', '-h'], ['-c', 'a.b', '--version'], ['nosuch.b', '-V']]


@with_dir
def refused(spec, d, o):
    """Invalid command lines, and those that only ask for information."""
    kind, i = spec
    rng = G.check.rng(kind, i)
    w = os.path.join(d, 'w')
    cwd = os.path.join(w, 'cwd')
    os.makedirs(os.path.join(w, 'tmp'))
    info = kind == 'info'
    args = list(INFO[i]) if info else list(BAD[i % len(BAD)][0])
    try:
        for k in ('.b', '.ll', '.s', '.o', '.a'):
            prepare(d, os.path.join(cwd, 'a' + k), unit(1), k)
        prepare(d, os.path.join(cwd, 'b.b'), unit(2, main=False), '.b')
    except PrepError as e:
        o.violate('%s%d:prep' % spec, 'preparing an input failed: %s' % e)
        return
    for n in ('a', 'a.c', 'a.txt', 'a.B', 'a.b.'):
        put(os.path.join(cwd, n), unit(1))
    for n in ('sub', 'sub.b', 'sub.ll', 'sub.o', 'sub.a'):
        os.makedirs(os.path.join(cwd, n))
    if args != ['a']:
        os.remove(os.path.join(cwd, 'a'))      # the linker may remove an old output when it fails
    if i >= len(BAD) and not info:
        extra = [['-v'], ['-g'], ['-O2'], ['--save-temps'], ['-L', '.']]
        if args and args[-1] not in ('-o', '-L', '-l', '--'):
            for e in rng.sample(extra, rng.randint(1, 2)):
                args += e
    if args and args[0] not in ('-o', '-L', '--', '-O') and not info and any(a.endswith(('.b', '.ll', '.s')) for a in args):
        args = ['-L', G.tc.rt] + args
    env = dict(G.tc.env, TMPDIR=os.path.join(w, 'tmp'))
    before = snapshot(w)
    r = blang(args, cwd, env)
    created, removed, altered = changes(before, snapshot(w))
    keep = '--save-temps' in args
    created = [c for c in created if not (keep and c.endswith('.ll') and '.tmp.' in c)]
    what = 'blang %s' % ' '.join(map(repr, args))
    msg = None
    if info and (r.rc != 0 or not r.out + r.err):
        msg = 'information expected: %s, %r' % (r.describe(), (r.out + r.err)[:200])
    elif not info and (r.rc in (0,) or r.rc < 0 or r.rc > 2 or r.cpu_killed):
        msg = 'was not refused: %s' % r.describe()
    elif not info and not (r.err or r.out):
        msg = 'was refused without a message'
    elif b'panic' in r.err or b'goroutine' in r.err:
        msg = 'crashed: %r' % r.err[:300]
    elif created or removed or altered:
        msg = 'created %r, removed %r, altered %r' % (created, removed, altered)
    if msg:
        o.violate('%s%d' % spec, '%s: %s' % (what, msg), {'command.txt': what})
        return
    o.stats['commands'] += 1
    o.stats['commands_' + kind] += 1
    o.seen.add(digest(args))


@with_dir
def together(spec, d, o):
    """Several commands at the same time in one directory, sharing inputs."""
    kind, i = spec
    rng = G.check.rng(kind, i)
    w = os.path.join(d, 'w')
    cwd = os.path.join(w, 'cwd')
    os.makedirs(os.path.join(w, 'tmp'))
    for t in range(4):
        put(os.path.join(cwd, 'm%d.b' % t), unit(t, (9,)))
        put(os.path.join(cwd, 's%d.b' % t), unit(t))
    put(os.path.join(cwd, 'util.b'), unit(9, main=False))
    env = dict(G.tc.env, TMPDIR=os.path.join(w, 'tmp'))
    cmds = []
    for t in range(rng.randint(2, 4)):
        r = rng.random()
        if r < .6:
            ins = ['util.b', 'm%d.b' % t] if rng.random() < .6 else ['m%d.b' % t, 'util.b']
            cmds.append((['-L', G.tc.rt, '-o', 'p%d' % t] + ins, 'p%d' % t, '', (t, 9)))
        elif r < .8:
            cmds.append((['-L', G.tc.rt, '-o', 'p%d' % t, 's%d.b' % t], 'p%d' % t, '', (t,)))
        else:
            m = rng.choice(['s', 'o'])
            cmds.append(([MODES[m][0], '-o', 'p%d.%s' % (t, m), 's%d.b' % t], 'p%d.%s' % (t, m), m, (t,)))
    before = snapshot(w)
    ps = []
    for a, _, _, _ in cmds:
        ps.append(subprocess.Popen([G.tc.blang] + a, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT))
    outs = [p.communicate()[0] for p in ps]
    created, removed, altered = changes(before, snapshot(w))
    what = '%s%d: concurrently %s' % (kind, i, '; '.join('blang ' + ' '.join(c[0]) for c in cmds))
    for p, out, c in zip(ps, outs, cmds):
        if p.returncode != 0 or out:
            return o.violate('%s%d' % spec, '%s: status %d for %s, output %r' % (what, p.returncode, c[0], out[:300]), {'command.txt': what})
    want = sorted('cwd/' + c[1] for c in cmds)
    if created != want or removed or altered:
        return o.violate('%s%d' % spec, '%s: created %r, removed %r, altered %r' % (what, created, removed, altered), {'command.txt': what})
    for a, name, m, tags in cmds:
        c = check_output(d, os.path.join(cwd, name), m, tags, {}, None, {})
        if c:
            return o.violate('%s%d' % spec, '%s: %s %s' % (what, name, c), {'command.txt': what})
    o.stats['concurrent_groups'] += 1
    o.stats['commands'] += len(cmds)
    o.stats['outputs_checked'] += len(cmds)
    o.seen.add(digest(what))


def dispatch(spec):
    return {'ok': success, 'bad': refused, 'info': refused, 'conc': together}[spec[0]](spec)


def main(tier, seed):
    c = setup('P15', tier, seed, 'exploration', 'distinct command lines whose effects were checked completely',
              ['Commands that would overwrite their own inputs are not judged.',
               'Snapshots cover the scratch tree, which contains every directory named by the command, and TMPDIR.'])
    n = (700, len(BAD), 50) if tier == 'quick' else (6000, len(BAD) * 6, 500)
    tasks = [('ok', i) for i in range(n[0])] + [('bad', i) for i in range(n[1])] + [('info', i) for i in range(len(INFO))] + \
        [('conc', i) for i in range(n[2])]
    c.rng('order').shuffle(tasks)
    c.run_tasks(dispatch, tasks)
    return c.finish('commands', 50)
