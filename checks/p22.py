"""P22: libraries are found and linked as asked.

A pool of object files, each defining functions that say at run time which file they are and then
call further functions, is put together into archives in several directories (the default one
under HOME and those named by -L). The model searches the directories, pulls members and resolves
names; the executed program must print exactly the definitions the model selected, and a command
that the model cannot complete must be refused without an output."""
from vf.batch import *
from vf.cmd import blang, must, sh, shutil
from vf.common import HarnessError
from vf.fs import *

NF = 7               # functions f0..f6; fK calls only higher ones
TAGS = 6
LIBS = ['p', 'q', 'rr', 'a-b', 'v1.2', 'P', 'bb', 'x+y', 'lib', 'm_n']
DIRS = ['d0', 'd 1', 'sub/d2', '../side/d3', 'a,b', 'q"t', "s'q", 'e=f', 'ünï', 'tab\tx', '%s', 'x;y', '$v', '*', '-dash', '@at', 'd.a', '#h', 'c:d', 'back\\slash']


def source(tag, fns, variant=0):
    """fns: {K: (callees)}; some files have an obsolete definition too, or a call ahead of the definition"""
    s = ''
    for k, deps in sorted(fns.items(), reverse=bool(variant & 2)):
        if variant & 1:
            s += 'f%d(x) { printf("obsolete*n"); return (x); }\n' % k
        s += 'f%d(x) { printf("f%d of %d: %%d*n", x);%s return (x + %d); }\n' % (
            k, k, tag, ''.join(' f%d(x * 2 + %d);' % (j, i) for i, j in enumerate(deps)), k + tag)
    return s


class Unit:
    """One object file: definitions and what they call."""

    def __init__(self, tag, fns, rt=None):
        self.tag, self.fns, self.rt = tag, fns, rt
        self.variant = 0
        self.defs = set('f%d' % k for k in fns) | ({'ident'} if rt is not None else set())
        self.undefs = set('f%d' % j for d in fns.values() for j in d)


def pool(rng):
    """Objects made once per run of the check."""
    us = []
    for tag in range(TAGS):
        for k in range(NF):
            for _ in range(2):
                deps = tuple(sorted(rng.sample(range(k + 1, NF), min(rng.choice([0, 0, 0, 1, 1, 2]), NF - k - 1))))
                us.append(Unit(tag, {k: deps}))
            if k < NF - 1:
                us.append(Unit(tag, {k: (k + 1,)}))
        a, b = sorted(rng.sample(range(NF), 2))
        us.append(Unit(tag, {a: (b,) if rng.random() < .5 else (), b: ()}))
    for u in us:
        u.variant = rng.choice([0, 0, 0, 1, 2, 3])
    return us


@with_dir
def build(spec, d, o):
    """compile one unit of the pool, or a runtime library that says who it is"""
    kind, i = spec
    out = G.check.scratch.sub('pool')
    u = G.pool[i]
    put(os.path.join(d, 'u.b'), source(u.tag, u.fns, u.variant))
    r = blang(['-c', '-o', 'u.o', 'u.b'], d)
    if r.rc != 0:
        o.violate('pool%d' % i, 'a part of the libraries does not compile: ' + r.err.decode('latin-1')[:300])
        return
    shutil.copy(os.path.join(d, 'u.o'), os.path.join(out, 'u%d.o' % i))
    o.stats['objects'] += 1


@with_dir
def runtime(spec, d, o):
    _, tag = spec
    out = G.check.scratch.sub('pool')
    put(os.path.join(d, 'ident.b'), 'ident() { printf("runtime %d*n"); return (0); }\n' % tag)
    r = blang(['-c', 'ident.b'], d)
    if r.rc != 0:
        o.violate('runtime%d' % tag, 'a part of the libraries does not compile: ' + r.err.decode('latin-1')[:300])
        return
    shutil.copy(os.path.join(G.tc.rt, 'libb.a'), os.path.join(d, 'libb.a'))
    if sh(['ar', 'r', 'libb.a', 'ident.o'], cwd=d).returncode:
        raise HarnessError('ar failed')
    shutil.copy(os.path.join(d, 'libb.a'), os.path.join(out, 'libb%d.a' % tag))


class Refuse(Exception):
    pass


def link(inputs):
    """What a linker does with objects (units) and archives (lists of units) in this order: {name: unit}"""
    defs, und = {}, set()

    def add(u):
        for n in u.defs:
            if n in defs:
                raise Refuse('%s is defined twice' % n)
            defs[n] = u
        und.update(u.undefs)

    for ar in inputs:
        if isinstance(ar, Unit):
            add(ar)
            continue
        changed = True
        while changed:
            changed = False
            for u in ar:
                if any(n in und and n not in defs for n in u.defs):
                    add(u)
                    changed = True
    left = {n for n in und if n not in defs}
    if left:
        raise Refuse('%s not defined' % sorted(left))
    return defs


def execute(defs, main):
    out = []

    def call(k, x):
        u = defs['f%d' % k]
        out.append('f%d of %d: %d' % (k, u.tag, wrap(x)))
        for i, j in enumerate(u.fns[k]):
            call(j, x * 2 + i)
        return x + k + u.tag

    st = 0
    for k, x in main:
        if k is None:
            out.append('runtime %d' % defs['ident'].tag)
        else:
            st += call(k, x)
            if len(out) > 3000:
                raise Refuse('too long')
    return '\n'.join(out) + '\n', st % 128


def wrap(x):
    return (x + (1 << 63)) % (1 << 64) - (1 << 63)


@with_dir
def case(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    w = os.path.join(d, 'w')
    cwd = os.path.join(w, 'cwd')
    P = G.check.scratch.sub('pool')
    os.makedirs(cwd)
    os.makedirs(os.path.join(w, 'tmp'))
    # directories: those of the command line, and the default one
    dirs = rng.sample(DIRS, rng.randint(1, 4))
    homekind = rng.choice(['full', 'full', 'empty', 'none', 'unset', 'file', 'blank', 'link', 'link'])
    home = os.path.join(w, rng.choice(['home', 'home dir', 'hö,me']))
    env = dict(G.tc.env, TMPDIR=os.path.join(w, 'tmp'), HOME=home)
    search = []
    if homekind in ('full', 'empty'):
        search.append(os.path.join(home, '.local/lib'))
        os.makedirs(search[0])
    elif homekind == 'link':
        # some step of the way there is a symbolic link
        search.append(os.path.join(home, '.local/lib'))
        real, at = rng.choice([('real', home), ('real', home + '/.local'), ('real', home + '/.local/lib'), ('real', home + '/.local/lib')])
        os.makedirs(os.path.join(w, real) + os.path.join(home, '.local/lib')[len(at):])
        os.makedirs(os.path.dirname(at), exist_ok=True)
        os.symlink(rng.choice([os.path.join(w, real), os.path.relpath(os.path.join(w, real), os.path.dirname(at))]), at)
    elif homekind == 'none':
        os.makedirs(home)
    elif homekind == 'unset':
        del env['HOME']
    elif homekind == 'file':
        put(os.path.join(home, '.local/lib'), 'not a directory')
    else:
        env['HOME'] = ''
    ops = []
    for x in dirs:
        p = os.path.join(cwd, x)
        os.makedirs(p, exist_ok=True)
        form = rng.random()
        arg = x
        if form < .25:
            arg = os.path.join(cwd, x)
        elif form < .4:
            arg = './' + x + '/'
        elif form < .5:
            os.makedirs(os.path.join(cwd, 'links'), exist_ok=True)
            arg = 'links/l%d' % len(ops)
            os.symlink(p, os.path.join(cwd, arg))
        elif form < .6:
            # through a link and up again
            os.makedirs(os.path.join(cwd, 'links'), exist_ok=True)
            e = os.path.join(os.path.dirname(p), 'e%d' % len(ops))
            os.makedirs(e)
            os.symlink(e, os.path.join(cwd, 'links/u%d' % len(ops)))
            arg = 'links/u%d/../%s' % (len(ops), os.path.basename(p))
        search.append(p)
        ops.append(rng.choice([['-L', arg], ['-L' + arg], ['--library-dir', arg], ['--library-dir=' + arg], ['-L=' + arg]]) if arg[0] != '-' and arg[0] != '='
                   else rng.choice([['-L' + arg], ['--library-dir=' + arg]]))
        if rng.random() < .15:
            ops.append(['-L', rng.choice(['nowhere', '/nonexistent', 'main.b'])])
    if rng.random() < .2:
        j = rng.randrange(len(ops))
        ops.append(ops[j])           # named twice
    # libraries
    libs = rng.sample(LIBS, rng.randint(1, 4))
    content = {}

    def fill(path, units):
        ms = []
        for j, u in enumerate(units):
            n = 'm%d.o' % j
            shutil.copy(os.path.join(P, 'u%d.o' % G.pool.index(u)), os.path.join(d, n))
            ms.append(n)
        if sh(['ar', 'cr', path] + ms, cwd=d).returncode:
            raise HarnessError('ar failed')
        content[path] = units

    def members():
        us, seen = [], set()
        for u in rng.sample(G.pool, rng.choice([2, 5, 9, 14, 20])):
            if not u.defs & seen:
                seen |= u.defs
                us.append(u)
        return us

    # or: libraries that need each other, named as often as it takes (or once less)
    chain = None
    if rng.random() < .3:
        n = rng.randint(3, NF)
        steps = [rng.choice([u for u in G.pool if u.fns == {k: (k + 1,) if k < n - 1 else ()}] or [None]) for k in range(n)]
        if None not in steps:
            chain = [rng.choice(libs[:3]) for _ in steps]
            at = rng.choice([p for p in search if not (p.startswith(home) and homekind == 'empty')])
            for lib in set(chain):
                fill(os.path.join(at, 'lib%s.a' % lib), [u for u, x in sorted(zip(steps, chain), key=lambda y: rng.random()) if x == lib])
    for p in search:
        if p.startswith(home) and homekind == 'empty':
            continue
        for lib in libs:
            if chain and (lib in chain or rng.random() < .5):
                continue
            if rng.random() < .65:
                fill(os.path.join(p, 'lib%s.a' % lib), members())
            elif rng.random() < .15:
                put(os.path.join(p, rng.choice(['lib%s.so', 'lib%s.o', '%s.a', 'lib%s', 'lib%s.a.bak', 'lib%s.la'])) % lib
                    if '%' not in p else os.path.join(p, 'junk'), 'no library at all')
    # the runtime: one or more directories have one
    have = [p for p in search if rng.random() < .5 and not (p.startswith(home) and homekind == 'empty')]
    if rng.random() < .93 and not have:
        have = [search[-1]]
    rts = rng.sample(range(TAGS), min(TAGS, len(have)))
    for p, t in zip(have, rts):
        shutil.copy(os.path.join(P, 'libb%d.a' % t), os.path.join(p, 'libb.a'))
        content[os.path.join(p, 'libb.a')] = [Unit(t, {}, rt=t)]
    # directories nobody named have libraries of these names, too
    if rng.random() < .7:
        for p in rng.sample(['cwd', 'tmp', os.path.basename(home), os.path.basename(home) + '/lib', os.path.basename(home) + '/.local', 'cwd/lib', 'cwd/.local/lib'],
                            rng.choice([1, 3, 7])):
            p = os.path.join(w, p)
            if (homekind in ('file', 'unset', 'blank') and p.startswith(home)) or p in search:
                continue
            os.makedirs(p, exist_ok=True)
            for lib in rng.sample(libs, rng.randint(1, len(libs))) + rng.choice([[], ['b']]):
                f = os.path.join(p, 'lib%s.a' % lib)
                if not os.path.lexists(f):
                    if lib == 'b':
                        shutil.copy(os.path.join(P, 'libb%d.a' % rng.randrange(TAGS)), f)
                    else:
                        fill(f, members())
                        del content[f]
                    o.stats['decoys'] += 1
    # inputs
    asked = [rng.choice(libs) for _ in range(rng.randint(0, len(libs) + 2))] if rng.random() < .5 else rng.sample(libs, rng.choice([len(libs), len(libs), rng.randint(0, len(libs))]))
    avail = sorted({k for p, us in content.items() for u in us for k in u.fns if rng.random() < .1 or any(p.endswith('/lib%s.a' % x) for x in asked)})
    main = [(rng.choice(avail) if avail and rng.random() < .97 else rng.randrange(NF), rng.randint(0, 9)) for _ in range(rng.randint(1, 4))]
    if chain and rng.random() < .9:
        main = [(rng.choice([0, 0, 1]), rng.randint(0, 9))]
    if rng.random() < .7:
        main.insert(rng.randint(0, len(main)), (None, 0))
    mu = Unit(None, {})
    own = ''
    if rng.random() < .25:
        # functions of its own
        u = rng.choice(G.pool)
        own = source(u.tag, u.fns, rng.randrange(4))
        mu = Unit(u.tag, u.fns)
    mu.undefs |= {'ident' if k is None else 'f%d' % k for k, _ in main}
    text = 'main() { auto s;\n%s return (s %% 128); }\n' % ''.join(
        'ident();\n' if k is None else 's =+ f%d(%d);\n' % (k, x) for k, x in main)
    text = rng.choice([text + own, own + text])
    put(os.path.join(cwd, 'main.b'), text)
    given = [('main.b', mu)]
    for n in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
        u = rng.choice([u for u in G.pool if u.defs & mu.defs] if own and rng.random() < .3 else G.pool)
        if n and any(isinstance(x, Unit) and x.defs & u.defs for _, x in given) and rng.random() < .9:
            continue
        f = rng.choice(['extra%d.o', 'sub/e%d.o', 'EXTRA.%d.o', './x%d.o']) % n
        os.makedirs(os.path.dirname(os.path.join(cwd, f)), exist_ok=True)
        shutil.copy(os.path.join(P, 'u%d.o' % G.pool.index(u)), os.path.join(cwd, f))
        given.insert(rng.randint(0, len(given)), (f, u))
    for n in range(rng.choice([0, 0, 0, 1, 1, 2])):
        f = rng.choice(['direct%d.a', 'sub/d%d.a', 'libd%d.a']) % n
        os.makedirs(os.path.dirname(os.path.join(cwd, f)), exist_ok=True)
        fill(os.path.join(cwd, f), members())
        for _ in range(rng.choice([1, 1, 1, 2])):
            given.insert(rng.randint(0, len(given)), (f, content[os.path.join(cwd, f)]))
    inputs = [f for f, _ in given]
    if chain:
        asked = [x for j, x in enumerate(chain) if j == 0 or chain[j - 1] != x]
        if rng.random() < .2:
            asked.pop(rng.randrange(len(asked)))
    lops = []
    for x in asked:
        lops.append(rng.choice([['-l', x], ['-l' + x], ['--library', x], ['--library=' + x], ['-l=' + x]]))
    if rng.random() < .08:
        asked.insert(0, 'nosuch')
        lops.insert(0, ['-lnosuch'])
    # options of one kind keep their order among themselves; everything else is free
    seq = ['i'] * len(inputs) + ['L'] * len(ops) + ['l'] * len(lops) + ['o', 'O']
    rng.shuffle(seq)
    other = {'o': rng.choice([['-o', 'out'], ['--output=out']]), 'O': rng.choice([[], ['-O2'], ['-O0'], ['-g']])}
    its = {'i': iter([[x] for x in inputs]), 'L': iter(ops), 'l': iter(lops)}
    args = [y for x in seq for y in (next(its[x]) if x in its else other[x])]

    # the model: directories in order, each library the first found
    path = []
    if homekind in ('full', 'empty', 'link'):
        path.append(os.path.join(home, '.local/lib'))
    for x in ops:
        a = (x[1] if len(x) == 2 else x[0].split('=', 1)[1] if x[0].startswith('--') else x[0][2:].removeprefix('='))
        path.append(os.path.realpath(os.path.join(cwd, a)))
    want = None
    try:
        ars = [x for _, x in given]
        for x in asked + ['b']:
            for p in path:
                f = os.path.join(os.path.realpath(p), 'lib%s.a' % x)
                f = next((c for c in content if os.path.realpath(c) == f), None)
                if f is not None:
                    ars.append(content[f])
                    break
            else:
                raise Refuse('library %s is in no directory' % x)
        defs = link(ars)
        want = execute(defs, main)
    except Refuse as e:
        if str(e) == 'too long':
            o.stats['cases_discarded'] += 1
            return
        why = str(e)
    before = snapshot(w)
    r = blang(args, cwd, env)
    created, removed, altered = changes(before, snapshot(w))
    what = '%s%d: blang %s  (HOME %s)' % (kind, i, ' '.join(map(repr, args)), homekind)
    files = {'command.txt': what + '\n' + '\n'.join('%s: %s' % (p, [(u.tag, u.fns) for u in us]) for p, us in sorted(content.items())),
             'main.b': text, 'stderr.txt': r.err}
    if want is None:
        if r.rc != 1 or b'error' not in r.err or created or removed or altered:
            return o.violate('%s%d' % spec, '%s: to be refused because %s: %s, created %r, altered %r, removed %r, message %r' % (
                what, why, r.describe(), created, altered, removed, r.err[:200]), files)
        o.stats['commands_refused'] += 1
    else:
        if r.rc != 0 or r.out or r.err:
            return o.violate('%s%d' % spec, '%s: %s, output %r %r' % (what, r.describe(), r.out[:200], r.err[:400]), files)
        if created != ['cwd/out'] or removed or altered:
            return o.violate('%s%d' % spec, '%s: created %r, altered %r, removed %r' % (what, created, altered, removed), files)
        x = run([os.path.join(cwd, 'out')], d, env=env)
        if (x.out.decode('latin-1'), x.rc) != want:
            return o.violate('%s%d' % spec, '%s: the program was linked from other parts: expected %r, observed %r, %s' % (
                what, want, x.out[:600], x.describe()), files)
        o.stats['commands_linked'] += 1
        o.stats['definitions_identified'] += want[0].count('\n')
        if len(set(defs.values())) > 3:
            o.stats['links_of_several_members'] += 1
    o.stats['commands'] += 1
    o.stats['directories_searched'] += len(path)
    o.seen.add(digest((args, want)))
    if not o.samples and want:
        o.samples.append('%s prints %r' % (what, want[0][:80]))


def dispatch(spec):
    return {'pool': build, 'rt': runtime, 'lib': case}[spec[0]](spec)


def main(tier, seed):
    c = setup('P22', tier, seed, 'exploration', 'distinct link commands whose result was explained by the model of search and resolution',
              ['ar and the system linker behave as documented', 'no library of the names used here exists in /usr/lib or /usr/local/lib'])
    G.pool = pool(c.rng('pool'))
    c.run_tasks(dispatch, [('pool', i) for i in range(len(G.pool))] + [('rt', t) for t in range(TAGS)])
    if c.total.violations:
        return c.finish('commands', 0)
    c.run_tasks(dispatch, [('lib', i) for i in range(900 if tier == 'quick' else 12000)])
    return c.finish('commands', 100)
