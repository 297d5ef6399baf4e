"""P17: separately compiled files link into the same program.

Monitors: (1) random programs are cut into files of every kind, linked in several ways and
their event logs compared with the reference; (2) symbol tables of the objects are compared
with the names each file defines and uses; files full of strings that resemble each
other print their own; (3) C companions call, are called by and share
variables with B code under the published symbol names."""
from vf.batch import *
from vf.cmd import prepare, PrepError, blang
from vf.common import HarnessError, sh
from vf.fs import put
from vf.gen import *


def used(x, acc):
    """(names called, names used otherwise) below a tree."""
    if isinstance(x, (tuple, list)):
        if len(x) >= 2 and x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'var':
            acc[0].add(x[1][1])
            used(x[2:], acc)
            return acc
        if len(x) == 2 and x[0] == 'var':
            acc[1].add(x[1])
            return acc
        if x and x[0] == 'extrn':
            acc[2].update(n for n in x[1])
            return acc
        for y in x:
            used(y, acc)
    return acc


def groups(decls):
    """Keep functions with those that use them as values."""
    funs = {d[1] for d in decls if d[0] == 'fun'}
    parent = {d[1]: d[1] for d in decls}

    def find(a):
        while parent[a] != a:
            a = parent[a]
        return a
    for d in decls:
        if d[0] == 'fun':
            for n in used(d[3], (set(), set(), set()))[1] & funs:
                parent[find(n)] = find(d[1])
    out = {}
    for d in decls:
        out.setdefault(find(d[1]), []).append(d)
    return list(out.values())


def split(rng, decls, nfiles):
    files = [[] for _ in range(nfiles)]
    for g in groups(decls) if rng.random() < .2 else [[x] for x in decls]:
        files[rng.randrange(nfiles)] += g
    return [f for f in files if f]


def link_config(rng, d, files, texts):
    """Choose kinds and order; returns (inputs, options) or raises PrepError."""
    main = next(k for k, f in enumerate(files) if any(x[1] == 'main' for x in f))
    same = rng.random() < .3                # files of one name in different directories
    lib = rng.choice(['', '', '.a', '-l'])
    inputs, members, opts = [], [], []
    for k, t in enumerate(texts):
        if lib and k != main and rng.random() < .6:
            members.append(k)
            continue
        kind = rng.choice(['.b', '.b', '.ll', '.s', '.o'])
        p = '%sf%d%s' % (rng.choice(['', 'sub/']), k, kind)
        if same and rng.random() < .7:
            p = 'd%d/%s%s' % (k, rng.choice(['f', 'f', 'f0', 'F']), kind)
        prepare(d, os.path.join(d, p), t, kind)
        inputs.append(p)
    rng.shuffle(inputs)
    if members:
        objs = []
        for k in members:
            prepare(d, os.path.join(d, 'm%d.o' % k), texts[k], '.o')
            objs.append('m%d.o' % k)
        rng.shuffle(objs)
        name = {'.a': 'lib/arch.a', '-l': 'lib/libmine.a'}[lib]
        os.makedirs(os.path.join(d, 'lib'), exist_ok=True)
        r = sh(['ar', 'cr', name] + objs, cwd=d)
        if r.returncode:
            raise HarnessError(r.stderr.decode())
        if lib == '.a':
            inputs.append(name)
        else:
            opts = rng.choice([['-L', 'lib', '-l', 'mine'], ['-Llib', '-lmine'], ['-lmine', '-L', 'lib']])
    inputs.insert(rng.randint(0, len(inputs)) if lib != '.a' or not members else rng.randint(0, len(inputs) - 1), G.tc.obs)
    if members:
        # the observer's functions may be needed by library members only
        inputs.remove(G.tc.obs)
        inputs.insert(0, G.tc.obs)
    return inputs, opts


def nm(path, d):
    r = sh(['nm', '-g', path], cwd=d)
    if r.returncode:
        raise HarnessError(r.stderr.decode())
    de, un = {}, set()
    for l in r.stdout.decode('latin-1').splitlines():
        w = l.split()
        if len(w) == 3:
            de[w[2]] = w[1]
        elif len(w) == 2:
            un.add(w[1])
    return de, un


def symbols(d, k, decls, text, o, allfuns):
    """Compare an object's symbol table with the file's declarations. Returns a complaint or None."""
    p = os.path.join(d, 'sym%d.o' % k)
    prepare(d, p, text, '.o')
    de, un = nm(p, d)
    funs = {x[1] for x in decls if x[0] == 'fun'}
    vars_ = {x[1] for x in decls if x[0] != 'fun'}
    ext, called = set(), set()
    for x in decls:
        if x[0] == 'fun':
            c, v, e = used(x[3], (set(), set(), set()))
            called |= c | v & allfuns
            ext |= e
    sym = lambda n: 'main' if n == 'main' else 'b.' + n
    for n in funs:
        if de.get(sym(n)) != 'T':
            return 'function %s is not visible as %s: %r' % (n, sym(n), de)
    for n in vars_:
        if de.get(sym(n)) not in ('D', 'B', 'R', 'C'):
            return 'variable %s is not visible as %s: %r' % (n, sym(n), de)
    allowed = {sym(n) for n in funs | vars_ | ext}
    extra = {n for n in de if n not in allowed and not (n.count('.') >= 2 and n.rsplit('.', 1)[0] in allowed)}
    if extra:
        return 'the object defines names the file does not: %r' % sorted(extra)
    extra = {n for n in un if n not in {sym(n) for n in called | ext | vars_}}
    if extra:
        return 'the object needs names the file does not use: %r' % sorted(extra)
    o.stats['symbol_tables'] += 1
    o.stats['symbols'] += len(de) + len(un)
    return None


@with_dir
def parts(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    p = Program(rng, rng.choice([3, 6, 12]), dict(se=rng.choice([0, .1, .3]), stmts=6), nglob=heavy(rng, 2, 8, 30), npure=rng.randint(2, 6),
                odd=rng.choice([.1, .4]))
    if not p.tests:
        return
    nf = rng.choice([2, 2, 3, 4, 7])
    files = split(rng, p.decls, nf)
    for f in files:
        rng.shuffle(f)
    texts = [program_text(f, rng, 'plain', .02) for f in files]
    save = {'f%d.b' % k: t.encode('latin-1') for k, t in enumerate(texts)}
    try:
        for k, f in enumerate(files):
            c = symbols(d, k, f, texts[k], o, {x[1] for x in p.decls if x[0] == 'fun'})
            if c:
                return o.violate('%s%d:sym' % spec, '%s%d file %d: %s' % (kind, i, k, c), save)
        for n in range(3):
            shutil.rmtree(os.path.join(d, 'lib'), ignore_errors=True)
            inputs, opts = link_config(rng, d, files, texts)
            opt = rng.choice([[], ['-O1'], ['-O2'], ['-O3']])
            args = opt + opts + ['-L', G.tc.rt, '-o', 'p'] + inputs
            if rng.random() < .5:
                args = ['-L', G.tc.rt, '-o', 'p'] + inputs + opts + opt
            r = blang(args, d)
            what = '%s%d: blang %s' % (kind, i, ' '.join(args))
            o.stats['links'] += 1
            if r.rc != 0:
                v = run(['/usr/bin/clang', '-v'], d)
                return o.violate('%s%d:link' % spec, '%s: %s: %s' % (what, r.describe(), r.err.decode('latin-1')[:400]), save)
            r = run([os.path.join(d, 'p')], d, env=G.tc.env)
            c = judge(p.expect, r)
            if c:
                return o.violate('%s%d' % spec, '%s: %s' % (what, c), save)
            o.stats['events_checked'] += len(p.expect[0])
            o.seen.add(digest((args, p.expect)))
            for x in inputs:
                o.stats['inputs' + os.path.splitext(x)[1]] += 1
            if opts:
                o.stats['inputs-l'] += 1
    except PrepError as e:
        o.violate('%s%d:prep' % spec, '%s%d: %s' % (kind, i, e), save)
    if not o.samples:
        o.samples.append('%s%d: %d declarations in %d files, %d events' % (kind, i, len(p.decls), len(files), len(p.expect[0])))


CTEXT = '''
typedef long word;
extern word bmain(void) __asm__("main");
word ev(word n, ...) __asm__("b.ev");
%(decls)s
word ccall(word which, ...) __asm__("b.ccall");
word ccall(word which, ...)
{
    word r = 0;
    __builtin_va_list ap;
    __builtin_va_start(ap, which);
    word x = __builtin_va_arg(ap, word), y = __builtin_va_arg(ap, word);
    __builtin_va_end(ap);
    switch (which) {
%(cases)s
    case 1000: r = (word)bmain != 0; break;
    }
    ev(3, 7000 + which, r, x);
    return r;
}
'''


@with_dir
def interop(spec, d, o):
    """C code calls B functions with 0 to 12 arguments, uses and defines B variables, and is called."""
    kind, i = spec
    rng = G.check.rng(kind, i)
    nf, ng = rng.randint(1, 6), rng.randint(1, 4)
    names = Names(rng, .5)
    decls, cases, b, mainb, exp = [], [], [], [], []
    mem = {}
    for g in range(ng):
        n = names.new('gv')
        v = word(rng)
        mem[n] = v
        inb = rng.random() < .6
        if inb:
            b.append('%s %d;' % (n, v))
            decls.append('extern word g%d __asm__("b.%s");' % (g, n))
        else:
            decls.append('extern word g%d __asm__("b.%s"); word g%d = %s;' % (g, n, g, '(word)%dUL' % (v & M64)))
        x = word(rng)
        cases.append('    case %d: r = g%d; g%d = x + y; break;' % (100 + g, g, g))
        y = word(rng)
        mainb.append('    extrn %s; ev(2, %d, %s); ccall(%d, %s, %s); ev(2, %d, %s);' % (
            n, 50 + g, n, 100 + g, ex(neg(x)), ex(neg(y)), 60 + g, n))
        exp += [(50 + g, v), (7000 + 100 + g, v, x), (60 + g, wrap(x + y))]
        mem[n] = wrap(x + y)
    vec = names.new('vec')
    vals = [word(rng) for _ in range(rng.randint(1, 9))]
    b.append('%s[%d] %s;' % (vec, len(vals), ', '.join('%d' % v for v in vals)))
    decls.append('extern word *vec __asm__("b.%s");' % vec)
    k = rng.randrange(len(vals))
    cases.append('    case 200: r = vec[x]; vec[x] = y; break;')
    mainb.append('    extrn %s; ccall(200, %d, 77); ev(2, 70, %s[%d]);' % (vec, k, vec, k))
    exp += [(7200, vals[k], k), (70, 77)]
    sname = names.new('str')
    txt = text_bytes(rng, rng.randint(1, 40)).replace(b'\0', b'x')
    b.append('%s %s;' % (sname, quote(txt, '"', rng)))
    decls.append('extern unsigned char *str __asm__("b.%s");' % sname)
    cases.append('    case 201: r = 0; for (unsigned char *p = str; *p; p++) r = r * 131 + *p; break;')
    h = 0
    for c in txt:
        h = wrap(h * 131 + c)
    mainb.append('    ccall(201, 0, 0);')
    exp.append((7201, h, 0))
    for f in range(nf):
        n = names.new('bf')
        k = rng.randint(0, 12)
        ps = ['p%d' % j for j in range(k)]
        co = [rng.randint(-9, 9) for _ in ps]
        b.append('%s(%s) { ev(%d%s); return(%s); }' % (
            n, ', '.join(ps), k + 1, ', %d' % (300 + f) + ''.join(', ' + p for p in ps),
            ' + '.join('%s * %s' % (p, ex(neg(c))) for p, c in zip(ps, co)) or '%d' % f))
        args = [word(rng) for _ in ps]
        decls.append('word f%d(%s) __asm__("b.%s");' % (f, rng.choice(['word, ...', '']) if k else '', n) if k == 0 or rng.random() < 2 else '')
        if k == 0:
            decls[-1] = 'word f%d() __asm__("b.%s");' % (f, n)
        elif 'word, ...' not in decls[-1]:
            decls[-1] = 'word f%d(%s) __asm__("b.%s");' % (f, ', '.join(['word'] * k), n)
        cases.append('    case %d: r = f%d(%s); break;' % (300 + f, f, ', '.join('(word)%dUL' % (a & M64) for a in args)))
        res = wrap(sum(c * a for c, a in zip(co, args))) if k else f
        mainb.append('    ccall(%d, %d, 0);' % (300 + f, f))
        exp += [tuple([300 + f] + args), (7300 + f, res, f)]
        # B calls C with k arguments
        decls.append('word c%d(word a, ...) __asm__("b.cf%d");\nword c%d(word a, ...) { word s = a, i; __builtin_va_list ap; '
                     '__builtin_va_start(ap, a); for (i = 1; i < %d; i++) s = s * 3 + __builtin_va_arg(ap, word); '
                     '__builtin_va_end(ap); return s; }' % (f, f, f, k + 1))
        args = [word(rng) for _ in range(k + 1)]
        s = args[0]
        for a in args[1:]:
            s = wrap(s * 3 + a)
        mainb.append('    ev(2, %d, cf%d(%s));' % (400 + f, f, ', '.join(ex(neg(a)) for a in args)))
        exp.append((400 + f, s))
    mainb.append('    ccall(1000, 0, 0);')
    exp.append((8000, 1, 0))
    ret = rng.randint(0, 255)
    b.append('main() {\n%s\n    return(%d);\n}' % ('\n'.join(mainb), ret))
    rng.shuffle(b)
    text = '\n'.join(b) + '\n'
    ctext = CTEXT % {'decls': '\n'.join(decls), 'cases': '\n'.join(cases)}
    save = {'p.b': text, 'c.c': ctext}
    put(os.path.join(d, 'p.b'), text)
    put(os.path.join(d, 'c.c'), ctext)
    r = sh(['gcc', rng.choice(['-O0', '-O2']), '-w', '-ffreestanding', '-fno-stack-protector', '-c', 'c.c', '-o', 'c.o'], cwd=d)
    if r.returncode:
        raise HarnessError(r.stderr.decode())
    for fl in (['-O0'], ['-O2']):
        ins = ['p.b', 'c.o', G.tc.obs]
        rng.shuffle(ins)
        r = blang(fl + ['-L', G.tc.rt, '-o', 'p'] + ins, d)
        if r.rc:
            return o.violate('%s%d:link' % spec, '%s%d: not linked: %s' % (kind, i, r.err.decode('latin-1')[:300]), save)
        r = run([os.path.join(d, 'p')], d, env=G.tc.env)
        c = judge((exp, ret), r)
        if c:
            return o.violate('%s%d' % spec, '%s%d %s: %s' % (kind, i, fl[0], c), save)
        o.stats['links'] += 1
        o.stats['events_checked'] += len(exp)
    o.stats['interop'] += 1
    o.seen.add(digest(exp))


@with_dir
def clash(spec, d, o):
    """Files full of equal local names: labels, autos, parameters, strings, vector contents."""
    kind, i = spec
    rng = G.check.rng(kind, i)
    nf = rng.randint(2, 6)
    texts, exp, calls = [], [], []
    same = rng.sample(['x', 'loop', 'end', 'data', 's', 'L1', 'tmp', 'str', 'v', 'entry'], 4)
    x, lab, par, vec = same
    for k in range(nf):
        s1 = 'text %d' % rng.randint(0, 2)
        n = rng.randint(1, 9)
        t = '''
priv%(k)d[3] %(k)d, "%(s)s", 'a';
sc%(k)d "%(s)s";
fn%(k)d(%(par)s) {
    auto %(x)s, %(vec)s[4];
    extrn priv%(k)d, sc%(k)d;
    %(x)s = 0;
%(lab)s:
    %(vec)s[%(x)s & 3] = %(par)s + %(k)d;
    if (++%(x)s < %(n)d) goto %(lab)s;
    ev(6, %(k)d, %(x)s, %(vec)s[0], priv%(k)d[0], char(sc%(k)d, 5), char("%(s)s", 5));
    return (%(x)s);
}
''' % dict(k=k, s=s1, n=n, x=x, lab=lab, par=par, vec=vec)
        texts.append(t)
        arg = rng.randint(-99, 99)
        exp += [(k, n, arg + k, k, ord(s1[5]), ord(s1[5])), (900 + k, n)]
        calls.append('ev(2, %d, fn%d(%d));' % (900 + k, k, arg))
    texts[rng.randrange(nf)] += 'main() { auto %s; %s return(3); }\n' % (x, ' '.join(calls))
    save = {'f%d.b' % k: t for k, t in enumerate(texts)}
    try:
        ins = []
        for k, t in enumerate(texts):
            kk = rng.choice(['.b', '.b', '.ll', '.s', '.o'])
            prepare(d, os.path.join(d, 'f%d%s' % (k, kk)), t, kk)
            ins.append('f%d%s' % (k, kk))
    except PrepError as e:
        return o.violate('%s%d:prep' % spec, '%s%d: %s' % (kind, i, e), save)
    ins.append(G.tc.obs)
    rng.shuffle(ins)
    r = blang(['-L', G.tc.rt, '-o', 'p'] + ins, d)
    if r.rc:
        return o.violate('%s%d:link' % spec, '%s%d %s: not linked: %s' % (kind, i, ins, r.err.decode('latin-1')[:300]), save)
    r = run([os.path.join(d, 'p')], d, env=G.tc.env)
    c = judge((exp, 3), r)
    if c:
        return o.violate('%s%d' % spec, '%s%d: %s' % (kind, i, c), save)
    o.stats['links'] += 1
    o.stats['clash'] += 1
    o.stats['events_checked'] += len(exp)
    o.seen.add(digest(exp))


@with_dir
def values(spec, d, o):
    """Functions of other files, main included, as values and by name; every file sees the same ones."""
    kind, i = spec
    rng = G.check.rng(kind, i)
    nf = rng.randint(2, 5)
    names = ['main'] + ['fn%d' % k for k in range(nf)]
    limit = rng.randint(2, 6)
    texts = ['' for _ in range(nf)]

    def call(n, arg):
        r = rng.randrange(6)
        if r < 2:
            return '', '%s(%s)' % (n, arg)
        if r == 2:
            return 'p = %s;' % n, 'p(%s)' % arg
        if r == 3:
            return 'v[1] = %s;' % n, 'v[1](%s)' % arg
        if r == 4:
            return 'gp = %s;' % n, 'gp(%s)' % arg
        return '', 'apply(%s, %s)' % (n, arg or '0')
    # main counts and goes round by way of the others
    order = names[1:]
    rng.shuffle(order)
    for n, nxt in zip(order, order[1:] + ['main']):
        set_, c = call(nxt, '' if nxt == 'main' else 'a + 1')
        k = rng.randrange(nf)
        texts[k] += '%s(a) { extrn gp, trace; auto p, v[2], q; q = %s; trace = trace * 3 + %s; %s return (%s + 1); }\n' % (
            n, nxt, rng.choice(['(q == %s)' % nxt, '(%s == q)' % nxt, '(q != %s) + 1' % nxt, '(%s != q) + 1' % nxt]), set_, c)
    set_, c = call(order[0], 'n')
    m = 'main() { extrn n, gp, trace; auto p, v[2], r; n++; r = 5; if (n < %d) { %s r = %s; } else ev(2, 1, trace); return (r + 1); }\n' % (
        limit, set_, c)
    k = rng.randrange(nf)
    texts[k] = texts[k] + m if rng.random() < .5 else m + texts[k]
    texts[rng.randrange(nf)] += 'apply(f, a) return (f(a));\n'
    texts[rng.randrange(nf)] += 'n; gp; trace;\n'
    trace, r = 0, 6
    for _ in range(limit - 1):
        for _ in order:
            trace = wrap(trace * 3 + 1)
            r += 1
        r += 1
    save = {'f%d.b' % k: t for k, t in enumerate(texts)}
    try:
        ins = []
        for k, t in enumerate(texts):
            kk = rng.choice(['.b', '.b', '.ll', '.s', '.o'])
            prepare(d, os.path.join(d, 'f%d%s' % (k, kk)), t, kk)
            ins.append('f%d%s' % (k, kk))
    except PrepError as e:
        return o.violate('%s%d:prep' % spec, '%s%d: %s' % (kind, i, e), save)
    ins.append(G.tc.obs)
    rng.shuffle(ins)
    lev = rng.choice([[], ['-O0'], ['-O2'], ['-O3']])
    r_ = blang(lev + ['-L', G.tc.rt, '-o', 'p'] + ins, d)
    if r_.rc:
        return o.violate('%s%d:link' % spec, '%s%d %s: not linked: %s' % (kind, i, ins, r_.err.decode('latin-1')[:300]), save)
    g = run([os.path.join(d, 'p')], d, env=G.tc.env)
    c = judge(([(1, trace)], r & 255), g)
    if c:
        return o.violate('%s%d' % spec, '%s%d %s: %s' % (kind, i, lev, c), save)
    o.stats['links'] += 1
    o.stats['function_values'] += 1
    o.seen.add(digest(texts))


def alike(rng):
    """A text and many that resemble it: same length, same letters, same begin, same end."""
    n = rng.choice([1, 4, 11, 12, 13, 16, 31, 33, 64, 80, 200])
    base = [rng.choice('abcdefgh 0123456789') for _ in range(n)]
    out = [base]
    for _ in range(rng.choice([20, 80, 250])):
        t = list(rng.choice(out))
        r = rng.randrange(9)
        a = rng.randrange(len(t))
        b = rng.choice([a + 1, rng.randrange(len(t))]) % len(t)
        if r < 2:
            t[a], t[b] = t[b], t[a]
        elif r == 2:
            t[a] = rng.choice('abcdefgh 0123456789')
        elif r == 3:
            up, down = ord(t[a]) + 1, ord(t[b]) - 1          # the sum stays
            if 48 <= up <= 122 and 48 <= down <= 122 and a != b:
                t[a], t[b] = chr(up), chr(down)
        elif r == 4:
            # weighted sums stay: one more here is worth two (or 31, 33, 131, ...) of the next
            w = rng.choice([2, 2, 31, 33, 3])
            up, down = ord(t[a]) + 1, ord(t[(a + 1) % len(t)]) - w
            if a + 1 < len(t) and 48 <= up <= 122 and 48 <= down <= 122:
                t[a], t[a + 1] = chr(up), chr(down)
        elif r == 5:
            t = t[::-1]
        elif r == 6:
            k = rng.randrange(len(t) + 1)
            t = t[k:] + t[:k]
        elif r == 7:
            t = t + [rng.choice('ab0')] if rng.random() < .5 else t[:-1] or t
        else:
            t[a] = t[a].upper()
        out.append(t)
    return [''.join(t) for t in out]


@with_dir
def strings(spec, d, o):
    """Files full of strings that resemble each other; every file has to print its own."""
    kind, i = spec
    rng = G.check.rng(kind, i)
    nf = rng.randint(2, 4)
    pool = alike(rng)
    texts, want, main = [], '', ''
    for k in range(nf):
        mine = [rng.choice(pool) for _ in range(rng.choice([3, 40, 200]))]
        use = ''.join(rng.choice(['printf("%%s|", "%s");', 'show("%s");']) % t if rng.random() < .9 else
                      'printf("%s|");' % t for t in mine)
        gl = [rng.choice(pool) for _ in range(rng.randint(1, 30))]
        texts.append('tab%d[] %s; one%d "%s";\nout%d() { extrn tab%d, one%d; auto i; %s i = 0; while (i < %d) show(tab%d[i++]); show(one%d); }\n' % (
            k, ', '.join('"%s"' % t for t in gl), k, mine[0], k, k, k, use, len(gl), k, k))
        main += ' out%d();' % k
        want += ''.join(t + '|' for t in mine + gl + mine[:1])
    texts[rng.randrange(nf)] += 'main() {%s return (0); }\nshow(s) { printf("%%s|", s); }\n' % main
    save = {'f%d.b' % k: t for k, t in enumerate(texts)}
    try:
        ins = []
        for k, t in enumerate(texts):
            kk = rng.choice(['.b', '.b', '.ll', '.s', '.o'])
            prepare(d, os.path.join(d, 'f%d%s' % (k, kk)), t, kk)
            ins.append('f%d%s' % (k, kk))
    except PrepError as e:
        return o.violate('%s%d:prep' % spec, '%s%d: %s' % (kind, i, e), save)
    rng.shuffle(ins)
    lev = rng.choice([[], ['-O0'], ['-O2'], ['-O3']])
    r = blang(lev + ['-L', G.tc.rt, '-o', 'p'] + ins, d)
    if r.rc:
        return o.violate('%s%d:link' % spec, '%s%d %s: not linked: %s' % (kind, i, ins, r.err.decode('latin-1')[:300]), save)
    g = run([os.path.join(d, 'p')], d, env=G.tc.env)
    got = g.out.decode('latin-1')
    if got != want or g.rc:
        a, b = got.split('|'), want.split('|')
        k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return o.violate('%s%d' % spec, '%s%d %s: %s; string %d of the output is %r, must be %r' % (
            kind, i, lev, g.describe(), k, a[k:k + 1], b[k:k + 1]), save)
    o.stats['links'] += 1
    o.stats['strings_compared'] += want.count('|')
    o.seen.add(digest(texts))


@with_dir
def crowd(spec, d, o):
    """Many inputs, most of them of a few names in different directories; names of vectors that other files set anew."""
    kind, i = spec
    rng = G.check.rng(kind, i)
    nf = rng.choice([3, 9, 17, 20, 33, 40, 65, 70])
    stems = rng.choice([['f'], ['f'], ['f', 'g'], ['f%d' % k for k in range(5)], ['p%d' % k for k in range(nf)]])
    sizes = [rng.choice([1, 2, 8, 65, 600, 5000]) for _ in range(nf)]
    texts, calls, exp = [], '', []
    setter = rng.sample(range(nf), nf)
    for k in range(nf):
        iv = [1000 * k + j for j in range(rng.choice([0, 0, 1, min(3, sizes[k]), min(sizes[k], 12)]))]
        q = setter[k]
        how = rng.randrange(4)
        text = 'v%d[%d]%s;\nget%d() { extrn v%d; return (v%d[0]); }\n' % (k, sizes[k], ' ' + ', '.join(map(str, iv)) if iv else '', k, k, k)
        # a word of this file's own that takes the vector's place, set by another file
        text += 'w%d[2] %d, %d;\n' % (k, 70000 + k, 80000 + k)
        texts.append([text, 'set%d() { extrn v%d, w%d; %s }\n' % (q, q, q, [
            'v%d = w%d;' % (q, q), 'auto p; p = &v%d; *p = w%d;' % (q, q), 'v%d =+ 0; put(&v%d, w%d);' % (q, q, q), 'v%d[0] = w%d[0];' % (q, q)][how])])
        calls += ' ev(2, %d, get%d()); set%d(); ev(2, %d, get%d());' % (k, k, k, k, k)
        exp += [(k, iv[0] if iv else 0), (k, 70000 + k)]
    texts.append(['main() {%s return (nf()); }\nnf() return (%d);\nput(p, x) *p = x;\n' % (calls, nf)])
    order = list(range(nf + 1))
    rng.shuffle(order)
    ins, save = [], {}
    for k in order:
        kk = '.b' if nf > 20 or rng.random() < .8 else rng.choice(['.ll', '.s', '.o'])
        t = ''.join(rng.sample(texts[k], len(texts[k])))
        p = 'd%d/%s%s' % (k, rng.choice(stems), kk) if k < nf else 'main%s' % kk
        try:
            prepare(d, os.path.join(d, p), t, kk)
        except PrepError as e:
            return o.violate('%s%d:prep' % spec, '%s%d: %s' % (kind, i, e), {p: t})
        ins.append(p)
        save[p.replace('/', '_')] = t
    ins.insert(rng.randrange(len(ins) + 1), G.tc.obs)
    lev = rng.choice([[], ['-O0'], ['-O2'], ['-O3']])
    r = blang(lev + ['-L', G.tc.rt, '-o', 'p'] + ins, d)
    if r.rc:
        return o.violate('%s%d:link' % spec, '%s%d %s: not linked: %s' % (kind, i, ins, r.err.decode('latin-1')[:300]), save)
    c = judge((exp, nf), run([os.path.join(d, 'p')], d, env=G.tc.env))
    if c:
        return o.violate('%s%d' % spec, '%s%d %s %s: %s' % (kind, i, lev, ins, c), save)
    o.stats['links'] += 1
    o.stats['inputs_linked'] += nf
    o.stats['events_checked'] += len(exp)
    o.seen.add(digest(save))


def ex(e):
    return ' '.join(Printer().expr(e))


def dispatch(spec):
    return {'parts': parts, 'interop': interop, 'clash': clash, 'values': values, 'strings': strings, 'crowd': crowd}[spec[0]](spec)


def main(tier, seed):
    c = setup('P17', tier, seed, 'exploration', 'distinct (command, event log) pairs of linked programs',
              ['Libraries stand after the files that need them, as linkers demand.'])
    n = (150, 60, 60, 60, 40, 40) if tier == 'quick' else (3000, 1000, 1000, 1000, 600, 600)
    tasks = [('parts', i) for i in range(n[0])] + [('interop', i) for i in range(n[1])] + [('clash', i) for i in range(n[2])] + [('values', i) for i in range(n[3])]
    tasks += [('strings', i) for i in range(n[4])] + [('crowd', i) for i in range(n[5])]
    c.rng('order').shuffle(tasks)
    c.run_tasks(dispatch, tasks)
    return c.finish('links', 50)
