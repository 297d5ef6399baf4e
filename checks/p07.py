"""P07: behaviour is the same at every optimization level and by every output route."""
import itertools
import re

from vf.batch import *
from vf.gen import *
from vf.corpus import examples
from checks.p17 import split

OPTS = [[], ['-O0'], ['-O1'], ['-O2'], ['-O3'], ['-O', '2'], ['--optimize=3'], ['-O', '0']]
EXTRA = [[], ['-g'], ['--save-temps'], ['-g', '--save-temps'], ['--debug']]
ROUTES = ['direct', 'll', 's', 'o', 'll-s', 'll-o', 'll-s-o', 's-o']
STEP = {'ll': ['--emit-llvm'], 's': ['-S'], 'o': ['-c']}


def V(n):
    return ('var', n)


def behave(d, route, o1, o2, input=b'', srcs=('p.b',)):
    """Compile the sources by a route; returns (complaint, runresult)."""
    objs = []
    steps = [] if route == 'direct' else route.split('-')
    for src in srcs:
        cur = src
        for k, s in enumerate(steps):
            out = '%s%d.%s' % (src[:-2], k, s)
            r = run([G.tc.blang] + o1 + STEP[s] + [cur, '-o', out], d, env=G.tc.env, cpu=60)
            if r.rc != 0:
                return '%s %s of %s failed (%s): %s' % (' '.join(o1), s, cur, r.describe(),
                                                        r.err.decode('latin-1')[:300]), None
            cur = out
        objs.append(cur)
    r = run([G.tc.blang] + o2 + ['-L', G.tc.rt] + objs + [G.tc.obs, '-o', 'p'], d, env=G.tc.env, cpu=60)
    if r.rc != 0:
        return '%s link of %s failed (%s): %s' % (' '.join(o2), objs, r.describe(), r.err.decode('latin-1')[:300]), None
    return None, run([os.path.join(d, 'p')], d, env=G.tc.env, cpu=20, input=input)


def routes_for(rng, n):
    out = [('direct', ['-O%d' % k], ['-O%d' % k]) for k in range(4)]
    while len(out) < n:
        e1, e2 = rng.choice(EXTRA), rng.choice(EXTRA)
        out.append((rng.choice(ROUTES[1:]) if rng.random() < .8 else 'direct', rng.choice(OPTS) + e1, rng.choice(OPTS) + e2))
    return out


def task(spec):
    kind, i = spec
    o = Outcome()
    rng = G.check.rng(kind, i)
    t = G.kinds[kind](rng, i)
    if t is None:
        return o
    text, expect, input = t
    d = workdir('%s%d' % (kind, i))
    files = {'p.b': text.encode('latin-1')} if isinstance(text, str) else {
        'p%d.b' % k: t.encode('latin-1') for k, t in enumerate(text)}
    srcs = sorted(files)
    for n in srcs:
        with open(os.path.join(d, n), 'wb') as f:
            f.write(files[n])
    files['stdin'] = input
    base = None
    try:
        for route, o1, o2 in routes_for(rng, 9):
            for n in os.listdir(d):
                if n not in srcs:
                    os.unlink(os.path.join(d, n))
            name = '%s%d route=%s %s / %s' % (kind, i, route, ' '.join(o1), ' '.join(o2))
            c, r = behave(d, route, o1, o2, input, srcs)
            o.stats['builds'] += 1
            o.stats['separate_files'] += len(srcs) > 1
            if c:
                o.violate('%s%d' % (kind, i), name + ': ' + c, files)
                break
            o.stats['executions'] += 1
            o.stats['route_' + route] += 1
            o.stats['bytes_observed'] += len(r.out)
            got = (r.out, r.err, r.rc)
            if base is None:
                base = got
                if expect is not None and isinstance(expect[0], bytes):
                    if got[0] != expect[0] or got[2] != expect[1]:
                        c = 'expected output %r status %d, observed %r, %s' % (
                            expect[0][:200], expect[1], got[0][:200], r.describe())
                elif expect is not None:
                    c = judge(expect, r)
                if c:
                    o.violate('%s%d' % (kind, i), name + ': ' + c, files)
                    break
            elif got[0] != base[0] or got[1] != base[1] or got[2] != base[2]:
                # a different count of misaligned calls is reported by P20; here it must not differ either
                o.violate('%s%d' % (kind, i), '%s: behaves differently than at -O0: status %d/%d, output %d/%d bytes, '
                          'first difference at byte %d' % (name, got[2], base[2], len(got[0]), len(base[0]), next(
                              (k for k, (x, y) in enumerate(zip(got[0], base[0])) if x != y),
                              min(len(got[0]), len(base[0])))),
                          dict(files, base=base[0], got=got[0]))
                break
        else:
            if len(base[0]) > 16:
                o.seen.add(digest(base))
            if not o.samples:
                o.samples.append('%s%d: 9 builds agree on %d output bytes, status %d' % (kind, i, len(base[0]), base[2]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


def k_general(rng, i):
    p = Program(rng, rng.choice([3, 8, 16]), dict(se=rng.choice([0, .1, .3]), stmts=8, ptrs=.7))
    return p.text(rng.choice(['plain', 'tight'])), p.expect, b''


def k_split(rng, i):
    """The same over several files, so that the optimizer sees calls whose callee it does not know."""
    p = Program(rng, rng.choice([3, 6, 10]), dict(stmts=8, ptrs=.8, proc=.35, bytes=.08), nproc=rng.choice([2, 4, 6]))
    files = split(rng, p.decls, rng.choice([2, 2, 3]))
    return [program_text(f, rng, 'plain', .02) for f in files], p.expect, b''


def k_opaque(rng, i):
    """Every callee is in another file: its effects on what it is passed the address of, in every position."""
    callee = [('fun', 'get', ['p'], ('ret', ('bin', '+', ('un', '*', V('p')), ('bin', '*', num(3), ('idx', V('p'), num(1)))))),
              ('fun', 'put', ['p', 'x'], ('ret', ('asg', '', ('un', '*', V('p')), V('x')))),
              ('fun', 'inc', ['p'], ('ret', ('pre', '++', ('un', '*', V('p'))))),
              ('fun', 'swap', ['p', 'q'], ('block', [
                  ('auto', [('t', None)]), ('expr', ('asg', '', V('t'), ('un', '*', V('p')))),
                  ('expr', ('asg', '', ('un', '*', V('p')), ('un', '*', V('q')))),
                  ('expr', ('asg', '', ('un', '*', V('q')), V('t')))])),
              ('fun', 'sum', ['v', 'n'], ('block', [
                  ('auto', [('s', None)]), ('while', ('bin', '>', ('post', '--', V('n')), num(0)),
                                            ('expr', ('asg', '+', V('s'), ('idx', V('v'), V('n'))))), ('ret', V('s'))])),
              ('fun', 'keep', ['p'], ('block', [('extrn', ['kept']), ('expr', ('asg', '', V('kept'), V('p')))])),
              ('fun', 'kget', [], ('block', [('extrn', ['kept']), ('ret', ('un', '*', V('kept')))])),
              ('fun', 'kset', ['x'], ('block', [('extrn', ['kept']), ('ret', ('asg', '', ('un', '*', V('kept')), V('x')))])),
              ('fun', 'gset', ['x'], ('block', [('extrn', ['glob']), ('ret', ('asg', '', V('glob'), V('x')))])),
              ('scalar', 'kept', []), ('scalar', 'glob', [('num', 4, '4')])]
    fs, calls = [], []

    def place():
        return rng.choice([('un', '&', V('a')), ('un', '&', V('b')), V('v'), ('un', '&', ('idx', V('v'), num(rng.randrange(3)))),
                           ('un', '&', V('x')), ('un', '&', V('glob'))])

    def call():
        r = rng.randrange(10)
        if r == 0:
            return ('call', V('get'), [rng.choice([V('v'), ('un', '&', ('idx', V('v'), num(rng.randrange(3))))])])
        if r == 1:
            return ('call', V('put'), [place(), num(rng.randint(0, 99))])
        if r == 2:
            return ('call', V('inc'), [place()])
        if r == 3:
            return ('call', V('swap'), [place(), place()])
        if r == 4:
            return ('call', V('sum'), [V('v'), num(rng.randint(1, 4))])
        if r == 5:
            return ('call', V('keep'), [place()])
        if r == 6:
            return ('call', V('kget'), [])
        if r == 7:
            return ('call', V('kset'), [num(rng.randint(0, 99))])
        if r == 8:
            return ('call', V('gset'), [num(rng.randint(0, 99))])
        return ('call', V('char'), [place(), num(rng.randrange(8))])

    def stmt(d):
        r = rng.random()
        if r < .25:
            return ('expr', ('asg', rng.choice(['', '', '+']), rng.choice(
                [V('a'), V('b'), V('x'), V('glob'), ('idx', V('v'), num(rng.randrange(4)))]),
                rng.choice([num(rng.randint(0, 999)), V('a'), ('idx', V('v'), num(rng.randrange(4)))])))
        if r < .55:
            return ('expr', call())
        if r < .6:
            return ('expr', ('call', V('lchar'), [place(), num(rng.randrange(8)), num(rng.randint(1, 255))]))
        if r < .75:
            return ('expr', ('asg', '', rng.choice([V('a'), V('b'), V('glob')]), call()))
        if r < .85:
            return ev(1, V('a'), V('glob'), ('idx', V('v'), num(rng.randrange(4))))
        if r < .95 and d:
            return ('if', rng.choice([call(), V('a')]), ('block', [stmt(d - 1) for _ in range(rng.randint(1, 3))]),
                    rng.choice([None, stmt(d - 1)]))
        return ('if', ('bin', '>', ('post', '--', V('fuel')), num(0)),
                ('while', ('bin', '>', ('post', '--', V('fuel')), num(0)), stmt(0)), None)
    for n in range(14):
        for _ in range(5):
            b = [('extrn', ['glob']), ('auto', [('a', None), ('v', '4'), ('b', None), ('fuel', None)])]
            b += [('expr', ('asg', '', ('idx', V('v'), num(j)), num(rng.randint(0, 99)))) for j in range(4)]
            b += [('expr', ('asg', '', V('fuel'), num(3))), ('expr', ('call', V('keep'), [('un', '&', V('glob'))]))]
            b += [stmt(2) for _ in range(rng.randint(2, 10))]
            b.append(('ret', rng.choice([call(), call(), call(), V('a'), ('bin', '+', V('a'), call())])))
            f = ('fun', 'o%d' % n, ['x'], ('block', b))
            if reference(callee + [f], f[1], [7]) is not None:
                fs.append(f)
                calls.append((f[1], [rng.randint(0, 9)]))
                break
    try:
        p = Fixed(rng, callee + fs, calls)
    except Undefined:
        return None
    return [program_text(callee, rng, 'plain'), program_text([d for d in p.decls if d not in callee], rng, 'plain')], p.expect, b''


def k_kernels(rng, i):
    """Neighbouring words written and read through pointers, at every alignment, one by one and in loops."""
    ix = lambda p, k: ('idx', V(p), num(k))
    st = lambda l, r, op='': ('expr', ('asg', op, l, r))
    fs = []
    for n in range(12):
        w = rng.choice([2, 2, 3, 4, 4, 5, 8])
        order = list(range(w)) if rng.random() < .7 else rng.sample(range(w), w)
        base = rng.choice([0, 0, 0, 1, 2])
        b = []
        kind = rng.randrange(9)
        if kind == 0:                                      # constants
            c = rng.choice([None, 0, -1])
            b = [st(ix('p', base + k), num(rng.getrandbits(20)) if c is None else num(0) if c == 0 else ('un', '-', num(1))) for k in order]
        elif kind == 1:                                    # a copy, word after word
            b = [st(ix('p', k), ix('q', base + k)) for k in order]
        elif kind == 2:                                    # a copy through variables
            b = [('auto', [('t%d' % k, None) for k in range(w)])] + [st(V('t%d' % k), ix('q', k)) for k in order] + \
                [st(ix('p', base + k), V('t%d' % k)) for k in range(w)]
        elif kind == 3:                                    # one value everywhere
            b = [st(ix('p', base + k), V('n')) for k in order]
        elif kind == 4:                                    # arithmetic on each
            op = rng.choice(['+', '-', '&', '|', '*', '=='])
            b = [st(ix('p', k), ('bin', op, ix('p', k), ix('q', base + k))) for k in order]
        elif kind == 5:                                    # assigning operators, chains
            b = [st(ix('p', k), ix('q', k), rng.choice(['+', '-', '|'])) for k in order[1:]] + \
                [st(ix('p', order[0]), ('asg', '', ix('p', order[1]), V('n')))]
        elif kind == 6:                                    # moving the pointer
            b = [x for k in range(w) for x in (st(('un', '*', V('p')), ('un', '*', V('q'))), st(V('p'), num(8), '+'),
                                               st(V('q'), num(rng.choice([8, 8, 16])), '+'))][:3 * 5]
        elif kind == 7:                                    # a loop, up or down
            e = rng.choice([V('i'), num(0), V('n'), ('idx', V('q'), V('i')), ('bin', '+', ('idx', V('q'), V('i')), ('idx', V('p'), V('i')))])
            if rng.random() < .5:
                b = [('auto', [('i', None)]), st(V('i'), num(0)), ('while', ('bin', '<', V('i'), num(w)), ('block', [
                    st(('idx', V('p'), V('i')), e), ('expr', ('post', '++', V('i')))]))]
            else:
                b = [('auto', [('i', None)]), st(V('i'), num(w)), ('while', ('bin', '>=', ('pre', '--', V('i')), num(0)),
                                                                 st(('idx', V('p'), V('i')), e))]
        else:                                              # exchange
            b = [('auto', [('t', None)])] + [x for k in order[:4] for x in (
                st(V('t'), ix('p', k)), st(ix('p', k), ix('q', base + k)), st(ix('q', base + k), V('t')))]
        s = ix('p', 0)
        for k in range(1, rng.choice([1, 2, 4, 8])):
            s = ('bin', rng.choice('++&'), s, ix('p', k))
        fs.append(('fun', 'k%d' % n, ['p', 'q', 'n'], ('block', b + [('ret', s)])))
    objs = [('vec', 'g', '24', [('num', 7 * k + 1, str(7 * k + 1)) for k in range(rng.choice([0, 1, 24]))]), ('scalar', 'odd', []),
            ('vec', 'h', '25', []), ('vec', 'tiny', '1', [('num', 3, '3')]), ('scalar', 'many', [('num', k, str(k)) for k in range(20)])]
    rng.shuffle(objs)
    use = []
    for n, f in enumerate(fs):
        b = [('extrn', ['g', 'h', 'many']), ('auto', [('i', None), ('u', rng.choice(['20', '21'])), ('odd', None), ('w', '22')]), st(V('i'), num(0)),
             ('while', ('bin', '<', V('i'), num(20)), ('block', [st(('idx', V('u'), V('i')), ('bin', '*', V('i'), num(3))),
                                                               st(('idx', V('w'), V('i')), ('bin', '-', V('x'), V('i'))), ('expr', ('pre', '++', V('i')))]))]
        for _ in range(6):
            o = rng.choice(['g', 'h', 'u', 'w', 'many'])
            q = rng.choice(['g', 'h', 'u', 'w', 'many', o, o])
            at = lambda v, k: ('un', '&', ('idx', V(v) if v != 'many' else ('un', '&', V(v)), num(k))) if k or v == 'many' else V(v)
            b.append(ev(n, ('call', V(f[1]), [at(o, rng.randrange(4)), at(q, rng.randrange(4)), num(rng.randint(0, 99))])))
            b.append(ev(n, *[('idx', V(o) if o != 'many' else ('un', '&', V(o)), num(k)) for k in range(14)]))
        use.append(('fun', 'u%d' % n, ['x'], ('block', b)))
    ok = []
    calls = []
    for n, u in enumerate(use):
        if reference(objs + fs + [u], u[1], [7], 20000) is not None:
            ok.append(u)
            calls += [(u[1], [7]), (u[1], [rng.randint(-99, 99)])]
    if not calls:
        return None
    p = Fixed(rng, objs + fs + ok, calls)
    if rng.random() < .5:
        return p.text('plain'), p.expect, b''
    # the callees in another file
    return [program_text(fs, rng, 'plain'), program_text([d for d in p.decls if d not in fs], rng, 'plain')], p.expect, b''


def k_library(rng, i):
    """Loops and calls an optimizer may turn into C library calls or fold."""
    n = rng.choice([1, 3, 16, 100, 1000, 5000])
    m = rng.choice([1, 7, 64, 999])
    names = rng.sample(['memset', 'memcpy', 'strlen', 'puts', 'abs', 'malloc', 'free', 'memmove', 'bcmp', 'putchar',
                        'labs', 'sqrt', 'calloc', 'strcpy', 'memcmp', 'alloca', 'ffs', 'isdigit'], 4)
    text = '''
src[%(n)d]; dst[%(n)d]; cnt;
clear(v, n) { auto i; i = 0; while (i < n) v[i++] = 0; }
set(v, n, x) { auto i; i = 0; while (i < n) v[i++] = x; }
copy(d, s, n) { auto i; i = 0; while (i < n) { d[i] = s[i]; i =+ 1; } }
rcopy(d, s, n) { while (--n >= 0) d[n] = s[n]; }
same(d, s, n) { auto i; i = 0; while (i < n) { if (d[i] != s[i]) return (0); i++; } return (1); }
len(s) { auto n; n = 0; while (char(s, n)) n++; return (n); }
sum(v, n) { auto s; s = 0; while (n--) s =+ v[n]; return (s); }
bits(x) { auto n; n = 0; while (x) { x = x & (x - 1); n++; } return (n); }
pow(x, n) { auto r; r = 1; while (n-- > 0) r =* x; return (r); }
%(a)s(x) return (x < 0 ? -x : x);
%(b)s(x, y) return (x*3 + y);
%(c)s(s) { return (len(s) + 1); }
%(d)s() { extrn cnt; return (++cnt); }
fill(n) { auto v[300], i, h; i = 0; while (i < 300) { v[i] = 0; i++; } v[n] = 5; i = h = 0;
   while (i < 300) h = h*7 + v[i++]; return (h); }
main() {
    extrn src, dst, cnt; auto i;
    i = 0; while (i < %(n)d) { src[i] = i*i - 5; i++; }
    clear(dst, %(n)d); ev(2, 1, sum(dst, %(n)d));
    set(dst, %(n)d, -1); ev(2, 2, sum(dst, %(n)d));
    copy(dst, src, %(n)d); ev(2, 3, sum(dst, %(n)d)); ev(2, 4, same(dst, src, %(n)d));
    set(dst, %(n)d, %(m)d); rcopy(dst, src, %(n)d); ev(2, 5, same(dst, src, %(n)d));
    ev(2, 6, len("%(s)s")); ev(2, 7, bits(%(m)d)); ev(2, 8, pow(3, 45));
    ev(2, 9, %(a)s(-%(m)d)); ev(2, 10, %(b)s(4, %(m)d)); ev(2, 11, %(c)s("abc"));
    ev(2, 12, %(d)s()); ev(2, 13, fill(7)); ev(2, 14, fill(299));
    printf("%%d %%s*n", sum(src, %(n)d), "%(s)s"); write('*n'); printd(%(m)d); printo(%(m)d); writeb('!');
    evend();
    return (%(n)d);
}
''' % dict(n=n, m=m, a=names[0], b=names[1], c=names[2], d=names[3], s='x' * rng.choice([0, 1, 9, 200]))
    # in any order: functions are also called before they are defined, and obsolete definitions are overridden
    parts = re.split(r'\n(?=[a-z])', text.strip())
    if rng.random() < .7:
        rng.shuffle(parts)
    for _ in range(rng.choice([0, 0, 1, 3])):
        k = rng.randrange(len(parts))
        head = re.match(r'[a-z]+\([a-z, ]*\)', parts[k])
        if head and not head.group(0).startswith('main'):
            parts.insert(rng.randint(0, k), head.group(0) + rng.choice([' return (1);', ' { auto v[9], i; i = 0; while (i < 9) v[i++] = 0; return (v[3]); }', ';', ' { }']))
    return '\n'.join(parts) + '\n', None, b''


def k_output(rng, i):
    """A program that transforms its input with the library, in ways optimizers like."""
    data = bytes(rng.choice(b'abcdefghij \n0123456789') for _ in range(rng.choice([0, 1, 50, 400])))
    text = '''
cnt[128];
main() {
    extrn cnt, fout; auto c, n, w, in;
    n = w = in = 0;
    while ((c = read()) != 4) {
        cnt[c] =+ 1;
        n++;
        if (c == ' ' | c == '*n') in = 0; else if (!in) { in = 1; w++; }
        if (c >= 'a') if (c <= 'z') { writeb(c - 32); c = 0; }
        if (c) write(c);
    }
    c = 0;
    while (c < 128) { if (cnt[c]) printf("%%d:%%o ", c, cnt[c]); c++; }
    fout = 1; printf("n=%%d w=%%d*n", n, w); fout = 0;
    if (n > %d) exit();
    printf("end*n");
    return (n & 127);
}
''' % rng.choice([10, 100, 1000])
    text = text.replace('%%', '%')
    out = bytearray()
    cnt = {}
    for b in data:
        cnt[b] = cnt.get(b, 0) + 1
        out.append(b - 32 if 97 <= b <= 122 else b)
    return text, None, data


def k_edges(rng, i):
    """Arithmetic whose undefined cases in C tempt an optimizer: overflow, aliasing, shifts, comparisons."""
    p = Program(rng, 10, dict(edepth=6, stmts=4, ops=['+', '-', '*', '<', '<=', '>', '>=', '<<', '>>', '/', '%'],
                              goto=.02, switch=.02, chain=.2))
    return p.text('plain'), p.expect, b''


def k_tricky(rng, i):
    """Code an optimizer would change if it assumed no overflow, no aliasing or in-bounds arithmetic."""
    X, Y, A, B = V('x'), V('y'), V('a'), V('b')
    b = lambda op, l, r: ('bin', op, l, r)
    exprs = [b('>', ('par', b('+', X, num(1))), X), b('<', ('par', b('-', X, num(1))), X),
             b('==', ('par', b('/', ('par', b('*', X, num(2))), num(2))), X), b('<', ('un', '-', X), num(0)),
             b('>', b('*', X, X), num(0)), b('>=', b('+', X, Y), X), b('==', b('-', b('+', X, Y), Y), X),
             b('/', ('par', b('*', X, num(6))), num(3)), b('>>', ('par', b('<<', X, num(8))), num(8)),
             b('<<', ('par', b('>>', X, num(4))), num(4)), b('%', ('par', b('*', X, num(4))), num(2)),
             b('<', b('+', X, num(5)), b('+', Y, num(5))), b('==', b('-', X, num(1)), num(MAX)),
             ('cond', b('>', X, num(0)), b('>', b('+', X, Y), num(0)), num(7)),
             b('>', b('-', X, Y), num(0)), b('==', ('un', '-', ('par', ('un', '-', X))), X),
             ('cond', b('<', X, num(0)), ('un', '-', X), X)]
    rng.shuffle(exprs)
    fs = [('fun', 'o%d' % n, ['x', 'y'], ('ret', e)) for n, e in enumerate(exprs)]
    L = lambda *s: ('block', list(s))
    A_ = lambda op, l, r: ('expr', ('asg', op, l, r))
    fs.append(('fun', 'al', ['p', 'q'], L(          # p and q may be the same word
        ev(50, ('un', '*', V('p')), ('un', '*', V('q'))), A_('', ('un', '*', V('p')), num(3)),
        A_('', ('un', '*', V('q')), num(4)), ev(51, ('un', '*', V('p'))), A_('+', ('un', '*', V('p')), ('un', '*', V('q'))),
        ev(52, ('un', '*', V('p')), ('un', '*', V('q'))))))
    fs.append(('fun', 'alias', ['x'], L(
        ('extrn', ['g', 'v']), ('auto', [('a', None), ('w', '4'), ('p', None)]), A_('', V('a'), V('x')),
        A_('', V('p'), ('un', '&', V('a'))), A_('', ('un', '*', V('p')), num(9)), ev(53, V('a')),
        ('expr', ('call', V('al'), [('un', '&', V('a')), ('un', '&', V('a'))])), ev(54, V('a')),
        ('expr', ('call', V('al'), [('un', '&', V('g')), ('un', '&', V('a'))])), ev(55, V('a'), V('g')),
        A_('', ('idx', V('w'), num(1)), num(6)), A_('', ('idx', V('w'), num(2)), num(7)),
        ('expr', ('call', V('al'), [('un', '&', ('idx', V('w'), num(1))), ('un', '&', ('idx', V('w'), num(1)))])),
        ('expr', ('call', V('al'), [('un', '&', ('idx', V('v'), num(2))), ('bin', '+', V('v'), num(16))])),
        ev(56, ('idx', V('w'), num(1)), ('idx', V('w'), num(2)), ('idx', V('v'), num(2))),
        A_('', V('p'), ('un', '&', ('idx', V('v'), num(3)))),
        ev(57, ('idx', V('p'), ('un', '-', num(1))), ('idx', V('p'), ('un', '-', num(3)))),
        A_('', ('idx', V('p'), ('un', '-', num(2))), num(77)), ev(58, ('idx', V('v'), num(1))))))
    fs.append(('fun', 'loop', ['s', 'n'], L(
        ('auto', [('i', None), ('c', None)]), A_('', V('i'), V('s')),
        ('while', b('>', V('i'), num(0)), L(A_('+', V('i'), V('i')), A_('+', V('c'), num(1)),
                                            ('if', b('>', V('c'), V('n')), ('ret', ('un', '-', num(1))), None))),
        ev(59, V('i'), V('c')), ('ret', V('c')))))
    fs.append(('fun', 'up', ['i', 'n'], L(
        ('auto', [('c', None)]),
        ('while', b('<=', V('i'), V('n')), L(A_('+', V('c'), num(1)), A_('+', V('i'), num(1)),
                                             ('if', b('>', V('c'), num(50)), ('ret', V('i')), None))), ('ret', V('c')))))
    g = [('scalar', 'g', [('num', 5, '5')]), ('vec', 'v', '4', [('num', 10 + k, str(10 + k)) for k in range(4)])]
    calls = []
    for f in fs[:len(exprs)]:
        for _ in range(6):
            calls.append((f[1], [rng.choice([MAX, MIN, MAX - 1, MIN + 1, 1 << 62, -(1 << 62) - 1, 0, 1, -1, word(rng)]),
                                 rng.choice([MAX, MIN, 1, -1, 0, 1 << 62, word(rng)])]))
    calls += [('alias', [1]), ('loop', [1, 100]), ('loop', [3, 100]), ('up', [MAX - 3, MAX]), ('up', [MAX - 3, MAX - 1]),
              ('up', [1, 5])]
    p = Fixed(rng, g + fs, calls, one_order=True)
    return p.text('plain'), p.expect, b''


VERBS = ['is', 'has', 'get', 'set', 'can', 'to', 'mem', 'str', 'abs', 'min', 'max', 'num', 'len', 'pure', 'const', 'alloc', 'free', 'init', 'new',
         'next', 'cold', 'hot', 'fatal', 'die', 'abort', 'panic', 'err', 'print', 'put', 'read', 'inline', 'test', 'x', 'f', 'y_', '_', 'Is',
         'cmp', 'hash', 'sqrt', 'sin', 'div', 'mod', 'swap', 'nop', 'noreturn', 'main_', 'b_', 'llvm', 'sys', 'do', 'end', 'start', 'rand', 'time']
NOUNS = ['', '1', 'x', 'next', 'alpha', 'digit', 'cpy', 'cmp', 'len', 'chr', 'val', 'odd', '_it', 'Set', 'er', 's', '2', 'all', '_error', 'empty']


def k_named(rng, i):
    """What a function is called says nothing about what it does: each has effects, many of its calls drop the value
    or are like the one before."""
    names = []
    while len(names) < 14:
        n = rng.choice(VERBS) + rng.choice(NOUNS)
        if n not in names and n not in ('main', 'mem', 'exit', 'end', 'char', 'lchar', 'printf', 'write', 'read', 'flush', 'f'):
            names.append(n)
    top, model = [], []
    st = {'n': 0, 'v': [0] * 8}
    ev_ = []

    def wrap_(x):
        return (x + (1 << 63)) % (1 << 64) - (1 << 63)
    for k, n in enumerate(names):
        np_, kind = rng.choice([0, 1, 1, 1, 2, 2, 3]), rng.randrange(6)
        ps = ['a', 'b', 'c'][:np_]
        a = ps[0] if ps else '3'
        step = rng.randint(1, 9)
        if kind == 0:
            body = 'extrn n; n = n + %d; return (%s == n);' % (step, a)
            fn = lambda x, step=step: (st.__setitem__('n', st['n'] + step), int(x == st['n']))[1]
        elif kind == 1:
            body = 'extrn v; v[%d] = v[%d] + %s; return (v[%d]);' % (step % 8, step % 8, a, step % 8)
            fn = lambda x, j=step % 8: (st['v'].__setitem__(j, st['v'][j] + x), st['v'][j])[1]
        elif kind == 2:
            body = 'extrn n, v; auto p; p = &v[%d]; *p = *p + 1; n = n + *p; return;' % (step % 8)
            fn = lambda x, j=step % 8: (st['v'].__setitem__(j, st['v'][j] + 1), st.__setitem__('n', st['n'] + st['v'][j]), 0)[2]
        elif kind == 3:
            body = 'ev(2, %d, %s); return (%s);' % (k, a, a)
            fn = lambda x, k=k: (ev_.append((k, x)), x)[1]
        elif kind == 4:
            body = 'extrn n; return (n =+ %s);' % a
            fn = lambda x: (st.__setitem__('n', st['n'] + x), st['n'])[1]
        else:
            body = 'extrn n; if (n %% 2) { n = n + %d; return (1); } n = n * 3 + 1; if (n > 100000) n = 7; return (0);' % step
            def fn(x, step=step):
                if st['n'] % 2:
                    st['n'] += step
                    return 1
                st['n'] = st['n'] * 3 + 1
                if st['n'] > 100000:
                    st['n'] = 7
                return 0
        top.append('%s(%s) { %s }' % (n, ', '.join(ps), body))
        model.append((n, ps, fn))
    lines = []
    for _ in range(40):
        n, ps, fn = rng.choice(model)
        x = rng.randint(0, 9)
        call = '%s(%s)' % (n, ', '.join(str(x) if y == 'a' else '0' for y in ps))
        x = x if ps else 3
        r = rng.random()
        if r < .4:
            lines.append(call + ';')
            fn(x)
        elif r < .6:
            lines.append('%s; %s;' % (call, call))
            fn(x), fn(x)
        elif r < .75:
            m = rng.randint(2, 5)
            lines.append('i = %d; while (i--) %s;' % (m, call))
            for _ in range(m):
                fn(x)
        elif r < .9:
            lines.append('k = %s; k =+ %s; ev(2, 90, k);' % (call, call))
            k = fn(x)
            ev_.append((90, k + fn(x)))
        else:
            lines.append('ev(2, 91, %s);' % call)
            ev_.append((91, fn(x)))
        if rng.random() < .5:
            lines.append('ev(4, 92, n, v[%d], v[%d]);' % (0, 5))
            ev_.append((92, st['n'], st['v'][0], st['v'][5]))
    lines.append('ev(9, 93, %s);' % ', '.join('v[%d]' % j for j in range(8)))
    ev_.append(tuple([93] + st['v']))
    top += ['n;', 'v[8];', 'main() { extrn n, v; auto i, k;\n%s\nreturn (n %% 100); }' % '\n'.join(lines)]
    rng.shuffle(top)
    return '\n'.join(top) + '\n', (ev_, st['n'] % 100), b''


def k_endless(rng, i):
    """Loops without a visible exit condition that do end, and programs that end in exit()."""
    n = rng.randint(1, 400)
    text = '''
x;
spin(n) { while (1) { if (n-- == 0) return (n); } }
stop() { extrn x; x++; if (x == %d) { ev(2, 3, x); exit(); } }
forever() { l: stop(); goto l; }
nothing(n) { auto i; i = 0; while (i < n) i++; }
main() { ev(2, 1, spin(%d)); nothing(%d); ev(2, 2, nothing(5)); forever(); ev(2, 9, 9); return (5); }
''' % (n, n, n)
    return text, ([(1, -1), (2, 0), (3, n)], 0), b''


def k_example(rng, i):
    """The programs that come with the compiler."""
    ex = examples()
    if i >= len(ex):
        return None
    return ex[i][1], None, ex[i][2]


def main(tier, seed):
    c = setup('P07', tier, seed, 'exploration',
              'Each generated program is built 9 ways (the four -O levels, then random option sets and routes through '
              '.ll/.s/.o files) and every build must produce the same event log, output, error output and status, and '
              'those the reference interpreter predicts. Distinct and non-trivial: by output of more than 16 bytes.',
              ['programs depend only on defined behaviour (order-dependent ones are discarded)'])
    k = 1 if tier == 'quick' else 12
    G.kinds = dict(example=k_example, general=k_general, split=k_split, opaque=k_opaque, kernels=k_kernels, library=k_library, output=k_output, edges=k_edges, endless=k_endless, tricky=k_tricky, named=k_named)
    plan = [('example', 20 if tier == 'quick' else 40), ('general', 50 * k), ('split', 20 * k), ('opaque', 16 * k), ('kernels', 16 * k), ('library', 16 * k), ('output', 12 * k), ('edges', 30 * k), ('endless', 4 * k), ('tricky', 16 * k), ('named', 20 * k)]
    tasks = sorted([((j + .5) / n, (kd, j)) for kd, n in plan for j in range(n)])
    c.run_tasks(task, [t for _, t in tasks])
    return c.finish('executions', 20)
