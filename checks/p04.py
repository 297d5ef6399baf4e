"""P04: calls, arguments, results, activations."""
from vf.batch import *
from vf.gen import *

H = 1000003


def V(n):
    return ('var', n)


def evs(tag, exprs):
    """Events for any number of values, 40 at a time."""
    out = []
    for i in range(0, max(len(exprs), 1), 40):
        out.append(ev(tag, *exprs[i:i + 40]))
    return out


def k_params(rng, i):
    """Functions of 0..N parameters called in every way; each parameter is recorded."""
    decls, calls = [], []
    sizes = [[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], [10, 11, 12, 13, 14, 15, 16, 17, 20], [24, 31, 32, 33, 40, 48],
             [64, 100, 130], [250]][i % 5]
    gl = [('scalar', 'gf', []), ('vec', 'tab', '4', [])]
    decls += gl
    for k in sizes:
        ps = ['p%d' % j for j in range(k)]
        f = 'f%d' % k
        body = [('auto', [('c0', None), ('loc', '3'), ('c1', None)]),
                ('expr', ('asg', '', V('c0'), num(91))), ('expr', ('asg', '', V('c1'), num(92)))]
        body += evs(k, [V(p) for p in ps])
        # parameters are variables of their own
        for p in rng.sample(ps, min(4, k)):
            body.append(('expr', ('asg', rng.choice(['', '+', '-']), V(p), num(rng.randint(1, 99)))))
        body += evs(k, [V(p) for p in ps])
        body.append(ev(k, V('c0'), V('c1')))
        how = rng.randrange(4)
        if how == 0:
            body.append(('ret', V(rng.choice(ps)) if ps else num(17)))
        elif how == 1:
            body.append(('ret', None))
        elif how == 2:
            e = num(1)
            for p in ps[:50]:
                e = ('bin', '+', ('bin', '*', ('par', e), num(31)), V(p))
            body.append(('ret', e))
        decls.append(('fun', f, ps, ('block', body)))
        # the caller
        b = [('extrn', ['gf', 'tab']), ('auto', [('c0', None), ('fp', None), ('at', '4'), ('c1', None)]),
             ('expr', ('asg', '', V('c0'), num(81))), ('expr', ('asg', '', V('c1'), num(82))),
             ('expr', ('asg', '', V('fp'), V(f))), ('expr', ('asg', '', V('gf'), V(f))),
             ('expr', ('asg', '', ('idx', V('tab'), num(2)), V(f))),
             ('expr', ('asg', '', ('idx', V('at'), num(1)), V(f)))]

        def args(n):
            out = []
            for _ in range(n):
                r = rng.random()
                if r < .5:
                    out.append(neg(word(rng)))
                elif r < .7:
                    out.append(V(rng.choice(['x', 'y'])))
                elif r < .8:
                    out.append(('bin', rng.choice('+-*'), V('x'), num(rng.randint(0, 9))))
                elif r < .9:
                    out.append(('cond', V('x'), V('y'), num(3)))
                else:
                    out.append(('call', V('idn'), [V('y')]))
            return out
        ways = [V(f), V(f), ('par', V(f)), V('fp'), ('par', V('fp')), V('gf'), ('idx', V('tab'), num(2)),
                ('idx', V('at'), num(1)), ('par', ('cond', V('x'), V('fp'), V('fp'))),
                ('par', ('un', '*', ('un', '&', V('fp'))))]
        for w in ways:
            extra = rng.choice([0, 0, 0, 1, 3, 40])
            b.append(ev(700, ('call', w, args(k + extra)), V('c0'), V('c1')))
        b.append(('expr', ('call', V(f), args(k))))
        # the name of a function as a value
        vals = [V(f), V('fp'), V('gf'), ('idx', V('tab'), num(2)), V('idn'), V(f), ('par', V(f)), ('cond', V('x'), V(f), V(f))]
        for _ in range(3):
            b.append(ev(703, *[('bin', rng.choice(['==', '!=']), rng.choice(vals[:7]), rng.choice(vals[:7])) for _ in range(4)],
                        ('bin', '==', ('par', vals[7]), V('fp')), ('un', '!', V(f)), ('bin', '-', V(f), V('fp')),
                        ('bin', rng.choice(['==', '!=']), V('idn'), V(f)), ('bin', rng.choice(['==', '!=']), V(f), num(0))))
        if rng.random() < .5:
            b.append(('if', ('bin', '==', V(f), V('fp')), ev(704, num(1)), ev(704, num(0))))
        b.append(ev(701, ('bin', '+', ('call', V(f), args(k)), ('bin', '*', num(3), ('call', V('fp'), args(k)))))
                 if how != 0 or True else ('null',))
        decls.append(('fun', 'c' + f, ['x', 'y'], ('block', b)))
        for a in ([0, 5], [word(rng), word(rng)]):
            calls.append(('c' + f, a))
    decls.append(('fun', 'idn', ['v'], ('ret', V('v'))))
    # the operands of the last '+' are calls with events: their order is free, so judge in a fixed order
    fixed = [(n, d) for n, d in enumerate(decls)]
    for n, d in fixed:
        if d[0] == 'fun' and d[1].startswith('cf'):
            blk = d[3][1]
            last = blk.pop()
            e = last[1][2][2]
            if e[0] == 'bin':
                blk.append(ev(701, e[2]))
                blk.append(ev(702, e[3][3]))
    p = Fixed(rng, decls, calls)
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect,
                flags=[('-O0',), ('-O1',), ('-O2',), ('-O3',)], note='parameters %r' % sizes)


def k_missing(rng, i):
    """Missing arguments disturb nothing else; passed ones arrive."""
    decls, calls = [], []
    expect_note = []
    for k in range(1, 14):
        ps = ['p%d' % j for j in range(k)]
        for given in sorted({0, 1, k // 2, k - 1}):
            if given >= k:
                continue
            f = 'f%d_%d' % (k, given)
            # only the given parameters are recorded
            body = [('auto', [('c0', None)]), ('expr', ('asg', '', V('c0'), num(91)))]
            body += evs(k, [V(p) for p in ps[:given]])
            body.append(('expr', ('asg', '', V(ps[-1]), num(5))))       # a missing one can be assigned
            body += [ev(k, V(ps[-1]), V('c0'))]
            body.append(('ret', V(ps[0]) if given else num(3)))
            decls.append(('fun', f, ps, ('block', body)))
            b = [('auto', [('c0', None), ('v', '3'), ('fp', None)]), ('expr', ('asg', '', V('c0'), num(66)))]
            b += [('expr', ('asg', '', ('idx', V('v'), num(j)), num(70 + j))) for j in range(3)]
            b.append(('expr', ('asg', '', V('fp'), V(f))))
            a = [neg(word(rng)) for _ in range(given)]
            w = V(f) if rng.random() < .6 else V('fp')
            b.append(ev(800, ('call', w, a)))
            b.append(ev(801, V('c0'), *[('idx', V('v'), num(j)) for j in range(3)]))
            decls.append(('fun', 'c' + f, [], ('block', b)))
            calls.append(('c' + f, []))
    # the reference needs all arguments: give it the missing ones, their values are never used
    ref = []

    def pad(x):
        if isinstance(x, tuple):
            if x and x[0] == 'call' and x[1][0] == 'var' and (x[1][1] in arity or x[1][1] == 'fp'):
                k = arity.get(x[1][1], 14)
                return ('call', x[1], [pad(y) for y in x[2]] + [num(0)] * (k - len(x[2])))
            return tuple(pad(y) for y in x)
        if isinstance(x, list):
            return [pad(y) for y in x]
        return x
    arity = {d[1]: len(d[2]) for d in decls if not d[1].startswith('c')}
    full = Fixed(rng, [pad(d) for d in decls], calls)
    p = Fixed.__new__(Fixed)
    p.rng, p.order = rng, decls + [full.decls[-1]]
    rng.shuffle(p.order)
    return Case(p.text('plain'), full.expect, flags=[('-O0',), ('-O1',), ('-O2',), ('-O3',)],
                note='missing arguments')


def k_recursion(rng, i):
    """Deep recursion: every activation keeps its own parameters, variables and vectors."""
    depth = rng.choice([50, 1000, 5000, 20000])
    kind = i % 4
    lines = []
    expect = []
    if kind == 0:
        # r(n, a): locals derived from n, checked after the inner call
        text = '''
bad; depth;
r(n, a) {
    extrn bad, depth;
    auto x, v[3], y, z;
    x = n*7 + a; v[0] = n; v[1] = n*n; v[2] = a - n; y = n & 255;
    depth =+ 1;
    z = 0;
    if (n > 0) z = r(n - 1, a*3 + n);
    if (x != n*7 + a) bad =+ 1;
    if (v[0] != n) bad =+ 1;
    if (v[1] != n*n) bad =+ 1;
    if (v[2] != a - n) bad =+ 1;
    if (y != (n & 255)) bad =+ 1;
    return (z*31 + x + v[1]);
}
main() { extrn bad, depth; auto q; q = r(%d, %d); ev(4, 1, q, bad, depth); return (0); }
'''
        a0 = rng.randint(-100, 100)
        a = a0
        stack = []
        for n in range(depth, -1, -1):
            stack.append((n, a))
            a = wrap(a * 3 + n)
        z = 0
        for n, a in reversed(stack):
            z = wrap(wrap(z * 31) + wrap(n * 7 + a) + n * n)
        text = text % (depth, a0)
        text = text.replace(', -', ', 0-')
        expect = [(1, z, 0, depth + 1)]
    elif kind == 1:
        text = '''
cnt;
even(n) { extrn cnt; cnt =+ 1; if (n == 0) return (1); return (odd(n - 1)); }
main() { extrn cnt; ev(3, 1, even(%d), cnt); ev(2, 2, even(%d)); return (0); }
odd(n) { if (n == 0) return (0); return (even(n - 1)); }
''' % (depth, depth + 1)
        # the count is read after the call only if evaluated left to right: record separately
        text = text.replace('ev(3, 1, even(%d), cnt);' % depth, 'ev(2, 1, even(%d)); ev(2, 3, cnt);' % depth)
        expect = [(1, int(depth % 2 == 0)), (3, depth // 2 + 1), (2, int((depth + 1) % 2 == 0))]
    elif kind == 2:
        m, n = rng.choice([(2, 9), (2, 5), (3, 3), (1, 30)])
        text = '''
calls;
ack(m, n) { extrn calls; calls =+ 1;
  if (m == 0) return (n + 1);
  if (n == 0) return (ack(m - 1, 1));
  return (ack(m - 1, ack(m, n - 1))); }
fib(n) return (n < 2 ? n : fib(n-1) + fib(n-2));
h(n, from, to, via) { extrn calls; if (n) { h(n-1, from, via, to); calls =+ from*100 + to*10 + via; h(n-1, via, to, from); } }
main() { extrn calls; ev(2, 1, ack(%d, %d)); ev(2, 2, calls); ev(2, 3, fib(17)); calls = 0; h(9, 1, 2, 3); ev(2, 4, calls); return (0); }
''' % (m, n)
        cnt = [0]

        def ack(m, n):
            cnt[0] += 1
            if m == 0:
                return n + 1
            if n == 0:
                return ack(m - 1, 1)
            return ack(m - 1, ack(m, n - 1))
        a = ack(m, n)
        tot = [0]

        def h(n, f, t, v):
            if n:
                h(n - 1, f, v, t)
                tot[0] += f * 100 + t * 10 + v
                h(n - 1, v, t, f)
        h(9, 1, 2, 3)
        expect = [(1, a), (2, cnt[0]), (3, 1597), (4, tot[0])]
    else:
        # many parameters recursively, passed on permuted
        k = rng.choice([3, 7, 8, 12])
        depth = min(depth, 5000)
        ps = ['p%d' % j for j in range(k)]
        perm = list(range(k))
        rng.shuffle(perm)
        text = 'sum;\nr(n, %s) { extrn sum; auto s; s = n; if (n > 0) s = r(n - 1, %s); sum =+ %s; return (s + p0); }\n' % (
            ', '.join(ps), ', '.join('p%d + %d' % (perm[j], j) for j in range(k)),
            ' + '.join('p%d*%d' % (j, j + 1) for j in range(k)))
        vals = [rng.randint(0, 1000) for _ in range(k)]
        text += 'main() { extrn sum; ev(2, 1, r(%d, %s)); ev(2, 2, sum); return (0); }\n' % (
            depth, ', '.join(map(str, vals)))
        stack = []
        v = list(vals)
        for n in range(depth, -1, -1):
            stack.append(v)
            v = [v[perm[j]] + j for j in range(k)]
        s, total = 0, 0
        for v in reversed(stack):
            total = wrap(total + sum(v[j] * (j + 1) for j in range(k)))
            s = wrap(s + v[0])
        expect = [(1, s), (2, total)]
    return Case(text, (expect, 0), flags=[('-O0',), ('-O2',)], note='recursion kind %d depth %d' % (kind, depth))


def k_bigframe(rng, i):
    """Activations with automatic vectors of all sizes: each has its own."""
    nv = rng.choice([1, 1, 2, 3])
    sizes = [rng.choice([1, 2, 8, 100, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049,
                         4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 20000, 32767, 32768, 40000, 65535,
                         65536, 65537, 100000, 131072, 200000]) for _ in range(nv)]
    words = sum(sizes) + 16
    depth = max(1, min(rng.choice([1, 2, 3, 7, 40, 300]), 600000 // words - 1))
    style = i % 3
    vs = ['v%d' % k for k in range(nv)]
    spots = []          # (vector, index): where the activation leaves its marks
    for v, s in zip(vs, sizes):
        for x in sorted({0, s - 1, s // 2, rng.randrange(s), rng.randrange(s)}):
            spots.append((v, x))
    mark = lambda k: 'n*%d + %d' % (2 * k + 3, 1000 * k + 7)
    decl = ', '.join(['x', 'y'] + ['%s[%d]' % (v, s) for v, s in zip(vs, sizes)])
    if rng.random() < .5:
        decl = ', '.join(['%s[%d]' % (v, s) for v, s in zip(vs, sizes)] + ['x', 'y'])
    sets = ' '.join('%s[%d] = %s;' % (v, x, mark(k)) for k, (v, x) in enumerate(spots))
    # an index known only at run time must reach the same word
    tests = ' '.join('if (%s[%s] != %s) bad =+ 1;' % (v, x if rng.random() < .5 else 'zero + %d' % x, mark(k))
                     for k, (v, x) in enumerate(spots))
    nxt = ['r', 's', 'r'][style]
    body = """
%s(n%s) {
    extrn bad, zero, acts;
    auto %s;
    acts =+ 1;
    x = n*5; y = n + 1;
    %s
    %s
    %s
    if (x != n*5) bad =+ 1;
    if (y != n + 1%s) bad =+ 1;
    return (x + y + v0[0]);
}
"""
    call = {0: 'if (n > 0) %s(n - 1);' % nxt, 1: 'if (n > 0) %s(n - 1);' % nxt,
            2: 'while (y - n - 1 < 2) { if (n > 0) if (y == n + 1) r(n - 1, v0); y =+ 1; }'}[style]
    text = 'bad; zero; acts;\n'
    extra = ', up' if style == 2 else ''
    first = 'if (up) up[%d] = up[%d];' % (spots[0][1], spots[0][1]) if style == 2 else ''
    text += body % ('r', extra, decl, sets + first, call, tests, ' + 2' if style == 2 else '')
    if style == 1:
        text += body % ('s', '', decl, sets, 'if (n > 0) r(n - 1);', tests, '')
    text += 'main() { extrn bad, acts; ev(2, 1, r(%d%s)); ev(2, 2, bad); ev(2, 3, acts); return (0); }\n' % (
        depth, ', 0' if style == 2 else '')
    n = depth
    val = n * 5 + n + 1 + (2 if style == 2 else 0) + n * 3 + 7
    k0 = [k for k, sp in enumerate(spots) if sp == ('v0', 0)][0]
    assert k0 == 0
    return Case(text, ([(1, val), (2, 0), (3, depth + 1)], 0), flags=[('-O0',), ('-O2',)],
                note='activation of %d words, depth %d' % (words, depth))


def k_nest(rng, i):
    """Calls anywhere in the argument lists of calls; all callees are pure, so any order gives the value."""
    decls, arity = [], {}
    ks = rng.sample(range(13), 5) + [rng.choice([14, 16, 20, 33])]
    for k in ks:
        ps = ['q%d' % j for j in range(k)]
        e = num(k + 1)
        for p in ps:
            e = ('bin', '+', ('bin', '*', ('par', e), num(rng.choice([3, 5, 7, 31]))), V(p))
        f = 'm%d' % k
        arity[f] = k
        decls.append(('fun', f, ps, ('ret', e)))
    decls.append(('fun', 'id', ['v'], ('ret', V('v'))))
    decls.append(('fun', 'which', ['c', 'f', 'g'], ('ret', ('cond', V('c'), V('f'), V('g')))))
    arity['id'] = 1
    base = list(decls)
    calls = []
    budget = [0]

    def arg(d):
        r = rng.random()
        if d <= 0 or budget[0] <= 0 or r < .25:
            return rng.choice([V('x'), V('y'), num(rng.randint(0, 9)), neg(word(rng)), ('un', '!', V('x'))])
        if r < .75:
            return call(d - 1)
        if r < .85:
            return ('bin', rng.choice('+-*'), arg(d - 1), arg(d - 1))
        if r < .92:
            return ('cond', arg(d - 1), arg(d - 1), arg(d - 1))
        return ('un', '-', ('par', arg(d - 1)))

    def call(d):
        budget[0] -= 1
        f = rng.choice(sorted(arity))
        k = arity[f]
        p = rng.choice([.2, .5, 1])
        args = [arg(d if rng.random() < p else 0) for _ in range(k)]
        r = rng.random()
        if r < .7:
            return ('call', V(f), args)
        if r < .85:
            return ('call', V('p%s' % f), args)
        same = [g for g in arity if arity[g] == k]
        return ('call', ('call', V('which'), [arg(0), V('p%s' % f), V('p%s' % rng.choice(same))]), args)
    for n in range(10):
        b = [('auto', [('p%s' % f, None) for f in sorted(arity)])]
        b += [('expr', ('asg', '', V('p%s' % f), V(f))) for f in sorted(arity)]
        for _ in range(rng.randint(1, 4)):
            budget[0] = rng.choice([3, 10, 40])
            b.append(ev(20, call(rng.randint(1, 5))))
        d = ('fun', 't%d' % n, ['x', 'y'], ('block', b))
        a = [rng.choice([0, 1, word(rng)]), word(rng)]
        if reference(base + [d], d[1], a) is not None:
            decls.append(d)
            calls.append((d[1], a))
    if not calls:
        return None
    p = Fixed(rng, decls, calls)
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, note='calls in arguments of calls')


def k_returns(rng, i):
    """The value of a call: from any return, none, or falling off the end, in any position."""
    decls, calls = [], []
    for n in range(20):
        b = []
        r = rng.randrange(9)
        if r == 0:
            b = [('ret', None)]
        elif r == 1:
            b = []
        elif r == 2:
            b = [('if', V('a'), ('ret', num(5)), None)]
        elif r == 3:
            b = [('if', V('a'), ('ret', num(5)), ('ret', neg(word(rng))))]
        elif r == 4:
            b = [('while', V('a'), ('block', [('expr', ('pre', '--', V('a'))),
                                              ('if', ('bin', '==', V('a'), num(2)), ('ret', num(44)), None)]))]
        elif r == 5:
            b = [('switch', V('a'), ('block', [('case', '0', 0, ('ret', num(10))), ('case', '1', 1, ('ret', None)),
                                               ('case', '2', 2, ('null',))])), ('ret', V('a'))]
        elif r == 6:
            b = [('if', V('a'), ('goto', 'l'), None), ('ret', num(1)), ('label', 'l', ('ret', num(2)))]
        elif r == 7:
            b = [('block', [('ret', V('a'))]), ('ret', num(9))]
        else:
            b = [('expr', V('a')), ('expr', ('asg', '', V('a'), num(77)))]
        s = ('block', b)
        if r in (0, 3) and rng.random() < .5:
            s = b[0]
        decls.append(('fun', 'r%d' % n, ['a'], s))
    body = []
    for n in range(20):
        for a in range(4):
            c = ('call', V('r%d' % n), [num(a)])
            u = rng.randrange(5)
            body.append([ev(n, c), ('if', c, ev(n, num(1)), ev(n, num(0))),
                         ev(n, ('bin', '+', c, num(1))), ('expr', c),
                         ev(n, ('call', V('r%d' % rng.randrange(20)), [('bin', '&', c, num(3))]))][u])
    decls.append(('fun', 't', [], ('block', body)))
    p = Fixed(rng, decls, [('t', [])])
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, note='return values')


def k_args(rng, i):
    """Arguments that are calls, assignments and conditionals; every function runs once per call."""
    decls = [('fun', 'e', ['id', 'v'], ('block', [ev(7, V('id'), V('v')), ('ret', V('v'))]))]
    for k in (0, 1, 2, 3, 7):
        ps = ['q%d' % j for j in range(k)]
        e = num(k)
        for p in ps:
            e = ('bin', '+', ('bin', '*', ('par', e), num(3)), V(p))
        decls.append(('fun', 'm%d' % k, ps, ('block', [ev(8, num(k), *map(V, ps)), ('ret', e)])))
    base = list(decls)
    calls = []
    ids = [0]

    def arg(d):
        r = rng.random()
        if d <= 0 or r < .3:
            return rng.choice([V('x'), num(rng.randint(0, 9)), neg(word(rng)), ('un', '!', V('x'))])
        if r < .5:
            ids[0] += 1
            return ('call', V('e'), [num(ids[0]), arg(d - 1)])
        if r < .75:
            return call(d - 1)
        if r < .85:
            return ('cond', arg(d - 1), arg(d - 1), arg(0))
        return ('asg', '', V('y'), arg(d - 1))

    def call(d):
        k = rng.choice([0, 1, 2, 3, 7])
        # at most one argument with an effect keeps the order of evaluation irrelevant
        args = [arg(0) for _ in range(k)]
        if args and rng.random() < .8:
            args[rng.randrange(k)] = arg(d)
        return ('call', V('m%d' % k), args)
    for n in range(16):
        b = [('auto', [('y', None)])]
        for _ in range(rng.randint(1, 4)):
            b.append(ev(20, call(rng.randint(1, 6))))
        b.append(ev(21, V('y')))
        d = ('fun', 't%d' % n, ['x'], ('block', b))
        a = [rng.choice([0, 1, word(rng)])]
        if reference(base + [d], d[1], a) is not None:
            decls.append(d)
            calls.append((d[1], a))
    if not calls:
        return None
    p = Fixed(rng, decls, calls)
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, note='nested calls')


def k_again(rng, i):
    """The same call written again is another call: it runs the function again."""
    decls = [('scalar', 'cnt', []), ('scalar', 'gf', []), ('vec', 'tab', '3', [])]
    calls = []
    ar = {}
    for k in (0, 1, 2, 3, 7):
        ps = ['q%d' % j for j in range(k)]
        e = V('cnt')
        for p in ps:
            e = ('bin', '+', ('bin', '*', ('par', e), num(3)), V(p))
        f = 'n%d' % k
        ar[f] = k
        b = [('extrn', ['cnt']), ('expr', ('asg', '+', V('cnt'), num(rng.randint(1, 9))))]
        if rng.random() < .5:
            b.append(ev(30, num(k), V('cnt')))
        decls.append(('fun', f, ps, ('block', b + [('ret', ('par', e))])))
    # one that only depends on memory its caller changes
    decls.append(('fun', 'rd', ['p'], ('ret', ('un', '*', V('p')))))
    decls.append(('fun', 'rg', [], ('block', [('extrn', ['cnt']), ('ret', V('cnt'))])))
    for n in range(14):
        f = rng.choice(sorted(ar))
        how = rng.random()
        w = V(f) if how < .6 else V('fp') if how < .8 else V('gf') if how < .9 else ('idx', V('tab'), num(1))
        style = rng.randrange(3)
        args = [num(rng.randint(0, 9)) if style == 0 else V(rng.choice(['x', 'y'])) if style == 1 else
                rng.choice([V('x'), num(rng.randint(0, 300)), ('bin', '+', V('y'), num(1)), neg(word(rng))])
                for _ in range(ar[f])]
        E = ('call', w, args)
        b = [('extrn', ['cnt', 'gf', 'tab']), ('auto', [('fp', None), ('s', None), ('t', None), ('v', '2')])]
        b += [('expr', ('asg', '', l, V(f))) for l in (V('fp'), V('gf'), ('idx', V('tab'), num(1)))]
        b += [('expr', ('asg', '', l, num(0))) for l in (V('s'), V('t'), ('idx', V('v'), num(0)), ('idx', V('v'), num(1)))]
        for _ in range(rng.randint(2, 5)):
            r = rng.randrange(11)
            if r == 0:
                b.append(ev(31, ('bin', rng.choice('+*|&'), E, E)))
            elif r == 1:
                b += [('expr', E)] * rng.randint(2, 4)
            elif r == 2:
                b += [('expr', ('asg', '', V('s'), E)), ('expr', ('asg', '', V('t'), E))]
            elif r == 3:
                b.append(('if', E, ('expr', ('asg', '+', V('s'), E)), ('expr', ('asg', '-', V('t'), E))))
            elif r == 4:
                b.append(('expr', ('asg', '+', V('s'), ('cond', E, E, E))))
            elif r == 5:
                b += [('expr', ('asg', '', V('t'), num(rng.randint(1, 4)))),
                      ('while', ('bin', '>', ('post', '--', V('t')), num(0)),
                       ('block', [('expr', ('asg', '+', V('s'), E)), ('expr', ('asg', '+', V('s'), E))]))]
            elif r == 6:
                b += [('expr', ('asg', '', ('idx', V('v'), num(0)), E)), ('expr', ('asg', '', ('idx', V('v'), num(1)), E))]
            elif r == 7:
                b += [ev(33, E), ev(33, E)]
            elif r == 8:
                b.append(ev(34, ('un', '!', E)))
                b.append(ev(34, ('un', '-', E)))
            elif r == 9:
                # the same read of memory on both sides of a change
                R = rng.choice([('call', V('rd'), [('un', '&', V('s'))]), ('call', V('rg'), [])])
                ch = rng.choice([('pre', '++', V('s')), ('asg', '+', V('cnt'), num(5)),
                                 ('asg', '', ('un', '*', ('un', '&', V('s'))), num(rng.randint(1, 99))), E])
                b += [ev(35, R), ('expr', ch), ev(35, R), ev(35, ('bin', '+', R, R))]
            else:
                b.append(('expr', ('asg', '', V('s'), ('asg', '+', V('t'), ('bin', '+', E, E)))))
        b.append(ev(32, V('s'), V('t'), V('cnt'), ('idx', V('v'), num(0)), ('idx', V('v'), num(1))))
        d = ('fun', 't%d' % n, ['x', 'y'], ('block', b))
        decls.append(d)
        calls.append((d[1], [rng.choice([0, 1, word(rng)]), word(rng)]))
    good = []
    for cl in calls:
        try:
            Fixed(rng, decls, [cl])
            good.append(cl)
        except Undefined:
            pass
    if not good:
        return None
    p = Fixed(rng, decls, good, order='given' if rng.random() < .5 else None)
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, flags=[('-O0',), ('-O2',)],
                note='the same call again')


def k_general(rng, i):
    p = Program(rng, 12, dict(call=0.3, edepth=4, stmts=6), npure=rng.randint(3, 9))
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, note='general program')


def main(tier, seed):
    c = setup('P04', tier, seed, 'exploration',
              'Functions of 0 to 250 parameters called by name and through values with exact, surplus and missing '
              'arguments, recursion up to 20000 deep with per-activation integrity checks, all kinds of returns, nested '
              'calls, definition before and after use. Distinct and non-trivial: by the event sequence of a test function.',
              ['the reference interpreter in vf/lang.py', 'the value of a missing argument is unspecified',
               'clang executes LLVM modules correctly'])
    k = 1 if tier == 'quick' else 12
    run_kinds(dict(params=k_params, missing=k_missing, recursion=k_recursion, bigframe=k_bigframe, nest=k_nest, returns=k_returns, args=k_args, again=k_again,
                   general=k_general),
              [('params', 20 * k), ('missing', 8 * k), ('recursion', 32 * k), ('bigframe', 36 * k), ('nest', 30 * k), ('returns', 20 * k), ('args', 60 * k), ('again', 30 * k),
               ('general', 100 * k)])
    return c.finish('executions', 20)
