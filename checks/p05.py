"""P05: storage layout and initial contents. Oracles: reference values, and an offline checker of object intervals."""
from vf.batch import *
from vf.gen import *


def V(n):
    return ('var', n)


def ivals(rng, n, strings=True):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .45:
            out.append(num_ival(pick_num(rng), rng))
        elif r < .7:
            t = num(pick_num(rng), rng)
            out.append(('neg', t[1], t[2]))
        elif r < .85 or not strings:
            out.append(('chr', bytes(rng.choice(PRINTABLE + [0, 9, 10]) for _ in range(heavy(rng, 1, 3, 8)))))
        else:
            out.append(('str', text_bytes(rng, heavy(rng, 0, 8, 300))))
    return out


def chunks(tag, exprs):
    return [ev(tag, *exprs[i:i + 40]) for i in range(0, len(exprs), 40)]


def k_globals(rng, i):
    """Every initial word, read by index, indirection and address; strings byte by byte."""
    names = Names(rng, 0.3)
    decls, body = [], []
    n = heavy(rng, 3, 12, 60)
    inter = []
    total = 0
    for k in range(n):
        x = names.new('g')
        r = rng.random()
        if r < .4:
            cnt = rng.choice([0, 1, 1, 1, 2, 3, heavy(rng, 2, 6, 80)])
            iv = ivals(rng, cnt)
            decls.append(('scalar', x, iv))
            words = max(1, cnt)
            kind = 's'
        else:
            size = rng.choice([None, '0', '1', '2', '3', '7', '8', '010', '017', '64', str(heavy(rng, 1, 20, 3000))])
            cnt = rng.choice([0, 0, 1, 2, heavy(rng, 1, 6, 80)])
            if rng.random() < .2 and size and sizeval(size) < 200:
                cnt = sizeval(size)
            iv = ivals(rng, cnt)
            decls.append(('vec', x, size, iv))
            words = max(1, cnt, sizeval(size))
            kind = 'v'
        total += words
        inter.append((x, kind, words, iv))
    fns = []
    for k, (x, kind, words, iv) in enumerate(inter):
        b = [('extrn', [x]), ('auto', [('p', None), ('i', None)])]
        isstr = [j < len(iv) and iv[j][0] == 'str' for j in range(words)]
        base = ('un', '&', V(x)) if kind == 's' else V(x)
        idx = sorted(set(range(min(words, 45))) | set(range(max(0, words - 45), words)))

        def el(j):
            r = rng.random()
            if kind == 's':
                if j == 0 and r < .5:
                    return V(x)
                return ('idx', ('un', '&', V(x)), num(j))
            if r < .6:
                return ('idx', V(x), num(j))
            if r < .8:
                return ('un', '*', ('bin', '+', V(x), num(8 * j)))
            return ('un', '*', ('un', '&', ('idx', V(x), num(j))))
        b += chunks(k, [el(j) for j in idx if not isstr[j]])
        for j in idx:
            if isstr[j]:
                s = iv[j][1]
                b += chunks(k, [num(j)] + [('call', V('char'), [el(j), num(m)]) for m in range(min(len(s) + 1, 60))])
        # all words in a loop: a checksum that sees every word of large vectors
        if not any(isstr):
            b += [('expr', ('asg', '', V('p'), base)), ('expr', ('asg', '', V('i'), num(0))),
                  ('auto', [('h', None)]),
                  ('while', ('bin', '<', V('i'), num(words)), ('block', [
                      ('expr', ('asg', '', V('h'), ('bin', '+', ('bin', '*', V('h'), num(31)),
                                                    ('idx', V('p'), V('i'))))),
                      ('expr', ('pre', '++', V('i')))])),
                  ev(k, V('h'), ('bin', '==', base, V('p')))]
        fns.append(('fun', 'd%d' % k, [], ('block', b)))
    # write everything, then check nothing else changed
    wr = [('extrn', [x]) for x, *_ in inter]
    for k, (x, kind, words, iv) in enumerate(inter):
        base = ('un', '&', V(x)) if kind == 's' else V(x)
        for j in sorted({0, words - 1, words // 2}):
            wr.append(('expr', ('asg', '', ('idx', base if kind == 'v' else ('un', '&', V(x)), num(j)),
                                num(1000 * k + j))))
    rd = [('extrn', [x]) for x, *_ in inter]
    es = []
    for k, (x, kind, words, iv) in enumerate(inter):
        base = ('un', '&', V(x)) if kind == 's' else V(x)
        for j in sorted({0, words - 1, words // 2}):
            es.append(('idx', base, num(j)))
    rd += chunks(9000, es)
    fns.append(('fun', 'wr', [], ('block', wr)))
    fns.append(('fun', 'rd', [], ('block', rd)))
    calls = [('d%d' % k, []) for k in range(n)] + [('wr', []), ('rd', [])]
    p = Fixed(rng, decls + fns, calls, steps=3000000, one_order=True)
    return Case(p.text(rng.choice(['plain', 'tight', 'wild', 'comment'])), p.expect, note='%d globals' % n, cpu=60)


def k_autos(rng, i):
    """Automatic variables: zero whenever declared, vectors of their size, separate from each other."""
    decls, calls = [], []
    for n in range(8):
        k = heavy(rng, 1, 8, 80)
        b, vs, seen = [], [], set()
        cur = []
        for j in range(k):
            x = 'x%d' % j
            if rng.random() < .35:
                size = rng.choice(['0', '1', '2', '3', '5', '8', '017', str(heavy(rng, 1, 30, 400))])
                cur.append((x, size))
                vs.append((x, max(1, sizeval(size))))
            else:
                cur.append((x, None))
                vs.append((x, None))
            if rng.random() < .5:
                b.append(('auto', cur))
                cur = []
        if cur:
            b.append(('auto', cur))
        b += chunks(n, [V(x) for x, s in vs if s is None])
        for x, s in vs:
            if s is None:
                b.append(('expr', ('asg', '', V(x), num(rng.getrandbits(30)))))
            else:
                for j in sorted({0, s - 1, rng.randrange(s)}):
                    b.append(('expr', ('asg', '', ('idx', V(x), num(j)), num(rng.getrandbits(30)))))
        es = []
        for x, s in vs:
            if s is None:
                es.append(V(x))
            else:
                es += [('idx', V(x), num(j)) for j in (0, s - 1)]
                es.append(('un', '*', ('bin', '+', V(x), num(8 * (s - 1)))))
        b += chunks(n, es)
        # fill the vectors completely
        b.append(('auto', [('i', None), ('keep', '4')]))
        b += [('expr', ('asg', '', ('idx', V('keep'), num(j)), num(rng.getrandbits(20)))) for j in range(4)]
        for x, s in vs:
            if s is not None:
                b += [('expr', ('asg', '', V('i'), num(0))),
                      ('while', ('bin', '<', V('i'), num(s)), ('expr', ('asg', '', ('idx', V(x), ('post', '++', V('i'))),
                                                                        num(rng.getrandbits(20)))))]
        b += chunks(n, es)
        # a nested declaration is zero each time it is executed
        b += [('expr', ('asg', '', V('i'), num(0))),
              ('while', ('bin', '<', ('post', '++', V('i')), num(3)), ('block', [
                  ('auto', [('nz', None), ('nv', '3')]), ev(n, V('nz')), ('expr', ('asg', '', V('nz'), V('i'))),
                  ('expr', ('asg', '', ('idx', V('nv'), num(2)), V('i'))),
                  ev(n, V('nz'), ('idx', V('nv'), num(2)))]))]
        b += chunks(n, es)
        # names of vectors that are set to point elsewhere point to their own words again when declared again
        others = [V(x) for x, s in vs if s is not None and s > 1] + [V('keep')]
        for m in range(rng.randint(0, 2)):
            x, y, z, size = 'r%d' % m, 's%d' % m, 'u%d' % m, rng.choice(['1', '2', '9', '10', '012', '16', '33', '200'])
            w = sizeval(size)
            pre = [rng.choice([ev(n, V('i')), ('expr', ('asg', '+', V('a'), num(1))), ('if', ('bin', '==', V('i'), num(2)), ev(n, num(22)), None),
                               ('auto', [('t%d_%d' % (m, w1), None)])]) for w1 in range(rng.randint(0, 3))]
            body = pre + [('auto', rng.choice([[(x, size)], [(y, None), (x, size)], [(x, size), (z, '3')]]))]
            body += [ev(n, ('bin', '==', V(x), rng.choice(others)), ('bin', '!=', V(x), num(0))),
                     ('expr', ('asg', '', ('idx', V(x), num(w - 1)), V('i'))), ('expr', ('asg', '', ('idx', V(x), num(0)), ('bin', '+', V('i'), num(50)))),
                     ('expr', ('asg', '', V(x), rng.choice(others + [num(0)]))) if rng.random() < .8 else ev(n, ('idx', V(x), num(w - 1)))]
            stop = rng.randint(2, 4)
            loop = ('while', ('bin', '<', ('post', '++', V('i')), num(stop)), ('block', body))
            if rng.random() < .3:
                loop = ('block', [('label', 'again%d' % m, ('block', body)), ('if', ('bin', '<', ('pre', '++', V('i')), num(stop)), ('goto', 'again%d' % m), None)])
            b += [('expr', ('asg', '', V('i'), num(0))), loop]
            b += chunks(n, es)
            b.append(ev(n, *[('idx', V('keep'), num(j)) for j in range(4)]))
        d = ('fun', 'f%d' % n, ['a'], ('block', b + [('ret', V('a'))]))
        decls.append(d)
        calls += [(d[1], [rng.randint(0, 9)])] * 2
    # dirty the stack between calls
    decls.append(('fun', 'dirty', [], ('block', [('auto', [('v', '500'), ('i', None)]),
                                                 ('while', ('bin', '<', V('i'), num(500)),
                                                  ('expr', ('asg', '', ('idx', V('v'), ('post', '++', V('i'))),
                                                            ('un', '-', num(1)))))])))
    cs = []
    for c in calls:
        cs += [('dirty', []), c]
    p = Fixed(rng, decls, cs, steps=3000000, one_order=True)
    return Case(p.text('plain'), p.expect, flags=[('-O0',), ('-O2',)], note='autos', cpu=60)


def k_disjoint(rng, i):
    """Addresses of all live objects, in several activations: an offline checker looks for overlap."""
    names = Names(rng, 0.2)
    ng, na = heavy(rng, 2, 8, 40), heavy(rng, 1, 8, 40)
    decls = []
    objs = []      # (id, words)
    b = []
    oid = 0
    gl = []
    for k in range(ng):
        x = names.new('g')
        if rng.random() < .4:
            cnt = rng.choice([0, 1, 2, 5])
            decls.append(('scalar', x, ivals(rng, cnt, False)))
            gl.append((x, 's', max(1, cnt)))
        else:
            size = rng.choice(['0', '1', '2', '5', '100', str(heavy(rng, 1, 20, 5000))])
            cnt = rng.choice([0, 0, 1, 3, 8])
            decls.append(('vec', x, size, ivals(rng, cnt, False)))
            gl.append((x, 'v', max(1, cnt, sizeval(size))))
    rep = [('extrn', [x for x, _, _ in gl])]
    sizes = {}
    for x, kind, w in gl:
        oid += 1
        sizes[oid] = w if kind == 's' else 1
        rep.append(ev(1, num(oid), ('un', '&', V(x))))
        if kind == 'v':
            oid += 1
            sizes[oid] = w
            rep.append(ev(1, num(oid), V(x)))
    nparams = rng.choice([1, 2, 3, 8])
    ps = ['q%d' % j for j in range(nparams)]
    body = []
    al = []
    for j in range(na):
        x = 'a%d' % j
        if rng.random() < .4:
            s = rng.choice(['0', '1', '2', '9', str(heavy(rng, 1, 20, 600))])
            al.append((x, max(1, sizeval(s))))
            body.append(('auto', [(x, s)]))
        else:
            al.append((x, None))
            body.append(('auto', [(x, None)]))
    first = oid
    for x in ps:
        oid += 1
        sizes[oid] = 1
        body.append(ev(2, V('q0'), num(oid), ('un', '&', V(x))))
    for x, s in al:
        oid += 1
        sizes[oid] = 1
        body.append(ev(2, V('q0'), num(oid), ('un', '&', V(x))))
        if s is not None:
            oid += 1
            sizes[oid] = s
            body.append(ev(2, V('q0'), num(oid), V(x)))
    # two variables in separate blocks, both live in the function
    for blk in range(2):
        oid += 1
        sizes[oid] = 1
        body.append(('if', V('q0'), ('block', [('auto', [('n%d' % blk, None)]),
                                               ev(2, V('q0'), num(oid), ('un', '&', V('n%d' % blk)))]), None))
    body.append(('if', ('bin', '>', V('q0'), num(0)),
                 ('expr', ('call', V('f'), [('bin', '-', V('q0'), num(1))] + [num(5)] * (nparams - 1))), None))
    body.append(('ret', num(0)))
    depth = 4
    main = ('fun', 'main', [], ('block', rep + [('expr', ('call', V('f'), [num(depth)] + [num(1)] * (nparams - 1))),
                                                ev(3, num(99)), ('ret', num(0))]))
    decls += [('fun', 'f', ps, ('block', body)), main]
    text = program_text(decls, rng, 'plain')

    def judge(evs, r):
        if r.rc != 0 or not evs or evs[-1] != (3, 99):
            return 'the program did not finish: %s' % r.describe()
        iv = []
        for e in evs:
            if e[0] == 1:
                iv.append((e[2] & M64, sizes[e[1]], 'global object %d' % e[1]))
            elif e[0] == 2:
                iv.append((e[3] & M64, sizes[e[2]], 'object %d in activation %d' % (e[2], e[1])))
        want = len(sizes) - (oid - first) + (oid - first) * (depth + 1) - 2
        if len(iv) != want:
            return 'expected %d addresses, observed %d' % (want, len(iv))
        iv.sort()
        for (a, n, x), (c, m, y) in zip(iv, iv[1:]):
            if a + 8 * n > c:
                return 'storage overlap: %s at %#x (%d words) and %s at %#x' % (x, a, n, y, c)
            if a % 8:
                return '%s is not word aligned (%#x)' % (x, a)
        return None
    return Case(text, judge=judge, flags=[('-O0',), ('-O2',)], note='%d+%d objects' % (ng, na))


def k_large(rng, i):
    """Large vectors, written and read completely."""
    g = [1000, 4096, 65536, 1 << 20][i % 4] + rng.randint(-1, 1)
    a = rng.choice([100, 4095, 4096, 4097, 50000, 100000])
    iv = ivals(rng, rng.choice([0, 1, 5, 700]), False)
    text = '''
before 1, 2; big[%d]%s; after 3, 4, 5; small[2];
fill(v, n, s) { auto i; i = 0; while (i < n) { v[i] = i*s + 1; i++; } }
sum(v, n) { auto i, h; i = 0; while (i < n) { h = h*31 + v[i]; ++i; } return (h); }
main() {
    extrn before, big, after, small;
    auto c0, w[%d], c1;
    c0 = 11; c1 = 12;
    ev(2, 1, sum(big, %d));
    fill(w, %d, 7);
    fill(big, %d, 3);
    ev(2, 2, sum(w, %d));
    ev(2, 3, sum(big, %d));
    ev(9, 4, c0, c1, before, (&before)[1], after, (&after)[1], (&after)[2], small[0] + small[1]);
    return (0);
}
''' % (g, ' ' + ', '.join(''.join(Printer().ival(v)) for v in iv) if iv else '', a, max(g, len(iv)), a, max(g, len(iv)),
       a, max(g, len(iv)))
    n = max(g, len(iv))
    init = Interp([('vec', 'x', str(n), iv)]) if iv else None
    h = 0
    vals = []
    for v in iv:
        vals.append(init.ival(v))
    # h*31+v over n words
    def fold(seq):
        h = 0
        for v in seq:
            h = (h * 31 + v) & M64
        return wrap(h)
    h1 = fold(vals + [0] * (n - len(vals)))
    h2 = fold(k * 7 + 1 for k in range(a))
    h3 = fold(k * 3 + 1 for k in range(n))
    return Case(text, ([(1, h1), (2, h2), (3, h3), (4, 11, 12, 1, 2, 3, 4, 5, 0)], 0), note='vectors %d %d' % (g, a), cpu=60)


def k_manywords(rng, i):
    """Scalars with very many values and vectors with many initial values of a size bigger, equal or smaller."""
    cnt = rng.choice([2, 10, 100, 1000, 3000])
    iv = ivals(rng, cnt, False)
    size = rng.choice([None, str(cnt), str(cnt + rng.randint(1, 50)), str(max(1, cnt - 1)), '1', '0'])
    it = Interp([])
    vals = [it.ival(v) for v in iv]
    n = max(cnt, sizeval(size), 1)
    decls = [('scalar', 'pre', []), ('scalar', 's', iv), ('scalar', 'mid', [('num', 7, '7')]),
             ('vec', 'v', size, iv), ('scalar', 'post', [])]
    order = list(decls)
    rng.shuffle(order)
    text = program_text(order, rng, 'plain') + '''
main() {
    extrn s, v; auto i, p;
    p = &s;
    i = 0; while (i < %d) { ev(3, 1, i, p[i]); i++; }
    i = 0; while (i < %d) { ev(3, 2, i, v[i]); i++; }
    extrn pre, mid, post;
    ev(4, 3, pre, mid, post);
    return (0);
}
''' % (cnt, n)
    exp = [(1, k, v) for k, v in enumerate(vals)] + \
        [(2, k, vals[k] if k < cnt else 0) for k in range(n)] + [(3, 0, 7, 0)]
    return Case(text, (exp, 0), note='%d values, size %s' % (cnt, size), cpu=60)


def k_frames(rng, i):
    """Functions with very many variables and vectors among them: all zero at first, all separate, in every activation."""
    text, exp = '', []
    for f in range(2):
        nv = rng.choice([1, 5, 23, 24, 25, 60, 130, 255, 300, 600])
        np = rng.choice([0, 1, 3, 6, 7, 12])
        vs = []                               # (name, words or None)
        for k in range(nv):
            vs.append(('a%d' % k if rng.random() < .9 else 'w%d_' % k,
                       rng.choice([1, 2, 3, 8, 9, 10, 16, 17, 31, 33, 64, 127, 129, 257, 513]) if rng.random() < rng.choice([.02, .1, .3]) else None))
        b, cur = '', []
        cut = rng.choice([0, .1, .9])
        for k, (x, w) in enumerate(vs):
            cur.append(x if w is None else '%s[%d]' % (x, w))
            if rng.random() < cut or k == nv - 1:
                b += '  auto %s;\n' % ', '.join(cur)
                cur = []
                if rng.random() < .1:
                    b += '  if (n < 0) { auto zz%d; zz%d = 1; }\n' % (k, k)
        # scalars are zero
        sc = [x for x, w in vs if w is None]
        for k in range(0, len(sc), 40):
            b += '  ev(%d, 1%s);\n' % (1 + len(sc[k:k + 40]), ''.join(', ' + x for x in sc[k:k + 40]))
        # write all, values depend on the activation
        init, check = '', ''
        for k, (x, w) in enumerate(vs):
            v = 1000 * k + 7
            if w is None:
                init += ' %s = n * 1000000 + %d;' % (x, v)
            else:
                init += ' fill(%s, %d, n * 1000000 + %d);' % (x, w, v)
                check += ' bad =+ wrong(%s, %d, n * 1000000 + %d);' % (x, w, v)
        for k, (x, w) in enumerate(vs):
            if w is None:
                check += ' bad =+ (%s != n * 1000000 + %d);' % (x, 1000 * k + 7)
        for k in range(np - 1):
            check += ' bad =+ (p%d != %d);' % (k, 5 * k + 2)
        ps = (['n'] + ['p%d' % k for k in range(np - 1)]) if np else []
        call = lambda n: 'f%d(%s)' % (f, ', '.join([n] + ['%d' % (5 * k + 2) for k in range(np - 1)]) if np else '')
        if np:
            rec = '  if (n > 0) { dirty(); bad =+ %s; }' % call('n - 1')
            head = ''
        else:
            rec = '  if (--depth >= 0) { dirty(); bad =+ %s; }' % call('')
            head = '  extrn depth; auto n; n = depth;\n'
        text += 'f%d(%s) {\n%s%s  auto bad; bad = 0;\n%s\n%s\n%s\n%s\n  ev(2, 2, n);  return (bad);\n}\n' % (f, ', '.join(ps), head, b, init, check, rec, check)
        d = rng.randint(0, 3)
        text += 't%d() { extrn depth; depth = %d; dirty(); ev(2, 3, %s); }\n' % (f, d, call('%d' % d))
        z = [tuple([1] + [0] * len(sc[k:k + 40])) for k in range(0, len(sc), 40)]
        exp += z * (d + 1) + [(2, k) for k in range(d + 1)] + [(3, 0)]
    text += '''depth;
fill(v, w, x) { auto i; i = 0; while (i < w) { v[i] = x + i; i++; } }
wrong(v, w, x) { auto i, n; i = n = 0; while (i < w) { n =+ v[i] != x + i; i++; } return (n); }
dirty() { auto v[3000], i; i = 0; while (i < 3000) v[i++] = -1; return (v[7]); }
main() { t0(); t1(); return (5); }
'''
    return Case(text, (exp, 5), flags=[('-O0',), rng.choice([('-O1',), ('-O2',), ('-O3',)])], note='frames', cpu=60)


def k_persist(rng, i):
    p = Program(rng, 14, dict(se=0.2, stmts=6, goto=0.02, switch=0.03, edepth=2, ptrs=0.9), nglob=rng.randint(4, 14))
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, note='general program with globals')


def main(tier, seed):
    c = setup('P05', tier, seed, 'exploration',
              'Programs that record every word of globals with random initial values and sizes, write all objects and '
              'record them again; automatic variables on a dirtied stack, redeclared in loops; addresses of all live '
              'objects checked offline for overlap and alignment; large vectors. Distinct and non-trivial: by the event '
              'sequence of a test function.',
              ['the reference interpreter in vf/lang.py', 'string constants are not written to',
               'clang executes LLVM modules correctly'])
    k = 1 if tier == 'quick' else 12
    run_kinds(dict(globals=k_globals, autos=k_autos, disjoint=k_disjoint, large=k_large, frames=k_frames, many=k_manywords,
                   general=k_persist),
              [('globals', 90 * k), ('autos', 40 * k), ('disjoint', 60 * k), ('large', 12 * k), ('frames', 40 * k), ('many', 24 * k),
               ('general', 70 * k)])
    return c.finish('executions', 20)
