"""P06: names and scopes. Oracle: reference interpreter."""
import itertools

from vf.batch import *
from vf.fs import put
from vf.gen import *

LIBRARY = ['printf', 'printd', 'write', 'read', 'char', 'lchar', 'exit', 'nread', 'nwrite', 'flush', 'printo',
           'writeb', 'fout', 'start']


def V(n):
    return ('var', n)


def pool(rng, n):
    """Names that are easily confused."""
    out = set()
    while len(out) < n:
        r = rng.random()
        if r < .35:
            x = rng.choice(Names.ODD)
        elif r < .5:
            b = rng.choice(['x', 'Count', 'value', '_t', 'a1'])
            x = rng.choice([b, b.upper(), b.lower(), b + '_', '_' + b, b + '1', b + '0', b + b, b.swapcase()])
        elif r < .6:
            base = rng.choice('abX_') * rng.choice([7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000])
            x = base + rng.choice(['', 'a', 'b', '1', '_'])
        elif r < .75:
            x = rng.choice(LIBRARY)
        elif r < .85:
            x = rng.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
        else:
            x = rng.choice('abcXYZ_') + ''.join(rng.choice('abcdefXYZ_0189') for _ in range(rng.randint(0, 12)))
        if x not in KEYWORDS and x not in ('ev', 'evend'):
            out.add(x)
    out = sorted(out)
    rng.shuffle(out)
    return out


def k_roles(rng, i):
    names = pool(rng, rng.randint(4, 16))
    kind = {}
    decls = []
    pure = []
    for x in names:
        r = rng.random()
        if x in LIBRARY:
            # a program may define a function or variable of that name when it does not use the library's
            kind[x] = 'none' if r < .6 else rng.choice(['fun', 'var'])
        elif r < .3:
            kind[x] = 'var'
        elif r < .45:
            kind[x] = 'vec'
        elif r < .75:
            kind[x] = 'fun'
        else:
            kind[x] = 'none'
        if x == 'fout' and kind[x] == 'none':
            pass
        v = rng.randint(1, 10 ** 6)
        if kind[x] == 'var':
            decls.append(('scalar', x, [('num', v, str(v))]))
        elif kind[x] == 'vec':
            decls.append(('vec', x, '3', [('num', v + k, str(v + k)) for k in range(rng.choice([0, 3]))]))
        elif kind[x] == 'fun':
            q = rng.choice(names)
            decls.append(('fun', x, [q], ('ret', ('bin', '+', V(q), num(v)))))
    calls = []
    for n in range(rng.randint(3, 9)):
        fname = 'tst%d' % n
        while fname in names:
            fname += '_'
        params, ext, autos, autov, used, callf, free = [], [], [], [], [], [], []
        for x in names:
            r = rng.random()
            if r < .2:
                params.append(x)
            elif r < .45:
                autos.append(x)
            elif r < .55:
                autov.append(x)
            elif r < .85 and kind[x] in ('var', 'vec'):
                ext.append(x)
            elif kind[x] == 'fun':
                callf.append(x)
        b = []
        # an extrn of a name that is a parameter or automatic variable here changes nothing
        hidden = [x for x in params + autos + autov if kind[x] in ('var', 'vec') and rng.random() < .4]
        items = [('extrn', [x]) for x in ext + hidden]
        if len(ext) > 1 and rng.random() < .5:
            items = [('extrn', ext + hidden)]
        if autos:
            items.append(('auto', [(x, None) for x in autos]))
        if autov:
            items.append(('auto', [(x, '2') for x in autov]))
        rng.shuffle(items)
        b += items
        for x in autos:
            b.append(('expr', ('asg', '', V(x), num(rng.randint(1, 999)))))
        for x in autov:
            b += [('expr', ('asg', '', ('idx', V(x), num(j)), num(rng.randint(1, 999)))) for j in range(2)]

        def dump():
            es = [V(x) for x in params + autos] + [('idx', V(x), num(1)) for x in autov]
            es += [V(x) if kind[x] == 'var' else ('idx', V(x), num(2)) for x in ext]
            es += [('call', V(x), [num(rng.randint(0, 9))]) for x in callf]
            return [ev(n, *es[k:k + 30]) for k in range(0, max(1, len(es)), 30)]
        b += dump()
        for x in params + autos + [x for x in ext if kind[x] == 'var']:
            if rng.random() < .6:
                b.append(('expr', ('asg', rng.choice(['', '+']), V(x), num(rng.randint(1, 999)))))
        for x in ext:
            if kind[x] == 'vec':
                b.append(('expr', ('asg', '+', ('idx', V(x), num(2)), num(rng.randint(1, 99)))))
        # labels named like anything
        labels = rng.sample(names, min(3, len(names)))
        for l in labels:
            cnt = rng.choice(params + autos) if params + autos else None
            if cnt:
                b += [('expr', ('asg', '', V(cnt), num(0))), ('label', l, ('expr', ('pre', '++', V(cnt)))), ev(n, V(cnt)),
                      ('if', ('bin', '<', V(cnt), num(2)), ('goto', l), None)]
            else:
                b += [('goto', l), ev(n), ('label', l, ev(n, num(4)))]
        b += dump()
        decls.append(('fun', fname, params, ('block', b + ([('ret', V(rng.choice(params)))] if params else []))))
        calls.append((fname, [rng.randint(0, 99) for _ in params]))
    p = Fixed(rng, decls, calls + calls)
    return Case(p.text(rng.choice(['plain', 'tight', 'wild', 'comment', 'lines'])), p.expect, note='roles of names')


def k_shadow(rng, i):
    """Parameters and variables named like functions (the own one, too) that hold functions, and are called."""
    names = rng.sample(['f', 'g', 'h', 'k', 'apply', 'printf', 'char', 'exit', 'main2', 'loop'], rng.randint(2, 5))
    base = ['b%d' % k for k in range(3)]
    decls = [('fun', b, ['x', 'y'], ('ret', ('bin', '+', ('bin', '*', V('x'), num(k + 2)), ('bin', '+', V('y'), num(100 * k))))) for k, b in enumerate(base)]
    calls = []
    for n, f in enumerate(names):
        for_ = rng.choice(names + [f, f])             # the name that hides a function
        how = rng.choice(['param', 'auto', 'vec', 'param'])
        inner = [ev(n, ('call', V(for_), [V('x'), num(rng.randint(0, 9))]))]
        if how == 'vec':
            inner = [ev(n, ('call', ('idx', V(for_), num(1)), [V('x'), num(3)])), ('expr', ('asg', '', ('idx', V(for_), num(0)), ('idx', V(for_), num(1)))),
                     ev(n, ('call', ('idx', V(for_), num(0)), [num(5), V('x')]))]
        nest = rng.random()
        if nest < .3:
            inner = [('if', ('bin', '<', V('x'), num(10 ** 7)), ('block', inner), None)]
        elif nest < .5:
            inner = [('expr', ('asg', '', V('q'), num(0))), ('while', ('bin', '<', ('post', '++', V('q')), num(2)), ('block', inner))]
        tail = [('expr', ('asg', '', V(for_), V(rng.choice(base)))), ev(n, ('call', V(for_), [num(7), V('x')])),
                ('ret', ('call', V(for_), [V('x'), ('call', V(for_), [num(1), num(2)])]))] if how != 'vec' else \
            [('ret', ('call', ('idx', V(for_), num(1)), [V('x'), ('call', ('idx', V(for_), num(0)), [num(1), num(2)])]))]
        pre = [('auto', [('q', None)])]
        if how == 'auto':
            pre += [('auto', [(for_, None)]), ('expr', ('asg', '', V(for_), V(rng.choice(base))))]
        elif how == 'vec':
            pre += [('auto', [(for_, '2')]), ('expr', ('asg', '', ('idx', V(for_), num(1)), V(rng.choice(base))))]
        decls.append(('fun', f, [for_, 'x'] if how == 'param' else ['x'], ('block', pre + inner + tail)))
        t = 'tst%d' % n
        cb = [ev(n, ('call', V(f), ([V(rng.choice(base))] if how == 'param' else []) + [num(k)])) for k in (1, rng.randint(-9, 9), rng.randint(0, 10 ** 6))]
        if how == 'param' and rng.random() < .5:
            # a function is given itself, by way of a variable
            cb.append(ev(n, ('call', V('twice'), [V(base[n % 3]), num(n)])))
        decls.append(('fun', t, [], ('block', cb)))
        calls.append((t, []))
    # a function that is handed what it calls
    if rng.random() < .5:
        decls.append(('fun', 'twice', ['twice', 'x'], ('ret', ('call', V('twice'), [('call', V('twice'), [V('x'), num(1)]), num(2)]))))
    else:
        decls.append(('fun', 'twice', ['fn', 'x'], ('block', [('auto', [('twice', None)]), ('expr', ('asg', '', V('twice'), V('fn'))),
                                                             ('ret', ('call', V('twice'), [('call', V('twice'), [V('x'), num(1)]), num(2)]))])))
    p = Fixed(rng, decls, calls)
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, note='names that hide functions')


def k_redefine(rng, i):
    """Redefinitions of functions, variables and vectors: the last one counts everywhere."""
    n = rng.randint(1, 6)
    seqs = []
    final = []
    refs = []
    for k in range(n):
        x = 'n%d' % k if rng.random() < .6 else rng.choice(Names.ODD) + '%d' % k
        isfun = rng.random() < .4
        versions = []
        for v in range(rng.choice([1, 2, 2, 3, 5])):
            if isfun:
                a = rng.randint(1, 9999)
                np = rng.choice([0, 1, 1, 2, 3])
                ps = ['a%d' % j for j in range(np)]
                e = num(a)
                for p in ps:
                    e = ('bin', '+', e, V(p))
                versions.append(('fun', x, ps, ('block', [ev(50 + k, num(v)), ('ret', e)])))
            elif rng.random() < .5:
                c = rng.choice([0, 1, 2, 5])
                versions.append(('scalar', x, [('num', 10 * v + j + 1, str(10 * v + j + 1)) for j in range(c)]))
            else:
                s = rng.choice(['0', '1', '2', '5', '30'])
                c = rng.choice([0, 0, 1, 2, 5])
                versions.append(('vec', x, s, [('num', 10 * v + j + 1, str(10 * v + j + 1)) for j in range(c)]))
        seqs.append(versions)
        final.append(versions[-1])
    users = []
    ucalls = []
    for u in range(rng.randint(1, 6)):
        b = []
        k = rng.randrange(n)
        f = final[k]
        x = f[1]
        if f[0] == 'fun':
            c = ('call', V(x), [num(100 * (j + 1)) for j in range(len(f[2]))])
            b += [('auto', [('p', None)]), ev(60, c), ('expr', ('asg', '', V('p'), V(x))),
                  ev(61, ('call', V('p'), c[2]))]
        elif f[0] == 'scalar':
            b += [('extrn', [x]), ev(62, V(x), *[('idx', ('un', '&', V(x)), num(j)) for j in range(len(f[2]))]),
                  ('expr', ('asg', '+', V(x), num(1)))]
        else:
            w = max(1, len(f[3]), sizeval(f[2]))
            b += [('extrn', [x]), ev(63, *[('idx', V(x), num(j)) for j in range(w)]),
                  ('expr', ('asg', '+', ('idx', V(x), num(w - 1)), num(1)))]
        users.append(('fun', 'u%d' % u, [], ('block', b)))
        ucalls.append(('u%d' % u, []))
        if rng.random() < .3:
            ucalls.append(('u%d' % u, []))
    full = Fixed(rng, final + users, ucalls)
    # interleave: the versions of one name keep their order, users come anywhere
    queues = [list(s) for s in seqs] + [[u] for u in users] + [[full.decls[-1]]]
    if rng.random() < .2 and users:
        queues[-2] = [users[-1], users[-1]]         # an identical redefinition of a user
    order = []
    while queues:
        q = rng.choice(queues)
        order.append(q.pop(0))
        queues = [q for q in queues if q]
    return Case(program_text(order, rng, rng.choice(['plain', 'tight', 'wild'])), full.expect, note='redefinitions')


def k_similar(rng, i):
    """Names that differ in one character, in case or in length, as globals, locals and functions."""
    base = rng.choice(['a', 'ab', 'Name', 'long_identifier_name', 'x' * 40, 'y' * 300, '_', 'q_1'])
    variants = {base}
    for k in range(len(base)):
        variants.add(base[:k] + base[k].swapcase() + base[k + 1:])
        variants.add(base[:k] + '_' + base[k:])
        if len(variants) > 30:
            break
    for s in ('0', '1', '_', 'a', 'A', '00', '01', '10', 'data', '_data', '_1', '9'):
        variants.add(base + s)
    variants.add(base * 2)
    vs = sorted(v for v in variants if v not in KEYWORDS and v not in RUNTIME)
    rng.shuffle(vs)
    vs = vs[:24]
    third = len(vs) // 3
    gs, fs, vecs = vs[:third], vs[third:2 * third], vs[2 * third:]
    decls = [('scalar', x, [('num', k + 1, str(k + 1))]) for k, x in enumerate(gs)]
    decls += [('vec', x, '4', []) for x in vecs]
    for k, x in enumerate(fs):
        decls.append(('fun', x, ['a', 'A'], ('ret', ('bin', '+', ('bin', '*', V('a'), num(100)),
                                                    ('bin', '+', V('A'), num(k))))))
    b = [('extrn', gs + vecs)]
    for k, x in enumerate(vecs):
        b.append(('expr', ('asg', '', ('idx', V(x), num(k % 4)), num(50 + k))))
    b.append(ev(1, *[V(x) for x in gs]))
    b.append(ev(2, *[('idx', V(x), num(k % 4)) for k, x in enumerate(vecs)]))
    b.append(ev(3, *[('call', V(x), [num(k), num(3 * k)]) for k, x in enumerate(fs)]))
    f1 = ('fun', 'zz1', [], ('block', b))
    # all of them as locals, parameters and labels
    b = [('auto', [(x, None) for x in vs])]
    b += [('expr', ('asg', '', V(x), num(k + 7))) for k, x in enumerate(vs)]
    ls = list(vs)
    rng.shuffle(ls)
    for a, x in enumerate(ls):
        b.append(('goto', x))
        b.append(ev(8))
        b.append(('label', x, ev(9, num(a))))
    b.append(ev(4, *[V(x) for x in vs]))
    f2 = ('fun', 'zz2', [], ('block', b))
    f3 = ('fun', 'zz3', vs[:12], ('block', [ev(5, *[V(x) for x in vs[:12]])]))
    try:
        p = Fixed(rng, decls + [f1, f2, f3], [('zz1', []), ('zz2', []), ('zz3', list(range(100, 100 + len(vs[:12]))))])
    except Undefined:
        return None
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, note='similar names %r' % base[:20])


def k_scope(rng, i):
    """The same names declared differently in consecutive functions, in every order."""
    decls = [('scalar', 'g', [('num', 5, '5')]), ('scalar', 'h', [('num', 6, '6')]),
             ('vec', 'w', '2', [('num', 8, '8'), ('num', 9, '9')])]
    fs = []
    variants = []
    for x in ('g', 'h', 'w'):
        variants.append([
            [('extrn', [x]), ev(1, V(x) if x != 'w' else ('idx', V(x), num(1)))],
            [('auto', [(x, None)]), ev(2, V(x)), ('expr', ('asg', '', V(x), num(77))), ev(2, V(x))],
            [('auto', [(x, '2')]), ('expr', ('asg', '', ('idx', V(x), num(1)), num(33))), ev(3, ('idx', V(x), num(1)))],
            [('label', x, ev(4))],
            [('goto', x), ev(5), ('label', x, ('null',))],
            # declared extrn, yet a local: any order
            [('auto', [(x, None)]), ('extrn', [x]), ev(7, V(x)), ('expr', ('asg', '', V(x), num(79))), ev(7, V(x))],
            [('extrn', [x]), ('auto', [(x, '2')]), ('expr', ('asg', '', ('idx', V(x), num(1)), num(34))),
             ev(7, ('idx', V(x), num(1)))],
            'param', 'param+', [], []])
    calls = []
    for n in range(20):
        params, b1, b2 = [], [], []
        for x, vs in zip(('g', 'h', 'w'), variants):
            v = rng.choice(vs)
            if v in ('param', 'param+'):
                params.append(x)
                if v == 'param+':
                    b1.append(('extrn', [x]))
                b2.append(ev(6, V(x)))
                b2.append(('expr', ('asg', '+', V(x), num(1))))
                b2.append(ev(6, V(x)))
            else:
                k = 0
                while k < len(v) and v[k][0] in ('extrn', 'auto'):
                    k += 1
                b1 += v[:k]
                b2 += v[k:]
                if k == 1 and v[0][0] == 'extrn' and rng.random() < .5:
                    b2.append(('expr', ('asg', '+', V(x) if x != 'w' else ('idx', V(x), num(1)), num(1))))
        f = ('fun', 's%d' % n, params, ('block', b1 + b2))
        fs.append(f)
        calls.append((f[1], [rng.randint(10, 20) for _ in params]))
    p = Fixed(rng, decls + fs, calls + calls)
    return Case(p.text(rng.choice(['plain', 'tight', 'wild', 'lines'])), p.expect, note='scopes')


def k_declared(rng, i):
    """A function that uses a name it does not declare itself, whatever the others do with that name: (program
    without the declaration, which must be refused, and the case with it)."""
    n = rng.choice([1, 2, 3, 8, 9, 16, 40, 120])
    vs = [x for x in pool(rng, min(n, 60)) if x not in LIBRARY]
    vs += ['v%d' % k for k in range(n - len(vs))]
    kind = {x: rng.choice(['var', 'var', 'vec']) for x in vs}
    val = {x: rng.randint(1, 999) for x in vs}
    decls = [('scalar', x, [num(val[x])]) if kind[x] == 'var' else ('vec', x, '2', [num(val[x]), num(val[x] + 1)])
             for x in vs]
    fs, calls = [], []
    names = set(vs)

    def fname(s):
        while s in names:
            s += '_'
        names.add(s)
        return s
    others = rng.randint(1, 5)
    for k in range(others):
        r = rng.random()
        f = fname('oth%d' % k)
        use = rng.sample(vs, rng.choice([len(vs), rng.randint(1, len(vs))]))
        if r < .6 or len(use) > 100:
            b = [('extrn', use)] if rng.random() < .6 else [('extrn', [x]) for x in use]
            b.append(ev(k, *[V(x) if kind[x] == 'var' else ('idx', V(x), num(1)) for x in use[:20]]))
            fs.append(('fun', f, [], ('block', b)))
            calls.append((f, []))
        elif r < .75:
            fs.append(('fun', f, use[:40], ('block', [ev(k, *[V(x) for x in use[:20]])])))
            calls.append((f, [rng.randint(0, 9) for _ in use[:40]]))
        elif r < .9:
            b = [('auto', [(x, None) for x in use])]
            b += [('expr', ('asg', '', V(x), num(j))) for j, x in enumerate(use)]
            fs.append(('fun', f, [], ('block', b + [ev(k, *[V(x) for x in use[:20]])])))
            calls.append((f, []))
        else:
            fs.append(('fun', f, [], ('block', [('label', x, ev(k)) for x in use])))
            calls.append((f, []))
    bad = rng.choice(vs)
    x = V(bad)
    at = ('idx', x, num(rng.randint(0, 1)))
    b = []
    if kind[bad] == 'var':
        b.append(rng.choice([ev(77, x), ('expr', ('asg', rng.choice(['', '+', '&']), x, num(5))), ('expr', ('pre', '++', x)),
                             ('expr', ('post', '--', x)), ev(77, ('un', '*', ('un', '&', x))), ('ret', x),
                             ('if', x, ev(77), None), ev(77, ('idx', ('un', '&', x), num(0))),
                             ev(77, ('call', V('ident'), [x])), ev(77, ('un', '-', x)),
                             ('switch', x, ('block', [('case', str(val[bad]), val[bad], ev(77, num(1)))]))]))
    else:
        b.append(rng.choice([ev(77, at), ('expr', ('asg', '', at, num(5))), ('expr', ('pre', '++', at)), ev(77, ('un', '*', x)),
                             ev(77, ('idx', ('un', '&', at), num(0))), ('expr', ('asg', '+', ('un', '*', x), num(4)))]))
    if 'ident' in names:
        return None
    fs.append(('fun', 'ident', ['a'], ('ret', V('a'))))
    own = [y for y in rng.sample(vs, rng.randint(0, min(10, len(vs)))) if y != bad]
    ext = [('extrn', own)] if own else []
    tail = [ev(78, *[V(y) if kind[y] == 'var' else ('idx', V(y), num(0)) for y in own])]
    last = [bad]
    rng.shuffle(last)
    user = fname('user')
    wrong = ('fun', user, [], ('block', ext + b + tail))
    if rng.random() < .3:                               # a label of that name declares nothing
        wrong = ('fun', user, [], ('block', ext + [('label', bad, ev(79))] + b + tail))
    good = ('fun', user, [], ('block', rng.choice([[('extrn', own + [bad])], ext + [('extrn', [bad])]]) + b + tail))
    layout = rng.choice(['plain', 'tight', 'lines'])
    order = list(range(len(decls) + len(fs) + 1))
    rng.shuffle(order)
    if rng.random() < .5:
        order.sort()
    calls = [(f, a) for f, a in calls] + [(user, [])]
    pg = Fixed(rng, decls + fs + [good], calls)
    main = pg.decls[-1]
    g2, w2 = decls + fs + [good], decls + fs + [wrong]
    return (program_text([w2[k] for k in order] + [main], rng, layout),
            Case(program_text([g2[k] for k in order] + [main], rng, layout), pg.expect, flags=[('-O1',)],
                 note='declared in the function itself'), bad)


def refused_task(spec):
    i = spec
    o = Outcome()
    made = k_declared(G.check.rng('declared', i), i)
    if made is None:
        o.stats['cases_discarded'] += 1
        return o
    wrong, good, bad = made
    name = 'declared%d' % i
    o.stats['cases'] += 1
    o.stats['kind_declared'] += 1
    if not run_case(good, name, o):
        return o
    d = workdir(name)
    try:
        put(os.path.join(d, 'p.b'), wrong.encode('latin-1'))
        r = compile_b(G.tc, d, ['p.b'], 'p.o', ['-c'], link=False)
        o.stats['compilations'] += 1
        left = sorted(os.listdir(d))
        if r.rc != 1 or b'blang: error: ' not in r.err or left != ['p.b']:
            o.violate(name + ':undeclared', '%s: a function that uses %r without declaring it, though other functions do, was '
                      'not refused: %s, files %r' % (name, bad[:40], r.describe(), left), {'p.b': wrong.encode('latin-1')})
            return o
        o.stats['programs_refused'] += 1
        o.seen.add(digest(('declared', r.err, len(wrong))))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


def k_general(rng, i):
    p = Program(rng, 14, dict(stmts=6, edepth=2), odd=0.8)
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, note='general program, odd names')


def main(tier, seed):
    c = setup('P06', tier, seed, 'exploration',
              'Programs in which confusable names (library, LLVM, register and keyword lookalikes, names up to 2000 '
              'characters, one-character variants) take the roles of global, vector, function, parameter, automatic and '
              'label, differently in each function, with redefinitions. Distinct and non-trivial: by the event sequence '
              'of a test function.',
              ['the reference interpreter in vf/lang.py',
               'a program that defines a library name does not also use the library member that defines it'])
    k = 1 if tier == 'quick' else 12
    run_kinds(dict(roles=k_roles, redef=k_redefine, similar=k_similar, shadow=k_shadow, scope=k_scope, general=k_general),
              [('roles', 150 * k), ('redef', 120 * k), ('similar', 30 * k), ('shadow', 60 * k), ('scope', 40 * k), ('general', 50 * k)])
    c.run_tasks(refused_task, range(200 * k))
    return c.finish('executions', 20)
