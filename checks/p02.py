"""P02: assignments and increments. Oracle: reference interpreter; every word of storage is dumped after each step."""
from vf.batch import *
from vf.gen import *

BIN = ['+', '-', '*', '/', '%', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '&', '|']

GLOBALS = [('scalar', 'g0', [('num', 11, '11')]), ('scalar', 'g1', []),
           ('vec', 'gv', '6', [('num', 5 + 2 * k, str(5 + 2 * k)) for k in range(6)]),
           ('vec', 'gz', '5', []),
           ('scalar', 'gm', [('num', 100 + k, str(100 + k)) for k in range(4)])]


def V(n):
    return ('var', n)


def setup_body(rng):
    """auto variables with pointers to everything."""
    b = [('extrn', ['g0', 'g1', 'gv', 'gz', 'gm']),
         ('auto', [('c0', None), ('x', None), ('c1', None), ('av', '5'), ('c2', None), ('p', None), ('q', None),
                   ('r', None), ('i', None)])]
    for n, v in (('c0', 771), ('x', 9), ('c1', 772), ('c2', 773), ('i', 2)):
        b.append(('expr', ('asg', '', V(n), num(v))))
    for k in range(5):
        b.append(('expr', ('asg', '', ('idx', V('av'), num(k)), num(20 + k))))
    b.append(('expr', ('asg', '', V('p'), V('gv'))))
    b.append(('expr', ('asg', '', V('q'), ('un', '&', ('idx', V('av'), num(1))))))
    b.append(('expr', ('asg', '', V('r'), ('un', '&', V('x')))))
    return b


def dump(tag):
    """Record every word the function can reach."""
    return [ev(tag, V('c0'), V('x'), V('c1'), V('c2'), V('i'), V('g0'), V('g1'), V('a'), V('b'),
               *[('idx', V('av'), num(k)) for k in range(5)]),
            ev(tag, *[('idx', V('gv'), num(k)) for k in range(6)], *[('idx', V('gz'), num(k)) for k in range(5)],
               *[('idx', ('un', '&', V('gm')), num(k)) for k in range(4)]),
            ev(tag, ('bin', '==', V('p'), V('gv')), ('bin', '==', V('q'), ('un', '&', ('idx', V('av'), num(1)))),
               ('bin', '==', V('r'), ('un', '&', V('x'))))]


def lvalues():
    """Left operands of every form; none of their evaluations has an effect."""
    return [
        ('local', V('x')), ('param', V('a')), ('param2', V('b')), ('global', V('g0')), ('global0', V('g1')),
        ('gvec0', ('idx', V('gv'), num(0))), ('gvec', ('idx', V('gv'), num(3))), ('gvecv', ('idx', V('gv'), V('i'))),
        ('gz', ('idx', V('gz'), num(4))), ('avec', ('idx', V('av'), num(0))),
        ('avecv', ('idx', V('av'), ('bin', '+', V('i'), num(2)))),
        ('ptr', ('un', '*', V('p'))), ('ptrloc', ('un', '*', V('r'))), ('ptridx', ('idx', V('q'), num(1))),
        ('ptrneg', ('idx', V('q'), ('un', '-', num(1)))),
        ('ptrexpr', ('un', '*', ('bin', '+', V('p'), num(16)))),
        ('addr', ('un', '*', ('un', '&', V('x')))), ('addrg', ('un', '*', ('un', '&', V('g0')))),
        ('addridx', ('idx', ('un', '&', V('gm')), num(2))),
        ('addrel', ('un', '*', ('un', '&', ('idx', V('gv'), num(5))))),
        ('idxpar', ('idx', ('par', V('gv')), num(1))),
        ('idxadd', ('idx', ('par', ('bin', '+', V('gv'), num(8))), num(1))),
    ]


def operand(rng, op):
    if op in ('<<', '>>'):
        return rng.choice([0, 1, 2, 31, 32, 63, rng.randrange(64)])
    if op in ('/', '%'):
        v = word(rng)
        return v if v not in (0, -1) else 7
    return word(rng)


def k_forms(rng, i):
    """Every assignment operator on every kind of left operand, with full dumps."""
    ops = [''] + BIN + ['pre++', 'pre--', 'post++', 'post--']
    out = []
    lvs = lvalues()
    decls, calls = list(GLOBALS), []
    decls.append(('fun', 'reset', [], ('block', [
        ('extrn', ['g0', 'g1', 'gv', 'gz', 'gm']),
        ('expr', ('asg', '', V('g0'), num(11))), ('expr', ('asg', '', V('g1'), num(0)))] +
        [('expr', ('asg', '', ('idx', V('gv'), num(k)), num(5 + 2 * k))) for k in range(6)] +
        [('expr', ('asg', '', ('idx', V('gz'), num(k)), num(0))) for k in range(5)] +
        [('expr', ('asg', '', ('idx', ('un', '&', V('gm')), num(k)), num(100 + k))) for k in range(4)])))
    todo = [(o, l) for o in ops for l in lvs][i % 8::8]
    for n, (op, (lname, lv)) in enumerate(todo):
        name = 'f%d' % n
        body = [('expr', ('call', V('reset'), []))] + setup_body(rng)
        if op.startswith('pre'):
            e = ('pre', op[3:], lv)
        elif op.startswith('post'):
            if lv[0] not in ('var', 'idx'):
                continue
            e = ('post', op[4:], lv)
        else:
            pre = word(rng)
            if op in ('/', '%') and pre == MIN:
                pre = 77
            body.append(('expr', ('asg', '', lv, neg(pre, rng))))
            v = operand(rng, op)
            r = rng.random()
            rhs = neg(v, rng)
            if r < .3:
                body.append(('expr', ('asg', '', V('c0'), neg(v))))
                rhs = V('c0')
            elif r < .45:
                rhs = ('par', neg(v))
            elif r < .6:
                rhs = ('bin', '+', neg(wrap(v - 3)), num(3))
            e = ('asg', op, lv, rhs)
        use = rng.randrange(5)
        if use == 0:
            body.append(('expr', e))
        elif use == 1:
            body.append(ev(500, e))
        elif use == 2:
            body.append(('expr', ('asg', '', V('c1'), e)))
        elif use == 3:
            body.append(('if', e, ev(501), ev(502)))
        else:
            body.append(('expr', ('asg', '-', V('c2'), ('bin', '*', ('par', e), num(3)))))
        body += dump(n)
        body.append(('ret', V('x')))
        decls.append(('fun', name, ['a', 'b'], ('block', body)))
        calls.append((name, [word(rng), word(rng)]))
    ok = []
    for cl in calls:
        d = next(x for x in decls if x[1] == cl[0])
        if reference(GLOBALS + [decls[len(GLOBALS)], d], cl[0], cl[1]) is not None:
            ok.append(cl)
    used = {c[0] for c in ok} | {'reset'}
    p = Fixed(rng, [d for d in decls if d[0] != 'fun' or d[1] in used], ok)
    out.append(Case(p.text(rng.choice(['plain', 'tight'])), p.expect, flags=[('-O0',), ('-O%d' % (1 + i % 3),)],
                    note='assignment forms'))
    return out


def k_once(rng, i):
    """Operands with side effects of their own are evaluated exactly once."""
    E = ('fun', 'e', ['id', 'v'], ('block', [ev(7, V('id'), V('v')), ('ret', V('v'))]))
    addr = ('fun', 'adr', ['id', 'k'], ('block', [('extrn', ['gv']), ev(8, V('id'), V('k')),
                                                  ('ret', ('un', '&', ('idx', V('gv'), V('k'))))]))
    decls = list(GLOBALS) + [E, addr]
    base = list(decls)
    calls = []
    for n in range(24):
        body = setup_body(rng)
        cnt = 0
        for m in range(rng.randint(1, 5)):
            op = rng.choice([''] * 3 + BIN)
            cnt += 1
            k = rng.randrange(5)
            # a left operand with an effect, or a right operand with one
            left = rng.choice([
                ('idx', V('gv'), ('call', V('e'), [num(cnt), num(k)])),
                ('un', '*', ('call', V('adr'), [num(cnt), num(k)])),
                ('idx', ('call', V('adr'), [num(cnt), num(0)]), num(k)),
                ('idx', V('av'), ('post', '++', V('i'))), ('idx', V('av'), ('pre', '--', V('i'))),
                ('idx', V('gv'), ('asg', '', V('i'), num(k))),
                ('idx', V('gv'), ('asg', '+', V('i'), num(1))),
            ])
            rv = operand(rng, op) if op not in ('/', '%') else rng.choice([2, 3, -5, 1000])
            if rng.random() < .5:
                e = ('asg', op, left, neg(rv))
            else:
                lv = rng.choice([V('x'), V('g0'), ('idx', V('gv'), num(k)), ('un', '*', V('r')), V('a')])
                right = ('call', V('e'), [num(100 + cnt), neg(rv)])
                if op == '' and rng.random() < .5:
                    right = rng.choice([('post', '++', V('i')), ('pre', '--', V('c1')),
                                        ('asg', '', V('c2'), right), ('asg', '+', V('c2'), right),
                                        ('asg', '', left, right) if left[0] == 'idx' and left[2][0] != 'call' else right])
                e = ('asg', op, lv, right)
            r = rng.random()
            if r < .2:
                e = (rng.choice(['pre', 'post']), rng.choice(['++', '--']), left)
                if e[0] == 'post' and left[0] != 'idx':
                    e = ('pre', '++', left)
            if r < .3:
                body.append(('expr', e))
            elif r < .8:
                body.append(ev(20 + m, e))
            else:
                body.append(('expr', ('asg', '', V('c0'), e)))
            # back into range
            body.append(('expr', ('asg', '', V('i'), num(rng.randint(1, 3)))))
        body += dump(n)
        d = ('fun', 'f%d' % n, ['a', 'b'], ('block', body))
        args = [word(rng), word(rng)]
        if reference(base + [d], d[1], args) is not None:
            decls.append(d)
            calls.append((d[1], args))
    while calls:
        try:
            p = Fixed(rng, decls, calls)
            break
        except Undefined:
            calls.pop()
    else:
        return None
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, note='operands evaluated once')


def k_chain(rng, i):
    """Right-associative chains over mixed operators and left operands."""
    decls = list(GLOBALS)
    base = list(decls)
    calls = []
    for n in range(24):
        body = setup_body(rng)
        for m in range(rng.randint(1, 4)):
            e = neg(word(rng)) if rng.random() < .5 else rng.choice([V('a'), ('bin', '+', V('b'), num(1)),
                                                                    ('cond', V('a'), V('b'), num(4))])
            lvs = rng.sample([l for _, l in lvalues()], min(rng.choice([1, 2, 3, 5, 9]), 9))
            for lv in lvs:
                op = rng.choice(['', '', '', '+', '-', '*', '|', '&', '<', '>=', '==', '!=', '<=', '>'])
                if rng.random() < .15:
                    e = ('par', e)
                if rng.random() < .1:
                    e = ('bin', rng.choice('+-*'), num(rng.randint(1, 5)), ('par', e))
                if rng.random() < .08:
                    e = ('cond', V('c0'), e, num(1)) if rng.random() < .5 else ('cond', V('g1'), num(3), ('par', e))
                e = ('asg', op, lv, e)
            body.append(ev(m, e) if rng.random() < .5 else ('expr', e))
        body += dump(n)
        d = ('fun', 'f%d' % n, ['a', 'b'], ('block', body))
        args = [word(rng), word(rng)]
        if reference(base + [d], d[1], args) is not None:
            decls.append(d)
            calls.append((d[1], args))
    while calls:
        try:
            p = Fixed(rng, decls, calls)
            break
        except Undefined:
            calls.pop()
    else:
        return None
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, note='assignment chains')


SPECIAL = [0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 1000, 1023, 1024, 4096,
           65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 62, MAX - 1, MAX,
           MIN, MIN + 1, -1, -2, -3, -4, -8, -16, -256, -(1 << 31), -(1 << 31) - 1, -(1 << 32)]


def k_const(rng, i):
    """Compound assignments with special constants and with the operand itself."""
    decls, calls = list(GLOBALS), []
    lvs = [V('x'), V('a'), V('g0'), ('idx', V('gv'), num(2)), ('un', '*', V('p')), ('idx', V('av'), V('k')),
           ('idx', V('p'), num(1)), ('un', '*', ('un', '&', V('x')))]
    head = [('extrn', ['g0', 'gv']), ('auto', [('x', None), ('av', '3'), ('k', None), ('p', None), ('y', None)])]
    work = [(op, cs) for op in BIN for cs in (SPECIAL[k::4] for k in range(4))]
    base = list(decls)
    for n, (op, cs) in enumerate(work[i % 6::6]):
        cs = [c for c in cs if (op not in ('<<', '>>') or 0 <= c < 64) and (op not in '/%' or c)] or [1]
        lv = lvs[(n + i) % len(lvs)]
        body = list(head) + [('expr', ('asg', '', V('p'), V('av')))]
        es = []
        for c in cs:
            lit = num(c & M64) if rng.random() < .7 else neg(c)
            body.append(('expr', ('asg', '', lv, V('b'))))
            r = rng.random()
            if r < .5:
                body.append(('expr', ('asg', op, lv, lit)))
                body.append(ev(n, lv))
            elif r < .8:
                body.append(ev(n, ('asg', op, lv, lit)))
                body.append(ev(n, lv))
            else:
                # the same in two other ways
                body.append(('expr', ('asg', '', V('y'), lv)))
                body.append(('expr', ('asg', op, V('y'), lit)))
                body.append(('expr', ('asg', '', lv, ('bin', op, lv, lit))))
                body.append(ev(n, V('y'), lv))
        if op not in ('<<', '>>', '/', '%'):
            body += [('expr', ('asg', '', lv, V('b'))), ev(n, ('asg', op, lv, lv)), ev(n, lv)]
        body += [('expr', ('asg', '', lv, V('b'))), ev(n, ('asg', '', lv, lv)), ev(n, lv)]
        name = 'k%d' % n
        d = ('fun', name, ['a', 'b'], ('block', body))
        vs = {0, 1, -1, -7, 7, MIN, MAX}
        for _ in range(14):
            c = rng.choice(cs)
            vs.add(wrap(rng.choice([c, c + 1, c - 1, -c, -c - 1, 3 * c, word(rng), word(rng)])))
        ok = 0
        for v in sorted(vs):
            if reference(base + [d], name, [0, v]) is not None:
                calls.append((name, [0, v]))
                ok += 1
        if ok:
            decls.append(d)
    p = Fixed(rng, decls, calls[:980])
    return Case(p.text(rng.choice(['plain', 'tight'])), p.expect, flags=[('-O%d' % (i % 4),)],
                note='compound assignments with constants')


def k_index(rng, i):
    """An element is designated by base and index together, however large or negative the index is."""
    decls = list(GLOBALS)
    base = list(decls)
    calls = []
    C = [0, 1, 2, 5, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 28), (1 << 29), (1 << 31) - 1, 1 << 31,
         (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 3, 1 << 40, 1 << 60, (1 << 61) - 1, 1 << 61, MAX, MIN, -1, -2,
         -3, -128, -(1 << 31), -(1 << 31) - 1, -(1 << 32), -(1 << 61)]
    for n in range(40):
        body = [('extrn', ['gv', 'gz']), ('auto', [('av', '5'), ('p', None), ('i', None), ('y', None)])]
        for k in range(5):
            body.append(('expr', ('asg', '', ('idx', V('av'), num(k)), num(20 + k))))
        vec, size = rng.choice([('gv', 6), ('gz', 5), ('av', 5)])
        for m in range(6):
            c = wrap(rng.choice(C) + rng.choice([0, 0, 1, -1, rng.getrandbits(20)]))
            k = rng.randrange(size)
            # p[c] is vec[k]
            body.append(('expr', ('asg', '', V('p'), ('bin', '+', V(vec), neg(wrap(8 * (k - c)), rng)))
                         if rng.random() < .5 else
                         ('asg', '', V('p'), ('bin', '-', ('un', '&', ('idx', V(vec), num(k))), neg(wrap(8 * c), rng)))))
            lit = neg(c, rng)
            form = rng.randrange(5)
            if form == 0:
                body.append(('expr', ('asg', '', V('i'), lit)))
                ix = V('i')
            elif form == 1:
                ix = ('bin', '+', neg(wrap(c - 7), rng), num(7))
            elif form == 2:
                body.append(('expr', ('asg', '', V('i'), neg(wrap(c + 1), rng))))
                ix = ('bin', '-', V('i'), num(1))
            else:
                ix = lit
            lv = ('idx', V('p'), ix)
            if rng.random() < .15:
                lv = ('un', '*', ('un', '&', lv))
            r = rng.randrange(5)
            if r == 0:
                body.append(ev(m, lv))
            elif r == 1:
                body.append(('expr', ('asg', '', lv, neg(word(rng), rng))))
            elif r == 2:
                body.append(ev(m, ('asg', rng.choice(['+', '-', '*', '|', '<']), lv, num(rng.randrange(9)))))
            elif r == 3 and lv[0] == 'idx':
                body.append(ev(m, ('post', rng.choice(['++', '--']), lv)))
            else:
                body.append(ev(m, ('pre', rng.choice(['++', '--']), lv)))
            body.append(ev(m, *[('idx', V('gv'), num(q)) for q in range(6)], *[('idx', V('gz'), num(q)) for q in range(5)],
                           *[('idx', V('av'), num(q)) for q in range(5)]))
        d = ('fun', 'f%d' % n, [], ('block', body))
        if reference(base + [d], d[1], []) is not None:
            decls.append(d)
            calls.append((d[1], []))
    p = Fixed(rng, decls, calls)
    return Case(p.text(rng.choice(['plain', 'tight'])), p.expect, flags=[('-O%d' % (i % 4),)], note='large indexes')


def k_alias(rng, i):
    """Words that hold addresses of each other, and of themselves. What is recorded are differences to the
    address of the object a word points into, which the reference interpreter knows."""
    decls = list(GLOBALS)
    calls = []
    names = ['p', 'q', 'r', 's']
    OBJ = [V(n) for n in names] + [('idx', V('av'), num(k)) for k in range(4)] + \
        [('idx', V('gv'), num(k)) for k in range(4)] + [V('g0')]
    for n in range(30):
        env = Env()
        it = Interp(GLOBALS, 'ltr', 20000)
        its = [(it, env)] + [(Interp(GLOBALS, o, 20000), Env()) for o in ORDERS[1:]]
        body = []

        def step(s):
            """run a statement; None if it is undefined, else the statement"""
            for I, E in its:
                I.exec(flatten(s), E)
            body.append(s)

        def addr(o):
            return it.lv(o, env)

        def observe(o):
            v = it.mem[addr(o)]
            if v is None:
                return num(0)
            best = min(OBJ + [V('av')], key=lambda q: abs(addr(q) - v))
            if abs(addr(best) - v) < 4096:
                return ('bin', '-', o, ('un', '&', best))
            return o
        for s in (('extrn', ['g0', 'gv']), ('auto', [(x, None) for x in names] + [('av', '4')])):
            step(s)
        for o in OBJ:
            if o[0] == 'idx' or rng.random() < .8:
                step(('expr', ('asg', '', o, ('un', '&', rng.choice(OBJ)))))

        def deref(o):
            r = rng.random()
            if r < .5:
                return ('un', '*', o)
            if r < .8:
                return ('idx', o, num(0))
            if r < .9:
                return ('idx', o, num(rng.randrange(3)))
            return ('un', '*', ('un', '*', o))

        def val():
            r = rng.random()
            if r < .25:
                return ('un', '&', rng.choice(OBJ))
            if r < .5:
                return rng.choice(OBJ)
            if r < .7:
                return deref(rng.choice(OBJ))
            if r < .8:
                return ('bin', rng.choice('+-'), rng.choice(OBJ), num(8 * rng.randrange(3)))
            if r < .9:
                o = rng.choice(OBJ)
                if it.mem[addr(o)] in [addr(x) for x in OBJ]:
                    return ('bin', '==', o, ('un', '&', rng.choice(OBJ)))
            return num(rng.randrange(9))
        tries = 0
        made = 0
        while made < 12 and tries < 80:
            tries += 1
            lv = rng.choice(OBJ) if rng.random() < .35 else deref(rng.choice(OBJ))
            r = rng.random()
            if r < .3:
                e = ('pre', rng.choice(['++', '--']), lv)
            elif r < .45 and lv[0] != 'un':
                e = ('post', rng.choice(['++', '--']), lv)
            elif r < .6:
                e = ('asg', rng.choice('+-'), lv, num(8 * rng.randrange(3)))
            else:
                e = ('asg', '', lv, val())
            if rng.random() < .6:
                e = ('asg', '', rng.choice(OBJ), e)
            s = ('expr', e)
            save = [(dict(I.mem), list(I.trace)) for I, _ in its]
            try:
                step(s)
            except (Undefined, TooLong):
                for (I, _), (m, tr) in zip(its, save):
                    I.mem, I.trace = m, tr
                continue
            # the orders must agree; they have the same addresses
            if any(I.mem[addr(o)] != it.mem[addr(o)] for I, _ in its for o in OBJ):
                for (I, _), (m, tr) in zip(its, save):
                    I.mem, I.trace = m, tr
                body.pop()
                continue
            made += 1
            try:
                body.append(ev(made, *[observe(o) for o in OBJ]))
            except Undefined:
                break
        d = ('fun', 'f%d' % n, [], ('block', body))
        # the next function starts from the initial values
        d[3][1].extend([('expr', ('asg', '', V('g0'), num(11)))] +
                       [('expr', ('asg', '', ('idx', V('gv'), num(k)), num(5 + 2 * k))) for k in range(6)])
        if reference(GLOBALS + [d], d[1], []) is not None:
            decls.append(d)
            calls.append((d[1], []))
    p = Fixed(rng, decls, calls)
    return Case(p.text(rng.choice(['plain', 'tight'])), p.expect, note='words pointing to each other')


def k_general(rng, i):
    p = Program(rng, 12, dict(se=0.3, edepth=3, stmts=10, goto=0.03, switch=0.05, ptrs=0.8))
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, note='general program')


def main(tier, seed):
    c = setup('P02', tier, seed, 'exploration',
              'Every assignment operator and increment on 22 forms of left operand with all reachable words dumped '
              'afterwards, operands with recorded side effects, chains, and whole programs rich in side effects. A test '
              'function counts as distinct and non-trivial by the event sequence it produced.',
              ['the reference interpreter in vf/lang.py', 'programs whose result depends on the order of evaluation '
               'of unsequenced operands are discarded', 'clang executes LLVM modules correctly'])
    k = 1 if tier == 'quick' else 12
    run_kinds(dict(const=k_const, index=k_index, alias=k_alias, forms=k_forms, once=k_once, chain=k_chain, general=k_general),
              [('forms', 24 * k), ('const', 12 * k), ('index', 8 * k), ('alias', 20 * k), ('once', 70 * k), ('chain', 50 * k), ('general', 130 * k)])
    return c.finish('executions', 20)
