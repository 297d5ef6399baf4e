"""P01: expression values. Oracle: reference interpreter over event logs."""
from vf.batch import *
from vf.gen import *

BIN = ['+', '-', '*', '/', '%', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '&', '|']
SAFE = ['+', '-', '*', '<', '<=', '>', '>=', '==', '!=', '&', '|']


def vals(rng, n):
    base = [0, 1, -1, 2, -2, 3, -3, 7, -8, 10, 63, 64, 255, -256, 65535, (1 << 31) - 1, 1 << 31, -(1 << 31),
            -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, -(1 << 32), (1 << 53) + 1, 1 << 62, -(1 << 62), MAX, MAX - 1, MIN,
            MIN + 1]
    out = list(base)
    while len(out) < n:
        out.append(word(rng))
    return out


def k_ops(rng, i):
    """All operators on pairs of edge words, in variable and constant form."""
    A, B = ('var', 'a'), ('var', 'b')
    decls = [
        ('fun', 'safe', ['a', 'b'], ev(1, A, B, *[('bin', op, A, B) for op in SAFE])),
        ('fun', 'un', ['a'], ev(2, A, ('un', '-', A), ('un', '!', A), ('un', '-', ('un', '-', A)),
                                ('un', '!', ('un', '!', A)), ('un', '!', ('un', '-', A)))),
        ('fun', 'div', ['a', 'b'], ev(3, A, B, ('bin', '/', A, B), ('bin', '%', A, B))),
        ('fun', 'shift', ['a', 'b'], ev(4, A, B, ('bin', '<<', A, B), ('bin', '>>', A, B))),
        ('fun', 'sel', ['a', 'b'], ev(5, ('cond', A, B, ('un', '-', B)), ('cond', ('un', '!', A), A, B),
                                      ('cond', ('bin', '<', A, B), A, B))),
    ]
    calls = []
    vs = vals(rng, 34)
    rng.shuffle(vs)
    for a in vs[:]:
        calls.append(('un', [a]))
        for b in rng.sample(vs, 8):
            calls.append(('safe', [a, b]))
            if rng.random() < .5:
                calls.append(('safe', [a, a]))
            if b != 0 and not (a == MIN and b == -1):
                calls.append(('div', [a, b]))
            calls.append(('shift', [a, rng.choice([0, 1, 2, 31, 32, 33, 62, 63, rng.randrange(64)])]))
            calls.append(('sel', [a, b]))
    # operators on constants, and on one constant and one variable
    body = []
    for _ in range(120):
        op = rng.choice(BIN)
        a, b = rng.choice(vs), rng.choice(vs)
        if op in ('<<', '>>'):
            b = rng.randrange(64)
        if op in ('/', '%') and (b == 0 or (a == MIN and b == -1)):
            continue
        form = rng.randrange(3)
        if form == 0:
            body.append(ev(10, neg(a), neg(b), ('bin', op, neg(a, rng), neg(b, rng))))
        else:
            body.append(('expr', ('asg', '', ('var', 'x'), neg(a))))
            body.append(('expr', ('asg', '', ('var', 'y'), neg(b))))
            body.append(ev(11, ('bin', op, ('var', 'x') if form == 1 else neg(a, rng),
                                ('var', 'y') if form == 2 else neg(b, rng))))
    decls.append(('fun', 'consts', [], ('block', [('auto', [('x', None), ('y', None)])] + body)))
    calls.append(('consts', []))
    p = Fixed(rng, decls, calls[:990], one_order=True)
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, note='operators on edge words')


def distinguishing(rng, items, env):
    """Fill in operand values for a flat operand/operator list, defined under the right tree."""
    for _ in range(30):
        vs = []
        for k in range(0, len(items), 2):
            prev = items[k - 1] if k else None
            if prev in ('<<', '>>'):
                v = rng.choice([1, 2, 3, 5, 33])
            else:
                v = rng.choice([rng.randint(1, 9), rng.randint(-9, -1), rng.randint(2, 60), 0,
                                rng.getrandbits(40), -rng.getrandbits(40)])
            vs.append(v)
        e = climb([('num', vs[k // 2], '') if k % 2 == 0 else items[k] for k in range(len(items))])
        try:
            Interp([], 'ltr', 1000).ev(e, None)
        except Undefined:
            continue
        return vs
    return None


ALLTRIPLES = [(a, b, c) for a in BIN for b in BIN for c in BIN]


def k_prec(rng, i):
    """Every pair and triple of operators without parentheses."""
    decls, calls = [], []
    for n, ops in enumerate(ALLTRIPLES[i::12]):
        items = [('var', 'a'), ops[0], ('var', 'b'), ops[1], ('var', 'c'), ops[2], ('var', 'd')]
        exprs, n_ok = [], 0
        name = 't%d' % n
        e3 = climb(items)
        e2 = climb(items[:5])
        decls.append(('fun', name, ['a', 'b', 'c', 'd'], ev(n, e3)))
        decls.append(('fun', name + 'p', ['a', 'b', 'c'], ev(n, e2)))
        for _ in range(2):
            v = distinguishing(rng, items, None)
            if v:
                calls.append((name, v))
        v = distinguishing(rng, items[:5], None)
        if v:
            calls.append((name + 'p', v))
    out = []
    for k in range(0, len(calls), 900):
        part = calls[k:k + 900]
        used = {c[0] for c in part}
        p = Fixed(rng, [d for d in decls if d[1] in used], part, one_order=True)
        out.append(Case(p.text(rng.choice(['plain', 'tight'])), p.expect, flags=[('-O%d' % (i % 4),)],
                        note='operator pairs and triples'))
    return out


def ctx_with(names):
    c = Ctx()
    c.rd = list(names)
    return c


CONSTS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257,
          1000, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 1000000, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32,
          (1 << 32) + 1, 1 << 40, (1 << 53) + 1, 1 << 62, MAX - 1, MAX, MIN, MIN + 1, -1, -2, -3, -4, -5, -8, -16,
          -128, -256, -(1 << 31), -(1 << 31) - 1, -(1 << 32)]


def k_const(rng, i):
    """Every operator with every special constant on either side, near the constant and at the edges."""
    A = ('var', 'a')
    decls, calls = [], []
    work = [(op, cs) for op in BIN for cs in (CONSTS[k::4] for k in range(4))]
    for n, (op, cs) in enumerate(work[i::6]):
        cs = [c for c in cs if op not in ('<<', '>>') or 0 <= c < 64] or [0]
        es = [('bin', op, A, neg(c, rng)) for c in cs]
        fs = [('bin', op, neg(c, rng), A) for c in cs]
        # a literal, not the negation of one
        es += [('bin', op, A, num(c & M64)) for c in cs if c < 0]
        fs += [('bin', op, num(c & M64), A) for c in cs if c < 0]
        for part, ex in enumerate((es, fs)):
            vs = {0, 1, -1, MIN, MAX}
            for _ in range(30):
                c = rng.choice(cs)
                vs.add(wrap(rng.choice([c, c + 1, c - 1, -c, -c - 1, 2 * c, 3 * c + 1, word(rng), rng.randint(-99, 99)])))
            if op in ('<<', '>>') and part:
                vs = {0, 1, 2, 31, 32, 33, 62, 63, rng.randrange(64)}
            groups = [ex]
            if op in '/%':
                # the undefined cases: division by zero, MIN / -1
                groups = [[e for e in ex if e[3][0] != 'num' or e[3][1] != 0]] if part == 0 else [ex]
            for e in groups:
                name = 'k%d_%d' % (n, part)
                d = ('fun', name, ['a'], ev(n, *e))
                ok = 0
                for v in sorted(vs):
                    if reference([d], name, [v]) is not None:
                        calls.append((name, [v]))
                        ok += 1
                if ok:
                    decls.append(d)
    out = []
    for k in range(0, len(calls), 950):
        part = calls[k:k + 950]
        used = {c[0] for c in part}
        p = Fixed(rng, [d for d in decls if d[1] in used], part, one_order=True)
        out.append(Case(p.text('plain'), p.expect, flags=[('-O%d' % ((i * 2) % 4),)], note='operators with constants'))
    return out


def k_small(rng, i):
    """Small trees: combinations of two and three operators, repeated operands, constants chosen
    together - the shapes in which an algebraic identity could be applied wrongly."""
    ps = ['a', 'b', 'c']
    ks = [0, 1, 2, 3, 4, 8, 16, 63, 64, 255, 256, (1 << 31), (1 << 32) - 1, (1 << 32), MAX, MIN, -1, -2]

    def leaf():
        r = rng.random()
        if r < .3:
            return ('var', 'a')
        if r < .55:
            return ('var', rng.choice(ps))
        k = rng.choice(ks)
        if rng.random() < .3:
            k = wrap(k + rng.choice([-1, 1]))
        return neg(k, rng) if rng.random() < .5 else num(k & M64)

    def tree(d):
        r = rng.random()
        if d == 0 or r < .06:
            return leaf()
        if r < .2:
            return ('un', rng.choice('-!'), tree(d - 1))
        if r < .36:
            c = tree(d - 1)
            if rng.random() < .6:
                k = rng.choice([0, 1, 2, 5, 7, -1, 255, 1 << 32])
                j = wrap(rng.choice([0, 1, 2, k + 1, k - 1, -k, k]))
                return ('cond', c, neg(k, rng), neg(j, rng))
            return ('cond', c, tree(d - 1), tree(d - 1))
        op = rng.choice(BIN)
        x = tree(d - 1)
        if op in ('<<', '>>'):
            return ('bin', op, x, num(rng.choice([0, 1, 2, 3, 8, 31, 32, 33, 60, 63])) if rng.random() < .8 else
                    ('bin', '&', tree(d - 1), num(63)))
        y = x if rng.random() < .12 else tree(d - 1)
        return ('bin', op, x, y)
    decls, calls = [], []
    for n in range(90):
        args = [[rng.choice([0, 1, -1, 2, 5, 64, -64, MIN, MAX, word(rng)]) for _ in ps] for _ in range(5)]
        x = word(rng)
        args += [[x, x, x], [x, wrap(x + 1), wrap(x - 1)], [x, wrap(-x), 0], [4, 2, 1]]
        es = []
        for _ in range(40):
            e = tree(rng.choice([1, 2, 2, 2, 3]))
            if e[0] in ('num', 'var', 'chr'):
                continue
            d = ('fun', 't', ps, ev(0, e))
            if all(reference([d], 't', a) is not None for a in args):
                es.append(e)
            if len(es) == 12:
                break
        if es:
            decls.append(('fun', 't%d' % n, ps, ev(n, *es)))
            calls += [('t%d' % n, a) for a in args]
    p = Fixed(rng, decls, calls, one_order=True)
    return Case(p.text(rng.choice(['plain', 'tight'])), p.expect, flags=[('-O0',)] if i % 3 else [('-O0',), ('-O2',)],
                note='small trees')


TWOOPS = [(a, b, sh, pat) for a in BIN for b in BIN for sh in (0, 1) for pat in range(8)]


def k_two(rng, i):
    """Every two operators in either grouping, with a constant or a variable at every leaf."""
    A, B, S, D = (('var', x) for x in 'absd')
    ks = [0, 1, 2, 3, 4, 7, 8, 16, 63, 64, 255, 256, 65535, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, 1 << 62, MAX, MIN,
          MIN + 1, -1, -2, -3, -4, -8, -256, -(1 << 31), -(1 << 32)]
    tuples = [[rng.choice([0, 1, -1, 2, 5, 64, -64, MIN, MAX, word(rng)]), word(rng), rng.choice([1, 2, 3, 31, 32, 63]),
               rng.choice([2, 3, -2, -7, 8, 10, MAX, MIN, word(rng) | 1])] for _ in range(5)]
    x = word(rng)
    tuples += [[x, x, 0, 1], [x | MIN, wrap(x + 1), 63, 2], [wrap(-x), x, 7, -3]]
    work = TWOOPS[i % 30::30]

    def leaf(op, const):
        if op in ('<<', '>>'):
            return num(rng.choice([0, 1, 2, 3, 8, 31, 32, 33, 62, 63])) if const else S
        if const:
            k = rng.choice(ks)
            if rng.random() < .15:
                k = word(rng)
            if op in ('/', '%') and k in (0, -1):
                k = 10
            return neg(k, rng) if rng.random() < .25 else num(k & M64)
        if op in ('/', '%'):
            return D
        return rng.choice([A, A, B])

    def unary(e):
        return ('un', rng.choice('-!'), e) if rng.random() < .06 else e
    decls, calls, es = [], [], []

    def flush():
        if es:
            n = len(decls)
            decls.append(('fun', 't%d' % n, ['a', 'b', 's', 'd'], ev(n, *es)))
            calls.extend(('t%d' % n, a) for a in tuples)
            del es[:]
    for op1, op2, sh, pat in work:
        for attempt in range(4):
            l1, l2, l3 = pat & 1, pat & 2, pat & 4
            if sh == 0:
                e = ('bin', op2, unary(('bin', op1, unary(leaf('', l1)), unary(leaf(op1, l2)))), leaf(op2, l3))
            else:
                e = ('bin', op1, unary(leaf('', l1)), unary(('bin', op2, leaf('', l2), leaf(op2, l3))))
            d = ('fun', 't', ['a', 'b', 's', 'd'], ev(0, e))
            if all(reference([d], 't', a) is not None for a in tuples):
                es.append(e)
                break
        if len(es) == 6:
            flush()
    flush()
    p = Fixed(rng, decls, calls, one_order=True)
    return Case(p.text(rng.choice(['plain', 'tight'])), p.expect, flags=[('-O0',)] if i % 3 else [('-O0',), ('-O2',)],
                note='two operators')


CANCEL = [(a, b, t) for a in BIN for b in BIN for t in range(13)]


def k_cancel(rng, i):
    """Two operators whose operands recur, or are 0, 1 or -1: what an algebraic simplification would look for."""
    A, B, S, D = (('var', x) for x in 'absd')
    tuples = [[rng.choice([0, 1, -1, 5, -64, MIN, MAX, word(rng)]), word(rng), rng.choice([1, 3, 31, 32, 40, 63]),
               rng.choice([2, 3, -2, -7, 8, MAX, MIN, word(rng) | 1])] for _ in range(5)]
    x = word(rng)
    tuples += [[MAX, -2, 63, 2], [MIN, 1, 32, -1 if rng.random() < .5 else 3], [x, x, 1, x | 2], [wrap(-x), x, 33, 7]]
    decls, calls, es = [], [], []

    def flush():
        if es:
            n = len(decls)
            decls.append(('fun', 't%d' % n, ['a', 'b', 's', 'd'], ev(n, *es)))
            calls.extend(('t%d' % n, a) for a in tuples)
            del es[:]

    def build(a, b, t):
        sh, dv = a in ('<<', '>>') or b in ('<<', '>>'), a in '/%' or b in '/%'
        y = S if sh else D if dv else B
        u = rng.choice([A, A, B, S, D])
        k = num(rng.choice([0, 1, 3, 8, 31, 32, 33, 40, 48, 62, 63])) if sh else \
            neg(rng.choice([2, 3, 4, 7, 8, 10, 16, 255, 1 << 20, 1 << 32, 1 << 62, -2, -8, MAX, MIN, word(rng) | 1]), rng)
        m = lambda op, l, r: ('bin', op, l, r)
        unit = num(rng.choice([0, 1])) if rng.random() < .7 else neg(-1, rng)
        if t == 0:
            return m(b, m(a, u, k), k)
        if t == 1:
            return m(b, m(a, u, y), y)
        if t == 2:
            return m(b, m(a, y, u if not sh and not dv else y), y)
        if t == 3:
            return m(b, m(a, u, y), unit)
        if t == 4:
            return m(b, m(a, u, y), num(0))
        if t == 5:
            return m(a, unit, m(b, u, y))
        if t == 6:
            return m(a, u, m(b, u, y))
        if t == 7:
            return m(a, y, m(b, u, y))
        if t == 8:
            return m(a, u, m(b, k, u))
        if t == 9:
            return m(b, m(a, u, unit), unit)
        if t == 10:
            return m(a, ('un', rng.choice('-!'), u), m(b, u, y))
        if t == 11:
            c = rng.choice(BIN)
            return m(c, m(a, u, y), m(b, u, y))
        return m(b, m(a, u, k), ('un', '-', k))
    for a, b, t in CANCEL[i % 30::30]:
        for attempt in range(4):
            e = build(a, b, t)
            d = ('fun', 't', ['a', 'b', 's', 'd'], ev(0, e))
            if all(reference([d], 't', x) is not None for x in tuples):
                es.append(e)
                break
        if len(es) == 6:
            flush()
    flush()
    p = Fixed(rng, decls, calls, one_order=True)
    return Case(p.text(rng.choice(['plain', 'tight'])), p.expect, flags=[('-O0',)] if i % 3 else [('-O0',), ('-O2',)],
                note='recurring operands')


def k_mixed(rng, i):
    """Unary, postfix, conditional and binary operators mixed without parentheses."""
    ps = ['a', 'b', 'c', 'd', 'e']
    decls = [('vec', 'gv', '8', [('num', 3 * k + 1, str(3 * k + 1)) for k in range(8)]),
             ('fun', 'id', ['x'], ('ret', ('var', 'x'))),
             ('fun', 'add', ['x', 'y'], ('ret', ('bin', '+', ('var', 'x'), ('var', 'y'))))]
    calls = []
    for n in range(60):
        c = Ctx()
        c.rd = list(ps)
        c.vec = {'gv': 8}
        c.funs = {'id': 1, 'add': 2}
        g = ExprGen(rng, c, dict(unary=0.2, cond=0.15, mem=0.1, call=0.1))
        es = []
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.35:
                es.append(g.chain(rng.randint(3, 12)))
            elif r < 0.5:
                x = g.chain(rng.randint(1, 3))
                es.append(('cond', x, g.chain(2), ('cond', g.chain(1), g.chain(2), g.chain(2)))
                          if rng.random() < .5 else
                          ('cond', x, ('cond', g.chain(1), g.leaf(), g.chain(1)), g.chain(2)))
            else:
                es.append(g.rvalue(rng.randint(2, 6)))
        d = ('fun', 't%d' % n, ps, ('block', [('extrn', ['gv']), ev(n, *es)]))
        for _ in range(6):
            args = [word(rng) if rng.random() < .6 else rng.randint(-5, 9) for _ in ps]
            if reference(decls + [d], d[1], args) is not None:
                if d not in decls:
                    decls = decls + [d]
                calls.append((d[1], args))
                if rng.random() < .5:
                    break
    p = Fixed(rng, decls, calls)
    return Case(p.text(rng.choice(['plain', 'tight', 'wild', 'comment', 'lines']), parens=rng.choice([0, 0, .3])),
                p.expect, note='mixed expressions')


def k_deep(rng, i):
    """Long chains and deep nesting."""
    decls, calls = [], []
    A = ('var', 'a')
    for n in range(8):
        size = rng.choice([10, 40, 120, 300, 600])
        kind = rng.randrange(7)
        e = A
        if kind == 0:
            for k in range(size):
                e = ('bin', rng.choice(['+', '-', '|', '&', '*']), e, num(rng.randint(0, 99)))
        elif kind == 1:
            for k in range(size):
                e = ('bin', rng.choice(['+', '-', '|']), num(rng.randint(0, 99)), e)
        elif kind == 2:
            for k in range(size):
                e = ('par', e)
            e = ('bin', '+', e, num(1))
        elif kind == 3:
            for k in range(size):
                e = ('un', rng.choice(['-', '!']) if k > size - 4 else '-', e) if k % 2 else \
                    ('bin', '-', num(1), e)
        elif kind == 4:
            for k in range(min(size, 300)):
                e = ('cond', ('bin', '==', A, num(k)), num(3 * k), e)
        elif kind == 5:
            for k in range(min(size, 300)):
                e = ('cond', ('bin', '>', A, num(k)), e, num(k + 7))
        else:
            g = ExprGen(rng, ctx_with(['a', 'b']))
            e = g.chain(min(size, 200))
        d = ('fun', 't%d' % n, ['a', 'b'], ('ret', e))
        ok = False
        for _ in range(4):
            args = [rng.choice([0, 1, 5, size // 2, size, word(rng)]), word(rng)]
            if reference([d], d[1], args, 100000) is not None:
                calls.append((d[1], args))
                ok = True
        if ok:
            decls.append(d)
    p = Fixed(rng, decls, calls)
    return Case(p.text('plain'), p.expect, note='deep expressions', cpu=60)


def k_cond(rng, i):
    """Which operands of ?: are evaluated, and with what value, in every context."""
    trace = ('fun', 'e', ['id', 'v'], ('block', [ev(7, ('var', 'id'), ('var', 'v')), ('ret', ('var', 'v'))]))
    ids = [0]

    def E(depth):
        ids[0] += 1
        me = ids[0]
        r = rng.random()
        if depth <= 0 or r < 0.25:
            v = rng.choice([num(0), num(1), ('var', 'a'), ('var', 'b'), neg(word(rng))])
            return ('call', ('var', 'e'), [num(me), v])
        if r < 0.75:
            return ('cond', E(depth - 1), E(depth - 1), E(depth - 1))
        if r < 0.85:
            return ('un', rng.choice('-!'), E(depth - 1))
        if r < 0.93:
            return ('bin', rng.choice(['+', '-', '==', '<', '&']), E(depth - 1), num(rng.randint(0, 3)))
        return ('asg', '', ('var', 'x'), E(depth - 1))
    decls, calls = [trace], []
    for n in range(14):
        c = E(rng.randint(2, 6))
        use = rng.randrange(6)
        b = [('auto', [('x', None), ('v', '4')])]
        if use == 0:
            b.append(('ret', c))
        elif use == 1:
            b.append(('if', c, ev(1, ('var', 'x')), ev(2, ('var', 'x'))))
        elif use == 2:
            b += [('expr', ('asg', '', ('idx', ('var', 'v'), num(2)), c)), ('ret', ('idx', ('var', 'v'), num(2)))]
        elif use == 3:
            b.append(ev(3, c))
        elif use == 4:
            b += [('expr', ('asg', '+', ('var', 'x'), c)), ('ret', ('var', 'x'))]
        else:
            b += [('expr', c), ev(4, ('var', 'x'))]
        d = ('fun', 't%d' % n, ['a', 'b'], ('block', b))
        for a in (0, 1):
            args = [a, rng.choice([0, 5])]
            if reference([trace, d], d[1], args) is not None:
                calls.append((d[1], args))
                if d not in decls:
                    decls.append(d)
    if not calls:
        return None
    p = Fixed(rng, decls, calls)
    return Case(p.text('plain', parens=.05), p.expect, note='conditional operator')


def k_general(rng, i):
    p = Program(rng, 12, dict(edepth=5, stmts=5, chain=0.15, goto=0.03, switch=0.05))
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, note='general program')


def main(tier, seed):
    c = setup('P01', tier, seed, 'exploration',
              'Generated programs evaluate expressions of known trees printed with only the needed parentheses: every '
              'operator on edge-word pairs, every pair and triple of operators, mixed/deep/conditional expressions and '
              'whole programs. A test function counts as distinct and non-trivial by the event sequence it produced.',
              ['the reference interpreter and printer in vf/lang.py, written from the published precedence table',
               'clang and the processor execute LLVM modules correctly', 'x86-64 Linux only'])
    k = 1 if tier == 'quick' else 12
    run_kinds(dict(ops=k_ops, const=k_const, small=k_small, two=k_two, cancel=k_cancel, prec=k_prec, mixed=k_mixed, deep=k_deep, cond=k_cond, general=k_general),
              [('ops', 16 * k), ('const', 6), ('small', 24 * k), ('two', 60 * k), ('cancel', 60 * k), ('prec', 12), ('mixed', 90 * k), ('deep', 24 * k), ('cond', 40 * k),
               ('general', 60 * k)])
    return c.finish('executions', 20)
