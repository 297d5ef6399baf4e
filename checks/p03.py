"""P03: control flow. Oracle: reference interpreter; events mark every point control passes."""
import itertools

from vf.batch import *
from vf.gen import *


def V(n):
    return ('var', n)


def cond_around(rng, bit, depth):
    """A condition made of others in every way expressions combine."""
    if depth <= 0:
        return bit()
    c = lambda: cond_around(rng, bit, depth - 1)
    p = lambda e: ('par', e)
    k = lambda: num(rng.choice([0, 1, 1, 2, 5, MAX, 1 << 32]))
    m = lambda op, l, r: ('bin', op, p(l), p(r))
    r = rng.randrange(16)
    if r == 0:
        return p(('cond', c(), k(), k()))
    if r == 1:
        return m('&', ('cond', c(), num(1), num(0)), num(rng.choice([1, 3, MAX])))
    if r == 2:
        return ('un', '!', p(('cond', c(), k(), k())))
    if r == 3:
        return m('|', num(0), ('cond', c(), k(), num(0)))
    if r == 4:
        return m(rng.choice(['==', '!=']), c(), num(rng.choice([0, 0, 1])))
    if r == 5:
        return ('cond', p(c()), p(c()), p(c()))
    if r == 6:
        return m(rng.choice(['&', '|', '==', '!=', '<', '<=', '>', '>=', '+', '-', '*']), c(), c())
    if r == 7:
        return ('un', rng.choice('!-'), p(c()))
    if r == 8:
        return p(('asg', '', V('x'), c()))
    if r == 9:
        return m('+', ('asg', '', V('x'), ('cond', c(), k(), num(0))), num(0))
    if r == 10:
        return ('call', V('ev2'), [num(rng.randrange(100)), c()])
    if r == 11:
        return ('call', V('ev2'), [num(rng.randrange(100)), ('cond', c(), k(), k())])
    if r == 12:
        return ('un', '!', ('un', '!', p(c())))
    if r == 13:
        return p(('cond', ('un', '!', p(c())), k(), ('cond', c(), num(0), k())))
    if r == 14:
        return m(rng.choice(['<<', '>>', '/', '%', '*']), c(), num(rng.choice([1, 2, 3])))
    return m('==', num(0), c())


class Flow:
    """Statements made of events and jumps only; every loop and backward jump is fuelled."""

    def __init__(self, rng, maxdepth, mix=None):
        self.rng = rng
        self.tag = 0
        self.maxdepth = maxdepth
        self.nlab = 0
        self.pending = []
        self.mix = mix or {}
        self.budget = 160

    def mark(self):
        self.tag += 1
        return ev(self.tag)

    def cond(self):
        rng = self.rng
        r = rng.random()
        bit = ('bin', '&', ('bin', '>>', V('bits'), ('par', ('bin', '&', ('post', '++', V('pos')), num(63)))), num(1))
        if r < 0.5:
            return bit
        if r < 0.6:
            return ('un', '!', ('par', bit))
        if r < 0.7:
            return ('bin', rng.choice(['==', '!=']), ('par', bit), num(rng.randint(0, 1)))
        if r < 0.75:
            return num(rng.choice([0, 1, 2, MAX, 1 << 32]))
        if r < 0.8:
            return ('un', '-', ('par', bit))
        if r < 0.85:
            return ('bin', '*', ('par', bit), num(1 << 40))       # true only in the high half
        if r < 0.88:
            return ('cond', bit, num(1), num(0))
        if r < 0.92:
            return cond_around(rng, lambda: bit, 2)
        if r < 0.95:
            return ('asg', '', V('x'), bit)
        return ('call', V('ev2'), [num(self.tag), bit])

    def fuel(self):
        return ('bin', '>', ('post', '--', V('fuel')), num(0))

    def newlabel(self):
        self.nlab += 1
        return self.rng.choice(['L%d', 'l%d_', 'x%dif', 'while%d', 'else%d', 'case%d', '_%d']) % self.nlab

    def body(self, depth, lo=0, hi=3):
        rng = self.rng
        n = rng.randint(lo, hi)
        if n == 1 and rng.random() < 0.6:
            return self.stmt(depth)
        return ('block', [self.stmt(depth) for _ in range(n)])

    def stmt(self, depth):
        rng = self.rng
        self.budget -= 1
        r = rng.random()
        if depth <= 0 or self.budget < 0:
            if r < 0.7:
                return self.mark()
            if r < 0.78:
                return ('null',)
            if r < 0.82:
                return ('block', [])
            if r < 0.88:
                return ('ret', num(self.tag)) if rng.random() < .5 else ('ret', None)
            return self.jump()
        if r < 0.28:
            a = self.body(depth - 1)
            b = self.body(depth - 1) if rng.random() < .55 else None
            return ('if', self.cond(), a, b)
        if r < 0.42:
            # the fuel bounds the loop
            c = self.fuel() if rng.random() < .6 else ('bin', '*', ('par', self.fuel()), self.par(self.cond()))
            return ('while', c, self.body(depth - 1))
        if r < 0.57:
            return self.switch(depth)
        if r < 0.67:
            l = self.newlabel()
            self.pending.append(l)
            return ('block', [self.place(l), self.mark()])
        if r < 0.77:
            return self.jump()
        if r < 0.83:
            return ('block', [self.stmt(depth - 1), ('ret', num(self.tag)), self.mark()]) if rng.random() < .3 else \
                ('if', self.cond(), ('ret', num(self.tag)), None)
        if r < 0.88:
            l = self.newlabel()
            self.pending.append(l)
            return ('label', l, self.stmt(depth - 1))
        return self.mark()

    def par(self, e):
        return ('par', e)

    def place(self, l):
        return ('label', l, ('null',)) if self.rng.random() < .7 else ('label', l, self.mark())

    def jump(self):
        """A jump anywhere in the function, taken at most as often as there is fuel."""
        return ('if', self.fuel(), ('goto', ('?',)), None) if self.rng.random() < .75 else ('goto', ('fwd',))

    def switch(self, depth):
        rng = self.rng
        n = heavy(rng, 0, 5, 24)
        vals = rng.sample(range(0, max(8, 2 * n)), n)
        if rng.random() < .25:
            vals = list({pick_num(rng) for _ in range(n)})
        body = []
        if rng.random() < .2:
            body.append(self.mark())
        for v in vals:
            s = self.stmt(min(depth - 1, 2)) if rng.random() < .5 else self.mark()
            if rng.random() < .3:
                s = ('null',)
            body.append(('case', str(v), v, s))
            if rng.random() < .4:
                body.append(self.stmt(min(depth - 1, 2)))
        sel = ('bin', '&', ('bin', '>>', V('bits'), ('par', ('bin', '&', ('post', '++', V('pos')), num(63)))),
               num(rng.choice([1, 3, 7, 15])))
        if vals and rng.random() < .4:
            sel = ('cond', self.cond(), num(rng.choice(vals)), sel)
        if rng.random() < .2:
            sel = ('un', '-', ('par', sel))
        return ('switch', sel, ('block', body))


def resolve(rng, s, labels):
    """Give every goto a target."""
    placed = []

    def collect(x):
        if isinstance(x, tuple):
            if x and x[0] == 'label':
                placed.append(x[1])
            for y in x:
                collect(y)
        elif isinstance(x, list):
            for y in x:
                collect(y)
    collect(s)
    seen = []
    late = ['end1', 'end2']

    def fix(x):
        if isinstance(x, list):
            return [fix(y) for y in x]
        if isinstance(x, tuple):
            if x and x[0] == 'label':
                seen.append(x[1])
            if x and x[0] == 'goto':
                if x[1] == ('?',):
                    return ('goto', rng.choice(placed + late))
                if x[1] == ('fwd',):
                    f = [l for l in placed if l not in seen] + late
                    return ('goto', rng.choice(f[:4] if rng.random() < .6 else f))
                return x
            return tuple(fix(y) for y in x)
        return x
    return fix(s)


EV2 = ('fun', 'ev2', ['id', 'v'], ('block', [ev(9999, V('id'), V('v')), ('ret', V('v'))]))


def flowfun(rng, name, depth, nst):
    f = Flow(rng, depth)
    body = [('auto', [('fuel', None), ('pos', None), ('x', None)]),
            ('expr', ('asg', '', V('fuel'), num(rng.choice([3, 5, 9, 14]))))]
    body += [f.stmt(depth) for _ in range(nst)]
    s = ('block', body + [('label', 'end1', f.mark()), f.mark(), ('label', 'end2', ('null',)), ev(77, V('pos'))])
    return ('fun', name, ['bits'], resolve(rng, s, None))


def k_flow(rng, i):
    decls, calls = [EV2], []
    for n in range(14):
        d = flowfun(rng, 't%d' % n, rng.choice([2, 3, 4, 6]), rng.choice([2, 4, 8]))
        ok = False
        for _ in range(4):
            args = [rng.choice([0, MAX, rng.getrandbits(63), rng.getrandbits(63), rng.getrandbits(8)])]
            if reference([EV2, d], d[1], args, 6000) is not None:
                calls.append((d[1], args))
                ok = True
        if ok:
            decls.append(d)
    if not calls:
        return None
    p = Fixed(rng, decls, calls)
    return Case(p.text(rng.choice(['plain', 'tight', 'wild', 'lines', 'comment'])), p.expect, note='flow graph')


def k_else(rng, i):
    """Every shape of nested if/else without braces; the else belongs to the nearest if."""
    decls, calls = [], []
    tag = [0]

    def leaf():
        tag[0] += 1
        r = rng.random()
        if r < .1:
            return ('null',)
        if r < .2:
            return ('block', [ev(tag[0])])
        return ev(tag[0])

    def tree(depth):
        if depth == 0 or rng.random() < .15:
            return leaf()
        c = ('bin', '&', ('bin', '>>', V('b'), num(rng.randrange(8))), num(1))
        a = tree(depth - 1)
        if rng.random() < .15:
            a = ('while', ('bin', '>', ('post', '--', V('w')), num(0)), a)
        b = tree(depth - 1) if rng.random() < .6 else None
        return ('if', c, a, b)
    for n in range(12):
        d = ('fun', 't%d' % n, ['b', 'w'], ('block', [tree(rng.randint(2, 6)), ev(9000)]))
        decls.append(d)
        for _ in range(8):
            calls.append((d[1], [rng.randrange(256), 2]))
    p = Fixed(rng, decls, calls)
    # 'else' glued to whatever may follow it
    return Case(p.text(rng.choice(['plain', 'tight', 'wild', 'comment', 'lines'])), p.expect, note='if/else nesting')


def k_switch(rng, i):
    """Switches with many cases, all constants forms, nested and in loops."""
    n = rng.choice([0, 1, 2, 3, 5, 10, 40, 150, 600])
    pool = rng.choice(['dense', 'sparse', 'edge', 'char'])
    vals = set()
    while len(vals) < n:
        if pool == 'dense':
            vals.add(rng.randrange(2 * n + 2))
        elif pool == 'sparse':
            vals.add(rng.getrandbits(rng.randint(1, 63)))
        elif pool == 'char':
            vals.add(chr_value(bytes(rng.choice(range(65, 91)) for _ in range(rng.randint(1, 8)))))
        else:
            vals.add(wrap(rng.choice(EDGE) + rng.randint(0, 40 if n < 100 else 400)) & MAX)
    vals = list(vals)
    rng.shuffle(vals)
    body = []
    pre = rng.random() < .3
    if pre:
        body.append(ev(1))
    for k, v in enumerate(vals):
        t = str(v)
        if pool == 'char':
            t = "'" + v.to_bytes(8, 'big').lstrip(b'\0').decode() + "'"
        elif rng.random() < .2:
            t = '0' + oct(v)[2:]
        s = rng.choice([('null',), ev(100 + k), ('block', [ev(100 + k), ev(100 + k)])])
        body.append(('case', t, v, s))
        if rng.random() < .5:
            body.append(ev(5000 + k))
        if rng.random() < .35:
            body.append(('goto', 'out'))
        elif rng.random() < .1:
            body.append(('ret', num(k)))
        elif rng.random() < .1:
            body.append(('switch', ('bin', '&', V('x'), num(3)), ('block', [
                ('case', '1', 1, ev(7001)), ('case', str(v), v, ev(7002)) if v != 1 else ('null',),
                ('case', '3', 3, ev(7003)) if v != 3 else ('null',)])))
        elif rng.random() < .1:
            body.append(('while', ('bin', '>', ('post', '--', V('w')), num(0)), ev(7100)))
    f = ('fun', 'sw', ['x', 'w'], ('block', [('switch', V('x'), ('block', body)), ev(8000),
                                             ('label', 'out', ev(8001)), ('ret', num(3))]))
    calls = []
    ask = vals[:60] + [wrap(v + d) for v in vals[:20] for d in (-1, 1)] + \
        [wrap(v ^ (1 << b)) for v in vals[:12] for b in (32, 63, 8)] + [0, -1, MIN, MAX]
    for v in ask[:200]:
        calls.append(('sw', [v, rng.randint(0, 2)]))
    # a single statement as body
    g = ('fun', 'one', ['x'], ('block', [('switch', V('x'), ('case', '5', 5, ev(5))), ev(6),
                                         ('switch', V('x'), ('null',)), ev(8),
                                         ('switch', V('x'), ev(9)), ev(10)]))
    calls += [('one', [5]), ('one', [6])]
    try:
        p = Fixed(rng, [f, g], calls, one_order=True)
    except TooLong:
        p = Fixed(rng, [f, g], calls[:20], one_order=True)
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, note='switch with %d cases' % n)


def k_nest(rng, i):
    """Deep nesting and long sequences."""
    kind = i % 6
    n = rng.choice([20, 60, 150, 300])
    tag = 0
    if kind == 0:
        s = ev(1)
        for k in range(n):
            s = ('if', ('bin', '!=', V('x'), num(k)), ('block', [s]) if rng.random() < .3 else s, ev(100 + k))
    elif kind == 1:
        s = ev(1)
        for k in range(n):
            s = ('if', ('bin', '==', V('x'), num(k)), ev(100 + k), s)
    elif kind == 2:
        s = ev(1)
        for k in range(min(n, 100)):
            s = ('while', ('bin', '>', ('post', '--', V('w')), num(k % 3)), ('block', [s, ev(100 + k)]))
    elif kind == 3:
        # labels and gotos in a long chain, in shuffled order
        order = list(range(n))
        rng.shuffle(order)
        b = [('goto', 'k%d' % order[0])]
        nxt = {order[k]: (order[k + 1] if k + 1 < n else None) for k in range(n)}
        for k in range(n):
            b.append(('label', 'k%d' % k, ev(100 + k)))
            b.append(('goto', 'k%d' % nxt[k]) if nxt[k] is not None else ('ret', num(5)))
            b.append(ev(9000 + k))
        s = ('block', b)
    elif kind == 4:
        # case labels inside nested blocks and loops are outside the dialect; nest switches instead
        s = ev(1)
        for k in range(min(n, 100)):
            s = ('switch', ('bin', '&', ('bin', '+', V('x'), num(k)), num(1)),
                 ('block', [('case', '0', 0, ev(1000 + k)), ('case', '1', 1, s), ev(2000 + k)]))
    else:
        b = []
        for k in range(n):
            b.append(('if', ('bin', '==', V('x'), num(k)), ('block', [('label', 'a%d' % k, ev(10 + k))]), None))
            b.append(('if', ('bin', '>', ('post', '--', V('w')), num(0)), ('goto', 'a%d' % rng.randrange(n)), None))
        s = ('block', b)
    f = ('fun', 't', ['x', 'w'], ('block', [s, ev(7777)]))
    calls = [('t', [x, w]) for x in (0, 1, n // 2, n - 1, n + 5) for w in (0, 3, 7)]
    ok = [c for c in calls if reference([f], 't', c[1], 20000) is not None]
    if not ok:
        return None
    p = Fixed(rng, [f], ok, one_order=True)
    return Case(p.text(rng.choice(['plain', 'tight'])), p.expect, note='nesting kind %d size %d' % (kind, n))


class Small:
    """Every statement form inside every other, and after every other, without chance."""

    def __init__(self):
        self.tag = 0
        self.lab = 0

    def mark(self):
        self.tag += 1
        return ev(self.tag)

    def label(self):
        self.lab += 1
        return 'l%d' % self.lab

    def bit(self):
        return ('bin', '&', ('bin', '>>', V('bits'), ('par', ('bin', '&', ('post', '++', V('pos')), num(63)))), num(1))

    def fuel(self):
        return ('bin', '>', ('post', '--', V('fuel')), num(0))

    LEAF = ['mark', 'null', 'empty', 'ret', 'retv', 'end', 'back', 'store', 'auto', 'cases', 'tern', 'retc']

    def leaf(self, k):
        if k == 'mark':
            return self.mark()
        if k == 'null':
            return ('null',)
        if k == 'empty':
            return ('block', [])
        if k == 'ret':
            return ('ret', None)
        if k == 'retv':
            return ('ret', num(7))
        if k == 'end':
            return ('goto', 'end')
        if k == 'back':
            return ('if', self.fuel(), ('goto', 'top'), None)
        if k == 'store':
            return ('expr', ('asg', '+', V('pos'), num(1)))
        if k == 'auto':
            n = 'a%d' % self.label_no()
            return ('block', [('auto', [(n, None)]), ('expr', ('asg', '+', V(n), num(5))), ev(self.next(), V(n))])
        if k == 'cases':
            return ('switch', self.bit(), ('block', [('case', '0', 0, ('null',)), ('case', '1', 1, self.mark())]))
        if k == 'tern':
            return ('expr', ('cond', self.bit(), ('call', V('ev2'), [num(self.next()), num(1)]), num(0)))
        return ('ret', ('cond', self.bit(), num(3), num(4)))

    def next(self):
        self.tag += 1
        return self.tag

    def label_no(self):
        self.lab += 1
        return self.lab

    WRAP = ['if', 'ifelse', 'else', 'elseif', 'while', 'whilef', 'block', 'pre', 'post', 'label', 'case', 'casemore', 'presw', 'swlabel', 'bare', 'loop']

    def wrap(self, k, s):
        if k == 'if':
            return ('if', self.bit(), s, None)
        if k == 'ifelse':
            return ('if', self.bit(), s, self.mark())
        if k == 'else':
            return ('if', self.bit(), self.mark(), s)
        if k == 'elseif':
            return ('if', self.bit(), ('null',), ('if', self.bit(), s, self.mark()))
        if k == 'while':
            return ('while', self.fuel(), s)
        if k == 'whilef':
            return ('while', ('bin', '&', ('par', self.fuel()), ('par', self.bit())), s)
        if k == 'block':
            return ('block', [s])
        if k == 'pre':
            return ('block', [self.mark(), s])
        if k == 'post':
            return ('block', [s, self.mark()])
        if k == 'label':
            return ('label', self.label(), s)
        if k == 'case':
            return ('switch', self.bit(), ('block', [('case', '1', 1, s)]))
        if k == 'casemore':
            return ('switch', self.bit(), ('block', [('case', '0', 0, s), self.mark(), ('case', '1', 1, self.mark())]))
        if k == 'presw':
            return ('switch', self.bit(), ('block', [s, ('case', '1', 1, self.mark())]))
        if k == 'swlabel':
            return ('switch', self.bit(), ('block', [('label', self.label(), ('case', '1', 1, s)), self.mark()]))
        if k == 'bare':
            return ('switch', ('par', self.bit()), ('case', '1', 1, s))
        l = self.label()                       # a loop made of a goto
        return ('block', [('label', l, s), ('if', self.fuel(), ('goto', l), None)])

    def fun(self, name, stmts):
        return ('fun', name, ['bits'], ('block', [('auto', [('fuel', None), ('pos', None)]), ('expr', ('asg', '', V('fuel'), num(3))),
                                                ('label', 'top', self.mark())] + stmts + [ev(7777), ('label', 'end', ev(8888, V('pos')))]))


def shapes(depth):
    """all nests of that many forms around a leaf"""
    return [list(w) + [l] for w in itertools.product(Small.WRAP, repeat=depth) for l in Small.LEAF]


CHUNK = 44


def small_case(rng, lists, note):
    decls, calls = [EV2], []
    for n, sh in enumerate(lists):
        g = Small()
        stmts = []
        for one in sh:
            s = g.leaf(one[-1])
            for w in reversed(one[:-1]):
                s = g.wrap(w, s)
            stmts.append(s)
        d = g.fun('t%d' % n, stmts)
        use = False
        for a in (0, MAX, 0x5555, 0x2d6c, rng.getrandbits(40)):
            if reference([EV2, d], d[1], [a], 3000) is not None:
                calls.append((d[1], [a]))
                use = True
        if use:
            decls.append(d)
    if not calls:
        return None
    p = Fixed(rng, decls, calls, one_order=True)
    return Case(p.text(rng.choice(['plain', 'tight', 'wild', 'lines', 'comment'])), p.expect, note=note)


def k_small(rng, i):
    """exhaustive over nests of two (then three) forms"""
    two = shapes(2)
    if i * CHUNK < len(two):
        return small_case(rng, [[x] for x in two[i * CHUNK:(i + 1) * CHUNK]], 'statement nests %d' % i)
    three = shapes(3)
    i -= -(-len(two) // CHUNK)
    r = G.check.rng('three', 0)
    r.shuffle(three)
    return small_case(rng, [[x] for x in three[i * CHUNK:(i + 1) * CHUNK]], 'nests of three statements')


def k_pairs(rng, i):
    """two statements (each a form around a leaf) in a row"""
    one = shapes(1) + shapes(0)
    out = []
    for _ in range(CHUNK):
        out.append([rng.choice(one), rng.choice(one)])
    return small_case(rng, out, 'pairs of statements')


def k_conds(rng, i):
    """Conditions of every form in every place that has one, entered again in loops."""
    decls, calls = [EV2], []
    for n in range(30):
        g = Small()
        cond = lambda: cond_around(rng, g.bit, rng.choice([1, 1, 2, 2, 3]))

        def loopcond():
            c, f = ('par', cond()), ('par', g.fuel())
            r = rng.randrange(9)
            if r == 8:                      # alone: the body uses up what it is about
                return None
            return [('bin', '&', f, ('bin', '!=', c, num(0))), ('bin', '&', ('bin', '!=', c, num(0)), f), ('cond', f, c, num(0)),
                    ('cond', ('un', '!', f), num(0), c), ('bin', '*', c, f), ('bin', '&', ('par', ('cond', c, num(1), num(0))), f),
                    ('cond', ('bin', '&', f, ('bin', '!=', c, num(0))), num(1), num(0)),
                    ('bin', '!=', num(0), ('par', ('cond', f, ('cond', c, num(3), num(0)), num(0))))][r]

        def place(k, inner):
            if k == 0:
                return ('if', cond(), inner, None)
            if k == 1:
                return ('if', cond(), g.mark(), inner)
            if k == 2:
                return ('switch', cond(), ('block', [('case', '0', 0, inner), ('goto', 'end') if rng.random() < .2 else g.mark(),
                                                     ('case', '1', 1, g.mark())]))
            if k == 3:
                return ('block', [('expr', ('cond', cond(), ('call', V('ev2'), [num(g.next()), cond()]), num(0))), inner])
            if k == 4:
                return ('block', [ev(g.next(), cond()), inner])
            if k == 5:
                return ('block', [inner, ('if', cond(), ('ret', cond()), None)])
            c = loopcond()
            if c is None:
                q = 'q%d' % g.label_no()
                t = ('bin', rng.choice(['<', '!=']), V(q), num(3))
                c = rng.choice([('bin', '&', ('par', ('cond', t, num(1), num(0))), ('par', t)), ('cond', t, num(1), num(0)),
                                ('un', '!', ('par', ('cond', t, num(0), num(1)))), ('bin', '>', ('par', ('cond', t, num(5), num(2))), num(2)),
                                ('call', V('ev2'), [num(g.next()), ('cond', t, num(1), num(0))]),
                                ('bin', '==', ('par', ('cond', t, V(q), num(9))), V(q))])
                return ('block', [('auto', [(q, None)]), ('expr', ('asg', '', V(q), num(0))),
                                  ('while', c, ('block', [ev(g.next(), V(q)), inner, ('expr', ('post', '++', V(q)))]))])
            return ('while', c, rng.choice([inner, ('block', [g.mark(), inner])]))
        for attempt in range(5):
            s = rng.choice([g.mark(), ('null',), ('block', [])])
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                s = place(rng.choice([0, 1, 2, 3, 4, 5, 6, 6, 6]), s)
            d = g.fun('t%d' % n, [('auto', [('x', None)]), s])
            mine = [(d[1], [a]) for a in (0, MAX, 0x5555, 0x2d6c, rng.getrandbits(40)) if reference([EV2, d], d[1], [a], 3000) is not None]
            if len(mine) > 2:
                decls.append(d)
                calls += mine
                break
    if not calls:
        return None
    p = Fixed(rng, decls, calls)
    return Case(p.text(rng.choice(['plain', 'tight', 'wild', 'lines', 'comment'])), p.expect, note='conditions')


def k_consts(rng, i):
    """Conditions whose value is known beforehand, of every magnitude and form, in every place."""
    out, exp, n = [], [], 0
    for f in range(12):
        b = []
        for _ in range(25):
            n += 1
            v = rng.choice([0, 0, 1, 2, 255, 1 << rng.randrange(64), rng.randrange(1, 256) << rng.randrange(57), rng.getrandbits(32) << 32, rng.getrandbits(64),
                            1 << 32, 1 << 63, 1 << 31, 256, 65536]) & M64
            forms = ['%d' % v, '0%o' % v, '(%d)' % v, '%d | 0' % v, '0 + %d' % v, '%d & -1' % v, '%d * 1' % v, '%d != 0' % v, '!%d' % v, '-%d' % v, '!!%d' % v, 'x', '(x = %d)' % v,
                     '%d ? %d : 0' % (v, v), 'k(%d)' % v]
            r = rng.randrange(len(forms))
            c = forms[r]
            t = (v == 0) if r == 8 else v != 0
            if r == 11:
                b.append('x = %d;' % v)
            if rng.random() < .12:
                c, t = rng.choice([('"text"', True), ('""', True), ('k', True), ('main', True), ('&x', True), ("'*0'", False), ("'*0*0*0*0'", False), ("'a*0*0*0*0'", True),
                                   ("'ab*0*0*0*0*0*0'", True), ('!k', False), ('!"x"', False), ('(v, 1)'[1:2], True), ('k == k', True), ('k != k', False)])
            p = rng.randrange(9)
            if p == 0:
                b.append('if (%s) ev(2, %d, 1); else ev(2, %d, 0);' % (c, n, n))
                exp.append((n, int(t)))
            elif p == 1:
                b.append('if (%s) ev(2, %d, 1);' % (c, n))
                exp += [(n, 1)] if t else []
            elif p in (2, 3):
                b.append(('i = 0; while (%s) { if (++i > 2) goto out%d; } out%d: ev(2, %d, i);' if p == 2 else 'i = 0; while (%s) if (++i > 2) goto out%d; out%d: ev(2, %d, i);') % (c, n, n, n))
                exp.append((n, 3 if t else 0))
            elif p == 4:
                b.append('ev(2, %d, %s);' % (n, '(%s) ? 1 : 2' % c))
                exp.append((n, 1 if t else 2))
            elif p == 5:
                b.append('ev(2, %d, !(%s));' % (n, c))
                exp.append((n, int(not t)))
            elif p == 6:
                # into the body of a loop or branch from outside
                b.append('i = 0; goto in%d; while (%s) { i =+ 10; in%d: if (++i > 25) goto out%d; } out%d: ev(2, %d, i);' % (n, c, n, n, n, n))
                exp.append((n, 34 if t else 1))
            elif p == 7:
                b.append('goto in%d; if (%s) { ev(2, %d, 7); in%d: ev(2, %d, 8); } else ev(2, %d, 9);' % (n, c, n, n, n, n))
                exp.append((n, 8))
            else:
                w = rng.choice([v, v ^ (1 << 32), v ^ 1, v ^ (1 << 63), v & 0xffffffff])
                b.append('switch (%d) { case %d: ev(2, %d, 1); }' % (v, w, n))
                exp += [(n, 1)] if v == w else []
        out.append('f%d() { auto i, x, v[2];\n%s\n}' % (f, '\n'.join(b)))
    text = '\n'.join(out) + '\nk(a) return (a);\nmain() { %s return (0); }\n' % ' '.join('f%d();' % f for f in range(12))
    return Case(text, (exp, 0), note='constant conditions')


def k_general(rng, i):
    p = Program(rng, 12, dict(goto=0.25, switch=0.2, loop=0.15, iff=0.25, dead=0.1, stmts=10, edepth=2, depth=4))
    return Case(p.text(rng.choice(['plain', 'tight', 'wild'])), p.expect, note='general program')


def main(tier, seed):
    c = setup('P03', tier, seed, 'exploration',
              'Functions made of if/else, while, switch, goto, labels and return whose decisions come from the bits of '
              'an argument; an event marks every point. Plus dedicated else-nesting, switches of up to 600 cases, deep '
              'nesting, goto chains, and general programs. Distinct and non-trivial: by the path (event sequence) taken.',
              ['the reference interpreter in vf/lang.py', 'clang executes LLVM modules correctly'])
    k = 1 if tier == 'quick' else 12
    run_kinds(dict(small=k_small, pairs=k_pairs, conds=k_conds, consts=k_consts, flow=k_flow, els=k_else, switch=k_switch, nest=k_nest, general=k_general),
              [('small', 80 if tier == 'quick' else 1180), ('pairs', 25 if tier == 'quick' else 600), ('conds', 50 * k), ('consts', 20 * k), ('flow', 150 * k), ('els', 40 * k), ('switch', 60 * k), ('nest', 24 * k), ('general', 100 * k)])
    return c.finish('executions', 20)
