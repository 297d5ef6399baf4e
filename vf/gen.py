"""Random B programs with defined behaviour. Sizes and magnitudes are heavy-tailed;
what the reference interpreter finds undefined or order-dependent is thrown away."""
from .lang import *

EDGE = [0, 1, 2, 3, 7, 8, 9, 10, 63, 64, 65, 100, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 32767, 32768,
        65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1,
        (1 << 53) + 1, (1 << 62), (1 << 63) - 1, (1 << 63) - 2, 999999999999, 1 << 63, (1 << 63) + 1,
        (1 << 64) - 1, (1 << 64) - 2, (1 << 64) - 8, (1 << 64) - (1 << 31), (1 << 64) - (1 << 32)]
ARITH = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|']
REL = ['<', '<=', '>', '>=', '==', '!=']
ALLOPS = ARITH + REL
KEYWORDS = {'auto', 'extrn', 'if', 'else', 'while', 'switch', 'case', 'goto', 'return', 'main',
            'default', 'break'}
RUNTIME = {'char', 'lchar', 'exit', 'flush', 'nread', 'nwrite', 'printd', 'printf', 'printo', 'read',
           'start', 'write', 'writeb', 'fout', 'ev', 'evend', 'evs'}


def num(v, rng=None):
    """A literal for 0 <= v < 2**64, decimal or octal."""
    if rng is not None and rng.random() < 0.2:
        t = '0' + oct(v)[2:]
        if rng.random() < 0.1:
            t = '0' * rng.randint(1, 5) + t
        if v == 0:
            t = '0' * rng.randint(1, 3)
        return ('num', v, t)
    return ('num', v, str(v))


def pick_num(rng):
    r = rng.random()
    if r < 0.45:
        return rng.randint(0, 20)
    if r < 0.75:
        return rng.choice(EDGE)
    if r < 0.9:
        return rng.getrandbits(rng.randint(1, 63))
    return rng.getrandbits(64)


def heavy(rng, lo, typ, hi):
    """Mostly small, now and then huge."""
    r = rng.random()
    if r < 0.8:
        return rng.randint(lo, typ)
    if r < 0.95:
        return rng.randint(lo, max(typ, (typ * 4 + hi) // 6))
    return rng.randint(typ, hi)


PRINTABLE = [c for c in range(32, 127)]


def text_bytes(rng, n):
    out = bytearray()
    for _ in range(n):
        r = rng.random()
        if r < 0.75:
            out.append(rng.choice(PRINTABLE))
        elif r < 0.98:
            out.append(rng.choice(b'\t\n\r{}*\'"%\\'))
        else:
            out.append(rng.randint(1, 255))
    return bytes(out)


class Names:
    """Identifiers: short, long, underscored, lookalikes of compiler-internal names."""
    ODD = ['entry', 'i64', 'ptr', 'label', 'define', 'ret', 'br', 'phi', 'data', 'str', 'int', 'for', 'do',
           'struct', 'malloc', 'memset', 'strlen', 'puts', 'abs', 'x0', 'rax', 'rsp', 'eax', '_start', 'start_',
           'unreachable', 'bb0', 'cond', 'then', 'Else', 'If', 'If_', 'autos', 'elsewhere', 'returns', 'cases',
           'switches', 'whiles', 'gotos', 'extrns', 'auto_', 'extrn1', 'case1', 'if1', 'A', 'Z', '_', '__', '_0',
           'b', 'L', 'label_', 'global', 'declare', 'undef', 'null', 'true', 'false', 'void', 'double', 'opaque',
           'alloca', 'load', 'store', 'add', 'call', 'va_arg', 'exit_', 'abort', 'memcpy', 'environ', 'errno']

    def __init__(self, rng, odd=0.2):
        self.rng, self.odd = rng, odd
        self.used = set()

    def new(self, prefix='v', odd=None):
        rng = self.rng
        for _ in range(200):
            if rng.random() < (self.odd if odd is None else odd):
                r = rng.random()
                if r < 0.6:
                    n = rng.choice(self.ODD)
                elif r < 0.9:
                    n = ''.join(rng.choice('abcXYZ_019') for _ in range(rng.randint(1, 12)))
                else:
                    n = rng.choice('abcXYZ_') + ''.join(rng.choice('abcdefXYZ_0189') for _ in
                                                          range(rng.choice([31, 32, 33, 63, 64, 65, 127, 128, 255,
                                                                            256, 300])))
            else:
                n = '%s%d' % (prefix, rng.randint(0, 9999))
            if n[0].isdigit() or n in self.used or n in KEYWORDS or n in RUNTIME:
                continue
            self.used.add(n)
            return n
        n = '%s_%d' % (prefix, len(self.used))
        self.used.add(n)
        return n


class Ctx:
    """What an expression may use."""

    def __init__(self):
        self.rd = []        # scalars that may be read
        self.wr = []        # scalars that may be written
        self.vec = {}       # vector name -> size (all elements initialised)
        self.multi = {}     # global of several words -> number of words
        self.ptr = {}       # pointer name -> number of words from where it points
        self.funs = {}      # pure function -> number of parameters
        self.fptr = {}      # variable holding a pure function -> number of parameters
        self.idxvars = []   # (name, bound): 0 <= name < bound is known
        self.strs = {}      # scalar holding a string -> bytes
        self.memo = []      # (key, expression): generated before, and valid again here

    def copy(self):
        c = Ctx()
        for k, v in self.__dict__.items():
            setattr(c, k, v.copy())
        return c


def tree_size(e):
    return 1 + sum(tree_size(x) for x in e if isinstance(x, (tuple, list))) if isinstance(e, (tuple, list)) else 1


def mentions(e, names):
    if isinstance(e, tuple) and len(e) == 2 and e[0] == 'var':
        return e[1] in names
    return isinstance(e, (tuple, list)) and any(mentions(x, names) for x in e)


class ExprGen:
    def __init__(self, rng, ctx, cfg=None):
        self.rng, self.c = rng, ctx
        self.cfg = dict(ops=ALLOPS, se=0.0, call=0.06, mem=0.15, cond=0.08, unary=0.12, strs=0.02)
        if cfg:
            self.cfg.update(cfg)

    def const(self):
        rng = self.rng
        r = rng.random()
        if r < 0.08:
            return ('chr', bytes(rng.choice(PRINTABLE + [0, 9, 10, 13]) for _ in range(heavy(rng, 1, 4, 8))))
        v = pick_num(rng)
        return num(v, rng)

    def index(self, size):
        """An expression with 0 <= value < size."""
        rng = self.rng
        cands = [n for n, b in self.c.idxvars if b <= size]
        r = rng.random()
        if cands and r < 0.5:
            return ('var', rng.choice(cands))
        if r < 0.75 or size & (size - 1):
            return num(rng.randrange(size), rng)
        return ('bin', '&', self.rvalue(1), num(size - 1, rng))

    def lvalue(self, read=True):
        """An lvalue; read=True: only to be read."""
        rng, c = self.rng, self.c
        opts = []
        names = c.rd if read else c.wr
        if names:
            opts += ['var'] * 5
        if c.vec:
            opts += ['vec'] * 3
        if c.ptr:
            opts += ['ptr'] * 2
        if c.multi:
            opts += ['multi'] * 2
        if not opts:
            return None
        o = rng.choice(opts)
        if o == 'var':
            n = rng.choice(names)
            if rng.random() < 0.05:
                return ('un', '*', ('un', '&', ('var', n)))
            if rng.random() < 0.03:
                return ('idx', ('un', '&', ('var', n)), num(0))
            return ('var', n)
        if o == 'multi':
            n = rng.choice(sorted(c.multi))
            i = self.index(c.multi[n])
            if rng.random() < .3:
                return ('un', '*', ('bin', '+', ('un', '&', ('var', n)), ('bin', '*', num(8), ('par', i))))
            return ('idx', ('un', '&', ('var', n)), i)
        if o == 'vec':
            n = rng.choice(sorted(c.vec))
            size = c.vec[n]
        else:
            n = rng.choice(sorted(c.ptr))
            size = c.ptr[n]
        r = rng.random()
        if r < 0.1:
            return ('un', '*', ('var', n))
        if r < 0.2:
            i = self.index(size)
            return ('un', '*', ('un', '&', ('idx', ('var', n), i)))
        if r < 0.28 and size > 2:
            k = rng.randrange(1, size)
            return ('idx', ('un', '&', ('idx', ('var', n), num(k))), self.index(size - k))
        if r < 0.33:
            i = rng.randrange(size)
            return ('un', '*', ('bin', '+', ('var', n), num(8 * i)))
        if r < 0.38 and size > 2:
            k = rng.randrange(1, size)
            return ('idx', ('un', '&', ('idx', ('var', n), num(k))), ('un', '-', num(rng.randint(0, k))))
        return ('idx', ('var', n), self.index(size))

    def leaf(self):
        rng = self.rng
        if rng.random() < 0.35:
            return self.const()
        return self.lvalue() or self.const()

    def rvalue(self, depth):
        """Now and then an expression that was generated before is written again."""
        rng, cfg, memo = self.rng, self.cfg, self.c.memo
        key = (tuple(cfg['ops']), cfg['call'] > 0, cfg['se'] > 0, cfg['strs'] > 0)
        if memo and depth > 0 and rng.random() < 0.05:
            k, e = rng.choice(memo[-3:] if rng.random() < 0.6 else memo[-40:])
            if k == key:
                return e
        e = self.fresh(depth)
        if e[0] not in ('var', 'num', 'chr') and tree_size(e) <= 14 and not (
                self.c.idxvars and mentions(e, {n for n, _ in self.c.idxvars})):
            memo.append((key, e))
        return e

    def fresh(self, depth):
        rng, cfg = self.rng, self.cfg
        if depth <= 0 or rng.random() < 0.1:
            return self.leaf()
        r = rng.random()
        if r < cfg['unary']:
            op = rng.choice(['-', '-', '!'])
            return ('un', op, self.rvalue(depth - 1))
        r -= cfg['unary']
        if r < cfg['cond']:
            return ('cond', self.rvalue(depth - 1), self.rvalue(depth - 1), self.rvalue(depth - 1))
        r -= cfg['cond']
        if r < cfg['call'] and (self.c.funs or self.c.fptr):
            return self.pure_call(depth)
        r -= cfg['call']
        if r < cfg['mem']:
            return self.lvalue() or self.const()
        r -= cfg['mem']
        if r < cfg['se']:
            return self.side_effect(depth)
        op = rng.choice(cfg['ops'])
        a = self.rvalue(depth - 1)
        if op in ('<<', '>>'):
            b = num(rng.choice([0, 1, 2, 3, 7, 8, 31, 32, 33, 62, 63, rng.randrange(64)])) \
                if rng.random() < 0.6 else ('bin', '&', self.rvalue(depth - 1), num(63))
        elif op in ('/', '%'):
            q = rng.random()
            if q < 0.5:
                b = num(rng.choice([1, 2, 3, 5, 7, 8, 10, 16, 1000, (1 << 32), MAX, max(1, pick_num(rng))]))
            elif q < 0.65:
                b = ('un', '-', num(rng.randint(2, 1000)))
            else:
                b = ('bin', '+', ('bin', '&', self.rvalue(depth - 1), num(rng.choice([7, 255, 65535]))), num(1))
        else:
            b = self.rvalue(depth - 1)
        return ('bin', op, a, b)

    def side_effect(self, depth):
        rng = self.rng
        lv = self.lvalue(read=False)
        if lv is None:
            return self.leaf()
        r = rng.random()
        if r < 0.3:
            return ('pre', rng.choice(['++', '--']), lv)
        if r < 0.6 and lv[0] in ('var', 'idx'):
            return ('post', rng.choice(['++', '--']), lv)
        return self.assign(depth, lv)

    def assign(self, depth, lv=None, op=None):
        rng = self.rng
        lv = lv or self.lvalue(read=False)
        if lv is None:
            return self.leaf()
        if op is None:
            op = '' if rng.random() < 0.35 else rng.choice(ALLOPS)
        if op in ('<<', '>>'):
            v = num(rng.randrange(64)) if rng.random() < 0.7 else ('bin', '&', self.rvalue(depth - 1), num(63))
        elif op in ('/', '%'):
            v = num(rng.choice([1, 2, 3, 7, 10, 64, 1000, 1 << 40])) if rng.random() < 0.6 else \
                ('bin', '+', ('bin', '&', self.rvalue(depth - 1), num(255)), num(2))
        else:
            v = self.rvalue(depth - 1)
        if op == '==':
            op = '=='
        return ('asg', op, lv, v)

    def pure_call(self, depth):
        rng, c = self.rng, self.c
        if c.fptr and (not c.funs or rng.random() < 0.4):
            n = rng.choice(sorted(c.fptr))
            k = c.fptr[n]
            f = ('var', n) if rng.random() < 0.7 else ('par', ('var', n))
        else:
            n = rng.choice(sorted(c.funs))
            k = c.funs[n]
            f = ('var', n)
        args = [self.rvalue(min(depth - 1, 2)) for _ in range(k)]
        if rng.random() < 0.08:
            args.append(self.rvalue(0))     # an extra argument is ignored
        return ('call', f, args)

    def chain(self, n):
        """A long unparenthesised chain of binary operators (exercises precedence)."""
        rng = self.rng
        e = self.leaf()
        items = [e]
        for _ in range(n):
            after = len(items) > 1 and items[-2] in ('<<', '>>')
            items.append(rng.choice(['&', '|', '<', '<=', '>', '>=', '==', '!='] if after and rng.random() < 0.9 else
                                    ['+', '-', '*', '&', '|', '<', '<=', '>', '>=', '==', '!=', '+', '-', '<<', '>>']))
            items.append(num(rng.randrange(0, 8)) if items[-1] in ('<<', '>>') else
                         (('un', rng.choice('-!'), self.leaf()) if rng.random() < 0.15 else self.leaf()))
        return climb(items)


def climb(items):
    """Build the tree a flat operand/operator list denotes (precedence climbing)."""
    pos = [0]

    def parse(minp):
        left = items[pos[0]]
        pos[0] += 1
        while pos[0] < len(items) and PREC[items[pos[0]]] >= minp:
            op = items[pos[0]]
            pos[0] += 1
            right = parse(PREC[op] + 1)
            left = ('bin', op, left, right)
        return left
    return parse(0)


def ev(tag, *vals):
    return ('expr', ('call', ('var', 'ev'), [num(1 + len(vals)), num(tag)] + list(vals)))


class FnGen:
    """Random function bodies."""

    def __init__(self, rng, names, globs=None, funs=None, cfg=None):
        self.rng = rng
        self.names = names
        self.globs = globs or {}          # name -> ('scalar',) or ('vec', size)
        self.funs = dict(funs or {})      # pure functions
        self.cfg = dict(stmts=8, depth=3, edepth=3, goto=0.1, switch=0.12, loop=0.15, iff=0.2, se=0.08, call=0.06,
                        nested_auto=0.1, chain=0.05, dead=0.03, proc=0.12, bytes=0.03)
        self.cfg.update(cfg or {})
        self.tag = 0
        self.labels = []
        self.placed = []
        self.fuel = None
        self.budget = 400
        self.procs = []

    def newtag(self):
        self.tag += 1
        return self.tag

    def eg(self, ctx, **kw):
        cfg = dict(se=self.cfg['se'], call=self.cfg['call'])
        for k in ('ops', 'mem', 'cond', 'unary'):
            if k in self.cfg:
                cfg[k] = self.cfg[k]
        cfg.update(kw)
        return ExprGen(self.rng, ctx, cfg)

    def expr(self, ctx, depth=None, **kw):
        rng = self.rng
        g = self.eg(ctx, **kw)
        if rng.random() < self.cfg['chain']:
            return g.chain(heavy(rng, 3, 8, 60))
        return g.rvalue(depth if depth is not None else rng.randint(0, self.cfg['edepth']))

    def lname(self, p='l'):
        n = self.names.new(p)
        return n

    def function(self, name, nparams=None, params=None):
        """A test function with events; returns (decl, nparams)."""
        rng = self.rng
        self.names = LocalNames(self.names)
        ctx = Ctx()
        ctx.funs = dict(self.funs)
        if params is None:
            params = [self.lname('p') for _ in range(nparams if nparams is not None else rng.randint(0, 3))]
        ctx.rd += params
        ctx.wr += params
        body = []
        ext = [g for g in sorted(self.globs) if rng.random() < 0.5 and g not in params]
        rng.shuffle(ext)
        if ext:
            if rng.random() < 0.5:
                body.append(('extrn', ext))
            else:
                body += [('extrn', [x]) for x in ext]
        for g in ext:
            if self.globs[g][0] == 'scalar':
                ctx.rd.append(g)
                ctx.wr.append(g)
                if self.globs[g][1] > 1:
                    ctx.multi[g] = self.globs[g][1]
            else:
                ctx.vec[g] = self.globs[g][1]
        self.fuel = self.lname('fuel')
        decls = [(self.fuel, None)]
        inits = [('expr', ('asg', '', ('var', self.fuel), num(rng.randint(2, 6))))]
        for _ in range(heavy(rng, 1, 4, 30)):
            n = self.lname('a')
            decls.append((n, None))
            ctx.rd.append(n)
            ctx.wr.append(n)
            if rng.random() < 0.6:
                inits.append(('expr', ('asg', '', ('var', n), self.eg(ctx, se=0).const())))
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            n = self.lname('v')
            size = rng.choice([1, 2, 4, 4, 8, 8, 3, 5, 16])
            decls.append((n, str(size) if rng.random() < .9 else '0' + oct(size)[2:]))
            for i in range(size):
                inits.append(('expr', ('asg', '', ('idx', ('var', n), num(i)), self.eg(ctx, se=0).const())))
            ctx.vec[n] = size
        if self.cfg.get('ptrs', 0.4) > rng.random():
            cand = [('v', n) for n in sorted(ctx.vec)] + [('s', n) for n in ctx.wr]
            for _ in range(rng.randint(1, 2)):
                k, n = rng.choice(cand)
                p = self.lname('p')
                decls.append((p, None))
                if k == 'v':
                    size = ctx.vec[n]
                    off = rng.randrange(size)
                    inits.append(('expr', ('asg', '', ('var', p), ('var', n) if off == 0 and rng.random() < .7 else
                                           ('un', '&', ('idx', ('var', n), num(off))))))
                    ctx.ptr[p] = size - off
                else:
                    inits.append(('expr', ('asg', '', ('var', p), ('un', '&', ('var', n)))))
                    ctx.ptr[p] = 1
        if self.funs and rng.random() < 0.4:
            f = rng.choice(sorted(self.funs))
            p = self.lname('fp')
            decls.append((p, None))
            inits.append(('expr', ('asg', '', ('var', p), ('var', f))))
            ctx.fptr[p] = self.funs[f]
        while decls:
            k = rng.randint(1, len(decls))
            body.append(('auto', decls[:k]))
            decls = decls[k:]
        body += inits
        body += self.stmts(ctx, heavy(rng, 3, self.cfg['stmts'], self.cfg['stmts'] * 4), self.cfg['depth'])
        # observe the final state
        obs = [('var', n) for n in ctx.rd[:10]]
        for v in sorted(ctx.vec):
            obs += [('idx', ('var', v), num(i)) for i in range(min(ctx.vec[v], 6))]
        for v in sorted(ctx.multi):
            obs += [('idx', ('un', '&', ('var', v)), num(i)) for i in range(1, min(ctx.multi[v], 6))]
            obs.append(('idx', ('un', '&', ('var', v)), num(ctx.multi[v] - 1)))
        for i in range(0, len(obs), 8):
            body.append(ev(self.newtag(), *obs[i:i + 8]))
        end = rng.random()
        if end < 0.2 and self.procs:
            body.append(('ret', self.proc_call(ctx)))
        elif end < 0.7:
            body.append(('ret', self.expr(ctx)))
        elif end < 0.8:
            body.append(('ret', None))
        body = self.settle(body)
        return ('fun', name, params, ('block', body))

    # labels: a goto may target any label of the function that gets placed
    def settle(self, body):
        missing = [l for l in self.labels if l not in self.placed]
        for l in missing:
            body.append(('label', l, ('null',)))
            self.placed.append(l)
        return body

    def block(self, ctx, n, depth):
        s = self.stmts(ctx, n, depth)
        if len(s) == 1 and self.rng.random() < 0.5 and s[0][0] not in ('auto', 'extrn'):
            return s[0]
        return ('block', s)

    def stmts(self, ctx, n, depth):
        rng = self.rng
        out = []
        if depth < self.cfg['depth'] and rng.random() < self.cfg['nested_auto']:
            x = self.lname('n')
            out.append(('auto', [(x, None)]))
            ctx = ctx.copy()
            ctx.rd.append(x)
            ctx.wr.append(x)
        for _ in range(n):
            out += self.stmt(ctx, depth)
        return out

    def stmt(self, ctx, depth):
        rng, cfg = self.rng, self.cfg
        self.budget -= 1
        r = rng.random()
        if depth <= 0 or self.budget < 0:
            r = 0.99
        if r < cfg['iff']:
            c = self.expr(ctx)
            a = self.block(ctx, rng.randint(0, 2), depth - 1)
            b = self.block(ctx, rng.randint(0, 2), depth - 1) if rng.random() < 0.6 else None
            if b is not None and rng.random() < 0.25:
                b = ('if', self.expr(ctx), self.block(ctx, 1, depth - 1),
                     self.block(ctx, 1, depth - 1) if rng.random() < 0.5 else None)
            return [('if', c, a, b)]
        r -= cfg['iff']
        if r < cfg['loop']:
            return self.loop(ctx, depth)
        r -= cfg['loop']
        if r < cfg['switch']:
            return self.switch(ctx, depth)
        r -= cfg['switch']
        if r < cfg['goto']:
            return self.goto(ctx, depth)
        r -= cfg['goto']
        if r < cfg['dead']:
            # code after a return or goto must not run
            l = self.newlabel()
            dead = [self.simple(ctx), ev(self.newtag())]
            jump = ('goto', l)
            if rng.random() < 0.3:
                return [('if', self.expr(ctx), ('block', [('ret', self.expr(ctx))] + dead), None)]
            return [('block', [jump] + dead), self.label(l)]
        if r < 0.55:
            return [ev(self.newtag(), *[self.expr(ctx) for _ in range(rng.randint(1, 3))])]
        if r < 0.58:
            return [('null',)]
        return [self.simple(ctx)]

    def place(self, ctx):
        """The address of some word."""
        rng = self.rng
        lv = self.eg(ctx, se=0).lvalue(read=False)
        if lv is None:
            return None
        if lv[0] == 'idx' and lv[1][0] == 'var' and rng.random() < .4:
            return lv[1]                    # the first word of a vector
        if lv[0] == 'un' and lv[1] == '*':
            return lv[2]
        return ('un', '&', lv)

    def proc_call(self, ctx):
        p, q = self.place(ctx), self.place(ctx)
        if p is None or not self.procs:
            return self.expr(ctx)
        return ('call', ('var', self.rng.choice(self.procs)), [p, q, self.expr(ctx, 1)])

    def bytes_op(self, ctx):
        """char or lchar on the bytes of variables."""
        rng = self.rng
        p = self.place(ctx)
        k = rng.choice([num(rng.randrange(8)), ('bin', '&', self.expr(ctx, 1), num(7))])
        if rng.random() < .5:
            return ('expr', ('call', ('var', 'lchar'), [p, k, self.expr(ctx, 1)]))
        return ('expr', ('asg', rng.choice(['', '', '+', '|']), self.eg(ctx).lvalue(read=False),
                         ('call', ('var', 'char'), [p, k])))

    def simple(self, ctx):
        rng = self.rng
        if not ctx.wr:
            return ev(self.newtag(), self.expr(ctx))
        if self.cfg['bytes'] and rng.random() < self.cfg['bytes']:
            return self.bytes_op(ctx)
        g = self.eg(ctx)
        lv = g.lvalue(read=False)
        if self.procs and rng.random() < self.cfg['proc']:
            c = self.proc_call(ctx)
            r = rng.random()
            if r < .3:
                return ('expr', c)
            if r < .7:
                return ('expr', ('asg', '' if rng.random() < .7 else rng.choice(['+', '-', '|', '&', '*']), lv, c))
            if r < .9:
                return ev(self.newtag(), c)
            return ('if', c, ev(self.newtag(), num(1)), ev(self.newtag(), num(0)))
        r = rng.random()
        if r < 0.15:
            return ('expr', ('pre' if lv[0] not in ('var', 'idx') or rng.random() < 0.5 else 'post',
                             rng.choice(['++', '--']), lv))
        if r < 0.2:
            return ('expr', self.expr(ctx))
        if r < 0.3:
            # chained assignment
            lv2 = g.lvalue(read=False)
            return ('expr', ('asg', '' if rng.random() < .6 else rng.choice(['+', '-', '|', '&', '*']), lv,
                             g.assign(2, lv2)))
        return ('expr', g.assign(rng.randint(0, self.cfg['edepth']), lv))

    def loop(self, ctx, depth):
        rng = self.rng
        kind = rng.choice(['up', 'up', 'down', 'goto'])
        i = self.lname('i')
        n = rng.choice([0, 1, 2, 3, 4, 7, 8]) if rng.random() < 0.9 else rng.randint(9, 40)
        if depth < self.cfg['depth'] - 1:
            n = min(n, 3)
        c2 = ctx.copy()
        c2.rd.append(i)
        pre = [('auto', [(i, None)])]
        m = rng.randint(1, 3)
        if kind == 'up':
            c2.idxvars.append((i, max(n, 1)))
            body = self.stmts(c2, m, depth - 1)
            c2.idxvars.pop()
            body.append(('expr', ('pre', '++', ('var', i)) if rng.random() < .5 else
                         ('asg', '+', ('var', i), num(1))))
            w = ('while', ('bin', '<', ('var', i), num(n)), ('block', body))
            # jumping into the loop from elsewhere would leave i alone: still bounded
            return pre + [('expr', ('asg', '', ('var', i), num(0))), w]
        if kind == 'down':
            body = self.stmts(c2, m, depth - 1)
            w = ('while', ('post', '--', ('var', i)), ('block', body))
            w = ('while', ('bin', '>', ('post', '--', ('var', i)), num(0)), w[2])
            return pre + [('expr', ('asg', '', ('var', i), num(n))), w]
        l = self.newlabel()
        body = self.stmts(c2, m, depth - 1)
        back = ('if', ('bin', '<', ('pre', '++', ('var', i)), num(n)), ('goto', l), None)
        return pre + [('expr', ('asg', '', ('var', i), num(0))), self.label(l)] + body + [back]

    def newlabel(self):
        l = self.lname('L')
        self.labels.append(l)
        return l

    def label(self, l, s=None):
        self.placed.append(l)
        return ('label', l, s or ('null',))

    def goto(self, ctx, depth):
        """Forward and (fuelled) backward jumps, possibly out of or into blocks."""
        rng = self.rng
        r = rng.random()
        fuel = ('bin', '>', ('post', '--', ('var', self.fuel)), num(0))
        if r < 0.3:
            l = self.newlabel()
            return [('if', self.expr(ctx), ('goto', l), None)] + self.stmts(ctx, rng.randint(1, 2), depth - 1) + \
                [self.label(l, self.simple(ctx))]
        if r < 0.6:
            l = self.newlabel()
            return [self.label(l, self.simple(ctx))] + self.stmts(ctx, rng.randint(0, 2), depth - 1) + \
                [('if', fuel, ('goto', l), None)]
        if r < 0.8:
            # into the middle of a branch
            l = self.newlabel()
            inner = [self.simple(ctx), self.label(l), self.simple(ctx), ev(self.newtag(), self.expr(ctx))]
            return [('if', self.expr(ctx), ('goto', l), None),
                    ('if', self.expr(ctx), ('block', inner), ('block', [ev(self.newtag())]))]
        # to a label that will be placed later, anywhere (often at the end of the function)
        if len(self.labels) < 60:
            l = self.newlabel()
            return [('if', ('bin', '==', self.expr(ctx), self.expr(ctx)), ('goto', l), None)]
        return [('null',)]

    def switch(self, ctx, depth):
        rng = self.rng
        nc = heavy(rng, 0, 5, 60)
        small = rng.random() < 0.7
        vals = set()
        while len(vals) < nc:
            vals.add(rng.randint(0, nc + 3) if small else pick_num(rng))
        vals = list(vals)
        rng.shuffle(vals)
        body = []
        end = self.newlabel() if rng.random() < 0.7 else None
        for v in vals:
            if rng.random() < 0.15 and 32 <= v < 127 and v not in (39, 42):
                t = "'%c'" % v
            elif rng.random() < 0.2:
                t = num(v, rng)[2] if v else '0'
                t = '0' + oct(v)[2:]
            else:
                t = str(v)
            r = rng.random()
            if r < 0.3:
                body.append(('case', t, v, ('null',)))
            elif r < 0.6:
                body.append(('case', t, v, self.simple(ctx)))
            else:
                body.append(('case', t, v, ev(self.newtag(), self.expr(ctx, 1))))
            if rng.random() < 0.5:
                body += self.stmts(ctx, rng.randint(0, 2), min(depth - 1, 1))
            if end and rng.random() < 0.6:
                body.append(('goto', end))
        if rng.random() < 0.15:
            body = [ev(self.newtag())] + body       # statements before the first case are unreachable
        if rng.random() < 0.5 and vals:
            sel = num(rng.choice(vals)) if rng.random() < .3 else \
                ('cond', self.expr(ctx, 1), num(rng.choice(vals)), self.expr(ctx, 1))
        elif small:
            sel = ('bin', '&', self.expr(ctx, 2), num(rng.choice([3, 7, 15])))
        else:
            sel = self.expr(ctx)
        if self.bad_bare(sel):
            sel = ('par', sel)
        out = [('switch', sel, ('block', body))]
        if end:
            out.append(self.label(end))
        return out

    @staticmethod
    def bad_bare(e):
        return False


class LocalNames:
    """Local names: fresh in the function, may shadow nothing declared here."""

    def __init__(self, outer):
        self.outer = outer
        self.used = set()

    def new(self, p='l', odd=None):
        rng = self.outer.rng
        for _ in range(100):
            n = self.outer.new(p, odd)
            # allow the same local name in other functions now and then
            if rng.random() < 0.3:
                self.outer.used.discard(n)
            if n in self.used:
                continue
            self.used.add(n)
            return n
        raise RuntimeError


def pure_function(rng, names, name, nparams, funs=None):
    """A function of its arguments alone (may be recursive through a bounded counter)."""
    ln = LocalNames(names)
    params = [ln.new('q') for _ in range(nparams)]
    ctx = Ctx()
    ctx.rd = list(params)
    ctx.wr = list(params)
    ctx.funs = dict(funs or {})
    g = ExprGen(rng, ctx, dict(se=0.03, call=0.05))
    body = []
    r = rng.random()
    if r < 0.3:
        x = ln.new('x')
        body.append(('auto', [(x, None)]))
        ctx.rd.append(x)
        ctx.wr.append(x)
        body.append(('expr', g.assign(2, ('var', x), op='')))
    if r < 0.6 and params:
        body.append(('if', g.rvalue(2), ('ret', g.rvalue(2)), None))
    body.append(('ret', g.rvalue(3)))
    s = ('block', body)
    if len(body) == 1 and rng.random() < 0.3:
        s = body[0]
    return ('fun', name, params, s)


def procedure(rng, names, name, funs, procs, globs):
    """A function with effects: works on two words it is passed the addresses of, and on globals."""
    ln = LocalNames(names)
    g = FnGen(rng, names, globs, funs, dict(se=.1, edepth=2))
    g.names = ln
    g.procs = list(procs)
    p, q, n, t = ln.new('pp'), ln.new('pq'), ln.new('pn'), ln.new('pt')
    ctx = Ctx()
    ctx.funs = dict(funs)
    ctx.ptr = {p: 1, q: 1}
    ctx.rd = [n, t]
    ctx.wr = [n, t]
    body = []
    ext = [x for x in sorted(globs) if rng.random() < .2 and x not in ln.used]
    if ext:
        body.append(('extrn', ext))
        for x in ext:
            if globs[x][0] == 'scalar':
                ctx.rd.append(x)
                ctx.wr.append(x)
                if globs[x][1] > 1:
                    ctx.multi[x] = globs[x][1]
            else:
                ctx.vec[x] = globs[x][1]
    body.append(('auto', [(t, None)]))
    if rng.random() < .6:
        body.append(('expr', ('asg', '', ('var', t), ('un', '*', ('var', rng.choice([p, q]))))))
    for _ in range(rng.randint(1, 4)):
        body.append(g.simple(ctx))
    if rng.random() < .3:
        body.append(ev(500 + rng.randrange(100), g.expr(ctx)))
    if rng.random() < .2:
        body.append(('if', g.expr(ctx, 1), ('ret', g.expr(ctx, 1)), None))
        body.append(g.simple(ctx))
    r = rng.random()
    if r < .6:
        body.append(('ret', g.expr(ctx)))
    elif r < .8 and g.procs:
        body.append(('ret', g.proc_call(ctx)))
    return ('fun', name, [p, q, n], ('block', body))


def make_globals(rng, names, n):
    decls, table = [], {}
    for _ in range(n):
        x = names.new('g')
        if rng.random() < 0.6:
            iv = []
            if rng.random() < 0.6:
                iv = [gen_ival(rng)]
            if rng.random() < .2:
                iv = [gen_ival(rng) for _ in range(heavy(rng, 2, 9, 70))]      # that many words
            decls.append(('scalar', x, iv))
            table[x] = ('scalar', max(1, len(iv)))
        else:
            size = rng.choice([1, 2, 3, 4, 5, 8, 16, 64]) if rng.random() < .9 else rng.randint(6, 1500)
            iv = [gen_ival(rng) for _ in range(rng.choice([0, 0, 1, rng.randint(1, min(size, 40))]))]
            iv = iv[:size]
            decls.append(('vec', x, str(size), iv))
            table[x] = ('vec', size)
    return decls, table


def gen_ival(rng):
    r = rng.random()
    if r < 0.5:
        v = pick_num(rng)
        return num_ival(v, rng)
    if r < 0.8:
        v = pick_num(rng)
        t = num(v, rng)
        return ('neg', v, t[2])
    return ('chr', bytes(rng.choice(PRINTABLE) for _ in range(heavy(rng, 1, 3, 8))))


def num_ival(v, rng):
    t = num(v, rng)
    return ('num', v, t[2])


# ------------------------------------------------------------ whole programs

def reference(decls, call, args, max_steps=20000):
    """Run one function under both evaluation orders. Returns (trace, steps) or None."""
    res = []
    for order in ORDERS:
        it = Interp(decls, order, max_steps)
        try:
            r = it.apply(call, args)
        except (Undefined, TooLong, RecursionError):
            return None
        res.append((it.trace, r))
    if any(r != res[0] for r in res):
        return None
    return res[0]


class Program:
    """Globals, helper functions and a number of independent test functions.

    Every test function starts from the initial values of the globals it uses only
    through what main does: the whole program is interpreted in one go, so the
    state carries over from one test function to the next, like in the real run.
    """

    def __init__(self, rng, nfun, cfg=None, nglob=None, npure=None, odd=0.2, nproc=None):
        self.rng = rng
        self.names = Names(rng, odd)
        self.gdecls, table = make_globals(rng, self.names, nglob if nglob is not None else heavy(rng, 0, 5, 40))
        self.pure = []
        funs = {}
        for _ in range(npure if npure is not None else rng.randint(0, 4)):
            n = self.names.new('pf')
            k = heavy(rng, 0, 4, 14)
            self.pure.append(pure_function(rng, self.names, n, k, funs))
            funs[n] = k
        self.procs = []
        for _ in range(nproc if nproc is not None else rng.choice([0, 1, 2, 4])):
            n = self.names.new('pr')
            self.pure.append(procedure(rng, self.names, n, funs, self.procs, table))
            self.procs.append(n)
        self.tests = []
        self.rejected = 0
        base = self.gdecls + self.pure
        for t in range(nfun):
            for attempt in range(6):
                g = FnGen(rng, self.names, table, funs, cfg)
                g.procs = self.procs
                name = self.names.new('t')
                f = g.function(name)
                args = [wrap(pick_num(rng)) for _ in f[2]]
                r = reference(base + [f], name, args)
                if r is not None:
                    self.tests.append((f, args))
                    break
                self.rejected += 1
        # the state of the globals differs in sequence, so check the whole once more
        while True:
            self.build()
            if not self.tests or self.whole() is not None:
                break
            self.drop_bad()

    def main(self, tests):
        body = []
        for n, (f, args) in enumerate(tests):
            body.append(ev(1000000 + n, ('call', ('var', f[1]), [neg(a) for a in args])))
        body.append(('expr', ('call', ('var', 'evend'), [])))
        body.append(('ret', num(len(tests) & 127)))
        return ('fun', 'main', [], ('block', body))

    def build(self):
        ds = self.gdecls + self.pure + [f for f, _ in self.tests] + [self.main(self.tests)]
        self.decls = ds
        order = list(ds)
        self.rng.shuffle(order)
        self.order = order

    def run(self, order, steps=400000):
        it = Interp(self.decls, order, steps, natives={'evend': lambda a: 0})
        r = it.apply('main', [])
        return it.trace, r

    def whole(self):
        try:
            a = self.run('ltr')
            b = [self.run(o) for o in ORDERS[1:]]
        except (Undefined, TooLong, RecursionError):
            return None
        if any(x != a for x in b):
            return None
        self.expect = a
        return a

    def drop_bad(self):
        """Keep the longest good prefix, drop the first bad test function."""
        good = []
        for t in self.tests:
            cur = good + [t]
            ds = self.gdecls + self.pure + [f for f, _ in cur] + [self.main(cur)]
            res = []
            try:
                for order in ORDERS:
                    it = Interp(ds, order, 400000, natives={'evend': lambda a: 0})
                    res.append((it.apply('main', []), it.trace))
            except (Undefined, TooLong, RecursionError):
                self.rejected += 1
                continue
            if any(r != res[0] for r in res):
                self.rejected += 1
                continue
            good = cur
        self.tests = good

    def text(self, style='plain', parens=0.03, rng=None):
        return program_text(self.order, rng or self.rng, style, parens)


class Fixed:
    """A program built from given declarations; main calls the listed test functions."""

    def __init__(self, rng, decls, calls, steps=2000000, one_order=False, order=None):
        body = []
        for n, (f, args) in enumerate(calls):
            body.append(ev(1000000 + n, ('call', ('var', f), [a if isinstance(a, tuple) else
                                                              num(a) if a >= 0 else neg(a) for a in args])))
        body.append(('expr', ('call', ('var', 'evend'), [])))
        body.append(('ret', num(len(calls) & 127)))
        self.rng = rng
        self.decls = decls + [('fun', 'main', [], ('block', body))]
        self.order = list(self.decls)
        if order is None:
            rng.shuffle(self.order)
        self.expect = None
        res = []
        for o in (('ltr',) if one_order else ORDERS):
            it = Interp(self.decls, o, steps, natives={'evend': lambda a: 0})
            r = it.apply('main', [])
            res.append((it.trace, r))
        if any(r != res[0] for r in res):
            raise Undefined('order')
        self.expect = res[0]

    def text(self, style='plain', parens=0.0, rng=None):
        return program_text(self.order, rng or self.rng, style, parens)


def neg(v, rng=None):
    """An expression for any word value; with rng, in any way it can be written."""
    v = wrap(v)
    if rng is not None:
        r = rng.random()
        if r < 0.35:
            return num(v & M64, rng)
        if r < 0.45:
            b = (v & M64).to_bytes(8, 'big').lstrip(b'\0') or b'\0'
            if 10 not in b and 13 not in b:
                return ('chr', b)
    if v >= 0:
        return num(v)
    if v == MIN:
        return ('bin', '-', ('un', '-', num(MAX)), num(1))
    return ('un', '-', num(-v))


def word(rng):
    """Any word, with a preference for the edges."""
    r = rng.random()
    if r < 0.3:
        return rng.randint(-20, 20)
    if r < 0.7:
        v = rng.choice(EDGE)
        return wrap(v if rng.random() < .5 else -v)
    if r < 0.75:
        return MIN
    return wrap(rng.getrandbits(64))
