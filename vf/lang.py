"""The B dialect, independently of blang: syntax trees, a printer that knows the
published grammar (precedence, tokens), and a reference interpreter.

Expressions (tuples):
  ('num', value, text)  ('chr', bytes)  ('str', bytes)  ('var', name)
  ('un', op, e)  op in - ! * &      ('pre', '++', e)   ('post', '++', e)
  ('bin', op, a, b)    ('asg', op, lvalue, e)   op '' or a binary operator
  ('cond', c, a, b)    ('idx', a, i)    ('call', f, [args])    ('par', e)
Statements:
  ('auto', [(name, size|None)])  ('extrn', [names])  ('expr', e)  ('null',)
  ('block', [s])  ('if', c, s, s|None)  ('while', c, s)
  ('switch', e, s)  ('case', text, value, s)  ('goto', L)  ('label', L, s)
  ('ret', e|None)
Declarations:
  ('scalar', name, [ivals])  ('vec', name, size|None, [ivals])
  ('fun', name, [params], stmt)
  ivals: ('num', v, text) ('neg', v, text) ('chr', b) ('str', b)
"""
import re

M64 = (1 << 64) - 1
ORDERS = ('ltr', 'mid', 'rtl')
MIN = -(1 << 63)
MAX = (1 << 63) - 1


def wrap(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


# ----------------------------------------------------------------- printing

PREC = {'*': 12, '/': 12, '%': 12, '+': 11, '-': 11, '<<': 10, '>>': 10,
        '<': 9, '<=': 9, '>': 9, '>=': 9, '==': 8, '!=': 8, '&': 7, '|': 6}
P_COND, P_ASG, P_UN, P_POST, P_PRIM = 5, 4, 13, 14, 15

ESC = {0: '*0', 42: '**', 39: "*'", 34: '*"', 123: '*(', 125: '*)', 9: '*t', 10: '*n', 13: '*r'}


def quote(data, q, rng=None):
    """Source text of a character or string constant."""
    out = []
    for i, b in enumerate(data):
        must = b in (0, 42, 13, 10) or b == ord(q)
        if must or (b in ESC and (rng is None or rng.random() < 0.5)):
            if b == 0 and rng is not None and rng.random() < 0.3:
                out.append('*e')
            else:
                out.append(ESC[b])
        else:
            out.append(chr(b))
    return q + ''.join(out) + q


class Printer:
    """Turns trees into token lists; redundant parentheses are added at random."""

    def __init__(self, rng=None, parens=0.0):
        self.rng, self.parens = rng, parens

    def prec(self, e):
        k = e[0]
        if k == 'bin':
            return PREC[e[1]]
        return {'cond': P_COND, 'asg': P_ASG, 'un': P_UN, 'pre': P_UN, 'post': P_POST,
                'idx': P_POST, 'call': P_POST}.get(k, P_PRIM)

    def paren(self, e, need):
        """Tokens of e in a context that needs at least the given precedence."""
        t = self.expr(e)
        if self.prec(e) < need:
            t = ['('] + t + [')']
        elif self.rng and self.parens and e[0] not in ('num', 'str', 'chr', 'var') \
                and self.rng.random() < self.parens and not self.islv(e):
            t = ['('] + t + [')']
        return t

    @staticmethod
    def islv(e):
        return e[0] in ('var', 'idx', 'pre') or (e[0] == 'un' and e[1] == '*')

    def expr(self, e):
        k = e[0]
        if k == 'num':
            return [e[2]]
        if k == 'raw':
            return list(e[1])
        if k == 'chr':
            return [quote(e[1], "'", self.rng)]
        if k == 'str':
            return [quote(e[1], '"', self.rng)]
        if k == 'var':
            return [e[1]]
        if k == 'par':
            return ['('] + self.expr(e[1]) + [')']
        if k == 'un':
            return [e[1]] + self.paren(e[2], P_UN)
        if k == 'pre':
            return [e[1]] + self.paren(e[2], P_UN)
        if k == 'post':
            return self.paren(e[2], P_POST) + [e[1]]
        if k == 'bin':
            p = PREC[e[1]]
            return self.paren(e[2], p) + [e[1]] + self.paren(e[3], p + 1)
        if k == 'asg':
            return self.paren(e[2], P_UN) + ['=' + e[1]] + self.paren(e[3], P_ASG)
        if k == 'cond':
            return self.paren(e[1], P_COND + 1) + ['?'] + self.paren(e[2], P_ASG) + [':'] + \
                self.paren(e[3], P_COND)
        if k == 'idx':
            return self.paren(e[1], P_POST) + ['['] + self.expr(e[2]) + [']']
        if k == 'call':
            t = self.paren(e[1], P_POST) + ['(']
            for n, a in enumerate(e[2]):
                if n:
                    t.append(',')
                t += self.expr(a)
            return t + [')']
        raise ValueError(k)

    def stmt(self, s):
        k = s[0]
        if k == 'null':
            return [';']
        if k == 'raw':
            return list(s[1])
        if k == 'expr':
            return self.expr(s[1]) + [';']
        if k == 'block':
            t = ['{']
            for x in s[1]:
                t += self.stmt(x)
            return t + ['}']
        if k == 'auto':
            t = ['auto']
            for n, (name, size) in enumerate(s[1]):
                if n:
                    t.append(',')
                t.append(name)
                if size is not None:
                    t += ['[', size if isinstance(size, str) else str(size), ']']
            return t + [';']
        if k == 'extrn':
            t = ['extrn']
            for n, name in enumerate(s[1]):
                if n:
                    t.append(',')
                t.append(name)
            return t + [';']
        if k == 'if':
            then = self.stmt(s[2])
            if s[3] is not None and self.dangles(s[2]):
                then = ['{'] + then + ['}']
            t = ['if', '('] + self.expr(s[1]) + [')'] + then
            if s[3] is not None:
                t += ['else'] + self.stmt(s[3])
            return t
        if k == 'while':
            return ['while', '('] + self.expr(s[1]) + [')'] + self.stmt(s[2])
        if k == 'switch':
            if self.rng and self.rng.random() < 0.3:
                return ['switch'] + self.expr(s[1]) + self.stmt(s[2]) if s[2][0] == 'block' and \
                    self.bare_switch_ok(s[1]) else ['switch', '('] + self.expr(s[1]) + [')'] + self.stmt(s[2])
            return ['switch', '('] + self.expr(s[1]) + [')'] + self.stmt(s[2])
        if k == 'case':
            return ['case', s[1], ':'] + self.stmt(s[3])
        if k == 'goto':
            return ['goto', s[1], ';']
        if k == 'label':
            return [s[1], ':'] + self.stmt(s[2])
        if k == 'ret':
            return ['return', ';'] if s[1] is None else ['return', '('] + self.expr(s[1]) + [')', ';']
        raise ValueError(k)

    @staticmethod
    def bare_switch_ok(e):
        return True   # the statement form of the manuals: 'switch rvalue statement'

    @staticmethod
    def dangles(s):
        """Would an 'else' after s attach to an 'if' inside s?"""
        while True:
            if s[0] == 'if':
                if s[3] is None:
                    return True
                s = s[3]
            elif s[0] == 'while':
                s = s[2]
            elif s[0] in ('label',):
                s = s[2]
            elif s[0] == 'case':
                s = s[3]
            elif s[0] == 'switch':
                s = s[2]
            else:
                return False

    def ival(self, v):
        if v[0] == 'num':
            return [v[2]]
        if v[0] == 'neg':
            return ['-', v[2]]
        return self.expr(v)

    def decl(self, d):
        if d[0] == 'fun':
            t = [d[1], '(']
            for n, p in enumerate(d[2]):
                if n:
                    t.append(',')
                t.append(p)
            return t + [')'] + self.stmt(d[3])
        if d[0] == 'raw':
            return list(d[1])
        t = [d[1]]
        if d[0] == 'vec':
            t.append('[')
            if d[2] is not None:
                t.append(d[2] if isinstance(d[2], str) else str(d[2]))
            t.append(']')
            iv = d[3]
        else:
            iv = d[2]
        for n, v in enumerate(iv):
            if n:
                t.append(',')
            t += self.ival(v)
        return t + [';']


OPS = ['/*', '++', '--', '==', '!=', '<=', '>=', '<<', '>>', '=+', '=-', '=*', '=/', '=%', '=&', '=|',
       '=<', '=>', '=<=', '=>=', '=<<', '=>>', '=!=', '===',
       '+', '-', '*', '/', '%', '&', '|', '!', '=', '<', '>', '?', ':', ',', ';', '(', ')', '[', ']',
       '{', '}']
OPS.sort(key=len, reverse=True)
_word = re.compile(r'[A-Za-z0-9_]')


def munch(s):
    out = []
    while s:
        for o in OPS:
            if s.startswith(o):
                out.append(o)
                s = s[len(o):]
                break
        else:
            return None
    return out


_glue_cache = {}


def must_separate(a, b):
    """Do tokens a and b need white space between them?"""
    if _word.match(a[-1]) and _word.match(b[0]):
        return True
    if a[0] in '\'"' or b[0] in '\'"' or _word.match(a[-1]) or _word.match(b[0]):
        return False
    key = (a, b)
    r = _glue_cache.get(key)
    if r is None:
        # not only the pair: '=' '!' '=' cannot occur, so pairs are enough
        r = _glue_cache[key] = munch(a + b) != [a, b]
    return r


COMMENTS = ['/**/', '/***/', '/****/', '/* x */', '/*/*/', '/* * / ** */', '/*\n*/', '/* "quoted \' */',
            '/* a;b{c}d */', '/*=*/', '/* /* */', '/*\t\r\n\n*/', "/*'*/", '/*"*/', '/* else */', '/*0*/']
SPACES = [' ', ' ', ' ', '\n', '\t', '  ', '\r\n', '\n\n', '\v', '\f', ' \n ']


def layout(tokens, style, rng):
    """Join tokens into source text. Styles: tight, plain, wild, comment, lines."""
    out = []
    prev = None
    for t in tokens:
        if prev is not None:
            need = must_separate(prev, t)
            if style == 'tight':
                sep = ' ' if need else ''
            elif style == 'plain':
                sep = '\n' if prev in (';', '{', '}') else ' ' if need or rng.random() < 0.6 else ''
            elif style == 'lines':
                sep = '\n'
            elif style == 'comment':
                sep = rng.choice(COMMENTS)
                if prev in ('/', '=') or rng.random() < 0.2:
                    sep = ' ' + sep
            else:
                sep = ''
                while rng.random() < 0.5:
                    if rng.random() < 0.25:
                        sep += (' ' if prev in ('/', '=') and not sep else '') + rng.choice(COMMENTS)
                    else:
                        sep += rng.choice(SPACES)
                if need and not sep:
                    sep = rng.choice(SPACES)
            out.append(sep)
        out.append(t)
        prev = t
    return ''.join(out) + ('' if style == 'tight' else '\n')


def program_tokens(decls, rng=None, parens=0.0):
    p = Printer(rng, parens)
    t = []
    for d in decls:
        t += p.decl(d)
    return t


def program_text(decls, rng, style='plain', parens=0.0):
    return layout(program_tokens(decls, rng, parens), style, rng)


# -------------------------------------------------------------- interpreter

class Undefined(Exception):
    """The program does something the language leaves undefined."""


class TooLong(Exception):
    pass


class ExitProgram(Exception):
    pass


def chr_value(b):
    v = 0
    for c in b:
        v = (v << 8) | c
    return wrap(v)


class Interp:
    """Reference semantics. order: 'ltr' or 'rtl' evaluation of unsequenced operands; 'mid' is
    'ltr', but a compound assignment reads the old value after evaluating its right operand."""

    def __init__(self, decls, order='ltr', max_steps=200000, natives=None, stdin=b''):
        self.order = order
        self.steps = max_steps
        self.mem = {}
        self.top = 1 << 20
        self.ro = []            # (start, bytes) string constants
        self.strs = {}
        self.trace = []
        self.out = bytearray()
        self.stdin = stdin
        self.inpos = 0
        self.depth = 0
        self.maxdepth = 0
        self.natives = {'ev': self.n_ev, 'char': self.n_char, 'lchar': self.n_lchar}
        if natives:
            self.natives.update(natives)
        self.globals = {}
        self.funs = {}
        self.funaddr = {}
        self.code = {}
        for d in decls:
            if d[0] == 'fun':
                self.funs[d[1]] = d
            elif d[0] == 'raw':
                pass
            else:
                self.define(d)
        n = 0
        for f in self.funs:
            n += 1
            self.funaddr[(1 << 60) + n * 16] = f
        self.addroff = {f: a for a, f in self.funaddr.items()}

    # memory
    def alloc(self, words):
        a = self.top
        self.top += words * 8 + 64
        for i in range(words):
            self.mem[a + 8 * i] = 0
        return a

    def define(self, d):
        iv = [self.ival(v) for v in (d[2] if d[0] == 'scalar' else d[3])]
        if d[0] == 'scalar':
            a = self.alloc(max(1, len(iv)))
            for i, v in enumerate(iv):
                self.mem[a + 8 * i] = v
        else:
            size = sizeval(d[2])
            n = max(size, len(iv), 1)
            a = self.alloc(1)
            p = self.alloc(n)
            self.mem[a] = p
            for i, v in enumerate(iv):
                self.mem[p + 8 * i] = v
        self.globals[d[1]] = a

    def ival(self, v):
        if v[0] == 'num':
            return wrap(v[1])
        if v[0] == 'neg':
            return wrap(-v[1])
        if v[0] == 'chr':
            return chr_value(v[1])
        return self.string(v[1])

    def string(self, b):
        a = self.strs.get(b)
        if a is None:
            a = self.top
            self.top += (len(b) + 1 + 127) // 64 * 64
            self.ro.append((a, b + b'\0'))
            self.strs[b] = a
        return a

    def load(self, a):
        v = self.mem.get(a)
        if v is None:
            raise Undefined('load outside storage or before initialisation')
        return v

    def store(self, a, v):
        if a not in self.mem:
            raise Undefined('store outside storage')
        self.mem[a] = v

    def getbyte(self, a):
        w = self.mem.get(a & ~7)
        if w is not None:
            return (w >> (8 * (a & 7))) & 255
        for s, b in self.ro:
            if s <= a < s + len(b):
                return b[a - s]
        raise Undefined('byte outside storage')

    def putbyte(self, a, v):
        w = self.mem.get(a & ~7)
        if w is None:
            raise Undefined('byte outside writable storage')
        sh = 8 * (a & 7)
        self.mem[a & ~7] = wrap((w & M64 & ~(255 << sh)) | ((v & 255) << sh))

    # natives
    def n_ev(self, args):
        n = args[0]
        if n < 0 or n > 64 or len(args) < n + 1:
            raise Undefined('ev')
        self.trace.append(tuple(args[1:n + 1]))
        return n

    def n_char(self, args):
        return self.getbyte(args[0] + args[1])

    def n_lchar(self, args):
        self.putbyte(args[0] + args[1], args[2])
        return None

    # expressions
    def tick(self):
        self.steps -= 1
        if self.steps < 0:
            raise TooLong()

    def lv(self, e, env):
        k = e[0]
        if k == 'var':
            n = e[1]
            a = env.vars.get(n)
            if a is not None:
                return a
            if n in env.ext:
                return self.globals[n]
            raise Undefined('not a variable: ' + n)
        if k == 'idx':
            if self.order != 'rtl':
                b = self.ev(e[1], env)
                i = self.ev(e[2], env)
            else:
                i = self.ev(e[2], env)
                b = self.ev(e[1], env)
            return wrap(b + 8 * i)
        if k == 'un' and e[1] == '*':
            return self.ev(e[2], env)
        if k == 'pre':
            a = self.lv(e[2], env)
            self.store(a, wrap(self.load(a) + (1 if e[1] == '++' else -1)))
            return a
        raise Undefined('not an lvalue: ' + k)

    def ev(self, e, env):
        self.steps -= 1
        if self.steps < 0:
            raise TooLong()
        k = e[0]
        if k == 'num':
            return wrap(e[1])
        if k == 'var':
            n = e[1]
            a = env.vars.get(n)
            if a is not None:
                return self.mem[a]
            if n in env.ext:
                return self.mem[self.globals[n]]
            if n in self.addroff:
                return self.addroff[n]
            raise Undefined('unknown name ' + n)
        if k == 'bin':
            if self.order != 'rtl':
                a = self.ev(e[2], env)
                b = self.ev(e[3], env)
            else:
                b = self.ev(e[3], env)
                a = self.ev(e[2], env)
            return binop(e[1], a, b)
        if k == 'par':
            return self.ev(e[1], env)
        if k == 'asg':
            op = e[1]
            if self.order != 'rtl':
                a = self.lv(e[2], env)
                old = self.load(a) if op else 0
                v = self.ev(e[3], env)
                if op and self.order == 'mid':
                    old = self.load(a)
            else:
                v = self.ev(e[3], env)
                a = self.lv(e[2], env)
                old = self.load(a) if op else 0
            if op:
                v = binop(op, old, v)
            self.store(a, v)
            return v
        if k == 'un':
            op = e[1]
            if op == '&':
                return self.lv(e[2], env)
            v = self.ev(e[2], env)
            if op == '-':
                return wrap(-v)
            if op == '!':
                return int(v == 0)
            return self.load(v)
        if k == 'idx':
            return self.load(self.lv(e, env))
        if k == 'pre':
            return self.load(self.lv(e, env))
        if k == 'post':
            a = self.lv(e[2], env)
            v = self.load(a)
            self.store(a, wrap(v + (1 if e[1] == '++' else -1)))
            return v
        if k == 'cond':
            return self.ev(e[2] if self.ev(e[1], env) else e[3], env)
        if k == 'chr':
            return chr_value(e[1])
        if k == 'str':
            return self.string(e[1])
        if k == 'call':
            return self.call(e, env)
        raise Undefined(k)

    def call(self, e, env):
        f = e[1]
        args = []
        name = None
        if f[0] == 'var' and f[1] not in env.vars and f[1] not in env.ext:
            name = f[1]
        if self.order != 'rtl':
            if name is None:
                fv = self.ev(f, env)
            args = [self.ev(a, env) for a in e[2]]
        else:
            args = [self.ev(a, env) for a in reversed(e[2])][::-1]
            if name is None:
                fv = self.ev(f, env)
        if name is None:
            name = self.funaddr.get(fv)
            if name is None:
                raise Undefined('call of a non-function')
        return self.apply(name, args)

    def apply(self, name, args):
        d = self.funs.get(name)
        if d is None:
            n = self.natives.get(name)
            if n is None:
                raise Undefined('no function ' + name)
            r = n(args)
            return 0 if r is None else r    # the generator does not use a result of None
        if len(args) < len(d[2]):
            raise Undefined('missing arguments')
        env = Env()
        env.base = self.top
        for p, a in zip(d[2], args):
            x = self.alloc(1)
            self.mem[x] = wrap(a)
            env.vars[p] = x
        self.depth += 1
        self.maxdepth = max(self.maxdepth, self.depth)
        if self.depth > 150:
            raise TooLong()
        code = self.code.get(name)
        if code is None:
            code = self.code[name] = flatten(d[3])
        r = self.exec(code, env)
        self.depth -= 1
        for a, n in env.owned:
            for i in range(n):
                self.mem.pop(a + 8 * i, None)
        for p in d[2]:
            self.mem.pop(env.vars[p], None)
        return r

    def exec(self, code, env):
        pc = 0
        n = len(code)
        while pc < n:
            self.steps -= 1
            if self.steps < 0:
                raise TooLong()
            i = code[pc]
            pc += 1
            k = i[0]
            if k == 'expr':
                self.ev(i[1], env)
            elif k == 'jz':
                if self.ev(i[1], env) == 0:
                    pc = i[2]
            elif k == 'jmp':
                pc = i[1]
            elif k == 'ret':
                return 0 if i[1] is None else self.ev(i[1], env)
            elif k == 'auto':
                for name, size in i[1]:
                    a = env.vars.get(name)
                    if size is None:
                        if a is None:
                            a = env.vars[name] = self.alloc(1)
                            env.owned.append((a, 1))
                        self.mem[a] = 0
                    else:
                        w = max(1, sizeval(size))
                        if a is None:
                            a = env.vars[name] = self.alloc(1)
                            p = self.alloc(w)
                            env.owned.append((a, 1))
                            env.owned.append((p, w))
                            env.vec[name] = p
                            for j in range(w):
                                # contents of an auto vector are not initialised
                                self.mem[p + 8 * j] = None
                        self.mem[a] = env.vec[name]
            elif k == 'extrn':
                for name in i[1]:
                    env.ext.add(name)
            elif k == 'switch':
                v = self.ev(i[1], env)
                pc = i[2].get(v, i[3])
        return 0


class Env:
    __slots__ = ('vars', 'ext', 'owned', 'vec', 'base')

    def __init__(self):
        self.vars, self.ext, self.owned, self.vec = {}, set(), [], {}


def sizeval(size):
    if size is None:
        return 0
    if isinstance(size, int):
        return size
    if size.startswith("'"):
        return chr_value(size[1:-1].encode())
    return int(size, 8) if size.startswith('0') and len(size) > 1 else int(size)


def binop(op, a, b):
    if op == '+':
        return wrap(a + b)
    if op == '-':
        return wrap(a - b)
    if op == '*':
        return wrap(a * b)
    if op in '/%':
        if b == 0 or (a == MIN and b == -1):
            raise Undefined('division')
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return q if op == '/' else a - q * b
    if op == '<<':
        if not 0 <= b < 64:
            raise Undefined('shift')
        return wrap(a << b)
    if op == '>>':
        if not 0 <= b < 64:
            raise Undefined('shift')
        return a >> b
    if op == '<':
        return int(a < b)
    if op == '<=':
        return int(a <= b)
    if op == '>':
        return int(a > b)
    if op == '>=':
        return int(a >= b)
    if op in ('==', '='):
        return int(a == b)
    if op == '!=':
        return int(a != b)
    if op == '&':
        return wrap(a & b)
    if op == '|':
        return wrap(a | b)
    raise ValueError(op)


def flatten(body):
    """Statement tree -> linear code, with labels resolved."""
    code, labels, fix = [], {}, []

    def go(s, sw):
        k = s[0]
        if k in ('expr', 'auto', 'extrn'):
            code.append(s)
        elif k == 'ret':
            code.append(s)
        elif k == 'block':
            for x in s[1]:
                go(x, sw)
        elif k == 'if':
            j = len(code)
            code.append(None)
            go(s[2], None)
            if s[3] is None:
                code[j] = ('jz', s[1], len(code))
            else:
                j2 = len(code)
                code.append(None)
                code[j] = ('jz', s[1], len(code))
                go(s[3], None)
                code[j2] = ('jmp', len(code))
        elif k == 'while':
            start = len(code)
            code.append(None)
            go(s[2], None)
            code.append(('jmp', start))
            code[start] = ('jz', s[1], len(code))
        elif k == 'switch':
            j = len(code)
            code.append(None)
            table = {}
            go(s[2], table)
            code[j] = ('switch', s[1], table, len(code))
        elif k == 'case':
            sw[wrap(s[2])] = len(code)
            go(s[3], sw)
        elif k == 'label':
            labels[s[1]] = len(code)
            go(s[2], sw)
        elif k == 'goto':
            fix.append((len(code), s[1]))
            code.append(None)
        elif k == 'null':
            pass
        else:
            raise ValueError(k)
    go(body, None)
    for pc, l in fix:
        code[pc] = ('jmp', labels[l])
    return code
