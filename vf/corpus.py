"""Source texts that are only compiled: well-formed programs of every construct, hostile
ones without regard to scope or sense, and damaged ones."""
from .gen import *
from .lang import OPS

RT_CALLS = [('printf', None), ('printd', 1), ('printo', 1), ('write', 1), ('writeb', 1), ('char', 2), ('lchar', 3),
            ('read', 0), ('nread', 3), ('nwrite', 3), ('flush', 0), ('exit', 1)]


def static_program(rng, nfun=None, odd=0.25, rt=True, exotic=True):
    """A well-formed program (never run): declarations in random order."""
    names = Names(rng, odd)
    gdecls, table = make_globals(rng, names, heavy(rng, 0, 4, 20))
    funs, pure = {}, []
    for _ in range(rng.randint(0, 2)):
        n = names.new('pf')
        k = heavy(rng, 0, 3, 12)
        pure.append(pure_function(rng, names, n, k, funs))
        funs[n] = k
    out = list(gdecls) + pure
    if exotic:
        for _ in range(rng.randint(0, 3)):
            x = names.new('x')
            r = rng.random()
            iv = [exotic_ival(rng) for _ in range(heavy(rng, 1, 4, 40))]
            if r < .5:
                out.append(('scalar', x, iv))
                table[x] = ('scalar', 1)
            elif r < .8:
                out.append(('vec', x, None, iv))
                table[x] = ('vec', len(iv))
            else:
                n = rng.randint(0, 2 * len(iv))
                out.append(('vec', x, str(n), iv))
                table[x] = ('vec', max(n, len(iv), 1))
    for _ in range(nfun if nfun is not None else heavy(rng, 1, 2, 6)):
        g = FnGen(rng, names, table, funs, dict(stmts=rng.choice([3, 6, 10]), goto=.15, switch=.15, chain=.08))
        f = g.function(names.new('t'))
        if rt and rng.random() < .7:
            f = ('fun', f[1], f[2], ('block', f[3][1] + [rt_stmt(rng) for _ in range(rng.randint(1, 3))]))
        out.append(f)
    m = [('expr', ('call', ('var', f[1]), [num(pick_num(rng)) for _ in f[2]])) for f in out if f[0] == 'fun']
    rng.shuffle(m)
    if rng.random() < .5:
        m.append(('ret', num(rng.randint(0, 255))))
    out.append(('fun', 'main', [], ('block', m)))
    rng.shuffle(out)
    return out


def exotic_ival(rng):
    if rng.random() < .3:
        return ('str', text_bytes(rng, heavy(rng, 0, 12, 200)))
    return gen_ival(rng)


def rt_stmt(rng):
    n, k = rng.choice(RT_CALLS)
    if n == 'printf':
        return ('expr', ('call', ('var', n), [('str', text_bytes(rng, heavy(rng, 0, 12, 100)))] +
                         [num(pick_num(rng)) for _ in range(rng.randint(0, 4))]))
    return ('expr', ('call', ('var', n), [num(pick_num(rng), rng) for _ in range(k)]))


class Wild:
    """Grammatical programs in which a few names are used in every role. Most are refused
    for some reason, many are not; either way the compiler has to come to an end."""

    def __init__(self, rng):
        self.rng = rng
        pool = ['a', 'b', 'c', 'f', 'g', 'main', 'printf', 'char', 'v', '_', 'a.b'[:1], 'x1', 'write', 'exit',
                'fout', 'data', 'entry', 'label', 'start']
        self.names = rng.sample(pool, rng.randint(2, 6))
        self.left = rng.randint(10, 120)

    def n(self):
        return self.rng.choice(self.names)

    def const(self):
        rng = self.rng
        r = rng.random()
        if r < .15:
            return ('str', text_bytes(rng, heavy(rng, 0, 6, 40)))
        if r < .3:
            return ('chr', bytes(rng.choice(PRINTABLE) for _ in range(rng.randint(1, 8))))
        return num(pick_num(rng), rng)

    def e(self, d):
        rng = self.rng
        self.left -= 1
        if d <= 0 or self.left < 0:
            return ('var', self.n()) if rng.random() < .7 else self.const()
        r = rng.random()
        if r < .25:
            return ('bin', rng.choice(ALLOPS), self.e(d - 1), self.e(d - 1))
        if r < .35:
            return ('un', rng.choice('-!*&'), self.e(d - 1) if rng.random() < .5 else self.lv(d - 1))
        if r < .5:
            return ('asg', rng.choice([''] + ALLOPS), self.lv(d - 1), self.e(d - 1))
        if r < .6:
            return (rng.choice(['pre', 'post']), rng.choice(['++', '--']), self.lv(d - 1))
        if r < .68:
            return ('cond', self.e(d - 1), self.e(d - 1), self.e(d - 1))
        if r < .78:
            return ('idx', self.e(d - 1), self.e(d - 1))
        if r < .92:
            return ('call', self.e(d - 1) if rng.random() < .3 else ('var', self.n()),
                    [self.e(d - 1) for _ in range(heavy(rng, 0, 2, 9))])
        return ('par', self.e(d - 1))

    def lv(self, d):
        r = self.rng.random()
        if r < .6 or d <= 0:
            return ('var', self.n())
        if r < .75:
            return ('idx', self.e(d - 1), self.e(d - 1))
        if r < .9:
            return ('un', '*', self.e(d - 1))
        return self.e(d - 1)

    def s(self, d):
        rng = self.rng
        self.left -= 1
        r = rng.random()
        if d <= 0 or self.left < 0:
            r = .55 + r * .45
        if r < .1:
            return ('if', self.e(2), self.s(d - 1), self.s(d - 1) if rng.random() < .5 else None)
        if r < .16:
            return ('while', self.e(2), self.s(d - 1))
        if r < .26:
            return ('switch', self.e(2), self.s(d - 1))
        if r < .36:
            v = rng.choice([0, 1, 2, 3, pick_num(rng)])
            return ('case', str(v), v, self.s(d - 1))
        if r < .55:
            return ('block', [self.s(d - 1) for _ in range(heavy(rng, 0, 4, 10))])
        if r < .6:
            return ('label', self.n(), self.s(d - 1) if d > 0 else ('null',))
        if r < .65:
            return ('goto', self.n())
        if r < .7:
            return ('ret', self.e(2) if rng.random() < .6 else None)
        if r < .78:
            return ('auto', [(self.n(), rng.choice([None, None, '0', '1', '4', '010']))
                             for _ in range(rng.randint(1, 3))])
        if r < .84:
            return ('extrn', [self.n() for _ in range(rng.randint(1, 3))])
        if r < .86:
            return ('null',)
        return ('expr', self.e(rng.randint(1, 4)))

    def decl(self):
        rng = self.rng
        r = rng.random()
        if r < .2:
            return ('scalar', self.n(), [exotic_ival(rng) for _ in range(rng.choice([0, 1, 1, 3]))])
        if r < .35:
            return ('vec', self.n(), rng.choice([None, '0', '1', '3', '017']),
                    [exotic_ival(rng) for _ in range(rng.choice([0, 0, 1, 4]))])
        ps = [self.n() for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        return ('fun', self.n() if rng.random() < .7 else 'main', ps, self.s(rng.randint(1, 4)))

    def program(self):
        return [self.decl() for _ in range(heavy(self.rng, 1, 3, 8))]


# --------------------------------------------------------------- damage

WORDS = ['auto', 'extrn', 'if', 'else', 'while', 'switch', 'case', 'goto', 'return', 'main', 'a', 'b', 'f', 'v',
         '0', '1', '8', '077', '9223372036854775807', "'a'", "'abcdefgh'", '"s"', '""', '"*n"', '.', '$', '#', '@',
         '\\', '`', '~', '^', '"', "'", '/*', '*/', '//', '\0', '\x80', '\xff', '1a', 'a1', '=!', '=!=', '-1', '+=',
         '==='] + OPS


def mutate_tokens(rng, toks, n=1):
    t = list(toks)
    for _ in range(n):
        if not t:
            t = [rng.choice(WORDS)]
            continue
        i = rng.randrange(len(t))
        r = rng.random()
        if r < .25:
            del t[i]
        elif r < .4:
            t.insert(i, t[i])
        elif r < .55:
            j = rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif r < .75:
            t[i] = rng.choice(WORDS)
        elif r < .9:
            t.insert(i, rng.choice(WORDS))
        elif r < .95:
            j = min(len(t), i + rng.randint(1, 20))
            del t[i:j]
        else:
            j = min(len(t), i + rng.randint(1, 20))
            k = rng.randrange(len(t))
            t[k:k] = t[i:j]
    return t


def mutate_bytes(rng, b, n=1):
    b = bytearray(b)
    for _ in range(n):
        i = rng.randrange(len(b) + 1)
        r = rng.random()
        if r < .3 and i < len(b):
            b[i] ^= 1 << rng.randrange(8)
        elif r < .5:
            b[i:i] = bytes([rng.randrange(256)])
        elif r < .7:
            del b[i:i + 1]
        elif r < .8:
            b[i:i] = rng.choice([b'\0', b'\xef\xbb\xbf', b'\xc3', b'\xf0\x9f\x98\x80', b'\xed\xa0\x80', b'*', b"'", b'"',
                                 b'/*', b'*/', b'\x1a', b'\x7f', b'\r', b'\v', b'\f', b'\xc2\xa0'])
        elif r < .9:
            j = min(len(b), i + rng.randint(1, 40))
            del b[i:j]
        else:
            j = min(len(b), i + rng.randint(1, 40))
            k = rng.randrange(len(b) + 1)
            b[k:k] = b[i:j]
    return bytes(b)


def soup(rng):
    """Random tokens, glued or separated."""
    n = heavy(rng, 1, 15, 300)
    head = rng.choice(['', '', 'main(){', 'f(a,b)', 'v[', 'x ', 'main(){auto a,b;', 'main(){switch(1){',
                       'main(){if(1)'])
    sep = rng.choice(['', ' ', '\n'])
    return (head + sep.join(rng.choice(WORDS) for _ in range(n))).encode('latin-1')


def random_bytes(rng):
    n = heavy(rng, 0, 20, 3000)
    k = rng.random()
    if k < .4:
        return rng.randbytes(n)
    if k < .8:
        return bytes(rng.choice(PRINTABLE + [10, 9, 0]) for _ in range(n))
    return bytes([rng.randrange(256)]) * n


class Tame(Wild):
    """Like Wild, but keeping to the scope rules, so that nearly everything is accepted,
    however pointless: the same few names in all roles, code nobody reaches, odd arities."""

    def __init__(self, rng):
        super().__init__(rng)
        pool = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'v', 'w', '_', 'x1', 'data', 'entry', 'i64', 'start', 'label',
                'if_', 'printf', 'char', 'exit', 'strlen', 'memset', 'puts', 'malloc', 'ptr', 'ret', 'A', 'B', 'fn',
                'unreachable', 'while_', 'fout', 'stdin', 'llvm', 'undef', 'x' * 40]
        rng.shuffle(pool)
        k = rng.randint(5, 14)
        self.names = pool[:k]
        self.vars_ = {}       # globals of the file, and externals
        self.fun_ = []
        for n in self.names:
            r = rng.random()
            if r < .3:
                self.vars_[n] = 'scalar'
            elif r < .5:
                self.vars_[n] = 'vec'
            elif r < .6:
                self.vars_[n] = 'ext'
            else:
                self.fun_.append(n)
        self.left = rng.randint(20, 200)
        self.loc, self.ext = [], []
        self.cases = []
        self.labels, self.todo = [], []

    def anyvar(self):
        c = self.loc + self.ext
        return ('var', self.rng.choice(c)) if c else None

    def e(self, d):
        rng = self.rng
        self.left -= 1
        if d <= 0 or self.left < 0:
            r = rng.random()
            v = self.anyvar()
            if v and r < .7:
                return v
            return self.const()
        if self.fun_ and rng.random() < .03:
            return ('var', rng.choice(self.fun_))
        return self.sub(d)

    def sub(self, d):
        e = Wild.e(self, d)
        if e[0] == 'un' and e[1] == '&':
            v = self.lv(d - 1)
            return ('un', '&', v) if v[0] != 'pre' else v
        if e[0] == 'post' and e[2][0] not in ('var', 'idx'):
            return ('pre', e[1], e[2]) if e[2][0] == 'un' and e[2][1] == '*' else e[2]
        if e[0] == 'call' and e[1][0] == 'var':
            n = [x for x in self.fun_ if x not in self.loc]
            if n and self.rng.random() < .8:
                return ('call', ('var', self.rng.choice(n)), e[2])
            v = self.anyvar()
            return ('call', v, e[2]) if v else self.const()
        return e

    def n(self):
        v = self.anyvar()
        return v[1] if v else self.rng.choice(self.fun_ or ['f'])

    def lv(self, d):
        rng = self.rng
        v = self.anyvar()
        r = rng.random()
        if v and (r < .6 or d <= 0):
            return v
        if r < .8:
            return ('idx', self.e(d - 1), self.e(d - 1))
        if r < .97:
            return ('un', '*', self.e(d - 1))
        return ('pre', rng.choice(['++', '--']), v or ('un', '*', self.const()))

    def s(self, d):
        rng = self.rng
        self.left -= 1
        r = rng.random()
        if d <= 0 or self.left < 0:
            r = .5 + r * .5
        if r < .17:
            save, self.cases = self.cases, []       # a case belongs directly to its switch
            if r < .1:
                t = ('if', self.e(2), self.s(d - 1), self.s(d - 1) if rng.random() < .5 else None)
            else:
                t = ('while', self.e(2), self.s(d - 1))
            self.cases = save
            return t
        if r < .27:
            x = self.e(2)
            self.cases.append(set())
            b = self.s(d - 1)
            if rng.random() < .7:
                b = ('block', [self.s(d - 1) for _ in range(rng.randint(0, 5))])
            self.cases.pop()
            return ('switch', x, b)
        if r < .4:
            if self.cases:
                v = rng.choice([0, 1, 2, 3, 4, 5, pick_num(rng)])
                if v not in self.cases[-1]:
                    self.cases[-1].add(v)
                    return ('case', str(v), v, self.s(d - 1))
        elif r < .52:
            return ('block', [self.s(d - 1) for _ in range(heavy(rng, 0, 4, 10))])
        elif r < .58:
            if self.todo:
                return ('label', self.todo.pop(), self.s(d - 1) if d > 0 else ('null',))
        elif r < .66:
            if self.labels:
                return ('goto', rng.choice(self.labels))
        elif r < .72:
            return ('ret', self.e(2) if rng.random() < .6 else None)
        elif r < .8:
            c = [n for n in self.names if n not in self.loc and n not in self.ext]
            if c:
                n = rng.choice(c)
                self.loc.append(n)
                return ('auto', [(n, rng.choice([None, None, '0', '1', '4', '010', "'a'"]))])
        elif r < .84:
            c = [n for n in self.vars_ if n not in self.loc]
            if c:
                n = rng.choice(c)
                self.ext.append(n)
                return ('extrn', [n] * rng.choice([1, 1, 1, 2]))
        elif r < .86:
            return ('null',)
        return ('expr', self.e(rng.randint(1, 4)))

    def function(self, name):
        rng = self.rng
        ps = rng.sample(self.names, min(len(self.names), rng.choice([0, 0, 1, 2, 3, 6])))
        self.loc, self.ext, self.cases = list(ps), [], []
        self.labels = rng.sample(self.names, rng.randint(0, min(4, len(self.names))))
        self.todo = list(self.labels)
        body = [self.s(rng.randint(1, 4)) for _ in range(rng.randint(0, 6))]
        while self.todo:
            body.append(('label', self.todo.pop(), ('null',)))
        self.left += rng.randint(10, 100)
        return ('fun', name, ps, ('block', body) if len(body) != 1 or rng.random() < .5 else body[0])

    def program(self):
        rng = self.rng
        out = []
        for n, k in sorted(self.vars_.items()):
            if k == 'ext':
                continue
            for _ in range(rng.choice([1, 1, 1, 2, 3])):      # the last one counts
                if (k == 'vec') == (rng.random() < .9):
                    out.append(('vec', n, rng.choice([None, '0', '1', '3', '017', '100000']),
                                [exotic_ival(rng) for _ in range(rng.choice([0, 0, 1, 2, 4]))]))
                else:
                    out.append(('scalar', n, [exotic_ival(rng) for _ in range(rng.choice([0, 1, 1, 3]))]))
        for f in self.fun_:
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                out.append(self.function(f))
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            out.append(self.function('main'))
        rng.shuffle(out)
        return out


def jumps(rng):
    """Functions made of labels and jumps, most of them leading in circles; all labels exist."""
    fs = []
    for f in range(rng.randint(1, 3)):
        n = rng.choice([1, 2, 3, 6, 15, 60])
        labels = ['l%d' % k for k in range(n)]
        free = list(labels)
        rng.shuffle(free)
        lab = lambda: rng.choice(labels[:rng.choice([1, 2, n])])

        def st(d):
            r = rng.randrange(16)
            if r < 4:
                return 'goto %s;' % lab()
            if r < 7 and free:
                return '%s:%s' % (free.pop(), st(d - 1))
            if r == 7:
                return ';'
            if r == 8:
                return 'if(%s)goto %s;' % (rng.choice(['x', '0', '1', 'x<3', 'g()']), lab())
            if r == 9 and d > 0:
                return 'if(%s)%s else %s' % (rng.choice(['x', '0', '1']), st(d - 1), st(d - 1))
            if r == 10 and d > 0:
                return 'while(%s)%s' % (rng.choice(['x', '0', '1', 'x++']), st(d - 1))
            if r == 11 and d > 0:
                return '{%s}' % ''.join(st(d - 1) for _ in range(rng.randint(0, 4)))
            if r == 12 and d > 0:
                return 'switch(%s){%s}' % (rng.choice(['x', '1']), ''.join(
                    (('case %d:' % (10 * d + k)) if rng.random() < .8 else '') + st(0 if rng.random() < .7 else d - 1).replace('switch', 'while') for k in range(rng.randint(0, 4))))
            if r == 13:
                return 'return;' if rng.random() < .5 else 'return(x);'
            if r == 14:
                return 'x=%s;' % rng.choice(['1', 'x', 'x+1'])
            return '{}'
        b = ''.join(st(3) for _ in range(rng.choice([0, 1, 3, 10, 40])))
        while free:
            b += '%s:%s' % (free.pop(), rng.choice([';', 'goto %s;' % lab(), '{}', '{goto %s;}' % lab(), 'return;']) if len(free) != 1 or rng.random() < .5
                            else ';')
        fs.append('f%d(x){%s}' % (f, b))
    return ''.join(fs) + 'g(){}main(){}'


def repeats(rng):
    """Functions in which the same code is written several times."""
    fs = []
    for f in range(rng.randint(1, 3)):
        labels = [0]

        def chunk():
            """a text with @ where a number is needed that is new each time"""
            run = ''.join(rng.choice(['a=a+1;', 'b=a;', 'v[a]=b;', 'b=v[1]*a;', 'a=-b;', 'c++;', 'b=a<c;'])
                          for _ in range(rng.choice([0, 0, 1, 2, 5, rng.randint(1, 120)])))
            con = rng.choice(['if(a)return(b);', 'if(a){return(b);}', 'if(a)return;else b=1;', 'return(a);m@:;', 'while(a)b++;', 'while(a){if(b)return(a);b++;}',
                              'b=a?b:c;', 'b=a?(b?1:2):3;', 'goto m@;m@:;', 'goto m@;b=1;m@:b=2;', 'if(a)goto m@;b=3;m@:;', 'f(a,b?c:a);', 'a=(b=c);',
                              'switch(a){case 1:b=2;case 2:return(b);}', 'switch(a){}', 'b=!a;', 'b=a<b;', '{auto k@;k@=a;}', '{auto k@[5];k@[a]=b;}', 'g("text");', 'g("text","text");',
                              'if(a);', 'if(a);else;', 'while(a<b){a++;if(c)goto m@;}m@:;', 'return;m@:b++;', '', 'extrn y;y=a;', 'return(v[a]);m@:;'])
            return run + con
        cs = [chunk() for _ in range(rng.choice([1, 1, 2, 3]))]
        b = ''
        for _ in range(rng.choice([2, 3, 6, 30])):
            labels[0] += 1
            b += rng.choice(cs).replace('@', '%d' % labels[0])
        if rng.random() < .3:
            b = 'if(c){%s}else{%s}' % (b, b.replace('m', 'n').replace('k', 'q'))
        fs.append('f%d(c){auto a,b,v[9];%s}' % (f, b))
    return 'y;g(s)return(s);f(x,y)return(x);' + ''.join(fs) + 'main(){}'


def examples():
    """(name, text, input) of the programs that come with the compiler; b.b reads programs itself"""
    import os
    from .common import REPO
    d = os.path.join(REPO, 'examples')
    if not os.path.isdir(d):
        return []
    texts = {n: open(os.path.join(d, n), 'rb').read().decode('latin-1') for n in sorted(os.listdir(d)) if n.endswith('.b')}
    out = []
    for n, t in texts.items():
        if n != 'b.b':
            out.append((n, t, b''))
        else:
            for m, u in sorted(texts.items()):
                out.append((n + '<' + m, t, u.encode('latin-1')))
            for u in ('', 'x;', 'main() { }', 'f(a,b) { return(a+b*2); }', 'main(', 'v[10]; main() { extrn v; auto i; i = 0; while (i < 10) { v[i] = i; i = i + 1; } }',
                      'main() { goto l; l: if (1) { return; } else switch (2) { case 1: ; } }'):
                out.append((n + ' on ' + u[:12], t, u.encode('latin-1')))
    return out
