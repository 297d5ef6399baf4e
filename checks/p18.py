"""P18: ill-formed programs are refused.

Verdict monitor: a valid program is compiled (and must be accepted), then many copies of it,
each damaged in exactly one way that makes it ill-formed by construction, wherever in the
program that may be. Every damaged copy must give status 1, a diagnostic, and no output."""
from vf.batch import *
from vf.cmd import MODES
from vf.corpus import *
from vf.lang import OPS

KEYWORDS = ['auto', 'extrn', 'if', 'else', 'while', 'switch', 'case', 'goto', 'return']
FRESH = 'zz_fresh'
OPEN, CLOSE = '([{', ')]}'

# ------------------------------------------------------------- tree walking

EXPR_KIDS = {'un': [2], 'pre': [2], 'post': [2], 'bin': [2, 3], 'asg': [2, 3], 'cond': [1, 2, 3], 'idx': [1, 2],
             'par': [1]}
STMT_KIDS = {'if': [2, 3], 'while': [2], 'switch': [2], 'case': [3], 'label': [2]}
STMT_EXPR = {'expr': 1, 'if': 1, 'while': 1, 'switch': 1, 'ret': 1}


def walk_expr(e, path, role, out):
    out.append((path, e, role))
    k = e[0]
    if k == 'call':
        walk_expr(e[1], path + (1,), 'fn', out)
        for n, a in enumerate(e[2]):
            walk_expr(a, path + (2, n), 'e', out)
        return
    for i in EXPR_KIDS.get(k, ()):
        r = 'e'
        if i == 2 and (k in ('pre', 'post', 'asg') or (k == 'un' and e[1] == '&')):
            r = 'lv'
        if k == 'par':
            r = role
        walk_expr(e[i], path + (i,), r, out)


def walk_stmt(s, path, sw, out, exprs):
    """out: (path, stmt, enclosing); enclosing: 0 outside any switch, 1 directly in one, 2 deeper."""
    out.append((path, s, sw))
    k = s[0]
    if k == 'block':
        for n, x in enumerate(s[1]):
            walk_stmt(x, path + (1, n), sw, out, exprs)
        return
    if k in STMT_EXPR and s[STMT_EXPR[k]] is not None:
        walk_expr(s[STMT_EXPR[k]], path + (STMT_EXPR[k],), 'e', exprs)
    for i in STMT_KIDS.get(k, ()):
        if s[i] is not None:
            inner = 1 if k == 'switch' else 2 if sw and k in ('if', 'while') else sw
            walk_stmt(s[i], path + (i,), inner, out, exprs)


def put_at(node, path, new):
    if not path:
        return new
    i = path[0]
    if isinstance(node, list):
        return node[:i] + [put_at(node[i], path[1:], new)] + node[i + 1:]
    return node[:i] + (put_at(node[i], path[1:], new),) + node[i + 1:]


class Fn:
    """A function of the program, taken apart."""

    def __init__(self, decls, i):
        self.decls, self.i, self.d = decls, i, decls[i]
        self.stmts, self.exprs = [], []
        walk_stmt(self.d[3], (3,), 0, self.stmts, self.exprs)
        self.autos = [n for _, s, _ in self.stmts if s[0] == 'auto' for n, _ in s[1]]
        self.extrns = [n for _, s, _ in self.stmts if s[0] == 'extrn' for n in s[1]]
        self.labels = [s[1] for _, s, _ in self.stmts if s[0] == 'label']
        self.params = list(self.d[2])

    def changed(self, path, new):
        return self.decls[:self.i] + [put_at(self.d, path, new)] + self.decls[self.i + 1:]

    def insert(self, rng, s, where=None):
        """Insert a statement at a random place of a random block (or the given kind of place)."""
        blocks = [(p, b) for p, b, sw in self.stmts if b[0] == 'block' and (where is None or where(p, b, sw))]
        if not blocks:
            if where is not None or self.d[3][0] == 'block':
                return None
            both = [s, self.d[3]]
            rng.shuffle(both)
            return self.changed((3,), ('block', both))
        p, b = rng.choice(blocks)
        k = rng.randint(0, len(b[1]))
        return self.changed(p, ('block', b[1][:k] + [s] + b[1][k:]))


def functions(decls):
    return [Fn(decls, i) for i, d in enumerate(decls) if d[0] == 'fun']


def defined(decls):
    f = {d[1] for d in decls if d[0] == 'fun'}
    v = {d[1] for d in decls if d[0] in ('scalar', 'vec')}
    return f, v


def pickfn(rng, decls):
    f = functions(decls)
    return rng.choice(f) if f else None


def toks(s):
    return s.split()


# --------------------------------------------------- defects in the syntax tree
# each takes (rng, decls) and returns damaged declarations, or None if it does not apply

def lvalue_roles(fn):
    return [(p, e) for p, e, r in fn.exprs if r == 'lv']


def not_lvalue(rng, fn, decls):
    a = ('num', 3, '3')
    v = ('var', rng.choice(fn.autos + fn.params)) if fn.autos + fn.params else a
    fs = sorted(defined(decls)[0] - set(fn.autos + fn.params + fn.extrns))
    alts = [a, ('chr', b'x'), ('str', b'abc'), ('bin', rng.choice(ALLOPS), v, a), ('un', '-', v), ('un', '!', v),
            ('call', ('var', rng.choice(fs)), [a]) if fs else a, ('cond', v, v, v), ('num', 0, '0'),
            ('par', ('bin', '+', v, a)), ('par', a)]
    if fs:
        alts += [('var', rng.choice(fs))] * 2
    if v != a:
        alts += [('asg', '', v, a), ('post', '++', v), ('un', '&', v)]
    return rng.choice(alts)


def d_lvalue(rng, decls):
    fn = pickfn(rng, decls)
    if not fn:
        return None
    c = lvalue_roles(fn)
    if c and rng.random() < .7:
        p, e = rng.choice(c)
        return fn.changed(p, not_lvalue(rng, fn, decls))
    x = not_lvalue(rng, fn, decls)
    k = rng.randrange(4)
    e = [('asg', rng.choice([''] + ALLOPS), x, ('num', 1, '1')), ('pre', rng.choice(['++', '--']), x),
         ('post', rng.choice(['++', '--']), x), ('un', '&', x)][k]
    return place_expr(rng, fn, e)


def place_expr(rng, fn, e):
    """Put an expression somewhere in the function: as an operand or as a statement."""
    c = [p for p, x, r in fn.exprs if r == 'e']
    if c and rng.random() < .6:
        return fn.changed(rng.choice(c), ('par', e))
    return fn.insert(rng, ('expr', e))


def d_undeclared(rng, decls):
    """A name nobody declared, where a variable has to be."""
    fn = pickfn(rng, decls)
    if not fn:
        return None
    if rng.random() < .5:
        x = ('var', FRESH)
    else:
        # a variable of the file or of another function, not known in this one
        f, v = defined(decls)
        c = set(v)
        for g in functions(decls):
            if g.i != fn.i:
                c |= set(g.autos + g.params + g.extrns)
        c -= set(fn.autos + fn.params + fn.extrns) | f
        if not c:
            return None
        x = ('var', rng.choice(sorted(c)))
    c = [p for p, e in lvalue_roles(fn) if e[0] == 'var']
    if c and rng.random() < .5:
        return fn.changed(rng.choice(c), x)
    e = [('asg', rng.choice([''] + ALLOPS), x, ('num', 1, '1')), ('pre', rng.choice(['++', '--']), x),
         ('post', rng.choice(['++', '--']), x), ('un', '&', x)][rng.randrange(4)]
    return place_expr(rng, fn, e)


def d_lost_decl(rng, decls):
    """Take a name out of all extrn or auto statements of a function that stores into it."""
    fn = pickfn(rng, decls)
    if not fn:
        return None
    used = {e[1] for p, e, r in fn.exprs if r == 'lv' and e[0] == 'var'}
    c = sorted(used & set(fn.extrns) - set(fn.autos + fn.params)) + sorted(used & set(fn.autos) - set(fn.params + fn.extrns))
    if not c:
        return None
    n = rng.choice(c)
    d = fn.d
    for p, s, _ in fn.stmts:
        if s[0] == 'extrn' and n in s[1]:
            rest = [x for x in s[1] if x != n]
            d = put_at(d, p, ('extrn', rest) if rest else ('null',))
        if s[0] == 'auto' and n in [x for x, _ in s[1]]:
            rest = [x for x in s[1] if x[0] != n]
            d = put_at(d, p, ('auto', rest) if rest else ('null',))
    return fn.decls[:fn.i] + [d] + fn.decls[fn.i + 1:]


def d_goto(rng, decls):
    """goto a label that this function does not define."""
    fn = pickfn(rng, decls)
    if not fn:
        return None
    c = [FRESH]
    for g in functions(decls):
        c += g.labels + [g.d[1]]
    c += fn.autos + fn.params + fn.extrns + sorted(defined(decls)[1])
    c = [x for x in c if x not in fn.labels]
    return fn.insert(rng, ('goto', rng.choice(c)))


def d_lost_label(rng, decls):
    c = []
    for fn in functions(decls):
        goes = {s[1] for _, s, _ in fn.stmts if s[0] == 'goto'}
        for p, s, _ in fn.stmts:
            if s[0] == 'label' and s[1] in goes:
                c.append((fn, p, s))
    if not c:
        return None
    fn, p, s = rng.choice(c)
    return fn.changed(p, s[2])


def d_label_twice(rng, decls):
    c = [fn for fn in functions(decls) if fn.labels]
    if not c:
        fn = pickfn(rng, decls)
        if not fn:
            return None
        a = fn.insert(rng, ('label', FRESH, ('null',)))
        return Fn(a, fn.i).insert(rng, ('label', FRESH, ('null',))) if a else None
    fn = rng.choice(c)
    s = ('label', rng.choice(fn.labels), rng.choice([('null',), ('ret', None), ('expr', ('num', 1, '1'))]))
    return fn.insert(rng, s)


def notations(rng, v):
    out = [('case', str(v)), ('case', '0' + ('%o' % v) if v else '00'), ('case', '00%o' % v)]
    if 32 < v < 127 and chr(v) not in "*'":
        out.append(('case', "'%s'" % chr(v)))
    if v in (0, 9, 10, 42, 39):
        out.append(('case', "'%s'" % {0: '*0', 9: '*t', 10: '*n', 42: '**', 39: "*'"}[v]))
    return rng.choice(out)[1]


def direct_places(body, path=(2,)):
    """Blocks directly inside a switch body (not inside a nested switch, if or while)."""
    out = []
    if body[0] == 'block':
        out.append(path)
        for n, x in enumerate(body[1]):
            out += direct_places(x, path + (1, n))
    elif body[0] in ('case', 'label'):
        k = 3 if body[0] == 'case' else 2
        out += direct_places(body[k], path + (k,))
    return out


def direct_cases(body):
    if body[0] == 'block':
        return [v for x in body[1] for v in direct_cases(x)]
    if body[0] == 'case':
        return [body[2]] + direct_cases(body[3])
    if body[0] == 'label':
        return direct_cases(body[2])
    return []


def node_at(node, path):
    for i in path:
        node = node[i]
    return node


def switches(decls):
    return [(fn, p, s) for fn in functions(decls) for p, s, _ in fn.stmts if s[0] == 'switch']


def in_switch(rng, decls, make):
    c = [(fn, p, s, q) for fn, p, s in switches(decls) for q in direct_places(s[2])]
    if not c:
        fn = pickfn(rng, decls)
        v = pick_num(rng) % (1 << 40)
        s = ('switch', ('num', 1, '1'), ('block', [('case', notations(rng, v), v, ('null',))]))
        decls = fn.insert(rng, s) if fn else None
        if decls is None:
            return None
        c = [(fn, p, s, q) for fn, p, s in switches(decls) for q in direct_places(s[2])]
    fn, p, s, q = rng.choice(c)
    new = make(s)
    if new is None:
        return None
    b = node_at(s, q)
    k = rng.randint(0, len(b[1]))
    return fn.changed(p + q, ('block', b[1][:k] + [new] + b[1][k:]))


def d_case_twice(rng, decls):
    def make(s):
        v = [x for x in direct_cases(s[2]) if 0 <= x < 1 << 60]
        if not v:
            return None
        v = rng.choice(v)
        return ('case', notations(rng, v), v, ('null',))
    return in_switch(rng, decls, make)


def d_far_twice(rng, decls):
    """The same label, case value, parameter or name in a long list of others, anywhere in it."""
    fn = pickfn(rng, decls)
    if not fn:
        return None
    n = rng.choice([3, 9, 18, 33, 70, 130])
    i, j = sorted(rng.sample(range(n + 1), 2)) if rng.random() < .7 else (0, n)
    kind = rng.randrange(4)
    if kind == 0:
        vals = rng.sample(range(0, 4 * n), n)
        vals.insert(j, vals[min(i, n - 1) if i < j else 0])
        if len(set(vals)) == len(vals):
            return None
        body = []
        for v in vals:
            body.append(('case', notations(rng, v), v, ('null',)))
            if rng.random() < .2:
                body.append(rng.choice([('null',), ('ret', None), ('block', [])]))
        return fn.insert(rng, ('switch', ('num', 1, '1'), ('block', body)))
    names = ['zq%d' % k for k in range(n)]
    names.insert(j, names[i])
    if kind == 1:
        for k, x in enumerate(names):
            decls = fn.insert(rng, ('label', x, ('null',)))
            if decls is None:
                return None
            fn = Fn(decls, fn.i)
        return decls
    if kind == 2:
        f = ('fun', FRESH, names[:rng.choice([len(names), j + 1])], ('ret', None))
        return put_decl(rng, decls, f)
    if rng.random() < .5:
        return fn.insert(rng, ('auto', [(x, rng.choice([None, None, '2'])) for x in names]))
    body = [('auto', [(x, rng.choice([None, None, '2']))]) for x in names]
    f = ('fun', FRESH, ['zq0'] if i and rng.random() < .3 else [], ('block', body))
    return put_decl(rng, decls, f)


def d_case_constant(rng, decls):
    t = rng.choice(['case x :', 'case main :', 'case 1 + 2 :', 'case ( 1 ) :', 'case :', 'case "s" :', 'case 1',
                    'case 1 ;', 'case 1 , 2 :', 'case f ( ) :', 'case ! 1 :', 'case 5 = 5 :', 'case'])
    return in_switch(rng, decls, lambda s: ('raw', toks(t) + [';']))


def d_case_outside(rng, decls):
    c = [fn for fn in functions(decls) if any(b[0] == 'block' and sw == 0 for _, b, sw in fn.stmts)]
    if not c:
        return None
    v = pick_num(rng) % 1000
    s = ('case', notations(rng, v), v, ('null',))
    return rng.choice(c).insert(rng, s, lambda p, b, sw: sw == 0)


def d_auto_twice(rng, decls):
    c = [fn for fn in functions(decls) if fn.autos + fn.params]
    if not c:
        return None
    fn = rng.choice(c)
    n = rng.choice(fn.autos + fn.params)
    d = (n, rng.choice([None, None, '0', '3']))
    a = [s for _, s, _ in fn.stmts if s[0] == 'auto']
    if a and rng.random() < .4:
        p, s = rng.choice([(p, s) for p, s, _ in fn.stmts if s[0] == 'auto'])
        k = rng.randint(0, len(s[1]))
        return fn.changed(p, ('auto', s[1][:k] + [d] + s[1][k:]))
    more = [(FRESH, None)] * rng.choice([0, 0, 1])
    return fn.insert(rng, ('auto', more + [d]))


def d_param_twice(rng, decls):
    fn = pickfn(rng, decls)
    if not fn:
        return None
    ps = fn.params or [FRESH]
    n = rng.choice(ps)
    k = rng.randint(0, len(ps))
    ps = ps[:k] + [n] + ps[k:]
    return decls[:fn.i] + [('fun', fn.d[1], ps, fn.d[3])] + decls[fn.i + 1:]


def put_decl(rng, decls, d):
    k = rng.randint(0, len(decls))
    return decls[:k] + [d] + decls[k:]


def d_two_kinds(rng, decls):
    """One name as function and as variable."""
    f, v = defined(decls)
    r = rng.random()
    if r < .35 and f:
        n = rng.choice(sorted(f))
        return put_decl(rng, decls, rng.choice([('scalar', n, []), ('scalar', n, [('num', 5, '5')]),
                                                ('vec', n, '3', []), ('vec', n, None, [('num', 5, '5')])]))
    if r < .65 and v:
        return put_decl(rng, decls, ('fun', rng.choice(sorted(v)), rng.choice([[], ['a']]), ('block', [])))
    fn = pickfn(rng, decls)
    if not fn:
        return None
    if r < .85:
        c = sorted(f - set(fn.autos + fn.params))
        return fn.insert(rng, ('extrn', [rng.choice(c)] + rng.choice([[], [FRESH]]))) if c else None
    # called without declaration here, a variable there
    a = fn.insert(rng, ('expr', ('call', ('var', FRESH), [])))
    return put_decl(rng, a, rng.choice([('scalar', FRESH, []), ('vec', FRESH, '2', [])])) if a else None


BAD_IVALS = ['x', 'main', '1 + 2', '( 5 )', 'f ( )', '& x', 'x [ 1 ]', '- - 5', '- x', '1 * 2', '! 1', '- "s"', '1 2',
             '"a" "b"', '', '=', '1 = 1', '5 ,', ', 5', '{ 1 , 2 }', '[ 1 ] 2 [', '+ 5', '-', '1 ; 2', "'a' 'b'"]
BAD_SIZES = ['x', '1 + 2', '- 1', '"s"', '( 3 )', '1 , 2', '3 3', 'f ( )', '[ 3 ]', '=', '* 3', '3 ;']


def d_ival(rng, decls):
    c = [(i, d) for i, d in enumerate(decls) if d[0] in ('scalar', 'vec')]
    bad = ('raw', [t for t in toks(rng.choice(BAD_IVALS)) if t])
    if not c or rng.random() < .3:
        if not bad[1]:
            return None
        return put_decl(rng, decls, rng.choice([('scalar', FRESH, [bad]), ('vec', FRESH, '2', [bad])]))
    i, d = rng.choice(c)
    iv = d[-1]
    if not bad[1] and len(iv) < 2:
        return None
    if iv and rng.random() < .6 and (bad[1] or len(iv) > 1):
        k = rng.randrange(len(iv))
        new = iv[:k] + [bad] + iv[k + 1:]
    else:
        k = rng.randint(0, len(iv))
        new = iv[:k] + [bad] + iv[k:]
    return decls[:i] + [d[:-1] + (new,)] + decls[i + 1:]


def d_size(rng, decls):
    bad = rng.choice(BAD_SIZES)
    if rng.random() < .5:
        return put_decl(rng, decls, ('raw', [FRESH, '['] + toks(bad) + [']'] + rng.choice([[], ['1'], ['1', ',', '2']]) + [';']))
    fn = pickfn(rng, decls)
    return fn.insert(rng, ('raw', ['auto'] + rng.choice([[], ['zz_other', ',']]) + [FRESH, '['] + toks(bad) + [']', ';'])) if fn else None


BAD_STMTS = ['goto ;', 'goto 5 ;', 'goto ( x ) ;', 'goto "s" ;', 'goto', 'goto x y ;', 'goto main , main ;', 'auto ;', 'auto 5 ;',
             'auto zz , ;', 'auto , zz ;', 'auto zz yy ;', 'auto zz [ ;', 'auto zz [ 3 ;', 'auto zz 3 ] ;', 'auto zz', 'auto ( zz ) ;',
             'auto zz = 5 ;', 'auto * zz ;', 'auto zz , yy', 'auto zz ( 3 ) ;', 'extrn ;', 'extrn 5 ;', 'extrn zz [ 3 ] ;', 'extrn zz , ;',
             'extrn , zz ;', 'extrn zz yy ;', 'extrn zz = 5 ;', 'extrn zz', 'extrn zz ( ) ;', 'if 1 ;', 'if ;', 'if ( ) ;', 'if ( 1 ; 2 ) ;', 'if ( 1 , 2 ) ;',
             'if ( 1 ) else ;', 'if ( 1 ) ; ; else ;', 'if ( 1 ) ; else ; else ;', 'if ( 1 ) { else ; }', '; else ;', '; else { }', '{ else ; }', 'while 1 ;', 'while ;',
             'while ( ) ;', 'while ( 1 2 ) ;', 'while ( 1 ) ; else ;', 'while ( 1 , 2 ) ;', 'return 5 ;', 'return ( ) ;', 'return ( 1 , 2 ) ;',
             'return ( 1 ) 2 ;', 'return', 'return ( 1 )', 'return 1 + 2 ;', 'return main ( ) ;', 'switch ;', 'switch ( ) ;', 'switch { }', 'switch ( 1 , 2 ) ;',
             'zz yy ;', '1 2 ;', '( 1 ;', '1 ) ;', '( ) ;', '= 5 ;', '+ 5 ;', '+ ;', ', ;', '? ;', ': ;', '5 : ;', '"s" : ;', '1 ? 2 ;',
             '1 ? : 2 ;', '1 ? 2 : ;', '? 1 : 2 ;', '1 : 2 ;', 'main ( , ) ;', 'main ( 1 , ) ;', 'main ( , 1 ) ;', 'main ( 1 2 ) ;', 'main ( 1 ; 2 ) ;',
             'main ( ;', 'main ( 1 ;', 'main ( 1 ] ;', 'main [ 1 ) ;', '1 [ ] ;', '[ 1 ] ;', '1 [ 2 , 3 ] ;', '* ;', '& ;', '! ;', '- ;', '++ ;', '-- ;', '1 + ;',
             '1 + ( ) ;', '1 + * ;', '1 == == 2 ;', '1 < > 2 ;', '1 <= >= 2 ;', '1 / / 2 ;', '1 % % 2 ;', '1 | | 2 ;', '1 + , 2 ;', '1 , 2 ;', '{ 1 ; ',
             '1 ; } ;', 'zz . yy ;', '1 << << 2 ;', '1 = 2 ;', '5 ++ ;', '++ 5 ;', '& 5 ;', '1 =+ 2 ;', 'auto int zz ;', 'for ( ; ; ) ;', 'do 1 ; while ( 1 ) ;',
             'main ( ) { }', 'struct { } ;', '# 1 ;', '1 ;; }', '( 1 + 2 ;', '1 + 2 ) ;', '{ { } ;', '{ ( } ) ;', '1 * * ;', 'main ( ( 1 ) ;',
             '"abc" 1 ;', "'a' 'b' ;", "'a' \"b\" ;", '1 "s" ;', 'case', 'case 1', 'case 1 ;', 'case : ;', 'case zz : ;', 'if', 'while', 'switch',
             'if (', 'if ( 1', 'if ( 1 )', 'while ( 1 )', '1 <<', '1 ? 2 :', '! ! ;', '- - ;', 'if ( 1 ) 2 else ;', 'if ( 1 ) { } ; else ;', 'while ( 1 ) 2',
             'zz : }', 'return ( 1 ;', 'return 1 ) ;', 'switch ( 1 { }', 'extrn extrn ;', 'auto auto ;', 'goto goto ;', 'return return ;',
             'if if ( 1 ) ;', 'zz : : ;', 'zz :: ;', '1 === 2 ;', '1 =! = 2 ;', '1 = ;', '1 === ;', '1 != ;', '( ( 1 ) ;', '( 1 ) ) ;']

BAD_DECLS = ['5 ;', ';', '"s" ;', "'a' ;", '( ) { }', '{ }', 'zz ( 5 ) { }', 'zz ( a b ) { }', 'zz ( a , ) { }', 'zz ( , a ) { }', 'zz ( a ; b ) { }',
             'zz ( a [ 3 ] ) { }', 'zz [ 3 ;', 'zz 3 ] ;', 'zz ] ;', 'zz yy ;', 'zz 1 + 2 ;', 'zz 1 , ;', 'zz , 1 ;', 'zz = 5 ;', 'zz : ;', 'zz : 5 ;', 'auto zz ;',
             'extrn zz ;', 'if ( 1 ) ;', 'while ( 1 ) ;', 'return ( 1 ) ;', 'return ;', 'goto zz ;', 'case 1 : ;', 'switch ( 1 ) { }', 'zz - ;', 'zz - yy ;', 'zz 5 5 ;',
             'zz ( ) 5', 'zz ( ) }', 'zz ( ) { } }', 'zz ( { }', 'zz ( a { }', 'zz ) { }', 'zz { }', 'zz [ ] [ ] ;', 'zz [ 2 ] = 5 ;', '* zz ;', '& zz ;', 'zz ++ ;',
             '++ zz ;', '= ;', '- 5 ;', 'zz ( ) { } ;', 'zz ; ;', 'zz 1 ; 2 ;', '} ;', ') ;', '] ;', 'zz', 'zz 5', 'zz [ 3 ]', 'zz [ 3 ] 1', 'zz [ 3 ] 1 ,',
             'zz ( )', 'zz ( a )', 'zz (', 'zz [', 'zz ( ) {', 'zz ( ) { yy', 'else ;', 'main : ;', '? ;', '# zz', 'zz , yy ;', 'zz [ 2 ] , ;', 'zz . yy ;',
             'zz [ 2 ] 1 2 ;', 'zz { 1 , 2 } ;', 'zz [ 2 ] { 1 , 2 } ;', 'int zz ;', 'zz ( int a ) { }', 'zz ( ) extrn yy ;  }']
# these swallow what comes after them, so they may only stand at the very end
AT_END = {'zz', 'zz 5', 'zz [ 3 ]', 'zz [ 3 ] 1', 'zz [ 3 ] 1 ,', 'zz ( )', 'zz ( a )', 'zz (', 'zz [', 'zz ( ) {', 'zz ( ) { yy'}


def at_end_of_block(t):
    """Incomplete statements are only certainly wrong before a closing brace."""
    return t[-1] not in (';', '}')


def d_stmt(rng, decls):
    fn = pickfn(rng, decls)
    if not fn:
        return None
    t = toks(rng.choice(BAD_STMTS))
    if not at_end_of_block(t):
        return fn.insert(rng, ('raw', t))
    c = [(p, b) for p, b, _ in fn.stmts if b[0] == 'block']
    if not c:
        return None
    p, b = rng.choice(c)
    return fn.changed(p, ('block', b[1] + [('raw', t)]))


def d_decl(rng, decls):
    t = rng.choice(BAD_DECLS)
    if t in AT_END:
        return decls + [('raw', toks(t))]
    return put_decl(rng, decls, ('raw', [x for x in toks(t) if x]))


def d_no_operand(rng, decls):
    """An operand replaced by nothing between parentheses, or a comma."""
    fn = pickfn(rng, decls)
    c = [(p, e) for p, e, r in fn.exprs if r in ('e', 'fn')] if fn else []
    if not c:
        return None
    p, e = rng.choice(c)
    return fn.changed(p, ('raw', rng.choice([['(', ')'], [','], ['(', ',', ')'], ['(', '1', ',', '2', ')'], ['(', ';', ')'], [';', ',']])))


def d_keyword(rng, decls):
    """A keyword where a name has to stand."""
    k = rng.choice(KEYWORDS)
    fn = pickfn(rng, decls)
    r = rng.random()
    if fn is None or r < .12:
        d = rng.choice([('scalar', k, []), ('scalar', k, [('num', 5, '5')]), ('vec', k, '2', []), ('fun', k, [], ('block', [])),
                        ('fun', k, ['a'], ('block', []))])
        return put_decl(rng, decls, d)
    if r < .3:
        ps = list(fn.params)
        ps.insert(rng.randint(0, len(ps)), k)
        return decls[:fn.i] + [('fun', fn.d[1], ps, fn.d[3])] + decls[fn.i + 1:]
    if r < .4:
        return fn.insert(rng, ('auto', rng.choice([[(k, None)], [(FRESH, None), (k, None)], [(k, '3')], [(FRESH, '3'), (k, None)]])))
    if r < .5:
        return fn.insert(rng, ('extrn', rng.choice([[k], [FRESH, k]])))
    if r < .6:
        return fn.insert(rng, ('goto', k))
    if r < .7:
        return fn.insert(rng, ('label', k, ('null',)))
    # as an operand, away from the beginning of the statement
    c = []
    for p, e, role in fn.exprs:
        if e[0] in ('bin', 'asg'):
            c.append(p + (3,))
        elif e[0] in ('un', 'pre'):
            c.append(p + (2,))
        elif e[0] == 'idx':
            c.append(p + (2,))
        elif e[0] == 'call':
            c += [p + (2, n) for n in range(len(e[2]))]
    if not c:
        return None
    return fn.changed(rng.choice(c), ('var', k))


TREE = {'not an lvalue': (d_lvalue, 6), 'undeclared name': (d_undeclared, 4), 'declaration lost': (d_lost_decl, 2),
        'goto nowhere': (d_goto, 3), 'label lost': (d_lost_label, 2), 'label twice': (d_label_twice, 3), 'case twice': (d_case_twice, 4), 'twice in a long list': (d_far_twice, 6),
        'case not constant': (d_case_constant, 2), 'case outside switch': (d_case_outside, 2), 'auto twice': (d_auto_twice, 3),
        'parameter twice': (d_param_twice, 2), 'function and variable': (d_two_kinds, 4), 'initial value': (d_ival, 3),
        'vector size': (d_size, 2), 'malformed statement': (d_stmt, 8), 'malformed declaration': (d_decl, 4),
        'missing operand': (d_no_operand, 4), 'keyword as name': (d_keyword, 4)}

# ------------------------------------------------------- defects in the tokens
# each takes (rng, tokens) and returns damaged tokens, a string (final text), or None


def is_word(t):
    return t[0].isalnum() or t[0] == '_'


def is_name(t):
    return (t[0].isalpha() or t[0] == '_') and t not in KEYWORDS


def is_const(t):
    return t[0].isdigit() or t[0] in '\'"'


def t_bracket_lost(rng, t):
    c = [i for i, x in enumerate(t) if x in OPEN + CLOSE]
    if not c:
        return None
    i = rng.choice(c)
    return t[:i] + t[i + 1:]


def t_bracket_extra(rng, t):
    i = rng.randint(0, len(t))
    return t[:i] + [rng.choice(OPEN + CLOSE)] + t[i:]


def t_bracket_kind(rng, t):
    c = [i for i, x in enumerate(t) if x in OPEN + CLOSE]
    if not c:
        return None
    i = rng.choice(c)
    s = OPEN + CLOSE
    return t[:i] + [rng.choice([x for x in s if x != t[i]])] + t[i + 1:]


def t_semicolon(rng, t):
    c = []
    for i, x in enumerate(t):
        if x != ';' or i == 0:
            continue
        p = t[i - 1]
        q = t[i + 1] if i + 1 < len(t) else '}'
        if (is_name(p) or is_const(p) or p in ']') and (is_name(q) or q in KEYWORDS or is_const(q) or q == '}'):
            c.append(i)
        if p == ')' and q == '}' and i + 1 < len(t) and closes_expression(t, i - 1):
            c.append(i)
    if not c:
        return None
    i = rng.choice(c)
    return t[:i] + t[i + 1:]


def closes_expression(t, i):
    """Is the ')' at i the end of an expression (and not of a condition)?"""
    n = 0
    while i >= 0:
        n += (t[i] == ')') - (t[i] == '(')
        if n == 0:
            return i > 0 and t[i - 1] not in ('if', 'while', 'switch')
        i -= 1
    return False


SYMBOLS = set(OPS) - {'++', '--', '/*', ',', ';', '(', ')', '[', ']', '{', '}', ':', '?'}


def t_right_operand(rng, t):
    c = [i for i in range(1, len(t) - 1) if t[i - 1] in SYMBOLS and (is_name(t[i]) or is_const(t[i])) and t[i + 1] in (');,]:?')]
    if not c:
        return None
    i = rng.choice(c)
    return t[:i] + t[i + 1:]


def t_left_operand(rng, t):
    c = [i for i in range(1, len(t) - 1) if t[i - 1] in ('(', '[', ',', ';', '{', '=') and (is_name(t[i]) or is_const(t[i]))
         and t[i + 1] in SYMBOLS - {'-', '*', '&', '!', '+'}]
    if not c:
        return None
    i = rng.choice(c)
    return t[:i] + t[i + 1:]


def t_double_operand(rng, t):
    depth, c = 0, []
    for i, x in enumerate(t):
        depth += (x == '{') - (x == '}')
        if depth > 0 and (is_name(x) or is_const(x)):
            c.append(i)
    if not c:
        return None
    i = rng.choice(c)
    new = rng.choice([FRESH, '5', "'c'", '"s"', FRESH])
    if new != FRESH and is_name(t[i]) and in_declaration(t, i):
        new = FRESH
    return t[:i + 1] + [new] + t[i + 1:]


def in_declaration(t, i):
    while i >= 0 and t[i] not in (';', '{', '}', ')'):
        if t[i] in ('auto', 'extrn', 'goto'):
            return True
        i -= 1
    return False


def t_comma(rng, t):
    """A comma after an opening or before a closing bracket, or two in a row."""
    c = [i for i, x in enumerate(t) if x in ('(', ',', '[') or (i + 1 < len(t) and t[i + 1] in (')', ']'))]
    if not c:
        return None
    i = rng.choice(c)
    return t[:i + 1] + [','] + t[i + 1:]


JUNK = ['@', '#', '$', '`', '\\', '~', '^', '.', '\x01', '\x7f', '\xa7', '\xbf', '\x1b']


def t_junk(rng, t):
    i = rng.randint(0, len(t))
    return t[:i] + [rng.choice(JUNK)] + t[i:]


def t_glued(rng, t):
    c = [i for i, x in enumerate(t) if x[0].isdigit()]
    if not c:
        return None
    i = rng.choice(c)
    return t[:i] + [t[i] + rng.choice(['x', '_', 'abc', 'e5', 'L', 'x1f', '.5', 'a b'])] + t[i + 1:]


def t_unclosed_comment(rng, t):
    i = rng.randint(0, len(t))
    a, b = layout(t[:i], 'plain', rng), layout(t[i:], 'plain', rng)
    if '*/' in b:
        return None
    return a + ' ' + rng.choice(['/*', '/*/', '/* x *', '/*/*']) + ' ' + b


def quoted(t):
    return [i for i, x in enumerate(t) if x[0] in '\'"']


def t_unclosed_quote(rng, t):
    """Lose the closing quote of the last quoted token; there is no quote after it."""
    c = quoted(t)
    if not c or rng.random() < .3:
        i = rng.choice([k for k, x in enumerate(t) if k > (c[-1] if c else -1)] or [len(t)])
        return t[:i] + [rng.choice(['"', "'"])] + t[i:] if i < len(t) else None
    i = c[-1]
    return t[:i] + [t[i][:-1]] + t[i + 1:]


def split_quoted(x):
    """Characters of a quoted token, escapes kept together."""
    out, i = [], 1
    while i < len(x) - 1:
        n = 2 if x[i] == '*' else 1
        out.append(x[i:i + n])
        i += n
    return out


def t_escape(rng, t):
    c = quoted(t)
    e = '*' + rng.choice('123456789abcdfghijklmopqsuvwxyzABENRT!#$%&+,-./:;<=>?@[]^_`|~ \t')
    if not c:
        k = [i for i, x in enumerate(t) if x[0].isdigit()]
        if not k:
            return None
        i = rng.choice(k)
        return t[:i] + ["'" + e + "'"] + t[i + 1:]
    i = rng.choice(c)
    s = split_quoted(t[i])
    if t[i][0] == "'" and len(s) >= 8:
        s.pop()
    s.insert(rng.randint(0, len(s)), e)
    return t[:i] + [t[i][0] + ''.join(s) + t[i][0]] + t[i + 1:]


def t_long_char(rng, t):
    c = [i for i in quoted(t) if t[i][0] == "'"] or [i for i, x in enumerate(t) if x[0].isdigit()]
    if not c:
        return None
    i = rng.choice(c)
    s = split_quoted(t[i]) if t[i][0] == "'" else []
    n = rng.choice([9, 9, 9, 10, 16, 17, 40, 300])
    while len(s) < n:
        s.insert(rng.randint(0, len(s)), rng.choice(['a', '*0', '**', '*n', ' ', 'Z', '"', '(', '*t', '7']))
    return t[:i] + ["'" + ''.join(s) + "'"] + t[i + 1:]


def t_cut(rng, t):
    """The file ends early: within a function, a declaration or a statement."""
    depth, c = 0, []
    for i, x in enumerate(t):
        depth += (x in OPEN) - (x in CLOSE)
        if depth > 0 or is_name(x) or is_const(x) or x == ',':
            c.append(i + 1)
    if not c:
        return None
    s = t[:rng.choice(c)]
    return layout(s, 'plain', rng).rstrip('\n') if rng.random() < .5 else s


TOKEN = {'bracket lost': (t_bracket_lost, 6), 'bracket extra': (t_bracket_extra, 5), 'bracket changed': (t_bracket_kind, 4),
         'semicolon lost': (t_semicolon, 6), 'right operand lost': (t_right_operand, 4), 'left operand lost': (t_left_operand, 3),
         'two operands': (t_double_operand, 5), 'stray comma': (t_comma, 4), 'stray character': (t_junk, 4), 'number glued to name': (t_glued, 3),
         'unclosed comment': (t_unclosed_comment, 2), 'unclosed quote': (t_unclosed_quote, 3), 'undefined escape': (t_escape, 4),
         'long character constant': (t_long_char, 3), 'file cut short': (t_cut, 4)}

ALL = [(k, 'tree', f, w) for k, (f, w) in TREE.items()] + [(k, 'token', f, w) for k, (f, w) in TOKEN.items()]


def braced(x):
    """Give every switch a block for a body: 'switch (a) (b);' can be read in two ways."""
    if isinstance(x, list):
        return [braced(y) for y in x]
    if isinstance(x, tuple):
        if x and x[0] == 'switch' and len(x) == 3 and isinstance(x[2], tuple) and x[2][0] != 'block':
            return ('switch', x[1], ('block', [braced(x[2])]))
        return tuple(braced(y) for y in x)
    return x


def base_program(rng):
    return braced(random_program(rng))


def random_program(rng):
    r = rng.random()
    if r < .4:
        return static_program(rng, nfun=rng.choice([1, 1, 2, 3]))
    if r < .9:
        return Tame(rng).program()
    return tiny(rng)


def tiny(rng):
    return rng.choice([
        [('fun', 'main', [], ('block', []))],
        [('fun', 'main', [], ('null',))],
        [('scalar', 'g', [])],
        [('fun', 'main', ['a'], ('ret', ('var', 'a')))],
        [('fun', 'main', ['a'], ('switch', ('var', 'a'), ('block', [('case', '1', 1, ('ret', None)), ('label', 'l', ('goto', 'l'))])))],
        [('scalar', 'g', [('num', 1, '1')]), ('fun', 'main', [], ('block', [('extrn', ['g']), ('expr', ('asg', '', ('var', 'g'), ('num', 2, '2')))]))],
        [('fun', 'main', [], ('block', [('auto', [('x', None), ('v', '3')]), ('while', ('var', 'x'), ('expr', ('post', '--', ('var', 'x'))))]))],
    ])


def command(d, rng, o):
    """(arguments, name of the output)"""
    r = rng.random()
    if r < .85:
        return ['--emit-llvm', '-o', 'out', 'x.b'], 'out'
    m = rng.choice(['s', 'o', '', 'll'])
    o.stats['through_other_modes'] += 1
    a = ([rng.choice(MODES[m])] if m else ['-L', G.tc.rt]) + rng.choice([[], ['-g'], ['-O%d' % rng.randrange(4)]])
    if m == '' and rng.random() < .5:
        with open(os.path.join(d, 'other.b'), 'w') as f:
            f.write('zz_other_file() { return(1); }\n')
        fs = ['x.b', 'other.b']
        rng.shuffle(fs)
        return a + ['-o', 'out'] + fs, 'out'
    return a + ['-o', 'out', 'x.b'], 'out'


def where(a, b):
    """The tokens around the first difference."""
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return 'valid: ... %s ... damaged: ... %s ...' % (' '.join(a[max(0, i - 8):i + 8]), ' '.join(b[max(0, i - 8):i + 8]))


def verdict(d, text, rng, o):
    """None if the file was refused properly, else a complaint."""
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    with open(os.path.join(d, 'x.b'), 'wb') as f:
        f.write(text.encode('latin-1'))
    args, out = command(d, rng, o)
    r = run([G.tc.blang] + args, d, env=G.tc.env, cpu=60)
    o.stats['compilations'] += 1
    what = None
    if r.rc == 0:
        what = 'was accepted'
    elif r.rc != 1:
        what = 'ended with ' + r.describe()
    elif not r.err.startswith(b'blang: error: ') or len(r.err.strip()) < len(b'blang: error: ') + 3:
        what = 'was refused without a diagnostic (%r)' % r.err[:200]
    elif os.path.exists(os.path.join(d, out)):
        what = 'was refused, but left an output file'
    if what is None:
        o.seen.add(digest(r.err[:200]))
    return what and '%s by blang %s' % (what, ' '.join(args))


@with_dir
def task(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    decls = base_program(rng)
    style = lambda: rng.choice(['plain', 'plain', 'tight', 'lines'])
    with open(os.path.join(d, 'x.b'), 'wb') as f:
        f.write(program_text(decls, rng, 'plain').encode('latin-1'))
    r = run([G.tc.blang, '--emit-llvm', '-o', 'out', 'x.b'], d, env=G.tc.env, cpu=60)
    o.stats['compilations'] += 1
    if r.rc != 0:
        o.stats['base_refused'] += 1
        return
    o.stats['bases_accepted'] += 1
    base = program_tokens(decls)
    for j in range(24):
        k, how, f, _ = rng.choices(ALL, [w for *_, w in ALL])[0]
        for _ in range(3):
            if how == 'tree':
                x = f(rng, decls)
                t = None if x is None else program_tokens(x)
                text = None if x is None else layout(t, style(), rng)
            else:
                t = x = f(rng, list(base))
                text = x if x is None or isinstance(x, str) else layout(x, style(), rng)
            if text is not None:
                break
        if text is None:
            o.stats['not_applicable'] += 1
            continue
        c = verdict(d, text, rng, o)
        o.stats['mutants_judged'] += 1
        o.stats['defect: ' + k] += 1
        if c:
            o.violate('%s%d.%d:%s' % (kind, i, j, k), '%s%d.%d: a program with one defect (%s) %s: %s\n%r' % (
                kind, i, j, k, c, where(base, t) if isinstance(t, list) else '', text[:600]),
                      {'x.b': text.encode('latin-1'), 'valid.b': program_text(decls, rng, 'plain').encode('latin-1')})
            return
        if not o.samples:
            o.samples.append('%s: %r' % (k, text[-160:]))


PLACES = [('start', '%smain() { return (1); }\n'), ('end', 'main() { return (1); }\n%s'), ('end2', 'main() { return (1); }%s'),
          ('end3', 'main() { return (1); }\n%s\n'), ('end4', 'g 1;%s'), ('only', '%s'), ('between', 'g 1;\n%s\nmain() { return (1); }\n'),
          ('statement', 'main() { %s return (1); }\n'), ('operand', 'main() { return (1 %s); }\n'), ('operand2', 'main() { return (%s 1); }\n'),
          ('initial', 'g 1%s; main() return (1);\n'), ('size', 'v[4%s]; main() return (1);\n'), ('parameter', 'main(a,%sb) { }\n'),
          ('parameter2', 'main(a%s) { }\n'), ('case', 'main(a) { switch (a) { case 1%s: ; } }\n'), ('auto', 'main() { auto a%s; a = 1; }\n'),
          ('argument', 'f(a) return (a); main() { f(1%s); }\n'), ('goto', 'main() { goto l%s; l: ; }\n'),
          ('comment', '/* */%smain() { }\n'), ('extrn', 'g; main() { extrn%s g; g = 1; }\n')]


@with_dir
def bytes_task(spec, d, o):
    """Every byte that belongs to no token and is no separator, in every kind of place."""
    where_, src = PLACES[spec[1]]
    rng = G.check.rng(*spec)
    with open(os.path.join(d, 'x.b'), 'wb') as f:
        f.write((src % '').encode('latin-1'))
    if where_ != 'only':
        r = run([G.tc.blang, '--emit-llvm', '-o', 'out', 'x.b'], d, env=G.tc.env, cpu=60)
        if r.rc != 0:
            o.stats['base_refused'] += 1
            return
    junk = [chr(c) for c in range(256) if c < 9 or 14 <= c < 32 or c > 126 and not chr(c).isalnum() and not chr(c).isspace()]
    junk += list('@#$`\\~^.')
    # the classification of letters and blanks above 127 is the compiler's: only what is neither
    # what other languages and editors put there
    marks = ['\xef\xbb\xbf', '\xef\xbb\xbf\xef\xbb\xbf', '\xe2\x80\x8b', '\xe2\x80\xa8', '\xef\xbf\xbe', '#!/usr/bin/b\n', '# 1 "x.b"\n', '#line 5\n', '#include <b.h>\n', '\x1a\x1a',
             '// text\n', '//\n', '\\\n', '\\', '\x1b[0m', '\0\0\0', '?\?/\n', '$1', '@f']
    for c in junk + marks + [rng.choice(junk) * rng.randint(2, 5) for _ in range(4)]:
        text = src % c
        what = verdict(d, text, rng, o)
        o.stats['mutants_judged'] += 1
        o.stats['defect: foreign byte'] += 1
        if what:
            return o.violate('byte:%s:%r' % (where_, c), 'a program with %r (%s) %s\n%r' % (c, where_, what, text),
                             {'x.b': text.encode('latin-1')})


def dispatch(spec):
    return bytes_task(spec) if spec[0] == 'bytes' else task(spec)


def main(tier, seed):
    quick = tier == 'quick'
    c = setup('P18', tier, seed, 'exploration',
              'one evaluation = one ill-formed program refused with status 1, a diagnostic and no output; distinct = different diagnostics',
              ['each defect makes the program ill-formed whatever surrounds it (by construction, see checks/p18.py)'])
    c.run_tasks(dispatch, [('bytes', i) for i in range(len(PLACES))] + [('bad', i) for i in range(500 if quick else 9000)])
    return c.finish('mutants_judged', 1000)
