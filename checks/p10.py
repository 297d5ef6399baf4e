"""P10: white space and comments between tokens do not matter.

Metamorphic monitor: sources with the same tokens, laid out differently, must all give the
byte-identical module, or all be refused."""
import re

from vf.batch import *
from vf.corpus import *

SEPS = [' ', '\n', '\t', '\r\n', '\r', '\v', '\f', '   ', '\n\n\n', ' \t\n', '/**/', '/* */', '/***/', '/****/', '/*/*/',
        '/*\n*/', '/*"*/', "/*'*/", '/*{*/', '/*;*/', '/*\\*/', '/* * / */', '/* // */', '/* else if while */', '/**//**/',
        ' /* a */ ', '\n/* b */\n', '/*\0*/', '/*\xff\xfe*/', '/* *( *) ** *' + "'" + ' *" */', '/*' + 'x' * 300 + '*/',
        '/*' + '*' * 301 + '*/']
TOKEN = re.compile(r'^(?:[A-Za-z_][A-Za-z0-9_]*|[0-9]+|"[^"]*"|\'[^\']*\')$')
TOKWORDS = [w for w in WORDS if w in OPS and w not in ('/*',) or TOKEN.match(w)]


def comment(rng):
    """A comment of any content."""
    n = heavy(rng, 0, 10, 400)
    r = rng.random()
    if r < .3:
        s = ''.join(rng.choice('*/ \n"\'ab') for _ in range(n))
    elif r < .6:
        s = ''.join(chr(rng.choice(PRINTABLE)) for _ in range(n))
    elif r < .8:
        s = ' '.join(rng.choice(WORDS) for _ in range(n))
    else:
        s = ''.join(chr(rng.randrange(256)) for _ in range(n))
    s = s.replace('*/', '* /')
    if s.endswith('*') and rng.random() < .5:
        s = s[:-1]
    return '/*' + s + '*/'


def sep_ok(prev, sep):
    """A comment directly after '/' or '=' would be read as another token: '//' or '=/'."""
    return not (prev in ('/', '=', '=/') and sep.startswith('/'))


def need(prev, t):
    return must_separate(prev, t)


def lay(toks, choose, rng):
    out = []
    prev = None
    for k, t in enumerate(toks):
        s = choose(k, prev, t)
        if prev is not None and s == '' and need(prev, t):
            s = ' '
        if prev is not None and not sep_ok(prev, s):
            s = ' ' + s
        out.append(s)
        out.append(t)
        prev = t
    return ''.join(out)


def variants(toks, rng, quick, one=False):
    """Layouts of the same tokens: (name, text)."""
    yield 'tight', lay(toks, lambda k, p, t: '', rng)
    for n, s in enumerate(SEPS):
        yield 'all%d' % n, lay(toks, lambda k, p, t: s, rng) + s
    for n in range(4):
        yield 'random%d' % n, lay(toks, lambda k, p, t: rng.choice(SEPS) if rng.random() < .6 else '', rng)
    for n in range(4):
        yield 'comments%d' % n, lay(toks, lambda k, p, t: comment(rng) if rng.random() < .5 else '', rng) + comment(rng)
    for n in range(3):
        yield 'mixed%d' % n, lay(toks, lambda k, p, t: ''.join(rng.choice(SEPS) if rng.random() < .7 else comment(rng)
                                                            for _ in range(rng.randint(0, 4))), rng)
    if one:
        # one separator at one boundary, everything else tight
        for at in range(len(toks)):
            for s in rng.sample(SEPS, 2 if quick else 6) + [' ']:
                yield 'at%d(%r)' % (at, s), lay(toks, lambda k, p, t: s if k == at else '', rng)
        # and the reverse: spaces everywhere but here
        for at in range(len(toks)):
            yield 'without%d' % at, lay(toks, lambda k, p, t: '' if k == at else ' ', rng)


def compile_text(d, text):
    with open(os.path.join(d, 'x.b'), 'w', encoding='latin-1', newline='') as f:
        f.write(text)
    ll = os.path.join(d, 'x.ll')
    r = run([G.tc.blang, '--emit-llvm', '-o', 'x.ll', 'x.b'], d, env=G.tc.env, cpu=30, mem=10 << 30)
    m = None
    if os.path.exists(ll):
        with open(ll, 'rb') as f:
            m = f.read()
        os.unlink(ll)
    return (0, m) if r.rc == 0 else (r.rc, None), r


@with_dir
def task(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    one = False
    if kind == 'static':
        toks = program_tokens(static_program(rng, nfun=rng.randint(1, 3)), rng, .05)
    elif kind == 'tame':
        toks = program_tokens(Tame(rng).program(), rng, .05)
    elif kind == 'one':
        w = Tame(rng)
        w.left = 40
        toks = program_tokens(w.program() if i % 3 == 0 else static_program(rng, nfun=1), rng, .05)
        a = rng.randrange(max(1, len(toks) - 160))
        # keep whole declarations: cut at the end of one
        if len(toks) > 220:
            toks = program_tokens(Tame(rng).program()[:2], rng, .05)[:400]
        one = True
    elif kind == 'bad':
        toks = program_tokens(Tame(rng).program() if rng.random() < .6 else static_program(rng, nfun=1), rng, .05)
        toks = mutate_tokens(rng, toks, 1)
        toks = [t if t in OPS and t != '/*' or TOKEN.match(t) else ';' for t in toks]
    elif kind == 'wild':
        toks = program_tokens(Wild(rng).program(), rng, .05)
    elif kind == 'soup':
        toks = [rng.choice(TOKWORDS) for _ in range(rng.randint(1, 30))]
        toks = rng.choice([[], ['main', '(', ')', '{'], ['v', '['], ['x']]) + toks
    elif kind == 'adj':
        toks = ADJACENT[i]
    elif kind == 'templ':
        toks = TEMPLATES[i]
        one = i < NTEMPL or G.tier != 'quick'
    base, r0 = None, None
    for name, text in variants(toks, rng, G.tier == 'quick', one):
        res, r = compile_text(d, text)
        o.stats['layouts'] += 1
        if base is None:
            base, r0, btext = res, r, text
            if kind == 'templ' and base[0] != 0:
                o.violate('templ%d' % i, 'a valid program was refused: %r: %s' % (text, r.err[:200]), {'x.b': text})
                return
            o.stats['accepted' if res[0] == 0 else 'refused'] += 1
            o.seen.add(digest(tuple(toks)))
            continue
        if res != base:
            what = 'accepts one layout and refuses the other' if res[0] != base[0] else 'gives different modules'
            o.violate('%s%s' % (kind, i), '%s%s: the compiler %s (exit %d and %d, %r, %r)\n--- layout tight:\n%s\n--- layout %s:\n%s' % (
                kind, i, what, base[0], res[0], r0.err[:120], r.err[:120], btext[:500], name, text[:500]),
                {'a.b': btext.encode('latin-1'), 'b.b': text.encode('latin-1'), 'a.ll': base[1] or b'', 'b.ll': res[1] or b''})
            return
        o.stats['accepted_layouts' if res[0] == 0 else 'refused_layouts'] += 1
    if not o.samples:
        o.samples.append('%s%s: %d tokens, exit status %d for all layouts, last %r' % (kind, i, len(toks), base[0], text[:100]))


def T(s):
    return s.split()


TEMPLATES = [T(s) for s in [
    # every operator next to every kind of token
    'main ( ) { auto a , b ; a = b ; a = - b ; a = ! b ; a = * b ; a = & b ; a = ++ b ; a = -- b ; a = ( b ) ; a = 1 ; }',
    "main ( ) { auto a , b ; a = 'b' ; a = \"s\" ; a =+ - b ; a =- - b ; a =* * b ; a =/ - b ; a =& & b ; a =| - b ; a =% - b ; }",
    'main ( ) { auto a , b ; a =< - b ; a =<= - b ; a =<< 1 ; a =>> 1 ; a => - b ; a =>= - b ; a === - b ; a =!= ! b ; }',
    'main ( ) { auto a , b ; a = a - - b ; a = a - -- b ; a = a -- - b ; a = a + ++ b ; a = a ++ + b ; a = a - - - b ; }',
    'main ( ) { auto a , b ; a = a * * b ; a = a & & b ; a = a / * b ; a = a % * b ; a = a | & b ; a = a < - b ; a = a > ! b ; }',
    'main ( ) { auto a , b ; a = a << - b ; a = a >> - b ; a = a <= ! b ; a = a >= ! b ; a = a == ! b ; a = a != ! b ; }',
    'main ( ) { auto a , b ; a = a ? b : - b ; a = a ? - a : b ? 1 : 2 ; a = ! ! b ; a = - - b ; a = ! - b ; a = - ! b ; }',
    'main ( ) { auto v [ 3 ] ; v [ 0 ] = 1 ; * v = 2 ; * & v [ 1 ] = 3 ; v [ - 1 ] ; ++ v [ 0 ] ; v [ 0 ] ++ ; -- * v ; return ( v [ 0 ] ) ; }',
    'main ( ) { if ( 1 ) ; else ; if ( 1 ) { } else { } if ( 1 ) return ; else return ( 2 ) ; }',
    'main ( ) { auto else1 , if1 ; if ( 1 ) else1 = 2 ; if1 = 3 ; if ( if1 ) ; else if ( else1 ) ; else else1 ++ ; }',
    'main ( ) { while ( 0 ) ; while ( 1 ) { goto a ; } a : ; b : c : return ; goto b ; goto c ; }',
    "main ( ) { switch ( 1 ) { case 1 : case 2 : ; case 'a' : { } case 03 : return ( 1 ) ; } switch 2 { case 1 : ; } }",
    "main ( ) { extrn a , v ; auto b , w [ 3 ] , c , x [ 'a' ] , y [ 010 ] ; f ( ) ; f ( a ) ; f ( a , b ) ; ( f ) ( a ) ; a = f ; a ( 1 ) ; } a ; v [ ] ; f ( x , y ) return ( x ) ;",
    'a ; b 1 ; c - 1 ; d \'c\' ; e "s" ; f 1 , - 2 , "s" , \'d\' ; g [ ] ; h [ 1 ] ; i [ 2 ] 1 ; j [ 3 ] - 1 , "s" ; k [ ] 1 , 2 ; main ( ) ;',
    'main ( argc , argv ) { return ( argc ) ; } f ( ) { } g ( ) ; h ( a ) { { } { ; } ; ; }',
    'main ( ) { printf ( "a*nb" , 1 ) ; printf ( "/**no-comment**/" ) ; write ( \'//\' ) ; putstr ( "" ) ; f ( "a" , "b" ) ; }',
]]

NTEMPL = len(TEMPLATES)


def neighbours():
    """Every kind of token that may begin a statement after all that may come before one, every binary or assignment
    operator between all kinds of neighbours."""
    starts = ['a ;', '-- a ;', '++ a ;', '* a ;', '- a ;', '! a ;', '( a ) ;', '"s" ;', "'c' ;", '1 ;', '& a ;', ';', '{ }',
              '{ a ; }', 'if ( a ) ;', 'while ( 0 ) ;', 'return ;', 'return ( a ) ;', 'goto m ;', 'switch 1 ;', 'switch ( a ) { }',
              'extrn g ;', 'else1 ;', 'f ( ) ;', 'a = 1 ;', 'v [ 0 ] = 1 ;', '* v = a ;', '-- * v ;', '& v [ 0 ] ;']
    head = 'main ( ) { extrn g ; auto a , b , v [ 3 ] , else1 ; m : '
    for ctx in ['', '{ } ', 'if ( a ) ; else ', 'if ( a ) { } else ', 'if ( a ) ', 'while ( 0 ) ', 'l%d : ', 'l%d : k%d : ', 'if ( a ) b ++ ; else ',
                'if ( a ) if ( b ) ; else ', 'if ( a ) ; else if ( b ) ; else ', 'else1 ++ ; ', 'b = else1 ; ']:
        yield head + ' '.join((ctx.replace('%d', str(n))) + s for n, s in enumerate(starts)) + ' }'
    yield head + 'switch a { ' + ' '.join("case %d : " % n + s for n, s in enumerate(starts)) + ' } }'
    yield head + 'switch ( a ) { ' + ' '.join("case '%c' : " % (97 + n % 26) + s for n, s in enumerate(starts[:26])) + ' } }'
    ends = ['a', '1', '017', "'x'", '"s"', '( a )', 'f ( )', 'v [ 0 ]', 'a ++', 'a --', '* v', '- a', '! a', '& a', '-- a', '++ a']
    bins = ['+', '-', '*', '/', '%', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '&', '|']
    asgs = ['='] + ['=' + o for o in bins if o != '==' and o != '!='] + ['===', '=!=']
    for e in ends:
        yield head + ' '.join('a = %s %s b ;' % (e, o) for o in bins) + ' a = %s ? b : a ; a = b ? %s : %s ; f ( %s , %s ) ; v [ %s ] = ( %s ) ; }' % ((e,) * 7)
        yield head + ' '.join('a = b %s %s ;' % (o, e) for o in bins) + ' ' + ' '.join('a %s %s ;' % (o, e) for o in asgs) + \
            ' return ( %s ) ; if ( %s ) ; while ( %s ) ; switch ( %s ) ; }' % ((e,) * 4)
    for e in ['v [ 0 ]', '* v', '( * v )'[2:-2], '++ a', '* & a']:
        yield head + ' '.join('%s %s b ;' % (e, o) for o in asgs) + ' }'


TEMPLATES += [T(s) for s in neighbours()]


def adjacent():
    """Two tokens next to each other that could be read as one, where this is (mostly) not allowed."""
    places = ['main ( ) { auto a , b ; a = %s ; }', 'main ( ) { auto v [ 9 ] ; v [ %s ] = 1 ; }', 'main ( ) { auto v [ %s ] ; }', 'v %s ;', 'v [ %s ] ;', 'v [ 3 ] 1 , %s ;',
              'main ( ) { return ( %s ) ; }', 'main ( ) { f ( %s , 1 ) ; }', 'main ( ) { switch ( 1 ) { case %s : ; } }', 'main ( ) { auto %s ; }', 'main ( ) { goto %s ; }',
              'f ( %s ) { }', '%s ( ) { }', 'main ( ) { auto a , b ; a %s b ; }', 'main ( ) { auto a , b ; a = b %s a ; }', 'main ( ) { auto a , b ; a = b %s ; }', 'main ( ) { auto a , b ; %s a ; }']
    pairs = ['1 2', '0 7', '1 a', 'a 1', 'a b', '- - 1', '"s" "t"', "'a' 'b'", "1 'b'", '"a" 1', '= =', '= = =', '= + +', '= - -', '< <', '> >', '< =', '> =', '! =', '= <', '= < <', '= > =',
             '= ! =', '+ +', '- -', '= &', '& &', '| |', '= %', '= *', '= /', '1 2 3', 'auto a', 'a : b', 'b :', 'if ( 1 )', 'else', '+ + a', '- - a']
    for a in places:
        for b in pairs:
            yield T(a % b)


ADJACENT = list(adjacent())


def main(tier, seed):
    quick = tier == 'quick'
    c = setup('P10', tier, seed, 'exploration',
              'one evaluation = one layout of a token sequence compiled and compared; distinct = different token sequences',
              ['white space is blank, tab, LF, CR, VT and FF; comments contain no */'])
    tasks = [('templ', i) for i in range(len(TEMPLATES))]
    m = 1 if quick else 12
    for k, n in [('static', 40), ('tame', 90), ('one', 12), ('bad', 60), ('wild', 40), ('soup', 60)]:
        tasks += [(k, i) for i in range(n * m)]
    tasks += [('adj', i) for i in range(len(ADJACENT)) if not quick or i % 3 == seed % 3]
    tasks.sort(key=lambda t: (t[0] != 'templ', digest(t)))
    c.run_tasks(task, tasks)
    return c.finish('layouts', 100)
