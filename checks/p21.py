"""P21: well-formed programs of any size are accepted, mean what smaller ones mean, and compile at
proportionate cost.

Each family is a way for a program to be large; gen(n) gives the text and, in closed form, the events
it must produce. Two monitors: 'limit' compiles and runs members at sizes around the usual built-in
limits (powers of two and ten); 'cost' compiles one very large member and watches the processor time
and memory the compiler uses (limits far above what it needs today)."""
from vf.batch import *
from vf.gen import *

FAM = {}
NEAR = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 511,
        512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193,
        9999, 10000, 10001, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 50000, 65535, 65536, 65537, 70000, 99999, 100000,
        131072, 1 << 20, (1 << 20) + 1, 1 << 24]


def family(run, cost):
    """run: the largest size that is run; cost: the size whose cost is watched."""
    def deco(f):
        FAM[f.__name__[2:]] = (f, run, cost)
        return f
    return deco


def some(n):
    return sorted({0, n - 1, n // 2, n // 3, 2 * n // 3})


@family(5000, 20000)
def f_globals(n):
    ks = some(n)
    t = ''.join('g%d %d;\n' % (i, 3 * i + 1) for i in range(n))
    return t + 'main() { extrn %s; ev(%d, 1%s); return (0); }' % (
        ', '.join('g%d' % k for k in ks), len(ks) + 1, ''.join(', g%d' % k for k in ks)), [tuple([1] + [3 * k + 1 for k in ks])]


@family(3000, 14000)
def f_extrns(n):
    t = ''.join('g%d %d;\n' % (i, i) for i in range(n))
    b = ''.join('s =+ g%d;\n' % i for i in range(n))
    return 'main() { auto s; extrn %s; %s ev(2, 1, s); return (0); }\n' % (
        ', '.join('g%d' % i for i in range(n)), b) + t, [(1, n * (n - 1) // 2)]


@family(3000, 12000)
def f_vectors(n):
    ks = some(n)
    t = ''.join('v%d[3] %d, %d;\n' % (i, i, -i) for i in range(n))
    return t + 'main() { extrn %s; ev(%d, 1%s); return (0); }' % (
        ', '.join('v%d' % k for k in ks), 2 * len(ks) + 1, ''.join(', v%d[1], v%d[2]' % (k, k) for k in ks)), [
            tuple([1] + [x for k in ks for x in (-k, 0)])]


@family(3000, 15000)
def f_functions(n):
    ks = some(n)
    t = ''.join('f%d(a) return (a + %d);\n' % (i, i) for i in range(n))
    return t + 'main() { ev(%d, 1%s); return (0); }' % (len(ks) + 1, ''.join(', f%d(7)' % k for k in ks)), [
        tuple([1] + [7 + k for k in ks])]


@family(2000, 10000)
def f_callgraph(n):
    t = ''.join('f%d(a) return (f%d(a + 1));\n' % (i, i + 1) for i in range(n))
    return t + 'main() { ev(2, 1, f0(5)); return (0); }\nf%d(a) { return (a * 2); }\n' % n, [(1, (n + 5) * 2)]


@family(1500, 8000)
def f_pointers(n):
    t = ''.join('f%d(a) return (a + %d);\n' % (i, i) for i in range(n))
    b = ''.join('p = f%d; s =+ p(1);\n' % i for i in range(n))
    return t + 'main() { auto p, s; %s ev(2, 1, s); return (0); }' % b, [(1, n + n * (n - 1) // 2)]


@family(20000, 80000)
def f_statements(n):
    return 'main() { auto a; %s ev(2, 1, a); return (0); }' % ('a = a + 1;\n' * n), [(1, n)]


@family(3000, 30000)
def f_strings(n):
    b = ''.join('s =+ char("%07d", %d);\n' % (i, i % 7) for i in range(n))
    return 'main() { auto s; %s ev(2, 1, s); return (0); }' % b, [(1, sum(ord(('%07d' % i)[i % 7]) for i in range(n)))]


@family(10000, 40000)
def f_gstrings(n):
    ks = some(n)
    return 'g[] %s; main() { extrn g; ev(%d, 1%s); return (0); }' % (
        ', '.join('"s%d"' % i for i in range(n)), len(ks) + 1, ''.join(', char(g[%d], 1)' % k for k in ks)), [
            tuple([1] + [ord(str(k)[0]) for k in ks])]


@family(70000, 300000)
def f_values(n):
    ks = some(n)
    return 'v[%d] %s; main() { extrn v; ev(%d, 1%s); return (0); }' % (
        n, ', '.join(str(i * i) for i in range(n)), len(ks) + 1, ''.join(', v[%d]' % k for k in ks)), [
            tuple([1] + [k * k for k in ks])]


@family(20000, 100000)
def f_words(n):
    ks = some(n)
    return 'x %s; main() { extrn x; ev(%d, 1%s); return (0); }' % (
        ', '.join(str(-i) for i in range(n)), len(ks) + 1, ''.join(', (&x)[%d]' % k for k in ks)), [
            tuple([1] + [-k for k in ks])]


@family(1 << 24, 1 << 30)
def f_vectorsize(n):
    return 'v[%d]; main() { extrn v; v[%d] = 5; ev(3, 1, v[%d], v[%d]); return (0); }' % (
        n, n - 1, n - 1, n // 2), [(1, 5, 5 if n < 2 or n // 2 == n - 1 else 0)]


@family(500000, 1 << 27)
def f_autosize(n):
    return 'main() { auto a, v[%d], b; a = 1; b = 2; v[%d] = 5; v[0] = v[0] == 5; v[0] = 3; ev(4, 1, a, b, v[0]); return (0); }' % (
        n, n - 1), [(1, 1, 2, 3)]


@family(8000, 40000)
def f_chain(n):
    return 'main() { auto a; a = 3; ev(2, 1, a%s); return (0); }' % (' + a' * n), [(1, 3 * n + 3)]


@family(3000, 20000)
def f_relations(n):
    v = 3
    for _ in range(n):
        v = int(v < 3)
    return 'main() { auto a; a = 3; ev(2, 1, a%s); return (0); }' % (' < a' * n), [(1, v)]


@family(2000, 20000)
def f_labels(n):
    """a chain of jumps through all labels in scrambled order"""
    step = next(s for s in range(max(1, n // 2), 2 * n + 9) if _gcd(s, n) == 1)
    order = [(i * step) % n for i in range(n)]
    nxt = {a: b for a, b in zip(order, order[1:])}
    b = ''.join('l%d: c =+ 1; %s\n' % (i, 'goto l%d;' % nxt[i] if i in nxt else 'goto end;') for i in range(n))
    return 'main() { auto c; goto l%d; %s end: ev(2, 1, c); return (0); }' % (order[0], b), [(1, n)]


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


@family(4000, 30000)
def f_cases(n):
    ks = some(n)
    b = ''.join('case %d: return (%d);\n' % (7 * i + 2, i + 1) for i in range(n))
    return 'f(x) { switch (x) { %s } return (0); }\nmain() { ev(%d, 1%s, f(3), f(0)); return (0); }' % (
        b, len(ks) + 3, ''.join(', f(%d)' % (7 * k + 2) for k in ks)), [tuple([1] + [k + 1 for k in ks] + [0, 0])]


@family(3000, 20000)
def f_fallthrough(n):
    b = ''.join('case %d: c =+ 1;\n' % i for i in range(n))
    return 'main() { auto c; switch (%d) { %s } ev(2, 1, c); return (0); }' % (n // 3, b), [(1, n - n // 3)]


@family(3000, 25000)
def f_autos(n):
    return 'main() { auto s; %s %s ev(2, 1, s); return (0); }' % (
        ''.join('auto a%d; a%d = %d;\n' % (i, i, i) for i in range(n)), ''.join('s =+ a%d;' % i for i in range(n))), [
            (1, n * (n - 1) // 2)]


@family(3000, 40000)
def f_autolist(n):
    return 'main() { auto %s; a%d = 4; ev(3, 1, a%d, a0 + 1); return (0); }' % (
        ', '.join('a%d' % i for i in range(n)), n - 1, n - 1), [(1, 4, 5 if n == 1 else 1)]


@family(2000, 20000)
def f_params(n):
    ks = some(n)
    return 'f(%s) { ev(%d, 1%s); return (p%d); }\nmain() { ev(2, 2, f(%s)); return (0); }' % (
        ', '.join('p%d' % i for i in range(n)), len(ks) + 1, ''.join(', p%d' % k for k in ks), n - 1,
        ', '.join(str(5 * i - 9) for i in range(n))), [tuple([1] + [5 * k - 9 for k in ks]), (2, 5 * (n - 1) - 9)]


@family(2000, 50000)
def f_surplus(n):
    return 'f(a) return (a); main() { ev(2, 1, f(%s)); return (0); }' % ', '.join(str(i + 3) for i in range(n)), [(1, 3)]


@family(3000, 20000)
def f_ifs(n):
    b = ''.join('if (a & %d) c =+ 1; else d =+ 1;\n' % (1 << (i % 3)) for i in range(n))
    c = sum(1 for i in range(n) if 5 & (1 << (i % 3)))
    return 'main() { auto a, c, d; a = 5; %s ev(3, 1, c, d); return (0); }' % b, [(1, c, n - c)]


@family(1500, 10000)
def f_elseif(n):
    b = ''.join('if (x == %d) return (%d); else ' % (i, i * 2) for i in range(n))
    return 'f(x) { %s return (1); }\nmain() { ev(4, 1, f(%d), f(%d), f(0)); return (0); }' % (b, n - 1, n), [(1, 2 * n - 2, 1, 0)]


@family(1500, 10000)
def f_nestif(n):
    return 'f(x) { %s x = 7; return (x); }\nmain() { ev(3, 1, f(1), f(0)); return (0); }' % ('if (x) ' * n), [(1, 7, 0)]


@family(1000, 10000)
def f_nestblockif(n):
    b = ''.join('if (x > %d) { auto a%d; a%d = x; c =+ a%d; ' % (i, i, i, i) for i in range(n)) + '}' * n
    x = n // 2
    return 'f(x) { auto c; %s return (c); }\nmain() { ev(3, 1, f(%d), f(%d)); return (0); }' % (b, x, n + 1), [
        (1, x * x, n * (n + 1))]


@family(1000, 10000)
def f_nestwhile(n):
    return 'f(x) { auto c; %s { c =+ 1; x = 0; } return (c); }\nmain() { ev(3, 1, f(1), f(0)); return (0); }' % ('while (x) ' * n), [(1, 1, 0)]


@family(3000, 20000)
def f_whiles(n):
    return 'f(x) { auto c; %s return (c); }\nmain() { ev(2, 1, f(%d)); return (0); }' % (
        'while (x) { c =+ 1; if (x-- & 1) x = 0; }\n' * 1 + 'while (c > 1000000) c =+ 1;\n' * n, 4), [(1, 2)]


@family(500, 5000)
def f_nestswitch(n):
    b = ''.join('switch (x) { case %d: c =+ 1; ' % (i % 3) for i in range(n)) + '}' * n
    return 'f(x) { auto c; %s return (c); }\nmain() { ev(3, 1, f(0), f(5)); return (0); }' % b, [(1, 1, 0)]


@family(10000, 40000)
def f_blocks(n):
    return 'main() { auto c; %s c =+ 1; %s ev(2, 1, c); return (0); }' % ('{' * n, '}' * n), [(1, 1)]


@family(3000, 12000)
def f_switches(n):
    b = ''.join('switch (%d) { case 1: c =+ 1; case 2: c =+ %d; case 3: c =+ 3; }\n' % (i % 5, i) for i in range(n))
    c = sum({1: 4 + i, 2: i + 3, 3: 3}.get(i % 5, 0) for i in range(n))
    return 'main() { auto c; %s ev(2, 1, c); return (0); }' % b, [(1, c)]


@family(1500, 8000)
def f_mixed(n):
    """every kind of statement again and again"""
    b, c = [], 0
    for i in range(n):
        k = i % 7
        if k == 0:
            b.append('if (c >= 0) c =+ 1; else c =- 5;')
            c += 1
        elif k == 1:
            b.append('i = 0; while (i++ < 3) c =+ 2;')
            c += 6
        elif k == 2:
            b.append('switch (c & 1) { case 0: c =+ 4; case 1: c =+ 1; }')
            c += 1 if c & 1 else 5
        elif k == 3:
            b.append('goto l%d; c = 0; l%d: c++;' % (i, i))
            c += 1
        elif k == 4:
            b.append('c =+ c %% 3 == 0 ? %d : c %% 3 == 1 ? 1 : 7;' % i)
            c += i if c % 3 == 0 else 1 if c % 3 == 1 else 7
        elif k == 5:
            b.append('c =+ char("xyz%d", 1) - \'w\';' % i)
            c += 2
        else:
            b.append('{ auto t%d; t%d = c; c = t%d + g[c & 3]; }' % (i, i, i))
            c += (10, 20, 30, 40)[c & 3]
    return 'g[] 10, 20, 30, 40;\nmain() { auto c, i; extrn g; %s ev(2, 1, c); return (0); }' % '\n'.join(b), [(1, c)]


@family(2000, 15000)
def f_conds(n):
    b = ''.join('c =+ c & %d ? 1 : 2;\n' % (1 << i % 4) for i in range(n))
    c = 0
    for i in range(n):
        c += 1 if c & (1 << i % 4) else 2
    return 'main() { auto c; %s ev(2, 1, c); return (0); }' % b, [(1, c)]


@family(1000, 6000)
def f_functionsmixed(n):
    """functions with locals, labels, strings, loops and switches each"""
    t = ''.join('f%d(a, b) { auto x, v[%d]; extrn h%d; x = a; v[%d] = b; l: switch (x) { case %d: x =+ 1; goto l; case 123456: return (-1); }'
                ' while (x-- > a) h%d++; return (x + v[%d] + char("k%d", 0) + h%d); }\nh%d %d;\n' % (
                    i, i % 5 + 1, i, i % 5, i, i, i % 5, i, i, i, i) for i in range(n))
    ks = [k for k in some(n) if k > 1]

    def f(k, a, b):
        x = a
        if x == k:
            x += 1
        h = k
        while True:
            x, y = x - 1, x
            if not y > a:
                break
            h += 1
        return x + b + ord('k') + h
    return t + 'main() { ev(%d, 1%s); return (0); }' % (
        2 * len(ks) + 1, ''.join(', f%d(%d, 9), f%d(7, 1000)' % (k, k, k) for k in ks)), [
            tuple([1] + [x for k in ks for x in (f(k, k, 9), f(k, 7, 1000) + 1)])]


@family(5000, 30000)
def f_calls(n):
    b = ''.join('c =+ f(%d, c & 1);\n' % i for i in range(n))
    c = 0
    for i in range(n):
        c += i - (c & 1)
    return 'f(a, b) return (a - b);\nmain() { auto c; %s ev(2, 1, c); return (0); }' % b, [(1, c)]


@family(100, 400)
def f_widefunctions(n):
    """many functions of many parameters: n of n"""
    t = ''.join('f%d(%s) return (p0 + p%d);\n' % (i, ', '.join('p%d' % j for j in range(n)), n - 1) for i in range(n))
    return t + 'main() { ev(2, 1, f%d(%s)); return (0); }' % (n - 1, ', '.join(str(j + 1) for j in range(n))), [(1, n + 1)]


@family(20000, 100000)
def f_empties(n):
    return 'main() { auto c; %s c =+ 1; ev(2, 1, c); return (0); }' % ('; {} ' * n), [(1, 1)]


@family(5000, 20000)
def f_parens(n):
    return 'main() { auto a; a = 4; ev(2, 1, %sa%s + 1); return (0); }' % ('(' * n, ')' * n), [(1, 5)]


@family(3000, 15000)
def f_nestright(n):
    """a-(a-(a-(...)))"""
    return 'main() { auto a; a = 4; ev(2, 1, %sa%s); return (0); }' % ('a - (' * n, ')' * n), [(1, 4 if n % 2 == 0 else 0)]


@family(3000, 20000)
def f_unary(n):
    return 'main() { auto a; a = 4; ev(4, 1, %sa, %sa, %sa); return (0); }' % ('!' * n, '- ' * n, '*&' * n), [
        (1, n % 2 == 0 and 1 or 0, -4 if n % 2 else 4, 4)] if n else []


@family(1500, 10000)
def f_conditional(n):
    return 'f(x) return (%s 99);\nmain() { ev(4, 1, f(0), f(%d), f(%d)); return (0); }' % (
        ''.join('x == %d ? %d : ' % (i, 3 * i) for i in range(n)), n - 1, n), [(1, 0, 3 * n - 3, 99)]


@family(1500, 8000)
def f_conditionalmid(n):
    return 'f(x) return (%s 99%s);\nmain() { ev(3, 1, f(1), f(0)); return (0); }' % ('x ? ' * n, ' : 5' * n), [(1, 99, 5)]


@family(3000, 20000)
def f_assign(n):
    return 'main() { auto a, b; a = %s 6; ev(3, 1, a, b); return (0); }' % ('b = a = ' * n), [(1, 6, 6)]


@family(2000, 8000)
def f_compound(n):
    return 'main() { auto a; a = 1; ev(2, 1, %s 0); ev(2, 2, a); return (0); }' % ('a =+ 1 + ' * 1 + '1 + ' * n), [(1, n + 2), (2, n + 2)]


@family(1000, 8000)
def f_index(n):
    """v[0] points to v: v[0][0]...[1]"""
    return 'main() { auto v[2]; v[0] = v; v[1] = 8; ev(2, 1, v%s[1]); return (0); }' % ('[0]' * n), [(1, 8)]


@family(1500, 8000)
def f_nestindex(n):
    return 'main() { auto v[2]; v[0] = 1; v[1] = 0; ev(2, 1, %s0%s); return (0); }' % ('v[' * n, ']' * n), [(1, n % 2)]


@family(1500, 8000)
def f_nestcall(n):
    return 'f(x) return (x + 1); main() { ev(2, 1, %s0%s); return (0); }' % ('f(' * n, ')' * n), [(1, n)]


@family(200000, 5000000)
def f_comment(n):
    return 'g 3; /*%s*/ main() { extrn g; ev(2, 1, g); return (0); }' % ('x' * n), [(1, 3)]


@family(20000, 300000)
def f_comments(n):
    return 'g 3; %s main() { extrn g; %s ev(2, 1, g); return (0); }' % ('/* x */' * n, '/**/' * n), [(1, 3)]


@family(200000, 1500000)
def f_blanks(n):
    return 'g%s3; main() { extrn g; ev(2, 1, g); return (0); }' % (' \n\t' * n), [(1, 3)]


@family(100000, 1000000)
def f_line(n):
    return 'g 3;%smain() { extrn g; ev(2, 1, g); return (0); }' % (' ' * n), [(1, 3)]


@family(60000, 400000)
def f_name(n):
    x = ('abcXYZ_019' * (n // 10 + 1))[:n]
    y = x[:-1] + 'Q'
    return '%s(%s) { auto %s; %s = 3; %sl: return (%s + 1); }\nmain() { ev(2, 1, %s(5)); return (0); }' % (
        x + 'F', x + 'P', y + 'A', y + 'A', x, x + 'P + ' + y + 'A', x + 'F'), [(1, 9)]


@family(70000, 1000000)
def f_string(n):
    s = ('abc%d ' * (n // 6 + 1))[:n]
    return 'main() { auto s, n; s = "%s"; while (char(s, n)) n =+ 1; ev(3, 1, n, char(s, %d)); return (0); }' % (
        s, n - 1), [(1, n, ord(s[-1]))]


@family(30000, 300000)
def f_escapes(n):
    return 'main() { auto s, n; s = "%s"; while (char(s, n) == 10) n =+ 1; ev(2, 1, n); return (0); }' % ('*n' * n), [(1, n)]


@family(50000, 500000)
def f_zeros(n):
    return 'g %s17; main() { extrn g; ev(3, 1, g, %s23); return (0); }' % ('0' * n, '0' * n), [(1, 15, 19)]


@family(5000, 40000)
def f_redefined(n):
    return ''.join('g %d; f(a) return (a + %d);\n' % (i, i) for i in range(n)) + 'main() { extrn g; ev(3, 1, g, f(1)); return (0); }', [
        (1, n - 1, n)]


@family(2000, 10000)
def f_redefinedmany(n):
    d = ''.join('f%d(a) return (a + %%d);\n' % i for i in range(n))
    return d.replace('%d', '1') + d.replace('%d', '2') + 'main() { ev(3, 1, f0(1), f%d(2)); return (0); }' % (n - 1), [(1, 3, 4)]


@family(3000, 30000)
def f_returns(n):
    b = ''.join('if (x == %d) return (%d);\n' % (i, 5 * i) for i in range(n))
    return 'f(x) { %s }\nmain() { ev(4, 1, f(%d), f(%d), f(0)); return (0); }' % (b, n - 1, n), [(1, 5 * (n - 1), 0, 0)]


@family(1000, 10000)
def f_externals(n):
    """functions used before they are defined"""
    b = ''.join('s =+ f%d(%d);\n' % (i, i) for i in range(n))
    return 'main() { auto s; %s ev(2, 1, s); return (0); }\n' % b + ''.join('f%d(a) return (a);\n' % i for i in range(n)), [
        (1, n * (n - 1) // 2)]


@family(2000, 12000)
def f_localnames(n):
    """many functions with the same locals, labels and strings"""
    return ''.join('f%d(a) { auto x, y; x = a; l: y =+ 1; if (x-- > 0) goto l; return (y + char("s", 1)); }\n' % i for i in range(n)) + \
        'main() { ev(2, 1, f%d(3)); return (0); }' % (n - 1), [(1, 4)]


def limit(spec):
    _, name, n = spec
    o = Outcome()
    f, most, _ = FAM[name]
    text, exp = f(n)
    c = Case(text, (exp, 0), flags=[('-O0',)] if n > 300 else [('-O0',), ('-O2',)], cpu=60, note='%s of size %d' % (name, n))
    o.stats['family ' + name] += 1
    if run_case(c, '%s.%d' % (name, n), o):
        o.seen.add(digest((name, n)))
    return o


CPU, MEM = 25, 4000         # seconds, megabytes


def cost(spec):
    _, name, _ = spec
    o = Outcome()
    f, _, n = FAM[name]
    if G.tier == 'thorough':
        n = min(n * 2, max(n, 1 << 31))
    d = workdir('cost-' + name)
    try:
        text, _ = f(n)
        with open(os.path.join(d, 'p.b'), 'w') as fh:
            fh.write(text)
        w = run(['/usr/bin/env', 'python3', '-c', '''
import os, resource, subprocess, sys
p = subprocess.run(sys.argv[1:], stdin=subprocess.DEVNULL, stderr=subprocess.PIPE)
u = resource.getrusage(resource.RUSAGE_CHILDREN)
print(p.returncode, u.ru_utime + u.ru_stime, u.ru_maxrss // 1024, p.stderr[:200])
''', G.tc.blang, '--emit-llvm', '-o', 'p.ll', 'p.b'], d, env=G.tc.env, cpu=4 * CPU)
        o.stats['compilations'] += 1
        what = 'a valid program of size %d (family %s, %d bytes)' % (n, name, len(text))
        out = w.out.decode('latin-1').split(None, 3)
        if len(out) < 3:
            o.violate('cost:' + name, '%s was not compiled within %d s: %s' % (what, 4 * CPU, w.describe()), {'p.b': text[:1 << 20]})
            return o
        rc, sec, mb = int(out[0]), float(out[1]), int(out[2])
        o.stats['executions'] += 1
        o.stats['cost_ms ' + name] += int(sec * 1000)
        o.stats['cost_mb ' + name] += mb
        o.stats['cost_bytes_compiled'] += len(text)
        if rc != 0:
            o.violate('cost:' + name, '%s was refused: status %d %s' % (what, rc, out[3:]), {'p.b': text[:1 << 20]})
        elif sec > CPU or mb > MEM:
            o.violate('cost:' + name, '%s took %.1f s of processor time and %d MB (allowed: %d s, %d MB)' % (what, sec, mb, CPU, MEM),
                      {'p.b': text[:1 << 20]})
        else:
            o.seen.add(digest((name, n)))
            o.samples.append('%s: size %d, %d bytes: %.2f s, %d MB' % (name, n, len(text), sec, mb))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


@with_dir
def huge(spec, d, o):
    """Vectors of gigabytes next to other variables, in a program that uses the runtime library too: every word
    that is used keeps its value. (They take no space in the file, and only the pages in use are in memory.)"""
    rng = G.check.rng(*spec)
    vecs, room = [], 6 << 27
    for k in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice([1 << 28, 1 << 29, (1 << 28) + (1 << 27), rng.randint(1 << 25, 1 << 29)]) + rng.randint(-3, 12)
        if k == 0 and rng.random() < .5:
            n = (1 << 29) + rng.randint(0, 20)
        if n <= room:
            vecs.append(('v%d' % k, n))
            room -= n
    top, small = [], []
    for x, n in vecs:
        top.append('%s[%s];' % (x, n if rng.random() < .8 else '0%o' % n))
    for k in range(rng.randint(1, 5)):
        form = rng.choice(['s%d %d;', 's%d[3] %d;', 's%d %d, 5;'])
        top.append(form % (k, k + 40))
        small.append('s%d%s' % (k, '[0]' if '[' in form else ''))
    if rng.random() < .6:
        top.append('z0; z1[%d];' % rng.randint(1, 5000))
        small += ['z0', 'z1[0]']
    places = []
    for x, n in vecs:
        p = {0, 1, n - 1, n - 2, n // 2, (1 << 28) - 1, 1 << 28, n - (1 << 28), n - (1 << 29), n & 0xffff} | {rng.randrange(n) for _ in range(4)}
        places += [(x, j) for j in p if 0 <= j < n]
    rng.shuffle(places)
    body, exp = [], []
    for k, (x, j) in enumerate(places):
        body.append('%s[%s] = %d;' % (x, j if rng.random() < .7 else 'at(%d)' % j, k + 7))
    for k, (x, j) in enumerate(places):
        body.append('printf("%%d*n", %s[%s]);' % (x, j if rng.random() < .7 else 'at(%d)' % j))
        exp.append(str(k + 7))
    for y in small:
        body.append('printf("%%d*n", %s);' % y)
        exp.append(str(int(y[1]) + 40) if y[0] == 's' else '0')
    lib = rng.random()
    if lib < .3:
        body.append('fout = 0; write(\'end*n\');')
        exp.append('end')
    ext = [x for x, _ in vecs] + [y.split('[')[0] for y in small] + (['fout'] if lib < .3 else [])
    f = 'at(n) return (n);'
    m = 'main() { extrn %s; %s return (%d); }' % (', '.join(ext), '\n'.join(body), 7)
    top += [f, m]
    rng.shuffle(top)
    if rng.random() < .3:
        files = {'a.b': '\n'.join(x for x in top if x[0] in 'vsz'), 'b.b': '\n'.join(x for x in top if x[0] not in 'vsz')}
    else:
        files = {'p.b': '\n'.join(top)}
    for x, t in files.items():
        with open(os.path.join(d, x), 'w') as fh:
            fh.write(t)
    fl = rng.choice([[], ['-O0'], ['-O2'], ['-O3', '-g']])
    r = run([G.tc.blang, '-L', G.tc.rt] + fl + ['-o', 'p'] + sorted(files), d, env=G.tc.env, cpu=100)
    what = 'vectors of %s words, %s' % (', '.join(str(n) for _, n in vecs), ' '.join(fl))
    if r.rc != 0:
        return o.violate('huge%d' % spec[1], '%s: refused: %s %r' % (what, r.describe(), r.err[:600]), files)
    x = run([os.path.join(d, 'p')], d, env=G.tc.env, cpu=60)
    if (x.out.decode('latin-1'), x.rc) != ('\n'.join(exp) + '\n', 7):
        return o.violate('huge%d' % spec[1], '%s: expected %r, observed %r, %s' % (what, exp, x.out[:900], x.describe()), files)
    o.stats['executions'] += 1
    o.stats['gigabytes_of_vectors'] += sum(n for _, n in vecs) >> 27
    o.seen.add(digest(files))


def dispatch(spec):
    return {'cost': cost, 'limit': limit, 'huge': huge}[spec[0]](spec)


def main(tier, seed):
    c = setup('P21', tier, seed, 'exploration',
              'Large programs of %d families: run at sizes around the usual limits with results known in closed form, and '
              'compiled at sizes of 10^4 to 10^9 under a watch on processor time and memory. Distinct: (family, size).' % len(FAM),
              ['memory of the test machine bounds the sizes', 'clang itself copes with the modules'])
    tasks = [("cost", k, 0) for k in FAM] + [('huge', i) for i in range(12 if tier == 'quick' else 150)]
    for k, (f, most, _) in FAM.items():
        rng = c.rng('sizes', k)
        sizes = [n for n in NEAR if n <= most]
        small = [n for n in sizes if n <= 600]
        if tier == 'quick':
            big = [n for n in sizes if n > 600]
            sizes = sorted(set(rng.sample(small, min(14, len(small))) + rng.sample(big, min(4, len(big))) + [rng.randint(1, min(most, 700)), most]))
        else:
            sizes = sorted(set(sizes + [rng.randint(1, most) for _ in range(10)] + [most]))
        tasks += [('limit', k, n) for n in sizes]
    c.run_tasks(dispatch, tasks)
    return c.finish('executions', 100)
