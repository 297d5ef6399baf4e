"""P09: whatever the compiler accepts becomes a valid module.

Monitor: every module the compiler emits is parsed and checked by the LLVM verifier and
taken through the code generator to an object file; a sample also through the compiler's
own -c / -S at every optimization level. The workload is everything that gets accepted,
from tidy programs to mutants nobody would write."""
from checks.p08 import NEST, BIG_SLOW, nested
from vf.batch import *
from vf.corpus import *


def check_module(d, data, o, lab, rng, deep, cpu=60):
    """Compile data; when accepted, hand the module to the verifier and the back end."""
    with open(os.path.join(d, 'x.b'), 'wb') as f:
        f.write(data)
    r = run([G.tc.blang, '--emit-llvm', '-o', 'x.ll', 'x.b'], d, env=G.tc.env, cpu=cpu, mem=10 << 30, maxout=2 << 30)
    o.stats['inputs'] += 1
    ll = os.path.join(d, 'x.ll')
    if r.rc != 0:
        o.stats['refused'] += 1
        return False
    o.stats['modules_verified'] += 1
    o.seen.add(digest(open(ll, 'rb').read()))
    steps = [(['opt', '-passes=verify', '-o', 'x.bc', 'x.ll'], 'the LLVM verifier'),
             (['llc', '-O0', '-filetype=obj', '-relocation-model=pic', '-o', 'x.o', 'x.bc'], 'the code generator')]
    if deep:
        lev = '-O%d' % rng.randrange(4)
        steps.append((['clang', '-w', lev, '-c', '-o', 'y.o', 'x.ll'], 'clang ' + lev))
        fl = [lev] + (['-g'] if rng.random() < .3 else [])
        steps.append(([G.tc.blang] + fl + [rng.choice(['-c', '-S']), '-o', 'z.o', 'x.b'], 'blang ' + ' '.join(fl)))
    for cmd, what in steps:
        q = run(cmd, d, env=G.tc.env, cpu=300, maxout=2 << 30)
        o.stats['back_end_runs'] += 1
        if q.rc != 0:
            o.violate('%s:%s' % (lab, what), '%s: the compiler accepted this file, but %s refuses the module (%s): %s\nsource: %r' % (
                lab, what, q.describe(), q.err.decode('latin-1')[:800], data[:300]),
                {'x.b': data[:1 << 20], 'x.ll': open(ll, 'rb').read(1 << 20), 'stderr.txt': q.err[:1 << 16]})
            return True
    return True


def limits(rng, i):
    """Accepted extremes."""
    n = [1, 2, 8, 100, 254, 255, 256, 1000, 3000][i % 9]
    big = rng.choice([0, 1, 65535, 1 << 20, 1 << 28, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 40) + 1])
    k = i // 9
    s = [
        lambda: 'v[%d];main(){extrn v;return(v[%d]);}' % (big, n),
        lambda: 'v[%d] 1,2;main(){extrn v;return(v[%d]);}' % (min(big, 1 << 20), n),   # (the rest would be in the file)
        lambda: 'v[%d] "a","b",-3;main(){extrn v;return(v[%d]);}' % (n, n),
        lambda: 'main(){auto v[%d];v[%d]=1;return(v[1]);}' % (min(big, 1 << 28), n),
        lambda: 'f(%s){return(p0);}main(){f(%s);}' % (','.join('p%d' % j for j in range(n)), ','.join(map(str, range(n)))),
        lambda: 'main(){g(%s);g();g(1);}' % ','.join(map(str, range(n))),
        lambda: 'main(){auto x;switch(x){%s}}' % ''.join('case %d:x=%d;' % (j, j) for j in range(n)),
        lambda: 'main(){auto x;%s%s}' % (''.join('l%d:x++;' % j for j in range(n)), ''.join('goto l%d;' % j for j in range(n))),
        lambda: 'main(){%s}' % ''.join('if(x())goto l%d;' % j for j in range(n)) +
                'f(){%s}' % ''.join('l%d:;' % j for j in range(n)),
        lambda: 'v %s;main(){}' % ','.join('"%s"' % ('s' * j) for j in range(min(n, 300))),
        lambda: '%s main(){}' % ''.join('g%d %d;' % (j, j) for j in range(n)),
        lambda: '%s main(){}' % ''.join('f(a%d){return(a%d);}' % (j, j) for j in range(n)),
        lambda: 'main(){auto %s;%s}' % (','.join('%s' % ('x' * (j + 1)) for j in range(min(n, 500))),
                                        ''.join('%s=%d;' % ('x' * (j + 1), j) for j in range(min(n, 500)))),
        lambda: 'main(){return(%s);}' % '<<'.join(['1'] * n),
        lambda: 'main(){return(%s);}' % '/'.join(['0'] * n),
        lambda: 'main(){return(%s);}' % ' - '.join(['-9223372036854775807'] * n),
        lambda: "main(){switch(1){case '*0':case 0777:case 9223372036854775807:case 9223372036854775808:"
                "case 18446744073709551615:;}}",
        lambda: 'a "%s";main(){a("%s");}' % ('*0' * n, '*n' * n),
        lambda: 'main(){extrn %s;%s}' % (','.join('e%d' % j for j in range(n)), ''.join('e%d=1;' % j for j in range(n))),
        lambda: 'main(){return;%s}' % ('auto a%d;' * 1 % n + 'a%d=1;' % n),
    ]
    return s[k % len(s)]().encode('latin-1')


NLIMITS = 9 * 20


def long_names(rng):
    """Names of all kinds that begin with the same characters, as many as some buffer has room for (or a few
    more or less), and differ in what comes then; each name is spelled once and recurs in other roles."""
    n = max(1, rng.choice([16, 32, 64, 100, 127, 250, 255, 512, 1000, 1010, 1018, 1024, 1030, 1040, 1060, 1100, 2048, 4096,
                           10000]) + rng.randint(-9, 9))
    head = rng.choice(['x', 'ab', '_', 'a1', 'X_y', 'label', 'unreachable_']) * n
    head = head[:n]
    names = [head + t for t in ['', 'a', 'b', 'A', '0', '1', '_', '01', '10', '_1', 'addr', 'ab', 'ba', 'aa']]
    rng.shuffle(names)
    g, f, a, p, l = (names[:3], names[3:6], rng.sample(names[6:], 3), rng.sample(names[6:], 2), rng.sample(names, 6))
    a = [x for x in a if x not in p] or [head + 'z']
    # a label takes the name of nothing else in the function
    l = [x for x in l if x not in a and x not in p and x not in g] or [head + 'y', head + 'x']
    s = ['%s %d;%s[%d] %d;%s "%s";' % (g[0], 1, g[1], 3, 2, g[2], rng.choice(names))]
    for x in f:
        call = rng.choice(f)
        body = 'extrn %s;auto %s;' % (','.join(g), ','.join(a)) if rng.random() < .7 or x == f[0] else \
            'extrn %s;auto %s[%d];' % (','.join(g), '[3],'.join(a), rng.randint(1, 9))
        lab = [y for y in l if y != call]
        for k, y in enumerate(lab):
            body += '%s:%s%s;' % (y, rng.choice(['', 'if(%s)goto %s;' % (rng.choice(a + p + g), rng.choice(lab))]),
                                  '%s=%s+%d' % (rng.choice(a), rng.choice(p + g), k))
        body += 'return(%s(%s,%s));' % (call, rng.choice(a), rng.choice(p)) if call not in a + p else 'return(%s);' % a[0]
        s.append('%s(%s){%s}' % (x, ','.join(p), body))
    s.append('main(){return(%s(1,2));}' % f[0])
    return '\n'.join(s).encode('latin-1')


@with_dir
def task(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    for j in range(20):
        lab = '%s%s.%d' % (kind, i, j)
        if kind == 'nest':
            k, n = i[j] if j < len(i) else (None, 0)
            if k is None:
                break
            data = nested(k, n)
            lab = '%s x %d' % (k, n)
        elif kind == 'limits':
            if i * 20 + j >= NLIMITS:
                break
            data = limits(rng, i * 20 + j)
        elif kind == 'names':
            data = long_names(rng)
        elif kind == 'jumps':
            data = jumps(rng).encode('latin-1')
        elif kind == 'repeats':
            data = repeats(rng).encode('latin-1')
        elif kind == 'static':
            data = program_text(static_program(rng), rng, 'plain', .05).encode('latin-1')
        elif kind == 'tame':
            data = program_text(Tame(rng).program(), rng, 'plain', .05).encode('latin-1')
        elif kind == 'wild':
            data = program_text(Wild(rng).program(), rng, 'plain', .05).encode('latin-1')
        elif kind == 'tok':
            decls = Tame(rng).program() if rng.random() < .5 else static_program(rng, nfun=1)
            data = layout(mutate_tokens(rng, program_tokens(decls, rng, .05), 1), 'plain', rng).encode('latin-1')
        elif kind == 'mut':
            decls = Tame(rng).program() if rng.random() < .5 else static_program(rng, nfun=1)
            data = mutate_bytes(rng, program_text(decls, rng, 'plain').encode('latin-1'), 1)
        acc = check_module(d, data, o, lab, rng, deep=j % 7 == 0 and kind != 'nest')
        o.stats['accepted_' + kind] += acc
        if acc and not o.samples:
            o.samples.append('%s %r' % (lab, data[:150]))


def main(tier, seed):
    quick = tier == 'quick'
    c = setup('P09', tier, seed, 'exploration',
              'one evaluation = one emitted module parsed, verified and compiled to an object file; distinct = different modules',
              ['the LLVM 18 verifier and code generator define what a valid module is'])
    sizes = [1, 2, 30, 400] if quick else [1, 2, 7, 8, 9, 30, 100, 400, 1000, 3000]
    ns = [(k, n) for k in NEST for n in sizes]
    tasks = [('nest', tuple(ns[j:j + 20])) for j in range(0, len(ns), 20)]
    tasks += [('limits', i) for i in range((NLIMITS + 19) // 20)]
    m = 1 if quick else 12
    for k, n in [('static', 25), ('tame', 90), ('wild', 30), ('tok', 50), ('mut', 20), ('names', 12), ('jumps', 20), ('repeats', 30)]:
        tasks += [(k, i) for i in range(n * m)]
    tasks.sort(key=digest)
    c.run_tasks(task, tasks)
    return c.finish('modules_verified', 100)
