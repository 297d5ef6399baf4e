"""P19: compiled programs stay inside their own storage.

Monitors: AddressSanitizer and MemorySanitizer instrument the modules the compiler emits
(programs that by the reference interpreter never leave their variables), so every load and
store of the running program is checked, also against storage of ended activations; and an
observer of the stack pointer in ordinary builds, which sees how deep the stack is at every
call of loops and recursions."""
import re

from checks import p01, p02, p03, p04, p05, p06, p11
from vf import rt
from vf.batch import *
from vf.common import HarnessError, SUPPORT, sh
from vf.gen import *
from vf.corpus import examples

SAN = {
    'asan': (['-fsanitize=address', '-fsanitize-address-use-after-return=always'], 'sanitize_address', b'AddressSanitizer'),
    'msan': (['-fsanitize=memory', '-fsanitize-memory-track-origins=0'], 'sanitize_memory', b'MemorySanitizer'),
}
SANENV = {'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=1:exitcode=199:abort_on_error=0:symbolize=0:'
                          'detect_odr_violation=0:max_uar_stack_size_log=24',
          'MSAN_OPTIONS': 'exitcode=199:symbolize=0'}
OBJS = {}


def instrument(ll, attr):
    """Ask for instrumentation of every function the module defines."""
    out = []
    n = 0
    for line in ll.split(b'\n'):
        if line.startswith(b'define '):
            p = line.rindex(b')')
            line = line[:p + 1] + b' ' + attr.encode() + line[p + 1:]
            n += 1
        out.append(line)
    return b'\n'.join(out), n


CANARY = {
    'asan': ('define i64 @main() sanitize_address {\n %a = alloca [4 x i64]\n %p = ptrtoint [4 x i64]* %a to i64\n %q = add i64 %p, 32\n'
             ' %r = inttoptr i64 %q to i64*\n store i64 1, i64* %r\n %v = load i64, i64* %r\n ret i64 %v\n}\n'),
    'msan': ('define i64 @main() sanitize_memory {\n %a = alloca i64\n %v = load i64, i64* %a\n %c = icmp eq i64 %v, 3\n'
             ' br i1 %c, label %x, label %y\nx:\n ret i64 1\ny:\n ret i64 0\n}\n'),
}


def prepare():
    """Runtime and observer for each sanitizer; a known error has to be reported."""
    sc = G.check.scratch
    for name, (flags, attr, word) in SAN.items():
        objs = rt.objects(G.tc, sc, name, ['clang', '-O1', '-g'] + flags)
        o = os.path.join(sc.dir, 'obs-%s.o' % name)
        r = sh(['clang', '-O1', '-w'] + flags + ['-c', os.path.join(SUPPORT, 'obs_san.c'), '-o', o])
        if r.returncode:
            raise HarnessError('sanitized observer: ' + r.stderr.decode())
        lib = os.path.join(sc.dir, 'lib-%s.a' % name)
        r = sh(['ar', 'cr', lib] + objs)
        if r.returncode:
            raise HarnessError('sanitized library: ' + r.stderr.decode())
        OBJS[name] = [o, lib]
        d = workdir('canary-' + name)
        with open(os.path.join(d, 'c.ll'), 'w') as f:
            f.write(CANARY[name])
        q = link(d, 'c.ll', name, '-O0')
        if q.rc != 0:
            raise HarnessError('canary (%s) does not link: %s' % (name, q.err.decode('latin-1')[:500]))
        q = execute(d, 20, b'')
        if q.rc != 199 or word not in q.err:
            raise HarnessError('the %s canary was not reported: %s %r' % (name, q.describe(), q.err[:300]))


def link(d, ll, san, lev):
    return run(['clang', '-w', lev] + SAN[san][0] + ['-o', 'p', ll] + OBJS[san], d, env=G.tc.env, cpu=300, maxout=1 << 30)


def execute(d, cpu, data):
    env = dict(G.tc.env, **SANENV)
    return run([os.path.join(d, 'p')], d, env=env, cpu=cpu, input=data, stack=1 << 30)


KINDS = {'ops': p01.k_ops, 'mixed': p01.k_mixed, 'deep': p01.k_deep, 'cond': p01.k_cond, 'forms': p02.k_forms, 'once': p02.k_once,
         'chain': p02.k_chain, 'flow': p03.k_flow, 'els': p03.k_else, 'switch': p03.k_switch, 'nest': p03.k_nest,
         'params': p04.k_params, 'missing': p04.k_missing, 'recursion': p04.k_recursion, 'returns': p04.k_returns,
         'args': p04.k_args, 'globals': p05.k_globals, 'autos': p05.k_autos, 'disjoint': p05.k_disjoint, 'large': p05.k_large, 'frames': p05.k_frames,
         'many': p05.k_manywords, 'roles': p06.k_roles, 'redef': p06.k_redefine, 'scope': p06.k_scope,
         'strings': p11.k_strings, 'size': p11.k_size}


def k_general(rng, i):
    p = Program(rng, 10, dict(se=rng.choice([0, .2]), stmts=rng.choice([5, 10]), ptrs=rng.choice([.3, .9]), goto=rng.choice([.03, .2]),
                              switch=.1, edepth=3))
    return Case(p.text('plain'), p.expect, note='general program')


def k_edgewords(rng, i):
    """First and last words of vectors of all kinds, by index, pointer and address, next to other objects."""
    from vf.lang import Printer
    ng = rng.randint(1, 6)
    top, body, n = [], [], 0
    for g in range(ng):
        size = rng.choice([0, 1, 2, 3, 7, 8, 9, 64, 100])
        iv = [gen_ival(rng) for _ in range(rng.choice([0, 0, 1, 2, size, size + 1]))]
        w = max(size, len(iv), 1)
        if rng.random() < .25 and iv:
            top.append('g%d %s;' % (g, ','.join(''.join(Printer().ival(v)) for v in iv)))
            body.append((g, len(iv), '(&g%d)' % g))
        else:
            top.append('g%d[%s] %s;' % (g, size if size or rng.random() < .5 else '', ','.join(''.join(Printer().ival(v)) for v in iv)))
            body.append((g, w, 'g%d' % g))
    loc, use = [], []
    for a in range(rng.randint(1, 6)):
        size = rng.choice([0, 1, 2, 3, 8, 33])
        if rng.random() < .4:
            loc.append('auto s%d;' % a)
            use.append('s%d = %d; p = &s%d; *p =+ 1; p[0]++; x =+ s%d;' % (a, a, a, a))
        else:
            loc.append('auto w%d[%d];' % (a, size))
            m = max(size, 1) - 1
            use.append('w%d[0] = 1; w%d[%d] = 2; p = &w%d[%d]; *p =+ 3; *(w%d + %d) = 9; x =+ w%d[0] + w%d[%d]; fill(w%d, %d);' % (
                a, a, m, a, m, a, 8 * m, a, a, m, a, m + 1))
    for g, w, e in body:
        use.append('%s[0] =+ 1; %s[%d] =| 1; p = &%s[%d]; *p = x; ++*p; x =+ %s[%d]; fill(%s, %d);' % (e, e, w - 1, e, w - 1, e, w - 1, e, w))
    rng.shuffle(top)
    rng.shuffle(use)
    t = '\n'.join(top) + '''
fill(v, n) { auto i, q; i = 0; while (i < n) { v[i] = v[i] + i; i++; } q = v; while (n--) { *q =+ n; q =+ 8; } return (0); }
f(k) { extrn %s; auto x, p; %s\n x = k; %s\n if (k > 0) x =+ f(k - 1); return (x); }
main() { ev(1, f(3) * 0); return (0); }
''' % (', '.join('g%d' % g for g in range(ng)), ' '.join(loc), '\n'.join(use))
    return Case(t, ([(0,)], 0), note='edge words')


def k_example(rng, i):
    """The programs that come with the compiler."""
    ex = examples()
    if i >= len(ex):
        return None
    return Case(ex[i][1], None, input=ex[i][2], note=ex[i][0])


KINDS.update(general=k_general, edge=k_edgewords, example=k_example)


def sanitized(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    cases = KINDS[kind](rng, i)
    if cases is None:
        return
    if isinstance(cases, Case):
        cases = [cases]
    if len(cases) > 2:
        cases = rng.sample(cases, 2)
    for n, c in enumerate(cases):
        if c.extra_sources or c.mem:
            continue
        lab = '%s%d.%d' % (kind, i, n)
        with open(os.path.join(d, 'x.b'), 'w', encoding='latin-1') as f:
            f.write(c.text)
        r = run([G.tc.blang, '--emit-llvm', '-o', 'x.ll', 'x.b'], d, env=G.tc.env, cpu=60, maxout=1 << 30)
        if r.rc != 0:
            o.stats['not_compiled'] += 1
            continue
        ll = open(os.path.join(d, 'x.ll'), 'rb').read()
        for san, lev in [('asan', '-O0'), ('msan', '-O0'), (rng.choice(['asan', 'msan']), rng.choice(['-O1', '-O2']))]:
            flags, attr, word = SAN[san]
            x, nf = instrument(ll, attr)
            with open(os.path.join(d, 'i.ll'), 'wb') as f:
                f.write(x)
            q = link(d, 'i.ll', san, lev)
            if q.rc != 0:
                o.stats['not_linked'] += 1
                continue
            if o.stats['instrumented_accesses'] == 0:
                o.stats['instrumented_accesses'] += sum(1 for l in x.split(b'\n') if b' load ' in l or b'\tstore ' in l)
            q = execute(d, c.cpu * 10, c.input)
            o.stats['sanitized_executions'] += 1
            o.stats['functions_instrumented'] += nf
            o.stats['%s_%s' % (san, kind)] += 1
            evs, end, garbage = parse_log(q.out)
            o.stats['events_seen'] += len(evs)
            o.stats['as_expected'] += c.expect is not None and c.expect[0] == evs
            complaint = None
            if word in q.err or q.rc == 199:
                m = re.search(rb'(ERROR|WARNING): [^\n]*', q.err)
                complaint = '%s: %s' % (san, m.group(0).decode('latin-1') if m else q.err[:200])
            elif q.rc < 0 and not q.cpu_killed:
                complaint = '%s build %s' % (san, q.describe())
            if complaint:
                o.violate('%s:%s%s' % (lab, san, lev), '%s (%s) %s: a program that stays within its variables: %s' % (lab, c.note, lev, complaint),
                          {'x.b': c.text.encode('latin-1'), 'report.txt': q.err[:1 << 16], 'x.ll': ll[:1 << 20]})
                return
            o.seen.add(digest((kind, evs[:2000])))
            if not o.samples:
                o.samples.append('%s (%s): %d functions, %d events, no report' % (lab, c.note, nf, len(evs)))


# ------------------------------------------------------------- stack growth

def inner(rng, depth, tag):
    """Statements for a loop body: all that could conceivably take stack space."""
    out = []
    for _ in range(rng.randint(1, 4)):
        r = rng.randrange(14)
        v = 'n%d' % tag[0]
        tag[0] += 1
        if r == 0:
            out.append('{ auto %s; %s = i; x =+ %s; }' % (v, v, v))
        elif r == 1:
            out.append('{ auto %s[%d]; %s[0] = i; x =+ %s[0]; }' % (v, rng.choice([1, 3, 40]), v, v))
        elif r == 2:
            out.append('auto %s; %s =+ x; x = %s;' % (v, v, v))
        elif r == 3:
            out.append('if (i & 1) { auto %s; %s = x + 1; x = %s; } else x =^ 1;'.replace('=^', '=+') % (v, v, v))
        elif r == 4:
            out.append('x =+ many(i,1,2,3,4,5,6,7,8,9,10,11);')
        elif r == 5:
            out.append('x = x ? (i ? x + 1 : x - 1) : !i;')
        elif r == 6:
            out.append('switch (i & 3) { case 0: { auto %s; %s = 3; x =+ %s; } case 1: x++; case 2: x--; }' % (v, v, v))
        elif r == 7:
            out.append('x =+ slen("a string %d");' % tag[0])
        elif r == 8 and depth:
            out.append('{ auto %s; %s = 0; while (%s < 3) { %s++; %s } }' % (v, v, v, v, inner(rng, depth - 1, tag)))
        elif r == 9 and depth:
            out.append('{ auto %s; %s = 0; L%s: %s if (%s++ < 2) goto L%s; }' % (v, v, v, inner(rng, depth - 1, tag), v, v))
        elif r == 10:
            out.append('x =+ *&x; w[i & 3] = x; x = w[(i + 1) & 3]++; p = &w[2]; *p =+ 1; ++*p;')
        elif r == 11:
            out.append('fp = many; x =+ fp(1,2,3,4,5,6,7,8,9);')
        elif r == 12:
            out.append('x =+ rec(i & 7);')
        else:
            out.append('{ { { x =- 1; ; } } }')
    return ' '.join(out)


def k_growth(rng, i):
    n = rng.choice([20000, 60000])
    fs, calls = [], []
    for k in range(4):
        tag = [0]
        head = 'f%d(n) { auto i, x, w[4], p, fp; i = 0; x = n; ' % k
        b = inner(rng, 2, tag)
        body = 'evsp(%d); %s' % (k, b)
        form = rng.randrange(4)
        if form == 0:
            loop = 'while (i < n) { %s i++; }' % body
        elif form == 1:
            loop = 'again: %s if (++i < n) goto again;' % body
        elif form == 2:
            loop = 'while (i++ < n) { if (i & 1) { %s } else { evsp(%d); } }' % (body, k + 10)
        else:
            loop = 'while (1) { switch (i & 1) { case 0: %s case 1: ; } if (i++ >= n) goto out; } out:;' % body
        fs.append(head + loop + ' return (x); }')
        calls.append('f%d(%d);' % (k, n))
    text = '''
many(a,b,c,d,e,f,g,h,j,k,l,m) { return (a + b + h); }
slen(s) { auto n; n = 0; while (char(s, n)) n++; return (n); }
rec(n) { auto v[3]; v[0] = n; if (n > 0) v[1] = rec(n - 1); return (v[0]); }
%s
main() { %s evspend(); return (0); }
''' % ('\n'.join(fs), ' '.join(calls))
    return text, 'loops of %d iterations' % n


def k_levels(rng, i):
    """Recursion whose levels loop a different number of times."""
    tag = [0]
    b = inner(rng, 2, tag).replace('rec(', 'slen2(')
    text = '''
many(a,b,c,d,e,f,g,h,j,k,l,m) { return (a + b + h); }
slen(s) { auto n; n = 0; while (char(s, n)) n++; return (n); }
slen2(s) { return (s); }
level(d) {
    auto i, x, w[4], p, fp, n;
    n = d %% 3 == 0 ? 4000 : d %% 3 == 1 ? 1 : 50;
    i = 0; x = d;
    while (i < n) { evsp(d); %s i++; }
    if (d > 0) x =+ level(d - 1);
    return (x);
}
main() { level(40); evspend(); return (0); }
''' % b
    return text, 'recursion with loops'


SLACK = 4096


def growth(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    text, note = (k_growth if kind == 'growth' else k_levels)(rng, i)
    with open(os.path.join(d, 'x.b'), 'w') as f:
        f.write(text)
    for lev in ('-O0', '-O1', '-O2', '-O3') if kind == 'growth' else ('-O0',):
        r = compile_b(G.tc, d, ['x.b'], 'p', [lev], extra=[G.tc.obs])
        if r.rc != 0:
            o.stats['not_compiled'] += 1
            return
        q = run([os.path.join(d, 'p')], d, env=G.tc.env, cpu=60)
        o.stats['growth_executions'] += 1
        evs, end, garbage = parse_log(q.out)
        files = {'x.b': text.encode(), 'log.txt': '\n'.join(map(repr, evs))}
        lab = '%s%d%s' % (kind, i, lev)
        if q.rc < 0 and not q.cpu_killed:
            o.violate(lab, '%s (%s): %s' % (lab, note, q.describe()), files)
            return
        if not evs:
            o.stats['no_stack_events'] += 1
            continue
        o.stats['stack_observations'] += sum(e[3] for e in evs if len(e) == 4)
        for e in evs:
            if e[2] - e[1] > SLACK:
                o.violate(lab, '%s (%s): the stack grew by %d bytes while one activation went round a loop %d times' % (
                    lab, note, e[2] - e[1], e[3]), files)
                return
        if kind == 'levels':
            lo = [e[1] for e in evs]
            gaps = [b - a for a, b in zip(lo, lo[1:])]
            o.stats['levels_compared'] += len(gaps)
            if gaps and max(gaps) - min(gaps) > SLACK:
                o.violate(lab, '%s (%s): activations of one function took between %d and %d bytes of stack' % (
                    lab, note, min(gaps), max(gaps)), files)
                return
        o.seen.add(digest((kind, i, lev)))


@with_dir
def task(spec, d, o):
    (growth if spec[0] in ('growth', 'levels') else sanitized)(spec, d, o)


def main(tier, seed):
    quick = tier == 'quick'
    c = setup('P19', tier, seed, 'exploration',
              'one evaluation = one execution under AddressSanitizer or MemorySanitizer without report; also executions with the stack '
              'pointer observed; distinct = different event sequences',
              ['the reference interpreter establishes that the programs stay within their variables',
               'red zones do not catch an access that lands inside another live object (P02 and P05 compare those contents)'])
    prepare()
    m = 1 if quick else 14
    tasks = [(k, i) for k in KINDS for i in range((14 if k == 'general' else 20 if k == 'example' else 16 if k == 'edge' else 12 if k == 'frames' else 4) * m)]
    tasks += [('growth', i) for i in range(12 * m)] + [('levels', i) for i in range(10 * m)]
    tasks.sort(key=digest)
    c.run_tasks(task, tasks)
    return c.finish('sanitized_executions', 100)
