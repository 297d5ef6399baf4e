"""P08: the compiler ends normally on any input.

Monitor: every run of the real command must end by itself with status 0 and the output
file, or status 1, a message on standard error and no output file. Anything else (crash,
signal, other status, both or neither, stray files, no end within the CPU budget) is a
violation."""
import glob
import os
import shutil
import sys

from vf.batch import *
from vf.common import REPO
from vf.corpus import *

NEST = {
    'paren': ('main(){x(', '(', '1', ')', ');}'), 'minus': ('main(){return(', '- ', '1', '', ');}'),
    'not': ('main(){return(', '!', '1', '', ');}'), 'star': ('main(){auto a;return(', '*', 'a', '', ');}'),
    'amp': ('main(){auto a;return(', '*&', 'a', '', ');}'), 'block': ('main()', '{', ';', '}', ''),
    'if': ('main(){', 'if(1)', ';', '', '}'), 'ifelse': ('main(){', 'if(1);else ', ';', '', '}'),
    'elses': ('main(){', 'if(1)', ';', ' else;', '}'), 'while': ('main(){', 'while(1)', ';', '', '}'),
    'idx': ('main(){auto a;return(', 'a[', '1', ']', ');}'), 'postidx': ('main(){auto a;return(a', '[0]', '', '', ');}'),
    'call': ('main(){return(', 'f(', '1', ')', ');}'), 'postcall': ('main(){return(f', '()', '', '', ');}'),
    'tern': ('main(){return(', '1?', '1', ':1', ');}'), 'tern2': ('main(){return(', '1?1:', '1', '', ');}'),
    'asg': ('main(){auto a;', 'a=', '1', '', ';}'), 'switch': ('main(){', 'switch(1){', ';', '}', '}'),
    'case': ('main(){switch(1)', 'case %d:', ';', '', '}'), 'label': ('main(){', 'l%d:', ';', '', '}'),
    'add': ('main(){return(', '1+', '1', '', ');}'), 'incr': ('main(){auto a;return(', '++', 'a', '', ');}'),
    'open(': ('main(){x', '(', '', '', ''), 'open{': ('main()', '{', '', '', ''), 'open[': ('x', '[', '', '', ''),
    'comment': ('', '/*', '', '', ''), 'closed': ('', '/**/', '', '', ''), 'semi': ('main(){', ';', '', '', '}'),
    'blank': ('', ' ', '', '', ''), 'nl': ('main()', '\n', ';', '', ''), 'glob': ('', 'g%d;', '', '', ''),
    'fun': ('', 'f%d(a){return(a);}', '', '', ''), 'args': ('main(){f(0', ',1', '', '', ');}'),
    'params': ('main(a', ',a%d', '', '', '){}'), 'autos': ('main(){auto a', ',b%d', '', '', ';}'),
    'extrns': ('main(){extrn a', ',b%d', '', '', ';}'), 'ivals': ('v[] 0', ',-1', '', '', ';main(){}'),
    'name': ('', 'n', '', '', '(){}'), 'number': ('v ', '7', '', '', ';'), 'zeros': ('v ', '0', '', '', '1;'),
    'string': ('v "', 's', '', '', '";'), 'chars': ("v '", 'c', '', '', "';"), 'unstring': ('v "', 's', '', '', ''),
    'escapes': ('v "', '*n', '', '', '";'), 'vecsize': ('v[', '9', '', '', '];'), 'autosize': ('main(){auto v[', '9', '', '', '];}'),
    'casenum': ('main(){switch(1){case ', '9', '', '', ':;}}'), 'redef': ('', 'v[2] 1;', '', '', ''),
    'refun': ('', 'f(){}', '', '', ''), 'strings': ('main(){', 'f("%d");', '', '', '}'), 'gotos': ('main(){l:', 'goto l;', '', '', '}'),
    'shl': ('main(){return(1', '<<1', '', '', ');}'), 'stars': ('main(){/', '*', '', '', '/}'),
}


def nested(kind, n):
    a, op, mid, cl, z = NEST[kind]
    if '%d' in op:
        mid0 = ''.join(op % i for i in range(n))
    else:
        mid0 = op * n
    return (a + mid0 + mid + cl * n + z).encode('latin-1')


def verdict(d, data, flags, o, label, cpu=20, ext='.ll', mem=10 << 30):
    with open(os.path.join(d, 'x.b'), 'wb') as f:
        f.write(data)
    out = os.path.join(d, 'x' + ext)
    r = run([G.tc.blang] + list(flags) + ['-o', 'x' + ext, 'x.b'], d, env=G.tc.env, cpu=cpu, mem=mem, maxout=2 << 30)
    o.stats['inputs'] += 1
    have = os.path.exists(out)
    others = sorted(set(os.listdir(d)) - {'x.b', 'x' + ext})
    c = None
    if r.cpu_killed:
        c = 'the compiler did not end within %d CPU seconds' % cpu
    elif r.rc == 0:
        if not have or (os.path.getsize(out) == 0 and ext != '.ll'):     # an empty module is a module
            c = 'exit status 0 without output'
        o.stats['accepted'] += 1
        o.seen.add(digest(('ok', os.path.getsize(out) if have else 0, label[:3])))
    elif r.rc == 1:
        if not r.err.startswith(b'blang: error: ') or len(r.err.strip()) <= len(b'blang: error:'):
            c = 'exit status 1 without a message: %r' % r.err[:200]
        elif have:
            c = 'exit status 1, but there is an output file'
        o.stats['refused'] += 1
        o.seen.add(digest(('err', r.err[:300])))
        o.stats['message_bytes'] += len(r.err)
    else:
        c = 'the compiler crashed: %s, %r' % (r.describe(), r.err[:300])
    if c is None and r.out:
        c = 'unexpected text on standard output: %r' % r.out[:100]
    if c is None and others:
        c = 'stray files: %s' % others
    for n in others + ['x' + ext]:
        p = os.path.join(d, n)
        if os.path.exists(p):
            os.unlink(p)
    if c:
        o.violate(label, '%s %s: %s (input of %d bytes: %r)' % (label, ' '.join(flags), c, len(data), data[:200]),
                  {'x.b': data[:1 << 20], 'stderr.txt': r.err[:1 << 16]})
    return r


def source(rng):
    r = rng.random()
    if r < .6:
        decls = static_program(rng, nfun=rng.randint(1, 2))
    elif r < .85 or not EXAMPLES:
        decls = Wild(rng).program()
    else:
        return None, rng.choice(EXAMPLES)
    toks = program_tokens(decls, rng, .05)
    return toks, layout(toks, rng.choice(['plain', 'plain', 'wild', 'tight', 'comment']), rng).encode('latin-1')


EXAMPLES = []
BIG_SLOW = {'glob', 'fun', 'extrns', 'strings'}    # quadratic in the number of globals: fewer of them


@with_dir
def task(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    lab = '%s%s' % (kind, i)
    E = ('--emit-llvm',)
    if kind == 'nest':
        k, n = i
        data = nested(k, n)
        verdict(d, data, E, o, '%s x %d' % (k, n), cpu=60)
        return
    if kind == 'prefix':
        toks, data = source(rng)
        cuts = range(len(data) + 1)
        if len(cuts) > 700:
            cuts = sorted(rng.sample(cuts, 700))
        if i % 2 == 0:
            start = rng.randrange(max(1, len(cuts) - 120))
            cuts = cuts[start:start + 120]
        for n in cuts:
            verdict(d, data[:n], E, o, lab)
        o.stats['prefixes'] += len(cuts)
        return
    for j in range(40):
        if kind == 'byte':
            n = i * 40 + j
            if n < 256:
                data = bytes([n])
            elif n < 512:
                data = b'main(){' + bytes([n - 256]) + b'}'
            elif n < 768:
                data = b'x ' + bytes([n - 512]) + b';main(){}'
            elif n < 1024:
                data = b'main(){x(1' + bytes([n - 768]) + b'2);}'
            else:
                data = b'main(){x("*' + bytes([n & 255]) + b"\",'*" + bytes([n & 255]) + b"');}"
        elif kind == 'wild':
            data = program_text(Wild(rng).program(), rng, rng.choice(['plain', 'wild', 'tight']), .05).encode('latin-1')
        elif kind == 'tok':
            toks, data = source(rng)
            if toks is None:
                data = mutate_bytes(rng, data, 1)
            else:
                t = mutate_tokens(rng, toks, heavy(rng, 1, 2, 12))
                data = rng.choice(['', ' ', '\n']).join(t).encode('latin-1') if rng.random() < .4 else \
                    layout([x for x in t], 'plain', rng).encode('latin-1')
        elif kind == 'mut':
            data = mutate_bytes(rng, source(rng)[1], heavy(rng, 1, 2, 12))
        elif kind == 'jumps':
            data = rng.choice([jumps, jumps, repeats])(rng).encode('latin-1')
            if j % 4 == 3:
                data = mutate_bytes(rng, data, 1)
        elif kind == 'soup':
            data = soup(rng)
        elif kind == 'rand':
            data = random_bytes(rng)
        fl = E
        ext = '.ll'
        if j == 0:
            fl, ext = rng.choice([(('-c', '-O2'), '.o'), (('-S', '-g'), '.s'), (('--emit-llvm', '-g', '-O3'), '.ll'),
                                  (('-c',), '.o')])
        r = verdict(d, data, fl, o, '%s.%d' % (lab, j), ext=ext)
        if ext != '.ll' and r.rc == 0:
            o.stats['taken_through_back_end'] += 1
        if len(o.samples) < 1:
            o.samples.append('%s.%d %r -> %d %r' % (lab, j, data[:80], r.rc, r.err[:80]))


def main(tier, seed):
    quick = tier == 'quick'
    c = setup('P08', tier, seed, 'exploration',
              'one evaluation = one run of the command on one input; distinct = different messages or module sizes',
              ['a CPU budget of 20 s (60 s for megabyte inputs) stands for non-termination; usual need is below 0.1 s',
               'memory is limited to 10 GB of address space per run'])
    for f in sorted(glob.glob(os.path.join(REPO, 'examples', '*.b'))):
        with open(f, 'rb') as h:
            EXAMPLES.append(h.read())
    sizes = [0, 1, 2, 3, 9, 300, 20000] if quick else \
        [0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1023, 1025, 4095, 4097, 9000,
         20000, 65535, 200000]
    tasks = [('nest', (k, min(n, 3000) if k in BIG_SLOW else n)) for k in NEST for n in sizes]
    tasks += [('nest', (k, 1000000)) for k in NEST if k not in BIG_SLOW]
    m = 1 if quick else 12
    for k, n in [('byte', 32), ('prefix', 40 * m), ('wild', 100 * m), ('tok', 140 * m), ('mut', 100 * m), ('soup', 70 * m), ('jumps', 60 * m),
                 ('rand', 30 * m)]:
        tasks += [(k, i) for i in range(n)]
    tasks.sort(key=lambda t: (t[0] == 'nest' and t[1][1] < 1000000, digest(t)))
    c.run_tasks(task, tasks)
    return c.finish('inputs', 100)


