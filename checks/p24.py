"""P24: options mean the same in every documented form and place, and take effect.

Monitor 'spell': one command in a canonical spelling is the reference; the same meaning is then
spelled in other ways (short, long, attached, grouped and = forms, any order, overridden earlier
values) and status, messages and every file must be the same. Monitor 'level': the code found in
each output is compared with the code clang makes from the compiler's own module at each level."""
import re

from vf.batch import *
from vf.cmd import *
from vf.common import HarnessError, sh
from vf.corpus import *
from vf.fs import *

# each pair of levels gives different code for this
KERNELS = '''
vec[100]; gl; cnt 3;
sum(n) { extrn vec; auto i, s; s = 0; i = 0; while (i < n) { s =+ vec[i]; i++; } return (s); }
uns(n, c) { extrn vec, gl; auto i; i = 0; while (i < n) { if (c) vec[i] = vec[i] + 1; else vec[i] = vec[i] * 3; if (c == 7) gl =+ i; i++; } }
sp(p, q) { if (p == 0) { if (q == 1) return (sum(p)); } else if (q == 3) return (sum(p) + 1); return (sum(q)); }
big(x) { extrn gl; gl =+ x * x; gl =- x; gl = gl * x + 1; return (gl); }
css(a, b) { auto r; r = 0; if (a == 0 | b == 0) r = sum(a); else r = sum(b); return (r); }
nest(n) { extrn vec; auto i, j, s; i = 0; s = 0; while (i < n) { j = 0; while (j < 8) { s =+ vec[j] * i; j++; } i++; } return (s); }
'''
FUNS = ['sum', 'uns', 'sp', 'big', 'css', 'nest']


def kernels(rng, main=True, tag=0):
    t = KERNELS
    if tag:                               # a file of its own to link with another
        t = re.sub(r'\b(vec|gl|cnt|%s)\b' % '|'.join(FUNS), lambda m: m.group(1) + str(tag), t)
    t = t.replace('* 3', '* %d' % rng.randrange(3, 99, 2)).replace('j < 8', 'j < %d' % rng.choice([5, 6, 7, 8, 9, 10]))
    if main:
        t += 'main() { auto r; r = sum(%d); uns(20, %d); r =+ css(3, 0) + nest(4); printf("%%d*n", r); return (r %% 100); }\n' % (rng.randrange(1, 50), rng.randrange(9))
    return t


def asm_norm(b):
    return [l for l in b.decode('latin-1').split('\n') if not re.match(r'\s*\.(file|ident)\b|\s*#', l)]


def disasm(path, symbols=None):
    r = sh(['objdump', '-d', '-r', '--no-show-raw-insn', '--no-addresses', path] if not symbols else
           ['objdump', '-d', '--no-show-raw-insn', '--no-addresses', path])
    if r.returncode:
        raise HarnessError(r.stderr.decode())
    out, keep = [], not symbols
    for l in r.stdout.decode('latin-1').split('\n')[3:]:
        m = re.match(r'<(.*)>:$', l)
        if m and symbols:
            keep = m.group(1) in symbols
        if keep:
            l = l.strip()
            if symbols and not m:
                l = l.split()[0] if l else ''         # addresses differ once it is linked: mnemonics only
            if l not in ('', 'nop', 'nopw', 'nopl', 'cs', 'data16', 'xchg') and 'nop' not in l:
                out.append(l)
    return out


def clang(lev, args, cwd):
    r = sh(['clang', '-w', '-O%d' % lev] + args, cwd=cwd)
    if r.returncode:
        raise PrepError('clang rejects the module: ' + r.stderr.decode()[:300])


@with_dir
def level(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    mode = ['s', 'o', ''][i % 3]
    lev = [None, 0, 1, 2, 3][(i // 3) % 5]
    n = rng.choice([1, 1, 2, 3])
    kinds = [rng.choice(['.b', '.b', '.ll']) for _ in range(n)]
    w, ref = os.path.join(d, 'w'), os.path.join(d, 'ref')
    os.makedirs(w)
    os.makedirs(ref)
    for t in range(n):
        put(os.path.join(w, 'k%d.b' % t), kernels(rng, t == 0, t))
        try:
            must(['--emit-llvm', '-o', os.path.join(ref, 'k%d.ll' % t), 'k%d.b' % t], w)
            for l in range(4):
                clang(l, ['-S', '-o', 'k%d.%d.s' % (t, l), 'k%d.ll' % t], ref)
                if mode != 's':
                    clang(l, ['-c', '-o', 'k%d.%d.o' % (t, l), 'k%d.ll' % t], ref)
        except PrepError as e:
            return o.violate('%s%d:prep' % spec, '%s%d: preparing: %s' % (kind, i, e))
        if kinds[t] == '.ll':
            shutil.copy(os.path.join(ref, 'k%d.ll' % t), w)
            os.remove(os.path.join(w, 'k%d.b' % t))
    if lev is None:
        lo = []
    else:
        lo = rng.choice([['-O%d' % lev], ['-O', '%d' % lev], ['--optimize=%d' % lev], ['--optimize', '%d' % lev], ['-O=%d' % lev]])
        if rng.random() < .3:
            lo = rng.choice([['-O0'], ['-O1'], ['-O2'], ['-O3']]) + lo
    g = ['-g'] if rng.random() < .3 and mode != 's' else []
    rest = [MODES[mode][:1], g, rng.choice([[], [], ['--save-temps'], ['-v']]), ['-L' + G.tc.rt]]
    rng.shuffle(rest)
    ins = ['k%d%s' % (t, kinds[t]) for t in range(n)]
    parts = [lo] + rest
    at = rng.randrange(len(parts) + 1)
    args = sum(parts[:at], []) + ins + sum(parts[at:], [])
    if at == 0 and rng.random() < .5:
        args = sum(parts[at:], []) + ins
    what = '%s%d: blang %s' % (kind, i, ' '.join(args))
    files = {x: get(os.path.join(w, x)) for x in ins}
    files['command.txt'] = what
    r = blang(args, w)
    if r.rc != 0:
        return o.violate('%s%d' % spec, '%s: %s: %s' % (what, r.describe(), r.err.decode('latin-1')[:300]), files)
    want = 1 if lev is None else lev
    for t in range(n):
        if mode == 's':
            got = asm_norm(get(os.path.join(w, 'k%d.s' % t)) or b'')
            refs = [asm_norm(get(os.path.join(ref, 'k%d.%d.s' % (t, l)))) for l in range(4)]
        elif mode == 'o':
            got = disasm(os.path.join(w, 'k%d.o' % t))
            refs = [disasm(os.path.join(ref, 'k%d.%d.o' % (t, l))) for l in range(4)]
        else:
            sy = {'b.' + f + (str(t) if t else '') for f in FUNS}
            got = disasm(os.path.join(w, 'k0'), sy)
            refs = [disasm(os.path.join(ref, 'k%d.%d.o' % (t, l)), sy) for l in range(4)]
        if len(set(map(tuple, refs))) < 4:
            o.stats['levels_not_told_apart'] += 1
        else:
            o.stats['outputs_with_four_distinct_levels'] += 1
        if got != refs[want]:
            like = [l for l in range(4) if refs[l] == got]
            return o.violate('%s%d' % spec, '%s: the code of %s is not that of level %d%s' % (
                what, ins[t], want, ', but that of level %d' % like[0] if like else ''), files)
        o.stats['outputs_of_level_%s' % ('default' if lev is None else lev)] += 1
        o.stats['outputs_compared'] += 1
    o.seen.add(digest((args, i)))


BADLEVELS = ['4', '5', '9', 'x', '', '01', '00', '-1', '+1', '10', '12', 's', 'z', 'g', 'fast', ' 2', '1 ', '\t3', '2\n', '1.0', '1x',
             '0x1', '1,2', '2-', 'O2', '\u0662', '\uff12', 'one', '3 3', '1e0', '256', '4294967297', '18446744073709551617']


class Meaning:
    """what a command asks for, apart from its spelling"""

    def __init__(self, rng, outs):
        self.mode = rng.choice(['ll', 's', 'o', '', ''])
        self.out = rng.choice(outs) if rng.random() < .6 else None
        self.lev = rng.choice([None, '0', '1', '2', '3', '3']) if rng.random() < .93 else rng.choice(BADLEVELS)
        self.g = rng.random() < .3
        self.v = rng.random() < .3
        self.save = rng.random() < .2
        self.dirs = rng.choice([[], [], ['d 1'], ['d,2'], ['d0', 'd 1'], ['nosuch', 'd0']])
        self.end = rng.random() < .5     # -- in the reference
        self.libs = rng.choice([[], [], ['one'], ['two'], ['one', 'two'], ['two', 'one', 'two']]) if self.mode == '' and self.dirs and self.dirs != ['nosuch'] else []

    def canon(self, ins):
        a = []
        if self.mode:
            a.append({'ll': '--emit-llvm', 's': '--assemble', 'o': '--compile'}[self.mode])
        if self.out is not None:
            a += ['--output', self.out]
        if self.lev is not None:
            a += ['--optimize', self.lev]
        a += [x for x, y in (('--debug', self.g), ('--verbose', self.v), ('--save-temps', self.save)) if y]
        for x in self.dirs + [G.tc.rt]:
            a += ['--library-dir', x]
        for x in self.libs:
            a += ['--library', x]
        return a + (['--'] if self.end else []) + ['./' + x if x.startswith('-') else x for x in ins]

    def spell(self, rng, ins):
        flags, items = [], []            # items: lists of words; dirs and libs keep their order among themselves

        def value(short, long, v):
            f = ['-' + short + v] if v and v[0] != '=' else []
            if v:                     # "-O=" has the value "="
                f.append('-' + short + '=' + v)
            f.append(('-' + short, v))
            f += ['--' + long + '=' + v, ('--' + long, v)]
            f = rng.choice(f)
            return [f] if isinstance(f, str) else list(f)

        def boolean(short, long, on):
            if rng.random() < .15:                      # said several times: the last one counts
                w = ['--%s=%s' % (long, rng.choice(['true', 'false', '1', '0', 'T', 'F'])), '--%s=%s' % (long, 'true' if on else 'false')]
                return w
            if not on:
                return [rng.choice(['--%s=false' % long, '--%s=0' % long])] if rng.random() < .1 else []
            if short and rng.random() < .5:
                flags.append(short)
                return []
            return [rng.choice(['--' + long, '--%s=true' % long] + (['-' + short, '-%s=true' % short] if short else []))]

        for short, long, on in (('', 'emit-llvm', self.mode == 'll'), ('S', 'assemble', self.mode == 's'), ('c', 'compile', self.mode == 'o'),
                                ('g', 'debug', self.g), ('v', 'verbose', self.v), ('', 'save-temps', self.save)):
            w = boolean(short, long, on)
            if w:
                items.append((w, None))
        if self.out is not None:
            w = value('o', 'output', self.out)
            if rng.random() < .2:
                w = value('o', 'output', rng.choice(['other', 'wrong.o', ''])) + w
            items.append((w, None))
        if self.lev is not None:
            w = value('O', 'optimize', self.lev)
            if rng.random() < .2:
                w = value('O', 'optimize', rng.choice('0123')) + w
            items.append((w, None))
        rng.shuffle(flags)
        while flags:                                     # short flags in groups, perhaps with a value at the end
            k = rng.randint(1, len(flags))
            word = '-' + ''.join(flags[:k])
            flags = flags[k:]
            vals = [x for x in items if x[1] is None and len(x[0]) == 1 and re.match(r'-[oO][^=]', x[0][0])]
            if vals and rng.random() < .5:
                x = rng.choice(vals)
                items.remove(x)
                word += x[0][0][1:]
            items.append(([word], None))
        for x in self.dirs + [G.tc.rt]:
            items.append((value('L', 'library-dir', x), 'L'))
        for x in self.libs:
            items.append((value('l', 'library', x), 'l'))
        for x in ins:
            items.append(([x], 'in'))
        seq = list(range(len(items)))
        rng.shuffle(seq)
        for tag in ('L', 'l', 'in'):
            places = sorted(p for p, k in enumerate(seq) if items[k][1] == tag)
            for p, k in zip(places, sorted(seq[p] for p in places)):
                seq[p] = k
        out = [w for k in seq for w in items[k][0]]
        if any(x.startswith('-') for x in ins):         # can only be said after --
            front = [x for x in ins if not x.startswith('-')] if ins[-1].startswith('-') and len(ins) == 2 else []
            out = [w for k in seq if items[k][1] != 'in' for w in items[k][0]] + front + ['--'] + ins[len(front):]
        elif rng.random() < .2:
            out = [w for k in seq if items[k][1] != 'in' for w in items[k][0]] + rng.choice([['--'], []]) + ins
        return out


@with_dir
def spell(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    n = rng.choice([1, 1, 1, 2, 3])
    m = Meaning(rng, ['out', 'r.x', 'sub/out', './o', 'a.s', 'two words', '=eq', '-dash', 'b.b.b'])
    if m.lev is not None and m.lev.startswith('-') and rng.random() < .5:
        m.lev = '4'
    ins, content = [], {}
    dash = rng.random() < .15
    if dash:
        m.v = False                       # names the inputs as they are spelled
    try:
        src = os.path.join(d, 'src')
        for t in range(n):
            k = rng.choice(ACCEPTS[m.mode]) if rng.random() < .3 else '.b'
            if t == 0 and k == '.a':
                k = '.b'
            if rng.random() < .03:
                k = rng.choice(['.c', '', '.o', '.a'])
            x = rng.choice(['', 'sub/', './']) + 'in%d' % t + k
            if dash and k == '.b' and (t == n - 1 or rng.random() < .5):
                x = rng.choice(['-v', '-c', '-S', '-g', '-O3', '-o', '-', '--', '--help', '--output', '-in', '--emit-llvm', '-V', '-L.', '---']) + '%d.b' % t
                if rng.random() < .6 and n == 1:
                    x = x.replace('0.b', '.b')
            ins.append(x)
            text = unit(t, tuple(range(1, n)) if t == 0 and m.mode == '' else (), m.mode != '' or t == 0)
            if rng.random() < .04 and not x.startswith('-'):
                text += rng.choice(['f( { }', '}', 'x "abc', 'h() { return 1; }'])
                k = '.b' if k in ACCEPTS[''] else k
                ins[-1] = x = x[:x.rindex('in') + 3] + k
            prepare(d, os.path.join(src, x), text, k if k in ('.b', '.ll', '.s', '.o', '.a') else '.b')
        for lib, dirs in (('one', ['d0', 'd 1']), ('two', ['d 1', 'd,2', 'd0'])):
            for j, x in enumerate(dirs):
                prepare(d, os.path.join(src, x, 'lib%s.a' % lib), 'x%s%d() return (%d);\n' % (lib, j, j), '.a')
        if m.libs and rng.random() < .6 and ins[0].endswith('.b') and m.mode == '':
            t = get(os.path.join(src, ins[0])).decode('latin-1')
            put(os.path.join(src, ins[0]), t.replace('return(r %', 'printf("%%d*n", x%s%d()); return(r %%' % (m.libs[0], rng.randrange(2)), 1))
    except PrepError as e:
        return o.violate('%s%d:prep' % spec, '%s%d: preparing an input failed: %s' % (kind, i, e))
    for x in ('sub', 'd0', 'd 1', 'd,2'):
        os.makedirs(os.path.join(src, x), exist_ok=True)

    def execute(args, name):
        w = os.path.join(d, name)
        shutil.copytree(src, os.path.join(w, 'cwd'), symlinks=True)
        os.makedirs(os.path.join(w, 'tmp'))
        r = blang(args, os.path.join(w, 'cwd'), dict(G.tc.env, TMPDIR=os.path.join(w, 'tmp')))
        tree = {}
        for p in snapshot(w):
            q = os.path.join(w, p)
            if os.path.isfile(q):
                tree[p] = get(q)
        shutil.rmtree(w)
        tmp = re.compile(re.escape(os.path.join(w, 'tmp')).encode() + rb'/[^/\s]+')     # its own directory has a random name
        return r.rc, tmp.sub(b'TMP', r.out).replace(b'./-', b'-'), tmp.sub(b'TMP', r.err).replace(b'./-', b'-'), tree, r

    ca = m.canon(ins)
    c = execute(ca, 'w')
    o.stats['commands_refused' if c[0] else 'commands_' + (m.mode or 'exe')] += 1
    if m.lev in BADLEVELS:
        o.stats['undefined_levels'] += 1
        if c[0] == 0:
            return o.violate('%s%d' % spec, '%s%d: blang %s: the level %r was not refused' % (kind, i, ' '.join(map(repr, ca)), m.lev))
    if dash:
        o.stats['inputs_named_like_options'] += 1
    for k in range(4 if G.tier == 'quick' else 6):
        a = m.spell(rng, ins)
        g = execute(a, 'w')
        what = '%s%d: blang %s, meaning blang %s' % (kind, i, ' '.join(map(repr, a)), ' '.join(map(repr, ca)))
        files = {'command.txt': what}
        msg = None
        if g[0] != c[0]:
            msg = '%s instead of status %d: %r' % (g[4].describe(), c[0], g[2][:300])
        elif g[1] != c[1]:
            msg = 'printed %r instead of %r' % (g[1][:400], c[1][:400])
        elif g[2] != c[2]:
            msg = 'message %r instead of %r' % (g[2][:400], c[2][:400])
        elif g[3] != c[3]:
            msg = 'files differ: %r' % sorted(p for p in set(g[3]) | set(c[3]) if g[3].get(p) != c[3].get(p))
        if msg:
            for x in ins:
                if os.path.isfile(os.path.join(src, x)):
                    files[os.path.basename(x)] = get(os.path.join(src, x))
            return o.violate('%s%d' % spec, '%s: %s' % (what, msg), files)
        o.stats['spellings'] += 1
        o.seen.add(digest(a))
    if not o.samples:
        o.samples.append('blang %s like blang %s: status %d' % (' '.join(a), ' '.join(ca), c[0]))


def dispatch(spec):
    return {'spell': spell, 'level': level}[spec[0]](spec)


def main(tier, seed):
    c = setup('P24', tier, seed, 'exploration', 'distinct spellings and level commands whose effects were compared completely',
              ['Options that contradict each other (several output kinds) are not judged.'])
    n = (260, 180) if tier == 'quick' else (3000, 1500)
    tasks = [('spell', i) for i in range(n[0])] + [('level', i) for i in range(n[1])]
    c.rng('order').shuffle(tasks)
    c.run_tasks(dispatch, tasks)
    return c.finish('spellings', 100)
