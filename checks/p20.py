"""P20: programs start and end as the operating system expects.

Monitors at the border of the process: wait status, bytes on each descriptor, position of the
shared standard input afterwards, the log of system calls (strace on the check's own
children), and an alignment counter in the linked-in observer that looks at the stack pointer
of every call it receives."""
import re

from checks import p04
from vf import rt
from vf.batch import *
from vf.cmd import prepare
from vf.gen import *
from vf.lang import quote

STRACE = {'ok': False}

# --------------------------------------------------- programs with a known run


class Stop(Exception):
    pass


class World:
    """What a program does, step by step, as its text is generated from the same tree."""

    def __init__(self, data, stdin_open=True):
        self.out = {1: bytearray(), 2: bytearray()}
        self.data, self.pos, self.reads = data, 0, 0
        self.fout = 0
        self.stdin_open = stdin_open

    def put(self, b, fd=None):
        self.out[self.fout + 1 if fd is None else fd] += b

    def read(self):
        self.reads += 1
        if not self.stdin_open or self.pos >= len(self.data):
            return 4
        self.pos += 1
        c = self.data[self.pos - 1]
        return c if 0 < c <= 127 else 0


def B(v):
    """Source text of a word."""
    from vf.lang import MIN
    v = wrap(v)
    return str(v) if v >= 0 else '(-%d)' % -v if v != MIN else '(-9223372036854775807 - 1)'


def lit(data, q='"'):
    return quote(data, q)


def some_text(rng, n):
    return bytes(rng.choice(b'abcXYZ 0129.,:;-+{}()*"\'\n\t') for _ in range(n))


def op(rng):
    """(source text, effect on the world)"""
    r = rng.randrange(13)
    if r == 0:
        s = some_text(rng, rng.randint(1, 8))
        return 'write(%s);' % lit(s, "'"), lambda w: w.put(s)
    if r == 1:
        v = word(rng)
        return 'write(%s);' % B(v), lambda w: w.put(rt.chars(v))
    if r == 2:
        b = rng.randrange(256)
        return 'writeb(%d);' % b, lambda w: w.put(bytes([b]))
    if r == 3:
        v = word(rng)
        return 'printd(%s);' % B(v), lambda w: w.put(b'%d' % wrap(v))
    if r == 4:
        v = abs(word(rng)) & ((1 << 63) - 1)
        return 'printo(%s);' % B(v), lambda w: w.put(rt.octal(v))
    if r in (5, 6):
        s, v, c = some_text(rng, rng.randint(0, 20)), word(rng), rng.choice(b'QRS')
        return 'printf("%s|%%d|%%s|%%c%%%%*n", %s, %s, \'%s\');' % (lit(s)[1:-1], B(v), lit(s), chr(c)), \
            lambda w: w.put(s + b'|%d|' % wrap(v) + s + b'|' + bytes([c]) + b'%\n')
    if r == 7:
        s = some_text(rng, rng.choice([0, 1, 5, 60]))
        return 'nwrite(1, %s, %d);' % (lit(s), len(s)), lambda w: w.put(s, 1)
    if r == 8:
        s = some_text(rng, rng.choice([1, 5, 60]))
        return 'nwrite(2, %s, %d);' % (lit(s), len(s)), lambda w: w.put(s, 2)
    if r == 9:
        k = rng.randrange(2)

        def f(w):
            w.fout = k
        return 'fout = %d;' % k, f
    if r == 10:
        return 'flush();', lambda w: None
    if r == 11:
        return 'printd(read());', lambda w: w.put(b'%d' % w.read())
    s = some_text(rng, 3)
    return ';; if (0) write(\'bad\'); else write(%s);' % lit(s, "'"), lambda w: w.put(s)


EXITS = ['exit();', 'exit(5);', 'exit(1, 2, 3);', 'write(exit());', 'x = exit() + 1;', "if (exit()) write('bad'); else write('BAD');",
         'return (exit());', "while (exit()) write('bad');", 'e = exit; e();', 'e = exit; e(7);', "x = exit() ? write('bad') : write('BAD');",
         'printf("bad%d*n", exit());', 'exit(exit());', 'switch (exit()) { case 0: write(\'bad\'); }', '{ { exit(); } }', '*exit() = 5;',
         'x = !exit();', 'exit(3) / 0;', 'if (1) { exit(0); }']
AFTER = ["write('bad');", 'while (1) ;', '*x = 1;', 'x = 1 / 0;', 'nwrite(1, "bad", 3);', 'exit(9);', 'read();', 'again: goto again;', 'printf("bad*n");',
         'exit();']


class Maker:
    def __init__(self, rng):
        self.rng = rng
        self.fns = []          # (name, text)
        self.n = 0
        self.budget = rng.randint(3, 60)
        self.label = 0

    def items(self, depth, exit_here):
        """A list of (text, run(world)). If exit_here, one of them (at any depth) ends the program."""
        rng = self.rng
        out = []
        k = rng.randint(0, 6)
        at = rng.randint(0, k) if exit_here else -1
        for i in range(k + 1):
            if i == at:
                out.append(self.leave(depth))
            if i == k:
                break
            self.budget -= 1
            r = rng.random()
            if r < .2 and depth > 0 and self.budget > 0:
                out.append(self.call(depth, False))
            elif r < .3 and depth > 0 and self.budget > 0:
                out.append(self.loop(depth))
            else:
                out.append(op(rng))
        if at >= 0:
            for _ in range(rng.randint(0, 3)):
                t = rng.choice(AFTER)
                if 'again' in t:
                    self.label += 1
                    t = t.replace('again', 'again%d' % self.label)
                out.append((t, lambda w: None))
        return out

    def leave(self, depth):
        rng = self.rng
        if depth > 0 and rng.random() < .7:
            return self.call(depth, True)
        t = rng.choice(EXITS)

        def f(w):
            raise Stop
        return t, f

    def call(self, depth, exit_here):
        rng = self.rng
        n = 'f%d' % self.n
        self.n += 1
        it = self.items(depth - 1, exit_here)
        np = rng.choice([0, 1, 2, 5, 6, 7, 8, 9, 12])
        ps = ['p%d' % k for k in range(np)]
        rec = rng.choice([0, 0, 0, 3, 200, 3000]) if np else 0
        body = run_text(it)
        if rec:
            inner = '%s(%s);' % (n, ', '.join(['p0 - 1'] + ps[1:]))
            body = 'if (p0 > 0) { %s } else { %s }' % (inner, body)
        self.fns.append((n, '%s(%s) { extrn fout; auto x, e, v[%d]; x = 0; %s }' % (n, ', '.join(ps), rng.randint(0, 9), body)))
        form = rng.choice(['%s(%s);', 'x =+ %s(%s) * 0;', 'if (%s(%s)) ;', 'e = %s; e(%s);'])
        args = [str(rec)] + [str(rng.randint(0, 99)) for _ in ps[1:]]
        return form % (n, ', '.join(args if np else [])), runner(it)

    def loop(self, depth):
        rng = self.rng
        n = rng.choice([0, 1, 3, 20])
        it = self.items(depth - 1, False)
        self.label += 1
        v = 'c%d' % self.label
        run = runner(it)

        def f(w):
            for _ in range(n):
                run(w)
        return '{ auto %s; %s = 0; while (%s < %d) { %s++; %s } }' % (v, v, v, n, v, run_text(it)), f


def run_text(it):
    return ' '.join(t for t, _ in it)


def runner(it):
    def f(w):
        for _, g in it:
            g(w)
    return f


ENDS = ['none', 'return', 'value', 'value', 'value', 'exit', 'exit', 'exit', 'if', 'loop', 'goto']


def make(rng):
    """-> (list of top-level texts, run(world) -> exit status)"""
    m = Maker(rng)
    end = rng.choice(ENDS)
    it = m.items(3, end == 'exit')
    v = word(rng)
    tail, status = '', 0
    if end == 'return':
        tail = 'return; ' + rng.choice(AFTER).replace('again', 'ago')
    elif end == 'value':
        tail, status = 'return (%s); %s' % (B(v), rng.choice(['', rng.choice(AFTER).replace('again', 'ago')])), v & 255
    elif end == 'if':
        c = rng.randrange(2)
        tail, status = 'if (%d) return (%s); else return (%s);' % (c, B(v), B(v + 1)), (v + 1 - c) & 255
    elif end == 'loop':
        tail, status = "x = 0; while (1) { if (x++ > 5) return (%s); } write('bad');" % B(v), v & 255
    elif end == 'goto':
        tail, status = "goto done; back: return (%s); done: goto back; write('bad');" % B(v), v & 255
    main = 'main() { extrn fout; auto x, e; x = 0; %s %s }' % (run_text(it), tail)

    def run_(w):
        try:
            runner(it)(w)
        except Stop:
            return 0
        return status
    return [t for _, t in m.fns] + [main], run_


def tiny(rng):
    """Bodies that are no blocks, and the smallest programs."""
    v = word(rng)
    s = some_text(rng, 3)
    return rng.choice([
        (['main() ;'], lambda w: 0), (['main() {}'], lambda w: 0), (['main() return;'], lambda w: 0),
        (['main() return (%s);' % B(v)], lambda w: v & 255), (['main() exit();'], lambda w: 0), (['main() { return (main2()); }', 'main2() return (%s);' % B(v)], lambda w: v & 255),
        (["main() write(%s);" % lit(s, "'")], lambda w: w.put(s) or 0), (['main() { { { return (%s); } } }' % B(v)], lambda w: v & 255),
        (['main() { if (0) return (1); }'], lambda w: 0), (['main() { while (0) ; }'], lambda w: 0), (['main() { x: ; }'], lambda w: 0),
        (['main() if (1) return (%s); else exit();' % B(v)], lambda w: v & 255), (['main() while (1) exit(%s);' % B(v)], lambda w: 0),
        (['main() switch (1) { case 1: return (%s); }' % B(v)], lambda w: v & 255), (['status %s;' % (v if v >= 0 else '1'), 'main() { extrn status; return (status); }'],
                                                                                 lambda w: (v if v >= 0 else 1) & 255),
        (['main() { auto v[1000]; v[999] = %s; return (v[999]); }' % B(v)], lambda w: v & 255),
        (['main() { return (%s + 256); }' % B(v)], lambda w: v & 255)])


def build(d, rng, parts, o, exe='p'):
    """Compile the parts as one file or several, some by way of other kinds of file."""
    parts = list(parts)
    lev = '-O%d' % rng.randrange(4)
    nf = rng.choice([1, 1, 1, 2, 3])
    files = [[] for _ in range(nf)]
    for p in parts:
        rng.choice(files).append(p)
    srcs = []
    for k, ps in enumerate(files):
        rng.shuffle(ps)
        t = ('\n'.join(ps) + '\n').encode('latin-1')
        if not ps:
            continue
        n = 's%d.b' % k
        with open(os.path.join(d, n), 'wb') as f:
            f.write(t)
        srcs.append(n)
        if rng.random() < .15:
            kind, flag = rng.choice([('ll', '--emit-llvm'), ('s', '-S'), ('o', '-c')])
            r = run([G.tc.blang, flag, lev, '-o', 's%d.%s' % (k, kind), n], d, env=G.tc.env, cpu=60)
            if r.rc == 0:
                srcs[-1] = 's%d.%s' % (k, kind)
    cmd = [lev] + (['-g'] if rng.random() < .2 else [])
    r = compile_b(G.tc, d, srcs, exe, cmd)
    o.stats['programs_built'] += 1
    return r, ' '.join(cmd + srcs)


SHELL = {'stdout closed': 'exec "$0" "$@" >&-', 'stdin closed': 'exec "$0" "$@" <&-', 'stderr closed': 'exec "$0" "$@" 2>&-',
         'all closed': 'exec "$0" "$@" <&- >&- 2>&-', 'stdout full': 'exec "$0" "$@" >/dev/full', 'stdout read-only': 'exec "$0" "$@" 1</dev/null',
         'stdin write-only': 'exec "$0" "$@" 0>/dev/null', 'stdin null': 'exec "$0" "$@" </dev/null', 'stdout null': 'exec "$0" "$@" >/dev/null'}


def expectation(run_, data, state):
    w = World(data, state not in ('stdin closed', 'all closed', 'stdin write-only', 'stdin null'))
    status = run_(w)
    out, err = bytes(w.out[1]), bytes(w.out[2])
    if state in ('stdout closed', 'all closed', 'stdout full', 'stdout read-only', 'stdout null'):
        out = b''
    if state in ('stderr closed', 'all closed'):
        err = b''
    return w, out, err, status


def diff(what, want, got):
    if want == got:
        return None
    i = 0
    while i < min(len(want), len(got)) and want[i] == got[i]:
        i += 1
    return '%s: expected %d bytes, observed %d; from byte %d expected %r, observed %r' % (
        what, len(want), len(got), i, want[i:i + 40], got[i:i + 40])


CALL = re.compile(r'^(?:\d+\s+)?(\w+)\((.*)\)\s+= (-?\d+|\?)')


def unhex(s):
    return bytes(int(x, 16) for x in re.findall(r'\\x([0-9a-f]{2})', s))


def syscalls(text):
    """Judge a strace log -> (complaint, writes by descriptor, reads, exit status)."""
    writes, reads, status, n = {1: b'', 2: b''}, 0, None, 0
    for line in text.splitlines():
        if '+++' in line or '---' in line:
            continue
        m = CALL.match(line)
        if not m:
            if re.match(r'^(?:\d+\s+)?exit(_group)?\(', line):
                m = re.match(r'^(?:\d+\s+)?(exit(?:_group)?)\((-?\d+)', line)
                name, args, ret = m.group(1), m.group(2), '?'
            else:
                return 'unexpected line in the log of system calls: %r' % line[:200], writes, reads, status
        else:
            name, args, ret = m.groups()
        n += 1
        if n == 1:
            if name != 'execve':
                return 'the log does not begin with execve', writes, reads, status
            continue
        if status is not None:
            return 'system call after the end: %s' % line[:200], writes, reads, status
        if name == 'write':
            fd = int(args.split(',')[0])
            b = unhex(args)
            k = int(ret)
            if fd not in writes:
                return 'write to descriptor %d' % fd, writes, reads, status
            if k >= 0:
                writes[fd] += b[:k]
        elif name == 'read':
            if int(args.split(',')[0]) != 0:
                return 'read from descriptor %s' % args.split(',')[0], writes, reads, status
            reads += 1
        elif name in ('exit', 'exit_group'):
            status = int(args) & 255
        else:
            return 'the program made a system call it was not asked for: %s' % line[:200], writes, reads, status
    return None, writes, reads, status


def border(kind, rng, d, o, lab):
    parts, run_ = tiny(rng) if kind == 'tiny' else make(rng)
    r, how = build(d, rng, parts, o)
    files = {'p.b': '\n'.join(parts).encode('latin-1')}
    if r.rc != 0:
        o.violate(lab + ':compile', '%s: a valid program was not compiled (%s): %s' % (lab, how, r.err.decode('latin-1')[:400]), files)
        return
    data = bytes(rng.randrange(256) if rng.random() < .2 else rng.choice(b'abc\n') for _ in range(rng.choice([0, 1, 5, 40])))
    exe = os.path.join(d, 'p')
    states = [None, None] + rng.sample(sorted(SHELL), 2)
    if STRACE['ok'] and rng.random() < .5:
        states.append('traced')
    for state in states:
        w, out, err, status = expectation(run_, data, state)
        args = ['x' * rng.randint(0, 40) for _ in range(rng.choice([0, 0, 1, 2, 3, 7, 200]))]
        env = dict(G.tc.env, **{'V%d' % k: 'y' * rng.randint(0, 50) for k in range(rng.choice([0, 1, 2, 3, 50]))})
        if rng.random() < .1:
            env = {'A': 'b'}
        with open(os.path.join(d, 'in'), 'wb') as f:
            f.write(data)
        with open(os.path.join(d, 'in'), 'rb', buffering=0) as si:
            if state == 'traced':
                q = run(['strace', '-f', '-xx', '-s', '100000', '-o', 'trace', exe] + args, d, env=G.tc.env, stdin=si, cpu=20)
            elif state:
                q = run(['/bin/sh', '-c', SHELL[state], exe] + args, d, env=env, stdin=si, cpu=20)
            else:
                q = run([exe] + args, d, env=env, stdin=si, cpu=20)
            pos = os.lseek(si.fileno(), 0, os.SEEK_CUR)
        o.stats['executions'] += 1
        o.stats['bytes_compared'] += len(out) + len(err)
        if state:
            o.stats['state: ' + state] += 1
        c = None
        if q.cpu_killed or q.rc != status:
            c = 'expected exit status %d, observed: %s' % (status, q.describe())
        c = c or diff('standard output', out, q.out) or diff('standard error', err, q.err)
        if c is None and w.stdin_open and pos != w.pos:
            c = 'the program asked for %d bytes of its input, but took %d' % (w.pos, pos)
        if state == 'traced':
            try:
                log = open(os.path.join(d, 'trace'), encoding='latin-1').read()
            except OSError:
                log = ''
            if c is None:
                c, ws, reads, st = syscalls(log)
                o.stats['system_calls_judged'] += log.count('\n')
                if c is None and (ws[1] != out or ws[2] != err):
                    c = 'the write calls differ from the output'
                if c is None and st != status:
                    c = 'exit system call with %r' % st
                if c is None and reads != w.reads:
                    c = '%d read calls for %d reads of the program' % (reads, w.reads)
            files['trace.txt'] = log[:1 << 16]
        if c:
            files['stdin'] = data
            o.violate('%s:%s' % (lab, state), '%s (%s), %s: %s\n%s' % (lab, how, state or 'ordinary run', c, '\n'.join(parts)[-600:]), files)
            return
        o.seen.add(digest((out, err, status, state)))
    if not o.samples:
        o.samples.append('%s: status %d, %d bytes of output; %r' % (lab, status, len(out), parts[-1][:200]))


# ------------------------------------------------------------------ alignment

def k_shapes(rng, i):
    """Calls of every number of arguments from functions with every size of frame."""
    top, calls = [], []
    for k in range(6):
        np = rng.randint(0, 20)
        ps = ['p%d' % j for j in range(np)]
        na = rng.randint(0, 12)
        b = ['auto t%d%s;' % (j, rng.choice(['', '', '[%d]' % rng.randint(0, 9)])) for j in range(na)]
        for j in range(rng.randint(1, 6)):
            n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 20])
            a = [rng.choice(['1', 'ev(0)', 'n', 'n + 1', 'ev(1, n)']) for _ in range(n)]
            b.append(rng.choice(['ev(%d, %s);', 'x =+ ev(%d, %s);', 'if (ev(%d, %s)) ;', 'e = ev; e(%d, %s);', 'ev(1, ev(%d, %s));']) % (
                n, ', '.join(a)) if n else 'ev(0);')
        for j in range(rng.randint(0, 2)):
            if k:
                g = rng.randrange(k)
                b.append('if (n > 0) g%d(n - 1%s);' % (g, ', 2' * rng.randint(0, 20)))
        top.append('g%d(n%s) { auto x, e; x = 0; %s return (x); }' % (k, ''.join(', ' + p for p in ps), ' '.join(b)))
        calls.append('g%d(2%s);' % (k, ', 3' * rng.randint(0, 20)))
    # extra arguments on purpose: the surplus must not disturb the alignment either
    return '\n'.join(top) + '\nmain() { %s evend(); return (0); }\n' % ' '.join(calls)


def align(kind, rng, d, o, lab, i):
    if kind == 'shapes':
        cases = [Case(k_shapes(rng, i), judge=lambda e, r: None)]
    else:
        c = {'params': p04.k_params, 'args': p04.k_args, 'missing': p04.k_missing, 'returns': p04.k_returns}[kind](rng, i)
        cases = [c] if isinstance(c, Case) else c[:1]
    for c in cases:
        with open(os.path.join(d, 'p.b'), 'w', encoding='latin-1') as f:
            f.write(c.text)
        for lev in ['-O0'] + [rng.choice(['-O1', '-O2', '-O3'])]:
            r = compile_b(G.tc, d, ['p.b'], 'p', [lev], extra=[G.tc.obs])
            if r.rc != 0:
                o.stats['not_compiled'] += 1
                return
            args = ['x' * rng.randint(0, 40) for _ in range(rng.choice([0, 1, 2, 3]))]
            q = run([os.path.join(d, 'p')] + args, d, env=G.tc.env, cpu=20)
            evs, end, garbage = parse_log(q.out)
            if end is None:
                o.stats['no_alignment_record'] += 1
                if q.rc < 0 and not q.cpu_killed:
                    o.violate('%s:%s' % (lab, lev), '%s %s: %s' % (lab, lev, q.describe()), {'p.b': c.text.encode('latin-1')})
                    return
                continue
            o.stats['executions'] += 1
            o.stats['calls_with_alignment_observed'] += len(evs)
            if end != 0:
                o.violate('%s:%s' % (lab, lev), '%s %s: %d of %d calls were made with a stack pointer that is not a multiple of 16' % (
                    lab, lev, end, len(evs) + 1), {'p.b': c.text.encode('latin-1')})
                return
            o.seen.add(digest((kind, lev, evs[:500])))


@with_dir
def task(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    if kind in ('border', 'tiny'):
        for j in range(2):
            border(kind, rng, d, o, '%s%d.%d' % (kind, i, j))
            if o.violations:
                return
    else:
        align(kind, rng, d, o, '%s%d' % (kind, i), i)


def main(tier, seed):
    quick = tier == 'quick'
    c = setup('P20', tier, seed, 'exploration',
              'one evaluation = one execution whose status, output bytes and input position (or alignment record, or system calls) were '
              'as prescribed; distinct = different behaviours',
              ['Linux on x86-64', 'system calls are traced where ptrace is permitted, otherwise that part is left out and reported'])
    d = workdir('strace')
    q = run(['strace', '-f', '-o', 'trace', '/bin/true'], d)
    STRACE['ok'] = q.rc == 0 and os.path.exists(os.path.join(d, 'trace')) and 'execve' in open(os.path.join(d, 'trace')).read()
    c.extra['strace_available'] = STRACE['ok']
    m = 1 if quick else 16
    plan = [('border', 180), ('tiny', 40), ('shapes', 50), ('params', 10), ('args', 20), ('missing', 4), ('returns', 6)]
    tasks = [(k, i) for k, n in plan for i in range(n * m)]
    tasks.sort(key=digest)
    c.run_tasks(task, tasks)
    return c.finish('executions', 100)
