"""P14: byte input, byte access and block transfers are exact and memory safe.

Monitors: (1) freestanding programs read, write and move bytes among vectors, files, pipes
fed in chunks and broken descriptors, logging every result and dumps of all storage; an
online checker replays the action list against the log with a model of memory and streams
(conservation: each byte is delivered once, in order, to exactly the right place);
(2) the same operations on heap blocks of exact size in sanitized builds of the runtime."""
import fcntl
import struct
import threading
import time

from vf.batch import *
from vf.gen import *
from vf.rt import *
from checks.p13 import run_script

READERS = (0, 3, 5)


class Stream:
    def __init__(self, data, kind):
        self.data, self.kind, self.pos = data, kind, 0     # kind: file, pipe, nonblock, own, error


class Plan:
    """A random program as an action list, and its source."""

    def __init__(self, rng, nact):
        self.rng = rng
        self.vecs = []                      # (name, words, initial bytes)
        for i in range(rng.randint(1, 4)):
            w = heavy(rng, 1, 6, 600) if rng.random() < .9 else rng.randint(520, 3000)
            self.vecs.append(('v%d' % i, w))
        # some are on the stack of main, at addresses of more than 32 bits; the global is their address
        self.onstack = {n for n, w in self.vecs if rng.random() < .3}
        self.streams = {0: self.source(rng, rng.choice(['file', 'pipe', 'file', 'pipe', 'empty', 'closed', 'dir', 'null', 'wronly',
                                                           'nonblock', 'own'])),
                        3: self.source(rng, 'file'), 5: self.source(rng, rng.choice(['pipe', 'pipe', 'nonblock']))}
        self.actions = [self.action() for _ in range(nact)]
        for n in range(len(self.vecs)):
            self.actions.append(('dump', n))
        self.ret = rng.randint(0, 255)

    def source(self, rng, kind):
        if kind in ('closed', 'dir', 'wronly'):
            return Stream(b'', 'error:' + kind)
        if kind in ('empty', 'null'):
            return Stream(b'', 'file:' + kind)
        if kind == 'own':
            return Stream(b'', kind)        # reads the file that descriptor 4 writes
        n = heavy(rng, 0, 60, 9000)
        r = rng.random()
        if r < .5:
            d = bytes(rng.randint(0, 255) for _ in range(n))
        elif r < .8:
            d = text_bytes(rng, n)
        else:
            d = bytes(rng.choice([0, 4, 127, 128, 255, 10, 65]) for _ in range(n))
        return Stream(d, kind)

    def place(self):
        """(vector, byte offset)"""
        rng = self.rng
        v = rng.randrange(len(self.vecs))
        size = self.vecs[v][1] * 8
        return v, rng.choice([0, 0, rng.randrange(size), size - 1, min(7, size - 1), min(8, size - 1)])

    def span(self):
        v, o = self.place()
        room = self.vecs[v][1] * 8 - o
        return v, o, self.rng.choice([room, room, self.rng.randint(0, room), min(room, 1), 0, min(8, room)])

    def action(self):
        rng = self.rng
        r = rng.random()
        if r < .2:
            v, at = self.place()
            i = rng.choice([at, 0, rng.randint(-20, 20), rng.randrange(self.vecs[v][1] * 8)])
            return ('char', v, at - i, i)
        if r < .45:
            v, at = self.place()
            i = rng.choice([at, 0, rng.randint(-20, 20), rng.randrange(self.vecs[v][1] * 8)])
            return ('lchar', v, at - i, i, rng.choice([rng.randint(0, 255), rng.randint(0, 255), word(rng)]))
        if r < .6:
            return ('read', rng.choice([1, 1, 2, 5, 30]))
        if r < .8:
            v, o, n = self.span()
            fd = rng.choice([0, 3, 3, 5, 5])
            if rng.random() < .15:
                return rng.choice([('nread', 6, v, o, n), ('nread', -1, v, o, n), ('nread', 8, v, o, n), ('nread', 4, v, o, n),
                                   ('badread', fd, 'null', 8), ('nread', fd, v, o, -1), ('nread', 99, v, o, n)])
            return ('nread', fd, v, o, n)
        if r < .95:
            v, o, n = self.span()
            if rng.random() < .15:
                return rng.choice([('nwrite', 6, v, o, n), ('nwrite', -1, v, o, n), ('nwrite', 3, v, o, n), ('nwrite', 9, v, o, n),
                                   ('nwrite', 8, v, o, n), ('badwrite', 4, 'null', 8), ('nwrite', 99, v, o, n)])
            return ('nwrite', rng.choice([1, 2, 4, 4, 4, 7]), v, o, n)
        return ('dump', rng.randrange(len(self.vecs)))

    def text(self):
        rng = self.rng
        out, funs = [], []
        names = [n for n, _ in self.vecs]

        def byte(v, o, i):
            """The two arguments that designate a byte: only their sum matters."""
            r = rng.random()
            if r < .1:
                return '%s, %s' % (ex(neg(i)), addr(v, o))
            if r < .2:
                k = rng.choice([1 << 31, 1 << 32, 1 << 40, 1 << 62, (1 << 31) - 1, 1000])
                return rng.choice(['%s + %d, %s - %d', '%s - %d, %s + %d']) % (addr(v, o), k, ex(neg(i)), k)
            return '%s, %s' % (addr(v, o), ex(neg(i)))

        def addr(v, o):
            n = names[v]
            if o == 0:
                return n
            if o % 8 == 0 and rng.random() < .4 and o >= 0:
                return '&%s[%d]' % (n, o // 8)
            return '%s + %s' % (n, ex(neg(o))) if o >= 0 else '%s - %d' % (n, -o)
        lines = []
        for k, a in enumerate(self.actions):
            if a[0] == 'char':
                lines.append('ev(2, %d, char(%s));' % (k, byte(a[1], a[2], a[3])))
            elif a[0] == 'lchar':
                lines.append('lchar(%s, %s);' % (byte(a[1], a[2], a[3]), ex(neg(a[4]))))
            elif a[0] == 'read':
                lines.append('i = 0; while (i < %d) { ev(2, %d, read()); i++; }' % (a[1], k))
            elif a[0] in ('nread', 'nwrite'):
                lines.append('ev(2, %d, %s(%s, %s, %s));' % (k, a[0], ex(neg(a[1])), addr(a[2], a[3]), ex(neg(a[4]))))
            elif a[0] in ('badread', 'badwrite'):
                lines.append('ev(2, %d, n%s(%d, 0, %d));' % (k, a[0][3:], a[1], a[3]))
            else:
                lines.append('evs(%d, %s, %d);' % (k, names[a[1]], self.vecs[a[1]][1] * 8))
        n = 0
        while lines:
            m = rng.randint(1, 40)
            funs.append('t%d() {\n  auto i;\n  extrn %s;\n  %s\n}\n' % (n, ', '.join(names), '\n  '.join(lines[:m])))
            lines = lines[m:]
            n += 1
        st = [v for v in self.vecs if v[0] in self.onstack]
        init = ''
        if st:
            init = 'auto i, %s; extrn %s;\n' % (', '.join('a%s[%d]' % v for v in st), ', '.join(v[0] for v in st))
            init += ''.join('i = 0; while (i < %d) { a%s[i] = 0; i++; } %s = a%s;\n' % (w, x, x, x) for x, w in st)
        parts = funs + ['main() { %s%s return(%d); }\n' % (init, ' '.join('t%d();' % i for i in range(n)), self.ret)]
        parts += ['%s;\n' % v[0] if v in st else '%s[%d];\n' % v for v in self.vecs]
        rng.shuffle(parts)
        return ''.join(parts)

    def judge(self, log):
        """Replay the actions against the log. Returns a complaint, and the expected outputs."""
        mem = [bytearray(w * 8) for _, w in self.vecs]
        outs = {2: bytearray(), 4: bytearray()}
        st = {k: Stream(outs[4] if s.kind == 'own' else s.data, s.kind) for k, s in self.streams.items()}
        tight = bytearray()
        pos = 0

        class Bad(Exception):
            pass

        def words(n):
            nonlocal pos
            if pos + 8 * n > len(log):
                raise Bad('the log ends early')
            w = struct.unpack_from('<%dq' % n, log, pos)
            pos += 8 * n
            return w

        def event(k, n=2):
            w = words(n + 1)
            if w[0] != n or w[1] != k:
                raise Bad('expected the event of action %d, observed %r' % (k, w))
            return w[2]
        for k, a in enumerate(self.actions):
            try:
                if a[0] == 'char':
                    want, got = mem[a[1]][a[2] + a[3]], event(k)
                    if want != got:
                        raise Bad('char: expected %d, observed %d' % (want, got))
                elif a[0] == 'lchar':
                    mem[a[1]][a[2] + a[3]] = a[4] & 255
                elif a[0] == 'read':
                    s = st[0]
                    for _ in range(a[1]):
                        want = 4
                        if not s.kind.startswith('error') and s.pos < len(s.data):
                            want = s.data[s.pos]
                            s.pos += 1
                            if want > 127:
                                want = 0
                        got = event(k)
                        if want != got:
                            raise Bad('read at offset %d: expected %d, observed %d' % (s.pos, want, got))
                elif a[0] == 'nread':
                    _, fd, v, off, n = a
                    got = event(k)
                    s = st.get(fd)
                    if s is None or s.kind.startswith('error') or n < 0:
                        if fd == 8 and n == 0 and got == 0:
                            continue
                        if not got < 0:
                            raise Bad('nread: an error expected, observed %d' % got)
                        continue
                    left = len(s.data) - s.pos
                    if s.kind == 'nonblock' and left == 0 and n:
                        # nothing now, but not the end: an error
                        if not got < 0:
                            raise Bad('nread of %d from an empty pipe that is not at its end: observed %d' % (n, got))
                        continue
                    if s.kind in ('pipe', 'nonblock'):
                        if not (0 <= got <= min(n, left)) or (got == 0) != (n == 0 or left == 0):
                            raise Bad('nread of %d with %d bytes left: observed %d' % (n, left, got))
                    elif got != min(n, left):
                        raise Bad('nread of %d with %d bytes left: observed %d' % (n, left, got))
                    mem[v][off:off + got] = s.data[s.pos:s.pos + got]
                    s.pos += got
                elif a[0] == 'nwrite':
                    _, fd, v, off, n = a
                    data = bytes(mem[v][off:off + n])
                    if fd == 1:
                        if log[pos:pos + n] != data:
                            raise Bad('nwrite to descriptor 1: expected %r, observed %r' % (data[:80], log[pos:pos + n][:80]))
                        pos += n
                    got = event(k)
                    if fd == 7:
                        # a pipe nobody reads: takes what fits, then fails
                        if got > n or (n == 0 and got):
                            raise Bad('nwrite of %d returned %d' % (n, got))
                        if got > 0:
                            tight += data[:got]
                    elif fd in (1, 2, 4):
                        if got != n:
                            raise Bad('nwrite of %d returned %d' % (n, got))
                        if fd != 1:
                            outs[fd] += data
                    elif not got < 0 and not (n == 0 and fd in (9,) and got == 0):
                        raise Bad('nwrite to a bad descriptor %d returned %d' % (fd, got))
                elif a[0] in ('badread', 'badwrite'):
                    got = event(k)
                    s = st.get(a[1])
                    if a[0] == 'badread' and not s.kind.startswith('error') and s.pos >= len(s.data) and got == 0:
                        continue
                    if not got < 0:
                        raise Bad('transfer at address 0 returned %d' % got)
                else:
                    want = bytes(mem[a[1]])
                    o = 0
                    while o < len(want):
                        n = min(32, len(want) - o)
                        w = words(n + 3)
                        if w[:3] != (n + 2, k, o) or bytes(x & 255 for x in w[3:]) != want[o:o + n]:
                            raise Bad('storage of %s at byte %d: expected %r, observed %r' % (
                                self.vecs[a[1]][0], o, want[o:o + n], w))
                        o += n
            except Bad as e:
                return 'action %d %r: %s' % (k, a, e), outs
        if pos != len(log):
            return 'output after the last action: %r' % log[pos:pos + 80], outs
        outs[10] = tight
        return None, outs


def ex(e):
    return ' '.join(Printer().expr(e))


def feed(fd, data, rng, bound):
    """Write data in chunks, with pauses."""
    try:
        p = 0
        while p < len(data):
            n = rng.choice([1, 2, 7, 8, 9, 100, 4096, 70000])
            os.write(fd, data[p:p + n])
            p += n
            if rng.random() < .3 and bound[0] > 0:
                bound[0] -= 1
                time.sleep(rng.choice([0, 0.0005, 0.002]))
    except OSError:
        pass
    finally:
        os.close(fd)


def pipe_high():
    """A pipe on descriptors the redirections below leave alone."""
    out = []
    for fd in os.pipe():
        out.append(fcntl.fcntl(fd, fcntl.F_DUPFD_CLOEXEC, 20))
        os.close(fd)
    return out


def execute(plan, exe, d, rng):
    """Run with the plan's descriptors. Returns log, stderr, file 4, status."""
    redir, fds, threads, held = ['4>out4'], [], [], []
    bound = [60]
    for fd, s in plan.streams.items():
        if s.kind == 'pipe':
            r, w = pipe_high()
            fds.append(r)
            redir.append('%d<&%d' % (fd, r))
            threads.append(threading.Thread(target=feed, args=(w, s.data, G.check.rng(rng.random()), bound)))
        elif s.kind == 'nonblock':
            r, w = pipe_high()
            os.set_blocking(r, False)
            os.write(w, s.data)
            held.append(w)
            fds.append(r)
            redir.append('%d<&%d' % (fd, r))
        elif s.kind == 'own':
            redir.append('%d<out4' % fd)
        elif s.kind == 'file':
            with open(os.path.join(d, 'in%d' % fd), 'wb') as f:
                f.write(s.data)
            redir.append('%d<in%d' % (fd, fd))
        else:
            redir.append({'error:closed': '%d<&-', 'error:dir': '%d<.', 'error:wronly': '%d>wr', 'file:empty': '%d<empty',
                          'file:null': '%d</dev/null'}[s.kind] % fd)
    open(os.path.join(d, 'empty'), 'w').close()
    tr, tw = pipe_high()
    fcntl.fcntl(tw, 1031, rng.choice([4096, 4096, 8192, 16384]))             # F_SETPIPE_SZ
    os.set_blocking(tw, False)
    fds.append(tw)
    redir.append('7>&%d' % tw)
    redir += ['6<&-', '8<.', '9>/dev/full', '1>log', '2>err']
    closing = ' '.join('%d<&-' % r for r in fds if r > 10)
    with subprocess.Popen(['/usr/bin/prlimit', '--cpu=20', '--core=0', '--', '/bin/bash', '-c',
                           'exec %s; exec %s; exec "$0"' % (' '.join(redir), closing), exe],
                          cwd=d, env=G.tc.env, pass_fds=fds, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL) as p:
        for r in fds:
            os.close(r)
        for t in threads:
            t.start()
        p.wait()
    for t in threads:
        t.join()
    for w in held:
        os.close(w)
    with os.fdopen(tr, 'rb') as f:
        out10 = f.read()

    def rd(n):
        with open(os.path.join(d, n), 'rb') as f:
            return f.read()
    return rd('log'), rd('err'), rd('out4'), out10, p.returncode


@with_dir
def programs(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    plan = Plan(rng, heavy(rng, 1, 50, 300))
    text = plan.text()
    files = {'p.b': text}
    with open(os.path.join(d, 'p.b'), 'w') as f:
        f.write(text)
    for fl in (['-O0'], [rng.choice(['-O1', '-O2', '-O3'])]):
        r = compile_b(G.tc, d, ['p.b'], 'p', fl, extra=[G.tc.obs])
        if r.rc != 0:
            o.violate('%s%d:compile' % spec, 'a valid program was not compiled: %s' % r.err.decode('latin-1')[:600], files)
            return
        log, err, out4, out10, rc = execute(plan, os.path.join(d, 'p'), d, rng)
        bad, outs = plan.judge(log)
        if not bad and err != outs[2]:
            bad = 'descriptor 2: expected %r, observed %r' % (bytes(outs[2][:200]), err[:200])
        if not bad and out4 != outs[4]:
            bad = 'descriptor 4: expected %d bytes, observed %d' % (len(outs[4]), len(out4))
        if not bad and out10 != outs[10]:
            bad = 'pipe that takes 4096 bytes: transfers of %d bytes reported, %d observed' % (len(outs[10]), len(out10))
        if not bad and rc != plan.ret:
            bad = 'expected exit status %d, observed %d' % (plan.ret, rc)
        o.stats['executions'] += 1
        o.stats['log_bytes'] += len(log)
        if bad:
            files.update({'log': log, 'in0': plan.streams[0].data, 'in3': plan.streams[3].data, 'in5': plan.streams[5].data,
                          'actions.txt': '\n'.join('%d %r' % x for x in enumerate(plan.actions)) + '\nstdin: ' + plan.streams[0].kind})
            o.violate('%s%d' % spec, '%s%d %s: %s' % (kind, i, ' '.join(fl), bad), files)
            return
    o.stats['actions'] += len(plan.actions)
    o.stats['stdin_' + plan.streams[0].kind.replace(':', '_')] += 1
    for a in plan.actions:
        o.stats['action_' + a[0]] += 1
        o.seen.add(digest(a))
    if not o.samples:
        o.samples.append('%s%d: %r' % (kind, i, plan.actions[:4]))


@with_dir
def sanitized(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    data = bytes(rng.randint(0, 255) for _ in range(heavy(rng, 0, 200, 3000)))
    pos = 0
    calls, exp, out = [], [], {1: bytearray(), 2: bytearray()}
    for _ in range(rng.randint(10, 100)):
        r = rng.random()
        blk = bytes(rng.randint(0, 255) for _ in range(heavy(rng, 1, 20, 500)))
        n = len(blk)
        if r < .25:
            at = rng.choice([0, n - 1, rng.randrange(n)])
            off = rng.choice([0, at, rng.randint(-5, n + 5)])
            calls.append((0, [(blk, off), at - off]))
            exp.append((blk[at], [blk]))
        elif r < .5:
            at = rng.choice([0, n - 1, rng.randrange(n)])
            off = rng.choice([0, at, rng.randint(-5, n + 5)])
            v = rng.choice([rng.randint(0, 255), word(rng)])
            calls.append((1, [(blk, off), at - off, v]))
            exp.append((None, [blk[:at] + bytes([v & 255]) + blk[at + 1:]]))
        elif r < .65:
            calls.append((2, []))
            want = 4
            if pos < len(data):
                want = data[pos] if data[pos] < 128 else 0
                pos += 1
            exp.append((want, []))
        elif r < .82:
            off = rng.randint(0, n)
            k = rng.choice([n - off, rng.randint(0, n - off)])
            calls.append((3, [0, (blk, off), k]))
            got = data[pos:pos + k]
            pos += len(got)
            exp.append((len(got), [blk[:off] + got + blk[off + len(got):]]))
        else:
            off = rng.randint(0, n)
            k = rng.choice([n - off, rng.randint(0, n - off)])
            fd = rng.choice([1, 2])
            calls.append((4, [fd, (blk, off), k]))
            out[fd] += blk[off:off + k]
            exp.append((k, [blk]))
    with open(os.path.join(d, 'stdin'), 'wb') as f:
        f.write(data)
    for cfg in sorted(G.rt):
        with open(os.path.join(d, 'stdin'), 'rb') as f:
            res, so, se, bad = run_script(cfg, d, calls, o, cfg, stdin=f)
        if not bad:
            for c, (want, blks), (_, r, _, b) in zip(calls, exp, res):
                if (want is not None and want != r) or blks != b:
                    bad = 'call %r: expected %r, observed %r' % (c, (want, blks), (r, b))
                    break
        if not bad and (so != out[1] or se != out[2]):
            bad = 'bytes written: expected %d + %d, observed %d + %d' % (len(out[1]), len(out[2]), len(so), len(se))
        if bad:
            o.violate('%s%d:%s' % (kind, i, cfg), '%s%d on the %s build: %s' % (kind, i, cfg, bad),
                      {'script': open(os.path.join(d, 'script'), 'rb').read(), 'calls.txt': '\n'.join(map(repr, calls))})
            return
    for c in calls:
        o.seen.add(digest(c))


def dispatch(spec):
    return programs(spec) if spec[0] == 'prog' else sanitized(spec)


def main(tier, seed):
    c = setup('P14', tier, seed, 'exploration', 'distinct operations (kind, place, amount, descriptor) whose outcome was checked',
              ['Reads from a pipe may be short; the checker follows the returned counts.',
               'Sanitizers see accesses to red zones and poisoned memory only.'])
    G.rt = build_sanitized(G.tc, c.scratch)
    c.extra['sanitized_builds'] = {k: 'system calls checked' if v[1] else 'plain' for k, v in G.rt.items()}
    n = (700, 160) if tier == 'quick' else (6000, 2000)
    tasks = [('prog', i) for i in range(n[0])] + [('san', i) for i in range(n[1])]
    c.rng('order').shuffle(tasks)
    c.run_tasks(dispatch, tasks)
    return c.finish('actions', 100)
