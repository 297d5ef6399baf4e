"""P13: formatted output writes exactly the right bytes.

Monitors: (1) freestanding programs make long series of output calls; the bytes on standard
output, standard error, and on both merged, are compared with an independent formatter,
with events for the surrounding storage in the same stream; (2) the runtime, built with
AddressSanitizer/UBSan and MemorySanitizer, serves scripted calls whose strings lie in heap
blocks of exactly their size, with system calls checked against the sanitizers' shadow."""
import fcntl
import struct
import tempfile
import threading

from vf.batch import *
from vf.common import VERIF
from vf.gen import *
from vf.rt import *

SPECS = ['d', 'o', 'c', 's', '%', 'x', 'u', '5', ' ', 'D', 'n', 'l', '*', '-', '\\', '0', '.']


AROUND = [n + k for n in (16, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096, 8192) for k in (-1, 0, 1, 2)]


def long_text(rng):
    """as long as some buffer, or a little longer or shorter"""
    n = rng.choice(AROUND)
    x = text_bytes(rng, 40).replace(b'%', b'.') + b'x'
    return (x * (n // len(x) + 1))[:n]


def fmt(rng, long=False):
    """(format bytes without NUL, kinds of the arguments)"""
    out, kinds = bytearray(), []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]) if not long else rng.randint(10, 40)):
        r = rng.random()
        if r < .03:
            out += long_text(rng)
        elif r < .4:
            out += text_bytes(rng, heavy(rng, 1, 6, 300))
        elif r < .45:
            out.append(rng.randint(128, 255))
        elif r < .5:
            out += b'%' * rng.randint(1, 5)
        else:
            out += b'%' + (rng.choice('docs') if rng.random() < .75 else rng.choice(SPECS)).encode()
    if rng.random() < .1:
        out += b'%'
    # the kinds of argument it consumes
    i = 0
    while i < len(out):
        if out[i] == 37 and i + 1 < len(out):
            c = chr(out[i + 1])
            if c in 'docs':
                kinds.append(c)
            i += 2 if c in 'docs%' else 1
        else:
            i += 1
    return bytes(out), kinds


def strval(rng):
    if rng.random() < .07:
        return long_text(rng)
    n = heavy(rng, 0, 12, 700)
    if rng.random() < .2:
        return bytes(rng.randint(1, 255) for _ in range(min(n, 40)))
    return text_bytes(rng, n)


def chrword(rng):
    r = rng.random()
    if r < .5:
        return int.from_bytes(bytes(rng.randint(1, 255) for _ in range(rng.randint(1, 8))), 'big')
    if r < .7:
        return int.from_bytes(bytes(rng.choice([0, 0, 65, 255, 10]) for _ in range(8)), 'big')
    return word(rng)


def ex(e):
    p = Printer()
    return ' '.join(p.expr(e))


class Prog:
    def __init__(self, rng, nact):
        self.rng = rng
        self.lines, self.exp = [], []     # exp: (stream, bytes)
        self.glob = []
        self.fout = 0
        self.vals = {}
        self.funs = []
        rng = self.rng
        for i in range(3):
            self.vals['g%d' % i] = word(rng)
            self.glob.append('g%d %s;' % (i, self.vals['g%d' % i]))
        body = []
        k = 0
        while k < nact:
            n = rng.randint(1, 25)
            body.append('t%d();' % len(self.funs))
            self.function(n)
            k += n
        self.main = body
        self.ret = rng.randint(0, 255)

    def val(self, v, names):
        """Source text of an argument of this value."""
        rng = self.rng
        r = rng.random()
        if r < .35:
            return ex(neg(v))
        if r < .5:
            return 'id(%s)' % ex(neg(v))
        if r < .65:
            k = word(rng)
            return '%s + %s' % (ex(neg(wrap(v - k))), ex(neg(k)))
        n = 'x%d' % len(names)
        names[n] = v
        return n

    def sval(self, s):
        """A string argument: a constant, a global's initial value, or bytes put into a vector."""
        rng = self.rng
        r = rng.random()
        if r < .6:
            tail = b'\0' + text_bytes(rng, 3) if rng.random() < .1 else b''
            return quote(s + tail, '"', rng)
        n = 's%d' % len(self.glob)
        if r < .8 or len(s) > 60:
            self.glob.append('%s %s;' % (n, quote(s, '"', rng)))
            self.ext.add(n)
            return n
        self.glob.append('%s[%d];' % (n, len(s) // 8 + 1))
        self.ext.add(n)
        off = rng.randint(0, 7 - len(s) % 8)
        for i, b in enumerate(s):
            self.pre.append('lchar(%s, %d, %d);' % (n, i + off, b))
        return '%s + %d' % (n, off) if off else n

    def put(self, stream, data):
        self.exp.append((stream, data))

    def function(self, n):
        rng = self.rng
        names, lines = {}, []
        self.ext = {'fout', 'g0', 'g1', 'g2'}
        for _ in range(n):
            self.pre = []
            r = rng.random()
            f = self.fout
            if r < .4:
                fm, kinds = fmt(rng, rng.random() < .1)
                args, src = [], []
                for k in kinds:
                    if k == 's':
                        s = strval(rng)
                        args.append(s)
                        src.append(self.sval(s))
                    else:
                        v = chrword(rng) if k == 'c' else word(rng)
                        args.append(v)
                        src.append(self.val(v, names))
                surplus = [ex(neg(word(rng))) for _ in range(rng.randint(1, 3))] if rng.random() < .1 else []
                self.put(f, fmt_bytes(fm, args))
                how = rng.random()
                fn = 'printf' if how < .9 else '(pf)'
                call = '%s(%s)' % (fn, ', '.join([self.sval(fm)] + src + surplus))
                lines += self.pre + [call + ';']
            elif r < .85:
                fn, v = rng.choice(['printd', 'printo', 'write', 'writeb', 'write']), word(rng)
                if fn == 'write':
                    v = chrword(rng)
                self.put(f, {'printd': b'%d' % v if fn == 'printd' else b'', 'printo': octal(v), 'write': chars(v),
                             'writeb': bytes([v & 255])}[fn])
                lines.append('%s(%s%s);' % (fn, self.val(v, names), ', 1' if rng.random() < .05 else ''))
            elif r < .93:
                self.fout = rng.choice([0, 1])
                lines.append('fout = %d;' % self.fout)
            elif r < .96:
                lines.append('flush();')
            else:
                s = strval(rng)
                n = rng.randint(0, len(s) + 1)
                fd = rng.choice([1, 2])
                self.put(fd - 1, (s + b'\0')[:n])
                src = self.sval(s)
                lines += self.pre + ['nwrite(%d, %s, %d);' % (fd, src, n)]
        # what the calls must have left alone
        vs = [('fout', self.fout)] + [(g, self.vals[g]) for g in sorted(self.vals)] + sorted(names.items())[:50]
        for i in range(0, len(vs), 50):
            part = vs[i:i + 50]
            lines.append('ev(%d, %s);' % (len(part), ', '.join(a for a, _ in part)))
            self.put(0, struct.pack('<%dq' % (len(part) + 1), len(part), *[wrap(v) for _, v in part]))
        t = 't%d() {\n    extrn %s;\n' % (len(self.funs), ', '.join(sorted(self.ext)))
        if names:
            t += '    auto %s;\n' % ', '.join(sorted(names))
        if any('(pf)' in l for l in lines):
            t += '    auto pf;\n    printf("");\n    pf = printf;\n'
        t += ''.join('    %s = %s;\n' % (k, ex(neg(v))) for k, v in sorted(names.items()))
        self.funs.append(t + ''.join('    %s\n' % l for l in lines) + '}\n')

    def text(self):
        parts = self.funs + ['id(x) return(x);\n', 'main() {\n    %s\n    return(%d);\n}\n' % (
            '\n    '.join(self.main), self.ret)] + [g + '\n' for g in self.glob]
        self.rng.shuffle(parts)
        return ''.join(parts)


def streams(exp):
    return (b''.join(x for s, x in exp if s == 0), b''.join(x for s, x in exp if s == 1), b''.join(x for _, x in exp))


def first_diff(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return 'at byte %d of %d: expected %r, observed %r (of %d)' % (n, len(a), a[max(0, n - 30):n + 30],
                                                                    b[max(0, n - 30):n + 30], len(b))


def slow_pipe(exe, d, rng):
    """Run with both streams on one small pipe that is read slowly."""
    r, w = os.pipe()
    try:
        fcntl.fcntl(w, 1031, 4096)
    except OSError:
        pass
    p = subprocess.Popen(['/usr/bin/prlimit', '--cpu=20', '--', exe], cwd=d, stdout=w, stderr=w, stdin=subprocess.DEVNULL,
                         env=G.tc.env)
    os.close(w)
    out = bytearray()
    with os.fdopen(r, 'rb', buffering=0) as f:
        while True:
            b = f.read(rng.choice([1, 7, 64, 1000, 4096]))
            if not b:
                break
            out += b
    p.wait()
    return bytes(out), p.returncode


@with_dir
def programs(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    try:
        p = Prog(rng, heavy(rng, 1, 60, 300))
    except RecursionError:
        return
    text = p.text()
    files = {'p.b': text.encode('latin-1')}
    with open(os.path.join(d, 'p.b'), 'wb') as f:
        f.write(files['p.b'])
    out, err, both = streams(p.exp)
    for fl in (['-O0'], [rng.choice(['-O1', '-O2', '-O3'])]):
        r = compile_b(G.tc, d, ['p.b'], 'p', fl, extra=[G.tc.obs])
        if r.rc != 0:
            o.violate('%s%d:compile' % spec, 'a valid program was not compiled: %s' % r.err.decode('latin-1')[:600], files)
            return
        exe = os.path.join(d, 'p')
        r = run([exe], d, env=G.tc.env)
        bad = None
        if r.out != out:
            bad = 'standard output ' + first_diff(out, r.out)
        elif r.err != err:
            bad = 'standard error ' + first_diff(err, r.err)
        elif r.rc != p.ret:
            bad = 'expected exit status %d, observed: %s' % (p.ret, r.describe())
        o.stats['executions'] += 1
        o.stats['bytes_compared'] += len(r.out) + len(r.err)
        if not bad:
            got, rc = slow_pipe(exe, d, rng)
            if got != both or rc != p.ret:
                bad = 'merged streams ' + first_diff(both, got) + ' status %d' % rc
            o.stats['merged_runs'] += 1
        if not bad and rng.random() < .3:
            # one stream closed: the other is not affected
            which = rng.choice([1, 2])
            r = run(['/bin/sh', '-c', 'exec "$0" %d>&-' % which, exe], d, env=G.tc.env)
            got, want = (r.err, err) if which == 1 else (r.out, out)
            if got != want or r.rc != p.ret or (r.out if which == 1 else r.err):
                bad = 'with descriptor %d closed: %s, %s' % (which, first_diff(want, got), r.describe())
            o.stats['closed_stream_runs'] += 1
        if bad:
            o.violate('%s%d' % spec, '%s%d %s: %s' % (kind, i, ' '.join(fl), bad), files)
            return
    o.stats['calls'] += len(p.exp)
    for s, x in p.exp:
        o.seen.add(digest((s, x)))
    if not o.samples:
        o.samples.append('%s%d: %d output calls, %d + %d bytes' % (kind, i, len(p.exp), len(out), len(err)))


def run_script(cfg, d, calls, o, name, stdin=b'', fds=()):
    """Run a script on a sanitized build. Returns (results, stdout, stderr, complaint)."""
    exe, _ = G.rt[cfg]
    sp, rp = os.path.join(d, 'script'), os.path.join(d, 'results')
    with open(sp, 'wb') as f:
        for op, args in calls:
            f.write(script_call(op, args))
    env = dict(G.tc.env, ASAN_OPTIONS='detect_leaks=0:exitcode=77:log_path=%s' % os.path.join(d, 'san'),
               UBSAN_OPTIONS='print_stacktrace=1:exitcode=77:log_path=%s' % os.path.join(d, 'san'),
               MSAN_OPTIONS='exitcode=77:log_path=%s' % os.path.join(d, 'san'))
    r = run(['/bin/sh', '-c', 'exec "$0" 3<script 4>results', exe], d, env=env, stdin=stdin if not isinstance(stdin, bytes) else None,
            input=stdin if isinstance(stdin, bytes) else b'', cpu=60)
    res = read_results(open(rp, 'rb').read(), calls)
    report = ''
    for f in sorted(os.listdir(d)):
        if f.startswith('san.'):
            report += open(os.path.join(d, f), errors='replace').read()[:3000]
    bad = None
    if r.rc != 0 or report or len(res) != len(calls):
        bad = 'after %d of %d calls: %s; next call %r\n%s' % (
            len(res), len(calls), r.describe(), calls[len(res)] if len(res) < len(calls) else None, report[:1500])
    o.stats['sanitized_calls'] += len(res)
    o.stats['sanitized_calls_' + cfg] += len(res)
    return res, r.out, r.err, bad


@with_dir
def sanitized(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    calls, exp, fout = [], [], 0
    for _ in range(rng.randint(20, 120)):
        r = rng.random()
        if r < .5:
            while True:
                fm, kinds = fmt(rng, rng.random() < .1)
                if len(kinds) <= 22:
                    break
            args = [strval(rng) if k == 's' else chrword(rng) if k == 'c' else word(rng) for k in kinds]
            exp.append((fout, fmt_bytes(fm, args)))
            calls.append((11, [(fm + b'\0', 0)] + [(a + b'\0', 0) if isinstance(a, bytes) else a for a in args]))
        elif r < .9:
            op = rng.choice([5, 6, 7, 8])
            v = chrword(rng) if op == 6 else word(rng)
            exp.append((fout, bytes([v & 255]) if op == 5 else chars(v) if op == 6 else b'%d' % wrap(v) if op == 7 else octal(v)))
            calls.append((op, [v]))
        elif r < .97:
            fout = rng.choice([0, 1])
            calls.append((10, [fout]))
        else:
            calls.append((9, []))
    out, err, _ = streams(exp)
    for cfg in sorted(G.rt):
        res, so, se, bad = run_script(cfg, d, calls, o, cfg)
        if not bad and so != out:
            bad = 'standard output ' + first_diff(out, so)
        if not bad and se != err:
            bad = 'standard error ' + first_diff(err, se)
        if not bad:
            for (op, args), (rop, _, _, blocks) in zip(calls, res):
                if blocks != [a[0] for a in args if isinstance(a, tuple)]:
                    bad = 'call %r changed its argument: %r' % ((op, args), blocks)
                    break
        if bad:
            o.violate('%s%d:%s' % (kind, i, cfg), '%s%d on the %s build: %s' % (kind, i, cfg, bad),
                      {'script': open(os.path.join(d, 'script'), 'rb').read(), 'calls.txt': '\n'.join(map(repr, calls))})
            return
    for s, x in exp:
        o.seen.add(digest((s, x)))


def main(tier, seed):
    c = setup('P13', tier, seed, 'exploration',
              'distinct (stream, bytes) produced by one output call',
              ['Bytes expected come from an independent formatter in vf/rt.py.',
               'Sanitizers see accesses to red zones and poisoned memory only.'])
    G.rt = build_sanitized(G.tc, c.scratch)
    c.extra['sanitized_builds'] = {k: 'system calls checked' if v[1] else 'plain' for k, v in G.rt.items()}
    n = (500, 200) if tier == 'quick' else (4000, 1500)
    tasks = [('prog', i) for i in range(n[0])] + [('san', i) for i in range(n[1])]
    c.rng('order').shuffle(tasks)
    c.run_tasks(dispatch, tasks)
    return c.finish('calls', 100)


def dispatch(spec):
    return programs(spec) if spec[0] == 'prog' else sanitized(spec)
