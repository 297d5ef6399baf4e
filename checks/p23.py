"""P23: a command's result depends on its inputs and options only.

Each command is run once in plain surroundings and then many times in others (environment,
locale, directories, descriptors, signal dispositions, limits, terminals, ways to name the same files); a monitor compares status, messages and every file byte by byte. A logging
stand-in for clang checks that -v reports exactly the steps that were taken and changes nothing."""
import json
import re
import stat
import sys

from vf.batch import *
from vf.cmd import *
from vf.common import GOENV, HarnessError, REPO, sh
from vf.corpus import *
from vf.fs import *

REAL = shutil.which('clang', path='/usr/bin:/usr/local/bin')

LAUNCH = r'''
import json, os, resource, signal, sys
def hook(*a):
    os.write(2, b'LAUNCHER ' + repr(a).encode())
    os._exit(99)
sys.excepthook = hook
s = json.load(open(sys.argv[1]))
if 'tty' in s:
    # these descriptors are terminals, of which the other ends are copied here
    import select, tty
    pairs = [(n,) + os.openpty() for n in s['tty']]
    for n, m, t in pairs:
        tty.setraw(t)
    pid = os.fork()
    if pid:
        for n, m, t in pairs:
            os.close(t)
        pipes, idle, status = {m: n for n, m, t in pairs if n}, 0, None
        while pipes and idle < 3:
            ready = select.select(list(pipes), [], [], .1)[0]
            idle = 0 if ready else idle + (status is not None)
            for m in ready:
                try:
                    b = os.read(m, 65536)
                except OSError:
                    b = b''
                if b:
                    os.write(pipes[m], b)
                else:
                    del pipes[m]
            if status is None:
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    status = st
        if status is None:
            status = os.waitpid(pid, 0)[1]
        if os.WIFSIGNALED(status):
            signal.signal(os.WTERMSIG(status), signal.SIG_DFL)
            os.kill(os.getpid(), os.WTERMSIG(status))
        os._exit(os.WEXITSTATUS(status))
    for n, m, t in pairs:
        os.close(m)
        if n != t:
            os.dup2(t, n)
            os.close(t)
os.chdir(s['cwd'])
for n in s.get('ignore', []):
    signal.signal(n, signal.SIG_IGN)
for n in range(1, 32):
    if n not in s.get('ignore', []) and n not in (9, 19):
        signal.signal(n, signal.SIG_DFL)
for k, v in s.get('limits', {}).items():
    resource.setrlimit(getattr(resource, k), (v, v))
if 'stdin' in s:
    os.dup2(s['stdin'], 0)
    os.close(s['stdin'])
for i in range(min(s.get('fds', 0), 20 if s.get('limits', {}).get('RLIMIT_NOFILE') == 48 else 1000)):
    os.set_inheritable(os.open('/dev/null', os.O_RDONLY), True)
if 'log' in s:
    os.dup2(os.open(s['log'], os.O_WRONLY | os.O_CREAT | os.O_APPEND), 97)
os.umask(s.get('umask', 0o22))
os.nice(s.get('nice', 0))
for n in s.get('close', []):
    os.close(n)
if 'block' in s:
    signal.pthread_sigmask(signal.SIG_BLOCK, s['block'])
os.execve(s['exe'], s['argv'], s['env'])
'''

def monitor(scratch):
    """A build of the command that writes down, on descriptor 97, the environment variables it asks for."""
    root = sh(['go', 'env', 'GOROOT'], cwd=REPO, env=GOENV).stdout.decode().strip()
    src = os.path.join(root, 'src/syscall/env_unix.go')
    try:
        text = open(src).read()
    except OSError:
        return None
    new, n = re.subn(r'(func Getenv\(key string\) \(value string, found bool\) \{\n)', r'\1\twrite(97, []byte("ENV " + key + "\\n"))\n', text)
    if n != 1:
        return None
    put(os.path.join(scratch, 'env_unix.go'), new)
    put(os.path.join(scratch, 'overlay.json'), json.dumps({'Replace': {src: os.path.join(scratch, 'env_unix.go')}}))
    out = os.path.join(scratch, 'blang-monitored')
    r = sh(['go', 'build', '-overlay', os.path.join(scratch, 'overlay.json'), '-o', out, '.'], cwd=REPO, env=GOENV)
    return out if r.returncode == 0 else None


def lookups(s, args, d):
    """Run the command monitored -> (variables asked for, files looked for in vain)."""
    log, trace = os.path.join(d, 'lookups'), os.path.join(d, 'trace')
    s.x['log'] = log
    args = [G.monitored] + args
    if G.strace:
        args = ['strace', '-f', '-xx', '-s', '10000', '-e', 'trace=%file,%process', '-o', trace] + args
    s.exe = shutil.which(args[0]) or args[0]
    s.arg0 = args[0]
    s.run(args[1:], d)
    names = {x[4:].decode('latin-1') for x in (get(log) or b'').split(b'\n') if x.startswith(b'ENV ')}
    missing, mine = set(), None
    for l in (get(trace) or b'').decode('latin-1').splitlines() if G.strace else ():
        pid, _, l = l.partition(' ')
        l = l.strip()
        if mine is None:
            mine = {pid}
        m = re.match(r'(?:clone3?|<\.\.\. clone3? resumed>|v?fork)\b.*= (\d+)', l)
        if m and pid in mine and 'CLONE_THREAD' in l:
            mine.add(m.group(1))
        m = re.match(r'(\w+)\((?:AT_FDCWD, )?"((?:\\x[0-9a-f]{2})*)".*= -1 ENOENT', l)
        if m and pid in mine and m.group(1) != 'execve':
            missing.add(bytes.fromhex(m.group(2).replace('\\x', '')).decode('utf-8', 'surrogateescape'))
    return names, missing


# what the documentation says counts, and what directs clang
KNOWN_ENV = {'PATH', 'HOME', 'TMPDIR', 'CPATH', 'LIBRARY_PATH', 'CCC_OVERRIDE_OPTIONS', 'GODEBUG'}
NASTY = ['1', '0', '', '3', '-O3', 'x', '/nonexistent', 'true', 'no', '-v', 'on']

BADB = [b'main( {', b'main() { return (x); }', b'f() { goto nowhere; }\n', b'/* unfinished', b'main() { auto a; a = "x; }', b'x 1, ; y',
        b'main() { goto ' + b'far_' * 30 + b'; }', b'main() { return (' + b'undeclared' * 60 + b'); }', b'main() { auto ' + b'n' * 5000 + b' 1; }']


def program(rng, mode):
    if mode == '':
        return unit(0, (), True)
    r = rng.random()
    if r < .5:
        return program_text(static_program(rng), rng, 'plain', .05)
    return program_text(Tame(rng).program(), rng, 'plain', .05)


def tree(root):
    """name -> content of every file below root"""
    out = {}
    for base, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(base, n)
            k = os.path.relpath(p, root)
            if os.path.islink(p):
                out[k] = ('link', os.readlink(p))
            elif os.path.isdir(p):
                out[k] = ('dir',)
            elif stat.S_ISREG(os.lstat(p).st_mode):
                out[k] = ('file', get(p))
            else:
                out[k] = ('other',)
    return out


class Spec:
    """The command and its surroundings."""

    def __init__(self, base, cwdname='cwd'):
        self.base = base
        self.cwd = os.path.join(base, cwdname)
        self.exe = G.tc.blang
        self.arg0 = 'blang'
        self.env = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': G.tc.home, 'TMPDIR': os.path.join(base, 'tmp'), 'LANG': 'C.UTF-8'}
        self.x = {}
        self.stdin = None
        self.names = {}       # input -> how it is named
        self.extra_ok = lambda n: False
        self.blind = False    # stderr cannot be seen
        self.notes = []

    def run(self, args, d):
        args = [self.names.get(a, a) for a in args]
        spec = dict(self.x, cwd=self.cwd, exe=self.exe, argv=[self.arg0] + args, env=self.env)
        keep = ()
        if self.stdin is not None:
            spec['stdin'] = self.stdin
            keep = (self.stdin,)
        p = os.path.join(d, 'launch.json')
        with open(p, 'w') as f:
            json.dump(spec, f)
        r = run([sys.executable, '-S', '-c', LAUNCH, p], d, cpu=70, keepfds=keep, maxout=1 << 28)
        if r.rc == 99:
            raise HarnessError(r.err.decode())
        return r


def lay(s, inputs, content):
    os.makedirs(s.cwd)
    os.makedirs(os.path.join(s.base, 'tmp'), exist_ok=True)
    for n, data in zip(inputs, content):
        put(os.path.join(s.cwd, n), data)


ENVS = [{'LANG': 'tr_TR.UTF-8', 'LC_ALL': 'tr_TR.UTF-8'}, {'LC_ALL': 'C'}, {'LC_ALL': 'de_DE.ISO-8859-1'}, {'LC_NUMERIC': 'de_DE.UTF-8'}, {'TZ': 'Asia/Tokyo'},
        {'GOGC': '1'}, {'GOGC': 'off'}, {'GOMAXPROCS': '1'}, {'GOMAXPROCS': '32'}, {'GODEBUG': 'randautoseed=0'}, {'GOMEMLIMIT': '20MiB'}, {'GOTRACEBACK': 'crash'},
        {'NO_COLOR': '1'}, {'TERM': 'xterm-256color'}, {'TERM': 'dumb'}, {'TERM': ''}, {'COLUMNS': '5', 'LINES': '2'}, {'SOURCE_DATE_EPOCH': '1'}, {'USER': 'nobody', 'LOGNAME': 'nobody'},
        {'CC': 'false', 'CXX': 'false', 'AS': 'false', 'LD': 'false'}, {'CFLAGS': '-O3 -DX', 'LDFLAGS': '-lnothing'}, {'SHELL': '/bin/false'}, {'IFS': 'abc'}, {'PWD': '/nonexistent'},
        {'OLDPWD': '/'}, {'B': '1', 'BLANG': 'x', 'BLANG_OPTIONS': '-v', 'BLANGFLAGS': '-O3', 'BFLAGS': '-g', 'OPTIMIZE': '3', 'DEBUG': '1', 'VERBOSE': '1', 'V': '1'},
        {'BPATH': '/x', 'BLIB': '/x', 'BLANG_HOME': '/x', 'PREFIX': 'zz', 'DESTDIR': '/x'}, {'BIG%d' % i: 'x' * 1000 for i in range(100)}, {'POSIXLY_CORRECT': '1'},
        {'EMPTY': ''}, {'MALLOC_PERTURB_': '85'}, {'LD_BIND_NOW': '1'}, {'TMP': '/nonexistent', 'TEMP': '/nonexistent'}, {'XDG_CACHE_HOME': '/nonexistent'}, {'WORDSIZE': '4', 'WORD_SIZE': '4'}]
HOWS = ['env', 'env', 'noenv', 'home', 'tmpdir', 'tmpdir', 'umask', 'stdin', 'closed', 'cwd', 'cwd', 'argv0', 'signals', 'block', 'limits', 'fds', 'name', 'name', 'name', 'mtime', 'mode',
        'old', 'crowd', 'save', 'verbose', 'verbose', 'nothing', 'fifo', 'nice', 'path', 'tty', 'tty']


def change(rng, how, s, inputs, outs, mode):
    """Alter the surroundings after the files are laid out (False: does not apply)."""
    if how == 'env':
        for e in rng.sample(ENVS, rng.randint(1, 4)):
            s.env.update(e)
    elif how == 'noenv':
        s.env = {'PATH': s.env['PATH'], 'TMPDIR': s.env['TMPDIR']}
    elif how == 'home':
        h = rng.choice(['', '/nonexistent', os.path.join(s.base, 'h'), None, 'relative', '/'])
        if h is None:
            s.env.pop('HOME', None)
        else:
            s.env['HOME'] = h
    elif how == 'tmpdir':
        t = rng.choice(['tmp dir', "t'q", 'a/b/c/d', 'tä', 't\nnl', 'x' * 200, 't.ll', 'link', 'rel', 'slash', '$x', 'b.b', 'libb.a'])
        p = os.path.join(s.base, 'tmp', t)
        if t == 'link':
            os.makedirs(os.path.join(s.base, 'tmp', 'real'))
            os.symlink('real', p)
        else:
            os.makedirs(p)
        s.env['TMPDIR'] = os.path.relpath(p, s.cwd) if t == 'rel' else p + '//' if t == 'slash' else p
    elif how == 'umask':
        s.x['umask'] = rng.choice([0, 0o77, 0o27, 0o2, 0o177])
    elif how == 'stdin':
        s.stdin = rng.choice(['data', 'program', 'dir', 'write', 'full'])
    elif how == 'closed':
        s.x['close'] = rng.choice([[0], [1], [0, 1], [2], [0, 1, 2], [1, 2]])
        s.blind = 2 in s.x['close']
    elif how == 'argv0':
        n = rng.choice(['b', 'clang', 'cc', 'bl ang', 'blang.b', '-v', ' ', 'x/y', '--help', 'main'])
        s.arg0 = n
        if rng.random() < .5 and n and '/' not in n:
            p = os.path.join(s.base, 'tmp', 'bin')
            os.makedirs(p)
            s.exe = os.path.join(p, n)
            os.symlink(G.tc.blang, s.exe)
    elif how == 'signals':
        s.x['ignore'] = rng.choice([[1], [2], [13], [17], [1, 2, 3, 13, 15, 17], [10, 12, 14], [17, 20, 23]])
    elif how == 'block':
        s.x['block'] = rng.choice([[17], [1, 2, 3, 15], [13], [23], [10, 12, 14, 17, 23]])
    elif how == 'limits':
        s.x['limits'] = rng.choice([{'RLIMIT_NOFILE': 48}, {'RLIMIT_STACK': 2 << 20}, {'RLIMIT_CORE': 0}, {'RLIMIT_STACK': 64 << 20}, {'RLIMIT_NOFILE': 4096}, {'RLIMIT_MEMLOCK': 0}])
    elif how == 'fds':
        s.x['fds'] = rng.choice([1, 5, 60, 200])
    elif how == 'nice':
        s.x['nice'] = 5
    elif how == 'lookups':
        for v in sorted(s.asked[0] - KNOWN_ENV):
            s.env[v] = rng.choice(NASTY + [s.base, s.cwd])
        for p in sorted(s.asked[1]):
            # the same place in this directory tree
            q = os.path.normpath(os.path.join(s.cwd, p.replace(s.asked[2], s.base)))
            if q.startswith(s.base + '/') and not os.path.lexists(q) and os.path.isdir(os.path.dirname(q)) and q not in [os.path.join(s.cwd, n) for n in outs]:
                if rng.random() < .3:
                    os.mkdir(q)
                else:
                    put(q, rng.choice([b'', b'-v -O3 -g\n', b'{"optimize": 3}', b'main() { return (77); }\n', b'x' * 5000]))
    elif how == 'path':
        p = os.path.join(s.base, 'tmp', 'pbin')
        os.makedirs(p)
        for n in rng.sample(['llc', 'opt', 'ld', 'as', 'gcc', 'cc', 'blang', 'llvm-as', 'sh', 'rm', 'ar', 'go'], 5):
            put(os.path.join(p, n), '#!/bin/sh\nexit 7\n')
            os.chmod(os.path.join(p, n), 0o755)
        # clang itself looks ld up on PATH only after its own directory; keep the real one
        for n in ('ld',):
            if os.path.exists(os.path.join(p, n)):
                os.remove(os.path.join(p, n))
        s.env['PATH'] = p + ':' + s.env['PATH'] + rng.choice(['', ':', ':/nonexistent', ':' + s.cwd])
    elif how == 'name':
        for n in inputs:
            r = rng.randrange(6)
            b = os.path.basename(n)
            q = os.path.join(s.cwd, n)
            if r == 0:
                s.names[n] = q
            elif r == 1:
                s.names[n] = './/' + n
            elif r == 2:
                os.makedirs(os.path.join(s.base, 'tmp', 'n'), exist_ok=True)
                s.names[n] = os.path.join(s.base, 'tmp', 'n', b)
                if not os.path.lexists(s.names[n]):
                    t = q
                    if rng.random() < .5:        # the file itself has quite another name
                        t = os.path.join(s.base, 'tmp', 'store%d.dat' % len(s.names))
                        put(t, get(q) or b'')
                    os.symlink(t, s.names[n])
            elif r == 3:
                s.names[n] = '../' + os.path.basename(s.cwd) + '/' + n
            elif r == 4:
                os.makedirs(os.path.join(s.base, 'tmp', 'h'), exist_ok=True)
                s.names[n] = os.path.relpath(os.path.join(s.base, 'tmp', 'h', b), s.cwd)
                if not os.path.lexists(os.path.join(s.base, 'tmp', 'h', b)):
                    os.link(q, os.path.join(s.base, 'tmp', 'h', b))
    elif how == 'mtime':
        for n in inputs + outs:
            p = os.path.join(s.cwd, n)
            if os.path.exists(p):
                t = rng.choice([0, 1, 1 << 31, 4 << 30])
                os.utime(p, (t, t))
    elif how == 'mode':
        for n in inputs:
            os.chmod(os.path.join(s.cwd, n), rng.choice([0o444, 0o400, 0o777, 0o4755]))
    elif how == 'old':
        for n in outs:
            put(os.path.join(s.cwd, n), rng.choice([b'', b'old\n', b'\x7fELF old', b'x' * 100000]))
            if rng.random() < .3:
                os.utime(os.path.join(s.cwd, n), (4 << 30, 4 << 30))
    elif how == 'crowd':
        for n in ('libb.a', 'clang', 'b', 'a.out', '.blang', 'blang.conf', '.blangrc', 'blang.ini', 'Makefile', 'go.mod', 'include.b', 'main.b', 'printf.b', 'default.ll', 'libc.a'):
            if not os.path.exists(os.path.join(s.cwd, n)) and n not in outs:
                put(os.path.join(s.cwd, n), b'-v -O3 main() { other(); }')
    elif how == 'tty':
        if s.stdin or not G.pty:
            return False
        s.x['tty'] = rng.choice([[2], [1], [1, 2], [0, 1, 2], [0], [0, 2]])
        if rng.random() < .5:
            s.env.update(rng.choice([{'TERM': 'xterm-256color'}, {'TERM': 'dumb'}, {'COLUMNS': '20', 'LINES': '3'}, {'NO_COLOR': '1'}, {'TERM': 'vt100', 'COLUMNS': '40'}]))
    elif how == 'fifo':
        if not inputs[0].endswith('.b') or len(inputs) > 1:
            return False
        q = os.path.join(s.cwd, inputs[0])
        s.fifo = (q, get(q), rng.choice([1, 2, 3, 7]))
        os.remove(q)
        os.mkfifo(q)
    return True


# names that mean something to a shell, a format or a make file
PLAIN = ['a%d', '%s', '100%', '%%', 'two words', "it's", 'a\\nb', 'ä', '$HOME', '%!v(MISSING)', 'a"b', '*', '{}', 'a;b', '#1', 'c,d', '%v%[2]d', 'a=b', '~', 'a&b']


@with_dir
def surroundings(spec, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i)
    mode = rng.choice(['ll', 'll', 's', 'o', ''])
    n = rng.choice([1, 1, 2, 3])
    stems = rng.sample(['a', 'prog', 'v1.2', 'x_y', 'main', 'test', 'z0'] if rng.random() < .6 else PLAIN, n)
    inputs = [rng.choice(['', '', 'sub/']) + x + '.b' for x in stems]
    content = [program(rng, mode).encode('latin-1')] + [
        (unit(t, (), False) if mode == '' else program(rng, mode)).encode('latin-1') for t in range(1, n)]
    if rng.random() < .15:
        content[rng.randrange(n)] = rng.choice(BADB)
    args = ['-L' + G.tc.rt] + ([MODES[mode][0]] if mode else []) + rng.choice([[], [], ['-O2'], ['-O1'], ['-g'], ['-O3', '-g']])
    outs = [stem + '.' + mode for stem in stems] if mode else [stems[0]]
    if (n == 1 or mode == '') and rng.random() < .5:
        outs = [rng.choice(['out', 'sub/out', 'o.x', 'sub/' + rng.choice(PLAIN) + 'o']) + ('.' + mode if mode else '')]
        args += ['-o', outs[0]]
    args += inputs
    s = Spec(os.path.join(d, 'ref'))
    lay(s, inputs, content)
    os.makedirs(os.path.join(s.cwd, 'sub'), exist_ok=True)
    r0 = s.run(args, d)
    ref = tree(s.cwd)
    if os.listdir(os.path.join(s.base, 'tmp')):
        ref['tmp'] = os.listdir(os.path.join(s.base, 'tmp'))
    o.stats['commands_refused' if r0.rc else 'commands_' + (mode or 'exe')] += 1
    what0 = '%s%d: blang %s' % (kind, i, ' '.join(args))
    if r0.rc not in (0, 1) or (r0.rc == 0 and (r0.out or r0.err)):
        return o.violate('%s%d' % spec, '%s: %s, %r %r' % (what0, r0.describe(), r0.out[:200], r0.err[:200]), dict(zip(inputs, content)))
    asked = None
    if G.monitored:
        s = Spec(os.path.join(d, 'watch'))
        lay(s, inputs, content)
        os.makedirs(os.path.join(s.cwd, 'sub'), exist_ok=True)
        asked = lookups(s, args, d) + (s.base,)
        o.stats['variables_asked_for'] += len(asked[0])
        o.stats['files_looked_for_in_vain'] += len(asked[1])
        shutil.rmtree(s.base, ignore_errors=True)
    for k in range(9 if G.tier == 'quick' else 14):
        hows = rng.sample(HOWS, rng.choice([1, 1, 1, 2, 3]))
        if asked and k < 2:
            hows = ['lookups']
        cwdname = 'cwd'
        if 'cwd' in hows:
            cwdname = rng.choice(['my dir', 'ä', 'deep/' * 20 + 'x', "q'\"", 'new\nline', 'a.b', 'tmp.ll', '%d', 'y' * 200, '-o', 'c,d', '$HOME', ' '])
        s = Spec(os.path.join(d, 'v%d' % k), cwdname)
        s.fifo, s.asked = None, asked
        lay(s, inputs, content)
        os.makedirs(os.path.join(s.cwd, 'sub'), exist_ok=True)
        if not all(change(rng, h, s, inputs, outs, mode) for h in sorted(set(hows), key=lambda h: (h == 'fifo', hows.index(h))) if h not in ('save', 'verbose', 'nothing', 'cwd')):
            o.stats['variants_discarded'] += 1
            continue
        before = tree(s.cwd)
        a, save, verbose = list(args), 'save' in hows, 'verbose' in hows and 1 not in s.x.get('close', [])
        if save:
            a.insert(rng.choice([0, len(a)]), '--save-temps')
        if verbose:
            a.insert(rng.choice([0, len(a)]), '-v')
            shim(s)
        fh = feed = None
        if s.stdin == 'dir':
            fh = os.open(s.base, os.O_RDONLY)
        elif s.stdin == 'write':
            fh = os.open('/dev/null', os.O_WRONLY)
        elif s.stdin is not None:
            p = os.path.join(d, 'stdin')
            put(p, {'data': b'line\n' * 100, 'program': b'main() { }', 'full': b'x' * 300000}[s.stdin])
            fh = os.open(p, os.O_RDONLY)
        had_stdin, s.stdin = s.stdin, fh
        if s.fifo:
            feed = subprocess.Popen([sys.executable, '-c', 'import sys, os, time\nd = open(sys.argv[1], "rb").read()\nn = int(sys.argv[3])\nf = open(sys.argv[2], "wb", 0)\ntry:\n for k in range(n):\n  f.write(d[len(d) * k // n:len(d) * (k + 1) // n]); k < n - 1 and time.sleep(.05)\n f.close()\nexcept BrokenPipeError: os._exit(0)',
                                     os.path.join(d, 'ref', 'cwd', inputs[0]), s.fifo[0], str(s.fifo[2])], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            r = s.run(a, d)
        finally:
            if feed:
                try:
                    feed.wait(1)
                except subprocess.TimeoutExpired:
                    feed.kill()
                    feed.wait()
        if feed:
            os.remove(s.fifo[0])
            put(s.fifo[0], s.fifo[1])
            before[os.path.relpath(s.fifo[0], s.cwd)] = ('file', s.fifo[1])
        consumed = 0
        if fh is not None:
            if had_stdin in ('data', 'program', 'full'):
                consumed = os.lseek(fh, 0, os.SEEK_CUR)
            os.close(fh)
        if 'tty' in s.x:
            # colour is for terminals
            r.out, r.err = (re.sub(rb'\x1b\[[0-9;]*m', b'', x) for x in (r.out, r.err))
            o.stats['commands_at_terminals'] += 1
        got = tree(s.cwd)
        what = '%s in other surroundings (%s; %s)' % (what0, '+'.join(hows), json.dumps(
            {'argv': [s.arg0] + [s.names.get(x, x) for x in a], 'env': {x: y for x, y in s.env.items() if not x.startswith('BIG')}, 'cwd': s.cwd, **s.x}))
        files = dict(zip(inputs, content))
        files['surroundings.txt'] = what

        def bad(msg):
            o.violate('%s%d.%d' % (kind, i, k), '%s: %s' % (what, msg), files)
        if r.rc != r0.rc:
            return bad('%s instead of status %d: %r' % (r.describe(), r0.rc, r.err[:300]))
        err0 = r0.err
        if not s.blind and norm(r.err, s, a) != norm(err0, Spec(os.path.join(d, 'ref')), args):
            return bad('message %r instead of %r' % (r.err[:300], err0[:300]))
        if r.out and not verbose:
            return bad('printed %r' % r.out[:200])
        if consumed:
            return bad('%d bytes of standard input were consumed' % consumed)
        # files: what the reference has, plus what was there before
        for name, c in ref.items():
            if name == 'tmp':
                continue
            if got.get(name) != c and not (r0.rc != 0 and name not in inputs):
                return bad('%s is %s' % (name, 'missing' if name not in got else 'different (%d bytes, before %d)' % (
                    len(got[name][-1]), len(c[-1]))))
        for name in got:
            if name not in ref and name not in before and not (save and name.endswith('.ll') and '.tmp.' in name):
                return bad('%s was created' % name)
            if name in before and name not in outs and got[name] != before[name]:
                return bad('%s was changed' % name)
        for name in before:
            if name not in got and not (r0.rc != 0 and name in outs):
                return bad('%s was removed' % name)
        left = [x for x in os.listdir(s.env.get('TMPDIR') and os.path.join(s.cwd, s.env['TMPDIR'])) if x.startswith('blang')]
        if left:
            return bad('left %r in the temporary directory' % left)
        if r0.rc == 0 and mode == '':
            m = os.stat(os.path.join(s.cwd, outs[0])).st_mode
            if not m & 0o100 and s.x.get('umask') != 0o177:
                return bad('the program has mode %o' % m)
        if verbose:
            c = report(s, r, inputs, outs, r0.rc)
            if c:
                return bad(c)
            o.stats['reports_checked'] += 1
        for h in set(hows):
            o.stats['variant ' + h] += 1
        o.stats['commands'] += 1
        o.stats['files_compared'] += len(ref)
        o.seen.add(digest((what0, sorted(set(hows)), k)))
        shutil.rmtree(s.base, ignore_errors=True)
    if not o.samples:
        o.samples.append('%s: status %d, the same in every surroundings' % (what0, r0.rc))


def norm(err, s, args):
    """messages without the names of directories and files"""
    t = err.decode('latin-1')
    for x in sorted(list(s.names.values()) + [a for a in args if a.endswith('.b')] + list(s.names), key=len, reverse=True):
        t = t.replace(x.encode().decode('latin-1'), 'INPUT')
    return t.replace(s.base, 'BASE')


def shim(s):
    """a clang on PATH that writes down how it is called"""
    p = os.path.join(s.base, 'tmp', 'shim')
    os.makedirs(p)
    put(os.path.join(p, 'clang'), '#!%s\nimport json, os, sys\nwith open(%r, "a") as f:\n f.write(json.dumps(sys.argv) + "\\n")\nos.execv(%r, sys.argv)\n' % (
        sys.executable, os.path.join(s.base, 'tmp', 'calls'), REAL))
    os.chmod(os.path.join(p, 'clang'), 0o755)
    s.env['PATH'] = p + ':' + s.env['PATH']


def report(s, r, inputs, outs, rc):
    """-v must say what happened"""
    out = r.out.decode('utf-8', 'surrogateescape')
    calls = [json.loads(x) for x in (get(os.path.join(s.base, 'tmp', 'calls')) or b'').decode().splitlines()]
    pos = 0
    for c in calls:
        line = ' '.join(c[1:])
        q = out.find(line, pos)
        if q < 0 or 'clang' not in out[out.rfind('blang:', 0, q):q]:
            return '-v does not report, in its place, the call: clang %s; it printed %r' % (line, out[:600])
        pos = q + len(line)
    if out.count('blang: running ') != len(calls):
        return '-v reports %d commands run, there were %d: %r' % (out.count('blang: running '), len(calls), out[:600])
    if rc == 0:
        for n in inputs:
            if s.names.get(n, n) not in out:
                return '-v does not mention the input %s: %r' % (n, out[:600])
        for n in outs:
            if 'generated ' + n not in out:
                return '-v does not report the output %s: %r' % (n, out[:600])
    return None


def main(tier, seed):
    c = setup('P23', tier, seed, 'exploration', 'distinct (command, surroundings) whose status, messages and files were compared with the reference',
              ['variables that direct clang itself (CPATH, LIBRARY_PATH, CCC_OVERRIDE_OPTIONS) are left alone'])
    G.strace = sh(['strace', '-f', '-o', '/dev/null', '/bin/true']).returncode == 0 if shutil.which('strace') else False
    try:
        for fd in os.openpty():
            os.close(fd)
        G.pty = True
    except OSError:
        G.pty = False
    G.monitored = monitor(c.scratch.sub('monitor'))
    c.extra['monitored_lookups'] = bool(G.monitored)
    c.extra['strace_available'] = G.strace
    c.extra['terminals_available'] = G.pty
    c.run_tasks(surroundings, [('env', i) for i in range(230 if tier == 'quick' else 2500)])
    return c.finish('commands', 100)
