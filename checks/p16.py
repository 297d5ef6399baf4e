"""P16: a failing step fails the command cleanly.

Fault injection: for generated commands every step is made to fail in turn - clang (through
an instrumented stand-in on PATH that fails or dies at its n-th invocation and otherwise
runs the real one), reading, compiling, creating and writing files, linking - and a
file-system monitor compares snapshots around the command."""
import stat

from vf.batch import *
from vf.cmd import *
from vf.fs import *
from vf.gen import heavy

REAL = shutil.which('clang', path='/usr/bin:/usr/local/bin')

FAKE = '''#!/bin/sh
n=$(cat "$FAKE_STATE/count" 2>/dev/null || echo 0)
n=$((n + 1))
echo $n > "$FAKE_STATE/count"
if [ $n -eq $FAKE_AT ]; then
    case $FAKE_HOW in
    exit*) echo "clang: noise on stdout"; echo "clang: error: injected" >&2; exit ${FAKE_HOW#exit} ;;
    kill*) kill -${FAKE_HOW#kill} $$ ; sleep 5; exit 1 ;;
    esac
fi
exec %s "$@"
''' % REAL

CLANG = ['exit1', 'exit2', 'exit254', 'exit255', 'killKILL', 'killSEGV', 'killTERM', 'killABRT']
NOCLANG = ['missing', 'notexec', 'directory', 'badinterp', 'empty', 'nopath']
SOURCE = ['syntax', 'syntax-late', 'empty-ok', 'undefined', 'label', 'dir', 'dangling', 'loop', 'ioerror', 'binary', 'removed', 'unclosed']
BADFILE = {'.ll': [b'this is not LLVM IR\n', b'define i64 @main() { ret i64 %x }\n', b'\x00\xff\xfe', b'@x = external global'],
           '.s': [b'\tthis is not assembly %%%\n', b'.quad (\n'],
           '.o': [b'garbage that is no object file\n', b'\x7fELF' + b'\0' * 20, b'\x7fELF\x02\x01\x01' + b'\xff' * 200],
           '.a': [b'!<arch>\ngarbage', b'garbage that is no archive\n']}
SYNTAX = [b'main( {', b'main() { x = 1; }', b'main() { auto x; x = ; }', b'}', b'main() { return(1 }', b'f() { goto nowhere; }']
LINK = ['nolib', 'undef', 'dup', 'nomain', 'nort']
OUTPUT = ['nodir', 'isdir', 'isdir-default', 'filedir', 'tempdir-missing', 'tempdir-file', 'fsize', 'savedir', 'devfull', 'nofile', 'dangling-dir', 'longname']


class Scene:
    def __init__(self, rng, d, mode, n):
        self.rng, self.d, self.mode, self.n = rng, d, mode, n
        self.w = os.path.join(d, 'w')
        self.cwd = os.path.join(self.w, 'cwd')
        for s in ('w/tmp', 'w/cwd/sub', 'w/side', 'state'):
            os.makedirs(os.path.join(d, s))
        self.inputs = []
        for t in range(n):
            kind = rng.choice(ACCEPTS[mode]) if rng.random() < .3 else '.b'
            if t == 0 and kind == '.a':
                kind = '.b'
            p = rng.choice(['', '', 'sub/', '../side/']) + 'in%d' % t + kind
            callees = tuple(range(1, n)) if mode == '' and t == 0 else ()
            prepare(d, os.path.join(self.cwd, p), unit(t, callees, mode != '' or t == 0), kind)
            self.inputs.append([p, kind])
        for x in ('keep.txt', 'in0.tmp', 'in0.bak', 'clang', 'a.out', 'sub/other.o'):
            put(os.path.join(self.cwd, x), 'unrelated ' + x)
        self.save = rng.random() < .25
        self.out = None
        if (n == 1 or mode == '') and rng.random() < .5:
            self.out = rng.choice(['', 'sub/', '../side/']) + 'result' + ('.' + mode if mode else '')
        self.ops = [rng.choice([['-O0'], ['-O2'], ['-g'], [], [], []])]
        self.env = dict(G.tc.env, TMPDIR=os.path.join(self.w, 'tmp'))
        self.limits = []
        self.failed = None        # index of the input at which the failure strikes; None: before or at the link
        self.lib = True
        self.may_succeed = False
        self.expect_out = []
        self.strict_temp = True

    def path(self, k):
        return os.path.join(self.cwd, self.inputs[k][0])

    def outputs(self):
        if self.mode == '':
            return [self.out if self.out is not None else stem(self.inputs[0][0])]
        if self.out is not None:
            return [self.out]
        return [stem(p) + '.' + self.mode for p, _ in self.inputs]

    def args(self):
        a = [MODES[self.mode][0]] if self.mode else []
        for x in self.ops:
            a += x
        if self.out is not None:
            a += ['-o', self.out]
        if self.save:
            a.append('--save-temps')
        if self.lib:
            a += ['-L', G.tc.rt]
        return a + [p for p, _ in self.inputs]


def stem(p):
    b = os.path.basename(p)
    return b[:b.rindex('.')]


def faults(mode, n, rng):
    """All faults that concern a command of this mode with n inputs."""
    fs = []
    calls = 0 if mode == 'll' else 1 if mode == '' else n
    fs += [('clang', how, at) for how in CLANG for at in range(1, calls + 1)]
    if calls:
        fs += [('noclang', how, 0) for how in NOCLANG]
    fs += [('source', how, k) for how in SOURCE for k in range(n)]
    if mode != 'll':
        fs += [('badfile', ext, k) for ext in ACCEPTS[mode][1:] for k in range(n)]
    if mode == '':
        fs += [('link', how, 0) for how in LINK]
    fs += [('output', how, 0) for how in OUTPUT]
    return fs


def inject(s, f):
    """Set the fault up. Returns False if it does not apply to the scene."""
    kind, how, k = f
    rng = s.rng
    if kind == 'clang':
        bin_ = os.path.join(s.d, 'bin')
        put(os.path.join(bin_, 'clang'), FAKE)
        os.chmod(os.path.join(bin_, 'clang'), 0o755)
        s.env.update(PATH=bin_ + ':' + s.env['PATH'], FAKE_STATE=os.path.join(s.d, 'state'), FAKE_AT=str(k), FAKE_HOW=how)
        s.failed = k - 1 if s.mode else None
        return True
    if kind == 'noclang':
        bin_ = os.path.join(s.d, 'bin')
        os.makedirs(bin_)
        c = os.path.join(bin_, 'clang')
        if how == 'notexec':
            put(c, FAKE)
        elif how == 'directory':
            os.makedirs(c)
        elif how == 'badinterp':
            put(c, '#!/nonexistent/interpreter\n')
            os.chmod(c, 0o755)
        elif how == 'empty':
            put(c, b'\x7fELF')
            os.chmod(c, 0o755)
        s.env['PATH'] = bin_
        if how == 'nopath':
            del s.env['PATH']
        s.failed = 0 if s.mode else None
        return True
    if kind == 'source':
        p = s.path(k)
        if s.inputs[k][1] != '.b':
            return False
        text = get(p)
        s.failed = k
        os.remove(p)
        if how == 'syntax':
            put(p, rng.choice(SYNTAX))
        elif how == 'syntax-late':
            put(p, text + rng.choice(SYNTAX))
        elif how == 'undefined':
            put(p, text + b'f9() { nosuch = 1; }')
        elif how == 'label':
            put(p, text + b'f9() { x: x: ; }')
        elif how == 'unclosed':
            put(p, text + rng.choice([b'/* ', b'f9() { "abc', b"v9 'a"]))
        elif how == 'binary':
            put(p, bytes(rng.randrange(256) for _ in range(300)))
        elif how == 'dir':
            os.makedirs(p)
        elif how == 'dangling':
            os.symlink('nowhere.b', p)
        elif how == 'loop':
            os.symlink(os.path.basename(p), p)
        elif how == 'ioerror':
            os.symlink('/proc/self/mem', p)
        elif how == 'removed':
            pass
        elif how == 'empty-ok':
            if s.mode != '' or k != 0:
                return False
            put(p, b'')            # compiles, but there is no main to link
            s.failed = None
        return True
    if kind == 'badfile':
        if s.n > 1 and k == 0 and s.mode == '':
            return False
        p = os.path.join(s.cwd, 'bad%d%s' % (k, how))
        put(p, rng.choice(BADFILE[how]))
        s.inputs[k] = ['bad%d%s' % (k, how), how]
        s.failed = k if s.mode else None
        return True
    if kind == 'link':
        if how == 'nolib':
            s.ops.append(['-l', 'nosuchlibrary'])
        elif how == 'undef':
            put(os.path.join(s.cwd, 'undef.b'), 'fundef() { return(nosuchfn(1)); }\n')
            s.inputs.append(['undef.b', '.b'])
            s.n += 1
        elif how == 'dup':
            put(os.path.join(s.cwd, 'dup.b'), 'fn0(x) return(x);\n')
            s.inputs.append(['dup.b', '.b'])
            s.n += 1
        elif how == 'nomain':
            put(os.path.join(s.cwd, 'nm.b'), 'fnm(x) return(x);\n')
            s.inputs = [['nm.b', '.b']]
            s.n = 1
        else:
            s.lib = False
        return True
    # output faults
    ext = '.' + s.mode if s.mode else ''
    one = s.n == 1 or s.mode == ''
    if how in ('nodir', 'isdir', 'filedir', 'dangling-dir', 'longname') and not one:
        return False
    s.failed = 0 if s.mode else None
    if how == 'nodir':
        s.out = 'no/such/dir/x' + ext
    elif how == 'isdir':
        s.out = 'sub'
    elif how == 'longname':
        s.out = 'x' * 300 + ext
    elif how == 'filedir':
        s.out = 'keep.txt/x' + ext
    elif how == 'dangling-dir':
        os.symlink('/nonexistent/dir', os.path.join(s.cwd, 'dd'))
        s.out = 'dd/x' + ext
    elif how == 'isdir-default':
        s.out = None
        o = s.outputs()
        k = rng.randrange(len(o))
        put(os.path.join(s.cwd, o[k], 'inside'), 'x')
        s.failed = k if s.mode else None
    elif how in ('tempdir-missing', 'tempdir-file'):
        s.env['TMPDIR'] = os.path.join(s.w, 'missing' if how == 'tempdir-missing' else 'cwd/keep.txt')
        s.may_succeed = True
        s.failed = None
    elif how == 'fsize':
        s.limits = ['--fsize=%d' % rng.choice([200, 300, 450, 600, 900, 1500, 3000, 6000])]
        s.may_succeed = True
        s.failed = None
    elif how == 'nofile':
        s.limits = ['--nofile=%d' % rng.randint(8, 14)]
        s.may_succeed = True
        s.failed = None
    elif how == 'savedir':
        if s.mode == 'll':
            return False
        bs = [(j, p) for j, (p, k_) in enumerate(s.inputs) if k_ == '.b']
        if not bs:
            return False
        s.save = True
        j, p = rng.choice(bs)
        if s.mode:
            t = s.outputs()[j] + '.tmp.ll'
        elif s.n == 1:
            t = s.outputs()[0] + '.tmp.ll'
        else:
            t = '%s.tmp.%d.ll' % (stem(p), j)
        put(os.path.join(s.cwd, t, 'inside'), 'x')
        s.failed = j if s.mode else None
    elif how == 'devfull':
        if s.mode != 'll' or s.n != 1:
            return False
        s.out = '/dev/full'
    return True


def one(spec, f, n, mode, d, o):
    kind, i = spec
    rng = G.check.rng(kind, i, repr(f))
    try:
        s = Scene(rng, d, mode, n)
        if not inject(s, f):
            return
    except PrepError as e:
        o.violate('%s%d:prep' % spec, 'preparing an input failed: %s' % e)
        return
    upfront = f[0] == 'source' and f[1] in ('dangling', 'loop', 'removed')
    before = snapshot(s.w)
    dev = os.stat('/dev/full')
    args = s.args()
    cmd = (['/usr/bin/prlimit'] + s.limits + ['--'] if s.limits else []) + [G.tc.blang] + args
    r = run(cmd, s.cwd, env=s.env, cpu=60)
    after = snapshot(s.w)
    created, removed, altered = changes(before, after)
    outs = s.outputs()
    if r.rc == 0 and s.may_succeed:
        allowed, need = outs, outs
    elif upfront or s.mode == '':
        allowed, need = [], []
    elif s.failed is None:
        allowed, need = outs[:-1], []
    else:
        allowed, need = outs[:s.failed], outs[:s.failed]
    rel = {os.path.relpath(os.path.normpath(os.path.join(s.cwd, x)), s.w) for x in allowed}
    created2 = [c for c in created if c not in rel and not (s.save and re_temp(c)) and not (s.limits and own_temp(c))]
    name = '%s at %s' % ('%s:%s' % (f[0], f[1]), f[2])
    what = '%s with the fault %s, %s inputs %s' % ('blang ' + ' '.join(args), name, n, s.limits or '')
    msg = None
    if not (r.rc == 0 and s.may_succeed) and r.rc != 1:
        msg = 'expected exit status 1, observed: %s; %r' % (r.describe(), r.err[:300])
    elif r.rc == 1 and b'blang: error: ' not in r.err:
        msg = 'no error message: %r' % r.err[:300]
    elif b'panic:' in r.err or b'goroutine ' in r.err:
        msg = 'crashed: %r' % r.err[:300]
    elif r.rc == 0 and r.err:
        msg = 'succeeded with a message: %r' % r.err[:300]
    elif r.out:
        msg = 'printed on standard output: %r' % r.out[:300]
    elif created2 or removed or altered:
        msg = 'created %r, removed %r, altered %r' % (created2, removed, altered)
    elif any(os.path.relpath(os.path.normpath(os.path.join(s.cwd, x)), s.w) not in after for x in need):
        msg = 'outputs of earlier steps are missing: %r' % need
    elif os.stat('/dev/full').st_rdev != dev.st_rdev:
        msg = '/dev/full was replaced'
    if msg:
        files = {'command.txt': what}
        for p, k in s.inputs:
            x = get(os.path.join(s.cwd, p)) if not os.path.islink(os.path.join(s.cwd, p)) else None
            if x is not None:
                files['input-' + os.path.basename(p)] = x
        o.violate('%s:%s' % (mode or 'exe', f[0] + ':' + f[1]), '%s: %s' % (what, msg), files)
        return
    o.stats['faults'] += 1
    o.stats['fault_' + f[0]] += 1
    if r.rc == 0:
        o.stats['faults_without_effect'] += 1
    else:
        o.stats['clean_failures'] += 1
    o.seen.add((mode, n, f, s.save, s.out is not None).__repr__())
    if len(o.samples) < 1:
        o.samples.append('%s -> %s' % (what, r.err.decode('latin-1').strip()[:120]))


def own_temp(c):
    """What clang itself leaves in the temporary directory when a limit makes it crash."""
    return c.startswith('tmp/') and not c.startswith('tmp/blang')


def re_temp(c):
    return '.tmp.' in c and c.endswith('.ll')


def scene(spec):
    """One command; every fault in turn."""
    kind, i, mode, n, part, parts = spec
    o = Outcome()
    rng = G.check.rng(kind, i)
    fs = faults(mode, n, rng)[part::parts]
    for f in fs:
        d = workdir('t%x' % digest((spec, f)))
        try:
            one((kind, i), f, n, mode, d, o)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if o.violations:
            break
    return o


def main(tier, seed):
    c = setup('P16', tier, seed, 'fault_enumeration', 'distinct (mode, number of inputs, fault, position, options) driven',
              ['The stand-in for clang fails before it writes its output, as clang itself does.',
               'As root, permission bits cannot make a file unreadable; directories, links and I/O errors stand in.'])
    rounds = 3 if tier == 'quick' else 12
    tasks = []
    for i in range(rounds):
        for mode in ('', 'o', 's', 'll'):
            for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 6):
                parts = 6
                tasks += [('f', i * 100 + n, mode, n, p, parts) for p in range(parts)]
    c.run_tasks(scene, tasks)
    return c.finish('faults', 100)
