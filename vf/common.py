"""Shared machinery: building the code under test, running things with limits,
collecting coverage, reporting violations and writing evidence files."""
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SUPPORT = os.path.join(VERIF, 'support')
NPROC = min(8, os.cpu_count() or 1)
SOFT_DEADLINE = float(os.environ.get('VERIF_DEADLINE', '600'))  # coverage only, never an oracle

ENV = dict(os.environ)
ENV.update({
    'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
    'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
    'GOTOOLCHAIN': 'local', 'GOPROXY': 'off', 'GOFLAGS': '-mod=mod -buildvcs=false',
})
GOENV = dict(ENV)
GOENV.setdefault('HOME', '/root')
GOENV.setdefault('GOPATH', '/root/go')
GOENV.setdefault('GOMODCACHE', '/root/go/pkg/mod')
GOENV.setdefault('GOCACHE', '/root/.cache/go-build')


class HarnessError(Exception):
    """The machinery itself cannot work (build failure, missing tool)."""


class Scratch:
    """A scratch directory, removed at exit of the check."""

    def __init__(self, tag):
        self.dir = tempfile.mkdtemp(prefix='vf-%s-' % tag)

    def sub(self, name):
        p = os.path.join(self.dir, name)
        os.makedirs(p, exist_ok=True)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def sh(cmd, cwd=None, env=None, timeout=600, input=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, input=input, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE)


class Toolchain:
    """blang and its runtime, built from /repo's current tree into a scratch directory."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.home = scratch.sub('home')          # an empty HOME: no ~/.local/lib
        self.env = dict(ENV, HOME=self.home)
        bindir = scratch.sub('bin')
        self.blang = os.path.join(bindir, 'blang')
        r = sh(['go', 'build', '-o', self.blang, '.'], cwd=REPO, env=GOENV)
        if r.returncode != 0:
            raise HarnessError('go build failed:\n' + r.stderr.decode())
        self.rt = os.path.join(scratch.dir, 'rt')
        os.makedirs(self.rt)
        for f in sorted(os.listdir(os.path.join(REPO, 'runtime'))):
            if f.endswith(('.c', '.h', '.S')) or f == 'Makefile':
                shutil.copy(os.path.join(REPO, 'runtime', f), self.rt)
        r = sh(['make', '-B', '-C', self.rt, 'all'], env=GOENV)
        if r.returncode != 0 or not os.path.exists(os.path.join(self.rt, 'libb.a')):
            raise HarnessError('runtime build failed:\n' + r.stderr.decode())
        self.obs = os.path.join(scratch.dir, 'obs.o')
        r = sh(['gcc', '-O1', '-ffreestanding', '-fno-stack-protector', '-c',
                os.path.join(SUPPORT, 'obs.c'), '-o', self.obs])
        if r.returncode != 0:
            raise HarnessError('observer build failed:\n' + r.stderr.decode())


class RunResult:
    __slots__ = ('rc', 'out', 'err', 'cpu_killed', 'truncated')

    def __init__(self, rc, out, err, cpu_killed=False, truncated=False):
        self.rc, self.out, self.err = rc, out, err
        self.cpu_killed, self.truncated = cpu_killed, truncated

    def describe(self):
        if self.cpu_killed:
            return 'did not terminate (CPU budget used up)'
        if self.rc < 0:
            try:
                return 'killed by ' + signal.Signals(-self.rc).name
            except ValueError:
                return 'killed by signal %d' % -self.rc
        return 'exit status %d' % self.rc


def run(cmd, cwd, env=None, cpu=20, mem=None, input=b'', stdin=None, maxout=32 << 20, keepfds=(), stack=None):
    """Run a command under a CPU-time budget (not a wall-clock one); capture output in files."""
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        si = stdin
        tmp = None
        if si is None:
            tmp = tempfile.TemporaryFile()
            tmp.write(input)
            tmp.seek(0)
            si = tmp

        # a tiny launcher sets the limits: preexec_fn would make every fork copy this process
        lim = ['/usr/bin/prlimit', '--cpu=%d:%d' % (cpu, cpu + 2), '--core=0', '--fsize=%d' % maxout]
        if mem:
            lim.append('--as=%d' % mem)
        if stack:
            lim.append('--stack=%d' % stack)
        p = subprocess.Popen(lim + ['--'] + list(cmd), cwd=cwd, env=env or ENV, stdin=si, stdout=fo, stderr=fe,
                             start_new_session=True, pass_fds=keepfds)
        killed = False
        try:
            p.wait(timeout=600)   # safety net against a blocked child; reported as such
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            killed = True
        if tmp:
            tmp.close()
        fo.seek(0)
        fe.seek(0)
        out, err = fo.read(), fe.read(1 << 20)
    rc = p.returncode
    if rc in (-signal.SIGXCPU,):
        killed = True
    return RunResult(rc, out, err, killed, rc == -signal.SIGXFSZ)


class Outcome:
    """What one task observed."""

    def __init__(self):
        self.stats = Counter()
        self.seen = set()        # distinct non-trivial behaviours observed
        self.violations = []     # dicts: key, what, files{name: bytes}
        self.samples = []

    def violate(self, key, what, files=None):
        self.violations.append({'key': key, 'what': what, 'files': files or {}})


class Check:
    """One property check: a list of tasks executed in parallel, then a verdict."""

    def __init__(self, prop, tier, seed, level, rule, assumptions=()):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.scratch = Scratch(prop)
        self.t0 = time.time()
        self.total = Outcome()
        self.ntasks = 0
        self.skipped = 0
        self.extra = {}

    def rng(self, *key):
        return rng(self.prop, self.seed, *key)

    def run_tasks(self, fn, tasks, workers=NPROC, stop_after=5):
        """fn(task) -> Outcome, run in a process pool."""
        self.ntasks += len(tasks)
        if not tasks:
            return
        with ProcessPoolExecutor(max_workers=workers) as ex:
            futs = {}
            it = iter(tasks)
            pending = set()

            def feed():
                while len(pending) < workers * 3:
                    try:
                        t = next(it)
                    except StopIteration:
                        return
                    f = ex.submit(_guard, fn, t)
                    futs[f] = t
                    pending.add(f)
            feed()
            stop = False
            while pending:
                for f in as_completed(list(pending)):
                    pending.discard(f)
                    o = f.result()
                    if isinstance(o, str):
                        raise HarnessError('task %r failed:\n%s' % (futs[f], o))
                    self.merge(o)
                    if len(self.total.violations) >= stop_after:
                        stop = True
                    if time.time() - self.t0 > SOFT_DEADLINE:
                        stop = True
                    if not stop:
                        feed()
                    break
            left = sum(1 for _ in it)
            self.skipped += left

    def merge(self, o):
        self.total.stats.update(o.stats)
        self.total.seen |= o.seen
        self.total.violations += o.violations
        if len(self.total.samples) < 8:
            self.total.samples += o.samples[:8 - len(self.total.samples)]

    def finish(self, evaluations_stat, min_evaluations=1):
        """Write evidence, report, and return the exit status."""
        known = load_known(self.prop)
        t = self.total
        real, listed = [], {}
        for v in t.violations:
            k = known_match(known, v)
            if k is not None:
                listed.setdefault(k['key'], (k, v))
            else:
                real.append(v)
        evals = t.stats[evaluations_stat]
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'wall_s': round(time.time() - self.t0, 2),
            'coverage': {
                'evaluations': int(evals),
                'distinct_nontrivial': len(t.seen),
                'rule': self.rule,
                'samples': [str(s)[:400] for s in (t.samples or sorted(map(str, t.seen))[:8])],
                'observed': {k: int(v) for k, v in sorted(t.stats.items())},
                'tasks': self.ntasks, 'tasks_skipped_by_deadline': self.skipped,
            },
            'violations': len(real),
            'assumptions': self.assumptions,
        }
        ev['coverage'].update(self.extra)
        if real:
            ev['coverage']['violation_samples'] = [v['what'][:1000] for v in real[:5]]
        if listed:
            ev['known_findings'] = sorted(listed)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        for k in sorted(listed):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, listed[k][0]['what']))
        rc = 0
        if real:
            rc = 1
            for n, v in enumerate(real[:5]):
                d = os.path.join(VERIF, 'replays', self.prop, '%d' % n)
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                for name, data in v['files'].items():
                    if isinstance(data, str):
                        data = data.encode('utf-8', 'surrogateescape')
                    if data is None:
                        continue
                    with open(os.path.join(d, name.replace('/', '_')), 'wb') as f:
                        f.write(data)
                with open(os.path.join(d, 'WHAT.txt'), 'w') as f:
                    f.write('property %s, seed %d, tier %s\nkey: %s\n%s\n' % (
                        self.prop, self.seed, self.tier, v['key'], v['what']))
                print(v['what'][:1500])
                print('VIOLATION property=%s replay=%s' % (self.prop, d))
        elif evals < min_evaluations or not t.seen:
            print('ERROR property=%s: the monitors observed nothing (%d evaluations)' % (self.prop, evals))
            rc = 2
        print('%s %s seed=%d: %s=%d distinct=%d violations=%d known=%d wall=%.1fs' % (
            self.prop, self.tier, self.seed, evaluations_stat, evals, len(t.seen), len(real),
            len(listed), time.time() - self.t0))
        for k, v in sorted(t.stats.items()):
            print('   %-40s %d' % (k, v))
        self.scratch.close()
        return rc


def _guard(fn, t):
    try:
        return fn(t)
    except Exception:
        return traceback.format_exc()


def rng(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', []) if k.get('property') == prop]


def known_match(known, v):
    for k in known:
        if k['key'] == v['key']:
            return k
    return None
