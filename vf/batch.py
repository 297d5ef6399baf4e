"""Cases: a program, what its event log must be, and the ways to compile it."""
import functools
import hashlib
import os
import shutil
import subprocess

from .common import Check, Outcome, Toolchain, run
from .exec import compile_b, judge, parse_log


class G:
    """Process-wide state, inherited by the forked workers."""
    check = None
    tc = None
    kinds = None
    prop = None
    seed = 1
    tier = 'quick'


def setup(prop, tier, seed, level, rule, assumptions=(), toolchain=True):
    G.prop, G.tier, G.seed = prop, tier, seed
    G.check = Check(prop, tier, seed, level, rule, assumptions)
    if toolchain:
        try:
            G.tc = Toolchain(G.check.scratch)
        except Exception:
            G.check.scratch.close()
            raise
    return G.check


class Case:
    def __init__(self, text, expect=None, flags=(('-O0',), ('-O2',)), judge=None, cpu=20, input=b'',
                 extra_sources=(), mem=None, note=''):
        self.text = text
        self.expect = expect          # (trace, exit value)
        self.flags = [tuple(f) for f in flags]
        self.judge = judge            # judge(events, runresult) -> complaint or None
        self.cpu, self.input, self.mem = cpu, input, mem
        self.extra_sources = list(extra_sources)   # (name, text)
        self.note = note


def segments(trace):
    """Cut a trace into the pieces that belong to separate test functions."""
    cur = []
    for e in trace:
        cur.append(e)
        if e and 1000000 <= e[0] < 1001000:
            yield cur
            cur = []
    if cur:
        yield cur


def digest(x):
    return int.from_bytes(hashlib.sha1(repr(x).encode()).digest()[:6], 'big')


def workdir(name):
    d = os.path.join(G.check.scratch.dir, 'w', name)
    os.makedirs(d, exist_ok=True)
    return d


def run_case(case, name, o):
    """Compile and run a case in all its configurations; record into o."""
    d = workdir(name)
    try:
        with open(os.path.join(d, 'p.b'), 'w', encoding='latin-1') as f:
            f.write(case.text)
        srcs = ['p.b']
        for n, t in case.extra_sources:
            with open(os.path.join(d, n), 'w', encoding='latin-1') as f:
                f.write(t)
            srcs.append(n)
        files = {'p.b': case.text.encode('latin-1')}
        for n, t in case.extra_sources:
            files[n] = t.encode('latin-1')
        for fl in case.flags:
            o.stats['compilations'] += 1
            r = compile_b(G.tc, d, srcs, 'p', fl, extra=[G.tc.obs])
            if r.rc != 0:
                o.violate('%s:compile' % name,
                          '%s (%s) %s: a valid program was not compiled (%s): %s' % (
                              name, case.note, ' '.join(fl), r.describe(), r.err.decode('latin-1')[:600]), files)
                return False
            r = run([os.path.join(d, 'p')], d, env=G.tc.env, cpu=case.cpu, input=case.input, mem=case.mem)
            o.stats['executions'] += 1
            if case.judge is not None:
                evs, end, garbage = parse_log(r.out)
                c = case.judge(evs, r)
            else:
                evs = case.expect[0]
                c = judge(case.expect, r)
            if c:
                files['observed.log'] = r.out[:1 << 20]
                if case.expect is not None:
                    files['expected.txt'] = '\n'.join(map(repr, case.expect[0][:20000]))
                o.violate('%s:%s' % (name, ' '.join(fl)),
                          '%s (%s) %s: %s' % (name, case.note, ' '.join(fl), c), files)
                return False
            o.stats['events_checked'] += len(evs)
            o.stats['log_words'] += sum(map(len, evs))
            for s in segments(evs):
                if len(s) > 1 or len(s[0]) > 2:
                    o.seen.add(digest(s))
        if len(o.samples) < 1:
            o.samples.append('%s %s: %d events, e.g. %r ... from %r' % (
                name, case.note, len(evs), evs[:3], case.text[:120]))
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)


def case_task(spec):
    """spec = (kind, index): build the case and run it."""
    kind, i = spec
    o = Outcome()
    rng = G.check.rng(kind, i)
    cases = G.kinds[kind](rng, i)
    if cases is None:
        o.stats['cases_discarded'] += 1
        return o
    if isinstance(cases, Case):
        cases = [cases]
    for n, c in enumerate(cases):
        o.stats['cases'] += 1
        o.stats['kind_' + kind] += 1
        if not run_case(c, '%s%d.%d' % (kind, i, n), o):
            break
    return o


def run_kinds(kinds, plan):
    """plan: list of (kind, count). Interleave, so that early tasks cover all kinds."""
    G.kinds = kinds
    lists = [[(k, i) for i in range(n)] for k, n in plan]
    total = sum(map(len, lists))
    tasks = []
    # spread every kind evenly
    for li in lists:
        for j, t in enumerate(li):
            tasks.append(((j + 0.5) / len(li), t))
    tasks.sort(key=lambda x: (x[0], x[1]))
    G.check.run_tasks(case_task, [t for _, t in tasks])
    return total


def with_dir(fn):
    """Turn fn(spec, dir, outcome) into a task with a directory of its own."""
    @functools.wraps(fn)
    def f(spec):
        d = workdir('t%x' % digest(spec))
        o = Outcome()
        try:
            fn(spec, d, o)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return o
    return f
