"""Building and running generated programs, and comparing event logs."""
import os
import struct

from .common import run

M64 = (1 << 64) - 1


def parse_log(data):
    """Observer log -> (events, end record or None, garbage?)"""
    n = len(data) // 8
    words = struct.unpack('<%dq' % n, data[:n * 8])
    evs = []
    i = 0
    end = None
    while i < n:
        k = words[i]
        if k == -1:
            if i + 1 < n:
                end = words[i + 1]
            i += 2
            continue
        if k < 0 or k > 64 or i + 1 + k > n:
            return evs, end, True
        evs.append(tuple(words[i + 1:i + 1 + k]))
        i += k + 1
    return evs, end, len(data) % 8 != 0


def compile_b(tc, cwd, srcs, out, flags=(), link=True, extra=(), cpu=60):
    cmd = [tc.blang] + list(flags)
    if link:
        cmd += ['-L', tc.rt]
    cmd += ['-o', out] + list(srcs) + list(extra)
    return run(cmd, cwd, env=tc.env, cpu=cpu)


def first_difference(exp, got):
    for i, (a, b) in enumerate(zip(exp, got)):
        if a != b:
            return i, 'event %d: expected %r, observed %r' % (i, a, b)
    if len(exp) != len(got):
        i = min(len(exp), len(got))
        return i, 'expected %d events, observed %d; next expected %r, next observed %r' % (
            len(exp), len(got), exp[i] if i < len(exp) else None, got[i] if i < len(got) else None)
    return None


def judge(expect, r):
    """Compare a run with the reference (trace, return value). Returns a complaint or None."""
    trace, ret = expect
    evs, end, garbage = parse_log(r.out)
    d = first_difference(trace, evs)
    if d:
        return '%s (%s)' % (d[1], r.describe())
    if r.cpu_killed or r.rc != (ret & 255):
        return 'expected exit status %d, observed: %s' % (ret & 255, r.describe())
    if garbage:
        return 'unexpected output'
    return None
