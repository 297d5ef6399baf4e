"""Sanitized builds of the runtime, and the oracle for its formatted output."""
import os
import shutil
import struct

from .common import HarnessError, SUPPORT, sh
from .lang import wrap

CONFIGS = {
    'gcc-asan': ['gcc', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'clang-asan': ['clang', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'clang-msan': ['clang', '-O1', '-fsanitize=memory', '-fno-sanitize-recover=all'],
}


def build_sanitized(tc, scratch):
    """Returns {config: executable}."""
    out = {}
    for name, cc in CONFIGS.items():
        src = os.path.join(scratch.dir, 'rt-' + name)
        shutil.copytree(tc.rt, src, ignore=lambda d, fs: [f for f in fs if f.endswith(('.o', '.a'))])
        files = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith('.c')]
        exe = os.path.join(scratch.dir, 'rtd-' + name)
        base = cc + ['-g', '-fno-omit-frame-pointer', '-fno-builtin', '-w']
        standin = os.path.join(src, 'x86_64.h')
        done = False
        if os.path.exists(standin):
            keep = open(standin).read()
            shutil.copy(os.path.join(SUPPORT, 'rt_syscall.h'), standin)
            done = build(base, files, exe).returncode == 0
            if not done:
                with open(standin, 'w') as f:
                    f.write(keep)
        if not done:
            r = build(base, files, exe)
            if r.returncode != 0:
                raise HarnessError('sanitized runtime build (%s) failed:\n%s' % (name, r.stderr.decode()))
        out[name] = (exe, done)
    return out


def objects(tc, scratch, name, cc):
    """Object files of the whole runtime but its entry point, built with the command cc."""
    src = os.path.join(scratch.dir, 'rto-' + name)
    shutil.copytree(tc.rt, src, ignore=lambda d, fs: [f for f in fs if f.endswith(('.o', '.a'))])
    files = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith('.c')]
    base = cc + ['-fno-omit-frame-pointer', '-fno-builtin', '-w']
    standin = os.path.join(src, 'x86_64.h')
    variants = [False]
    if os.path.exists(standin):
        keep = open(standin).read()
        shutil.copy(os.path.join(SUPPORT, 'rt_syscall.h'), standin)
        variants = [True, False]
    for v in variants:
        if not v and len(variants) > 1:
            with open(standin, 'w') as f:
                f.write(keep)
        objs = []
        for f in files:
            o = f[:-2] + '.o'
            r = sh(base + ['-c', '-o', o, f])
            if r.returncode == 0:
                r = sh(['objcopy', '--redefine-sym', '_start=b.rt_start', o])
            if r.returncode != 0:
                break
            objs.append(o)
        else:
            return objs
    raise HarnessError('sanitized runtime build (%s) failed:\n%s' % (name, r.stderr.decode()))


def build(base, files, exe):
    """Compile, with the program's entry point renamed: the driver has its own."""
    objs = []
    for f in files:
        o = f[:-2] + '.o'
        r = sh(base + ['-c', '-o', o, f])
        if r.returncode == 0:
            r = sh(['objcopy', '--redefine-sym', '_start=b.rt_start', o])
        if r.returncode != 0:
            return r
        objs.append(o)
    return sh(base + ['-o', exe, os.path.join(SUPPORT, 'rt_driver.c')] + objs)


def script_call(op, args):
    """args: ints, or (bytes, offset) for a heap block."""
    out = [struct.pack('<qq', op, len(args))]
    for a in args:
        if isinstance(a, tuple):
            out.append(struct.pack('<qqq', 1, a[1], len(a[0])) + a[0])
        else:
            out.append(struct.pack('<qq', 0, wrap(a)))
    return b''.join(out)


def read_results(data, calls):
    """-> list of (op, result, fout, blocks), as far as they go."""
    res, p = [], 0
    for op, args in calls:
        if p + 24 > len(data):
            break
        o, r, fo = struct.unpack_from('<qqq', data, p)
        p += 24
        blocks = []
        for a in args:
            if isinstance(a, tuple):
                if p + 8 > len(data):
                    return res
                n, = struct.unpack_from('<q', data, p)
                blocks.append(data[p + 8:p + 8 + n])
                p += 8 + n
        res.append((o, r, fo, blocks))
    return res


def chars(w):
    """The characters packed in a word, leading zero bytes omitted, at least one byte."""
    b = (w & (1 << 64) - 1).to_bytes(8, 'big').lstrip(b'\0')
    return b or b'\0'


def octal(w):
    return b'%o' % (w & (1 << 64) - 1)


def soctal(w):
    w = wrap(w)
    return b'-%o' % -w if w < 0 else b'%o' % w


def fmt_bytes(fmt, args):
    """What printf writes; string arguments are bytes."""
    out, i, args = bytearray(), 0, list(args)
    while i < len(fmt):
        c = fmt[i:i + 1]
        i += 1
        if c != b'%':
            out += c
            continue
        k = fmt[i:i + 1]
        if k == b'd':
            out += b'%d' % wrap(args.pop(0))
        elif k == b'o':
            out += soctal(args.pop(0))
        elif k == b'c':
            out += chars(args.pop(0))
        elif k == b's':
            out += args.pop(0)
        elif k == b'%':
            out += b'%'
        else:
            out += b'%'
            continue
        i += 1
    return bytes(out)
