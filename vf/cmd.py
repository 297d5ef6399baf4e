"""Command lines of blang over files of every kind, for the driver properties."""
import os
import shutil

from .batch import G
from .common import HarnessError, run, sh
from .fs import put

MODES = {'ll': ['--emit-llvm'], 's': ['-S', '--assemble'], 'o': ['-c', '--compile'], '': []}
ACCEPTS = {'ll': ['.b'], 's': ['.b', '.ll'], 'o': ['.b', '.ll', '.s'], '': ['.b', '.ll', '.s', '.o', '.a']}
STEMS = ['a', 'prog', 'v1.2', 'my file', 'UPPER', 'x_y-z', 'x.b', 'x.tmp', 'é', 'a.tmp', 'file.with.dots', '0', 'l' * 60,
         'o', 'c', 'out', 'tmp.0', 'tab\there', 'dollar$x', 'a=b', "quote'x", 'star*', 'x,y', '#h', 'ünï', '.hidden', '%d']
DIRS = ['', '', '', 'sub/', 'sub/deep dir/', './', '../side/', 'sub/../', 'dots.b/']


def unit(tag, callees=(), main=True):
    """A B source whose behaviour tells which file it is."""
    s = 'glob%d %d;\ntext%d[2] "unit %d", 7;\n' % (tag, tag * 3 + 1, tag, tag)
    s += 'fn%d(x) { extrn glob%d, text%d; printf("%%s of file %d: %%d*n", text%d[0], glob%d + x); glob%d =+ 1; return(x + %d); }\n' % (
        tag, tag, tag, tag, tag, tag, tag, tag)
    if main:
        s += 'main() { auto r; r = fn%d(2);%s return(r %% 200); }\n' % (
            tag, ''.join(' r = fn%d(r);' % c for c in callees))
    return s


def behaviour(tag, callees=()):
    """(stdout, status) of a program whose main is in unit tag."""
    out, r = b'', None
    arg = 2
    for t in (tag,) + tuple(callees):
        out += b'unit %d of file %d: %d\n' % (t, t, t * 3 + 1 + arg)
        arg = arg + t
    return out, arg % 200


def blang(args, cwd, env=None, **kw):
    return run([G.tc.blang] + list(args), cwd, env=env or G.tc.env, cpu=60, **kw)


def must(args, cwd):
    r = blang(args, cwd)
    if r.rc != 0:
        raise PrepError('blang %s: %s %s' % (' '.join(args), r.describe(), r.err.decode('latin-1')[:300]))
    return r


class PrepError(Exception):
    """Preparing an input by means of the compiler itself did not work."""


def prepare(tmp, path, source, kind):
    """Put the source, turned into the given kind (.b .ll .s .o .a), at path."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    w = os.path.join(tmp, 'prep')
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    put(os.path.join(w, 'u.b'), source)
    if kind == '.b':
        shutil.copy(os.path.join(w, 'u.b'), path)
        return
    flag = {'.ll': '--emit-llvm', '.s': '-S', '.o': '-c', '.a': '-c'}[kind]
    must([flag, '-o', 'u.out', 'u.b'], w)
    if kind == '.a':
        r = sh(['ar', 'cr', 'u.a', 'u.out'], cwd=w)
        if r.returncode:
            raise HarnessError(r.stderr.decode())
        shutil.copy(os.path.join(w, 'u.a'), path)
    else:
        shutil.copy(os.path.join(w, 'u.out'), path)
    shutil.rmtree(w)
