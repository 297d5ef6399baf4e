"""Directory snapshots: what a command created, changed or removed."""
import hashlib
import os
import stat


def snapshot(root):
    """path -> (kind, mode, size, mtime, digest) of everything below root."""
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, root)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ('link', 0, 0, st.st_mtime_ns, os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ('dir', st.st_mode, 0, 0, '')
            elif stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as f:
                    out[rel] = ('file', st.st_mode, st.st_size, st.st_mtime_ns, hashlib.sha1(f.read()).hexdigest())
            else:
                out[rel] = ('other', st.st_mode, 0, st.st_mtime_ns, '')
    return out


def changes(before, after):
    """(created, removed, altered) relative paths."""
    return (sorted(set(after) - set(before)), sorted(set(before) - set(after)),
            sorted(p for p in before if p in after and before[p] != after[p]))


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode('latin-1'))


def get(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except OSError:
        return None
