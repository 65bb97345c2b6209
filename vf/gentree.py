"""Running capgen without building the result: trees of generated files."""
import os, stat
from . import core, caprun


def write(w, d, skip=()):
    os.makedirs(d, exist_ok=True)
    for k, v in w.files().items():
        p = os.path.join(d, k)
        if k in skip:
            continue
        try:
            with open(p) as f:
                if f.read() == v:
                    continue
        except OSError:
            pass
        with open(p, "w") as f:
            f.write(v)


def tree(d):
    """{relative path: content} of all files below d"""
    res = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as fh:
                res[os.path.relpath(p, d)] = fh.read()
    return res


def times(d):
    res = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            st = os.stat(p)
            res[os.path.relpath(p, d)] = (st.st_mtime_ns, st.st_ino)
    return res


def diff(a, b):
    """Names which differ between two trees, and a sample of the difference"""
    names = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
    txt = ""
    if names:
        k = names[0]
        if k not in a or k not in b:
            txt = "%s exists in only one of them" % k
        else:
            la, lb = a[k].decode(errors="replace").splitlines(), b[k].decode(errors="replace").splitlines()
            for i in range(max(len(la), len(lb))):
                x = la[i] if i < len(la) else "<end>"
                y = lb[i] if i < len(lb) else "<end>"
                if x != y:
                    txt = "%s line %d: %r / %r" % (k, i + 1, x, y)
                    break
    return names, txt
