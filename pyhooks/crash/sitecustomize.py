# Ends the process at the VF_CRASH-th operation that changes the file system
import builtins, os
_n = int(os.environ.get("VF_CRASH", "0"))
_log = os.environ.get("VF_CRASHLOG")
_ops = 0


def _op(name, after):
    global _ops
    _ops += 1
    if _ops == _n:
        os._exit(79)


def _wrap(mod, name):
    f = getattr(mod, name)

    def g(*a, **k):
        _op(name, False)
        return f(*a, **k)
    setattr(mod, name, g)


for _x in ("replace", "rename", "remove", "unlink", "mkdir", "rmdir", "makedirs", "removedirs"):
    _wrap(os, _x)
_open = builtins.open


class _W:
    """A file opened for writing whose writes also count"""
    def __init__(self, f):
        self._f = f

    def write(self, s):
        global _ops
        _ops += 1
        if _ops == _n:
            self._f.write(s[:len(s) // 2])
            self._f.flush()
            os._exit(79)
        return self._f.write(s)

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __iter__(self):
        return iter(self._f)


def open(file, mode="r", *a, **k):
    f = _open(file, mode, *a, **k)
    if isinstance(mode, str) and any(c in mode for c in "wax+") and isinstance(file, (str, bytes, os.PathLike)) \
            and str(file) != os.devnull:
        _op("open", True)
        if "b" not in mode:
            return _W(f)
    return f


if _n:
    builtins.open = open
