# Permutes the order in which the file system enumerates directories
import os, glob, random
_r = random.Random(int(os.environ.get("VF_SHUFFLE", "1")))
_listdir, _scandir = os.listdir, os.scandir


def listdir(*a, **k):
    x = sorted(_listdir(*a, **k))
    _r.shuffle(x)
    return x


class _Scan:
    def __init__(self, it):
        with it:
            self.x = sorted(it, key=lambda e: os.fspath(e.name))
        _r.shuffle(self.x)
        self.i = iter(self.x)

    def __iter__(self):
        return self.i

    def __next__(self):
        return next(self.i)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def scandir(*a, **k):
    return _Scan(_scandir(*a, **k))


os.listdir, os.scandir = listdir, scandir
