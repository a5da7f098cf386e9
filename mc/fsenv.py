"""Controlled file-system environment: directory listings in a chosen order, and scratch directories."""
import contextlib
import itertools
import os
import shutil
import tempfile

_real_scandir, _real_listdir = os.scandir, os.listdir


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _reorder(names, perm):
    """perm is a sequence of ranks; entry i of the sorted listing goes to position perm[i % len]..."""
    names = sorted(names)
    n = len(names)
    if perm == "rev":
        return names[::-1]
    if perm == "sorted" or perm is None:
        return names
    order = [p for p in perm if p < n] + [i for i in range(n) if i not in perm]
    return [names[i] for i in order]


@contextlib.contextmanager
def listing_order(root, perm):
    """Every directory below ``root`` is listed in the order given by ``perm``."""
    root = os.path.abspath(str(root))

    def inside(p):
        return os.path.abspath(os.fspath(p) if not isinstance(p, int) else "/proc").startswith(root)

    def scandir(path="."):
        if isinstance(path, int) or not inside(path):
            return _real_scandir(path)
        with _real_scandir(path) as it:
            ents = {e.name: e for e in it}
        return _Scan([ents[n] for n in _reorder(ents, perm)])

    def listdir(path="."):
        if isinstance(path, int) or not inside(path):
            return _real_listdir(path)
        return _reorder(_real_listdir(path), perm)

    os.scandir, os.listdir = scandir, listdir
    try:
        yield
    finally:
        os.scandir, os.listdir = _real_scandir, _real_listdir


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif_mc_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def perms(n):
    return list(itertools.permutations(range(n)))
