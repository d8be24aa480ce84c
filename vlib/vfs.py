"""Virtual paths: open('/virt/...') inside the library yields a TraceFile kept here."""
import builtins
import io
import os
import threading

from .vfile import TraceFile, RawFault



class _PerThread(threading.local):
    """each thread has its own virtual files, as each case has"""

    def __init__(self):
        self.files = {}


_local = _PerThread()


class _Files(object):
    def __getattr__(self, name):
        return getattr(_local.files, name)

    def __getitem__(self, k):
        return _local.files[k]

    def __setitem__(self, k, v):
        _local.files[k] = v


FILES = _Files()
BUFFERED = set()        # paths that get the standard library's buffering
PREFIX = "/verif-virtual/"
_real = io.open


def _open(path, mode="r", *a, **k):
    if isinstance(path, os.PathLike):
        path = os.fspath(path)
    if isinstance(path, str) and "verif-virtual" in path:
        path = os.path.abspath(path)
    if isinstance(path, str) and path.startswith(PREFIX):
        tf = FILES.get(path)
        if "w" in mode:
            if tf is None:
                tf = FILES[path] = TraceFile()
            tf.truncate_raw()
        elif tf is None:
            raise FileNotFoundError(path)
        tf.closed = False
        tf.pos = 0
        tf.readonly = not ("w" in mode or "+" in mode)
        tf.mode = mode
        if path in BUFFERED:
            raw = RawFault(tf, not tf.readonly)
            return io.BufferedReader(raw) if tf.readonly else io.BufferedRandom(raw)
        return tf
    return _real(path, mode, *a, **k)


def install():
    if io.open is not _open:
        io.open = _open
        builtins.open = _open


def new(name, data=None):
    p = PREFIX + name
    FILES[p] = TraceFile(data)
    return p


def put(name, data):
    p = PREFIX + name
    FILES[p] = TraceFile(data)
    return p


def get(path):
    return FILES[path]


def clear():
    FILES.clear()
    BUFFERED.clear()


install()
