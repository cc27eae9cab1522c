"""ctypes front of simvfs (the simulated disk under SQLite)."""
import ctypes
import os
import subprocess
import tempfile

PREFIX = "/simdisk/"
OPEN, READ, WRITE, SYNC, TRUNC, DEL = 1, 2, 4, 8, 16, 32
ANYWRITE = WRITE | SYNC | TRUNC | DEL
IOERR, FULL, CRASH_BEFORE, CRASH_TORN, CRASH_AFTER = 1, 2, 3, 4, 5
ACTIONS = {"ioerr": IOERR, "full": FULL, "crash_before": CRASH_BEFORE, "crash_torn": CRASH_TORN, "crash_after": CRASH_AFTER}

_lib = None
_cb_ref = None


def build(outdir):
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "simvfs.c")
    out = os.path.join(outdir, "simvfs.so")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", out, src, "-lsqlite3"], check=True)
    return out


def load(path):
    global _lib
    import sqlite3  # noqa: same libsqlite3 as the module under test
    lib = ctypes.CDLL(path)
    lib.simvfs_count.restype = ctypes.c_int64
    lib.simvfs_seed.argtypes = [ctypes.c_uint64]
    lib.simvfs_powerloss.argtypes = [ctypes.c_char_p, ctypes.c_uint64, ctypes.c_int, ctypes.c_int]
    lib.simvfs_fault.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    for n in ("simvfs_kill", "simvfs_unfreeze"):
        getattr(lib, n).argtypes = [ctypes.c_char_p]
    if lib.simvfs_init() != 0:
        raise RuntimeError("simvfs_init failed")
    _lib = lib


def seed(s):
    _lib.simvfs_seed(s & (2**64 - 1))


def kill(prefix):
    _lib.simvfs_kill(prefix.encode())


def unfreeze(prefix):
    _lib.simvfs_unfreeze(prefix.encode())


def powerloss(prefix, seed_, keep=300, torn=500):
    return _lib.simvfs_powerloss(prefix.encode(), seed_ & (2**64 - 1), keep, torn)


def fault(prefix, mask, countdown, action, sticky=0):
    return _lib.simvfs_fault(prefix.encode(), mask, countdown, action, sticky)


def fired(i):
    return _lib.simvfs_fault_fired(i)


def clear(i):
    _lib.simvfs_fault_clear(i)


def clear_all():
    _lib.simvfs_faults_clear_all()


def set_callback(fn):
    global _cb_ref
    proto = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_int)
    _cb_ref = proto(fn)
    _lib.simvfs_callback(_cb_ref)


def count(i):
    return int(_lib.simvfs_count(i))
