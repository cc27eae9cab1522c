"""System calls on the lock directory: each is a schedule point and a place to die, with owners and file locks.

Files are real (in the run's scratch directory); what a real kernel decides per process is decided here:
which process holds which file lock, whose files may be opened or removed, and what is lost when a process dies.
"""
import builtins
import errno
import fcntl
import io
import os

from . import core

_real = {}


class LockDir:
    def __init__(self, world, path, cost=(1e-6, 3e-4)):
        self.w, self.sim, self.path, self.cost = world, world.sim, path, cost
        self.rng = self.sim.rng("lockdir")
        self.fds = {}          # fd -> (node, (dev, ino))
        self.locks = {}        # (dev, ino) -> {node: (kind, exclusive, fd)}
        self.owner = {}        # path -> uid
        self.faults = []       # (t0, t1, call, errno)
        self.calls = 0
        core.LOCKDIR = self

    def mine(self, p):
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not isinstance(p, (str, os.PathLike)):
            return False
        return os.fspath(p).startswith(self.path + "/")

    # -- every call goes through here first
    def step(self, call):
        n = self.sim.current
        self.calls += 1
        self.sim.tr("lockcall", n.name, call)
        n.sleep(self.rng.uniform(*self.cost))
        k = n.env.get("die_in")
        if k is not None:
            n.env["die_in"] = k - 1
            if k <= 1:
                self.sim.stats["kill_in_lock_call"] += 1
                self.sim.rec("killed-in", call=call)
                n.crash("kill")
                n.park(None)
        for t0, t1, c, e in self.faults:
            if c == call and t0 <= self.sim.now < t1:
                self.sim.stats[f"lockdir_{call}_{errno.errorcode[e]}"] += 1
                n.env["faulted"] = True
                raise OSError(e, os.strerror(e))
        return n

    def after(self):
        n = self.sim.current
        n.sleep(self.rng.uniform(*self.cost))

    def denied(self, n, path, what):
        p = os.fspath(path)
        o = self.owner.get(p)
        if o is not None and n.env.get("uid", 1) not in (0, o) and os.path.lexists(p):
            n.env["faulted"] = True
            raise PermissionError(errno.EACCES, f"Permission denied ({what})", p)

    def opened(self, n, fd, path):
        st = os.fstat(fd)
        self.fds[fd] = (n, (st.st_dev, st.st_ino))
        self.owner.setdefault(os.fspath(path), n.env.get("uid", 1))
        if not any(isinstance(s, _Files) for s in n.sockets):
            n.sockets.append(_Files(self, n))

    def closed(self, fd):
        ent = self.fds.pop(fd, None)
        if ent is None:
            return
        n, key = ent
        h = self.locks.get(key, {}).get(n)
        if h and (h[0] == "posix" or h[2] == fd):
            del self.locks[key][n]

    def lock(self, fd, kind, op):
        n = self.step("lock")
        ent = self.fds.get(fd)
        if ent is None:
            raise OSError(errno.EBADF, "Bad file descriptor")
        key = ent[1]
        table = self.locks.setdefault(key, {})
        if op & fcntl.LOCK_UN:
            table.pop(n, None)
            return
        ex = bool(op & fcntl.LOCK_EX)
        while True:
            if not any(m is not n and m.alive and (ex or h[1]) and h[0] == kind for m, h in table.items()):
                break
            if op & fcntl.LOCK_NB:
                self.sim.stats["lock_refused"] += 1
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            n.sleep(0.01)
        table[n] = (kind, ex, fd)

    def power(self):
        """The machine was switched off: what was not written through may be lost."""
        for f in sorted(os.listdir(self.path)):
            p = os.path.join(self.path, f)
            how = self.rng.choice(["kept", "kept", "empty", "zeroes", "gone"])
            self.sim.stats[f"lock_file_{how}_after_power_loss"] += 1
            if how == "empty":
                _real["open"](p, "wb").close()
            elif how == "zeroes":
                with _real["open"](p, "r+b") as x:
                    size = os.fstat(x.fileno()).st_size
                    x.write(b"\0" * size)
            elif how == "gone":
                _real["unlink"](p)
                self.owner.pop(p, None)


class _Files:
    """The descriptors of a process, closed by the kernel when it ends."""
    def __init__(self, d, n):
        self.d, self.n = d, n

    def os_close(self, how):
        for fd in [fd for fd, (n, _) in self.d.fds.items() if n is self.n]:
            self.d.closed(fd)
        for t in self.d.locks.values():
            t.pop(self.n, None)


class Raw(io.FileIO):
    """A file of the lock directory."""
    sim_node = None

    def _step(self, call):
        d = active()
        if d is not None and d.sim.current is self.sim_node:
            return d.step(call)
        return None

    def readinto(self, b):
        self._step("read")
        return super().readinto(b)

    def readall(self):
        self._step("read")
        return super().readall()

    def read(self, *a):
        self._step("read")
        return super().read(*a)

    def write(self, b):
        self._step("write")
        return super().write(b)

    def truncate(self, *a):
        self._step("truncate")
        return super().truncate(*a)

    def close(self):
        if not self.closed:
            self._step("close")
            d = active()
            if d is not None and self.sim_node is not None and self.sim_node.alive:
                d.closed(self.fileno())
        super().close()


def active():
    d = getattr(core, "LOCKDIR", None)
    s = core.ACTIVE
    if d is None or s is None or d.sim is not s:
        return None
    n = s.current
    return d if n is not None and n is not s.main else None


def install():
    if _real:
        return
    _real.update(open=builtins.open, os_open=os.open, close=os.close, stat=os.stat, unlink=os.unlink, remove=os.remove, rename=os.rename, replace=os.replace, link=os.link,
                 flock=fcntl.flock, lockf=fcntl.lockf, fcntl=fcntl.fcntl, write=os.write, read=os.read, ftruncate=os.ftruncate, lstat=os.lstat, access=os.access)

    def open_(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        d = active()
        is_fd = isinstance(file, int)
        if d is None or not ((is_fd and file in d.fds) or (not is_fd and d.mine(file))):
            return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not is_fd:
            n = d.step("open")
            if set(mode) & set("wax+"):
                d.denied(n, file, "open")
        else:
            n = d.sim.current
        plain = mode.replace("b", "").replace("t", "")
        raw = Raw(file, plain, closefd, opener)
        raw.sim_node = n
        if not is_fd:
            d.opened(n, raw.fileno(), file)
        d.after()
        if buffering == 0:
            return raw
        buf = io.BufferedRandom(raw) if "+" in plain else io.BufferedReader(raw) if plain.startswith("r") else io.BufferedWriter(raw)
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        t.mode = mode
        return t

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        d = active()
        if d is None or not d.mine(path):
            return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
        n = d.step("open")
        if flags & (os.O_WRONLY | os.O_RDWR):
            d.denied(n, path, "open")
        fd = _real["os_open"](path, flags, mode)
        d.opened(n, fd, path)
        d.after()
        return fd

    def on_path(name, denies=False):
        real = _real[name]

        def f(path, *a, **kw):
            d = active()
            if d is None or not (d.mine(path) or (a and d.mine(a[0]))):
                return real(path, *a, **kw)
            d.step(name)
            r = real(path, *a, **kw)
            if name in ("unlink", "remove"):
                d.owner.pop(os.fspath(path), None)
            if name in ("rename", "replace", "link"):
                o = d.owner.get(os.fspath(path))
                if o is not None:
                    d.owner[os.fspath(a[0])] = o
                if name != "link":
                    d.owner.pop(os.fspath(path), None)
            d.after()
            return r
        return f

    def on_fd(name):
        real = _real[name]

        def f(fd, *a, **kw):
            d = active()
            if d is None or fd not in d.fds:
                return real(fd, *a, **kw)
            d.step({"ftruncate": "truncate"}.get(name, name))
            if name == "close":
                d.closed(fd)
            return real(fd, *a, **kw)
        return f

    def fileno(f):
        return f if isinstance(f, int) else f.fileno()

    def flock(fd, op):
        d = active()
        if d is None or fileno(fd) not in d.fds:
            return _real["flock"](fd, op)
        return d.lock(fileno(fd), "bsd", op)

    def lockf(fd, op, *a):
        d = active()
        if d is None or fileno(fd) not in d.fds:
            return _real["lockf"](fd, op, *a)
        return d.lock(fileno(fd), "posix", op)

    builtins.open = io.open = open_
    os.open = os_open
    os.close, os.write, os.read, os.ftruncate = on_fd("close"), on_fd("write"), on_fd("read"), on_fd("ftruncate")
    for k in ("stat", "lstat", "access", "unlink", "remove", "rename", "replace", "link"):
        setattr(os, k, on_path(k))
    fcntl.flock, fcntl.lockf = flock, lockf
