"""The C++ log shipper as a simulated process, its log writers and its collector."""
import ctypes
import errno
import glob
import json
import os
import shutil
import subprocess
import sys

from . import core, disk, loader

SYMS = ["open", "open64", "read", "pread", "stat", "lstat", "fstat", "lseek", "close", "opendir", "readdir", "inotify_init1", "inotify_add_watch", "select", "poll",
        "epoll_wait", "nanosleep", "clock_nanosleep", "usleep", "sleep", "time", "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv",
        "curl_easy_init", "curl_easy_setopt", "curl_easy_perform", "curl_easy_getinfo", "curl_easy_cleanup", "sqlite3_step", "sqlite3_exec", "exit", "_exit", "abort"]
KINDS = {1: "open", 2: "read", 3: "stat", 4: "fstat", 5: "lseek", 6: "close", 7: "opendir", 8: "readdir", 9: "inotify", 10: "wait", 11: "post", 12: "sql", 13: "end", 14: "sleep", 15: "now"}
HOOK = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_void_p, ctypes.c_long, ctypes.c_long)
LIB = None


def build(scratch):
    """Compile the shipper of the working tree with its main renamed, behind the seam."""
    global LIB
    src = os.path.join(loader.REPO, "ekosis_log_shipper", "src")
    here = os.path.dirname(os.path.abspath(__file__))
    files = sorted(glob.glob(os.path.join(src, "**", "*.cpp"), recursive=True)) + [os.path.join(here, "shipper_shim.cpp")]
    out = os.path.join(scratch, "shipper")
    os.makedirs(out, exist_ok=True)
    flags = ["-std=c++20", "-O1", "-g0", "-fPIC", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-I", src]
    jobs = []
    for i, f in enumerate(files):
        o = os.path.join(out, f"{i}.o")
        jobs.append((f, o, subprocess.Popen(["g++", *flags, *([] if f.startswith(here) else ["-Dmain=shipper_main"]), "-c", f, "-o", o], stderr=subprocess.PIPE)))
    objs = []
    for f, o, p in jobs:
        err = p.communicate()[1]
        if p.returncode:
            raise RuntimeError(f"{f} does not compile:\n{err.decode(errors='replace')[:3000]}")
        objs.append(o)
    LIB = os.path.join(out, "shipper.so")
    subprocess.run(["g++", "-shared", "-o", LIB, *objs, *[f"-Wl,--wrap={s}" for s in SYMS], "-lSQLiteCpp", "-lsqlite3", "-lcurl"], check=True)


class Shipper:
    """One incarnation after another of the shipper process, on one log directory and state database."""

    def __init__(self, world, directory, collector, cost=(5e-6, 4e-4)):
        self.w, self.sim, self.dir, self.collector = world, world.sim, directory, collector
        self.cost = cost
        self.rng = self.sim.rng("shipper")
        self.inc = 0
        self.node = None
        self.waits = []           # (time, incarnation) of every wait for activity
        self.kill_at = None       # (kind, count): die in that call
        self.faults = []          # (t0, t1, kind, errno, probability)
        self.ended = []           # (incarnation, why)
        self.db = f"{disk.PREFIX}shipper/state.sqlite"
        self.short_p = 0.0
        self.libs = []
        self.opened, self.watched = set(), set()     # paths opened / being watched (opened, and then got on with its work)

    def start(self):
        self.inc += 1
        self.opened, self.last_open = set(), None
        disk.unfreeze(f"{disk.PREFIX}shipper/")
        n = core.Node(self.sim, "shipper", self._main, ["shipper"], {}, disk=f"{disk.PREFIX}shipper/")
        n.env["inc"] = self.inc
        self.node = n
        n.start()

    def kill(self):
        if self.node and self.node.alive:
            self.sim.stats["shipper_kill"] += 1
            self.sim.rec("kill", inc=self.inc)
            self.node.crash("kill")

    def poke(self):
        """The file system has changed."""
        n = self.node
        if n is not None and n.alive and n.env.get("waiting"):
            n.kick()

    def _main(self, node):
        path = f"{LIB}.{self.w.incarnation.setdefault('lib', 0)}.{os.path.basename(self.w.tmp)}"
        self.w.incarnation["lib"] += 1
        shutil.copyfile(LIB, path)
        lib = ctypes.CDLL(path)
        os.unlink(path)
        lib.shipper_error.restype = ctypes.c_char_p
        inc = self.inc

        def hook(kind, text, a, b):
            try:
                return self._hook(node, inc, KINDS[kind], text, a, b)
            except core.SimKill:
                raise
            except BaseException as e:     # noqa
                import traceback
                self.sim.error = ("harness", "".join(traceback.format_exception(e)))
                return 0
        cb = HOOK(hook)
        args = (ctypes.c_char_p * 5)(b"shipper", self.dir.encode(), b"http://collector:3100/otlp/v1/logs", self.db.encode(), None)
        self.libs.append((lib, cb, args))
        rc = lib.shipper_run(cb, 4, args)
        self._over(inc, f"{lib.shipper_error().decode(errors='replace')} (status {rc})")

    def _over(self, inc, why):
        self.ended.append((inc, why))
        self.sim.rec("ended", inc=inc, why=why[:200])

    def _hook(self, node, inc, kind, text, a, b):
        sim = self.sim
        if kind == "now":
            return int((node.wall() if a else node.mono()) * 1e6)
        s = ctypes.string_at(text) if text and kind != "post" else None
        if self.kill_at and self.kill_at[0] == kind:
            self.kill_at[1] -= 1
            if self.kill_at[1] <= 0:
                self.kill_at = None
                sim.stats[f"kill_in_{kind}"] += 1
                self.kill()
        if kind == "end":
            self._over(inc, s.decode(errors="replace"))
            node._gone("exit")
            node.crashed = True
            node.park(None)
        if kind in ("wait", "post"):
            self.watched |= self.opened
        if kind == "wait":
            return self._wait(node, inc, a, b)
        if kind == "sleep":
            node.sleep(a / 1e6)
            return 0
        d = self.rng.uniform(*self.cost)
        if kind == "post":
            return self._post(node, inc, ctypes.string_at(text, a), b)
        node.sleep(d)
        for t0, t1, k, e, p in self.faults:
            if k == kind and t0 <= sim.now < t1 and self.rng.random() < p:
                if kind == "open" and s is not None and self.dir.encode() not in s:
                    continue
                sim.stats[f"fault_{kind}_{errno.errorcode.get(e, e)}"] += 1
                if kind == "fstat":          # it could not take up the file it has just opened
                    self.opened.discard(self.last_open)
                return e
        if kind == "open" and os.path.exists(s):
            self.last_open = s.decode(errors="replace")
            self.opened.add(self.last_open)
        if kind == "read" and b > 4096 and self.short_p and self.rng.random() < self.short_p:
            sim.stats["short_read"] += 1
            return -self.rng.choice([1, 7, 100, 1000])
        return 0

    def _wait(self, node, inc, us, first):
        sim = self.sim
        if first:
            self.waits.append((sim.now, inc))
            sim.tr("wait", inc)
            node.env["deadline"] = None if us == -1 else sim.now + us / 1e6
            if us == 0:
                node.sleep(self.rng.uniform(*self.cost))
                return 0
        end = node.env["deadline"]
        if end is not None and sim.now >= end:
            return 0
        for t0, t1, k, e, p in self.faults:
            if k == "wait" and t0 <= sim.now < t1 and self.rng.random() < p:
                sim.stats["wait_interrupted"] += 1
                node.sleep(self.rng.uniform(0.001, 0.2))
                return -1
        node.env["waiting"] = True
        node.park(end)
        node.env["waiting"] = False
        return 1 if end is None or sim.now < end else 0

    def _post(self, node, inc, text, timeout_ms):
        url, _, body = text.partition(b"\n")
        rc, code, delay, process = self.collector.decide(self.sim.now, body)
        if delay is None or (timeout_ms and delay * 1000 > timeout_ms):
            if not timeout_ms:
                self.sim.rec("hung-post", inc=inc)
                node.park(None)        # it never comes back
                return 0
            delay, rc, code = timeout_ms / 1000, 28, 0
        t0 = self.sim.now
        node.sleep(delay)
        ok = rc == 0 and 200 <= code < 300
        self.collector.got(t0, self.sim.now, inc, url, body, ok, rc, code, process)
        return rc | code << 8


class Collector:
    """Scripted OTLP endpoint. windows: [t0, t1, mode, parameter]."""

    def __init__(self, world, windows):
        self.w, self.sim, self.windows = world, world.sim, windows
        self.rng = self.sim.rng("collector")
        self.posts = []
        self.poison = None        # (text, outcome): what contains it is never accepted

    def decide(self, t, body):
        """-> (curl code, http status, seconds or None for never, whether the collector takes it in)."""
        if self.poison is not None and self.poison[0] in body:
            self.sim.stats["collector_never_this_file"] += 1
            return self.poison[1]
        for t0, t1, mode, x in self.windows:
            if t0 <= t < t1:
                self.sim.stats[f"collector_{mode}"] += 1
                if mode == "status":
                    return 0, x, self.rng.uniform(0.0005, 0.02), False
                if mode == "refuse":
                    return 7, 0, self.rng.uniform(0.0001, 0.01), False
                if mode == "hang":
                    return 0, 200, None, False
                if mode == "late":           # takes it in, answers too late
                    return 0, 200, 1e6, True
                if mode == "cut":            # takes it in, the answer is cut off after the status line
                    return 56, 200, self.rng.uniform(0.0005, 0.02), True
                if mode == "slow":
                    return 0, 200, x, True
                if mode == "flaky":
                    if self.rng.random() < x:
                        return 0, self.rng.choice([500, 503, 429, 400, 302]), self.rng.uniform(0.0005, 0.02), False
        return 0, self.rng.choice([200, 200, 204, 202]), self.rng.uniform(0.0005, 0.01), True

    def got(self, t0, t1, inc, url, body, ok, rc, code, process):
        p = {"t0": t0, "t": t1, "inc": inc, "ok": ok, "rc": rc, "code": code, "records": None, "url": url.decode(errors="replace")}
        try:
            p["records"] = parse_payload(json.loads(body.decode("utf-8")))
        except (ValueError, KeyError, TypeError, AttributeError) as e:
            self.w.violate("payload", f"the collector was sent something that is not an OTLP logs payload ({type(e).__name__}: {e}): {body[:300]!r}")
            p["records"] = []
        self.posts.append(p)
        self.sim.rec("post", inc=inc, ok=ok, rc=rc, code=code, n=len(p["records"]))


def parse_payload(d):
    out = []
    for rl in d["resourceLogs"]:
        res = {a["key"]: next(iter(a["value"].values())) for a in rl["resource"]["attributes"]}
        for sl in rl["scopeLogs"]:
            for r in sl["logRecords"]:
                out.append({"service": (res.get("service.name"), res.get("service.instance.id")), "time": int(r["timeUnixNano"]), "sev": r["severityNumber"], "sevtext": r["severityText"],
                            "body": r["body"]["stringValue"], "attrs": {a["key"]: next(iter(a["value"].values())) for a in r.get("attributes", [])},
                            "trace": r.get("traceId"), "span": r.get("spanId")})
    return out


class Writer:
    """One application's log file with RotatingFileHandler's rotation, one system call per step."""

    def __init__(self, world, directory, name, keep, shipper, gap=(1e-6, 3e-4)):
        self.shipper = shipper
        on_change = shipper.poke
        self.w, self.sim, self.keep, self.on_change, self.gap = world, world.sim, keep, on_change, gap
        self.path = os.path.join(directory, name)
        self.rng = self.sim.rng("writer/" + name)
        self.queue = []
        self.busy = False
        self.fd = None
        self.gen = {}             # fd/ino -> lines written to it
        self.current = None       # list of line indexes in the file being written
        self.where = {}           # path -> list of lines in the file there
        self.lost = set()         # lines whose file was deleted or cut before they were delivered
        self.done_at = 0.0

    def add(self, *steps):
        self.queue.extend(steps)
        if not self.busy:
            self.busy = True
            self.sim.after(self.rng.uniform(*self.gap), self._step)

    def _step(self):
        if not self.queue:
            self.busy = False
            return
        st = self.queue.pop(0)
        try:
            st()
        except OSError as e:
            self.sim.rec("writer-error", e=str(e))
        self.sim.tr("fs", self.path.rsplit("/", 1)[1], getattr(st, "__name__", "?"))
        self.done_at = self.sim.now
        self.on_change()
        self.sim.after(self.rng.uniform(*self.gap), self._step)

    # -- single system calls
    def open(self):
        if self.fd is None:
            self.fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
            self.current = self.where.setdefault(self.path, [])
            if os.fstat(self.fd).st_size == 0:
                self.stamp()

    def stamp(self):
        """Times of change are simulated times."""
        t = core.WALL_BASE + self.sim.now
        os.utime(self.fd, (t, t))

    def close(self):
        if self.fd is not None:
            os.close(self.fd)
            self.fd = None

    def write(self, data, line=None):
        def write():
            self.open()
            os.write(self.fd, data)
            self.stamp()
            if line is not None:
                self.current.append(line)
        return write

    def line(self, data, index, cuts=()):
        """data ends with a newline; written in pieces at the given positions."""
        cuts = sorted({c for c in cuts if 0 < c < len(data)})
        parts = [data[a:b] for a, b in zip([0, *cuts], [*cuts, len(data)])]
        self.add(*[self.write(p, index if i == len(parts) - 1 else None) for i, p in enumerate(parts)])

    def rename(self, a, b):
        def rename():
            if os.path.exists(a):
                if os.path.exists(b):
                    os.remove(b)
                    self.lost.update(self.where.pop(b, []))
                os.rename(a, b)
                self.where[b] = self.where.pop(a, [])
                if self.path not in self.shipper.watched:
                    self.lost.update(self.where[b])     # rotated away before the shipper knew of it
        return rename

    def rotate(self):
        def plan():
            steps = [self.close]
            for i in range(self.keep - 1, 0, -1):
                if os.path.exists(f"{self.path}.{i}"):
                    steps.append(self.rename(f"{self.path}.{i}", f"{self.path}.{i + 1}"))
            steps += [self.rename(self.path, f"{self.path}.1"), self.open]
            self.queue[:0] = steps
        self.add(plan)
