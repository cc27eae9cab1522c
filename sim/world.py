"""A simulated deployment: applications (real ekosis code), raw peers, faults."""
import json
import os
import random
import shutil
import signal
import sys
import uuid

from . import core, disk, linefault, loader, loop as simloop, net as simnet

SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")


class World:
    last = None

    def __init__(self, plan, netcfg=None):
        self.plan = plan
        World.last = self
        seed = str(plan["seed"])
        base = plan.get("_tmp") or SCRATCH
        self.tmp = os.path.join(base, f"vsim-{simloop._real['getpid']():08d}")
        for d in ("log", "lock", "uds"):
            os.makedirs(os.path.join(self.tmp, d), exist_ok=True)
        self.sim = core.Sim(seed, self.tmp)
        core.ACTIVE = self.sim
        self.net = simnet.Net(self.sim, netcfg)
        random.seed(seed)
        disk.seed(self.sim.rng("disk").getrandbits(63))
        disk.set_callback(self._disk_crash)
        self.incarnation = {}
        self.violations = []
        self.pending_powerloss = None
        self.cover = set()

    def close(self):
        core.ACTIVE = None
        shutil.rmtree(self.tmp, ignore_errors=True)

    # -- verdicts
    def violate(self, cls, msg):
        self.violations.append({"cls": cls, "msg": msg[:2000]})

    # -- disk crash callback: the process dies inside a disk operation
    def _disk_crash(self, which, op):
        n = self.sim.current
        self.sim.stats["crash_in_disk_op"] += 1
        if n is not None and n is not self.sim.main:
            n.crash("kill")
            if n.env.get("crash_power"):
                self.sim.after(0.0, self.lose_unsynced, n)

    # -- applications
    def app(self, name, setup, instance="0", app_name=None, tcp=None, udp=None, uds=None, env=None,
            wrap=None, argv=(), main=None, host=None, shutdown_hook=None):
        """A new incarnation of application `name` (a fresh simulated process)."""
        app_name = app_name or name
        up = app_name.upper()
        inc = self.incarnation[name] = self.incarnation.get(name, 0) + 1
        e = {
            "ECOENV_LOG_DIR": f"{self.tmp}/log",
            "ECOENV_LOG_LEVEL": "debug",
            "ECOENV_LOCK_DIR": f"{self.tmp}/lock",
            "ECOENV_BUFFER_DIR": f"{disk.PREFIX}{name}",
        }
        if tcp:
            e[f"ECOENV_TCP_{up}_{instance.upper()}"] = f"127.0.0.1:{tcp}"
        if udp:
            e[f"ECOENV_UDP_{up}_{instance.upper()}"] = f"127.0.0.1:{udp}"
        if uds:
            e[f"ECOENV_UDS_{up}_{instance.upper()}"] = f"{self.tmp}/uds/{uds}"
        e.update(env or {})
        node = core.Node(self.sim, name, main or app_main, [f"/sim/{app_name}.py", "-i", instance, "-lfo", *argv], e,
                         host=host or name, disk=f"{disk.PREFIX}{name}/")
        node.env.update(setup=setup, world=self, inc=inc, wrap=wrap)
        disk.unfreeze(f"{disk.PREFIX}{name}/")
        return node

    def key(self, *a):
        return a

    def powerloss(self, node):
        """The machine under `node` loses power."""
        node.crash("power")
        self.lose_unsynced(node)

    def lose_unsynced(self, node):
        r = self.sim.rng("power")
        lost = disk.powerloss(node.disk, r.getrandbits(63), r.choice([0, 300, 700, 1000]), 500)
        self.sim.stats["powerloss"] += 1
        self.sim.stats["unsynced_ops_lost"] += lost

    def line_kill(self, node, count, power=False):
        def act(n):
            self.sim.stats["crash_between_lines"] += 1
            n.crash("power" if power else "kill")
            if power:
                self.sim.after(0.0, self.lose_unsynced, n)
        linefault.arm(node, count, "kill", act)

    def line_signal(self, node, count, sig):
        def act(n):
            self.sim.stats["signal_between_lines"] += 1
            n.signal(sig)
        linefault.arm(node, count, f"signal{int(sig)}", act)


def app_main(node):
    loader.fresh_process(node)
    node.env["setup"](node)
    from ekosis.application_base import ApplicationBase
    wrap = node.env.get("wrap")
    cls = wrap(node, ApplicationBase) if wrap else type("SimApp", (ApplicationBase,), {})
    with cls() as app:
        node.env["app"] = app
        app.start()
    return "ended"


def span_key(i):
    """Deterministic span key number i, as the wire form. The pair is unique; keys of one group (what precedes the last
    "/") often belong to the same trace, as the requests of one call chain do, and some have the same span id."""
    r = random.Random(f"span/{i}")
    own = {"trace_id": str(uuid.UUID(int=r.getrandbits(128), version=4)), "span_id": f"{r.getrandbits(64):016x}"}
    group = str(i).rpartition("/")[0]
    x = r.random()
    if group and x < 0.45:
        part = "trace_id" if x < 0.33 else "span_id"
        own[part] = span_key(f"{group}-common{r.randrange(2)}")[part]
    return own


def sk_str(sk):
    return f"{sk['trace_id']}:{sk['span_id']}"


def request_line(route, sk, data):
    return (json.dumps({"route_key": route, "span_key": sk, "data": data}) + "\n").encode()


class Peer:
    """A raw TCP/UDS client: sends request lines, matches response lines in order."""
    def __init__(self, world, name="peer", key=None):
        self.w = world
        self.owner = simnet.HubOwner(name)
        self.key = key
        self.conn = None
        self.waiting = []

    def call(self, route, sk, data, cb, raw=None):
        """cb(status, data, response) or cb(None, reason, None) when the connection dies."""
        if self.conn is None or self.conn.closed:
            self.conn = simnet.RawConn(self.w.net, self.owner, self.key, on_line=self._line, on_close=self._closed)
        self.waiting.append((self.conn, sk, cb))
        self.conn.send(raw if raw is not None else request_line(route, sk, data))

    def _line(self, conn, line):
        for i, (c, sk, cb) in enumerate(self.waiting):
            if c is conn:
                del self.waiting[i]
                try:
                    r = json.loads(line)
                except ValueError:
                    r = {"status": None, "data": repr(line)}
                cb(r.get("status"), r.get("data"), r)
                return
        self.w.violate("unsolicited-response", f"response without request: {line[:200]!r}")

    def _closed(self, conn, exc):
        dead = [x for x in self.waiting if x[0] is conn]
        self.waiting = [x for x in self.waiting if x[0] is not conn]
        for _, sk, cb in dead:
            cb(None, f"closed:{type(exc).__name__ if exc else 'eof'}", None)


def coro_main(make):
    """Main of a node that runs one coroutine on fresh ekosis code: make(node) -> coroutine."""
    def main(node):
        import asyncio
        loader.fresh_process(node)
        return asyncio.run(make(node))
    return main
