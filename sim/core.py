"""Discrete-event hub: virtual time, seeded scheduling, one runnable thread at a time.

Each simulated process (Node) runs its real `asyncio.run(...)` in its own OS
thread.  A node's thread gives up control only inside the selector of its event
loop (SimLoop), in a simulated time.sleep, or when it ends; the hub then decides
from seeded PRNG streams which event happens next and which node runs.
"""
import _thread
import heapq
import os
import sys
import threading
from collections import Counter
from random import Random

WALL_BASE = 1_700_000_000.0

ACTIVE = None          # the Sim of this process, if any


class HarnessError(Exception):
    """Something is wrong with the harness, not with the code under test."""


class SimKill(BaseException):
    """Unwinds a node that has been killed (only used where unwinding is harmless)."""


class _Main:
    name = "main"
    crashed = False
    finished = False

    def __init__(self):
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.gen = 0
        self.parked = False
        self.stalled_until = 0.0


WAKE = object()


class Sim:
    def __init__(self, seed, tmpdir):
        self.seed = str(seed)
        self.tmpdir = tmpdir
        self.now = 0.0
        self.heap = []
        self.seq = 0
        self._rngs = {}
        self.sched = self.rng("sched")
        self.nodes = {}
        self.history = []
        self.trace = []
        self.trace_on = True
        self.stats = Counter()
        self.current = None
        self.active_node = None
        self.main = _Main()
        self.error = None
        self.steps = 0
        self.max_steps = 3_000_000
        self.quiescent = False
        self.net = None
        self.next_pid = 1000
        self.foreign_pids = set()     # pids of live processes of other users
        self.own_pids = set()         # pids of other live processes of the same user
        self.graveyard = []

    # ---- randomness -------------------------------------------------------
    def rng(self, name):
        r = self._rngs.get(name)
        if r is None:
            r = self._rngs[name] = Random(f"{self.seed}/{name}")
        return r

    # ---- history ----------------------------------------------------------
    def rec(self, kind, **kw):
        n = self.current
        if n is not None and n.crashed:
            return None
        e = {"i": len(self.history), "t": round(self.now, 6), "k": kind}
        if n is not None and n is not self.main:
            e["n"] = n.name
        e.update(kw)
        self.history.append(e)
        return e

    def tr(self, *a):
        if self.trace_on and len(self.trace) < 200_000:
            self.trace.append((round(self.now, 6),) + a)

    # ---- events -----------------------------------------------------------
    def at(self, t, fn, *args):
        self.seq += 1
        if t < self.now:
            t = self.now
        heapq.heappush(self.heap, (t, self.sched.random(), self.seq, fn, args))

    def after(self, d, fn, *args):
        self.at(self.now + d, fn, *args)

    def _next(self):
        heap = self.heap
        while heap:
            t, _tie, _s, fn, args = heapq.heappop(heap)
            if t > self.now:
                self.now = t
            self.steps += 1
            if self.steps > self.max_steps:
                self.error = self.error or ("livelock", f"more than {self.max_steps} scheduler steps at t={self.now:.3f}")
                return self.main
            if fn is WAKE:
                node, gen = args
                if node.parked and gen == node.gen and not node.crashed:
                    if node.stalled_until > self.now:
                        self.at(node.stalled_until, WAKE, node, gen)
                        continue
                    return node
                continue
            self.current = None
            try:
                fn(*args)
            except BaseException as e:   # noqa
                import traceback
                self.error = ("harness", "".join(traceback.format_exception(e)))
                return self.main
        self.quiescent = True
        return self.main

    def _activate(self, node):
        self.current = node
        if node is self.main or node is self.active_node:
            return
        if self.active_node is not None:
            self.active_node.deactivate()
        self.active_node = node
        node.activate()

    def switch(self, me):
        """Give up control in `me`'s thread until `me` is chosen again."""
        nxt = self._next()
        if nxt is me and not me.finished:
            me.parked = False
            self._activate(me)
            return
        nxt.parked = False
        self._activate(nxt)
        nxt.lock.release()
        if me.finished:
            return
        me.lock.acquire()

    # ---- main thread ------------------------------------------------------
    def run(self, until):
        """Main thread: let the simulation proceed to virtual time `until`."""
        m = self.main
        m.gen += 1
        m.parked = True
        self.quiescent = False
        self.at(until, WAKE, m, m.gen)
        self.switch(m)
        if self.error:
            kind, msg = self.error
            if kind == "harness":
                raise HarnessError(msg)
            raise SimLimit(msg)

    def run_for(self, d):
        self.run(self.now + d)

    def wake_main(self):
        m = self.main
        if m.parked:
            self.at(self.now, WAKE, m, m.gen)

    def run_until(self, pred, limit, step=None):
        """Run until pred() holds (checked at each call of wake_main and every `step`)."""
        end = self.now + limit
        step = step or max(limit / 200.0, 0.01)
        while not pred():
            if self.now >= end:
                return False
            self.run(min(end, self.now + step))
        return True


class SimLimit(Exception):
    """The code under test exceeded the step budget (livelock)."""


# ---------------------------------------------------------------------------
class Node:
    """A simulated process."""

    def __init__(self, sim, name, main, argv, environ, host=None, disk=None):
        self.sim = sim
        self.name = name
        self.host = host or name
        self.main = main
        self.argv = argv
        self.environ = dict(environ)
        self.disk = disk                     # simvfs prefix of this node's files
        self.pid = sim.next_pid
        sim.next_pid += 1
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.gen = 0
        self.parked = False
        self.crashed = False
        self.finished = False
        self.alive = False
        self.exit_exc = None
        self.exit_value = None
        self.stalled_until = 0.0
        self.inbox = []
        self.wall_offset = 0.0
        self.modules = {}
        self.py_signals = {}
        self.pending_signals = []
        self.loop = None
        self.sockets = []                    # transports and listeners owned
        self.linefault = None
        self.started_at = None
        self.died_at = None
        self.rng = sim.rng(f"node/{name}")
        self.env = {}                        # scratch for scenarios

    # -- process environment
    def activate(self):
        sys.modules.update(self.modules)
        sys.argv = self.argv
        os.environ = self.environ

    def deactivate(self):
        for k in self.modules:
            sys.modules.pop(k, None)

    # -- clocks
    def wall(self):
        return WALL_BASE + self.sim.now + self.wall_offset

    def mono(self):
        return 1000.0 + self.sim.now

    # -- life
    def start(self, delay=0.0):
        self.alive = True
        self.sim.nodes[self.name] = self
        self.started_at = self.sim.now
        t = threading.Thread(target=self._thread, daemon=True)
        self.thread = t
        self.gen += 1
        self.parked = True
        self.sim.at(self.sim.now + delay, WAKE, self, self.gen)
        t.start()

    def _thread(self):
        self.lock.acquire()
        sim = self.sim
        try:
            self.exit_value = self.main(self)
        except SimKill:
            pass
        except BaseException as e:           # noqa
            self.exit_exc = e
        if self.crashed:
            # already accounted for; hand over and vanish
            self.finished = True
            sim.switch(self)
            return
        sim.current = None
        self._gone("exit")
        self.finished = True
        sim.switch(self)

    def _gone(self, how):
        """The operating system's view of the end of the process."""
        self.alive = False
        self.died_at = self.sim.now
        self.sim.tr("gone", self.name, how)
        self.sim.rec("exit", node=self.name, how=how,
                     exc=type(self.exit_exc).__name__ if self.exit_exc is not None else None)
        if self.disk:
            from . import disk
            disk.kill(self.disk)
        for s in list(self.sockets):
            s.os_close(how)
        self.sockets.clear()
        self.sim.wake_main()

    def crash(self, how="kill"):
        """SIGKILL (how='kill') or loss of the machine (how='power')."""
        if not self.alive:
            return
        self.crashed = True
        self.sim.graveyard.append(self)
        cur = self.sim.current
        self.sim.current = None
        self._gone(how)
        self.sim.current = cur

    # -- scheduling
    def cost(self):
        return self.rng.uniform(1e-6, 40e-6)

    def park(self, wake):
        if self.crashed:
            # dead: this thread never runs again (its frames are kept, nothing unwinds)
            while True:
                self.sim.switch(self)
        self.gen += 1
        self.parked = True
        if wake is not None:
            self.sim.at(wake, WAKE, self, self.gen)
        self.sim.switch(self)

    def deliver(self, fn, *args):
        if self.crashed or not self.alive:
            return
        self.inbox.append((fn, args))
        self.kick()

    def kick(self):
        if self.parked:
            self.sim.at(self.sim.now + self.cost(), WAKE, self, self.gen)

    def select(self, timeout):
        sim = self.sim
        if self.crashed:
            self.park(None)
        if self.inbox or (timeout is not None and timeout <= 0):
            wake = sim.now + self.cost()
        elif timeout is None:
            wake = None
        else:
            wake = sim.now + timeout
        if self.pending_signals:
            wake = sim.now
        self.park(wake)
        self.run_pending_signals()
        ev = self.inbox
        self.inbox = []
        return ev

    def sleep(self, d):
        """time.sleep in a node."""
        end = self.sim.now + max(0.0, d)
        while True:
            self.park(end)
            self.run_pending_signals()
            if self.sim.now >= end:
                return

    # -- signals
    def signal(self, sig):
        """Deliver a POSIX signal, from the hub or from a line fault."""
        self.sim.tr("signal", self.name, int(sig))
        self.sim.stats["signal"] += 1
        loop = self.loop
        if loop is not None and sig in loop._sim_signals and not loop.is_closed():
            h = loop._sim_signals[sig]
            self.deliver(loop._sim_run_handle, h)
            return None
        handler = self.py_signals.get(sig)
        if handler is None or not callable(handler):
            if handler == 1:                 # SIG_IGN
                return None
            self.crash("kill")               # default action
            return None
        if self.sim.current is self:
            handler(sig, None)               # raises into the running code
        else:
            self.pending_signals.append(sig)
            if self.parked:
                self.sim.at(self.sim.now, WAKE, self, self.gen)

    def run_pending_signals(self):
        while self.pending_signals:
            sig = self.pending_signals.pop(0)
            h = self.py_signals.get(sig)
            if callable(h):
                h(sig, None)
