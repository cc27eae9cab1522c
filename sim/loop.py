"""SimLoop: asyncio's own BaseEventLoop on a simulated selector, clock and network."""
import asyncio
import os
import random
import signal
import socket
import sys
import time
import timeit
from asyncio import base_events, events

from . import core

_real = dict(time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter, time_ns=time.time_ns,
             monotonic_ns=time.monotonic_ns, perf_counter_ns=time.perf_counter_ns,
             sleep=time.sleep, urandom=os.urandom, getpid=os.getpid, kill=os.kill,
             signal=signal.signal, getsignal=signal.getsignal)


def _node():
    s = core.ACTIVE
    if s is None:
        return None
    n = s.current
    return None if n is None or n is s.main else n


class SimTask(asyncio.Task):
    """Real C task; hash is seeded so that set order is decided by the seed, not by addresses."""
    def __init__(self, coro, *, loop, **kw):
        self._sim_hash = loop._sim_hash()
        super().__init__(coro, loop=loop, **kw)

    def __hash__(self):
        return self._sim_hash


def _task_factory(loop, coro, **kw):
    return SimTask(coro, loop=loop, **kw)


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        return self.loop._sim_node.select(timeout)

    def close(self):
        pass

    def get_map(self):
        return {}


class FakeSocket:
    def __init__(self, family, name):
        self.family = family
        self.type = socket.SOCK_STREAM
        self.proto = 0
        self._name = name

    def listen(self, backlog):
        pass

    def getsockname(self):
        return self._name

    def fileno(self):
        return 99

    def close(self):
        pass

    def __repr__(self):
        return f"<sim socket {self._name}>"


class SimLoop(base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        node = _node()
        if node is None:
            raise RuntimeError("SimLoop outside a simulated process")
        self._sim_node = node
        self._sim = node.sim
        self._sim_signals = {}
        self._hash_rng = node.sim.rng("taskhash")
        self._selector = _Selector(self)
        self._internal_fds = 0
        self.set_task_factory(_task_factory)
        node.loop = self

    def _sim_hash(self):
        return self._hash_rng.getrandbits(40)

    def time(self):
        return self._sim_node.mono()

    def _process_events(self, event_list):
        for fn, args in event_list:
            self._ready.append(events.Handle(fn, args, self, None))

    def _write_to_self(self):
        self._sim_node.kick()

    def close(self):
        if self.is_running():
            raise RuntimeError("Cannot close a running event loop")
        super().close()

    # -- signals
    def add_signal_handler(self, sig, callback, *args):
        self._check_closed()
        self._sim_signals[sig] = events.Handle(callback, args, self, None)

    def remove_signal_handler(self, sig):
        return self._sim_signals.pop(sig, None) is not None

    def _sim_run_handle(self, h):
        if not h._cancelled:
            h._run()

    # -- executor: runs inline at a later simulated instant
    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()

        def run():
            if fut.cancelled():
                return
            try:
                r = func(*args)
            except BaseException as e:   # noqa
                if not fut.done():
                    fut.set_exception(e)
            else:
                if not fut.done():
                    fut.set_result(r)
        self._sim.after(self._sim.rng("executor").uniform(0, 0.002), self._sim_node.deliver, run)
        return fut

    async def getaddrinfo(self, host, port, *, family=0, type=0, proto=0, flags=0):
        return [(socket.AF_INET, type or socket.SOCK_STREAM, proto, "", (host, port))]

    # -- streams
    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        t, p = await self._sim.net.connect(self, protocol_factory, ("tcp", host, int(port)))
        return t, p

    async def create_unix_connection(self, protocol_factory, path=None, **kw):
        t, p = await self._sim.net.connect(self, protocol_factory, ("uds", os.fspath(path)))
        return t, p

    async def create_server(self, protocol_factory, host=None, port=None, *, start_serving=True, backlog=100, **kw):
        key = ("tcp", host, int(port))
        self._sim.net.bind(self._sim_node, key)
        sock = FakeSocket(socket.AF_INET, (host, int(port)))
        sock.key = key
        return await self._finish_server(protocol_factory, sock, backlog, start_serving)

    async def create_unix_server(self, protocol_factory, path=None, *, start_serving=True, backlog=100, **kw):
        key = ("uds", os.fspath(path))
        self._sim.net.bind(self._sim_node, key)
        sock = FakeSocket(socket.AF_UNIX, os.fspath(path))
        sock.key = key
        return await self._finish_server(protocol_factory, sock, backlog, start_serving)

    async def _finish_server(self, protocol_factory, sock, backlog, start_serving):
        server = base_events.Server(self, [sock], protocol_factory, None, backlog, None, None)
        if start_serving:
            server._start_serving()
            await asyncio.sleep(0)
        return server

    def _start_serving(self, protocol_factory, sock, sslcontext=None, server=None, backlog=100, *a, **kw):
        self._sim.net.listen(self._sim_node, sock.key, self, protocol_factory, server)

    def _stop_serving(self, sock):
        self._sim.net.unlisten(self._sim_node, sock.key)
        sock.close()

    # -- datagrams
    async def create_datagram_endpoint(self, protocol_factory, local_addr=None, remote_addr=None, **kw):
        return await self._sim.net.datagram_endpoint(self, protocol_factory, local_addr, remote_addr)


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    _loop_factory = SimLoop

    def new_event_loop(self):
        if _node() is None:
            return super().new_event_loop()
        return SimLoop()


# ---------------------------------------------------------------------------
def install_patches():
    """Route every clock, id source and process primitive of a node to the simulator."""
    def time_():
        n = _node()
        return n.wall() if n else _real["time"]()

    def mono():
        n = _node()
        return n.mono() if n else _real["monotonic"]()

    def perf():
        n = _node()
        return n.mono() if n else _real["perf_counter"]()

    def sleep(d):
        n = _node()
        return n.sleep(d) if n else _real["sleep"](d)

    def urandom(k):
        n = _node()
        return n.sim.rng("ids").randbytes(k) if n else _real["urandom"](k)

    def getpid():
        n = _node()
        return n.pid if n else _real["getpid"]()

    def kill(pid, sig):
        n = _node()
        if n is None:
            return _real["kill"](pid, sig)
        if pid in n.sim.foreign_pids:
            raise PermissionError(1, "Operation not permitted")
        if pid in n.sim.own_pids:
            return
        for m in n.sim.nodes.values():
            if m.pid == pid and m.alive:
                if n.env.get("uid", 1) not in (0, m.env.get("uid", 1)):
                    raise PermissionError(1, "Operation not permitted")
                if sig:
                    m.signal(sig)
                return
        raise ProcessLookupError(3, "No such process")

    def signal_(sig, handler):
        n = _node()
        if n is None:
            return _real["signal"](sig, handler)
        old = n.py_signals.get(sig, signal.SIG_DFL)
        n.py_signals[sig] = handler
        return old

    def getsignal(sig):
        n = _node()
        if n is None:
            return _real["getsignal"](sig)
        return n.py_signals.get(sig, signal.SIG_DFL)

    time.time = time_
    time.monotonic = mono
    time.perf_counter = perf
    time.time_ns = lambda: int(time_() * 1_000_000_000)
    time.monotonic_ns = lambda: int(mono() * 1_000_000_000)
    time.perf_counter_ns = lambda: int(perf() * 1_000_000_000)
    timeit.default_timer = perf
    time.sleep = sleep
    os.urandom = urandom
    os.getpid = getpid
    os.kill = kill
    signal.signal = signal_
    signal.getsignal = getsignal
    asyncio.set_event_loop_policy(SimPolicy())
