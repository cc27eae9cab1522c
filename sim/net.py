"""Simulated network: TCP and Unix stream connections, UDP datagrams, link faults."""
import asyncio
import errno
from asyncio import transports

KCAP = 256 * 1024          # bytes the two kernels buffer for one direction


class NetCfg:
    def __init__(self, lat=(0.0001, 0.003), spike_p=0.0, spike=(0.05, 2.0), seg_p=0.2,
                 loss=0.0, dup=0.0, reorder=0.0, fin_p=0.5):
        self.lat = lat
        self.spike_p = spike_p
        self.spike = spike
        self.seg_p = seg_p
        self.loss = loss
        self.dup = dup
        self.reorder = reorder
        self.fin_p = fin_p


class HubOwner:
    """Owner of raw peers: callbacks run in the hub at delivery time."""
    alive = True
    crashed = False

    def __init__(self, name):
        self.name = name
        self.host = name
        self.sockets = []

    def deliver(self, fn, *args):
        fn(*args)


class Net:
    def __init__(self, sim, cfg=None):
        self.sim = sim
        self.tap = None          # called with (transport, "tx"|"rx", bytes) as a process writes and reads
        self.cfg = cfg or NetCfg()
        self.rng = sim.rng("net")
        self.listeners = {}      # key -> (node, loop, factory, server)
        self.bound = {}          # key -> node
        self.udp = {}            # (host, port) -> SimDatagram
        self.blocked = set()     # frozenset({hostA, hostB})
        self.waiting = []        # connect attempts held by a partition
        self.conns = []          # live connections (client transport, server transport)
        self.next_port = 40000
        self.conn_seq = 0
        self.down_hosts = set()
        sim.net = self

    # -- latencies, links
    def latency(self):
        c = self.cfg
        l = self.rng.uniform(*c.lat)
        if c.spike_p and self.rng.random() < c.spike_p:
            self.sim.stats["latency_spike"] += 1
            l += self.rng.uniform(*c.spike)
        return l

    def is_blocked(self, a, b):
        if a in self.down_hosts or b in self.down_hosts:
            return True
        return bool(self.blocked) and frozenset((a, b)) in self.blocked

    def partition(self, a, b):
        self.blocked.add(frozenset((a, b)))
        self.sim.stats["partition"] += 1
        self.sim.tr("partition", a, b)

    def heal(self, a, b):
        self.blocked.discard(frozenset((a, b)))
        self.sim.tr("heal", a, b)
        self._flush()

    def heal_all(self):
        self.blocked.clear()
        self.down_hosts.clear()
        self._flush()

    def _flush(self):
        for c in list(self.conns):
            for t in c:
                if not self.is_blocked(t.owner.host, t.peer_host):
                    t.flush_held()
        w, self.waiting = self.waiting, []
        for fn in w:
            fn()

    # -- listeners
    def bind(self, node, key):
        if key[0] == "tcp" and key in self.bound and self.bound[key].alive and not self.bound[key].crashed:
            raise OSError(errno.EADDRINUSE, f"error while attempting to bind on address {key[1:]}: address already in use")
        self.bound[key] = node

    def listen(self, node, key, loop, factory, server):
        self.listeners[key] = (node, loop, factory, server)
        node.sockets.append(_Listener(self, node, key))
        self.sim.tr("listen", node.name, key[0])

    def unlisten(self, node, key):
        l = self.listeners.get(key)
        if l and l[0] is node:
            del self.listeners[key]
            self.bound.pop(key, None)

    # -- connecting
    async def connect(self, loop, factory, key):
        node = loop._sim_node
        fut = loop.create_future()
        protocol = factory()

        def ok(t):
            if fut.cancelled():
                t.abort()
                return
            if not fut.done():
                fut.set_result(t)

        def fail(e):
            if not fut.done():
                fut.set_exception(e)
        self._connect(node, loop, protocol, key, ok, fail)
        t = await fut
        return t, protocol

    def _connect(self, owner, loop, protocol, key, ok, fail):
        sim = self.sim
        deadline = sim.now + 127.0
        state = {"done": False}

        def expire():
            if not state["done"]:
                state["done"] = True
                sim.stats["connect_timeout"] += 1
                owner.deliver(fail, TimeoutError(errno.ETIMEDOUT, f"Connect call failed {key[1:]}"))

        def syn():
            if state["done"]:
                return
            l = self.listeners.get(key)
            if l is None:
                srv = self.bound_host(key)
            else:
                srv = l[0].host
            if srv is not None and self.is_blocked(owner.host, srv):
                self.waiting.append(lambda: sim.after(self.rng.uniform(0, 1.0), syn))
                return
            if l is None or not l[0].alive or l[0].crashed:
                state["done"] = True
                sim.stats["connect_refused"] += 1
                e = ConnectionRefusedError(errno.ECONNREFUSED, f"Connect call failed {key[1:]}") if key[0] == "tcp" \
                    else self._uds_error(key)
                sim.after(self.latency(), owner.deliver, fail, e)
                return
            state["done"] = True
            snode, sloop, sfactory, server = l
            self.conn_seq += 1
            cid = self.conn_seq
            ct = SimTransport(self, owner, loop, None, cid, "c", key)
            st = SimTransport(self, snode, sloop, server, cid, "s", key)
            ct.peer, st.peer = st, ct
            ct.peer_host, st.peer_host = snode.host, owner.host
            self.conns.append((ct, st))
            sim.tr("conn", cid, owner.name, snode.name)

            def accept():
                if server is not None and server._sockets is None:   # closed meanwhile
                    st.os_close("kill")
                    return
                if st.gone:
                    return
                st.protocol = sfactory()
                st.start()
            snode.deliver(accept)

            def established():
                if ct.gone:              # reset before the caller saw it open
                    fail(ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"))
                    return
                ct.protocol = protocol
                ct.start()
                ok(ct)
            ct.established_at = sim.now
            sim.after(self.latency(), owner.deliver, established)
        sim.at(deadline, expire)
        sim.after(self.latency(), syn)

    def _uds_error(self, key):
        if key in self.bound:
            return ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        return FileNotFoundError(errno.ENOENT, "No such file or directory")

    def bound_host(self, key):
        return self.key_hosts.get(key) if hasattr(self, "key_hosts") else None

    def drop_conn(self, t):
        self.conns = [c for c in self.conns if c[0] is not t and c[1] is not t or not (c[0].gone and c[1].gone)]

    def reset(self, cid, by="net"):
        """A middlebox (or the peer's kernel) resets one connection."""
        for a, b in self.conns:
            if a.cid == cid and not (a.gone and b.gone):
                self.sim.stats["reset"] += 1
                self.sim.tr("reset", cid)
                for t in (a, b):
                    t.in_rst()
                return True
        return False

    def live_conns(self, pred=None):
        return [a.cid for a, b in self.conns if not (a.gone or b.gone) and (pred is None or pred(a, b))]

    # -- datagrams
    async def datagram_endpoint(self, loop, factory, local_addr, remote_addr):
        node = loop._sim_node
        if local_addr is None:
            self.next_port += 1
            local_addr = ("127.0.0.1", self.next_port)
        local_addr = (local_addr[0], int(local_addr[1]))
        if local_addr in self.udp and self.udp[local_addr].owner.alive and not self.udp[local_addr].closing:
            raise OSError(errno.EADDRINUSE, "address already in use")
        p = factory()
        t = SimDatagram(self, node, loop, p, local_addr, remote_addr)
        self.udp[local_addr] = t
        node.sockets.append(t)
        await asyncio.sleep(0)
        p.connection_made(t)
        return t, p

    def send_datagram(self, src, dst, data):
        sim, c, r = self.sim, self.cfg, self.rng
        n = 1
        if c.loss and r.random() < c.loss:
            sim.stats["udp_loss"] += 1
            n = 0
        elif c.dup and r.random() < c.dup:
            sim.stats["udp_dup"] += 1
            n = 2
        for _ in range(n):
            d = self.latency()
            if c.reorder and r.random() < c.reorder:
                sim.stats["udp_reorder"] += 1
                d += r.uniform(*c.spike)
            sim.after(d, self._arrive, src, dst, data)

    def _arrive(self, src, dst, data):
        t = self.udp.get(dst)
        shost = src.owner.host
        if t is None or t.closing or not t.owner.alive or t.owner.crashed:
            if t is None or not self.is_blocked(shost, t.owner.host):
                if src.remote is not None and not src.closing:
                    self.sim.after(self.latency(), src.owner.deliver, src._icmp)
            return
        if self.is_blocked(shost, t.owner.host):
            self.sim.stats["udp_blocked"] += 1
            return
        if t.remote is not None and tuple(t.remote) != src.local:
            return
        t.owner.deliver(t._rx, data, src.local)


class _Listener:
    def __init__(self, net, node, key):
        self.net, self.node, self.key = net, node, key

    def os_close(self, how):
        l = self.net.listeners.get(self.key)
        if l and l[0] is self.node:
            del self.net.listeners[self.key]


class SimTransport(transports.Transport):
    def __init__(self, net, owner, loop, server, cid, side, key):
        super().__init__({"peername": ("127.0.0.1", 50000 + cid), "sockname": key[1:], "socket": None})
        self.net, self.sim = net, net.sim
        self.owner, self.loop, self.server = owner, loop, server
        self.cid, self.side, self.key = cid, side, key
        self.protocol = None
        self.peer = None
        self.peer_host = None
        self.closing = False        # close() called locally
        self.gone = False           # no longer exists for the kernel
        self.lost_called = False
        self.rx_paused = False
        self.rxq = []
        self.held = []              # arrivals held by a partition
        self.last_arrival = 0.0     # of data towards the peer
        self.inflight = 0           # bytes in the kernels towards the peer
        self.ubuf = bytearray()     # user-space write buffer
        self.wpaused = False
        self.high = 64 * 1024
        self.low = 16 * 1024
        self.eof_sent = False
        self.rx_eof = False
        self.bytes_in = 0
        self.established = False
        owner.sockets.append(self)

    # called in the owner's context
    def start(self):
        if self.server is not None:
            self.server._attach()
        self.established = True
        self.protocol.connection_made(self)
        self._drain_rx()

    # ---- Transport interface
    def get_write_buffer_size(self):
        return len(self.ubuf)

    def set_write_buffer_limits(self, high=None, low=None):
        if high is None:
            high = 64 * 1024 if low is None else 4 * low
        if low is None:
            low = high // 4
        self.high, self.low = high, low

    def get_write_buffer_limits(self):
        return (self.low, self.high)

    def set_protocol(self, p):
        self.protocol = p

    def get_protocol(self):
        return self.protocol

    def is_closing(self):
        return self.closing or self.lost_called

    def is_reading(self):
        return not self.rx_paused and not self.closing

    def pause_reading(self):
        self.rx_paused = True

    def resume_reading(self):
        self.rx_paused = False
        if self.rxq:
            self.owner.deliver(self._drain_rx)

    def can_write_eof(self):
        return True

    def write(self, data):
        data = bytes(data)
        if self.owner.crashed or self.lost_called or not data or self.gone:
            return
        if self.eof_sent:
            raise RuntimeError("Cannot call write() after write_eof()")
        if self.loop is not None and self.key[0] == "uds" and self.peer is not None and self.peer.gone:
            self.sim.stats["broken_pipe"] += 1       # a local socket knows at once that its peer is gone
            self.gone = True
            if self in self.owner.sockets:
                self.owner.sockets.remove(self)
            self.net.drop_conn(self)
            self.loop.call_soon(self._lost, BrokenPipeError(errno.EPIPE, "Broken pipe"))
            return
        if self.net.tap:
            self.net.tap(self, "tx", data)
        self.ubuf += data
        self._pump()
        if len(self.ubuf) > self.high and not self.wpaused:
            self.wpaused = True
            self.protocol.pause_writing()

    def writelines(self, l):
        self.write(b"".join(l))

    def _pump(self):
        room = KCAP - self.inflight
        if room > 0 and self.ubuf:
            chunk = bytes(self.ubuf[:room])
            del self.ubuf[:room]
            self._send(chunk)

    def _send(self, data):
        net, rng = self.net, self.net.rng
        parts = [data]
        if len(data) > 1 and net.cfg.seg_p and rng.random() < net.cfg.seg_p:
            k = rng.randint(1, min(4, len(data) - 1))
            cuts = sorted(rng.sample(range(1, len(data)), k))
            parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
            self.sim.stats["segmented"] += 1
        self.inflight += len(data)
        for p in parts:
            self._ship("data", p)

    def _ship(self, kind, payload):
        t = max(self.last_arrival + 1e-7, self.sim.now + self.net.latency())
        self.last_arrival = t
        self.sim.at(t, self.peer._arrive, kind, payload)

    def write_eof(self):
        if not self.eof_sent and not self.gone:
            self.eof_sent = True
            self._ship("eof", b"")

    def close(self):
        if self.closing or self.lost_called:
            return
        self.closing = True
        if not self.ubuf:
            self._finish_close(None)

    def abort(self):
        if self.lost_called:
            return
        self.closing = True
        self.ubuf.clear()
        self._rst_peer()
        self._finish_close(None, fin=False)

    def _finish_close(self, exc, fin=True):
        if self.owner.crashed:
            return
        if not self.gone:
            self.gone = True
            if self in self.owner.sockets:
                self.owner.sockets.remove(self)
            if fin:
                if self.rxq:                      # unread data: the kernel sends a reset
                    self._rst_peer()
                elif not self.eof_sent:
                    self.eof_sent = True
                    self._ship("eof", b"")
            self.net.drop_conn(self)
        if not self.lost_called:
            self.lost_called = True
            if self.loop is not None:
                self.loop.call_soon(self._call_lost, exc)
            else:
                self._call_lost(exc)

    def _call_lost(self, exc):
        try:
            if self.established:
                self.protocol.connection_lost(exc)
        finally:
            if self.server is not None and self.established:
                self.server._detach()
                self.server = None

    def _rst_peer(self):
        if self.peer is not None and not self.peer.gone:
            self._ship("rst", b"")

    # ---- kernel side (hub context)
    def os_close(self, how):
        """The owning process is gone."""
        if self.gone:
            return
        self.gone = True
        if how == "power":
            pass                                    # nobody tells the peer
        elif self.rxq or self.net.rng.random() >= self.net.cfg.fin_p and how != "exit":
            self._rst_peer()
        elif not self.eof_sent:
            self.eof_sent = True
            self._ship("eof", b"")
        self.net.drop_conn(self)

    def flush_held(self):
        h, self.held = self.held, []
        for k, p in h:
            self._arrive_now(k, p)

    def _arrive(self, kind, payload):
        if self.net.is_blocked(self.owner.host, self.peer_host):
            self.held.append((kind, payload))
            return
        if self.held:
            self.flush_held()
        self._arrive_now(kind, payload)

    def _arrive_now(self, kind, payload):
        peer = self.peer
        if kind == "data":
            peer.inflight -= len(payload)
            if not peer.gone and (peer.ubuf or peer.wpaused or peer.closing):
                peer.owner.deliver(peer._writable)
        if self.gone:
            if kind == "data" and not peer.gone:
                peer.sim.after(self.net.latency(), peer.in_rst)
            return
        if kind == "rst":
            self.in_rst()
            return
        self.sim.tr("rx", self.cid, self.side, kind, len(payload))
        self.owner.deliver(self._rx, kind, payload)

    def in_rst(self):
        if self.gone:
            return
        self.sim.tr("rst", self.cid, self.side)
        self.gone = True
        if self in self.owner.sockets:
            self.owner.sockets.remove(self)
        self.net.drop_conn(self)
        if self.rx_eof:                               # what a reset after the peer's FIN is reported as
            self.sim.stats["broken_pipe"] += 1
            self.owner.deliver(self._lost, BrokenPipeError(errno.EPIPE, "Broken pipe"))
        else:
            self.owner.deliver(self._lost, ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"))

    # ---- owner context
    def _writable(self):
        self._pump()
        if self.wpaused and len(self.ubuf) <= self.low:
            self.wpaused = False
            self.protocol.resume_writing()
        if self.closing and not self.ubuf and not self.lost_called:
            self._finish_close(None)

    def _lost(self, exc):
        if not self.lost_called:
            self.lost_called = True
            self.closing = True
            self._call_lost(exc)

    def _rx(self, kind, payload):
        self.rxq.append((kind, payload))
        self._drain_rx()

    def _drain_rx(self):
        while self.rxq and not self.rx_paused and self.established and not self.closing and not self.lost_called:
            kind, payload = self.rxq.pop(0)
            if kind == "data":
                self.bytes_in += len(payload)
                if self.net.tap:
                    self.net.tap(self, "rx", payload)
                self.protocol.data_received(payload)
            else:
                self.rx_eof = True
                keep = self.protocol.eof_received()
                if not keep:
                    self.close()
        if self.closing or self.lost_called:
            self.rxq.clear()


class SimDatagram(transports.DatagramTransport):
    def __init__(self, net, owner, loop, protocol, local, remote):
        super().__init__({"sockname": local, "peername": remote})
        self.net, self.owner, self.loop, self.protocol = net, owner, loop, protocol
        self.local = local
        self.remote = (remote[0], int(remote[1])) if remote else None
        self.closing = False

    def is_closing(self):
        return self.closing

    def sendto(self, data, addr=None):
        if self.closing or self.owner.crashed:
            return
        dst = tuple(addr) if addr else self.remote
        if len(data) > 65507:
            self.protocol.error_received(OSError(errno.EMSGSIZE, "Message too long"))
            return
        self.net.sim.tr("udp", self.local[1], dst[1], len(data))
        if self.net.tap:
            self.net.tap(self, "tx", bytes(data))
        self.net.send_datagram(self, dst, bytes(data))

    def close(self):
        if not self.closing:
            self.closing = True
            if self.net.udp.get(self.local) is self:
                del self.net.udp[self.local]
            if self in self.owner.sockets:
                self.owner.sockets.remove(self)
            if self.loop is not None:
                self.loop.call_soon(self.protocol.connection_lost, None)

    abort = close

    def os_close(self, how):
        self.closing = True
        if self.net.udp.get(self.local) is self:
            del self.net.udp[self.local]

    def _rx(self, data, addr):
        if not self.closing:
            if self.net.tap:
                self.net.tap(self, "rx", data)
            self.protocol.datagram_received(data, addr)

    def _icmp(self):
        if not self.closing:
            self.net.sim.stats["icmp_refused"] += 1
            self.protocol.error_received(ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused"))


# ---------------------------------------------------------------------------
class RawConn:
    """A hand-driven stream peer living in the hub."""
    def __init__(self, net, owner, key, on_line=None, on_close=None, on_open=None, on_data=None, on_fail=None):
        self.net, self.owner, self.key = net, owner, key
        self.on_line, self.on_close, self.on_open, self.on_data, self.on_fail = on_line, on_close, on_open, on_data, on_fail
        self.t = None
        self.buf = b""
        self.closed = None
        self.pending = []
        net._connect(owner, None, self, key, self._ok, self._fail)

    def _ok(self, t):
        self.t = t
        for d in self.pending:
            t.write(d)
        self.pending = []
        if self.on_open:
            self.on_open(self)

    def _fail(self, e):
        self.closed = f"connect: {type(e).__name__}"
        if self.on_fail:
            self.on_fail(self, e)
        elif self.on_close:
            self.on_close(self, e)

    def send(self, data):
        if self.closed:
            return False
        if self.t is None:
            self.pending.append(data)
        else:
            self.t.write(data)
        return True

    def close(self):
        if self.t:
            self.t.close()

    def abort(self):
        if self.t:
            self.t.abort()

    def half_close(self):
        if self.t:
            self.t.write_eof()

    # protocol interface
    def connection_made(self, t):
        pass

    def data_received(self, data):
        if self.on_data:
            self.on_data(self, data)
        self.buf += data
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            if self.on_line:
                self.on_line(self, line)

    def eof_received(self):
        return False

    def connection_lost(self, exc):
        if self.closed is None:
            self.closed = "eof" if exc is None else type(exc).__name__
            if self.on_close:
                self.on_close(self, exc)

    def pause_writing(self):
        pass

    def resume_writing(self):
        pass


class RawUDP:
    """A hand-driven datagram socket living in the hub."""
    def __init__(self, net, owner, on_data):
        net.next_port += 1
        self.addr = ("127.0.0.1", net.next_port)
        self.on_data = on_data
        self.t = SimDatagram(net, owner, None, self, self.addr, None)
        net.udp[self.addr] = self.t

    def send(self, data, dst):
        self.t.sendto(data, dst)

    def datagram_received(self, data, addr):
        self.on_data(self, data, addr)

    def error_received(self, exc):
        pass

    def connection_lost(self, exc):
        pass
