"""Scenario engine: one process using the five clients against a real or a scripted server, under faults.

plan keys
  kind     ttcp | ptcp | tuds | puds | udp
  timeout, retries, delay, hb, nclients
  server   "app" (the real application) or "raw" (scripted, every protocol misbehaviour)
  calls    [[t, id, client, style, group, cancel]]   style: 0 send_message, 1 sender(), group: calls sharing a span key, cancel: after s
  beh      {id: [[kind, delay], ...]}                what the server does with attempt 0, 1, ... (last one repeats)
  faults   [[t, kind, ...]]
  clean    no faults: the outcome of every call is known exactly
"""
import asyncio
import json
import signal

from . import net as simnet
from .core import SimLimit
from .world import World, coro_main, span_key

PORT, UPORT = 8800, 8801
ERR = {"raise": "UnhandledException", "proc": "ProcessingException", "unknown": "RouteKeyUnknownException",
       "invalid": "PydanticValidationException", "denied": "ClientDeniedException", "busy": "ServerBusyException",
       "parse": "ProtocolParsingException", "odd": "UnknownStatusCodeException"}
STATUS = {"raise": 999, "proc": 600, "unknown": 400, "invalid": 300, "denied": 200, "busy": 500, "parse": 100, "odd": 777}
COMM = {"CommunicationsNonRetryable", "CommunicationsMaxRetriesReached", "CommunicationsEmptyResponse"}
GARBAGE = [b"not json", b"[]", b"5", b"null", b"{}", b'{"status": 0}', b'{"status": "x", "data": 1}', b"\xff\xfe\x80", b'{"span_key": 5, "status": 0, "data": {}}', b""]
PROBES_N = 3


class Cli:
    def __init__(self, plan):
        self.plan = plan
        self.w = World(plan, simnet.NetCfg(**plan.get("net", {})))
        self.sim = self.w.sim
        self.sim.max_steps = plan.get("max_steps", 600_000)
        self.kind = plan["kind"]
        self.stream = self.kind != "udp"
        self.persistent = self.kind[0] == "p"
        self.A = max(1, plan["retries"])
        self.noticed = set()
        self.probes_n = 1 if plan.get("last_close") else PROBES_N
        self.seen = {}              # id -> attempts seen by the server
        self.answers = {}           # id -> set of (attempt, kind) answered
        self.key = {"t": ("tcp", "127.0.0.1", PORT), "u": ("uds", f"{self.w.tmp}/uds/srv.sock")}[self.kind[1] if self.stream else "t"]
        self.w.net.key_hosts = {self.key: "srv"}
        self.enq = []
        self.raw_conns = []
        self.raw_up = False
        self.node = None
        self.cnode = None
        self.over = False
        self.res = {}               # id -> [t0, t1, outcome, detail]
        self.hung = []
        self.healthy_at = None
        self.done_clients = False

    def beh(self, i, a):
        s = self.plan["beh"].get(str(i)) or [["ok", 0]]
        return s[min(a, len(s) - 1)]

    def key_of(self, i, group):
        """Span key of a call: several calls may belong to one trace, or have the same span id in different traces."""
        seed = self.plan["seed"]
        if group is not None:
            return span_key(f"{seed}/g{group}")
        share = self.plan.get("share")
        if not share:
            return span_key(f"{seed}/c{i}")
        # Of its own, but for the shared part: without a "/" the other part is not that of any other call.
        sk = span_key(f"{seed}.c{i}")
        sk[share] = span_key(f"{seed}.shared")[share]
        return sk

    # ------------------------------------------------------------ the real server
    def setup(self, node):
        eng = self
        from pydantic import BaseModel
        from ekosis.requests.endpoint import endpoint
        from ekosis.exceptions import ApplicationProcessingException

        class Req(BaseModel):
            n: int
            pad: str = ""

        class Resp(BaseModel):
            n: int
            a: int
            pad: str = ""

        @endpoint("echo", Req)
        async def echo(dto, span_key):
            a = eng.saw(dto.n)
            kind, delay = eng.beh(dto.n, a)
            if delay:
                await asyncio.sleep(delay)
            eng.answered(dto.n, a, kind)
            if kind == "raise":
                raise ValueError(f"planned #{dto.n}#")
            if kind == "proc":
                raise ApplicationProcessingException(f"planned #{dto.n}#")
            return Resp(n=dto.n, a=a, pad=dto.pad)

    def saw(self, i):
        a = self.seen.get(i, 0)
        self.seen[i] = a + 1
        self.sim.rec("seen", id=i, a=a)
        return a

    def answered(self, i, a, kind):
        self.answers.setdefault(i, set()).add((a, kind))

    def start_server(self):
        if self.plan["server"] == "raw":
            self.raw_up = True
            if self.stream:
                self.sowner = simnet.HubOwner("srv")
                self.w.net.bound[self.key] = self.sowner
                self.w.net.listeners[self.key] = (self.sowner, None, lambda: RawServerConn(self), None)
            else:
                self.sowner = simnet.HubOwner("srv")
                self.udp = simnet.SimDatagram(self.w.net, self.sowner, None, self, ("127.0.0.1", UPORT), None)
                self.w.net.udp[("127.0.0.1", UPORT)] = self.udp
            return
        self.node = self.w.app("srv", self.setup, tcp=PORT, udp=UPORT, uds="srv.sock")
        self.node.start()

    def stop_server(self, how="kill"):
        """Crash the server."""
        if self.plan["server"] == "raw":
            self.raw_up = False
            if self.stream:
                self.w.net.listeners.pop(self.key, None)
                for c in list(self.raw_conns):
                    c.t.os_close(how)
                self.raw_conns = []
                self.sowner.alive = False
            else:
                self.udp.closing = True
            self.sim.stats["crash_" + how] += 1
            return
        if self.node.alive:
            self.sim.stats["crash_" + how] += 1
            if how == "power":
                self.w.powerloss(self.node)
            elif how == "term":
                self.node.signal(signal.SIGTERM)
            else:
                self.node.crash("kill")

    # ------------------------------------------------------------ the scripted server
    def raw_request(self, line, reply, conn):
        """reply(bytes): sends them; conn: the stream connection or None."""
        if line[:1] == b"\x05":
            self.enq.append(self.sim.now)
            reply(b"\x06\n")
            return
        try:
            r = json.loads(line)
            i = int(r["route_key"].split(".")[1]) if r["route_key"].startswith("nope.") else int(str(r["data"]["n"]).strip("#"))
        except (ValueError, KeyError, TypeError):
            self.w.violate("malformed-request", f"the server received {line[:200]!r}")
            return
        a = self.saw(i)
        kind, delay = self.beh(i, a)
        self.sim.after(delay or 0.0, self.raw_answer, i, a, kind, r, reply, conn)

    def raw_answer(self, i, a, kind, r, reply, conn):
        sk = r["span_key"]
        if kind == "silent" or conn is not None and conn.gone:
            return
        self.answered(i, a, kind)
        nl = b"\n" if conn is not None else b""
        good = json.dumps({"span_key": sk, "status": 0, "data": {"n": i, "a": a, "pad": r["data"].get("pad", "")}}).encode() + nl
        if kind == "ok":
            reply(good)
        elif kind in ("fin", "rst", "partial"):
            if conn is None:
                return
            if kind == "partial":
                reply(good[:1 + (i * 7 + a) % (len(good) - 2)])
            if kind == "rst":
                conn.t.abort()
            else:
                conn.t.close()
        elif kind == "garbage":
            reply(GARBAGE[(i + a) % len(GARBAGE)] + b"\n")
        elif kind == "wrongspan":
            other = [dict(sk, span_id=span_key(f"other/{i}")["span_id"]), dict(sk, trace_id=span_key(f"other/{i}")["trace_id"]), span_key(f"other/{i}")][(i + a) % 3]
            reply(json.dumps({"span_key": other, "status": 0, "data": {"n": i + 1000, "a": a}}).encode() + nl)
        elif kind == "twice":
            reply(good)
            if conn is None:
                reply(good)
        else:
            st = STATUS[kind]
            reply(json.dumps({"span_key": None if kind in ("parse", "invalid") and i % 2 else sk, "status": st, "data": f"planned #{i}#"}).encode() + nl)

    # datagram protocol of the scripted UDP server
    def datagram_received(self, data, addr):
        if self.raw_up:
            self.raw_request(data.rstrip(b"\n"), lambda b: self.udp.sendto(b, addr) if self.raw_up else None, None)

    def error_received(self, exc):
        pass

    def connection_lost(self, exc):
        pass

    # ------------------------------------------------------------ the client process
    def client_main(self, node):
        eng, plan, sim = self, self.plan, self.sim
        from pydantic import BaseModel
        from ekosis.clients import PersistedTCPClient, TransientTCPClient, PersistedUDSClient, TransientUDSClient, UDPClient
        from ekosis.data_transfer_objects import SpanKey
        from ekosis.sending.sender import sender

        class Req(BaseModel):
            n: int | str
            pad: str = ""

        class Resp(BaseModel):
            n: int
            a: int
            pad: str = ""

        def mk():
            t, r, d, hb = plan["timeout"], plan["retries"], plan["delay"], plan["hb"]
            path = f"{eng.w.tmp}/uds/srv.sock"
            return {"ttcp": lambda: TransientTCPClient("127.0.0.1", PORT, t, r, d), "ptcp": lambda: PersistedTCPClient("127.0.0.1", PORT, t, hb, r, d),
                    "tuds": lambda: TransientUDSClient(path, t, r, d), "puds": lambda: PersistedUDSClient(path, t, hb, r, d),
                    "udp": lambda: UDPClient("127.0.0.1", UPORT, t, r, d)}[eng.kind]()

        async def call(client, i, style, group, probe=False):
            kind0 = eng.beh(i, 0)[0]
            route, n = "echo", i
            if kind0 == "unknown":
                route = f"nope.{i}.#{i}#"
            elif kind0 == "invalid":
                n = f"#{i}#"
            sk = SpanKey(**eng.key_of(i, group))
            pad = "x" * plan.get("pad", {}).get(str(i), 0)
            t0 = sim.now
            if probe and plan["nclients"] == 1:
                # does the client's end know of every connection that is no good any more?
                mine = [(a, b) for a, b in eng.w.net.conns if a.owner is node and not (a.gone or a.lost_called or a.closing)]
                if all(a.rx_eof or b.owner.alive and not (b.gone or b.closing or b.eof_sent) for a, b in mine):
                    eng.noticed.add(i)
            sim.rec("call", id=i)
            eng.res[i] = [t0, None, None, None]
            try:
                if style == 1:
                    @sender(client, route, Resp)
                    async def send(*a, **kw):
                        return Req(n=n, pad=pad)
                    r = await send(span_key=sk)
                else:
                    r = await client.send_message(route, Req(n=n, pad=pad), Resp, sk)
                out = ["ok", [r.n, r.a, r.pad == pad]]
            except asyncio.CancelledError:
                out = ["cancelled", None]
            except Exception as x:
                out = [type(x).__name__, str(x)[:300]]
            if not node.crashed:
                eng.res[i] = [t0, sim.now, *out]
                sim.rec("ret", id=i, out=out[0], detail=out[1])
            return out

        async def main():
            clients = [mk() for _ in range(plan["nclients"])]
            loop = asyncio.get_running_loop()
            closing = []
            for t, c in plan.get("closes", []):
                loop.call_later(max(0, t - sim.now), lambda cl=clients[c % len(clients)]: (eng.w.cover.add("closed-by-application"), closing.append(loop.create_task(cl.close_connection()))))
            tasks = {}
            for t, i, c, style, group, cancel in sorted(plan["calls"]):
                if t > sim.now:
                    await asyncio.sleep(t - sim.now)
                tk = tasks[i] = asyncio.create_task(call(clients[c % len(clients)], i, style, group))
                if cancel is not None:
                    asyncio.get_running_loop().call_later(cancel, tk.cancel)
            end = sim.now + eng.bound(len(tasks) + 1) + 1
            if tasks:
                await asyncio.wait(tasks.values(), timeout=end - sim.now)
            for i, tk in tasks.items():
                if not tk.done():
                    eng.hung.append(i)
                    tk.cancel()
            eng.sim.rec("traffic_done")
            while not eng.healthy_at or sim.now < eng.healthy_at:
                await asyncio.sleep(0.05)
            if plan.get("probe", True):
                for c, cl in enumerate(clients):
                    if plan.get("last_close"):
                        await cl.close_connection()
                        eng.w.cover.add("closed-by-application")
                    for k in range(eng.probes_n):
                        await asyncio.wait_for(call(cl, 10000 + 10 * c + k, 0, None, True), eng.bound(2) + 5)
                eng.idle_from = sim.now
                if eng.persistent:
                    await asyncio.sleep(2.2 * plan["hb"] + plan["timeout"] + 0.2)
                else:
                    await asyncio.sleep(0.3)
                eng.end_conns = [a.cid for a, b in eng.w.net.conns if a.owner is node and not a.gone]
                eng.end_udp = sum(1 for t in eng.w.net.udp.values() if t.owner is node and not t.closing)
                eng.idle_to = sim.now
            eng.done_clients = True
        return main()

    def bound(self, overlap):
        """Longest a call may take when `overlap` calls (itself included) and a heartbeat share the client."""
        p = self.plan
        k = 1 if self.kind[0] == "t" else overlap + 1
        return self.A * k * p["timeout"] + (self.A - 1) * p["delay"]

    # ------------------------------------------------------------ faults
    def apply(self, f):
        if self.over:
            return
        sim, net, k = self.sim, self.w.net, f[0]
        if k in ("kill", "power", "term"):
            if k == "power":
                net.down_hosts.add("srv")
            self.stop_server(k)
            sim.after(f[1], self.restart)
        elif k == "cut":
            net.partition("cli", "srv")
            sim.after(f[1], lambda: None if self.over else net.heal("cli", "srv"))
        elif k == "reset":
            c = net.live_conns()
            if c:
                net.reset(c[f[1] % len(c)])
        elif k == "stall":
            if self.node is not None and self.node.alive:
                self.node.stalled_until = sim.now + f[1]
                sim.stats["stall"] += 1
        elif k == "clock":
            self.cnode.wall_offset += f[1]
            sim.stats["clock_jump"] += 1

    def restart(self):
        self.w.net.down_hosts.discard("srv")
        up = self.raw_up if self.plan["server"] == "raw" else self.node.alive
        if not up:
            self.start_server()
        elif self.plan["server"] != "raw":
            self.sim.after(0.3, self.restart)

    def run(self):
        p, sim = self.plan, self.sim
        self.start_server()
        self.cnode = self.w.app("cli", None, main=coro_main(self.client_main), host="cli")
        sim.run(0.2)
        while sim.now < 0.2:
            sim.run(0.2)
        self.cnode.start()
        for f in p["faults"]:
            sim.at(max(f[0], 0.2), self.apply, f[1:])
        sim.at(p["T"], self.heal)
        limit = p["T"] + 4 + 2 * self.bound(len(p["calls"]) + 2) + (2.2 * p["hb"] if self.persistent else 0) + p["nclients"] * PROBES_N * (self.bound(2) + 5) + 120
        try:
            while self.cnode.alive and sim.now < limit:
                sim.run(limit)
        except SimLimit as x:
            self.w.violate("livelock", str(x))
            return False
        if not self.done_clients:
            self.w.violate("client-stuck", f"the client process did not finish by {sim.now:.1f} s: {self.cnode.result if hasattr(self.cnode, 'result') else ''}")
            return False
        return True

    def heal(self):
        self.over = True
        c = self.w.net.cfg
        c.loss = c.dup = c.reorder = c.spike_p = 0
        c.lat = (0.0001, 0.002)
        self.w.net.heal_all()
        if self.node is not None:
            self.node.stalled_until = 0
        self.restart()
        self.healthy_at = self.sim.now + 4.0


class RawServerConn:
    """Protocol of one accepted connection of the scripted server."""
    def __init__(self, eng):
        self.eng = eng
        self.buf = b""
        self.gone = False

    def connection_made(self, t):
        self.t = t
        self.eng.raw_conns.append(self)

    def data_received(self, data):
        self.buf += data
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            self.eng.raw_request(line, self.t.write, self)

    def eof_received(self):
        return False

    def connection_lost(self, exc):
        self.gone = True
        if self in self.eng.raw_conns:
            self.eng.raw_conns.remove(self)

    def pause_writing(self):
        pass

    def resume_writing(self):
        pass
