"""Scenario engine: one application with buffered endpoints, raw peers, management, signals, crashes, restarts.

plan keys
  routes   [{"name","page","retries","dto"}]      buffered endpoints ("dto": 0 -> EmptyDto)
  msgs     [[t, route, key, body, conn]]          requests (key: number of the span key)
  outc     {key: [[outcome, duration], ...]}      outcome of attempt 0, 1, ... (last one repeats)
  mgmt     [[t, op, route|name, key|None, conn]]  management requests
  events   [[t, kind, ...]]                       signals, crashes, stalls, ...
  mw       number of buffered middlewares, "mwdelay": seconds each hook sleeps at most
  exc      time at which an application task raises (ends the application), or None
"""
import json
import random
import signal

from . import disk, lin, linefault, net as simnet
from .world import Peer, World, span_key, sk_str

PORT = 8800
OPS = {
    "data": "data", "first10": "errors.get_first_10", "inspect": "errors.inspect_request", "pop": "errors.pop_request",
    "clear": "errors.clear", "re1": "errors.reprocess.one", "reall": "errors.reprocess.all",
    "prp": "receiving.pause", "unrp": "receiving.unpause", "ppp": "processing.pause", "unpp": "processing.unpause",
    "pall": "all.pause", "unpall": "all.unpause",
}
SENDER_OPS = dict(OPS, ppp="send_process.pause", unpp="send_process.unpause")
SIGS = {"TERM": signal.SIGTERM, "INT": signal.SIGINT, "HUP": signal.SIGHUP}


class Odd(Exception):
    """An exception of the application's own."""


EXC = [ValueError, Odd, KeyError, TimeoutError, OSError, IndexError, RuntimeError, AssertionError, AttributeError, StopAsyncIteration, ZeroDivisionError, ConnectionResetError, MemoryError]


TRUE = [True, 1, "yes", {"done": 1}, 0.5]
FALSE = [False, 0, "", [], {}]
UNSET = "unset"


def mod(xs, k):
    """One of xs, for message k (which may be an unknown span key)."""
    return xs[(k if isinstance(k, int) else 0) % len(xs)]


def finite(x):
    """What is left of x in a response: infinite numbers are not JSON."""
    if isinstance(x, dict):
        return {k: finite(v) for k, v in x.items()}
    if isinstance(x, list):
        return [finite(v) for v in x]
    return None if isinstance(x, float) and x - x != 0 else x


class Buf:
    def __init__(self, plan, netcfg=None):
        self.plan = plan
        c = plan.get("net") or {}
        self.w = World(plan, simnet.NetCfg(**c) if c else netcfg)
        self.sim = self.w.sim
        self.sim.max_steps = plan.get("max_steps", 400_000)
        self.routes = plan["routes"]
        self.name_idx = {r["name"]: i for i, r in enumerate(self.routes)}
        self.kid = {}                # span key string -> number
        self.sks = {}
        self.att = {}                # key -> attempts started
        self.body = {}               # key -> (route, body)
        self.poison = {k for k in plan.get("poison", [])}   # messages that do not fit their type any more once they were stored
        self.active = {}             # route -> key of the running attempt
        self.last_activity = 0.0
        self.node = None
        self.want_up = True
        self.restart_delay = plan.get("restart", 0.2)
        self.starts = 0
        self.peers = {}
        self.closing = False
        self.start_faults = []
        self.faults_over = False
        self.uds = bool(plan.get("uds"))
        self.key = ("uds", f"{self.w.tmp}/uds/srv.sock") if self.uds else ("tcp", "127.0.0.1", PORT)
        for m in plan["msgs"]:
            self.body[m[2]] = (m[1], m[3])

    # -- keys
    def sk(self, k):
        if k not in self.sks:
            d = self.sks[k] = span_key(f"{self.plan['seed']}/{k}")
            self.kid[sk_str(d)] = k
        return self.sks[k]

    # -- contents: what is sent, what the handler must be given
    def sent(self, k):
        d = {"n": k, "body": self.body[k][1]}
        if k % 3 == 0:
            d["opt"] = None
        elif k % 7 == 1:
            d["opt"] = k
        if k % 11 == 5:
            d["real"] = float("-inf")
        if k in self.poison:
            d["trap"] = 13
        return d

    def want(self, k):
        return {"opt": UNSET, "real": 0.5, "trap": 0, **self.sent(k)} if k in self.body else {}

    def route_of(self, e):
        if "r" in e:
            return e["r"]
        b = self.body.get(e["key"])
        return b[0] if b else None

    def num(self, s):
        return self.kid.get(s, s)

    # -- the application
    def setup(self, node):
        eng, plan, sim, w = self, self.plan, self.sim, self.w
        import asyncio
        from typing import Any
        from pydantic import BaseModel, ConfigDict, field_serializer
        from ekosis.data_transfer_objects import EmptyDto
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        from ekosis.middleware.buffered_middleware_base import BufferedMiddlewareBase
        from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager
        inc = node.env["inc"]
        page_of = plan.get("pages_by_inc")

        class Body(BaseModel):
            model_config = ConfigDict(ser_json_inf_nan="constants")
            n: int
            body: Any = None
            opt: Any = UNSET
            real: float = 0.5
            trap: int = 0

            @field_serializer("trap")
            def _trap(self, v):
                return "sprung" if v == 13 else v

        def make_sender(ri, r):
            from ekosis.clients import ClientBase, PersistedTCPClient, TransientTCPClient, PersistedUDSClient, TransientUDSClient, UDPClient
            from ekosis.exceptions import ServerBusyException, CommunicationsMaxRetriesReached, ProcessingException
            from ekosis.requests.endpoint import endpoint
            from ekosis.sending.buffered_sender import buffered_sender
            typ = Body if r.get("dto", 1) else EmptyDto
            real = {"ttcp": TransientTCPClient, "ptcp": PersistedTCPClient, "tuds": TransientUDSClient, "puds": PersistedUDSClient, "udp": UDPClient}
            base = real.get(r.get("client"), ClientBase)
            page = page_of[(inc - 1) % len(page_of)][ri] if page_of else r["page"]

            class Client(base):
                async def _send_message_retry_loop(self, request):
                    if base is not ClientBase:
                        return await super()._send_message_retry_loop(request)
                    raise AssertionError

                async def send_message(self, route_key, data, response_dto_type=EmptyDto, span_key=None):
                    k = eng.num(str(span_key))
                    a = eng.att.get(k, 0)
                    eng.att[k] = a + 1
                    if not node.crashed:
                        eng.last_activity = sim.now
                        if eng.active.get(ri) is not None:
                            w.violate("overlap", f"send {a} of message {k} on {r['name']} starts while message {eng.active[ri]} is still being sent")
                        eng.active[ri] = k
                    sim.rec("start", r=ri, key=k, a=a, inc=inc)
                    got = data.model_dump() if typ is Body else {}
                    want = eng.want(k) if typ is Body else {}
                    if k not in eng.body or eng.body[k][0] != ri or got != want or route_key != r["name"]:
                        w.violate("content", f"send {a} on {r['name']}: span key {k} came with {str(got)[:300]}, given was {str(want)[:300]} to sender {eng.body.get(k, ['?'])[0]}")
                    out = "ok"
                    ret = None
                    try:
                        try:
                            if base is ClientBase:
                                seq = plan["outc"].get(str(k)) or [["ok", 0]]
                                out, dur = seq[min(a, len(seq) - 1)]
                                if dur:
                                    await asyncio.sleep(dur)
                                if out in ("fail", "mutate"):
                                    raise ServerBusyException("planned")
                                if out == "raise":
                                    raise CommunicationsMaxRetriesReached()
                                if out == "none":
                                    raise mod([ProcessingException("planned"), ValueError("planned"), TimeoutError(), ConnectionRefusedError(111, "planned"), Odd("planned"), IndexError("planned"),
                                               RuntimeError("planned"), NotImplementedError()], k)
                            else:
                                ret = await super().send_message(route_key, data, response_dto_type, span_key)
                        finally:
                            if not node.crashed:
                                eng.active[ri] = None
                                eng.last_activity = sim.now
                    except asyncio.CancelledError:
                        sim.rec("cancelled", r=ri, key=k, a=a, inc=inc)
                        raise
                    except (ServerBusyException, CommunicationsMaxRetriesReached) as x:
                        sim.rec("end", r=ri, key=k, a=a, inc=inc, ok=False, out="busy" if isinstance(x, ServerBusyException) else "comm")
                        raise
                    except Exception as x:
                        sim.rec("end", r=ri, key=k, a=a, inc=inc, ok=False, out="park", exc=type(x).__name__, what=str(x)[:100])
                        raise
                    sim.rec("end", r=ri, key=k, a=a, inc=inc, ok=True, out="ok")
                    return ret if ret is not None else EmptyDto()

            client = Client(*r.get("cargs", []))

            async def compose(dto, span_key):
                return dto
            send = buffered_sender(client, r["name"], typ, **{k: v for k, v in (("wait_period", r.get("wait", 0)), ("page_size", page), ("max_retries", r["retries"])) if v})(compose)

            async def enq(dto, span_key):
                await send(dto, span_key=span_key)
                return EmptyDto()
            enq.__name__ = f"enq{ri}"
            endpoint("enq." + r["name"], typ)(enq)

        def make(ri, r):
            if r.get("kind") == "sender":
                return make_sender(ri, r)
            typ = Body if r.get("dto", 1) else EmptyDto
            page = r["page"]
            if page_of:
                page = page_of[(inc - 1) % len(page_of)][ri]

            async def handler(dto, span_key):
                k = eng.num(str(span_key))
                a = eng.att.get(k, 0)
                eng.att[k] = a + 1
                if not node.crashed:
                    eng.last_activity = sim.now
                    if eng.active.get(ri) is not None:
                        w.violate("overlap", f"attempt {a} at message {k} on {r['name']} starts while message {eng.active[ri]} is still being handled")
                    eng.active[ri] = k
                sim.rec("start", r=ri, key=k, a=a, inc=inc)
                got = dto.model_dump() if typ is Body else {}
                want = eng.want(k) if typ is Body else {}
                if k not in eng.body or eng.body[k][0] != ri or got != want:
                    w.violate("content", f"attempt {a} on {r['name']}: span key {k} came with {str(got)[:300]}, sent was {str(want)[:300]} to route {eng.body.get(k, ['?'])[0]}")
                seq = plan["outc"].get(str(k)) or [["ok", 0]]
                out, dur = seq[min(a, len(seq) - 1)]
                try:
                    if out == "mutate" and typ is Body:
                        dto.n = -1
                        if isinstance(dto.body, (dict, list)):
                            dto.body.clear()
                        dto.body = "mutated"
                    if dur:
                        await asyncio.sleep(dur)
                except asyncio.CancelledError:
                    sim.rec("cancelled", r=ri, key=k, a=a, inc=inc)
                    if plan.get("cleanup"):
                        await asyncio.sleep(plan["cleanup"])
                    raise
                finally:
                    if not node.crashed:
                        eng.active[ri] = None
                        eng.last_activity = sim.now
                sim.rec("end", r=ri, key=k, a=a, inc=inc, ok=out == "ok", out=out)
                if out == "ok":
                    return mod(TRUE, k)
                if out == "raise":
                    raise mod(EXC, k)(f"planned failure of {k}")
                if out == "none":
                    return None
                return mod(FALSE, k)
            handler.__name__ = f"handler{ri}"
            buffered_endpoint(r["name"], typ, page_size=page, **({"max_retries": r["retries"]} if r["retries"] else {}))(handler)

        class Mw(BufferedMiddlewareBase):
            def __init__(self, i):
                self.i = i

            async def _d(self, k, what):
                d = plan.get("mwdelay") or 0
                if d:
                    r = random.Random(f"{plan['seed']}/mw/{k}/{self.i}/{what}")
                    if r.random() < 0.5:
                        await asyncio.sleep(r.uniform(0, d))

            async def before_push(self, span_key, dto):
                k = eng.num(str(span_key))
                sim.rec("bpush", i_=self.i, key=k)
                await self._d(k, "bp")
                return {f"m{self.i}": f"meta-{k}", "last": self.i} if (self.i + (k if isinstance(k, int) else 0)) % 5 else {}

            async def before_process(self, span_key, dto, metadata, retries):
                k = eng.num(str(span_key))
                sim.rec("bproc", i_=self.i, key=k, md=dict(metadata), retries=retries, inc=inc)
                await self._d(k, f"b{eng.att.get(k, 0)}")
                if plan.get("mwraise") == ["before", self.i, k, eng.att.get(k, 0)]:
                    sim.rec("mwraise", i_=self.i, key=k, where="before")
                    raise KeyError("planned middleware failure")

            async def after_process(self, span_key, dto, metadata, success):
                k = eng.num(str(span_key))
                sim.rec("aproc", i_=self.i, key=k, md=dict(metadata), success=success, inc=inc)
                await self._d(k, f"a{eng.att.get(k, 0)}")
                if plan.get("mwraise") == ["after", self.i, k, eng.att.get(k, 0) - 1]:
                    sim.rec("mwraise", i_=self.i, key=k, where="after")
                    raise KeyError("planned middleware failure")

        for i in range(plan.get("mw", 0)):
            BufferedMiddlewareManager().add(Mw(i))
        for ri, r in enumerate(self.routes):
            make(ri, r)

    def wrap(self, node, base):
        eng, plan = self, self.plan

        class SimApp(base):
            async def setup_tasks(self, tasks):
                import asyncio
                main = asyncio.current_task()

                async def up():             # everything else has been set up by then
                    if main.done():         # or has failed to be
                        return
                    eng.sim.rec("up", inc=node.env["inc"])
                    for i in eng.start_faults:
                        if disk.fired(i):
                            eng.sim.stats["disk_fault_at_start"] += 1
                        disk.clear(i)
                    eng.start_faults = []
                tasks.append(asyncio.create_task(up()))
                if plan.get("exc") is not None and node.env["inc"] == 1:
                    async def bomb():
                        await asyncio.sleep(max(0.0, plan["exc"] - eng.sim.now))
                        eng.sim.rec("bomb")
                        raise RuntimeError("planned end of the application")
                    tasks.append(asyncio.create_task(bomb()))
        return SimApp

    def start(self):
        if self.closing and not self.want_up:
            return
        self.starts += 1
        n = self.w.app("srv", self.setup, tcp=None if self.uds else PORT, uds="srv.sock" if self.uds else None, wrap=self.wrap,
                       env=self.plan.get("env"))
        self.node = n
        self.active = {}
        for i in self.start_faults:
            if disk.fired(i):
                self.sim.stats["disk_fault_at_start"] += 1
            disk.clear(i)
        self.start_faults = []
        for ev in self.plan.get("on_start", {}).get(str(n.env["inc"]), []):
            self.apply_event(ev)
        n.start()
        self._watch(n)
        for p in self.peers.values():        # keep-alive of connections to a machine that lost power
            t = p.conn.t if p.conn is not None and not p.conn.closed else None
            if t is not None and not t.gone and t.peer.gone:
                self.sim.after(1.0, t.in_rst)

    def _watch(self, n):
        def poll():
            if n.alive:
                self.sim.after(0.01, poll)
                return
            if self.want_up and self.node is n:
                self.sim.after(self.restart_delay, self.start)
        self.sim.after(0.01, poll)

    # -- faults
    def apply_event(self, ev):
        n, sim, w = self.node, self.sim, self.w
        kind = ev[0]
        if self.faults_over:
            return
        if kind == "sig":
            if n.alive:
                sim.rec("signal", sig=ev[1])
                sim.stats["sig_" + ev[1]] += 1
                n.signal(SIGS[ev[1]])
        elif kind == "linesig":
            if not linefault.armed():
                w.line_signal(n, ev[2], SIGS[ev[1]])
        elif kind == "kill":
            if n.alive:
                sim.rec("crash", how="kill")
                sim.stats["crash_kill"] += 1
                n.crash("kill")
        elif kind == "linekill":
            if not linefault.armed():
                w.line_kill(n, ev[1], len(ev) > 2 and ev[2])
        elif kind == "power":
            if n.alive:
                sim.rec("crash", how="power")
                w.powerloss(n)
        elif kind == "diskcrash":
            n.env["crash_power"] = len(ev) > 4 and ev[4]
            self.disk_ids = getattr(self, "disk_ids", []) + [disk.fault(n.disk, ev[1], ev[2], disk.ACTIONS[ev[3]], 0)]
        elif kind == "diskerr":        # on one route's files only
            fn = f"{n.disk}srv-0-{self.routes[ev[1]]['name']}-{self.routes[ev[1]].get('kind', 'endpoint')}-{ev[2]}.sqlite" if ev[1] is not None else n.disk
            disk.fault(fn, ev[3], ev[4], disk.ACTIONS[ev[5]], ev[6])
            sim.stats["disk_fault_armed"] += 1
        elif kind == "starterr":       # one failing disk operation, at the latest until the application is up
            self.start_faults.append(disk.fault(n.disk, ev[1], ev[2], disk.ACTIONS[ev[3]], 0))
            sim.rec("starterr")
        elif kind == "stall":
            n.stalled_until = sim.now + ev[1]
            sim.stats["stall"] += 1
        elif kind == "clock":
            n.wall_offset += ev[1]
            sim.stats["clock_jump"] += 1
        elif kind == "reset":
            c = self.w.net.live_conns()
            if c:
                self.w.net.reset(c[ev[1] % len(c)])
        elif kind == "cut":
            for h in {p.owner.host for p in self.peers.values()}:
                self.w.net.partition(h, "srv")
            sim.after(ev[1], self.w.net.heal_all)
        else:
            raise AssertionError(ev)

    # -- traffic
    def peer(self, c):
        p = self.peers.get(c)
        if p is None:
            p = self.peers[c] = Peer(self.w, f"peer{c}", self.key)
        return p

    def send(self, ri, k, body, conn, raw=None):
        sk = self.sk(k)
        r = self.routes[ri]
        data = self.sent(k) if r.get("dto", 1) else {}
        e = self.sim.rec("send", r=ri, key=k, conn=conn)
        tag = e["i"]

        def cb(st, d, resp):
            self.sim.rec("resp", of=tag, r=ri, key=k, status=st, note=str(d)[:80] if st != 0 else None)
            if st == 0 and r.get("kind") == "sender":
                if resp.get("span_key") != sk:
                    self.w.violate("ack-span-key", f"acknowledgement of message {k} carries {resp.get('span_key')}")
            elif st == 0:
                got = (resp or {}).get("data") or {}
                if resp.get("span_key") != sk or got.get("span_key") != sk:
                    self.w.violate("ack-span-key", f"acknowledgement of message {k} carries {resp.get('span_key')} / {got}")
        self.peer(conn).call("enq." + r["name"] if r.get("kind") == "sender" else r["name"], sk, data, cb)

    def manage(self, op, route, k, conn, cb=None):
        name = self.routes[route]["name"] if isinstance(route, int) else route
        data = {"queue_route_key": name}
        snd = isinstance(route, int) and self.routes[route].get("kind") == "sender"
        if snd and op in ("prp", "unrp", "pall", "unpall"):
            op = {"prp": "ppp", "unrp": "unpp", "pall": "ppp", "unpall": "unpp"}[op]
        if isinstance(route, str) and route.startswith("s!"):
            snd, name = True, route[2:]
            data = {"queue_route_key": name}
        prefix, ops = ("eco.buffered_sender.", SENDER_OPS) if snd else ("eco.buffered_handler.", OPS)
        if k is not None:
            data["span_key"] = self.sk(k)
        e = self.sim.rec("mreq", op=op, r=route, key=k)
        tag = e["i"]

        def done(st, d, resp):
            res = self.parse(op, st, d)
            self.sim.rec("mresp", of=tag, op=op, r=route, key=k, res=res)
            if cb:
                cb(res, d)
        self.mseq = getattr(self, "mseq", 0) + 1
        self.peer(conn).call(prefix + ops[op], span_key(f"{self.plan['seed']}/mgmt/{self.mseq}"), data, done)

    def parse(self, op, st, d):
        """Canonical result of a management request: ("none",) unknown queue, ("nokey",), ("ok", sizes/flags or keys, content)."""
        if st is None:
            return None
        if st != 0 or not isinstance(d, dict):
            return ("status", st, str(d)[:120])
        q = d.get("queue_data")
        msg = d.get("message", "")
        if q is None:
            if msg.startswith("No queue for") or msg.startswith("No buffered"):
                return ("none",)
            if "No request with span-key" in msg:
                return ("nokey",)
            return ("odd", msg)
        if isinstance(q, list):
            return ("ok", tuple(self.num(x) for x in q), None)
        content = d.get("request_data")
        return ("ok", (q["database_sizes"]["pending"], q["database_sizes"]["error"], q.get("receiving_paused", False),
                       q["processing_paused"] if "processing_paused" in q else q.get("send_process_paused")),
                json.dumps(finite(content), sort_keys=True) if op in ("inspect", "pop", "re1") else None)

    # -- phases
    def run(self):
        plan, sim = self.plan, self.sim
        for m in plan["msgs"]:
            self.sk(m[2])
        self.start()
        for m in plan["msgs"]:
            sim.at(m[0], self.send, m[1], m[2], m[3], m[4])
        for g in plan.get("mgmt", []):
            sim.at(g[0], self.manage, g[1], g[2], g[3], g[4] if len(g) > 4 else 900)
        for ev in plan.get("events", []):
            sim.at(ev[0], self.apply_event, ev[1:])
        while sim.now < plan["T"]:
            sim.run(plan["T"])

    def settle(self, limit):
        """Faults are over: a running application, no further stimulus, until nothing has happened for a while."""
        sim = self.sim
        self.faults_over = True
        linefault.disarm()
        disk.clear_all()
        self.w.net.heal_all()
        while self.node.stalled_until > sim.now:
            sim.run(self.node.stalled_until)
        inc = None
        end = sim.now + limit
        while sim.now < end:
            if not self.node.alive or self.node.env["inc"] != inc:
                inc = self.node.env["inc"]
                self.last_activity = max(self.last_activity, sim.now)
            if self.node.alive and not any(p.waiting for p in self.peers.values()) and not any(v is not None for v in self.active.values()) and sim.now - self.last_activity > self.plan.get("idle", 2.0):
                return True
            sim.run_for(0.25)
        return False

    def ask(self, op, route, k=None, limit=30.0, conn=None):
        """Synchronous management request in the final phase."""
        out = []
        self.aseq = getattr(self, "aseq", 0) + 1
        self.manage(op, route, k, conn if conn is not None else 990, lambda res, d: (out.append((res, d)), self.sim.wake_main()))
        self.sim.run_until(lambda: out, limit, step=limit)
        if not out:
            self.w.violate("no-answer", f"management request {op} on {route} got no answer within {limit} s")
            return None, None
        return out[0]

    def drain_errors(self, ri):
        """Take everything out of an error queue: list of (key, content) in order."""
        out = []
        for _ in range(400):
            res, d = self.ask("first10", ri)
            if not res or res[0] != "ok":
                self.w.violate("error-listing", f"first ten of route {ri}: {res}")
                return out
            if not res[1]:
                return out
            for k in res[1]:
                if not isinstance(k, int):
                    self.w.violate("unknown-key", f"error queue of route {ri} lists unknown span key {k}")
                    return out
                r2, d2 = self.ask("pop", ri, k)
                if k in self.poison and r2 and r2[0] == "status":     # it can not be shown
                    out.append((k, None))
                    continue
                if not r2 or r2[0] != "ok":
                    self.w.violate("error-pop", f"route {ri}: key {k} is listed among the first ten but pop says {r2}")
                    return out
                out.append((k, r2[2]))
        self.w.violate("error-listing", f"error queue of route {ri} never becomes empty")
        return out

    def stop(self, bound=5.0):
        """Final graceful stop."""
        self.want_up = False
        self.closing = True
        n = self.node
        t0 = self.sim.now
        self.sim.rec("signal", sig="TERM", final=True)
        n.signal(signal.SIGTERM)
        self.sim.run_until(lambda: not n.alive, bound + 1)
        if n.alive:
            self.w.violate("no-termination", f"the application still runs {bound} s after SIGTERM")
            return
        if n.exit_exc is not None:
            self.w.violate("shutdown-exception", f"the application ended with {type(n.exit_exc).__name__}: {str(n.exit_exc)[:300]}")

    # ------------------------------------------------------------------ history
    def messages(self):
        """key -> dict(route, sends=[(send_i, resp_i, status)], attempts=[dict])"""
        M = {}
        att = {}
        h = self.sim.history
        byi = {}
        for e in h:
            k = e["k"]
            if k == "send":
                m = M.setdefault(e["key"], {"route": e["r"], "sends": [], "attempts": []})
                s = {"i": e["i"], "ri": None, "status": None}
                m["sends"].append(s)
                byi[e["i"]] = s
            elif k == "resp":
                s = byi[e["of"]]
                s["ri"], s["status"], s["note"] = e["i"], e["status"], e.get("note")
            elif k == "start":
                m = M.setdefault(e["key"], {"route": e["r"], "sends": [], "attempts": []})
                a = {"i": e["i"], "a": e["a"], "inc": e["inc"], "end": None, "out": "running", "t": e["t"], "r": e["r"]}
                m["attempts"].append(a)
                att[(e["key"], e["a"])] = a
            elif k in ("end", "cancelled"):
                a = att.get((e["key"], e["a"]))
                if a and a["end"] is None:
                    a["end"] = e["i"]
                    a["out"] = e["out"] if k == "end" else "cancelled"
        return {k: m for k, m in M.items() if k in self.body}      # an unknown span key has been reported where it turned up

    # -- linearizability of everything that happened on one route
    def refine(self, ri, cls="refinement", idle=True):
        """The whole history of route ri must be explained by: pending FIFO map, error FIFO map, one item in hand."""
        r = self.routes[ri]
        maxr = max(1, r["retries"])
        h = self.sim.history
        ops = []
        last = -1
        open_push = {}
        open_m = {}
        cur = hand = None
        takes = []
        cause = None
        epoch = 0
        mw = self.plan.get("mw", 0) if r.get("kind") != "sender" else 0
        nend = len(h)
        prev_done = -1
        for e in h:
            k = e["k"]
            if k == "send" and e["r"] == ri:
                o = {"inv": e["i"], "ret": None, "op": ("push", e["key"]), "res": "ack"}
                open_push[e["i"]] = o
                ops.append(o)
            elif k == "resp" and e["r"] == ri:
                o = open_push[e["of"]]
                if e["status"] == 0:
                    o["ret"] = e["i"]
                    if e["key"] in self.poison:
                        ops.append({"inv": e["of"], "ret": None, "op": ("park", e["key"]), "res": True})
                elif e["status"] == 500:
                    o["ret"], o["op"], o["res"] = e["i"], ("push", e["key"]), "busy"
                elif e["status"] is None:
                    if str(e.get("note", "")).startswith("closed:ConnectionRefused"):
                        ops.remove(o)
                    elif e["key"] in self.poison:     # otherwise it may or may not have been accepted
                        ops.append({"inv": e["of"], "ret": None, "op": ("park", e["key"]), "res": True})
                else:
                    self.w.violate("status", f"request {e['key']} on {r['name']} was answered with status {e['status']} ({e.get('note')})")
                    ops.remove(o)
            elif k in ("bproc", "start") and self.route_of(e) == ri:
                if k == "bproc" and e["i_"] != 0 or k == "start" and mw:
                    continue                 # the attempt began with the first hook
                if cur is not None:
                    cur["ret"] = e["i"]
                ops.append({"inv": prev_done, "ret": e["i"], "op": ("take", e["key"]), "res": True})
                takes.append((epoch, e["key"]))
                cur = None
                hand = e
            elif (k in ("end", "cancelled") or k == "mwraise" and e["where"] == "before") and self.route_of(e) == ri:
                cur = {"inv": e["i"], "ret": nend, "op": ("done", e["key"], "cancelled" if k == "cancelled" else "park" if e.get("out") == "park" else bool(e.get("ok"))), "res": True}
                ops.append(cur)
                prev_done = e["i"]
                hand = None
            elif k == "exit" and e["node"] == "srv" and e["how"] == "exit":
                if hand is not None:         # interrupted between the hook and the handler
                    cur = {"inv": hand["i"], "ret": nend, "op": ("done", hand["key"], "cancelled"), "res": True}
                    ops.append(cur)
                    hand = None
                why = cause if cause is not None else prev_done
                ops.append({"inv": max(why, prev_done), "ret": None, "op": ("bounce", epoch), "res": True})
                if r.get("wait"):            # a sender holds a message for a while before it sends it
                    ops.append({"inv": prev_done, "ret": None, "op": ("hold", epoch), "res": True})
                ops.append({"inv": why, "ret": None, "op": ("closing", epoch), "res": True})
                epoch += 1
                cause = None
            elif k in ("signal", "linefault", "bomb", "starterr"):
                cause = e["i"] if cause is None else cause
            elif k == "mreq" and e["r"] == ri:
                o = {"inv": e["i"], "ret": None, "op": (e["op"], e["key"]), "res": None}
                open_m[e["i"]] = o
                ops.append(o)
            elif k == "mresp" and e["of"] in open_m:
                o = open_m[e["of"]]
                if e["key"] in self.poison and e["op"] == "pop" and (e["res"] or [0])[0] == "status":
                    o["ret"], o["op"], o["res"] = e["i"], ("drop", e["key"]), True
                elif e["res"] is not None:
                    o["ret"], o["res"] = e["i"], e["res"]
                elif o["op"][0] in ("data", "first10", "inspect"):
                    ops.remove(o)
            elif k == "up" and e["inc"] > 1:
                # a graceful restart: pauses are gone; in-hand item was put back
                if cur is not None:
                    cur["ret"] = e["i"]
                    cur = None
                ops.append({"inv": self._exit_index(h, e["i"]), "ret": e["i"], "op": ("restart", epoch), "res": True})
        if idle:        # nothing is pending at the end: an unanswered push that is not taken afterwards had no effect
            last_take = {}
            for o in ops:
                if o["op"][0] == "take":
                    last_take[o["op"][1]] = o["ret"]
            ops = [o for o in ops if not (o["op"][0] == "push" and o["ret"] is None and o["op"][1] not in self.poison and last_take.get(o["op"][1], -1) < o["inv"])]
        def content(k):
            return json.dumps(finite(self.want(k)) if r.get("dto", 1) else {}, sort_keys=True)

        def apply0(st, op):
            pend, err, hand, rp, pp, ep, tc = st
            k = op[0]
            if k == "push":
                if rp:
                    return st, "busy"
                if not any(x == op[1] for x, _ in pend):
                    pend = pend + ((op[1], 0),)
                return (pend, err, hand, rp, pp, ep, tc), "ack"
            if k == "take":
                if pp or hand is not None or not pend or pend[0][0] != op[1]:
                    return None, None
                return (pend[1:], err, pend[0], rp, pp, ep, tc + 1), True
            if k == "done":
                if hand is None or hand[0] != op[1]:
                    return None, None
                if op[2] is True:
                    return (pend, err, None, rp, pp, ep, tc), True
                if op[2] == "cancelled":
                    if not any(x == op[1] for x, _ in pend):
                        pend = pend + (hand,)
                    return (pend, err, None, rp, pp, ep, tc), True
                n = hand[1] + 1
                if n >= maxr or op[2] == "park":
                    if op[1] not in err:
                        err = err + (op[1],)
                elif not any(x == op[1] for x, _ in pend):
                    pend = pend + ((op[1], n),)
                return (pend, err, None, rp, pp, ep, tc), True
            if k == "park":                  # its content does not fit: straight to the error queue
                if pp or hand is not None or not pend or pend[0][0] != op[1]:
                    return None, None
                return (pend[1:], err if op[1] in err else err + (op[1],), None, rp, pp, ep, tc), True
            if k == "drop":                  # popped, and not fit to be shown
                if op[1] not in err:
                    return None, None
                return (pend, tuple(x for x in err if x != op[1]), hand, rp, pp, ep, tc), True
            if k == "hold":
                if op[1] != ep or pp or hand is not None or not pend or tc < len(takes) and takes[tc][0] == ep:
                    return None, None
                return (pend[1:], err, ("held", pend[0]), rp, pp, ep, tc), True
            if k == "bounce" and hand is not None and hand[0] == "held":
                if op[1] != ep:
                    return None, None
                return (pend + hand[1:], err, None, rp, pp, ep, tc), True
            if k == "bounce":                # taken and put back while the application was ending
                if op[1] != ep or hand is not None or not pend or tc < len(takes) and takes[tc][0] == ep:
                    return None, None
                return (pend[1:] + pend[:1], err, None, rp, pp, ep, tc), True
            if k == "closing":               # an application that is ending takes and starts nothing any more
                if op[1] != ep:
                    return None, None
                return (pend, err, hand, True, True, ep, tc), True
            if k == "restart":
                return (pend, err, hand, False, False, op[1], tc), True
            c = None
            if k in ("inspect", "pop", "re1"):
                if op[1] not in err:
                    return st, ("nokey",)
                c = content(op[1])
                if k != "inspect":
                    err = tuple(x for x in err if x != op[1])
                if k == "re1" and not any(x == op[1] for x, _ in pend):
                    pend = pend + ((op[1], 0),)
            elif k == "clear":
                err = ()
            elif k == "reall":
                have = {x for x, _ in pend}
                pend = pend + tuple((x, 0) for x in err if x not in have)
                err = ()
            elif k == "first10":
                return st, ("ok", err[:10], None)
            elif k in ("prp", "pall"):
                rp = True
            elif k in ("unrp", "unpall"):
                rp = False
            if k in ("ppp", "pall"):
                pp = True
            elif k in ("unpp", "unpall"):
                pp = False
            return (pend, err, hand, rp, pp, ep, tc), ("ok", (len(pend), len(err), rp, pp), c)

        def apply(st, op):
            st2, res = apply0(st, op)
            if st2 is not None and st2 is not st:
                # pending is first in, first out: it must be the prefix of what is still going to be taken in this life
                tc, ep = st2[6], st2[5]
                for x, _ in st2[0]:
                    if x in self.poison:
                        continue
                    if tc >= len(takes) or takes[tc][0] != ep:
                        break
                    if takes[tc][1] != x:
                        return None, None
                    tc += 1
            return st2, res

        best = [0, [], None]
        ok, _ = lin.linearizable(ops, ((), (), None, False, False, 0, 0), apply, budget=60_000, best=best)
        if ok is None:
            self.sim.stats["refinement_budget_exceeded"] += 1
        elif ok is False:
            nxt = [(o["op"], o["res"]) for o in best[1]][:6]
            self.w.violate(cls, f"no model run explains route {r['name']} (page {r['page']}, retries {r['retries']}): after {best[0]} of {len(ops)} "
                           f"operations the model holds pending={best[2][0]}, error={best[2][1]}, in hand={best[2][2]}, paused={best[2][3:5]} "
                           f"and none of these fits: {nxt}")
        else:
            self.sim.stats["refinement_ok"] += 1
        return ops

    @staticmethod
    def _exit_index(h, i):
        while i > 0:
            i -= 1
            if h[i]["k"] == "exit":
                return i
        return -1

    # -- conservation: what must have become of every acknowledged message (no crash losses)
    def conserve(self, M, errors, removed=(), lost_ok=None, skip_routes=()):
        for k, m in sorted(M.items(), key=lambda x: str(x[0])):
            if m["route"] in skip_routes or not any(s["status"] == 0 for s in m["sends"]):
                continue
            done = [a for a in m["attempts"] if a["out"] == "ok"]
            in_err = k in errors[m["route"]]
            if not done and not in_err and k not in removed and not (lost_ok and lost_ok(k, m)):
                self.w.violate("lost", f"message {k} on {self.routes[m['route']]['name']} was acknowledged but is neither completed nor in a queue; "
                               f"attempts: {[(a['a'], a['out'], a['inc']) for a in m['attempts']]}")

    # -- common last phase: unpause, let everything be worked off, take the error queues apart
    def last_phase(self, per_message=0.6, unpause=True, stop=True):
        w = self.w
        limit = 60 + per_message * 8 * len(self.plan["msgs"])
        if not self.settle(limit):
            w.violate("no-progress", "the application does not come to rest")
            return None
        before = []
        for ri in range(len(self.routes)):
            res, _ = self.ask("data", ri)
            if res is None or res[0] != "ok":
                w.violate("data", f"data of {self.routes[ri]['name']}: {res}")
                return None
            before.append(res[1])
            if res[1][0] != 0 and not res[1][3]:
                w.violate("not-processed", f"{self.routes[ri]['name']} is idle with (pending, error, receiving paused, processing paused) = {res[1]}")
        if unpause:
            for ri, b in enumerate(before):
                if b[3]:
                    self.ask("unpp", ri)
                if b[2]:
                    self.ask("unrp", ri)
            if not self.settle(limit):
                w.violate("no-progress", "the application does not come to rest after the last unpause")
                return None
        errors = []
        for ri in range(len(self.routes)):
            res, _ = self.ask("data", ri)
            if res is None or res[0] != "ok":
                w.violate("data", f"data of {self.routes[ri]['name']}: {res}")
                return None
            if unpause and res[1][0] != 0:
                w.violate("not-processed", f"{self.routes[ri]['name']} was unpaused and is idle with {res[1]}")
            got = self.drain_errors(ri)
            if len(got) != res[1][1]:
                w.violate("error-size", f"{self.routes[ri]['name']}: error size {res[1][1]}, entries {len(got)}")
            errors.append({k for k, _ in got})
        if stop:
            self.stop()
        return errors

    def popped(self):
        """Keys that management took out of an error queue (answered or not)."""
        out = set()
        every = set()
        for e in self.sim.history:
            if e["k"] == "mreq" and e["op"] == "pop":
                out.add(e["key"])
            elif e["k"] == "mreq" and e["op"] == "clear":
                every.add(e["r"])
        return out, every
