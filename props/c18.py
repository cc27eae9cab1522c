"""C18: tracing emits one ended span per request and per attempt, correctly parented."""
import copy
import json
import random

from sim import disk, net as simnet, runner
from sim.core import SimLimit
from sim.world import Peer, World, span_key

TIERS = {
    "quick": {"runs": 1000, "wall": 100},
    "thorough": {"runs": 40000, "wall": 1500},
}
RULE = "distinct event logs of runs with overlapping requests or attempts, a failure or a restart"
REAL = ["ekosis_otlp_traces (both middlewares, setup)", "ekosis servers, router, middleware managers, buffered endpoints, queues, clients", "opentelemetry-sdk tracer and spans", "asyncio"]
STUB = ["network", "clock", "disk", "BatchSpanProcessor and OTLP exporter (a recorder that sees every span start and end)"]
ASSUMPTIONS = ["span keys with a zero trace or span id (invalid in OpenTelemetry) are not sent", "a request that is answered with an error, and an attempt that is interrupted, need not leave a span"]
PROBES = ["same-key-overlap", "same-key-two-routes", "nested", "callback", "fan-out", "retry", "error-queue", "reprocessed", "restart-between", "untraced-before", "failed-request", "refused", "unknown-route", "invalid-data",
          "udp", "client-retry", "killed", "terminated", "shared-dto", "setup-helper", "manual", "attempts-overlap", "interrupted-attempt"]
PORT = {"front": 8810, "back": 8820}
BUF = ["q.one", "q.two"]
DIR = ["d.one", "d.two"]


# ------------------------------------------------------------------ generation
def script(r, depth, me):
    """What the handler of one request does."""
    s = []
    for _ in range(r.choice([0, 1, 1, 2])):
        k = r.random()
        if k < 0.5 or depth <= 0:
            s.append(["sleep", r.choice([0, 0.001, 0.01, 0.1, 0.5, 1.5])])
        elif k < 0.8:
            s.append(["call", call(r, depth - 1, me)])
        else:
            s.append(["par", [call(r, depth - 1, me) for _ in range(r.choice([2, 2, 3]))]])
    if r.random() < 0.12:
        s.append(["fail", r.choice(["app", "exc", "response"])])
    return s


def call(r, depth, me):
    to = r.choice([me, "back" if me == "front" else "front", "back" if me == "front" else "front"])
    buf = r.random() < 0.35
    c = {"to": to, "route": r.choice(BUF if buf else DIR), "client": r.choice(["ttcp", "ptcp", "udp"]), "timeout": r.choice([0.3, 5.0, 5.0]), "key": r.random() < 0.85}
    c["body"] = {"s": [], "att": attempts(r)} if buf else {"s": script(r, depth, to), "att": []}
    return c


def attempts(r):
    return [[r.choice([0, 0.001, 0.01, 0.2, 1.0]), r.choice(["ok", "ok", "fail", "raise"])] for _ in range(r.choice([1, 1, 2, 3, 5]))]


def generate(seed, tier):
    r = random.Random("c18/" + seed)
    two = r.random() < 0.7
    p = {"seed": seed, "two": two, "helper": r.random() < 0.5, "shared": r.random() < 0.4, "order": r.choice([0, 1, 2]), "mwdelay": r.choice([0, 0, 0.01, 0.3]),
         "retries": [r.choice([0, 1, 2, 3, 4]) for _ in BUF], "pages": [r.choice([1, 2, 3, 100]) for _ in BUF], "reqs": [], "mgmt": [], "events": [],
         "untraced": r.random() < 0.15, "inst": r.choice(["0", "main", "7"]), "name": r.choice(["front", "tracker"]),
         "net": {"lat": r.choice([[0.0001, 0.003], [0.001, 0.05], [0.01, 0.4]]), "spike_p": r.choice([0, 0, 0.05]), "loss": r.choice([0, 0, 0.1]), "dup": r.choice([0, 0, 0.2])}}
    span = r.choice([1.0, 3.0, 8.0])
    keys = r.choice([1, 2, 4, 30])
    for i in range(r.choice([1, 2, 4, 8, 14])):
        me = r.choice(["front", "back"]) if two else "front"
        buf = r.random() < 0.45
        route = r.choice(BUF if buf else DIR)
        body = {"s": [], "att": attempts(r)} if buf else {"s": script(r, 2 if two else 0, me), "att": []}
        odd = r.random()
        if odd < 0.03:
            route = "no.such"
        elif odd < 0.06:
            body = {"s": 5}
        p["reqs"].append([round(r.uniform(0.3, 0.3 + span), 4), me, route, r.randrange(keys), body, r.randrange(4), r.random() < 0.12])
    p["reqs"].sort(key=lambda q: q[0])
    for _ in range(r.choice([0, 0, 1, 3, 6])):
        p["mgmt"].append([round(r.uniform(0.5, span + 6), 4), r.choice(["front", "back"]) if two else "front", r.choice(["reall", "reall", "re1", "ppp", "unpp", "prp", "unrp"]), r.choice(BUF), r.randrange(keys)])
    for _ in range(r.choice([0, 0, 0, 1, 2, 3])):
        p["events"].append([round(r.uniform(0.4, span + 4), 4), r.choice(["front", "back"]) if two else "front", r.choice(["kill", "term", "term", "stall", "linekill", "resets"]), r.choice([0.05, 0.5, 2.0]), r.randrange(1, 900)])
    p["_shrink"] = ["reqs", "mgmt", "events"]
    return p


def shrink(plan):
    for i, q in enumerate(plan["reqs"]):
        if not isinstance(q[4].get("s"), list):
            continue
        for f in ("s", "att"):
            for j in range(len(q[4].get(f) or [])):
                c = copy.deepcopy(plan)
                del c["reqs"][i][4][f][j]
                if f == "att" and not c["reqs"][i][4][f]:
                    continue
                yield c
    for k, v in (("mwdelay", 0), ("untraced", False), ("shared", False), ("two", None)):
        if plan[k] and v is not None:
            c = copy.deepcopy(plan)
            c[k] = v
            yield c


# ------------------------------------------------------------------ the recorder, in the place of the exporter
class Exporter:
    def __init__(self, endpoint=None, **kw):
        self.endpoint = endpoint

    def export(self, spans):
        raise AssertionError("not reached: the recorder does not export")

    def shutdown(self):
        pass

    def force_flush(self, timeout_millis=0):
        return True


def here():
    """(run, node) of the simulated process that is executing."""
    from sim import core
    s = core.ACTIVE
    return getattr(s, "_c18", None), (s.current if s else None)


class Recorder:
    """A SpanProcessor: what the SDK tells about each span."""
    def __init__(self, exporter, **kw):
        self.run, self.node = here()
        self.run.exporters.append((self.node.name, getattr(exporter, "endpoint", None)))

    def on_start(self, span, parent_context=None):
        self.run.span_started(self.node, span)

    def on_end(self, span):
        self.run.span_ended(self.node, span)

    def _on_ending(self, span):
        pass

    def shutdown(self):
        pass

    def force_flush(self, timeout_millis=0):
        return True


_ready = False


def stub():
    global _ready
    if _ready:
        return
    _ready = True
    import atexit
    import logging
    import types
    import opentelemetry.exporter.otlp.proto.http.trace_exporter as exp
    import opentelemetry.sdk.resources as res
    import opentelemetry.sdk.trace as sdk
    import opentelemetry.sdk.trace.export as ex
    from opentelemetry import trace
    logging.getLogger("opentelemetry").disabled = True
    ex.BatchSpanProcessor = Recorder
    exp.OTLPSpanExporter = Exporter
    sdk.atexit = types.SimpleNamespace(register=lambda f: f, unregister=lambda f: None)      # one simulated process ends, not this one

    def aggregated(detectors, initial_resource=None, timeout=5):      # the SDK runs them in real threads
        out = initial_resource or res.Resource.create()
        for d in detectors:
            out = out.merge(d.detect())
        return out
    res.get_aggregated_resources = aggregated

    def set_tp(p):                                                     # "the global provider" is one per simulated process
        n = here()[1]
        if n is not None and "otel" not in n.env:
            n.env["otel"] = p

    def get_tp():
        n = here()[1]
        return n.env["otel"] if n is not None and "otel" in n.env else trace._PROXY_TRACER_PROVIDER
    trace.set_tracer_provider = set_tp
    trace.get_tracer_provider = get_tp


def prepare(scratch):
    stub()


# ------------------------------------------------------------------ the run
class Run:
    def __init__(self, plan):
        stub()
        self.plan = plan
        self.w = World(plan, simnet.NetCfg(**plan["net"]))
        self.sim = self.w.sim
        self.sim._c18 = self
        self.sim.max_steps = 900_000
        self.names = {"front": plan["name"], "back": "dice"}
        self.nodes = {}
        self.want = {}
        self.arrivals = []         # dict per request that reached the router
        self.attempts = []
        self.spans = {}            # span id -> record
        self.order = []
        self.exporters = []
        self.rids = 0
        self.att = {}              # (app, route, rid) -> attempts so far
        self.keys = {}
        self.busy = {}
        self.faulty = bool(plan["events"]) or plan["net"]["loss"] or plan["net"]["dup"]
        self.nontrivial = False
        self.rng = self.sim.rng("mw")

    def sk(self, k):
        d = span_key(f"{self.plan['seed']}/{k}")
        self.keys[d["trace_id"], d["span_id"]] = k
        return d

    def rid(self):
        self.rids += 1
        return self.rids

    # -- spans as the SDK reports them
    def span_started(self, node, span):
        if node.crashed:
            return
        c = span.get_span_context()
        arr = node.env["cv_arr"].get()
        at = node.env["cv_att"].get()
        rec = {"id": c.span_id, "trace": c.trace_id, "name": span.name, "parent": span.parent.span_id if span.parent else None, "remote": span.parent.is_remote if span.parent else None,
               "node": node, "t0": self.sim.now, "t1": None, "ends": 0, "arr": None if at is not None else arr, "att": at, "attrs": {}, "res": dict(span.resource.attributes).get("service.name")}
        self.spans[c.span_id] = rec
        self.order.append(rec)
        self.sim.rec("span", app=node.name, name=span.name)

    def span_ended(self, node, span):
        if node.crashed:
            return
        rec = self.spans.get(span.get_span_context().span_id)
        if rec is None:
            self.w.violate("unknown-span", f"span {span.name} ends, that never started")
            return
        rec["t1"] = self.sim.now
        rec["ends"] += 1
        rec["attrs"] = dict(span.attributes or {})
        rec["name"] = span.name
        rec["status"] = span.status.status_code.name
        self.sim.rec("spanend", app=node.name, name=span.name)

    # -- one application
    def start(self, app):
        inst = self.plan["inst"] if app == "front" else "0"
        nm = self.names[app]
        inc = self.w.incarnation.get(app, 0) + 1
        n = self.w.app(app, self.setup, inst, app_name=nm, tcp=PORT[app], udp=PORT[app] + 1, env={"ECOENV_EXTRA_OTLP_TRACES_ENDPOINT": f"http://otel-{app}:4318/v1/traces"})
        n.env["traced"] = not (self.plan["untraced"] and inc == 1 and app == "front")
        self.nodes[app] = n
        self.want[app] = True
        n.start()

    def setup(self, node):
        run, plan, sim, w = self, self.plan, self.sim, self.w
        import asyncio
        from contextvars import ContextVar
        from typing import Any
        from pydantic import BaseModel
        from ekosis.clients import PersistedTCPClient, TransientTCPClient, UDPClient
        from ekosis.exceptions.application_level import ApplicationProcessingException
        from ekosis.middleware.buffered_middleware_base import BufferedMiddlewareBase
        from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager
        from ekosis.middleware.manager import MiddlewareManager
        from ekosis.middleware.middleware_base import MiddlewareBase
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        from ekosis.requests.endpoint import endpoint
        app = node.name
        cv_arr = node.env["cv_arr"] = ContextVar("arr", default=None)
        cv_att = node.env["cv_att"] = ContextVar("att", default=None)

        class Body(BaseModel):
            rid: int
            s: list
            att: list

        def mark(rec, f):
            if not node.crashed and f not in rec:
                rec[f] = sim.now

        async def nap():
            if plan["mwdelay"]:
                d = run.rng.uniform(0, plan["mwdelay"])
                if d > plan["mwdelay"] / 3:
                    await asyncio.sleep(d)

        class First(MiddlewareBase):
            async def before_routing(self, protocol_dto, **kw):
                k = protocol_dto.span_key
                rec = {"i": len(run.arrivals), "app": app, "node": node, "route": protocol_dto.route_key, "key": (str(k.trace_id), k.span_id.value), "sk": k, "b0": sim.now, "traced": node.env["traced"]}
                if not protocol_dto.route_key.startswith("eco."):
                    for o in run.arrivals:
                        if o["node"] is node and o["key"] == rec["key"] and "a1" not in o and "err" not in o:
                            w.cover.add("same-key-overlap")
                            run.nontrivial = True
                            if o["route"] != rec["route"]:
                                w.cover.add("same-key-two-routes")
                run.arrivals.append(rec)
                cv_arr.set(rec)
                cv_att.set(None)
                await nap()
                return protocol_dto

            async def after_routing(self, protocol_dto, response_dto, **kw):
                mark(cv_arr.get(), "a0")
                await nap()
                return response_dto

        class Last(MiddlewareBase):
            async def before_routing(self, protocol_dto, **kw):
                await nap()
                mark(cv_arr.get(), "b1")
                return protocol_dto

            async def after_routing(self, protocol_dto, response_dto, **kw):
                await nap()
                mark(cv_arr.get(), "a1")
                return response_dto

        class BFirst(BufferedMiddlewareBase):
            async def before_push(self, span_key, dto):
                await nap()
                return {"h": cv_arr.get()["i"]}

            async def before_process(self, span_key, dto, metadata, retries):
                rec = {"i": len(run.attempts), "app": app, "node": node, "key": (str(span_key.trace_id), span_key.span_id.value), "sk": span_key, "b0": sim.now, "retries": retries, "h": metadata.get("h"), "cls": type(dto).__name__, "traced": node.env["traced"]}
                run.attempts.append(rec)
                if any(o is not rec and o["node"] is node and "a1" not in o and "cancelled" not in o for o in run.attempts):
                    w.cover.add("attempts-overlap")
                    run.nontrivial = True
                cv_att.set(rec)
                await nap()

            async def after_process(self, span_key, dto, metadata, success):
                cv_att.get()["success"] = success
                mark(cv_att.get(), "a0")
                await nap()

        class BLast(BufferedMiddlewareBase):
            async def before_push(self, span_key, dto):
                return {}

            async def before_process(self, span_key, dto, metadata, retries):
                await nap()
                mark(cv_att.get(), "b1")

            async def after_process(self, span_key, dto, metadata, success):
                await nap()
                mark(cv_att.get(), "a1")

        MiddlewareManager().add(First())
        BufferedMiddlewareManager().add(BFirst())
        if node.env["traced"]:
            if plan["helper"]:
                w.cover.add("setup-helper")
                from ekosis_otlp_traces.setup import initiate_otlp_tracing
                initiate_otlp_tracing()
            else:
                w.cover.add("manual")
                from ekosis_otlp_traces import OtlpTracingMiddleware, OtlpBufferedTracingMiddleware
                tracer = OtlpTracingMiddleware(endpoint=f"http://otel-{app}:4318/v1/traces")
                MiddlewareManager().add(tracer)
                BufferedMiddlewareManager().add(OtlpBufferedTracingMiddleware(tracer))
        MiddlewareManager().add(Last())
        BufferedMiddlewareManager().add(BLast())

        clients = {}

        def client(c):
            to, kind = c["to"], c["client"]
            cls = {"ttcp": TransientTCPClient, "ptcp": PersistedTCPClient, "udp": UDPClient}[kind]
            if kind != "ttcp" and (to, kind) in clients:
                return clients[to, kind]
            o = cls("127.0.0.1", PORT[to] + (kind == "udp"), timeout=c["timeout"])
            clients[to, kind] = o
            return o

        async def do_call(c, span_key):
            w.cover.add("nested")
            if c["to"] == app:
                w.cover.add("callback")
            if not plan["two"] and c["to"] == "back":
                return
            body = Body(rid=run.rid(), **c["body"])
            try:
                await client(c).send_message(c["route"], body, EmptyLike, span_key=span_key if c["key"] else None)
            except Exception as x:
                sim.rec("callfail", app=app, exc=type(x).__name__)

        class EmptyLike(BaseModel):
            pass

        async def work(s, span_key):
            for x in s:
                if x[0] == "sleep":
                    await asyncio.sleep(x[1])
                elif x[0] == "call":
                    await do_call(x[1], span_key)
                elif x[0] == "par":
                    w.cover.add("fan-out")
                    await asyncio.gather(*[do_call(c, span_key) for c in x[1]])
                elif x[0] == "fail":
                    w.cover.add("failed-request")
                    if x[1] == "app":
                        raise ApplicationProcessingException("planned")
                    if x[1] == "exc":
                        raise RuntimeError("planned")
                    return 5

        seen = {}

        def direct(route):
            async def fn(dto, span_key):
                rec = cv_arr.get()
                rec["rid"] = dto.rid
                if seen.get(dto.rid):
                    w.cover.add("client-retry")
                seen[dto.rid] = True
                mark(rec, "hs")
                try:
                    r = await work(dto.s, span_key)
                except Exception:
                    rec["err"] = True
                    raise
                mark(rec, "he")
                return EmptyLike() if r is None else r
            fn.__name__ = "h_" + route.replace(".", "_")
            endpoint(route, Body)(fn)

        def buffered(j, route):
            typ = Body if plan["shared"] else type(f"Job{j}", (Body,), {})
            if plan["shared"]:
                w.cover.add("shared-dto")

            async def fn(dto, span_key):
                rec = cv_att.get()
                rec["route"] = route
                rec["rid"] = dto.rid
                mark(rec, "hs")
                a = run.att.get((app, route, dto.rid), 0)
                run.att[app, route, dto.rid] = a + 1
                d, o = dto.att[min(a, len(dto.att) - 1)]
                if a:
                    w.cover.add("retry")
                try:
                    if d:
                        await asyncio.sleep(d)
                except asyncio.CancelledError:
                    rec["cancelled"] = True
                    w.cover.add("interrupted-attempt")
                    raise
                mark(rec, "he")
                rec["out"] = o
                if o == "raise":
                    raise RuntimeError("planned")
                return o == "ok"
            fn.__name__ = "b_" + route.replace(".", "_")
            buffered_endpoint(route, typ, page_size=plan["pages"][j], max_retries=plan["retries"][j])(fn)
        for x in DIR:
            direct(x)
        for j, x in enumerate(BUF):
            buffered(j, x)

    # -- traffic
    def send(self, q):
        t, app, route, k, body, conn, udp = q
        if app not in self.nodes:
            app = "front"
        sk = self.sk(k)
        data = {"rid": self.rid(), **body} if body.get("s") != 5 else {"rid": "x", "s": 5}
        plain = isinstance(body.get("s"), list) and all(x[0] == "sleep" for x in body["s"]) and route != "no.such"
        if udp:
            self.w.cover.add("udp")
            self.udp.send(json.dumps({"route_key": route, "span_key": sk, "data": data}).encode() + b"\n", ("127.0.0.1", PORT[app] + 1))
            return

        def cb(status, d, resp):
            if route == "no.such":
                self.w.cover.add("unknown-route")
            elif body.get("s") == 5:
                self.w.cover.add("invalid-data")
            elif status == 500:
                self.w.cover.add("refused")
            elif plain and status not in (0, None):
                self.w.violate("request-broken", f"a plain request to {route} of {app} was answered with status {status}: {str(d)[:300]}")
        self.peer(app, conn).call(route, sk, data, cb)

    def peer(self, app, conn):
        if (app, conn) not in self.busy:
            self.busy[app, conn] = Peer(self.w, f"user{app}{conn}", ("tcp", "127.0.0.1", PORT[app]))
        return self.busy[app, conn]

    def manage(self, m):
        t, app, op, route, k = m
        if app not in self.nodes:
            app = "front"
        name = {"reall": "errors.reprocess.all", "re1": "errors.reprocess.one", "ppp": "processing.pause", "unpp": "processing.unpause", "prp": "receiving.pause", "unrp": "receiving.unpause"}[op]
        data = {"queue_route_key": route}
        if op == "re1":
            sk = self.sk(k)
            data["span_key"] = sk

        def cb(status, d, resp):
            if status == 0 and op in ("reall", "re1"):
                self.w.cover.add("reprocessed")
        self.peer(app, "m").call("eco.buffered_handler." + name, span_key(f"m{t}"), data, cb)

    def event(self, e):
        t, app, kind, d, n = e
        if app not in self.nodes:
            app = "front"
        node = self.nodes[app]
        if kind == "resets":
            for cid in list(self.w.net.live_conns()):
                self.w.net.reset(cid)
            return
        if not node.alive or node.crashed:
            return
        self.nontrivial = True
        if kind == "stall":
            node.stalled_until = self.sim.now + d
            return
        if kind == "linekill":
            self.w.line_kill(node, n)
            self.w.cover.add("killed")
        elif kind == "kill":
            self.w.cover.add("killed")
            node.crash("kill")
        else:
            self.w.cover.add("terminated")
            node.env["asked"] = True
            node.signal(15)
        self.sim.after(d, self.again, app)

    def again(self, app):
        n = self.nodes[app]
        if not self.want.get(app):
            return
        if n.alive and not n.crashed:
            self.sim.after(0.5, self.again, app)
            return
        self.w.cover.add("restart-between")
        self.start(app)

    def watch(self):
        """An application that died by a delayed kill is started again."""
        for app in list(self.nodes):
            n = self.nodes[app]
            if self.want.get(app) and not n.alive:
                if not n.crashed and not n.env.get("asked"):
                    self.w.violate("application-ended", f"{app} ended by itself: {type(n.exit_exc).__name__}: {str(n.exit_exc)[:300]}")
                    self.want[app] = False
                self.again(app)
        self.sim.after(1.0, self.watch)

    def execute(self):
        p, sim = self.plan, self.sim
        self.start("front")
        if p["two"]:
            self.start("back")
        own = simnet.HubOwner("udpuser")
        self.udp = simnet.RawUDP(self.w.net, own, lambda *a: None)
        for q in p["reqs"]:
            sim.at(q[0], self.send, q)
        for m in p["mgmt"]:
            sim.at(m[0], self.manage, m)
        for e in p["events"]:
            sim.at(e[0], self.event, e)
        if p["untraced"]:
            def swap():
                n = self.nodes["front"]
                if n.alive and not n.crashed and n.env["inc"] == 1:
                    n.env["asked"] = True
                    n.signal(15)
            sim.at(2.0, swap)
        sim.after(1.0, self.watch)
        last = max([0] + [x[0] for f in ("reqs", "mgmt", "events") for x in p[f]])
        end = last + 14.0
        try:
            while sim.now < end:
                sim.run(end)
            # everything that waits gets another go
            for app in self.nodes:
                for j, route in enumerate(BUF):
                    for k, op in enumerate(("unrp", "unpp", "reall")):
                        self.manage([f"end{app}{j}{k}", app, op, route, 0])
            end += 12.0
            while sim.now < end:
                sim.run(end)
            self.want = {}
            for n in self.nodes.values():
                if n.alive:
                    n.signal(15)
            end += 8.0
            while sim.now < end and any(n.alive for n in self.nodes.values()):
                sim.run(min(end, sim.now + 1.0))
        except SimLimit as x:
            self.w.violate("stuck", f"the run does not come to rest: {x}")
        self.judge()

    # -- the oracle
    def judge(self):
        w = self.w
        by_arr, by_att = {}, {}
        for s in self.order:
            what = f"span [{s['name']}] of {s['node'].name}"
            if s["att"] is not None:
                by_att.setdefault(s["att"]["i"], []).append(s)
            elif s["arr"] is not None:
                by_arr.setdefault(s["arr"]["i"], []).append(s)
            elif s["ends"]:
                w.violate("span-of-nothing", f"{what} belongs to no request and no attempt")
            if s["ends"] > 1:
                w.violate("span-ends-twice", f"{what} is reported {s['ends']} times")
            app = s["node"].name
            inst = self.plan["inst"] if app == "front" else "0"
            if s["ends"] and s["res"] != f"{self.names[app]}-{inst}":
                w.violate("service-name", f"{what} is reported for service {s['res']!r} instead of {self.names[app]}-{inst}")
        for node, ep in self.exporters:
            if ep != f"http://otel-{node}:4318/v1/traces":
                w.violate("endpoint", f"spans of {node} go to {ep!r}")
        for a in self.arrivals:
            if not a["traced"]:
                continue
            what = f"request {a['i']} to {a['route']} of {a['app']} at {a['b0']:.4f} with span key {self.kname(a)}"
            ss = by_arr.get(a["i"], [])
            a["spans"] = ss
            done = [s for s in ss if s["ends"]]
            if len(ss) > 1:
                w.violate("request-spans", f"{what} got {len(ss)} spans: {[s['name'] for s in ss]}")
                continue
            for s in done:
                self.identity(what, a, s, a["route"], a["key"][1], True)
                if s["attrs"].get("request.route_key") != a["route"]:
                    w.violate("span-identity", f"{what}: its span has request.route_key {s['attrs'].get('request.route_key')!r}")
            if "a1" in a:
                if not done:
                    w.violate("request-span-lost", f"{what} was answered, its span {'never ended' if ss else 'never started'}")
                elif not (a["b0"] <= done[0]["t0"] <= a["b1"] and a["a0"] <= done[0]["t1"] <= a["a1"]):
                    w.violate("request-span-time", f"{what} was handled from {a['b0']:.4f}..{a['b1']:.4f} to {a['a0']:.4f}..{a['a1']:.4f}, its span lasts from {done[0]['t0']:.4f} to {done[0]['t1']:.4f}")
        for x in self.attempts:
            what = f"attempt {x['i']} (retries {x['retries']}) at {x.get('route')} of {x['app']} at {x['b0']:.4f} with span key {self.kname(x)}"
            if x["retries"] and "retry" not in w.cover:
                w.cover.add("retry")
            if x.get("success") is False and x.get("route") and x["retries"] + 1 >= self.plan["retries"][BUF.index(x["route"])]:
                w.cover.add("error-queue")
            if not x["traced"]:
                continue
            ss = by_att.get(x["i"], [])
            done = [s for s in ss if s["ends"]]
            if len(ss) > 1:
                w.violate("attempt-spans", f"{what} got {len(ss)} spans: {[s['name'] for s in ss]}")
                continue
            for s in done:
                a = self.arrivals[x["h"]] if x["h"] is not None else None
                if a is not None and not a["traced"]:
                    w.cover.add("untraced-before")
                    parent, remote = [x["key"][1]], True
                elif a is not None:
                    parent, remote = [r["id"] for r in a.get("spans", [])], False
                else:
                    parent, remote = [r["id"] for b in self.arrivals if b["key"] == x["key"] and b["app"] == x["app"] for r in b.get("spans", [])], False
                if a is not None and a["node"] is not x["node"]:
                    w.cover.add("restart-between")
                self.identity(what, x, s, x["cls"] + ".process", parent, remote)
                for f, v in (("request.retries", x["retries"]), ("process.success", x.get("success"))):
                    if s["attrs"].get(f) != v and (f != "process.success" or "success" in x):
                        w.violate("attempt-attributes", f"{what}: its span has {f} = {s['attrs'].get(f)!r} instead of {v!r}")
                if "out" in x and "success" in x and (x["out"] == "ok") != bool(s["attrs"].get("process.success")):
                    w.violate("attempt-attributes", f"{what} ended {x['out']}, its span says process.success = {s['attrs'].get('process.success')!r}")
            if "a1" in x:
                if not done:
                    w.violate("attempt-span-lost", f"{what} ended, its span {'never ended' if ss else 'never started'}")
                elif not (x["b0"] <= done[0]["t0"] <= x["b1"] and x["a0"] <= done[0]["t1"] <= x["a1"]):
                    w.violate("attempt-span-time", f"{what} lasted from {x['b0']:.4f}..{x['b1']:.4f} to {x['a0']:.4f}..{x['a1']:.4f}, its span from {done[0]['t0']:.4f} to {done[0]['t1']:.4f}")

    def kname(self, x):
        return self.keys.get((x["key"][0], f"{x['key'][1]:016x}"), x["key"])

    def identity(self, what, x, s, name, parent, remote):
        w = self.w
        parents = parent if isinstance(parent, list) else [parent]
        if s["name"] != name:
            w.violate("span-identity", f"{what}: its span is named {s['name']!r} instead of {name!r}")
        if s["trace"] != x["sk"].trace_id.int:
            w.violate("span-trace", f"{what}: its span is in trace {s['trace']:032x}")
        if s["parent"] not in parents:
            own = "the caller's span" if s["parent"] == x["key"][1] else "the span of " + next((f"request {r['arr']['i']} to {r['arr']['route']}" for r in self.order if r["id"] == s["parent"] and r["arr"]), "nothing known")
            w.violate("span-parent", f"{what}: the parent of its span is {own} instead of its own request's")
        if s["attrs"].get("request.trace_id") != str(x["sk"].trace_id) or s["attrs"].get("request.span_id") != str(x["sk"].span_id):
            w.violate("span-identity", f"{what}: its span has request.trace_id {s['attrs'].get('request.trace_id')!r} and request.span_id {s['attrs'].get('request.span_id')!r}")


def execute(plan):
    run = Run(plan)
    run.execute()
    done = sum(1 for a in run.arrivals if "a1" in a)
    return runner.finish(run.w, plan, {"nontrivial": run.nontrivial, "sample": {"requests": len(run.arrivals), "answered": done, "attempts": len(run.attempts), "spans": len(run.order)}})
