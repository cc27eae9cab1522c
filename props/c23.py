"""C23: the chain of middleware, as every request of every transport goes through it while others do."""
import json
import random

from sim import net as simnet, runner
from sim.core import SimLimit
from sim.world import Peer, World, request_line, sk_str, span_key

TIERS = {
    "quick": {"runs": 900, "wall": 60},
    "thorough": {"runs": 40000, "wall": 900},
}
RULE = "distinct event logs of runs in which requests overlapped inside the chain, or one of its hooks raised"
REAL = ["whole application process: servers, router, middleware manager, endpoints, queues"]
STUB = ["network", "clocks", "disk under SQLite", "raw clients"]
ASSUMPTIONS = ["two buffered requests do not have the same span key", "a buffered request to an application that is shutting down may be turned away, past its before_routing hooks", "middleware does not replace the span key of a request", "whether hooks run for a route nobody serves is not judged",
               "hooks of a request that is interrupted by the end of the process need not be completed"]
PROBES = ["overlapping", "before-raised", "after-raised", "handler-raised", "invalid", "unknown-route", "buffered", "standard-endpoint", "response-replaced", "request-replaced", "changed-in-place", "registered-twice",
          "udp", "udp-duplicate", "interrupted", "lost-response", "restart", "no-middleware", "same-span-key", "rerouted", "rerouted-nowhere"]
PORT = 7350
EXC = {"app": 600, "value": 999, "pydantic": 300, "json": 100, "key": 999, "timeout": 999, "os": 999}


def generate(seed, tier):
    r = random.Random("c23/" + seed)
    n_mw = r.choice([0, 1, 2, 2, 3, 3, 4])
    T = r.choice([0.02, 0.3, 2.0])
    n = r.randint(2, 25 if tier == "quick" else 60)
    wait = r.choice([0, 0, 0.001, 0.02, 0.2])
    p = {"seed": seed, "T": T, "mws": [], "reg": list(range(n_mw)), "reqs": [], "faults": [],
         "net": {"lat": r.choice([[0.00005, 0.0002], [0.0001, 0.003], [0.001, 0.05]]), "seg_p": r.choice([0, 0.3]), "dup": r.choice([0, 0, 0.3]), "loss": r.choice([0, 0, 0.1])}, "_shrink": ["faults", "reqs", "reg"]}
    if n_mw and r.random() < 0.2:
        p["reg"].append(r.randrange(n_mw))
    for i in range(n_mw):
        def w():
            return [r.choice([-1, -1, 0, wait, r.uniform(0, wait)]) for _ in range(2)]
        p["mws"].append({"before": r.choice(["same", "copy", "copy", "inplace", "reroute"]), "after": r.choice(["same", "wrap", "wrap", "inplace"]), "wb": w(), "wa": w(), "raise": {}})
    bad = r.random() < 0.5
    for x in range(n):
        t = round(r.choice([r.uniform(0, T), r.uniform(0, T), T / 2]), 4)
        kind = r.choices(["work", "later", "eco", "invalid", "unknown"], [10, 5, 1.5, 1, 0.7])[0]
        out = r.choice(list(EXC)) if bad and kind == "work" and r.random() < 0.15 else "ok"
        p["reqs"].append([t, kind, r.choice(["tcp", "tcp", "uds", "udp"]), r.randrange(3), out, r.choice([-1, 0, r.uniform(0, 0.05)]), x])
        if kind == "work" and r.random() < 0.07:
            others = [y for y in range(x) if p["reqs"][y][1] in ("work", "invalid")]
            if others:
                p["reqs"][x][6] = p["reqs"][r.choice(others)][6]          # the span key of another request
        if bad and n_mw and r.random() < 0.2:
            p["mws"][r.randrange(n_mw)]["raise"][str(x)] = [r.choice(["before", "after"]), r.choice(list(EXC))]
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        t = round(r.uniform(0, T), 4)
        p["faults"].append(r.choice([[t, "reset", r.randrange(4)], [t, "stall", r.uniform(0.01, 0.5)], [t, "term"], [t, "kill"]]))
    return p


def expected(plan, x, base):
    """What happens to request x: [(where, middleware, what it is given)], status, answer."""
    _, kind, _, _, out, _, _ = plan["reqs"][x]
    data = {} if kind == "eco" else {"x": f"r{x}" if kind == "invalid" else x, "trail": []}
    seq, route = [], kind
    for m in plan["reg"]:
        mw = plan["mws"][m]
        seq.append(("before", m, json.loads(json.dumps(data))))
        how, exc = mw["raise"].get(str(x), [None, None])
        if how == "before":
            return seq, EXC[exc], None
        if mw["before"] in ("copy", "inplace") and "trail" in data:
            data = {**data, "trail": data["trail"] + [f"b{m}"]}
        if mw["before"] == "reroute":
            route = reroute(x, route)
    if route == "nowhere":
        return seq, 400, None
    if kind == "invalid":
        return seq, 300, None
    if kind == "work":
        seq.append(("handler" if route == "work" else "handler2", -1, json.loads(json.dumps(data))))
        if out != "ok":
            return seq, EXC[out], None
        resp = {"x": x, "trail": data["trail"] + ["h" if route == "work" else "h2"]}
    elif kind == "later":
        resp = {"span_key": base}
    else:
        resp = {"errors": []}
    for m in plan["reg"]:
        mw = plan["mws"][m]
        seq.append(("after", m, json.loads(json.dumps([data, resp]))))
        how, exc = mw["raise"].get(str(x), [None, None])
        if how == "after":
            return seq, EXC[exc], None
        if mw["after"] == "wrap":
            resp = {"inner": resp, "by": m, "trail": []}
        elif mw["after"] == "inplace" and "trail" in resp:
            resp = {**resp, "trail": resp["trail"] + [f"a{m}"]}
    return seq, 0, resp


def reroute(x, route):
    """Where middleware sends a request on to, by its number."""
    if route == "work" and x % 7 == 3:
        return "nowhere"
    return {"work": "work2", "work2": "work"}.get(route, route)


def execute(plan):
    w = World(plan, simnet.NetCfg(**plan["net"]))
    sim = w.sim
    st = {"node": None, "left": 0, "inc": 0}
    reqs = plan["reqs"]
    keys = [span_key(f"c23/{r[6]}") for r in reqs]
    answers = {}

    def setup(node):
        import asyncio
        from typing import Any
        from pydantic import BaseModel
        from ekosis.data_transfer_objects import RequestDTO
        from ekosis.exceptions.application_level import ApplicationProcessingException
        from ekosis.middleware import MiddlewareBase, MiddlewareManager
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        from ekosis.requests.endpoint import endpoint
        inc = st["inc"]

        class Req(BaseModel):
            x: int
            trail: list

        class Resp(BaseModel):
            x: int
            trail: list

        class Wrapped(BaseModel):
            inner: Any
            by: int
            trail: list = []

        def rec(where, m, x, sk, given):
            sim.rec("hook", where=where, m=m, x=x, key=str(sk), given=json.loads(json.dumps(given)), inc=inc)

        async def pause(d):
            if d == 0:
                await asyncio.sleep(0)
            elif d > 0:
                await asyncio.sleep(d)

        def blow(kind):
            if kind == "app":
                raise ApplicationProcessingException("not today")
            if kind == "pydantic":
                Req(x="no", trail=0)
            if kind == "json":
                json.loads("{")
            raise {"value": ValueError, "key": KeyError, "timeout": TimeoutError, "os": OSError}[kind]("oh")

        def which(sk, data):
            """The number of the request, for its troubles."""
            c = [x for x in range(len(reqs)) if sk_str(keys[x]) == str(sk)]
            if len(c) == 1:
                return c[0]
            v = data.get("x") if isinstance(data, dict) else None
            return int(str(v).strip("r")) if v is not None else -1

        class Mw(MiddlewareBase):
            def __init__(self, m):
                self.m, self.p = m, plan["mws"][m]

            async def before_routing(self, **kwargs):
                dto = kwargs["protocol_dto"]
                rec("before", self.m, which(dto.span_key, dto.data), dto.span_key, dto.data)
                await pause(self.p["wb"][0])
                how, exc = self.p["raise"].get(str(which(dto.span_key, dto.data)), [None, None])
                if how == "before":
                    w.cover.add("before-raised")
                    blow(exc)
                if self.p["before"] == "copy" and "trail" in dto.data:
                    w.cover.add("request-replaced")
                    dto = RequestDTO(route_key=dto.route_key, span_key=dto.span_key, data={**dto.data, "trail": dto.data["trail"] + [f"b{self.m}"]})
                elif self.p["before"] == "reroute":
                    to = reroute(dto.data.get("x", 0), dto.route_key) if dto.route_key in ("work", "work2") and isinstance(dto.data["x"], int) else dto.route_key
                    w.cover.add("rerouted-nowhere" if to == "nowhere" else "rerouted")
                    dto = RequestDTO(route_key=to, span_key=dto.span_key, data=dto.data)
                elif self.p["before"] == "inplace" and "trail" in dto.data:
                    w.cover.add("changed-in-place")
                    dto.data["trail"].append(f"b{self.m}")
                await pause(self.p["wb"][1])
                return dto

            async def after_routing(self, **kwargs):
                dto, of = kwargs["response_dto"], kwargs["protocol_dto"]
                rec("after", self.m, which(of.span_key, of.data), of.span_key, [of.data, dto.model_dump(mode="json")])
                await pause(self.p["wa"][0])
                how, exc = self.p["raise"].get(str(which(of.span_key, of.data)), [None, None])
                if how == "after":
                    w.cover.add("after-raised")
                    blow(exc)
                if self.p["after"] == "wrap":
                    w.cover.add("response-replaced")
                    dto = Wrapped(inner=dto.model_dump(mode="json"), by=self.m)
                elif self.p["after"] == "inplace" and hasattr(dto, "trail"):
                    dto.trail.append(f"a{self.m}")
                await pause(self.p["wa"][1])
                return dto

        made = {}
        for m in plan["reg"]:
            if m not in made:
                made[m] = Mw(m)
            elif "registered-twice" not in w.cover:
                w.cover.add("registered-twice")
            MiddlewareManager().add(made[m])

        @endpoint("work", Req)
        async def work(dto, span_key, **kw):
            return await serve("handler", "h", dto, span_key)

        @endpoint("work2", Req)
        async def work2(dto, span_key, **kw):
            return await serve("handler2", "h2", dto, span_key)

        async def serve(where, mark, dto, span_key):
            rec(where, -1, dto.x, span_key, dto.model_dump())
            _, _, _, _, out, d, _ = reqs[dto.x]
            await pause(d)
            if out != "ok":
                w.cover.add("handler-raised")
                blow(out)
            return Resp(x=dto.x, trail=dto.trail + [mark])

        @buffered_endpoint("later", Req)
        async def later(dto, span_key):
            sim.rec("proc", key=str(span_key), given=dto.model_dump(), inc=inc)
            await pause(reqs[dto.x][5])
            return True

    def start():
        if st["node"] is not None and st["node"].alive:
            return
        st["inc"] += 1
        st["node"] = w.app("srv", setup, tcp=PORT, udp=PORT + 1, uds="srv.sock")
        sim.rec("boot")
        st["node"].start()
    addr = {"tcp": ("tcp", "127.0.0.1", PORT), "uds": ("uds", f"{w.tmp}/uds/srv.sock")}
    peers = {(k, i): Peer(w, f"{k}{i}", a) for k, a in addr.items() for i in range(3)}

    def done(x, status, d, resp):
        if x in answers:
            if resp != answers[x][2] and "same-span-key" not in w.cover:
                w.violate("answer", f"request {x} was answered twice, and not the same")
            w.cover.add("udp-duplicate")
            return
        sim.rec("resp", x=x, status=status, data=d if status == 0 else str(d)[:80])
        answers[x] = (status, d, resp)
        if status is None:
            w.cover.add("lost-response")

    def datagram(s, data, a):
        resp = json.loads(data)
        xs = st.setdefault("udp", {})[s]
        done(xs, resp.get("status"), resp.get("data"), resp)

    def send(x):
        _, kind, tr, i, _, _, same = reqs[x]
        if same != x:
            w.cover.add("same-span-key")
        route = {"eco": "eco.error_states.get", "invalid": "work", "unknown": "nothing"}.get(kind, kind)
        data = {} if kind == "eco" else {"x": f"r{x}" if kind == "invalid" else x, "trail": []}
        sim.rec("req", x=x, r=kind, by=tr)
        if tr == "udp":
            w.cover.add("udp")
            s = simnet.RawUDP(w.net, simnet.HubOwner(f"udp{x}"), datagram)
            st.setdefault("udp", {})[s] = x
            s.send(request_line(route, keys[x], data), ("127.0.0.1", PORT + 1))
        else:
            peers[tr, i].call(route, keys[x], data, lambda *a: done(x, *a))

    def fault(f):
        n = st["node"]
        if f[1] == "reset":
            c = w.net.live_conns()
            if c:
                w.net.reset(c[f[2] % len(c)])
        elif f[1] == "stall":
            sim.stats["stall"] += 1
            n.stalled_until = sim.now + f[2]
        elif n.alive:
            sim.stats["crash_kill" if f[1] == "kill" else "sig_TERM"] += 1
            sim.rec("ends", inc=st["inc"], how=f[1])
            n.crash("kill") if f[1] == "kill" else n.signal(15)
            again(n)

    def again(n):
        if n.alive:
            sim.after(0.01, again, n)
        else:
            w.cover.add("restart")
            sim.after(0.2, start)
    try:
        start()
        sim.run_until(lambda: False, 0.3, 0.3)
        for x, r in enumerate(reqs):
            sim.after(r[0], send, x)
        for f in plan["faults"]:
            sim.after(f[0], fault, f)
        sim.run_until(lambda: False, plan["T"] + 3, 1)
        waits = sum(max(0, d) for m in plan["mws"] for d in m["wb"] + m["wa"]) * 2
        sim.run_until(lambda: all(x in answers or reqs[x][2] == "udp" for x in range(len(reqs))), 20 + waits * len(reqs), 0.5)
        sim.run_until(lambda: False, 2 + waits + len(reqs) * 0.06, 1)
        sim.rec("last")
        st["node"].signal(15)
        sim.run_until(lambda: not st["node"].alive, 20, 0.2)
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    nt = judge(w, plan, keys, answers)
    return runner.finish(w, plan, {"nontrivial": nt, "sample": {"mws": plan["mws"], "reg": plan["reg"], "reqs": reqs[:6], "faults": plan["faults"]}})


def judge(w, plan, keys, answers):
    h = w.sim.history
    reqs = plan["reqs"]
    of = {}
    for x in range(len(reqs)):
        if reqs[x][1] == "later":
            of.setdefault(sk_str(keys[x]), []).append(x)
    want = {x: expected(plan, x, keys[x]) for x in range(len(reqs))}
    ended = {e["inc"] for e in h if e["k"] == "ends"}
    killed = {e["inc"] for e in h if e["k"] == "ends" and e["how"] == "kill"}
    full = {x: 0 for x in want}
    runs = {}          # (inc, request) -> possible states: how far each copy of it came (a datagram may be duplicated)
    for e in h:
        if e["k"] != "hook" or e["x"] in want and reqs[e["x"]][1] == "unknown":
            continue
        x, got = e["x"], (e["where"], e["m"], e["given"])
        if x not in want or e["key"] != sk_str(keys[x]):
            w.violate("stranger", f"{e['where']} of middleware {e['m']} got request {x} with the span key {e['key']}, which it was not sent with")
            return False
        seq, states = want[x][0], runs.get((e["inc"], x), {()})
        nxt = set()
        for c in states:
            nxt.update(tuple(sorted(c[:i] + (q + 1,) + c[i + 1:])) for i, q in enumerate(c) if q < len(seq) and seq[q] == got)
            if seq and seq[0] == got:
                nxt.add((1,) + c)
        if not nxt:
            q = max(min(states, default=()), default=0)
            w.violate("order", f"request {x} ({reqs[x][1]}) " + (f"went on from {describe(seq[q - 1])}" if q else "began") + f" with {describe(got)}, and should have with "
                      + (describe(seq[q]) if q < len(seq) else "nothing more"))
            return False
        if any(o[0] == e["inc"] and any(q < len(want[o[1]][0]) for c in cs for q in c) for o, cs in runs.items() if o != (e["inc"], x)):
            w.cover.add("overlapping")
        runs[e["inc"], x] = nxt
    for (inc, x), states in runs.items():
        seq = want[x][0]
        c = min(states, key=lambda c: sum(q < len(seq) for q in c))
        full[x] += sum(q == len(seq) for q in c)
        if any(q < len(seq) for q in c):
            if inc not in ended:
                w.violate("order", f"request {x} ({reqs[x][1]}) ended after {describe(seq[min(c) - 1])}, and should have gone on with {describe(seq[min(c)])}")
                return False
            w.cover.add("interrupted")
    if not plan["reg"]:
        w.cover.add("no-middleware")
    for x in want:
        seq, status, data = want[x]
        kind, tr = reqs[x][1:3]
        if kind in ("invalid", "unknown", "later", "eco"):
            w.cover.add({"invalid": "invalid", "unknown": "unknown-route", "later": "buffered", "eco": "standard-endpoint"}[kind])
        a = answers.get(x)
        if a is None:
            if tr != "udp" or not (plan["net"]["loss"] or plan["faults"]):
                w.violate("no-answer", f"request {x} ({kind} by {tr}) was never answered")
            continue
        if a[0] is None:
            if not plan["faults"]:
                w.violate("no-answer", f"request {x} ({kind} by {tr}) lost its connection: {a[1]}")
            continue
        if kind == "unknown":
            status, data = 400, None
        if kind == "later" and a[0] == 500 and ended - killed:
            continue                     # the application was shutting down
        if a[0] != status or status == 0 and a[1] != data:
            w.violate("answer", f"request {x} ({kind}) was answered {a[0]} {json.dumps(a[1])[:300]}, and should be answered {status} {json.dumps(data)[:300]}")
        elif a[2].get("span_key") != keys[x]:
            w.violate("answer", f"the answer to request {x} has the span key {a[2].get('span_key')}")
        if seq and kind != "unknown":
            if full[x] < 1:
                w.violate("skipped", f"request {x} ({kind}) was answered, but did not go through the middleware to the end")
            elif full[x] > 1 and not (tr == "udp" and plan["net"]["dup"]):
                w.violate("repeated", f"request {x} ({kind}) went through the middleware {full[x]} times")
    # what is processed later is what came out of the middleware
    procs = {}
    for e in h:
        if e["k"] == "proc":
            xs = of.get(e["key"], [])
            ok = [x for x in xs if e["given"] == after_before(want[x], plan, x)]
            if not ok:
                w.violate("processed", f"the buffered endpoint got {e['given']} with the key of {of.get(e['key'])}, what came out of the middleware was {[after_before(want[x], plan, x) for x in xs][:2]}")
                return False
            procs[ok[0]] = procs.get(ok[0], 0) + 1
    for x in want:
        if reqs[x][1] == "later":
            a = answers.get(x)
            if a and a[0] == 0 and not procs.get(x) and not killed:
                w.violate("processed", f"buffered request {x} was acknowledged and not processed")
            if procs.get(x, 0) > 1 and not ended and not (reqs[x][2] == "udp" and plan["net"]["dup"]):
                w.violate("processed", f"buffered request {x} was processed {procs[x]} times")
    return bool(w.cover & {"overlapping", "before-raised", "after-raised"})


def describe(g):
    return f"{g[0]}{'' if g[1] < 0 else ' of middleware ' + str(g[1])} with {json.dumps(g[2])[:150]}"


def after_before(want, plan, x):
    trail = [f"b{m}" for m in plan["reg"] if plan["mws"][m]["before"] in ("copy", "inplace")]
    return {"x": x, "trail": trail}
