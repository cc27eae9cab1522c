"""C24: span keys along the calls of several applications, through senders and buffered senders, endpoints and buffered endpoints."""
import json
import random

from sim import net as simnet, runner
from sim.core import SimLimit
from sim.world import Peer, World, sk_str, span_key

TIERS = {
    "quick": {"runs": 1400, "wall": 110},
    "thorough": {"runs": 30000, "wall": 1500},
}
RULE = "distinct event logs of runs in which a request caused requests to further applications while others were in progress"
REAL = ["whole application processes: servers, router, endpoints, buffered endpoints and their queues, senders, buffered senders, clients, SQLite"]
STUB = ["network", "clocks", "disk under SQLite", "raw clients that send the first requests"]
ASSUMPTIONS = ["no two different calls with one span key go through the same queue (it keeps one entry per span key)", "a call that got no answer may have been carried out, and may be repeated", "a call without a span key has the one its sender gives it in every attempt, also after a restart once it is queued",
               "after a kill, what was queued in the process may be gone"]
PROBES = ["passed-on", "fresh-key", "own-key", "deep", "fan-out", "fan-out-at-once", "buffered-sender", "buffered-endpoint", "both-buffered", "sender-class", "failed-call", "attempted-again", "restart", "partition",
          "udp", "persisted", "busy", "shared-client", "several-in-progress", "reprocessed"]
PORT = 7500
KINDS = ["ttcp", "ptcp", "ptcp", "tuds", "puds", "udp"]
FAILS = {"proc": "ProcessingException", "raise": "UnhandledException", "invalid": "PydanticValidationException", "unknown": "RouteKeyUnknownException"}


def generate(seed, tier):
    r = random.Random("c24/" + seed)
    n_apps = r.choice([2, 2, 3, 3, 4])
    T = r.choice([0.05, 0.5, 3.0])
    count = [0]
    cap = 14 if tier == "quick" else 40

    used = set()        # a queue has one entry per span key

    def tree(app, depth, by=None, line=()):
        kids = []
        count[0] += 1
        k = {"to": app, "route": r.choice(["std", "std", "buf"]), "delay": r.choice([0, 0, 0.002, r.uniform(0, 0.1)]), "kids": kids, "par": r.random() < 0.5, "via": r.choice(["sender", "sender", "class", "bsender", "bclass"]),
             "key": r.choice(["pass", "pass", "pass", "none", "null", "own"]), "fail": None}
        line = line if by is not None and k["key"] == "pass" else (len(p["roots"]), count[0])
        queues = {("end", app, line)} if k["route"] == "buf" else set()
        if by is not None and k["via"] in ("bsender", "bclass"):
            queues.add(("send", by, app, k["route"], line))
        if queues & used:
            k["key"], line = "none", (len(p["roots"]), count[0])
        else:
            used.update(queues)
        if k["via"] in ("sender", "class") and k["route"] == "std" and r.random() < 0.12:
            k["fail"] = r.choice(list(FAILS))
        if app + 1 < n_apps and depth < 4 and k["fail"] in (None, "proc", "raise"):
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                if count[0] < cap:
                    kids.append(tree(r.randrange(app + 1, n_apps), depth + 1, app, line))
        return k
    p = {"seed": seed, "T": T, "n": n_apps, "roots": [], "faults": [], "clients": [], "share": r.random() < 0.3,
         "net": {"lat": r.choice([[0.00005, 0.0002], [0.0001, 0.003], [0.001, 0.02]]), "seg_p": r.choice([0, 0.3])}, "_shrink": ["faults", "roots"]}
    for a in range(n_apps):
        p["clients"].append([[r.choice(KINDS), r.choice(KINDS)] for b in range(n_apps)])
    p["apps"] = [{"wait": r.choice([0, 0, 0, 0.01]), "page": r.choice([2, 3, 100])} for _ in range(n_apps)]
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        count[0] = 0
        p["roots"].append([round(r.choice([r.uniform(0, T), T / 2]), 4), tree(r.choice([0, 0, 0, r.randrange(n_apps)]), 0)])
    if r.random() < 0.55:
        if r.random() < 0.4:
            p["net"].update(loss=0.1, dup=0.1, reorder=0.1, spike_p=0.05, spike=[0.02, 0.6])
        for _ in range(r.choice([0, 1, 2, 3]) if p["net"].get("loss") else r.choice([1, 2, 3])):
            t = r.choice([r.uniform(0, T + 0.2), max(0, r.choice(p["roots"])[0] + r.choice([-0.01, 0, 0.001, 0.01]))])
            t, a, d = round(t, 4), r.randrange(n_apps), r.choice([0.05, 0.5, 2.0, 4.0])
            p["faults"].append(r.choice([[t, "term", a, d], [t, "term", a, d], [t, "kill", a, d] if r.random() < 0.3 else [t, "term", a, d], [t, "stall", a, d], [t, "cut", a, d], [t, "reset", r.randrange(9), d], [t, "busy", max(a, 1), r.choice([0.02, 0.1, 0.3])], [t, "busy", max(a, 1), 0.1],
                                         [t, "linesig", a, r.randint(1, 1500)]]))
    return p


def shrink(plan):
    """Subtrees off, and simpler nodes."""
    def variants(k):
        for i in range(len(k["kids"])):
            yield dict(k, kids=k["kids"][:i] + k["kids"][i + 1:])
        for i, c in enumerate(k["kids"]):
            for v in variants(c):
                yield dict(k, kids=k["kids"][:i] + [v] + k["kids"][i + 1:])
        if k["delay"]:
            yield dict(k, delay=0)
        if k["par"]:
            yield dict(k, par=False)
    for i, (t, k) in enumerate(plan["roots"]):
        for v in variants(k):
            yield dict(plan, roots=plan["roots"][:i] + [[t, v]] + plan["roots"][i + 1:])


def faulty(plan):
    return bool(plan["faults"] or plan["net"].get("loss"))


class Sys:
    def __init__(self, plan):
        self.plan = plan
        self.w = World(plan, simnet.NetCfg(**plan["net"]))
        self.sim = self.w.sim
        self.calls = {}             # number -> what is known of the call
        self.nodes = [None] * plan["n"]
        self.down = [0] * plan["n"]     # how often it should be left down
        self.killed = set()
        self.active = 0
        self.last = 0.0
        self.over = False
        n = plan["n"]
        self.keys = {(k, a): {"t": ("tcp", "127.0.0.1", PORT + 2 * a), "u": ("uds", f"{self.w.tmp}/uds/a{a}.sock")}[k] for k in "tu" for a in range(n)}
        self.w.net.key_hosts = {v: f"a{a}" for (k, a), v in self.keys.items()}
        self.mgr = [Peer(self.w, f"mgr{a}", self.keys["t", a]) for a in range(n)]

    def new_call(self, node, key, by):
        i = len(self.calls)
        self.calls[i] = {"node": node, "key": None if key is None else str(key), "by": by, "seen": [], "out": None, "inc": self.w.incarnation.get(f"a{by}", 0) if by is not None else 0}
        self.sim.rec("call", c=i, key=self.calls[i]["key"], by=by, to=node["to"], via=node["via"] if by is not None else "raw", route=node["route"])
        return i

    def setup(self, a):
        eng, plan, sim, w = self, self.plan, self.sim, self.w

        def setup(node):
            import asyncio
            from pydantic import BaseModel
            from ekosis.clients import PersistedTCPClient, TransientTCPClient, PersistedUDSClient, TransientUDSClient, UDPClient
            from ekosis.data_transfer_objects import EmptyDto, SpanKey
            from ekosis.exceptions import ApplicationProcessingException
            from ekosis.requests.buffered_endpoint import buffered_endpoint
            from ekosis.requests.endpoint import endpoint
            from ekosis.sending.buffered_sender import buffered_sender
            from ekosis.sending.buffered_sender_class import BufferedSenderClass
            from ekosis.sending.sender import sender
            from ekosis.sending.sender_base import SenderBase
            from ekosis.state_keepers.buffered_sender_keeper import BufferedSenderKeeper

            class Msg(BaseModel):
                call: int
                node: dict

            class Bad(BaseModel):
                call: str
                node: str

            class Answer(BaseModel):
                call: int
                at: str
                key: str

            def client(b, which):
                kind = plan["clients"][a][b][which]
                path, args = f"{w.tmp}/uds/a{b}.sock", [2.0, 3, 0.05]
                if kind == "udp":
                    w.cover.add("udp")
                    return UDPClient("127.0.0.1", PORT + 2 * b + 1, *args)
                if kind[0] == "p":
                    w.cover.add("persisted")
                    args.insert(1, 5.0)
                    return PersistedTCPClient("127.0.0.1", PORT + 2 * b, *args) if kind == "ptcp" else PersistedUDSClient(path, *args)
                return TransientTCPClient("127.0.0.1", PORT + 2 * b, *args) if kind == "ttcp" else TransientUDSClient(path, *args)
            fns = {}

            def make(b):
                c = client(b, 0)
                bc = c if plan["share"] else client(b, 1)
                if plan["share"]:
                    w.cover.add("shared-client")
                for route in ("std", "buf", "none"):
                    name, resp = (f"{route}{b}", Answer if route == "std" else EmptyDto)

                    @sender(c, name, resp)
                    async def send(i, k, **kwargs):
                        await asyncio.sleep(0)
                        return Bad(call=f"c{i}", node="x") if k["fail"] == "invalid" else Msg(call=i, node=k)

                    class Sender(SenderBase[Msg, resp]):
                        async def send(self, i, k, **kwargs):
                            return await self.send_data(Bad(call=f"c{i}", node="x") if k["fail"] == "invalid" else Msg(call=i, node=k), **kwargs)
                    fns[b, route, "sender"] = send
                    fns[b, route, "class"] = Sender(c, name, Msg, resp).send
                    if route == "none":
                        continue
                    if a % 2 == b % 2:
                        @buffered_sender(bc, name, Msg, resp, plan["apps"][a]["wait"], plan["apps"][a]["page"], 10 ** 6)
                        async def bsend(i, k, **kwargs):
                            await asyncio.sleep(0)
                            return Msg(call=i, node=k)
                        fns[b, route, "bsender"] = fns[b, route, "bclass"] = bsend
                    else:
                        s = BufferedSenderClass(bc, name, Msg, resp, plan["apps"][a]["wait"], plan["apps"][a]["page"], 10 ** 6)
                        BufferedSenderKeeper().add_buffered_sender(s)

                        async def push(i, k, s=s, **kwargs):
                            await s.push_message(Msg(call=i, node=k), **kwargs)
                        fns[b, route, "bsender"] = fns[b, route, "bclass"] = push
            for b in range(a + 1, plan["n"]):
                make(b)

            async def call(k, mine):
                kw, key = {}, None
                if k["key"] == "pass":
                    w.cover.add("passed-on")
                    kw["span_key"] = key = mine
                elif k["key"] == "own":
                    w.cover.add("own-key")
                    kw["span_key"] = key = SpanKey(**span_key(f"c24/{plan['seed']}/own{len(eng.calls)}"))
                else:
                    w.cover.add("fresh-key")
                    if k["key"] == "null":
                        kw["span_key"] = None
                i = eng.new_call(k, key, a)
                buffered = k["via"] in ("bsender", "bclass")
                if buffered:
                    w.cover.add("buffered-sender")
                if k["via"] == "class":
                    w.cover.add("sender-class")
                try:
                    res = await fns[k["to"], "none" if k["fail"] == "unknown" else k["route"], k["via"]](i, k, **kw)
                    out = "queued" if buffered else "ok"
                except asyncio.CancelledError:
                    eng.calls[i]["out"] = "cancelled"
                    raise
                except Exception as x:
                    out, res = type(x).__name__, None
                if node.crashed:
                    return
                eng.calls[i]["out"] = out
                sim.rec("ret", c=i, out=out)
                if out == "ok" and k["route"] == "std":
                    if type(res) is not Answer:
                        w.violate("response", f"call {i} returned a {type(res).__name__}")
                    elif res.call != i or res.at != f"a{k['to']}":
                        w.violate("response", f"call {i} to a{k['to']} returned the response to call {res.call} from {res.at}")
                    elif res.key not in {s["key"] for s in eng.calls[i]["seen"]} or key is not None and res.key != str(key):
                        w.violate("response", f"call {i} with the span key {key} returned a response from a request with {res.key}")
                elif out == "ok" and type(res) is not EmptyDto:
                    w.violate("response", f"call {i} to a buffered endpoint returned a {type(res).__name__}")
                elif out == "queued" and res is not None:
                    w.violate("response", f"queueing call {i} returned a {type(res).__name__}")

            async def serve(dto, key, route):
                c = eng.calls.get(dto.call)
                eng.last = sim.now
                sim.rec("seen", n=f"a{a}", c=dto.call, key=str(key), route=route)
                if c is None or c["node"] != dto.node or c["node"]["to"] != a or c["node"]["route"] != route:
                    w.violate("content", f"a{a} was asked for {route} with call {dto.call}, {json.dumps(dto.node)[:150]}; the call was {json.dumps(c and c['node'])[:150]}")
                    return
                if c["seen"]:
                    w.cover.add("attempted-again")
                if not isinstance(key, SpanKey):
                    w.violate("key", f"the handler of call {dto.call} was given {type(key).__name__} as span key")
                    return
                c["seen"].append({"key": str(key), "t": sim.now, "app": a})
                eng.active += 1
                if eng.active > 1:
                    w.cover.add("several-in-progress")
                try:
                    k = dto.node
                    if len(k["kids"]) > 1:
                        w.cover.add("fan-out-at-once" if k["par"] else "fan-out")
                    if k["par"]:
                        await asyncio.gather(*[call(x, key) for x in k["kids"]])
                    else:
                        for x in k["kids"]:
                            await call(x, key)
                    if k["delay"]:
                        await asyncio.sleep(k["delay"])
                    if k["fail"] == "proc":
                        raise ApplicationProcessingException("planned")
                    if k["fail"] == "raise":
                        raise ValueError("planned")
                finally:
                    eng.active -= 1
                    eng.last = sim.now

            @endpoint(f"std{a}", Msg)
            async def std(span_key, dto):
                await serve(dto, span_key, "std")
                return Answer(call=dto.call, at=f"a{a}", key=str(span_key))

            @buffered_endpoint(f"buf{a}", Msg, page_size=plan["apps"][a]["page"], max_retries=3)
            async def buf(dto, span_key):
                w.cover.add("buffered-endpoint")
                await serve(dto, span_key, "buf")
                return True
        return setup

    def start(self, a):
        if self.nodes[a] is None or not self.nodes[a].alive:
            if self.nodes[a] is not None:
                self.w.cover.add("restart")
            self.nodes[a] = self.w.app(f"a{a}", self.setup(a), tcp=PORT + 2 * a, udp=PORT + 2 * a + 1, uds=f"a{a}.sock")
            self.nodes[a].start()

    def fault(self, f):
        _, what, a, d = f
        if what == "reset":
            c = self.w.net.live_conns()
            if c:
                self.w.net.reset(c[a % len(c)])
            return
        n = self.nodes[a]
        if what == "cut":
            b = f"a{(a + 1) % self.plan['n']}"
            self.w.cover.add("partition")
            self.w.net.partition(f"a{a}", b)
            self.sim.after(d, self.w.net.heal, f"a{a}", b)
        elif not n.alive:
            return
        elif what == "busy":
            self.w.cover.add("busy")
            self.sim.stats["receiving_paused"] += 1
            for i, op in enumerate(("pause", "unpause")):
                self.sim.after(i * d, lambda op=op, n_=len(self.sim.history): self.mgr[a].call(f"eco.buffered_handler.receiving.{op}", span_key(f"c24/{op}{n_}/{self.sim.now}"), {"queue_route_key": f"buf{a}"}, lambda *x: None))
        elif what == "stall":
            self.sim.stats["stall"] += 1
            n.stalled_until = self.sim.now + d
        elif what == "linesig":
            self.w.line_signal(n, d, 15)
            self.again(n, a, 0.3)
        else:
            self.sim.stats["sig_TERM" if what == "term" else "crash_kill"] += 1
            if what == "kill":
                self.killed.add(a)
                n.crash("kill")
            else:
                n.signal(15)
            self.again(n, a, d)

    def again(self, n, a, d):
        if self.nodes[a] is not n or self.over:
            return
        if n.alive:
            self.sim.after(0.02, self.again, n, a, d)
        else:
            self.sim.after(d, self.start, a)

    def root(self, i):
        _, k = self.plan["roots"][i]
        sk = span_key(f"c24/{self.plan['seed']}/root{i}")
        c = self.new_call(k, sk_str(sk), None)

        def answered(status, data, resp):
            self.sim.rec("ret", c=c, out=status)
            self.calls[c]["out"] = {0: "ok", None: "lost", 600: "ProcessingException", 999: "UnhandledException", 300: "PydanticValidationException", 400: "RouteKeyUnknownException"}.get(status, status)
            if status is not None and resp.get("span_key") != sk:
                self.w.violate("response", f"the response to call {c} has the span key {resp.get('span_key')}")
            if status == 0 and k["route"] == "std" and data != {"call": c, "at": f"a{k['to']}", "key": sk_str(sk)}:
                self.w.violate("response", f"call {c} was answered {data}")
        bad = k["fail"] == "invalid"
        Peer(self.w, f"root{i}", self.keys["t" if i % 2 else "u", k["to"]]).call("nope" if k["fail"] == "unknown" else f"{k['route']}{k['to']}", sk, {"call": "x" if bad else c, "node": k}, answered)

    def owed(self):
        """The calls that have to have been carried out by now."""
        there = {(c["key"], c["by"], c["node"]["to"], c["node"]["route"]) for c in self.calls.values() if c["key"] and c["seen"]}
        for i, c in self.calls.items():
            k = c["node"]
            if (c["key"], c["by"], k["to"], k["route"]) in there:
                continue                # made again by a handler that was interrupted: a queue has one entry per span key
            # killed: what its queues held may be gone
            sender_queue = c["out"] == "queued" and c["by"] not in self.killed
            endpoint_queue = c["out"] == "ok" and k["route"] == "buf"
            if (sender_queue or endpoint_queue) and not c["seen"] and not (k["route"] == "buf" and k["to"] in self.killed):
                yield i

    def run(self):
        sim, plan = self.sim, self.plan
        for a in range(plan["n"]):
            self.start(a)
        sim.run_until(lambda: False, 0.3, 0.3)
        for i, (t, k) in enumerate(plan["roots"]):
            sim.after(t, self.root, i)
        for f in plan["faults"]:
            sim.after(f[0], self.fault, f)
        sim.run_until(lambda: False, plan["T"] + 6, 1)
        self.w.net.heal_all()
        for a in range(plan["n"]):
            self.start(a)
        quiet = lambda: self.active_calls() == 0 and sim.now > self.last + 2 and not any(self.owed())
        for rnd in range(8):
            if sim.run_until(quiet, 12, 0.5):
                break
            if rnd < 7 and faulty(plan):
                for a in range(plan["n"]):
                    self.start(a)
                    for b in range(a + 1, plan["n"]):
                        for route in ("std", "buf"):
                            self.w.cover.add("reprocessed")
                            self.mgr[a].call("eco.buffered_sender.errors.reprocess.all", span_key(f"c24/m{rnd}/{a}/{b}/{route}"), {"queue_route_key": f"{route}{b}"}, lambda *x: None)
        sim.rec("last")
        self.over = True
        for n in self.nodes:
            n.signal(15)
        sim.run_until(lambda: not any(n.alive for n in self.nodes), 20, 0.2)

    def active_calls(self):
        """Calls by endpoints that are still running in a living process."""
        return sum(1 for c in self.calls.values() if c["out"] is None and (c["by"] is None or self.w.incarnation.get(f"a{c['by']}") == c["inc"] and self.nodes[c["by"]].alive))


def execute(plan):
    e = Sys(plan)
    w = e.w
    try:
        e.run()
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    judge(e)
    return runner.finish(w, plan, {"nontrivial": bool(w.cover & {"several-in-progress"}) and bool(w.cover & {"passed-on", "fresh-key"}), "sample": {"roots": plan["roots"][:2], "faults": plan["faults"]}})


def judge(e):
    w, plan = e.w, e.plan
    given = {c["key"]: i for i, c in e.calls.items() if c["key"] is not None and (c["by"] is None or c["node"]["key"] == "own")}
    fresh = {}
    for i, c in e.calls.items():
        ks = {s["key"] for s in c["seen"]}
        k = c["node"]
        if c["key"] is not None:
            if ks - {c["key"]}:
                w.violate("key", f"call {i} ({k['via']} to {k['route']}{k['to']}) was made with the span key {c['key']} and arrived with {sorted(ks)}")
                return
        elif len(ks) > 1:
            w.violate("key", f"the attempts at call {i} ({k['via']} to {k['route']}{k['to']}) arrived with different span keys {sorted(ks)}")
            return
        elif ks:
            x = ks.pop()
            t, _, s = x.partition(":")
            if len(t) != 36 or len(s) != 16 or set(s) - set("0123456789abcdef") or not s.strip("0"):
                w.violate("fresh", f"call {i} without a span key arrived with {x}")
                return
            for y in given:
                if y.partition(":")[0] == t or y.partition(":")[2] == s:
                    w.violate("fresh", f"call {i} without a span key of its own arrived with {x}, that of call {given[y]} being {y}")
                    return
            for part in (t, s):
                if fresh.setdefault(part, i) != i:
                    w.violate("fresh", f"the calls {fresh[part]} and {i} were made without a span key, and both arrived with {part}")
                    return
        if k["via"] in ("bsender", "bclass") and c["by"] is not None and k["route"] == "buf":
            w.cover.add("both-buffered")
        if c["out"] not in (None, "ok", "queued"):
            w.cover.add("failed-call")
    if not faulty(plan):
        for i, c in e.calls.items():
            k = c["node"]
            want = "queued" if c["by"] is not None and k["via"] in ("bsender", "bclass") else FAILS.get(k["fail"], "ok")
            if c["out"] != want:
                w.violate("outcome", f"call {i} ({k['via']} to {k['route']}{k['to']}, {k['fail']}) ended with {c['out']}, and should end with {want}")
                return
            times = 0 if k["fail"] in ("invalid", "unknown") else 1
            if len(c["seen"]) != times:
                w.violate("times", f"call {i} ({k['via']} to {k['route']}{k['to']}, {k['fail']}) was carried out {len(c['seen'])} times, without any fault")
                return
    else:
        for i, c in e.calls.items():
            if c["out"] in ("ok", *FAILS.values()) and c["node"]["route"] == "std" and c["node"]["fail"] not in ("invalid", "unknown") and not c["seen"]:
                w.violate("outcome", f"call {i} ended with {c['out']}, and was never carried out")
                return
    owed = list(e.owed())
    if owed:
        i = owed[0]
        c = e.calls[i]
        w.violate("lost", f"call {i} ({c['node']['via'] if c['by'] is not None else 'raw'} by a{c['by']} to {c['node']['route']}{c['node']['to']}) ended with {c['out']}, and was never carried out")
    if any(len(c["seen"]) and c["node"]["kids"] and c["by"] is not None for c in e.calls.values()):
        w.cover.add("deep")
