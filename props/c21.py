"""C21: the command-line tools, each run as a process of its own against running applications."""
import importlib.util
import json
import random
import sys
import uuid

from sim import core, loader, net as simnet, runner
from sim.core import SimLimit
from sim.world import Peer, World, sk_str, span_key

TIERS = {
    "quick": {"runs": 700, "wall": 90},
    "thorough": {"runs": 30000, "wall": 1500},
}
RULE = "distinct event logs of runs in which a tool sent a request"
REAL = ["the command-line tools bem, bsm, log and stat as whole processes: argument parsing, senders, clients, printing",
        "whole application processes: servers, router, management endpoints, keepers, buffered handlers and senders, queues, SQLAlchemy, SQLite"]
STUB = ["network", "disk under SQLite (in-memory VFS)", "clocks", "terminal (captured per process)", "the client object of the buffered senders (scripted outcomes)"]
ASSUMPTIONS = ["an operation that was not answered may or may not have been performed: it is sent at most three times"]
PROBES = ["bem", "bsm", "log", "stat", "tcp", "udp", "uds", "item-hit", "item-missing", "unknown-queue", "usage-error", "unreachable", "retried", "refused",
          "two-apps", "concurrent", "log-both", "gave-up"]
PORTS = [[7100, 7101], [7200, 7201]]
BEM = {"": "data", "pr": "receiving.pause", "pp": "processing.pause", "ur": "receiving.unpause", "up": "processing.unpause", "pa": "all.pause", "ua": "all.unpause",
       "e10": "errors.get_first_10", "rpa": "errors.reprocess.all", "clr": "errors.clear", "rp1": "errors.reprocess.one", "ins": "errors.inspect_request",
       "pop": "errors.pop_request"}
BSM = {"": "data", "ps": "send_process.pause", "us": "send_process.unpause",
       "e10": "errors.get_first_10", "rpa": "errors.reprocess.all", "clr": "errors.clear", "rp1": "errors.reprocess.one", "ins": "errors.inspect_request",
       "pop": "errors.pop_request"}
LONG = {"pr": "pause_receiving", "pp": "pause_processing", "ur": "unpause_receiving", "up": "unpause_processing", "pa": "pause_all", "ua": "unpause_all",
        "ps": "pause_sending", "us": "unpause_sending", "e10": "error_10", "rpa": "reprocess_all", "clr": "clear", "rp1": "reprocess_one",
        "ins": "inspect_request", "pop": "pop_request"}
ITEM = {"rp1", "ins", "pop"}
QUEUES = {"bem": ["a", "b.q"], "bsm": ["out", "out.ü"]}
LEVELS = ["debug", "info", "warn", "error", "critical"]
TRIES, TIMEOUT = 3, 5.0


def generate(seed, tier):
    r = random.Random("c21/" + seed)
    apps = r.choice([1, 1, 2])
    n = r.randint(1, 8 if tier == "quick" else 14)
    T = r.choice([0.3, 2.0, 8.0])
    clean = r.random() < 0.4
    p = {"seed": seed, "apps": apps, "T": T, "cmds": [], "faults": [], "fill": r.randint(0, 14), "bodies": r.randrange(4),
         "clean": clean, "refuse": r.choice([0, 0, 0, 1]),
         "net": {"lat": r.choice([[0.00005, 0.0002], [0.0001, 0.003], [0.001, 0.05]]), "seg_p": r.choice([0, 0.2, 0.6])},
         "_shrink": ["faults", "cmds"]}
    if not clean:
        p["net"].update(spike_p=r.choice([0, 0.1]), spike=[0.05, 2.0], loss=r.choice([0, 0.1, 0.5]), dup=r.choice([0, 0.2]), reorder=r.choice([0, 0.2]))
    for _ in range(n):
        c = {"t": round(r.choice([0.0, r.uniform(0, T), r.uniform(0, T)]), 4), "tool": r.choice(["bem", "bem", "bsm", "bsm", "log", "stat"]),
             "app": r.randrange(apps), "st": r.choice(["tcp", "udp", "uds"]), "long": [r.random() < 0.4 for _ in range(4)], "order": r.randrange(24), "bad": None}
        if c["tool"] in ("bem", "bsm"):
            q = r.choice(QUEUES[c["tool"]])
            if r.random() < 0.08:
                q = r.choice(["nowhere", "A", "enq.out", QUEUES["bsm" if c["tool"] == "bem" else "bem"][0], " a"])
            ops = BEM if c["tool"] == "bem" else BSM
            c.update(rk=q, op=r.choice(sorted(ops)), sk=None)
            if c["op"] in ITEM or r.random() < 0.1:
                c["sk"] = r.randrange(p["fill"] + 2)
                c["skform"] = r.randrange(3)
        elif c["tool"] == "log":
            c.update(level=r.choice(LEVELS + [None]), size=r.choice([None, None, 0, 1, 5, 1000]))
        else:
            c.update(type=r.choice([None, "current", "gathered", "full"]))
        if r.random() < 0.12:
            c["bad"] = r.choice({"bem": ["nosk", "badsk", "nork", "two", "nost", "badst", "noport", "what"], "bsm": ["nosk", "badsk", "nork", "two", "nost", "badst", "noport", "what"],
                                 "log": ["badlevel", "badsize", "nost", "noport", "what"], "stat": ["badtype", "nost", "noport", "what"]}[c["tool"]])
        p["cmds"].append(c)
    if not clean:
        for _ in range(r.randint(0, 5)):
            t = round(r.uniform(0, T + 1), 4)
            if r.random() < 0.5:
                t = max(0.0, r.choice(p["cmds"])["t"] + r.choice([0.0002, 0.001, 0.005, 0.02]))
            a = r.randrange(apps)
            p["faults"].append(r.choice([[t, "stall", a, r.choice([0.3, 4.9, 5.2, 12, 30])], [t, "reset", r.randrange(4)], [t, "cut", a, r.choice([0.3, 3, 6, 20])],
                                         [t, "kill", a, r.choice([0.05, 1, 8, 40])], [t, "term", a, r.choice([0.05, 1, 8])], [t, "tool-stall", r.randrange(n), r.choice([0.3, 6])]]))
    return p


def usable(c):
    """Is the command line one that asks for an operation?"""
    return c["bad"] is None


def expected(c):
    """The requests (route, data) this command line asks for; None: a usage error, nothing may be sent."""
    if not usable(c):
        return None
    if c["tool"] in ("bem", "bsm"):
        d = {"queue_route_key": c["rk"]}
        if c["op"] in ITEM:
            d["span_key"] = norm(span_key(c["sk"]))
        return [("eco.buffered_handler." + BEM[c["op"]] if c["tool"] == "bem" else "eco.buffered_sender." + BSM[c["op"]], d)]
    if c["tool"] == "log":
        out = []
        if c["level"] is not None:
            out.append(("eco.log.level", {"level": c["level"]}))
        if c["size"] is not None:
            out.append(("eco.log.buffer", {"size": c["size"]}))
        return out
    return [("eco.statistics.get", {"type": c["type"] or "current"})]


def norm(sk):
    return [uuid.UUID(str(sk["trace_id"])).hex, str(sk["span_id"]).lower().rjust(16, "0")]


def argv(c, w):
    lg = c["long"]
    ports = PORTS[c["app"]]
    det = {"tcp": f"127.0.0.1:{ports[0]}", "udp": f"127.0.0.1:{ports[1]}", "uds": f"{w.tmp}/uds/app{c['app']}.sock"}[c["st"]]
    bad = c["bad"]
    if bad == "noport":
        c = dict(c, st="tcp")
        det = "127.0.0.1"
    parts = []
    if bad != "nost":
        parts.append([("--server_type" if lg[0] else "-st"), "smtp" if bad == "badst" else c["st"]])
    parts.append([f"--server_details={det}"] if lg[1] else ["-sd", det])
    if c["tool"] in ("bem", "bsm"):
        if bad != "nork":
            parts.append([f"--route_key={c['rk']}"] if lg[2] or c["rk"][:1] in " -" else ["-rk", c["rk"]])
        op = c["op"]
        if bad in ("nosk", "badsk"):
            op = "pop"
        if op:
            parts.append([("--" + LONG[op]) if lg[3] else "-" + op])
        if bad == "two":
            parts.append(["-clr" if op != "clr" else "-rpa"])
            if not op:
                parts.append(["-e10"])
        if bad == "badsk":
            parts.append(["-sk", "not-a-span-key"])
        elif c["sk"] is not None and bad != "nosk":
            s = span_key(c["sk"])
            t = [s["trace_id"], s["trace_id"].replace("-", ""), s["trace_id"].upper()][c.get("skform", 0)]
            parts.append(["--span_key" if lg[2] else "-sk", f"{t}:{s['span_id']}"])
    elif c["tool"] == "log":
        if c["level"] is not None and bad != "badlevel":
            parts.append(["--level" if lg[2] else "-l", c["level"]])
        if bad == "badlevel":
            parts.append(["-l", "verbose"])
        if c["size"] is not None and bad != "badsize":
            parts.append(["--buff_size" if lg[3] else "-b", str(c["size"])])
        if bad == "badsize":
            parts.append(["-b", "lots"])
    else:
        if bad == "badtype":
            parts.append(["-type", "all"])
        elif c["type"] is not None:
            parts.append(["--type" if lg[2] else "-type", c["type"]])
    if bad == "what":
        parts.append(["--what"])
    random.Random(c["order"]).shuffle(parts)
    return [f"/opt/x/ekosis/cli/{c['tool']}.py"] + [x for q in parts for x in q]


class Out:
    """sys.stdout / sys.stderr of whichever process is running."""
    def __init__(self, real, bufs):
        self.real, self.bufs = real, bufs

    def write(self, s):
        n = core.ACTIVE.current if core.ACTIVE else None
        b = self.bufs.get(n) if n is not None else None
        if b is None:
            return self.real.write(s)
        b.append(s)
        return len(s)

    def flush(self):
        self.real.flush()

    def __getattr__(self, k):
        return getattr(self.real, k)


class Eng:
    def __init__(self, plan):
        self.plan = plan
        self.w = World(plan, simnet.NetCfg(**plan["net"]))
        self.sim = self.w.sim
        self.sim.max_steps = 900_000
        self.w.net.tap = self.tap
        self.nodes = {}
        self.runs = []
        self.by_node = {}
        self.outs, self.errs = {}, {}
        self.over = False

    # -- the applications
    def setup(self, ai):
        eng, plan = self, self.plan

        def setup(node):
            from typing import Any
            from pydantic import BaseModel
            from ekosis.clients import ClientBase
            from ekosis.data_transfer_objects import EmptyDto
            from ekosis.middleware.manager import MiddlewareManager
            from ekosis.middleware.middleware_base import MiddlewareBase
            from ekosis.requests.buffered_endpoint import buffered_endpoint
            from ekosis.requests.endpoint import endpoint
            from ekosis.sending.buffered_sender import buffered_sender

            class Body(BaseModel):
                n: int
                body: Any = None

            def handler(q):
                async def h(dto, span_key):
                    return dto.n % 4 == 3
                h.__name__ = "h" + str(QUEUES["bem"].index(q))
                buffered_endpoint(q, Body, page_size=3, max_retries=1)(h)

            class Client(ClientBase):
                async def _send_message_retry_loop(self, request):
                    raise AssertionError

                async def send_message(self, route_key, data, response_dto_type=EmptyDto, span_key=None):
                    if data.n % 4 != 3:
                        raise ValueError("planned")
                    return EmptyDto()

            def sender(q):
                async def compose(dto, span_key):
                    return dto
                send = buffered_sender(Client(), q, Body, wait_period=0, page_size=3, max_retries=1)(compose)

                async def enq(dto, span_key):
                    await send(dto, span_key=span_key)
                    return EmptyDto()
                enq.__name__ = "enq" + str(QUEUES["bsm"].index(q))
                endpoint("enq." + q, Body)(enq)

            for q in QUEUES["bem"]:
                handler(q)
            for q in QUEUES["bsm"]:
                sender(q)
            if plan["refuse"] and ai == 0:
                class Refuse(MiddlewareBase):
                    async def before_routing(self, **kw):
                        if kw["protocol_dto"].route_key.startswith("eco."):
                            eng.w.cover.add("refused")
                            raise ValueError("refused")
                        return kw["protocol_dto"]
                MiddlewareManager().add(Refuse())
        return setup

    def start_app(self, ai):
        if self.nodes.get(ai) is not None and self.nodes[ai].alive:
            return
        n = self.w.app(f"app{ai}", self.setup(ai), tcp=PORTS[ai][0], udp=PORTS[ai][1], uds=f"app{ai}.sock")
        self.nodes[ai] = n
        n.start()

    # -- the tools
    def tap(self, t, way, data):
        x = self.by_node.get(t.owner)
        if x is None:
            return
        if isinstance(t, simnet.SimDatagram):
            x["wire"].append([way, "udp", t.remote, bytes(data), self.sim.now])
        else:
            x["wire"].append([way, t.cid, t.key, bytes(data), self.sim.now])

    def tool(self, i, c):
        def main(node):
            loader.fresh_process(node)
            import ekosis.cli                              # as 'python -m ekosis.cli.<tool>' does
            spec = importlib.util.find_spec("ekosis.cli." + c["tool"])
            g = {"__name__": "__main__", "__package__": "ekosis.cli", "__spec__": spec, "__file__": spec.origin, "__builtins__": __builtins__}
            exec(loader.get_code(spec.origin), g)
        n = self.w.app(f"tool{i}", None, main=main, host=f"tool{i}")
        n.argv[:] = argv(c, self.w)
        x = {"c": c, "node": n, "wire": [], "t0": self.sim.now, "stall": 0.0}
        self.runs.append(x)
        self.by_node[n] = x
        self.outs[n], self.errs[n] = [], []
        if sum(y["node"].alive for y in self.runs[:-1]):
            self.w.cover.add("concurrent")
        n.start()

    def fault(self, f):
        sim, w, st = self.sim, self.w, self.sim.stats
        if self.over:
            return
        k = f[1]
        if k == "stall":
            n = self.nodes[f[2]]
            if n.alive:
                st["stall"] += 1
                n.stalled_until = max(n.stalled_until, sim.now + f[3])
        elif k == "tool-stall":
            if f[2] < len(self.runs) and self.runs[f[2]]["node"].alive:
                st["tool_stall"] += 1
                x = self.runs[f[2]]
                x["stall"] += f[3]
                x["node"].stalled_until = max(x["node"].stalled_until, sim.now + f[3])
        elif k == "reset":
            c = w.net.live_conns()
            if c:
                w.net.reset(c[f[2] % len(c)])
        elif k == "cut":
            st["partition"] += 1
            hosts = [x["node"].host for x in self.runs]
            for h in hosts:
                w.net.partition(h, f"app{f[2]}")
            sim.after(f[3], lambda: [w.net.heal(h, f"app{f[2]}") for h in hosts])
        elif k in ("kill", "term"):
            n = self.nodes[f[2]]
            if n.alive:
                st["crash_kill" if k == "kill" else "sig_TERM"] += 1
                n.crash("kill") if k == "kill" else n.signal(15)
                self.again(f[2], n, f[3])

    def again(self, ai, n, delay):
        if n.alive:
            self.sim.after(0.01, self.again, ai, n, delay)
        else:
            self.sim.after(delay, self.start_app, ai)

    def go(self):
        plan, sim, w = self.plan, self.sim, self.w
        key_hosts = {}
        for ai in range(plan["apps"]):
            key_hosts[("tcp", "127.0.0.1", PORTS[ai][0])] = f"app{ai}"
            key_hosts[("uds", f"{w.tmp}/uds/app{ai}.sock")] = f"app{ai}"
        w.net.key_hosts = key_hosts
        for ai in range(plan["apps"]):
            self.start_app(ai)
        self.until(lambda: False, 0.5)
        bodies = [None, {"k": [1, "ü\n"]}, "x" * 200, 0]
        left = [0]

        def done(*a):
            left[0] -= 1
        for ai in range(plan["apps"]):
            p = Peer(w, f"fill{ai}", ("tcp", "127.0.0.1", PORTS[ai][0]))
            for k in range(plan["fill"]):
                q = ["a", "enq.out", "b.q", "enq.out.ü"][(k * 7 // 3) % 4]
                left[0] += 1
                p.call(q, span_key(k), {"n": k, "body": bodies[plan["bodies"]]}, done)
        self.until(lambda: not left[0], 20)
        if left[0]:
            w.violate("fill", "the application did not answer the requests that fill its queues")
            return
        self.until(lambda: False, 0.5)
        t0 = sim.now
        for i, c in enumerate(plan["cmds"]):
            sim.after(c["t"], self.tool, i, c)
        for f in plan["faults"]:
            sim.after(f[0], self.fault, f)
        bound = max([self.bound(c) for c in plan["cmds"]] + [0]) + 60
        self.until(lambda: len(self.runs) == len(plan["cmds"]) and not any(x["node"].alive for x in self.runs), plan["T"] + bound)
        self.over = True
        for x in self.runs:
            if x["node"].alive:
                w.violate("no-end", f"{self.show(x)} still runs {sim.now - x['t0']:.1f} s after it was started")
        sim.rec("tools", n=len(self.runs), t=round(sim.now - t0, 6))
        for n in list(self.nodes.values()):
            if n.alive:
                n.stalled_until = 0
                n.signal(15)
        self.until(lambda: not any(n.alive for n in self.nodes.values()), 30)

    def bound(self, c):
        e = expected(c)
        return (len(e) if e else 1) * (TRIES * (TIMEOUT + 0.2)) + 3

    def until(self, cond, T):
        self.sim.run_until(cond, T, 0.25)

    def show(self, x):
        return f"'{x['c']['tool']} {' '.join(x['node'].argv[1:])}'".replace(self.w.tmp, "")

    # -- the verdict on one tool run
    def judge(self, x):
        w, c, n = self.w, x["c"], x["node"]
        cover = w.cover
        want = expected(c)
        out, err = "".join(self.outs[n]), "".join(self.errs[n])
        exc = n.exit_exc
        code = 0 if exc is None else exc.code if isinstance(exc, SystemExit) else 1
        code = 0 if code is None else code
        reqs, resp = wire(x["wire"])
        self.sim.rec("tool", argv=self.show(x), code=str(code), out=runner.digest([out]), reqs=len(reqs), resp=len(resp), exc=type(exc).__name__)
        sh = self.show(x)
        cover.add(c["tool"])
        if reqs:
            cover.add(c["st"])
        if n.died_at - x["t0"] > self.bound(c) + x["stall"]:
            w.violate("late", f"{sh} took {n.died_at - x['t0']:.2f} s")
        if want is None:
            cover.add("usage-error")
            if reqs:
                w.violate("usage-sent", f"{sh} is not a usable command line, and sent {short(reqs)}")
            if code == 0:
                w.violate("usage-exit", f"{sh} is not a usable command line, and exits 0")
            return
        dst = {"tcp": ("127.0.0.1", PORTS[c["app"]][0]), "udp": ("127.0.0.1", PORTS[c["app"]][1]), "uds": f"{w.tmp}/uds/app{c['app']}.sock"}[c["st"]]
        groups = {}
        for r in reqs:
            to = r["to"] if c["st"] == "udp" else r["to"][1:] if c["st"] == "tcp" else r["to"][1]
            if to != dst:
                w.violate("wrong-server", f"{sh} sent a request to {r['to']}")
            groups.setdefault(json.dumps(r.get("sk")), []).append(r)
        seen = []
        for sk, g in groups.items():
            if any((r["route"], r["data"]) != (g[0]["route"], g[0]["data"]) for r in g):
                w.violate("mixed", f"{sh} used one span key for {short(g)}")
            if len(g) > TRIES:
                w.violate("attempts", f"{sh} sent {len(g)} times {short(g[:1])}")
            if len(g) > 1:
                cover.add("retried")
            seen.append((g[0]["route"], g[0]["data"], sk))
        left = list(want)
        answered = []
        for route, data, sk in seen:
            if (route, data) not in left:
                w.violate("wrong-request", f"{sh} sent {route} {data}, asked for is {want}")
                return
            left.remove((route, data))
            a = [r for r in resp if json.dumps(r.get("sk")) == sk]
            if a and a[0].get("status") == 0:
                answered.append((route, a))
        if code == 0:
            if left:
                w.violate("not-sent", f"{sh} exits 0 and never sent {left}")
            if len(answered) != len(want):
                w.violate("claimed", f"{sh} exits 0, {len(answered)} of its {len(want)} requests were answered; it printed {out[:300]!r}")
                return
            for route, a in answered:
                why = [printed(c, route, r["data"], out) for r in a if r.get("status") == 0]
                if all(why):
                    w.violate("printed", f"{sh} was answered {json.dumps(a[0]['data'])[:400]} and printed {out[:600]!r}: {why[0]}")
            if len(want) == 2:
                cover.add("log-both")
            d = answered[0][1][0]["data"] if answered else {}
            m = str(d.get("message"))
            if c["tool"] in ("bem", "bsm"):
                if c["op"] in ITEM:
                    cover.add("item-hit" if d.get("request_data") is not None else "item-missing")
                if d.get("queue_data") is None and "No " in m:
                    cover.add("unknown-queue")
        else:
            cover.add("gave-up")
            if not reqs:
                cover.add("unreachable")
            if self.plan["clean"] and not (self.plan["refuse"] and c["app"] == 0):
                w.violate("failed", f"{sh} ended with exit code {code} ({type(exc).__name__}: {str(exc)[:200]}) although nothing disturbed it; {err[-300:]}")
        if self.plan["clean"] and len(reqs) > len(want):
            w.violate("extra", f"{sh} sent {short(reqs)} although nothing disturbed it")


def short(reqs):
    return str([(r["route"], r["data"]) for r in reqs])[:400]


def wire(events):
    """Request and response lines of one tool process."""
    reqs, resp, buf = [], [], {}
    for way, cid, to, data, t in events:
        if cid == "udp":
            lines = [data.rstrip(b"\n")]
        else:
            b = buf.get((way, cid), b"") + data
            *lines, buf[(way, cid)] = b.split(b"\n")
        for ln in lines:
            try:
                d = json.loads(ln)
                sk = norm(d["span_key"])
            except (ValueError, KeyError, TypeError):
                d, sk = {}, None
            if way == "tx":
                data_ = d.get("data")
                if isinstance(data_, dict):
                    data_ = {k: v for k, v in data_.items() if v is not None}
                    if isinstance(data_.get("span_key"), dict):
                        data_["span_key"] = norm(data_["span_key"])
                reqs.append({"route": d.get("route_key"), "data": data_, "sk": sk, "to": to, "raw": ln})
            else:
                resp.append({"status": d.get("status"), "data": d.get("data"), "sk": sk})
    return reqs, resp


def values(out):
    """All JSON values that stand in the text."""
    dec = json.JSONDecoder()
    i, got = 0, []
    while i < len(out):
        if out[i] in "[{":
            try:
                v, e = dec.raw_decode(out, i)
                got.append(v)
                i = e
                continue
            except ValueError:
                pass
        i += 1
    return got


def printed(c, route, data, out):
    """None, or what is missing from the output."""
    if not isinstance(data, dict):
        return None
    v = values(out)
    if route.startswith("eco.buffered_"):
        if str(data.get("message")) not in out:
            return "the message is missing"
        if data.get("queue_data") is not None and data["queue_data"] not in v:
            return "the queue data is missing"
        rd = data.get("request_data")
        if rd and rd not in v and json.dumps(rd) not in out and str(rd) not in out:
            return "the request is missing"
        return None
    if route == "eco.statistics.get":
        return None if data.get("statistics") in v else "the statistics are missing"
    x = data.get("level") if route == "eco.log.level" else data.get("size")
    return None if str(x) in out else "the value is missing"


def execute(plan):
    e = Eng(plan)
    w = e.w
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = Out(so, e.outs), Out(se, e.errs)
    try:
        e.go()
        for x in e.runs:
            if not x["node"].alive:
                e.judge(x)
    except SimLimit as x:
        w.violate("livelock", str(x))
    finally:
        sys.stdout, sys.stderr = so, se
    if plan["apps"] == 2 and {c["app"] for c in plan["cmds"]} == {0, 1}:
        w.cover.add("two-apps")
    return runner.finish(w, plan, {"nontrivial": any(x["wire"] for x in e.runs),
                                   "sample": {"commands": [" ".join(argv(c, w)[1:]).replace(w.tmp, "") for c in plan["cmds"]][:6], "faults": plan["faults"]}})
