"""C12: statistics count every answered request in exactly one period and report queue sizes truthfully."""
import json
import random

from sim import core, disk, net as simnet, runner
from sim.core import SimLimit
from sim.world import Peer, World, span_key

TIERS = {
    "quick": {"runs": 1000, "wall": 90},
    "thorough": {"runs": 30000, "wall": 1500},
}
RULE = "distinct event logs of runs in which at least two periods were gathered and requests were in progress at a gathering or were read concurrently with one"
REAL = ["whole application process: servers, router, statistics keeper and endpoint, buffered endpoint and queues, management endpoints"]
STUB = ["network", "disk under SQLite (in-memory VFS)", "clocks", "raw peers"]
ASSUMPTIONS = ["gathering periods are one second or longer"]
PROBES = ["gathered>=2", "history-full", "in-progress-at-gather", "read-at-gather", "stall", "clock-jump", "disk-error", "failing-request", "middleware", "percentiles", "sizes-paused", "sizes-drained", "sender-sizes-paused", "sender-sizes-drained", "custom-counter"]
PORT = 8800
EPS = 2e-5
ROUTES = ["e", "e.sub", "w"]


def generate(seed, tier):
    r = random.Random("c12/" + seed)
    period = r.choice([1, 1, 2, 3])
    total = period * r.randint(2, 5 if tier == "quick" else 10) + r.uniform(0.3, 1.2)
    calls = []
    for _ in range(r.randint(3, 25 if tier == "quick" else 50)):
        d = r.choice([0, 0, 0.002, 0.05, 0.4, 1.0])
        if r.random() < 0.5:               # ends close to a whole second, where gathering happens
            t = max(0.3, r.randint(1, int(total) + 1) + r.choice([0, 0, r.uniform(-0.004, 0.004), r.uniform(-0.1, 0.1)]) - d)
        else:
            t = r.uniform(0.3, total)
        kind = r.choice(["ok"] * 6 + ["raise", "proc", "invalid", "unknown"])
        calls.append([round(t, 5), r.choice(ROUTES), kind, d])
    reads = [[round(r.choice([r.uniform(0.4, total), r.randint(1, int(total) + 1) + r.uniform(-0.003, 0.003)]), 5), r.choice(["current", "current", "gathered", "full"])]
             for _ in range(r.randint(0, 10))]
    pushes = [[round(r.uniform(0.5, total), 4), i, r.random() < 0.4, r.choice(["q", "q", "s"])] for i in range(r.choice([0, 0, 3, 8]))]
    ev = []
    if r.random() < 0.25:
        ev.append([round(r.uniform(0.5, total), 4), "stall", r.choice([0.3, 0.8])])
    if r.random() < 0.25:
        ev.append([round(r.uniform(0.5, total), 4), "clock", r.choice([-3600, -2.5, 0.7, 30, 86400])])
    if pushes and r.random() < 0.3:
        t = r.randint(1, int(total) + 1) + r.uniform(-0.2, 0.2)
        ev.append([round(max(0.5, t), 4), "disk", r.choice([0.05, 0.5, 1.5])])
    return {"seed": seed, "period": period, "history": r.choice([1, 2, 3, 12, 0]), "total": round(total, 3), "calls": calls, "reads": reads, "pushes": pushes,
            "unpause": round(r.uniform(0.6, total), 4) if r.random() < 0.6 else None, "events": ev, "mw": r.choice([0, 0, 0.004, 0.05]),
            "net": {"lat": r.choice([[0.00005, 0.0002], [0.0001, 0.003]]), "seg_p": 0}, "_shrink": ["calls", "reads", "pushes", "events"]}


def setup_for(plan):
    def setup(node):
        import asyncio
        from pydantic import BaseModel
        from ekosis.requests.endpoint import endpoint
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        from ekosis.exceptions import ApplicationProcessingException
        from ekosis.middleware.manager import MiddlewareManager
        from ekosis.middleware.middleware_base import MiddlewareBase
        from ekosis.state_keepers.statistics_keeper import StatisticsKeeper

        class Req(BaseModel):
            kind: str
            delay: float

        class QReq(BaseModel):
            n: int
            fail: bool

        def make(route):
            @endpoint(route, Req)
            async def fn(dto):
                if dto.delay:
                    await asyncio.sleep(dto.delay)
                if dto.kind == "raise":
                    raise ValueError("planned")
                if dto.kind == "proc":
                    raise ApplicationProcessingException("planned")
                StatisticsKeeper().increment(f"custom.{route}.n", 2)
                StatisticsKeeper().decrement(f"custom.{route}.n")
                StatisticsKeeper().decrement(f"custom.{route}.below", 3)
                return dto
        for x in ROUTES:
            make(x)

        @buffered_endpoint("q", QReq, page_size=2, max_retries=1)
        async def q(dto):
            await asyncio.sleep(0.01)
            return not dto.fail
        from ekosis.clients import ClientBase
        from ekosis.data_transfer_objects import EmptyDto
        from ekosis.requests.endpoint import endpoint
        from ekosis.sending.buffered_sender import buffered_sender

        class Client(ClientBase):
            async def _send_message_retry_loop(self, request):
                raise AssertionError

            async def send_message(self, route_key, data, response_dto_type=EmptyDto, span_key=None):
                await asyncio.sleep(0.01)
                if data.fail:
                    raise ValueError("planned")
                return EmptyDto()

        @buffered_sender(Client(), "out.s", QReq, page_size=2, max_retries=1)
        async def out(dto, span_key):
            return dto

        @endpoint("s", QReq)
        async def s(dto, span_key):
            await out(dto, span_key=span_key)
            return dto
        if plan["mw"]:
            class Mw(MiddlewareBase):
                async def before_routing(self, protocol_dto, **kw):
                    return protocol_dto

                async def after_routing(self, protocol_dto, response_dto, **kw):
                    await asyncio.sleep(plan["mw"])
                    return response_dto
            MiddlewareManager().add(Mw())
    return setup


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.w = World(plan, simnet.NetCfg(**plan["net"]))
        self.sim = self.w.sim
        self.sim.max_steps = 600_000
        self.ops = []            # dict(route, lo, hi, ok, d)
        self.reads = []          # dict(type, lo, hi, st, data)
        self.eras = [(0.0, 0.0)]  # (sim time from, wall offset)
        self.n = 0
        self.stalls = []
        self.disk_windows = []

    # one connection per call: calls overlap
    def call(self, route, data, done, delay=0.0):
        self.n += 1
        p = Peer(self.w, f"c{self.n}", ("tcp", "127.0.0.1", PORT))
        o = {"route": route, "lo": self.sim.now + delay, "sent": self.sim.now, "hi": None, "st": None, "d": delay}
        self.ops.append(o)

        def cb(st, d, resp):
            o["hi"], o["st"] = self.sim.now, st
            if p.conn:
                p.conn.close()
            if done:
                done(o, st, d)
        p.call(route, span_key(f"{self.plan['seed']}/{self.n}"), data, cb)
        return o

    def read(self, typ):
        r = {"type": typ, "lo": self.sim.now, "hi": None, "data": None, "st": None}
        self.reads.append(r)

        def done(o, st, d):
            r["hi"], r["st"], r["data"] = self.sim.now, st, d["statistics"] if st == 0 else d
        self.call("eco.statistics.get", {"type": typ}, done)

    def poll(self):
        self.read("gathered")
        self.sim.after(0.45, self.poll)

    def event(self, ev):
        n = self.node
        if ev[0] == "stall":
            n.stalled_until = self.sim.now + ev[1]
            self.stalls.append((self.sim.now, self.sim.now + ev[1]))
            self.sim.stats["stall"] += 1
        elif ev[0] == "clock":
            n.wall_offset += ev[1]
            self.eras.append((self.sim.now, n.wall_offset))
            self.sim.stats["clock_jump"] += 1
        elif ev[0] == "disk":
            i = disk.fault(n.disk, disk.READ, 0, disk.ACTIONS["ioerr"], 1)
            self.sim.stats["disk_read_error_window"] += 1
            self.disk_windows.append((self.sim.now, self.sim.now + ev[1]))
            self.sim.after(ev[1], disk.clear, i)

    def at_of(self, ts, lo, hi):
        """Simulated instant(s) at which the wall clock showed ts, within [lo, hi]."""
        out = []
        for i, (t0, off) in enumerate(self.eras):
            t1 = self.eras[i + 1][0] if i + 1 < len(self.eras) else 1e18
            t = ts - core.WALL_BASE - off
            if t0 - EPS <= t <= t1 + EPS and lo - EPS <= t <= hi + EPS:
                out.append(t)
        return out


def execute(plan):
    R = Run(plan)
    w, sim = R.w, R.sim
    R.node = node = w.app("srv", setup_for(plan), tcp=PORT, env={"ECOENV_STAT_GP": str(plan["period"]), "ECOENV_STAT_HL": str(plan["history"])})
    node.start()
    sim.at(0.25, R.call, "eco.buffered_handler.processing.pause", {"queue_route_key": "q"}, None)
    sim.at(0.25, R.call, "eco.buffered_sender.send_process.pause", {"queue_route_key": "out.s"}, None)
    sim.at(0.3, R.poll)
    for t, route, kind, d in plan["calls"]:
        if kind == "unknown":
            sim.at(t, R.call, "nope." + route, {"kind": kind, "delay": d}, None, 0)
        else:
            sim.at(t, R.call, route, {"kind": kind, "delay": d} if kind != "invalid" else {"kind": 3, "delay": "x"}, None, d if kind != "invalid" else 0)
    for t, i, fail, *to in plan["pushes"]:
        sim.at(t, R.call, to[0] if to else "q", {"n": i, "fail": fail}, None)
    if plan["unpause"] is not None:
        sim.at(plan["unpause"], R.call, "eco.buffered_handler.processing.unpause", {"queue_route_key": "q"}, None)
        sim.at(plan["unpause"], R.call, "eco.buffered_sender.send_process.unpause", {"queue_route_key": "out.s"}, None)
    for t, typ in plan["reads"]:
        sim.at(t, R.read, typ)
    for ev in plan["events"]:
        sim.at(ev[0], R.event, ev[1:])
    end = plan["total"] + 2.2
    try:
        while sim.now < end:
            sim.run(end)
        disk.clear_all()
        end += plan["period"] + 1.3      # one more complete period without faults
        while sim.now < end:
            sim.run(end)
        if plan["pushes"]:       # nudge the processing task in case a disk error ended it
            R.call("q", {"n": 10 ** 6, "fail": False}, None)
            R.call("s", {"n": 10 ** 6, "fail": False}, None)
            if plan["unpause"] is not None:
                R.call("eco.buffered_handler.processing.unpause", {"queue_route_key": "q"}, None)
                R.call("eco.buffered_sender.send_process.unpause", {"queue_route_key": "out.s"}, None)
        end += 1.0
        while sim.now < end:
            sim.run(end)
        for x in ("current", "gathered", "full"):
            R.read(x)
        end += 0.6
        while sim.now < end:
            sim.run(end)
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    if not node.alive:
        w.violate("ended", f"the application ended on its own: {node.exit_value!r} {node.exit_exc!r}")
        return runner.finish(w, plan)
    extra = judge(R)
    node.signal(15)
    sim.run_until(lambda: not node.alive, 6.0)
    return runner.finish(w, plan, extra)


def get(d, path):
    for k in path.split("."):
        if not isinstance(d, dict):
            return None
        d = d.get(k)
    return d


def judge(R):
    w, plan = R.w, R.plan
    cover = w.cover
    faulty_disk = bool(R.disk_windows)
    for o in R.ops:
        if o["hi"] is None and o["sent"] > R.sim.now - 0.5:
            o["hi"], o["st"] = 1e18, 0       # may or may not have been counted
        if o["hi"] is None:
            w.violate("no-answer", f"request to {o['route']} sent at {o['sent']:.4f} was never answered")
            return {}
    # -- the gathered periods, in order of appearance
    gath, last_lo, reads = [], 0.0, sorted((r for r in R.reads if r["st"] == 0), key=lambda r: r["hi"])
    R.reads = [r for r in R.reads if r["hi"] is not None]
    for r in R.reads:
        if r["st"] != 0 and not (faulty_disk and r["type"] == "current"):
            w.violate("read-failed", f"reading {r['type']} statistics failed: {r['st']} {str(r['data'])[:200]}")
            return {}
    if plan["history"] > 0:
        prev = None
        for r in (x for x in reads if x["type"] == "gathered"):
            if not r["data"]:
                if gath and r["lo"] > gath[0]["seen"]:       # not an overlapping read that was answered late
                    w.violate("history-lost", "the gathered statistics became empty")
                    return {}
            elif not gath or r["data"] != gath[-1]["data"]:
                if any(g["data"] == r["data"] and r["lo"] > g["seen"] for g in gath[:-1]):
                    w.violate("history-order", "an older period is reported as the last one again")
                    return {}
                if any(g["data"] == r["data"] for g in gath):
                    continue                     # an overlapping read that was answered late
                ts = r["data"].get("timestamp")
                lo = gath[-1]["t"] if gath else 0.0
                c = R.at_of(ts, lo, r["hi"]) if isinstance(ts, (int, float)) else []
                if not c:
                    w.violate("timestamp", f"a gathered period seen at {r['hi']:.4f} carries timestamp {ts}, which the clock did not show since the previous one")
                    return {}
                gath.append({"t": c[-1], "data": r["data"], "seen": r["hi"]})
            prev = r
    T = [g["t"] for g in gath]
    # -- spacing
    if plan["history"] > 0:
        bounds = [0.0] + T + [R.sim.now - 0.7]
        for i, (a, b) in enumerate(zip(bounds, bounds[1:])):
            st = sum(max(0, y - max(x, a)) for x, y in R.stalls if x <= b and y >= a)
            dk = any(x <= b and y >= a - 1e-3 for x, y in R.disk_windows)
            if b - a > plan["period"] + st + 0.35 and not dk:
                w.violate("gather-late", f"no period was gathered between {a:.3f} and {b:.3f} (period {plan['period']} s)")
                return {}
            if i and i < len(bounds) - 2 and b - a < plan["period"] - 0.01:
                w.violate("gather-early", f"periods were gathered at {a:.3f} and {b:.3f} (period {plan['period']} s)")
                return {}
        if len(T) >= 2:
            cover.add("gathered>=2")
    # -- counts
    routes = ROUTES + ["q", "s", "eco.statistics.get", "eco.buffered_handler.processing.pause", "eco.log.level"]
    good = {x: [o for o in R.ops if o["route"] == x and o["st"] == 0] for x in routes}

    def check_counts(x, path, what, val, t, since, exact=None):
        """val = number of successful calls in (since, t], both instants known."""
        ops = good[x]
        hi = sum(1 for o in ops if o["lo"] <= t + EPS and o["hi"] >= since - EPS)
        lo = sum(1 for o in ops if o["hi"] < t - EPS and o["lo"] > since + EPS)
        if not isinstance(val, int) or not lo <= val <= hi:
            w.violate("count", f"{what}: {path} is {val}, but between {lo} and {hi} requests were answered between {since:.4f} and {t:.4f}")
            return False
        return True
    cum = {x: 0 for x in routes}
    for k, g in enumerate(gath):
        since = T[k - 1] if k else 0.0
        d = g["data"]
        if d.get("application") != {"name": "srv", "instance": "0"} or d.get("gather_period") != plan["period"]:
            w.violate("identity", f"gathered period names {d.get('application')} with period {d.get('gather_period')}")
            return {}
        for x in routes:
            v = get(d, f"endpoint_data.{x}.call_count")
            if not check_counts(x, f"endpoint_data.{x}.call_count", f"period gathered at {g['t']:.4f}", v, g["t"], since):
                return {}
            cum[x] += v
            lo = sum(1 for o in good[x] if o["hi"] < g["t"] - EPS)
            hi = sum(1 for o in good[x] if o["lo"] <= g["t"] + EPS)
            if not lo <= cum[x] <= hi:
                w.violate("conservation", f"the periods gathered up to {g['t']:.4f} add up to {cum[x]} calls of {x}, but between {lo} and {hi} were answered")
                return {}
            if x in ROUTES:
                cv = get(d, f"custom.{x}.n") or 0
                if not check_counts(x, f"custom.{x}.n", f"period gathered at {g['t']:.4f}", cv, g["t"], since):
                    return {}
                cv = get(d, f"custom.{x}.below") or 0
                if not check_counts(x, f"custom.{x}.below (a third of it, below zero)", f"period gathered at {g['t']:.4f}", -cv // 3 if cv % 3 == 0 else None, g["t"], since):
                    return {}
                if v:
                    cover.add("custom-counter")
            if not percentiles(R, x, d, v, since, g["t"], good[x], f"period gathered at {g['t']:.4f}"):
                return {}
    # -- current
    tot_end = {}
    for r in (x for x in reads if x["type"] == "current"):
        d = r["data"]
        c = R.at_of(d.get("timestamp"), r["lo"], r["hi"]) if isinstance(d.get("timestamp"), (int, float)) else []
        if not c or d.get("application") != {"name": "srv", "instance": "0"}:
            w.violate("current-identity", f"current statistics read between {r['lo']:.4f} and {r['hi']:.4f} carry timestamp {d.get('timestamp')} and application {d.get('application')}")
            return {}
        t = c[0]
        if plan["history"] == 0:
            continue
        ties = any(abs(t - x) <= EPS for x in T)
        k = sum(1 for x in T if x < t - EPS)
        since = T[k - 1] if k else 0.0
        for x in routes:
            v = get(d, f"endpoint_data.{x}.call_count")
            if ties:
                if not isinstance(v, int) or v > sum(1 for o in good[x] if o["lo"] <= t + EPS and o["hi"] >= since - EPS):
                    w.violate("count", f"current at {t:.4f}: {x} is {v}")
                    return {}
                continue
            if not check_counts(x, f"endpoint_data.{x}.call_count", f"current statistics at {t:.4f}", v, t, since):
                return {}
            lo = sum(1 for o in good[x] if o["hi"] < t - EPS)
            hi = sum(1 for o in good[x] if o["lo"] <= t + EPS)
            done = sum(get(g["data"], f"endpoint_data.{x}.call_count") for g in gath[:k])
            if not lo <= done + v <= hi:
                w.violate("conservation", f"the periods gathered before {t:.4f} and the current statistics add up to {done + v} calls of {x}, but between {lo} and {hi} were answered")
                return {}
            if not percentiles(R, x, d, v, since, t, good[x], f"current statistics at {t:.4f}"):
                return {}
    # -- history
    for r in (x for x in reads if x["type"] == "full"):
        h = r["data"]
        if not isinstance(h, list) or len(h) > plan["history"]:
            w.violate("history-length", f"the history has {len(h) if isinstance(h, list) else h} entries, configured are {plan['history']}")
            return {}
        if len(h) == plan["history"] and h:
            cover.add("history-full")
        lo = sum(1 for x in T if x < r["lo"] - EPS)
        hi = sum(1 for x in T if x <= r["hi"] + EPS)
        ok = any(h == [g["data"] for g in reversed(gath[max(0, k - plan["history"]):k])] for k in range(lo, hi + 1))
        if not ok:
            w.violate("history", f"the history read at {r['lo']:.4f} has timestamps {[x.get('timestamp') for x in h]}; gathered were {[g['data'].get('timestamp') for g in gath[:hi]]}")
            return {}
    # -- sizes
    if plan["history"] > 0 or True:
        if not sizes(R, gath, reads, cover):
            return {}
    for o in R.ops:
        if any(o["sent"] < t < o["hi"] for t in T):
            cover.add("in-progress-at-gather")
    for r in R.reads:
        if any(r["lo"] <= t <= r["hi"] for t in T):
            cover.add("read-at-gather")
    for n, f in (("stall", R.stalls), ("clock-jump", len(R.eras) > 1), ("disk-error", R.disk_windows), ("middleware", plan["mw"]),
                 ("failing-request", any(o["st"] for o in R.ops))):
        if f:
            cover.add(n)
    return {"nontrivial": len(T) >= 2 and bool({"in-progress-at-gather", "read-at-gather"} & cover),
            "sample": {"period": plan["period"], "history": plan["history"], "calls": len(plan["calls"]), "reads": len(plan["reads"]), "events": [e[1] for e in plan["events"]], "gathered at": [round(t, 3) for t in T]}}


def percentiles(R, x, d, v, since, t, ops, what):
    p95, p99 = get(d, f"endpoint_data.{x}.p95"), get(d, f"endpoint_data.{x}.p99")
    if v == 0:
        if p95 != -1 or p99 != -1:
            R.w.violate("percentile", f"{what}: no calls of {x}, but p95 and p99 are {p95} and {p99}")
            return False
        return True
    poss = [o for o in ops if o["lo"] <= t + EPS and o["hi"] >= since - EPS]
    a = min(o["d"] for o in poss) - 1e-6
    b = max(o["hi"] - o["sent"] for o in poss) + 1e-6
    if not (isinstance(p95, float) and isinstance(p99, float) and a <= p95 <= p99 + 1e-9 and p99 <= b):
        R.w.violate("percentile", f"{what}: p95 {p95} and p99 {p99} of {x}; the {v} calls of that period took between {max(a, 0):.5f} and {b:.5f} s")
        return False
    if v >= 3:
        R.w.cover.add("percentiles")
    return True


def sizes(R, gath, reads, cover):
    obs = [(g["t"], g["data"], f"period gathered at {g['t']:.4f}") for g in gath]
    for r in reads:
        if r["type"] == "current":
            obs.append((R.at_of(r["data"]["timestamp"], r["lo"], r["hi"])[0], r["data"], "current statistics"))
    last = [r for r in reads if r["type"] == "current"][-1:]
    return all(sizes_of(R, obs, last, cover, *x) for x in (("q", "buffered_endpoint_sizes.q"), ("s", "buffered_sender_sizes.out.s")))


def sizes_of(R, obs, last, cover, q, path):
    plan, w = R.plan, R.w
    pushes = [o for o in R.ops if o["route"] == q and o["st"] == 0]
    mine = [x for x in plan["pushes"] if (x[3] if len(x) > 3 else "q") == q]
    fails = sum(1 for x in mine if x[2])
    un = min([o["sent"] for o in R.ops if o["route"].endswith("unpause")], default=1e18)
    for t, d, what in obs:
        p, e = get(d, f"{path}.pending"), get(d, f"{path}.error")
        hi = sum(1 for o in pushes if o["lo"] <= t + EPS)
        lo = sum(1 for o in pushes if o["hi"] < t - EPS) if t < un else 0
        if any(x - 0.01 <= t for x, y in R.disk_windows):
            lo = 0                      # a push may have failed on the disk error
        if not isinstance(p, int) or not isinstance(e, int) or not lo <= p <= hi or e > fails or (t < un and e):
            w.violate("sizes", f"{what}: {path} at {t:.4f} are {p} pending and {e} errors; pending should be between {lo} and {hi}, errors at most {fails}")
            return False
        if p and t < un:
            cover.add("sizes-paused" if q == "q" else "sender-sizes-paused")
    if last and mine:
        p, e = (get(last[0]["data"], f"{path}.{x}") for x in ("pending", "error"))
        if un < 1e17:
            if (p, e) != (0, fails) and not R.disk_windows:
                w.violate("sizes", f"at the end {path} should be 0 pending and {fails} errors, reported are {p} and {e}")
                return False
            cover.add("sizes-drained" if q == "q" else "sender-sizes-drained")
    return True
