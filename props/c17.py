"""C17: the metrics scraper publishes, every round, exactly what the targets that answered have reported."""
import copy
import http.client
import io
import json
import math
import random
import re
import urllib.error

from sim import net as simnet, runner
from sim.core import SimLimit
from sim.world import Peer, World, span_key

TIERS = {
    "quick": {"runs": 700, "wall": 100},
    "thorough": {"runs": 25000, "wall": 1500},
}
RULE = "distinct event logs of runs with at least one target or gateway failure"
REAL = ["ekosis_prometheus (application, discovery, scraper, translation)", "ekosis clients, servers, statistics", "prometheus_client (registry, exposition)", "asyncio"]
STUB = ["network", "clock", "Pushgateway (HTTP transport replaced, exposition checked as strictly as a Pushgateway does)", "scripted targets in part of the runs"]
ASSUMPTIONS = ["route keys have the form group.name", "no target reports the name and instance of another one", "a target is reached over one transport"]
PROBES = ["tcp", "udp", "uds", "app-target", "self-target", "silent", "refuse", "fin", "rst", "garbage", "status", "late", "slow", "odd", "partial", "trickle", "killed-target", "stalled-target",
          "restarted-target", "recovered", "gateway-refuse", "gateway-status", "gateway-hang", "gateway-slow", "custom-name", "custom-name-shared", "remote-not-scraped", "all-failing", "instance-case", "not-gathered-yet"]
HOST = "10.77.0.5"
NAMES = ["router", "time_reporter", "magic_eight_ball", "tracker", "dice"]
CUSTOM = ["hits", "cache.hit_rate", "odd name", "odd_name", "odd-name", "gr\u00f6\u00dfe", "a.b.c", "a_b.c", "x/y", "9lives", "a b.c", "UP", "hits.total", "%"]
BAD = ["silent", "fin", "rst", "garbage", "status", "late", "partial", "refuse", "trickle", "odd"]
ODD = [{"application": None}, [], None, 5, "x", {"application": 3}, {"uptime": "x", "application": {}}, {"endpoint_data": [1]}, {"endpoint_data": {"g": {"e": {"p95": "x"}}}},
       {"custom": {"a": 10 ** 400}}, {"buffered_endpoint_sizes": 7}, {"endpoint_data": {"g": {"e": {"call_count": []}}}}, {"hits": {"\ud800": 1}}, {"x\ud800": 2}, {"endpoint_data": {"g\ud800": {"e": {"call_count": 1}}}}, {"\n": {"a\"b": 1}}, {"": 3}]
TIMEOUT, TRIES = 5.0, 3


def generate(seed, tier):
    r = random.Random("c17/" + seed)
    poll = r.choice([1, 2, 5, 20])
    n = r.choice([1, 2, 3, 4, 6])
    ts = []
    used = set()
    for k in range(n):
        while True:
            nm, inst = r.choice(NAMES), r.choice(["0", "1", "7", "x", "Main"])
            if (nm, inst.upper()) not in used:
                break
        used.add((nm, inst.upper()))
        proto = r.choice(["tcp", "udp", "uds"])
        t = {"name": nm, "inst": inst, "proto": proto, "kind": "app" if r.random() < 0.3 else "script", "host": r.choice(["127.0.0.1", "127.0.0.1", "localhost", "0.0.0.0", "simhost", HOST]), "port": 7000 + k,
             "custom": sorted(r.sample(CUSTOM, r.choice([0, 1, 3]))), "routes": r.choice([1, 3]), "beh": [], "gp": r.choice([poll, poll, 3, 600])}
        tt = 0.0
        if t["kind"] == "script":
            while tt < 12 * poll + 40 and r.random() < 0.8:
                tt += r.choice([0.5, 1, 2, 4]) * poll * r.uniform(0.4, 1.2) + (16 if r.random() < 0.3 else 0)
                t["beh"].append([round(tt, 4), r.choice(BAD + ["slow", "ok", "ok", "ok", "ok"]), r.randrange(1000)])
        ts.append(t)
    p = {"seed": seed, "poll": poll, "targets": ts, "self": r.random() < 0.25, "remote": r.random() < 0.3, "rounds": r.randint(3, 8),
         "events": [], "gateway": []}
    span = p["rounds"] * poll + 20
    for k, t in enumerate(ts):
        if t["kind"] == "app":
            for _ in range(r.choice([0, 0, 1, 2])):
                a = round(r.uniform(0.5, span), 4)
                p["events"].append([a, r.choice(["kill", "term", "stall"]), k, round(r.choice([0.5, 8.0, 40.0]) * r.uniform(0.5, 1.5), 4)])
    for _ in range(r.choice([0, 0, 1, 2])):
        a = round(r.uniform(0, span), 4)
        p["gateway"].append([a, round(a + r.choice([0.5, poll, 4 * poll]), 4), r.choice(["refuse", "status", "hang", "slow", "reset", "noise"])])
    p["_shrink"] = ["events", "gateway", "targets"]
    return p


def shrink(plan):
    for i, t in enumerate(plan["targets"]):
        for j in range(len(t["beh"])):
            c = copy.deepcopy(plan)
            del c["targets"][i]["beh"][j]
            yield c
        if t["custom"]:
            c = copy.deepcopy(plan)
            c["targets"][i]["custom"] = t["custom"][:-1]
            yield c


# ------------------------------------------------------------------ the oracle's own idea of the documented metrics
def wanted(stats, name, inst):
    """{(metric, labels): set of acceptable values} of a well-formed report."""
    out = {}

    def put(m, v, **kw):
        out.setdefault((m, frozenset({"service": name, "instance": inst, **kw}.items())), set()).add(float(v))
    if "uptime" in stats:
        put("ekosis_uptime_seconds", stats["uptime"])
    if "gather_period" in stats:
        put("ekosis_gather_period_seconds", stats["gather_period"])
    for g, es in stats.get("endpoint_data", {}).items():
        for e, d in es.items():
            if g == "eco" or not isinstance(d, dict) or "call_count" not in d:
                continue
            put("ekosis_endpoint_call_count", d["call_count"], group=g, endpoint=e)
            for q in ("p95", "p99"):
                if d.get(q, -1) >= 0:
                    put(f"ekosis_endpoint_{q}_seconds", d[q], group=g, endpoint=e)
    for k, m in (("buffered_endpoint_sizes", "ekosis_buffered_endpoint"), ("buffered_sender_sizes", "ekosis_buffered_sender")):
        for g, es in stats.get(k, {}).items():
            for e, d in es.items():
                if g != "eco" and isinstance(d, dict):
                    for q in ("pending", "error"):
                        if q in d:
                            put(f"{m}_queue_{q}", d[q], group=g, endpoint=e)

    def flat(o, path):
        if isinstance(o, dict):
            for k, v in o.items():
                flat(v, path + [k])
        elif isinstance(o, (int, float)):
            put("ekosis_custom_" + re.sub("[^a-zA-Z0-9_]", "_", "_".join(path)), o)
    for k, v in stats.items():
        if k not in ("application", "endpoint_data", "buffered_endpoint_sizes", "buffered_sender_sizes", "timestamp", "uptime", "gather_period"):
            flat(v, [k])
    return out


class Reject(Exception):
    pass


LINE = re.compile(r'^([a-zA-Z_:][a-zA-Z0-9_:]*)(\{(.*)\})? ([^ ]+)$')
LABEL = re.compile(r'([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\]|\\.)*)"(,|$)')


def parse(body):
    """Text exposition, as strict as a Pushgateway: -> {(metric, labels): value}."""
    out, typed, current, closed = {}, set(), None, set()
    for line in body.decode("utf-8").split("\n"):
        if not line:
            continue
        if line.startswith("#"):
            w = line.split(" ", 3)
            if len(w) >= 3 and w[1] in ("HELP", "TYPE"):
                key = (w[1], w[2])
                if key in typed:
                    raise Reject(f"second {w[1]} line for metric name {w[2]!r}")
                typed.add(key)
            continue
        m = LINE.match(line)
        if not m:
            raise Reject(f"not a sample: {line!r}")
        labels, rest = {}, m.group(3) or ""
        while rest:
            x = LABEL.match(rest)
            if not x:
                raise Reject(f"bad labels: {line!r}")
            labels[x.group(1)] = x.group(2).replace("\\n", "\n").replace('\\"', '"').replace("\\\\", "\\")
            rest = rest[x.end():]
        k = (m.group(1), frozenset(labels.items()))
        if k in out:
            raise Reject(f"collected before with the same name and label values: {line!r}")
        out[k] = float(m.group(4))
    return out


# ------------------------------------------------------------------ the simulated deployment
class Target:
    """A scripted target."""
    def __init__(self, run, k, t):
        self.run, self.k, self.t = run, k, t
        self.sim, self.w = run.sim, run.w
        self.rng = self.sim.rng(f"target/{k}")
        self.log = []             # [t, behaviour, statistics, delay]
        self.n = 0
        self.beh, self.x = "ok", 0
        self.conns = []
        self.raw_conns = self.conns
        self.owner = simnet.HubOwner(f"t{k}")
        self.addr = t["host"]
        if t["proto"] == "uds":
            self.key = ("uds", run.path(k))
        else:
            self.key = (t["proto"], t["host"], t["port"])
        self.udp = None
        self.up(True)
        for at, b, x in t["beh"]:
            self.sim.at(at, self.change, b, x)

    def up(self, yes):
        net = self.w.net
        if self.t["proto"] == "udp":
            if yes and self.udp is None:
                self.udp = simnet.SimDatagram(net, self.owner, None, self, (self.t["host"], self.t["port"]), None)
                net.udp[(self.t["host"], self.t["port"])] = self.udp
            elif not yes and self.udp is not None:
                net.udp.pop((self.t["host"], self.t["port"]), None)
                self.udp = None
        elif yes:
            from sim.clients import RawServerConn
            net.bound[self.key] = self.owner
            net.listeners[self.key] = (self.owner, None, lambda: RawServerConn(self), None)
        else:
            net.listeners.pop(self.key, None)
            net.bound.pop(self.key, None)

    def change(self, b, x):
        self.beh, self.x = b, x
        self.sim.rec("behaviour", k=self.k, b=b)
        self.up(b != "refuse")

    # -- statistics as an ekosis application reports them
    def stats(self):
        r, t = self.rng, self.t
        self.n += 1
        s = {"timestamp": 1.7e9 + self.sim.now, "uptime": self.sim.now + r.random(), "gather_period": self.run.plan["poll"], "application": {"name": t["name"], "instance": t["inst"]},
             "endpoint_data": {"eco": {"statistics": {"get": {"call_count": 3, "p95": 0.1, "p99": 0.1}}}}}
        for j in range(t["routes"]):
            c = r.choice([0, 1, 57])
            d = s["endpoint_data"].setdefault(("g0", "g1", "economy")[j % 3], {})
            q = -1.0 if not c else r.random() / 10
            d[f"e{j}"] = {"call_count": c, "p95": q, "p99": q if q < 0 else q + 0.001}
        if r.random() < 0.5:
            s["buffered_endpoint_sizes"] = {"g0": {"q": {"pending": r.randint(0, 9), "error": r.randint(0, 2)}}, "eco": {"z": {"pending": 1}}}
            s["buffered_sender_sizes"] = {r.choice(["g1", "eco.lab"]): {"s": {"pending": r.randint(0, 9), "error": 0}}}
        for c in t["custom"]:
            d = s
            ks = c.split(".")
            for x in ks[:-1]:
                d = d.setdefault(x, {})
                if not isinstance(d, dict):
                    break
            if isinstance(d, dict):
                d[ks[-1]] = r.choice([1, 2.5, -3, 10 ** 12, True, "v1.2", None, [1, 2], {}, {"deep-er": {"x.y": 4, "state": "open"}}, "5"])
        return s

    def raw_request(self, line, reply, conn):
        try:
            q = json.loads(line)
            assert q["route_key"] == "eco.statistics.get"
        except (ValueError, KeyError, AssertionError):
            self.w.violate("malformed-request", f"a target was asked {line[:200]!r}")
            return
        b = self.beh
        ent = [self.sim.now, b, None, 0.0]
        self.log.append(ent)
        self.sim.stats["target_" + b] += 1
        nl = b"\n" if conn is not None else b""
        d = {"late": 40.0, "slow": self.rng.uniform(0.2, 4.0)}.get(b, 0.0)
        s = self.stats()
        if b in ("ok", "slow"):
            ent[2] = s
        kind = (q.get("data") or {}).get("type")
        if kind == "current":         # the period that has only just begun
            s = {"timestamp": s["timestamp"], "uptime": s["uptime"], "application": s["application"], "endpoint_data": {}}
        elif kind == "full":
            s = {"history": [s]}
        ent[3] = d
        if b == "odd":
            s = ODD[self.x % len(ODD)]
            if isinstance(s, dict) and "application" not in s:
                s = {**s, "application": {"name": self.t["name"], "instance": self.t["inst"]}}
        good = json.dumps({"span_key": q["span_key"], "status": 0, "data": {"statistics": s}}).encode() + nl

        def send(data):
            if conn is not None and conn.gone:
                return
            reply(data)
        if b in ("silent", "refuse"):
            return
        if b in ("fin", "rst", "partial"):
            if conn is None:
                return
            if b == "partial":
                send(good[:len(good) // 2])
            conn.t.abort() if b == "rst" else conn.t.close()
        elif b == "garbage":
            send([b"not json\n", b"{}\n", b"[]\n", b"\xff\xfe\n", b'{"status": "x"}\n'][self.x % 5])
        elif b == "status":
            send(json.dumps({"span_key": q["span_key"], "status": [100, 200, 300, 400, 500, 600, 999, 777][self.x % 8], "data": "planned"}).encode() + nl)
        elif b == "trickle":
            if conn is None:
                return
            for i in range(60):
                self.sim.after(i * 1.5, send, good[i:i + 1])
        else:
            self.sim.after(d, send, good)

    def datagram_received(self, data, addr):
        udp = self.udp
        self.raw_request(data.rstrip(b"\n"), lambda b: udp.sendto(b, addr) if self.udp is udp else None, None)

    def error_received(self, exc):
        pass

    def connection_lost(self, exc):
        pass


class AppTarget:
    """A real application as target (also: the scraper itself)."""
    def __init__(self, run, k, t):
        self.run, self.k, self.t = run, k, t
        self.log = []
        self.node = None
        self.trouble = []         # [t0, t1] during which it was dead or stalled
        self.down_since = None

    def start(self):
        run, t = self.run, self.t
        if self.down_since is not None:
            self.trouble.append([self.down_since, run.sim.now + 0.5])
            self.down_since = None
            run.w.cover.add("restarted-target")
        net = {t["proto"]: t["port"]} if t["proto"] != "uds" else {}
        env = {f"ECOENV_{t['proto'].upper()}_{t['name'].upper()}_{t['inst'].upper()}": run.address(self.k), "ECOENV_STAT_GP": str(t["gp"])}
        self.node = run.w.app(f"t{self.k}", self.setup, t["inst"], app_name=t["name"], env=env, **({} if net else {}))
        self.node.start()

    def setup(self, node):
        watch(self, node)
        import asyncio
        from ekosis.requests.endpoint import endpoint
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        from ekosis.state_keepers.statistics_keeper import StatisticsKeeper
        from pydantic import BaseModel
        t = self.t

        class Dto(BaseModel):
            n: int

        async def work(dto, **kw):
            await asyncio.sleep(dto.n / 1000)
            for c in t["custom"]:
                if not any(o != c and (o.startswith(c + ".") or c.startswith(o + ".")) for o in t["custom"]):
                    StatisticsKeeper().increment(c, dto.n)
            return dto
        for j in range(t["routes"]):
            async def fn(dto, **kw):
                return await work(dto)
            fn.__name__ = f"work{j}"
            endpoint(f"g{j}.e{j}" if j != 1 else "ecology.e1", Dto)(fn)

        async def later(dto, **kw):
            return dto.n % 3 != 0
        buffered_endpoint("g0.q", Dto, page_size=10, max_retries=1)(later)

    def stop(self, how):
        if self.node.alive:
            self.down_since = self.run.sim.now
            if how == "kill":
                self.node.crash("kill")
            else:
                self.node.signal(15)
            self.run.w.cover.add("killed-target")


def watch(target, node):
    """What the application itself reports."""
    from ekosis.middleware.manager import MiddlewareManager
    from ekosis.middleware.middleware_base import MiddlewareBase

    class Watch(MiddlewareBase):
        async def before_routing(self, protocol_dto, **kw):
            return protocol_dto

        async def after_routing(self, protocol_dto, response_dto, **kw):
            if protocol_dto.route_key == "eco.statistics.get" and not node.crashed:
                target.log.append([target.run.sim.now, "app", copy.deepcopy(response_dto.statistics), 0.0])
            return response_dto
    MiddlewareManager().add(Watch())


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.w = World(plan)
        self.sim = self.w.sim
        self.sim.max_steps = 900_000
        self.pushes = []          # [t0, t1, body, outcome]
        self.rng = self.sim.rng("gateway")
        self.targets = []
        self.w.net.key_hosts = {}
        for k, t in enumerate(plan["targets"]):
            c = AppTarget if t["kind"] == "app" else Target
            self.targets.append(c(self, k, t))
            self.w.cover.add(t["proto"])
            if t["kind"] == "app":
                self.w.cover.add("app-target")
        for t in self.targets:
            if isinstance(t, AppTarget):
                t.start()
        for e in plan["events"]:
            self.sim.at(e[0], self.event, e)

    def path(self, k):
        return f"{self.w.tmp}/uds/t{k}.sock"

    def address(self, k):
        t = self.plan["targets"][k]
        return self.path(k) if t["proto"] == "uds" else f"{t['host']}:{t['port']}"

    def event(self, e):
        if e[2] >= len(self.targets):
            return
        t = self.targets[e[2]]
        if not isinstance(t, AppTarget):
            return
        if e[1] == "stall":
            if t.node.alive:
                t.node.stalled_until = self.sim.now + e[3]
                t.trouble.append([self.sim.now, self.sim.now + e[3] + 0.5])
                self.w.cover.add("stalled-target")
        elif t.node.alive:
            t.stop(e[1])
            self.sim.after(e[3], self.again, t)

    def again(self, t):
        if t.node.alive:
            self.sim.after(1.0, self.again, t)
        else:
            t.start()

    # -- traffic to the application targets
    def traffic(self):
        for t in self.targets:
            if isinstance(t, AppTarget) and t.k != 99 and t.node.alive:
                key = ("uds", self.path(t.k)) if t.t["proto"] == "uds" else ("tcp", t.t["host"], t.t["port"])
                if t.t["proto"] != "udp":
                    p = Peer(self.w, f"user{t.k}", key)
                    n = self.sim.rng("traffic").randint(1, 40)
                    p.call("g0.e0" if n % 2 else "g0.q", span_key(f"u{t.k}/{self.sim.now}"), {"n": n}, lambda *a: None)
        self.sim.after(self.sim.rng("traffic").uniform(0.1, 2.0), self.traffic)

    # -- the scraper
    def scraper_main(self, node):
        from sim import loader
        loader.fresh_process(node)
        if self.plan["self"]:
            watch(self.me, node)
        from ekosis_prometheus.application import main
        main()

    def gateway(self, request, timeout):
        node = self.sim.current
        t0 = self.sim.now
        mode = next((m for a, b, m in self.plan["gateway"] if a <= t0 < b), "ok")
        body = request.data
        ent = [t0, None, body, mode, request.get_method(), request.full_url]
        self.pushes.append(ent)
        self.sim.stats["gateway_" + mode] += 1
        self.sim.rec("push", mode=mode, size=len(body or b""))
        if mode == "hang":
            if timeout is None:
                self.sim.rec("push-hangs")
                self.w.violate("push-hangs", "the scraper waits without limit for a Pushgateway that does not answer")
                node.park(None)
            node.sleep(timeout)
            ent[1] = self.sim.now
            raise TimeoutError("timed out")
        node.sleep(self.rng.uniform(0.001, 0.02) if mode != "slow" else self.rng.uniform(1, 20))
        ent[1] = self.sim.now
        if mode == "refuse":
            raise urllib.error.URLError(ConnectionRefusedError(111, "Connection refused"))
        if mode == "reset":
            raise ConnectionResetError(104, "Connection reset by peer")
        if mode == "noise":
            raise http.client.BadStatusLine("SSH-2.0-OpenSSH_9.6")
        if mode == "status":
            raise urllib.error.HTTPError(request.full_url, 503, "Service Unavailable", {}, io.BytesIO(b""))
        try:
            parse(body)
        except Reject as e:
            self.w.violate("push-rejected", f"a Pushgateway rejects the whole push, of all targets: {e}")
            raise urllib.error.HTTPError(request.full_url, 400, str(e), {}, io.BytesIO(b""))

        class R:
            code, status, msg = 200, 200, "OK"
        return R()

    def run(self):
        p = self.plan
        env = {"ECOENV_EXTRA_PUSHGATEWAY": "http://gw:9091", "ECOENV_STAT_GP": str(p["poll"])}
        for k, t in enumerate(p["targets"]):
            env[f"ECOENV_{t['proto'].upper()}_{t['name'].upper()}_{t['inst'].upper()}"] = self.address(k)
        if p["remote"]:
            env["ECOENV_TCP_FARAWAY_0"] = "192.0.2.7:9000"
            env["ECOENV_UDP_FARAWAY_1"] = "other.example:9000"
            # variables that name no service
            env.update({"BACKUP_TCP_GHOST_0": "127.0.0.1:9001", "MY_ECOENV_UDP_GHOST_1": "127.0.0.1:9002", "ECOENV_TCP_GHOST_2": "127.0.0.1", "ECOENV_UDP_GHOST_3": "127.0.0.1:http",
                        "ECOENV_EXTRA_TCP_GHOST_4": "127.0.0.1:9003", "ECOENV_TCPGHOST_5": "127.0.0.1:9004", "ECOENV_TCP_GHOST_6": ""})
            self.w.cover.add("remote-not-scraped")
        if p["self"]:
            self.me = AppTarget(self, 99, {"name": "ekosis_prometheus", "inst": "0", "proto": "udp", "kind": "app", "custom": [], "gp": p["poll"]})
            env["ECOENV_UDP_EKOSIS_PROMETHEUS_0"] = "127.0.0.1:8700"
            self.targets.append(self.me)
            self.w.cover.add("self-target")
        node = self.w.app("scraper", None, "0", app_name="ekosis_prometheus", main=self.scraper_main, env=env)
        if p["self"]:
            self.me.node = node
        install(self)
        self.node = node
        self.sim.at(0.2, node.start)
        self.sim.at(0.5, self.traffic)
        n = len(self.targets)
        self.bound = p["poll"] + n * (TRIES * TIMEOUT + 2) + 35
        end = 0
        # until the rounds are done and everything has been well again for two rounds
        well = max([x[0] for t in p["targets"] for x in t["beh"]] + [e[0] + e[3] + 5 for e in p["events"]] + [g[1] for g in p["gateway"]] + [0])
        for t in self.targets:
            if isinstance(t, Target):
                self.sim.at(well + 0.001, t.change, "ok", 0)
        end = max(p["rounds"] * p["poll"], well) + 3 * self.bound
        while self.sim.now < end and not (len([x for x in self.pushes if x[0] > well + 2]) >= 3 and len(self.pushes) >= p["rounds"]):
            if not node.alive and self.sim.now > 0.3:
                break
            self.sim.run(min(end, self.sim.now + 1.0))
        self.well = well


def install(run):
    import prometheus_client.exposition as ex
    import urllib.request
    import socket

    class Opener:
        def open(self, request, data=None, timeout=30):
            return run.gateway(request, timeout)
    ex.build_opener = urllib.request.build_opener = lambda *a: Opener()
    urllib.request.urlopen = lambda request, data=None, timeout=None, **kw: run.gateway(request, timeout)
    socket.gethostname = lambda: "simhost"
    socket.gethostbyname = lambda h: HOST


def prepare(scratch):
    import prometheus_client  # noqa
    import prometheus_client.exposition  # noqa
    import urllib.request  # noqa


def execute(plan):
    R = Run(plan)
    w = R.w
    try:
        R.run()
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    if not R.node.alive:
        w.violate("ended", f"the scraper has ended: {type(R.node.exit_exc).__name__}: {R.node.exit_exc}")
    judge(R)
    c = w.cover
    for k in R.sim.stats:
        if k.startswith("target_"):
            c.add(k[7:])
        if k.startswith("gateway_"):
            c.add("gateway-" + k[8:])
    for t in plan["targets"]:
        if any(x[1] == "refuse" for x in t["beh"]):
            c.add("refuse")
        if any(not re.fullmatch("[a-zA-Z0-9_.]+", x) for x in t["custom"]):
            c.add("custom-name")
        if t["inst"] != t["inst"].upper():
            c.add("instance-case")
    if sum(1 for t in plan["targets"] if {"odd name", "odd_name", "odd-name", "a b.c", "a_b.c", "a.b.c"} & set(t["custom"])) > 1:
        c.add("custom-name-shared")
    return runner.finish(w, plan, {"nontrivial": bool(c & set(BAD + ["slow", "killed-target", "stalled-target", "gateway-refuse", "gateway-status", "gateway-hang", "gateway-slow"])),
                                   "sample": {"poll": plan["poll"], "targets": [{k: t[k] for k in ("name", "inst", "proto", "kind", "custom", "beh")} for t in plan["targets"]], "events": plan["events"], "gateway": plan["gateway"]}})


def judge(R):
    w, plan = R.w, R.plan
    prev = 0.2
    known = {}                # target index -> (name, instance) it has reported
    was = {}
    for n, (t0, t1, body, mode, method, url) in enumerate(R.pushes):
        if t1 is None:
            continue
        if t0 - prev > R.bound:
            w.violate("round-too-long", f"round {n} took {t0 - prev:.1f} s with {len(R.targets)} targets (limit {R.bound:.1f} s)")
        if method != "PUT":
            w.violate("stale-series", f"the scraper pushes with {method}: what an earlier round had published of a target that fails now stays published")
        if not url.endswith("/metrics/job/ekosis_prometheus-0"):
            w.violate("wrong-group", f"pushed to {url}")
        try:
            got = parse(body)
        except Reject:
            prev = t1
            continue
        seen = set()
        healthy_n = 0
        for i, t in enumerate(R.targets):
            spec = t.t
            asked = [e for e in t.log if prev <= e[0] <= t0]
            verdict = None                      # True / False / None: not decided by this history
            stats = None
            if isinstance(t, AppTarget):
                bad = [x for x in t.trouble if x[0] < t0 and x[1] > prev]
                if t.down_since is not None and t.down_since < t0:
                    bad.append([t.down_since, 1e9])
                if not bad and asked:
                    verdict, stats = True, asked[-1][2]
                elif any(x[0] < prev - 40 and x[1] > t0 and t.node.started_at < prev for x in bad) and not asked and not t.node.alive:
                    verdict = False
            else:
                kinds = {e[1] for e in asked}
                if asked and asked[-1][1] in ("ok", "slow"):
                    verdict, stats = True, asked[-1][2]
                elif "odd" not in kinds and not kinds & {"ok", "slow"}:
                    if asked or changes(t, prev, t0) == {"refuse"}:
                        verdict = False
                if asked and spec["proto"] == "udp" and "refuse" in changes(t, prev, t0):
                    verdict = None           # an answer may have been on its way when the socket was closed
            if isinstance(t, Target) and len(asked) > 1 and changes(t, prev, t0) <= {"ok", "slow"} and not (len(asked) <= TRIES and any(e[3] > 4 for e in asked)):
                w.violate("round-not-published", f"{spec['name']}/{spec['inst']} answered {len(asked)} times before round {n} was pushed: what it reported the first time was not published")
            own = known.get(i)
            names = {(spec["name"], spec["inst"]), (spec["name"], spec["inst"].upper())}
            if stats:
                own = known[i] = (stats["application"]["name"], stats["application"]["instance"])
            elif stats is not None:
                w.cover.add("not-gathered-yet")
            mine = {k: v for k, v in got.items() if any(("service", a) in k[1] and ("instance", b) in k[1] for a, b in names)}
            health = {k: v for k, v in mine.items() if k[0] == "ekosis_service_health"}
            seen |= set(mine)
            who = f"{spec['name']}/{spec['inst']} ({spec['proto']})"
            if verdict is None:
                continue
            if len(health) != 1:
                w.violate("health", f"round {n}: {len(health)} health values for {who}: {sorted((dict(k[1])['instance'], v) for k, v in health.items())}")
                continue
            (hk, hv), = health.items()
            if hv != (1.0 if verdict else 0.0):
                w.violate("health", f"round {n}: {who} {'answered' if verdict else 'did not answer'}, and is published with health {hv} ({[e[1] for e in asked]})")
                continue
            if own and dict(hk[1])["instance"] != own[1]:
                w.violate("health-label", f"round {n}: the health of {who}, which reports itself as {own}, is published as instance {dict(hk[1])['instance']}")
            if not verdict:
                if any(k[0] != "ekosis_service_health" for k in mine):
                    w.violate("stale", f"round {n}: {who} did not answer, yet {len(mine) - 1} values are published for it")
                was[i] = False
                continue
            healthy_n += 1
            if was.get(i) is False:
                w.cover.add("recovered")
            was[i] = True
            want = wanted(stats, *own) if stats else {}
            for k, vs in want.items():
                if k not in mine:
                    w.violate("missing-metric", f"round {n}: {who} reported {k[0]} {dict(k[1])} = {sorted(vs)}, which is not published")
                    break
                if not any(math.isclose(mine[k], v, rel_tol=1e-12) for v in vs):
                    w.violate("wrong-value", f"round {n}: {who} reported {k[0]} {dict(k[1])} = {sorted(vs)}, published is {mine[k]}")
                    break
            extra = [k for k in mine if k not in want and k[0] != "ekosis_service_health"]
            if extra:
                w.violate("invented-metric", f"round {n}: {extra[0][0]} {dict(extra[0][1])} is published for {who}, which did not report it")
        other = set(got) - seen
        if other:
            k = sorted(other, key=str)[0]
            w.violate("unknown-series", f"round {n}: {k[0]} {dict(k[1])} is published, which belongs to no target")
        if not healthy_n and plan["targets"]:
            w.cover.add("all-failing")
        prev = t1
    if R.node.alive and R.sim.now - prev > R.bound:
        w.violate("rounds-stop", f"no push for {R.sim.now - prev:.0f} s (limit {R.bound:.0f} s)")
    if R.node.alive and len(R.pushes) < 2:
        w.violate("rounds-stop", f"{len(R.pushes)} pushes in {R.sim.now:.0f} s")


def changes(t, a, b):
    """The behaviours in force between a and b."""
    cur, out = "ok", set()
    beh = sorted(t.t["beh"] + [[t.run.well + 0.001, "ok", 0]], key=lambda x: x[0])
    for at, x, _ in beh:
        if at <= a:
            cur = x
        elif at < b:
            out.add(x)
    return out | {cur}
