"""C13: every log record is in the log files once, in order, complete, with the ids of its own request."""
import glob
import json
import os
import random

from sim import core, net as simnet, runner
from sim.core import SimLimit
from sim.world import Peer, World, app_main, request_line, span_key

TIERS = {
    "quick": {"runs": 1000, "wall": 90},
    "thorough": {"runs": 30000, "wall": 1500},
}
RULE = "distinct event logs of runs in which records of overlapping requests were buffered together or the files were rotated"
REAL = ["whole application process: servers, router, buffered endpoint and sender, logging configuration, buffered rotating handler, OTLP formatter, Python's logging and RotatingFileHandler on a scratch directory"]
STUB = ["network", "disk under SQLite (in-memory VFS)", "clocks", "raw peers", "the client of the sender"]
ASSUMPTIONS = ["the file system under the log directory works", "records have valid format arguments", "kills happen between two steps of the event loop"]
PROBES = ["buffered-together", "rotated", "dropped-oldest", "restart", "kill-with-buffered", "kill-unbuffered", "level-changed", "suppressed", "buffer-changed", "buffer-shrunk-below-content",
          "mutated-argument", "surrogate", "newline", "non-ascii", "from-queue", "from-sender", "from-background", "from-child-task", "from-udp", "line-signal", "logged-while-ending", "clock-jump", "connection-reset", "heartbeat-failed"]
PORT, UPORT, FAR = 8900, 8901, 8902
LEVELS = {"debug": 10, "info": 20, "warn": 30, "error": 40, "critical": 50}
TEXTS = ["plain", "line\none\n", "tab\t\"quoted\" \\", "caf\u00e9 \u2028 \u4e16\u754c \U0001f600", "\ud800 lone", "nul\x00 esc\x1b", "", "%s %d {}", "x" * 300]


def generate(seed, tier):
    r = random.Random("c13/" + seed)
    T = r.choice([1.0, 2.5, 4.0])
    reqs = []
    for i in range(r.randint(2, 18 if tier == "quick" else 36)):
        steps = [[r.choice([0, 0, 0.001, 0.01, 0.1]), r.choice(["debug", "info", "info", "warn", "error", "critical"]), r.randrange(len(TEXTS)),
                  r.choice(["plain", "plain", "args", "mutate", "child", "exc"])] for _ in range(r.randint(1, 5))]
        reqs.append([round(0.3 + r.uniform(0, T) * r.choice([0.3, 1]), 5), r.choice(["e", "e", "e", "q", "q", "u", "s", "t", "c"]), steps, r.choice([0, 0, 0, 1, 9])])
    reqs.sort(key=lambda x: x[0])
    mg = []
    for _ in range(r.choice([0, 0, 1, 3])):
        mg.append([round(r.uniform(0.3, T), 5), "level", r.choice(list(LEVELS))])
    for _ in range(r.choice([0, 0, 1, 3])):
        mg.append([round(r.uniform(0.3, T), 5), "buffer", r.choice([0, 1, 3, 8, 40])])
    mg.sort(key=lambda x: x[0])
    ev = []
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        k = r.choice(["sig", "sig", "linesig", "kill"])
        ev.append([round(r.uniform(0.4, T + 0.3), 4), k, r.randint(1, 400)])
    if r.random() < 0.15:
        ev.append([round(r.uniform(0.4, T), 4), "clock", r.choice([-3600, -1.5, 86400])])
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        ev.append([round(r.uniform(0.4, T + 1.5), 4), "reset", r.randrange(8)])
    return {"seed": seed, "T": T, "far": r.choice([None, round(r.uniform(0.5, T + 1), 3)]), "reqs": reqs, "mgmt": mg, "events": ev, "buf": r.choice([0, 0, 1, 2, 5, 20, 200]),
            "max": r.choice([0, 0, 300, 900, 4000, 20000]), "files": r.choice([500, 500, 500, 0, 1, 2, 3]), "bg": r.choice([0, 0, 0.013, 0.2]),
            "net": {"lat": r.choice([[0.00005, 0.0002], [0.0001, 0.003]]), "seg_p": 0}, "_shrink": ["events", "mgmt", "reqs"]}


class Far:
    """A server the application calls; it answers everything until it goes away."""
    def __init__(self, R):
        self.R, self.buf, self.t = R, b"", None

    def connection_made(self, t):
        self.t = t
        self.R.fars.append(self)

    def data_received(self, data):
        self.buf += data
        *lines, self.buf = self.buf.split(b"\n")
        for ln in lines:
            if ln[:1] == b"\x05":
                self.t.write(b"\x06\n")
            else:
                d = json.loads(ln)
                self.t.write(json.dumps({"span_key": d["span_key"], "status": 0, "data": d["data"]}).encode() + b"\n")

    def eof_received(self):
        return False

    def connection_lost(self, exc):
        pass

    def pause_writing(self):
        pass

    resume_writing = pause_writing


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.w = World(plan, simnet.NetCfg(**plan["net"]))
        self.sim = self.w.sim
        self.sim.max_steps = 400_000
        self.emitted = []        # [[record, ...] per incarnation], what the root logger was given
        self.expect = {}         # tag -> (trace, span) or None
        self.tries = []          # (tag, level, time, incarnation)
        self.levels = []         # (sent, done, level, incarnation)
        self.bufs = []
        self.open_bufs = []      # changes of the buffer size not answered yet: whichever incarnation gets them
        self.killed = {}
        self.n = 0
        self.spans = {}          # (trace hex, span hex) -> [sent, done or None, queued]
        self.peers = [Peer(self.w, f"p{i}", ("tcp", "127.0.0.1", PORT)) for i in range(4)]
        self.fars = []
        self.far_owner = simnet.HubOwner("far")
        key = ("tcp", "127.0.0.1", FAR)
        self.w.net.bound[key] = self.far_owner
        self.w.net.listeners[key] = (self.far_owner, None, lambda: Far(self), None)
        if plan.get("far") is not None:
            self.sim.at(plan["far"], self.far_gone)
        self.udp = simnet.RawUDP(self.w.net, simnet.HubOwner("udp"), lambda s, d, a: self.w.cover.add("from-udp"))

    def far_gone(self):
        key = ("tcp", "127.0.0.1", FAR)
        self.w.net.listeners.pop(key, None)
        self.w.net.bound.pop(key, None)
        for f in self.fars:
            f.t.abort()

    def ids(self, name):
        k = span_key(name)
        return (k["trace_id"].replace("-", ""), k["span_id"])

    # -- inside the application: log one record whose ids are known
    def log(self, logging, step, ids, where):
        _d, lv, ti, how = step
        self.n += 1
        tag = f"H{self.n}|"
        text = TEXTS[ti]
        self.expect[tag] = ids
        self.tries.append((tag, LEVELS[lv], self.sim.now, self.inc))
        self.w.cover.add(where)
        if "lone" in text:
            self.w.cover.add("surrogate")
        elif "\n" in text:
            self.w.cover.add("newline")
        elif not text.isascii():
            self.w.cover.add("non-ascii")
        lg = logging.getLogger() if self.n % 3 else logging.getLogger(f"app.sub{self.n % 2}")
        no = LEVELS[lv]
        if how == "args":
            lg.log(no, "%s%s %d", tag, text, self.n)
        elif how == "mutate":
            arg = {"a": [1, 2], "t": text[:20].encode("ascii", "ignore").decode()}
            lg.log(no, "%s %s", tag, arg)
            arg["a"].append("MUTATED")
            arg["t"] = "MUTATED"
            self.w.cover.add("mutated-argument")
        elif how == "exc":
            try:
                raise ValueError("planned")
            except ValueError:
                lg.log(no, tag + text.replace("%", "%%"), exc_info=True)
        else:
            lg.log(no, (tag + text))

    def setup(self, node):
        import asyncio
        import logging
        R, plan = self, self.plan
        caught = []
        self.emitted.append(caught)
        self.inc = len(self.emitted) - 1

        class Cap(logging.Handler):
            def emit(self, record):
                if R.sim.current is not None and R.sim.current.crashed:
                    return
                caught.append((record.getMessage(), record.levelno, record.created))
                R.sim.rec("log", no=record.levelno, m=record.getMessage()[:60].encode("ascii", "backslashreplace").decode())
        logging.getLogger().addHandler(Cap())
        from pydantic import BaseModel
        from ekosis.requests.endpoint import endpoint
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        from ekosis.sending.buffered_sender import buffered_sender
        from ekosis.data_transfer_objects import SpanKey
        from ekosis.exceptions import ServerBusyException

        class Req(BaseModel):
            n: int

        async def steps(ri, where, ids):
            try:
                await do_steps(ri, where, ids)
            finally:
                if not node.crashed:
                    R.spans[ids][3] = R.sim.now

        async def do_steps(ri, where, ids):
            _t, _k, sts, _f = plan["reqs"][ri]
            kids = []
            for st in sts:
                if st[0]:
                    await asyncio.sleep(st[0])
                if st[3] == "child":
                    async def kid(st=st):
                        await asyncio.sleep(0.002)
                        R.log(logging, st, ids, "from-child-task")
                    kids.append(asyncio.create_task(kid()))
                R.log(logging, st, ids, where)
            for k in kids:
                await k

        @endpoint("e", Req)
        async def e(dto):
            await steps(dto.n, "from-request", R.ids(f"{plan['seed']}/{dto.n}"))
            if plan["reqs"][dto.n][3] == 9:
                raise ValueError("planned")
            return dto

        from ekosis.clients import PersistedTCPClient
        far = PersistedTCPClient("127.0.0.1", FAR, 0.2, 0.25, 2, 0.01)

        @endpoint("c", Req)
        async def c(dto):
            ids = R.ids(f"{plan['seed']}/{dto.n}")
            R.log(logging, plan["reqs"][dto.n][2][0], ids, "from-request")
            try:
                await far.send_message("far", dto, Req)
            except Exception:
                pass
            R.log(logging, plan["reqs"][dto.n][2][0], ids, "from-request")
            return dto

        tries = {}

        @buffered_endpoint("q", Req, page_size=2, max_retries=2)
        async def q(dto):
            await steps(dto.n, "from-queue", R.ids(f"{plan['seed']}/{dto.n}"))
            tries[dto.n] = tries.get(dto.n, 0) + 1
            if plan["reqs"][dto.n][3] == 9:
                raise ValueError("planned")
            return tries[dto.n] > plan["reqs"][dto.n][3]

        class Client:                       # what the sender uses to reach its server
            async def send_message(self, route_key, dto, response_dto_type=None, span_key=None):
                await steps(dto.n, "from-sender", R.ids(f"{plan['seed']}/s{dto.n}"))
                tries[dto.n] = tries.get(dto.n, 0) + 1
                if plan["reqs"][dto.n][3] == 9:
                    raise ValueError("planned")
                if tries[dto.n] <= plan["reqs"][dto.n][3]:
                    raise ServerBusyException("busy")
                return dto

        @buffered_sender(Client(), "out", Req, page_size=2, max_retries=2)
        async def send(n, **kw):
            return Req(n=n)

        @endpoint("s", Req)
        async def s(dto):
            mine = R.ids(f"{plan['seed']}/{dto.n}")
            R.log(logging, plan["reqs"][dto.n][2][0], mine, "from-request")
            k = span_key(f"{plan['seed']}/s{dto.n}")
            await send(dto.n, span_key=SpanKey(**k))
            R.log(logging, plan["reqs"][dto.n][2][0], mine, "from-request")
            return dto

    def wrap(self, node, Base):
        R = self

        class App(Base):
            async def setup_tasks(self, tasks):
                import asyncio
                import logging

                async def bg():
                    while True:
                        await asyncio.sleep(R.plan["bg"])
                        if R.sim.now < R.plan["T"] + 1.5:
                            R.log(logging, [0, "info", R.n % len(TEXTS), "args"], None, "from-background")
                if R.plan["bg"]:
                    tasks.append(asyncio.create_task(bg()))
        return App

    def main(self, node):
        try:
            return app_main(node)
        finally:
            if not node.crashed:
                import logging
                if len(self.emitted) and "ending" in node.env:
                    self.w.cover.add("logged-while-ending")
                logging.shutdown()

    def start(self):
        p = self.plan
        n = self.w.app("srv", self.setup, tcp=PORT, udp=UPORT, wrap=self.wrap, main=self.main,
                       env={"ECOENV_LOG_BUF_SIZE": str(p["buf"]), "ECOENV_LOG_MAX_SIZE": str(p["max"]), "ECOENV_LOG_MAX_FILES": str(p["files"])})
        if getattr(self, "node", None):
            n.wall_offset = self.node.wall_offset
        self.node = n
        self.bufs.append([p["buf"]] + [v for v in self.open_bufs])
        n.start()

    def request(self, i):
        _t, kind, _s, _f = self.plan["reqs"][i]
        sk = span_key(f"{self.plan['seed']}/{i}")
        rec = [self.sim.now, None, kind in "qt", None]
        self.spans[self.ids(f"{self.plan['seed']}/{i}")] = rec
        if kind == "s":
            self.spans[self.ids(f"{self.plan['seed']}/s{i}")] = [self.sim.now, None, True, None]
        route = {"e": "e", "q": "q", "u": "e", "s": "s", "t": "q", "c": "c"}[kind]
        if kind in "ut":
            self.udp.send(request_line(route, sk, {"n": i}), ("127.0.0.1", UPORT))
            return
        p = self.peers[i % 4]

        def cb(st, d, resp):
            rec[1] = self.sim.now
        p.call(route, sk, {"n": i}, cb)

    def manage(self, i):
        _t, op, v = self.plan["mgmt"][i]
        inc = len(self.emitted) - 1
        sent = self.sim.now
        sk = span_key(f"{self.plan['seed']}/m{i}")
        rec = self.spans[self.ids(f"{self.plan['seed']}/m{i}")] = [sent, None, False, None]
        lv = [sent, None, v, inc, None]
        if op == "level":
            self.levels.append(lv)
        else:
            self.open_bufs.append(v)
            self.bufs[-1].append(v)

        def cb(st, d, resp):
            rec[1] = lv[1] = self.sim.now
            lv[4] = len(self.emitted) - 1
            if op == "buffer":
                self.open_bufs.remove(v)
            if st == 0:
                self.w.cover.add(f"{op}-changed")
                if op == "buffer" and v < max(self.bufs[-1]):
                    self.w.cover.add("buffer-shrunk-below-content")
            elif st is not None:
                self.w.violate("mgmt", f"eco.log.{op} answered {st} {d}")
        Peer(self.w, f"m{i}", ("tcp", "127.0.0.1", PORT)).call(f"eco.log.{op}", sk, {"level": v} if op == "level" else {"size": v}, cb)

    def event(self, ev):
        n = self.node
        k = ev[0]
        if not n.alive:
            return
        if k == "clock":
            n.wall_offset += ev[1]
            self.sim.stats["clock_jump"] += 1
            self.w.cover.add("clock-jump")
            return
        if k == "reset":
            c = self.w.net.live_conns()
            if c:
                self.w.net.reset(c[ev[1] % len(c)])
                self.w.cover.add("connection-reset")
            return
        n.env["ending"] = True
        if k == "sig":
            n.signal([15, 2, 1][ev[1] % 3])
        elif k == "linesig":
            self.w.line_signal(n, ev[1], 15)
            self.sim.at(self.sim.now + 0.5, lambda: n.signal(15) if n.alive else None)
            self.w.cover.add("line-signal")
        elif k == "kill":
            self.killed[len(self.emitted) - 1] = True
            n.crash("kill")
            self.sim.stats["kill"] += 1
        self.revive(n)

    def revive(self, n):
        if n.alive:
            self.sim.after(0.05, self.revive, n)
        elif n is self.node and not getattr(self, "final", False):
            self.w.cover.add("restart")
            self.start()


def execute(plan):
    R = Run(plan)
    w, sim = R.w, R.sim
    R.start()
    for i, x in enumerate(plan["reqs"]):
        sim.at(x[0], R.request, i)
    for i, x in enumerate(plan["mgmt"]):
        sim.at(x[0], R.manage, i)
    for ev in plan["events"]:
        sim.at(ev[0], R.event, ev[1:])
    try:
        end = plan["T"] + 2.5
        while sim.now < end:
            sim.run(end)
        R.final = True
        if R.node.alive:
            R.node.env["ending"] = True
            R.node.signal(15)
        end = sim.now + 6
        while sim.now < end and R.node.alive:
            sim.run(end)
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    if R.node.alive:
        w.violate("no-end", "the application did not end within 6 s of a termination signal")
    judge(R, plan)
    return runner.finish(w, plan, {"nontrivial": bool({"buffered-together", "rotated"} & w.cover),
                                   "sample": {"buffer": plan["buf"], "max": plan["max"], "files": plan["files"], "requests": len(plan["reqs"]), "events": plan["events"], "management": plan["mgmt"]}})


def read_files(R):
    base = f"{R.w.tmp}/log/srv-0.log"
    names = sorted(glob.glob(base + "*"), key=lambda p: -int(p[len(base) + 1:] or 0))
    out = []
    for p in names:
        with open(p, "rb") as f:
            out.append((os.path.basename(p), f.read()))
    return out


def judge(R, plan):
    w = R.w
    files = read_files(R)
    lines = []
    for name, data in files:
        if data and not data.endswith(b"\n"):
            w.violate("torn-line", f"{name} ends with an incomplete line: {data[-80:]!r}")
        for ln in data.removesuffix(b"\n").split(b"\n") if data else []:
            try:
                d = json.loads(ln.decode("utf-8"))
                lines.append((d["body"], d["severity_number"], d["timestamp"], d["trace_id"], d["span_id"]))
            except (ValueError, KeyError, TypeError) as x:
                w.violate("bad-line", f"{name}: not one complete record per line ({type(x).__name__}): {ln[:200]!r}")
                return
    want = []
    for inc, recs in enumerate(R.emitted):
        want += [(m.encode("utf-8", "backslashreplace").decode(), no, t, inc) for m, no, t in recs]
    if len(files) > 1:
        w.cover.add("rotated")
    # ---- which records are there
    got = [x[0] for x in lines]
    allm = [x[0] for x in want]
    may_drop = plan["max"] and plan["files"] > 0
    lost_ok = {}
    if may_drop and len(files) > plan["files"] + 1:
        w.violate("too-many-files", f"{[f for f, _ in files]} with a limit of {plan['files']} rotated files")
    i = 0
    if may_drop and len(files) == plan["files"] + 1 and got:
        # the oldest files may be gone: align on the first record present that is still followed by the rest
        k = find_suffix(R, want, got)
        if k is None:
            w.violate("records", f"the {len(got)} records in the files are not the latest ones logged, in order: {diff(allm, got)}")
            return
        if k:
            w.cover.add("dropped-oldest")
        i = k
    pairs = match(R, want[i:], got)
    if pairs is None:
        w.violate("records", f"logged {len(allm)}, in the files {len(got)}: {diff(allm, got)}")
        return
    # ---- what they say
    from datetime import datetime
    for wi, gi in pairs:
        m, no, created, inc = want[i + wi]
        body, sev, ts, tr, sp = lines[gi]
        if not 1 + 4 * (no // 10) <= sev <= 4 + 4 * (no // 10):
            w.violate("severity", f"{m[:80]!r} logged at level {no} has severity {sev}")
        if abs(datetime.fromisoformat(ts).timestamp() - created) > 0.002:
            w.violate("time", f"{m[:80]!r} logged at {created} is written with {ts}")
        ids = None if tr is None and sp is None else (tr, sp)
        tag = m.split("|")[0] + "|"
        if m.startswith("H") and tag in R.expect:
            if ids != R.expect[tag]:
                w.violate("ids", f"{m[:80]!r} belongs to {R.expect[tag]}, is written with {ids}")
        elif ids is not None:
            s = R.spans.get(ids)
            if s is None:
                w.violate("ids", f"{m[:80]!r} is written with unknown ids {ids}")
            else:
                named = [k for k in R.spans if k[1] in m]
                if named and ids not in named:
                    w.violate("ids", f"{m[:120]!r} is about {named[0]}, is written with {ids}")
                t = created - core.WALL_BASE
                # the end of handling: the response, or the end of the last attempt at a queued one; unknown if there is neither
                known = [x for x in (s[1], s[3]) if x is not None]
                last = max(known) if known and not (s[2] and s[3] is None) else None
                if "clock-jump" not in w.cover and (t < s[0] - 1e-3 or (last is not None and t > last + 1e-3)):
                    w.violate("ids", f"{m[:80]!r} logged at {t:.4f} is written with the ids of a request in progress from {s[0]:.4f} to {last:.4f}")
        elif "Heartbeat" in m:
            w.cover.add("heartbeat-failed")
    levels(R, want)


def bound(R, inc):
    return max(R.bufs[inc] + [1]) - 1


def match(R, want, got):
    """Pair the records of the files with those logged; the tail of a killed incarnation may be missing."""
    pairs = []
    g = 0
    n = len(want)
    wi = 0
    while wi < n:
        if g < len(got) and got[g] == want[wi][0]:
            pairs.append((wi, g))
            wi, g = wi + 1, g + 1
            continue
        inc = want[wi][3]
        if not R.killed.get(inc):
            return None
        k = wi
        while k < n and want[k][3] == inc:
            k += 1
        if k - wi > bound(R, inc):
            return None
        R.w.cover.add("kill-with-buffered")
        wi = k
    if g != len(got):
        return None
    if R.killed:
        R.w.cover.add("kill-unbuffered")
    return pairs


def find_suffix(R, want, got):
    for k in range(len(want)):
        if want[k][0] == got[0] and match(R, want[k:], got) is not None:
            return k
    return None


def diff(a, b):
    from collections import Counter
    ca, cb = Counter(a), Counter(b)
    miss = list((ca - cb).elements())[:4]
    extra = list((cb - ca).elements())[:4]
    if miss or extra:
        return f"missing {miss}, not logged {extra}"
    j = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), None)
    return f"same records, another order, from position {j}: {b[j:j + 3] if j is not None else ''} in place of {a[j:j + 3] if j is not None else ''}"


def levels(R, want):
    """A record is logged if and only if its level is at least the one in force."""
    seen = {m.split("|")[0] + "|" for m, _no, _t, _i in want if m.startswith("H")}
    per = {}
    for tag, no, t, inc in R.tries:
        per.setdefault(inc, []).append(t)
        cand = [10]
        for sent, done, lv, i, j in R.levels:
            if not i <= inc <= (j if j is not None else len(R.emitted)) or sent > t:
                continue
            if done is not None and done < t and i == j:
                cand = [LEVELS[lv]]
            else:
                cand = cand + [LEVELS[lv]]
        # changes that overlap each other can take effect in either order
        over = [x for x in R.levels if x[3] <= inc <= (x[4] if x[4] is not None else len(R.emitted))]
        if any(a is not b and a[0] <= (b[1] or 1e9) and b[0] <= (a[1] or 1e9) for a in over for b in over):
            cand += [LEVELS[x[2]] for x in over]
        if no >= max(cand) and tag not in seen:
            R.w.violate("level", f"{tag} at level {no} was not logged, the level is {cand}")
        if no < min(cand):
            R.w.cover.add("suppressed")
            if tag in seen:
                R.w.violate("level", f"{tag} at level {no} was logged, the level is {cand}")
    iv = sorted((x[0], x[1]) for x in R.spans.values() if x[1])
    if max(max(b) for b in R.bufs) > 1 and any(iv[i + 1][0] < iv[i][1] for i in range(len(iv) - 1)):
        R.w.cover.add("buffered-together")
