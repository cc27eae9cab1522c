"""C25: an application with background tasks starts, runs, ends and starts again as a whole."""
import random

from sim import net as simnet, runner
from sim.core import SimLimit
from sim.world import Peer, World, span_key

TIERS = {
    "quick": {"runs": 900, "wall": 80},
    "thorough": {"runs": 40000, "wall": 1200},
}
RULE = "distinct event logs of runs in which an application with background tasks ended while requests or such tasks were in progress, and was started again"
REAL = ["whole application process: start-up, background tasks, servers, endpoints, queues, buffered sender and its client, shutdown, lock file, SQLite"]
STUB = ["network", "clocks", "signals", "disk under SQLite", "raw clients"]
ASSUMPTIONS = ["background tasks end when they are cancelled, after at most the time their clean-up takes", "a second signal does not kill", "what a killed process had in its queues may be gone"]
PROBES = ["task-cancelled", "task-cancelled-in-cleanup", "task-ended", "task-raised", "setup-raised", "setup-waited", "port-in-use", "signal", "second-signal", "signal-at-start", "kill", "line-signal", "left-over-requests",
          "pushed-by-task", "pushed-in-cleanup", "run-soon", "fire-and-forget", "restart", "busy-at-end", "stall"]
PORT = 7600
ERRS = ["ValueError", "OSError", "TimeoutError", "KeyError", "RuntimeError", "ConnectionResetError"]


def generate(seed, tier):
    r = random.Random("c25/" + seed)
    T = r.choice([0.5, 2.0, 6.0])
    p = {"seed": seed, "T": T, "incs": [], "reqs": [], "events": [], "net": {"lat": r.choice([[0.00005, 0.0002], [0.0001, 0.003]]), "seg_p": r.choice([0, 0.3])},
         "page": r.choice([2, 3, 100]), "_shrink": ["events", "reqs", "incs"]}
    pushes = 1000
    for i in range(r.choice([1, 2, 3, 5])):
        tasks = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = {"kind": r.choices(["loop", "ends", "raises"], [10, 4, 2])[0], "at": round(r.choice([0, 0, 0.001, r.uniform(0, T)]), 4), "every": r.choice([0.05, 0.5, 5.0]),
                 "cleanup": r.choice([-1, -1, 0, 0.05, 0.5]), "push": [], "clean_push": [], "err": r.choice(ERRS), "nested": r.random() < 0.3}
            for where in ("push", "clean_push"):
                for _ in range(r.choice([0, 0, 1, 2])):
                    pushes += 1
                    k[where].append(pushes)
            tasks.append(k)
        p["incs"].append({"tasks": tasks, "wait": r.choice([-1, -1, -1, 0, 0.02, 0.3]), "where": r.choice(["before", "middle", "after"]), "raise": r.random() < 0.06,
                          "port": r.choice(["tcp", "udp"]) if r.random() < 0.08 else None, "gap": round(r.choice([0.05, 0.3, 1.0]), 3),
                          "early": r.choice([["line", r.randint(1, 2500)], ["at", round(r.choice([0, 0.00001, 0.00003, r.uniform(0, 0.001), 0.01]), 6)]]) if r.random() < 0.2 else None})
    for x in range(r.randint(2, 20 if tier == "quick" else 50)):
        kind = r.choice(["ping", "buf", "buf", "soon", "faf"])
        p["reqs"].append([round(r.uniform(0, T), 4), kind, x, r.choice([0, 0, 0.01, r.uniform(0, 0.3)]), r.choice(["t", "u"])])
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        t = round(r.choice([r.uniform(0, T), r.uniform(0, 0.06), r.choice(p["reqs"])[0] + 0.002]), 4)
        p["events"].append(r.choice([[t, "sig", r.choice(["TERM", "INT", "HUP"]), r.choice([0, 0, 0.0005, 0.02, 0.3])], [t, "sig", "TERM", 0], [t, "kill"] if r.random() < 0.4 else [t, "stall", r.choice([0.1, 0.7])],
                                     [t, "linesig", r.randint(1, 1200)]]))
    return p


CALM = {"tasks": [{"kind": "loop", "at": 0, "every": 0.5, "cleanup": -1, "push": [], "clean_push": [], "err": "ValueError", "nested": False}], "wait": -1, "where": "before", "raise": False, "port": None, "gap": 0.1, "early": None}


class Eng:
    def __init__(self, plan):
        self.plan = plan
        self.w = World(plan, simnet.NetCfg(**plan["net"]))
        self.sim = self.w.sim
        self.node = None
        self.inc = 0
        self.cfgs = {}
        self.why = {}               # inc -> [(time, reason)]: why it should end
        self.kills = 0
        self.over = False
        self.ups = set()
        self.active = 0
        self.owner = simnet.HubOwner("foreign")
        self.answers = {}
        self.pings = 0
        self.key = {"t": ("tcp", "127.0.0.1", PORT), "u": ("uds", f"{self.w.tmp}/uds/srv.sock")}

    def cfg(self, inc):
        return self.cfgs.setdefault(inc, self.plan["incs"][inc - 1] if inc <= len(self.plan["incs"]) and not self.over else CALM)

    # ------------------------------------------------------------ the application
    def setup(self, node):
        eng, sim, w, plan = self, self.sim, self.w, self.plan
        inc = node.env["inc"]
        import asyncio
        from pydantic import BaseModel
        from ekosis.clients import TransientTCPClient
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        from ekosis.requests.endpoint import endpoint
        from ekosis.sending.buffered_sender import buffered_sender
        from ekosis.util.fire_and_forget_tasks import fire_and_forget_task, run_soon

        class Num(BaseModel):
            n: int

        @run_soon
        async def soon(n, more, *, opt=None):
            sim.rec("ran", n=n, more=more, opt=opt, inc=inc)

        async def forget(n, d):
            if d:
                await asyncio.sleep(d)
            sim.rec("ran", n=n, more=2 * n, opt=3 * n, inc=inc)

        def rec(route, n):
            sim.rec("handled", r=route, n=n, inc=inc)

        def dur(n):
            return plan_dur.get(n, 0)
        plan_dur = {q[2]: q[3] for q in plan["reqs"]}

        @endpoint("ping", Num)
        async def ping(dto):
            rec("ping", dto.n)
            if dur(dto.n):
                await asyncio.sleep(dur(dto.n))
            return dto

        @endpoint("soon", Num)
        async def do_soon(dto):
            rec("soon", dto.n)
            for _ in range(1 + dto.n % 3):
                soon(dto.n, 2 * dto.n, opt=3 * dto.n)
            sim.rec("asked", n=dto.n, inc=inc)
            return dto

        @endpoint("faf", Num)
        async def do_faf(dto):
            rec("faf", dto.n)
            for _ in range(1 + dto.n % 3):
                fire_and_forget_task(forget(dto.n, dur(dto.n)))
            sim.rec("asked", n=dto.n, inc=inc)
            return dto

        @buffered_endpoint("buf", Num, page_size=plan["page"], max_retries=3)
        async def buf(dto):
            rec("buf", dto.n)
            eng.active += 1
            try:
                if dur(dto.n):
                    await asyncio.sleep(dur(dto.n))
            finally:
                eng.active -= 1
            sim.rec("done", n=dto.n, inc=inc)
            return True

        @buffered_sender(TransientTCPClient("127.0.0.1", PORT, 1.0, 2, 0.05), "buf", Num, page_size=plan["page"], max_retries=10 ** 6)
        async def push(n, **kw):
            return Num(n=n)
        node.env["push"] = push

    def wrap(self, node, base):
        eng, sim, w = self, self.sim, self.w
        inc = node.env["inc"]
        cfg = self.cfg(inc)
        push = None

        async def do_push(i, n, where):
            try:
                await node.env["push"](n)
                sim.rec("pushed", n=n, inc=inc)
                w.cover.add(where)
            except Exception as x:
                if not node.crashed:
                    w.violate("push", f"task {i} could not give message {n} to a buffered sender: {type(x).__name__}: {x}")

        async def task(i, k):
            import asyncio
            how = "cancelled"
            sim.rec("tstart", i_=i, inc=inc)
            try:
                for n in k["push"]:
                    await do_push(i, n, "pushed-by-task")
                if k["kind"] == "loop":
                    while True:
                        await asyncio.sleep(k["every"])
                if k["at"]:
                    await asyncio.sleep(k["at"])
                how = "ended"
                if k["kind"] == "raises":
                    how = "raised"
                    eng.ends(inc, "raised")
                    if k["nested"]:
                        await asyncio.wait_for(eng.fail(k["err"]), 5)
                    raise {"ValueError": ValueError, "OSError": OSError, "TimeoutError": TimeoutError, "KeyError": KeyError, "RuntimeError": RuntimeError, "ConnectionResetError": ConnectionResetError}[k["err"]]("planned end")
            finally:
                try:
                    if how == "cancelled":
                        w.cover.add("task-cancelled")
                        for n in k["clean_push"]:
                            await do_push(i, n, "pushed-in-cleanup")
                        if k["cleanup"] >= 0:       # (asyncio.run cancels what is left a second time)
                            await asyncio.sleep(k["cleanup"])
                    else:
                        w.cover.add("task-" + how)
                except asyncio.CancelledError:
                    w.cover.add("task-cancelled-in-cleanup")
                    raise
                finally:
                    sim.rec("tend", i_=i, inc=inc, how=how)

        class SimApp(base):
            async def setup_tasks(self, tasks):
                import asyncio
                ts = cfg["tasks"]
                cut = {"before": 0, "middle": len(ts) // 2, "after": len(ts)}[cfg["where"]]
                for i, k in enumerate(ts + [None]):
                    if i == cut and cfg["wait"] >= 0:
                        w.cover.add("setup-waited")
                        await asyncio.sleep(cfg["wait"])
                    if k is not None:
                        tasks.append(asyncio.create_task(task(i, k)))
                if cfg["raise"]:
                    w.cover.add("setup-raised")
                    eng.ends(inc, "setup raised")
                    raise RuntimeError("planned end")
                eng.ups.add(inc)
                sim.rec("up", inc=inc)
        return SimApp

    async def fail(self, err):
        raise OSError("planned end")

    # ------------------------------------------------------------ its life
    def ends(self, inc, why):
        if not any(x == why for _, x in self.why.setdefault(inc, [])):
            self.why[inc].append((self.sim.now, why))
            self.sim.rec("why", inc=inc, why=why)

    def start(self):
        if self.node is not None and self.node.alive:
            return
        self.inc += 1
        cfg = self.cfg(self.inc)
        if self.inc > 1:
            self.w.cover.add("restart")
        if cfg["port"]:
            self.w.cover.add("port-in-use")
            self.ends(self.inc, "port in use")
            if cfg["port"] == "tcp":
                self.w.net.bound[self.key["t"]] = self.owner
            else:
                self.w.net.udp["127.0.0.1", PORT + 1] = self.foreign_t()
        self.sim.rec("start", inc=self.inc)
        n = self.node = self.w.app("srv", self.setup, tcp=PORT, udp=PORT + 1, uds="srv.sock", wrap=self.wrap)
        n.start()
        if cfg["early"]:
            kind, x = cfg["early"]
            if kind == "line":
                self.event([0, "linesig", x])
            else:
                self.sim.after(x, self.event, [0, "sig", "TERM", 0], self.inc)
        self.watch(n, self.inc, self.sim.now)
        self.sim.after(2.5, self.check, n, self.inc, 0)

    def foreign_t(self):
        class Busy:
            owner = self.owner
            closing = False
            remote = ("127.0.0.1", 1)
            local = ("127.0.0.1", PORT + 1)

            def _rx(self, *a):
                pass
        return Busy()

    def free_port(self):
        if self.w.net.bound.get(self.key["t"]) is self.owner:
            del self.w.net.bound[self.key["t"]]
        if getattr(self.w.net.udp.get(("127.0.0.1", PORT + 1)), "owner", None) is self.owner:
            del self.w.net.udp["127.0.0.1", PORT + 1]

    def watch(self, n, inc, t):
        """Restart it when it has ended; it has to end when there is a reason, and only then."""
        if n is not self.node:
            return
        if n.alive:
            ws = self.why.get(inc)
            if ws and self.sim.now > max(x for x, _ in ws) + 8 + self.stalls():
                self.w.violate("stays", f"incarnation {inc} is still there {self.sim.now - ws[0][0]:.1f} s after: {ws[0][1]}")
                self.sim.rec("why", inc=inc, why="kill")
                self.kills += 1
                n.crash("kill")
                return
            self.sim.after(0.05, self.watch, n, inc, t)
            return
        if not n.crashed and inc not in self.why:
            self.w.violate("ended", f"incarnation {inc} ended at {self.sim.now:.3f} without a reason ({type(n.exit_exc).__name__})")
            return
        self.free_port()
        if not self.stop:
            self.sim.after(self.cfg(inc)["gap"], self.start)

    stop = False

    def stalls(self):
        return sum(e[2] for e in self.plan["events"] if e[1] == "stall")

    def check(self, n, inc, again):
        """An application that has no reason to end answers."""
        if n is not self.node or not n.alive or inc in self.why or self.stop:
            return
        self.pings += 1
        got = []
        Peer(self.w, f"check{self.pings}", self.key["tu"[self.pings % 2]]).call("ping", span_key(f"c25/check{self.pings}"), {"n": -self.pings}, lambda st, d, resp: got.append((st, d)))
        ping = self.pings

        def judge():
            if inc in self.why or not n.alive or self.sim.now < n.stalled_until + 0.5:
                return
            if got != [(0, {"n": -ping})]:
                self.w.violate("deaf", f"incarnation {inc} runs, and answered a request with {got}")
        self.sim.after(1.5 + self.stalls(), judge)
        if again < 6:
            self.sim.after(1.0, self.check, n, inc, again + 1)

    def event(self, e, only=None):
        n, inc = self.node, self.inc
        if n is None or not n.alive or self.over or only not in (None, inc):
            return
        import signal
        if e[1] == "stall":
            self.w.cover.add("stall")
            self.sim.stats["stall"] += 1
            n.stalled_until = max(n.stalled_until, self.sim.now + e[2])
        elif e[1] == "kill":
            self.w.cover.add("kill")
            self.sim.stats["crash_kill"] += 1
            self.kills += 1
            self.ends(inc, "kill")
            n.crash("kill")
        elif e[1] == "linesig":
            self.w.cover.add("line-signal")
            self.sim.stats["line_signal"] += 1
            self.ends(inc, "signal at a line")      # may end before: then it is not delivered
            self.w.line_signal(n, e[2], 15)
            self.late(n, inc, e)
        else:
            self.w.cover.add("signal")
            self.sim.stats["sig_" + e[2]] += 1
            if inc not in self.ups:
                self.w.cover.add("signal-at-start")
            if self.active:
                self.w.cover.add("busy-at-end")
            self.ends(inc, "signal " + e[2])
            n.signal(getattr(signal, "SIG" + e[2]))
            if e[3]:
                self.w.cover.add("second-signal")
                self.sim.after(e[3], lambda: n.signal(15) if n.alive else None)

    def late(self, n, inc, e):
        """It may never come to that line: then a plain signal."""
        self.sim.after(1.0, lambda: n.signal(15) if n.alive else None)

    def request(self, q):
        t, kind, x, d, via = q
        self.sim.rec("req", n=x, r=kind)

        def answered(st, data, resp):
            self.answers[x] = st
            self.sim.rec("resp", n=x, st=st)
            if st == 0 and kind != "buf" and data != {"n": x}:
                self.w.violate("answer", f"request {x} was answered {data}")
            elif st not in (0, None) and not (kind == "buf" and st == 500 and self.why):
                self.w.violate("answer", f"request {x} ({kind}) was answered {st} {str(data)[:100]}")
        Peer(self.w, f"r{x}", self.key[via]).call(kind, span_key(f"c25/{self.plan['seed']}/{x}"), {"n": x}, answered)

    def owed(self):
        h = self.sim.history
        done = {e["n"] for e in h if e["k"] == "done"}
        if self.kills:
            return []
        return sorted({e["n"] for e in h if e["k"] == "pushed" or e["k"] == "resp" and e["st"] == 0 and self.kind.get(e["n"]) == "buf"} - done)

    def run(self):
        sim, plan = self.sim, self.plan
        self.kind = {q[2]: q[1] for q in plan["reqs"]}
        self.start()
        for q in plan["reqs"]:
            sim.after(q[0], self.request, q)
        for e in plan["events"]:
            sim.after(e[0], self.event, e)
        sim.run_until(lambda: False, plan["T"] + 1, 1)
        # every planned incarnation gets its turn
        for _ in range(len(plan["incs"])):
            if self.inc >= len(plan["incs"]) or self.w.violations:
                break
            n = self.node
            if n.alive and self.inc not in self.why:
                self.ends(self.inc, "signal TERM")
                n.signal(15)
            i = self.inc
            sim.run_until(lambda: self.inc > i, 25 + self.stalls(), 0.2)
            sim.run_until(lambda: False, 1.5, 0.5)
        self.over = True
        n = self.node
        if n.alive and self.inc not in self.why:
            self.ends(self.inc, "signal TERM")
            n.signal(15)
        i = self.inc
        sim.run_until(lambda: self.inc > i or self.w.violations, 30 + self.stalls(), 0.2)
        sim.run_until(lambda: False, 2.5, 0.5)
        # (a message that found nobody listening is in the error queue)
        Peer(self.w, "again", self.key["t"]).call("eco.buffered_sender.errors.reprocess.all", span_key("c25/again"), {"queue_route_key": "buf"}, lambda st, d, resp: None)
        sim.run_until(lambda: self.w.violations or not self.owed(), 30, 0.5)
        sim.run_until(lambda: False, 2, 1)
        self.stop = True
        sim.rec("last")
        if self.node.alive:
            self.ends(self.inc, "signal TERM")
            self.node.signal(15)
        sim.run_until(lambda: not self.node.alive, 20, 0.2)
        if self.node.alive:
            self.w.violate("stays", "the application is still there 20 s after TERM")


def execute(plan):
    e = Eng(plan)
    w = e.w
    try:
        e.run()
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    judge(e)
    return runner.finish(w, plan, {"nontrivial": bool(w.cover & {"task-cancelled", "task-raised"}) and "restart" in w.cover, "sample": {"incs": plan["incs"][:2], "events": plan["events"]}})


def judge(e):
    w, h = e.w, e.sim.history
    up, started, ended, ups, killed = {}, {}, {}, set(), set()
    asked, ran = {}, {}
    exits = set()
    inc = 0
    for x in h:
        k = x["k"]
        if k == "start":
            inc = x["inc"]
        elif k == "tstart":
            started.setdefault(x["inc"], set()).add(x["i_"])
        elif k == "tend":
            ended.setdefault(x["inc"], {})[x["i_"]] = x["how"]
        elif k == "up":
            ups.add(x["inc"])
        elif k == "why" and x["why"] == "kill":
            killed.add(x["inc"])
        elif k == "handled":
            cfg = e.cfg(x["inc"])
            missing = set(range(len(cfg["tasks"]))) - started.get(x["inc"], set())
            if missing:
                w.violate("before-tasks", f"incarnation {x['inc']}: request {x['n']} reached the endpoint {x['r']} before the background tasks {sorted(missing)} were running")
                return
            if inc > 1 and x["r"] == "buf":
                w.cover.add("left-over-requests")
        elif k == "asked":
            asked[x["n"]] = (x["inc"], x["t"])
        elif k == "ran":
            ran.setdefault(x["n"], []).append(x)
        elif k == "exit" and inc not in exits:
            exits.add(inc)
            if inc in killed:
                continue
            open_ = started.get(inc, set()) - set(ended.get(inc, {}))
            if open_:
                w.violate("abandoned", f"incarnation {inc} ended while the background tasks {sorted(open_)} were neither done nor cancelled and through")
                return
    for n, xs in ran.items():
        if n not in asked or len(xs) > 1 + n % 3:
            w.violate("soon", f"what request {n} left to be run {1 + n % 3} times was run {len(xs)} times")
            return
        for x in xs:
            if (x["more"], x["opt"]) != (2 * n, 3 * n):
                w.violate("soon", f"what request {n} left to be run was run with other arguments: {x['more']}, {x['opt']}")
                return
    times = {i: ws[0][0] for i, ws in e.why.items()}
    d = {q[2]: (q[1], q[3]) for q in e.plan["reqs"]}
    for n, (i, t) in asked.items():
        w.cover.add("run-soon" if d[n][0] == "soon" else "fire-and-forget")
        late = t + d[n][1] + 0.5 + e.stalls()
        if len(ran.get(n, ())) < 1 + n % 3 and times.get(i, 1e9) > late and e.sim.now > late:
            w.violate("soon", f"what request {n} left to be run {1 + n % 3} times was run {len(ran.get(n, ()))} times")
            return
    left = e.owed()
    if left and not w.violations:
        w.violate("lost", f"{'message' if left[0] >= 1000 else 'request'} {left[0]} was accepted, and never processed")
