"""C16: one running process per application instance, and no end of a process locks it out."""
import os
import random

from sim import disk, linefault, lockfs, runner
from sim.core import SimLimit
from sim.world import Peer, World, sk_str, span_key  # noqa

TIERS = {
    "quick": {"runs": 1200, "wall": 90},
    "thorough": {"runs": 40000, "wall": 1500},
}
RULE = "distinct event logs of runs in which an instance was started while it, or another process under its old process id, was running, or after it had ended in some other way than by itself"
REAL = ["ekosis (the whole application: lock file, start-up, servers, queues, shutdown)", "asyncio", "SQLite", "the lock directory's files"]
STUB = ["process table and process ids", "file locks and ownership of files", "network", "disk under SQLite", "clock"]
ASSUMPTIONS = ["the lock directory is on one machine, and nobody removes lock files by hand", "an instance is restarted by the user it was last run by",
               "application name and instance do not contain '-' (name and instance are joined with it)", "only file locks, process ids and files decide whether an instance runs"]
PROBES = ["refused", "restart-after-kill", "restart-after-power-loss", "restart-after-refusal", "kill-in-start", "kill-in-lock-call", "signal-in-start", "overlapping-starts", "pid-reused-same-user", "pid-reused-other-user",
          "same-pid-again", "other-user", "lock-directory-full", "other-instance-alongside", "graceful-restart", "stopped-by-application", "start-while-stopping", "paused-between-lines", "names-alike"]
prepare = lambda scratch: lockfs.install()  # noqa
IDS = [("alpha", "0"), ("alpha", "1"), ("beta", "0"), ("Gamma", "x"), ("Gamma", "X"), ("alpha", "10"), ("alpha1", "0"), ("alpha", "01"), ("alpha0", "1")]
NEAR = [[5, 6], [7, 8], [3, 4], [0, 5, 6], [1, 7, 8]]   # names that are the same but for where, or how, they are written
UP = 4.0        # s within which an undisturbed start has to be up


def generate(seed, tier):
    r = random.Random("c16/" + seed)
    n_id = r.choice([1, 1, 2, 3])
    ids = r.sample(range(len(IDS)), n_id)
    if r.random() < 0.25:
        ids = list(r.choice(NEAR))
    p = {"seed": seed, "ids": ids, "T": r.choice([3.0, 20.0, 60.0]), "pids": r.choice(["next", "next", "same", "reuse", "reuse"]),
         "cost": r.choice([[1e-6, 3e-4], [1e-6, 3e-4], [1e-4, 0.02]]), "buffered": r.random() < 0.4, "slow_stop": r.choice([0, 0, 0.003, 0.5])}
    ops = []
    t = 0.05
    two = r.random() < 0.15
    for _ in range(r.randint(2, 14)):
        t += r.choice([0.0, 0.0002, 0.001, 0.05, 2.0, 7.0]) * r.uniform(0.3, 1.5)
        k = r.choices(["start", "kill", "term", "power", "full", "stop", "foreign"], [12, 4, 4, 0.7, 0.7, 1, 1])[0]
        i = r.choice(ids)
        if k == "start":
            how = r.choices(["", "call", "line", "sig", "pause"], [8, 2, 2, 1, 2])[0]
            x = r.randint(1, 14) if how == "call" else int(10 ** r.uniform(0, 3.6))
            ops.append([round(t, 6), "start", i, how, x, r.choice([1, 2, 0]) if two else 1])
        elif k == "foreign":
            ops.append([round(t, 6), k, i, r.random() < 0.5])
        elif k == "full":
            ops.append([round(t, 6), k, r.choice(["write", "close", "open", "write"]), round(r.choice([0.001, 0.02, 1.0]), 4)])
        elif k == "term" and r.random() < 0.7:
            d = r.choice([0.3, 1.0])
            ops.append([round(t, 6), "slow-term", i, int(10 ** r.uniform(0, 2.6)), d])
            for _ in range(r.randint(1, 2)):
                ops.append([round(t + d * r.uniform(0.01, 0.9), 6), "start", i, "", 0, 1])
            t += d * r.choice([0, 0, 1])
        else:
            ops.append([round(t, 6), k, i])
    ops.sort(key=lambda o: o[0])
    p["ops"] = ops
    p["_shrink"] = ["ops"]
    return p


def shrink(plan):
    if plan["buffered"]:
        yield dict(plan, buffered=False)
    if plan["slow_stop"]:
        yield dict(plan, slow_stop=0)
    if plan["pids"] != "next":
        yield dict(plan, pids="next")
    for i, o in enumerate(plan["ops"]):
        if o[1] == "start" and o[3]:
            yield dict(plan, ops=plan["ops"][:i] + [o[:3] + ["", 0] + o[5:]] + plan["ops"][i + 1:])


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.w = World(plan)
        self.sim = self.w.sim
        self.d = lockfs.LockDir(self.w, os.path.join(self.w.tmp, "lock"), tuple(plan["cost"]))
        self.procs = []          # every process ever started: dicts
        self.last_pid = {}
        self.rng = self.sim.rng("c16")
        for o in plan["ops"]:
            self.sim.at(o[0], self.op, o)

    # -- processes
    def of(self, i):
        return [p for p in self.procs if p["id"] == i]

    def setup(self, node):
        from ekosis.requests.endpoint import endpoint
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        from pydantic import BaseModel

        class Dto(BaseModel):
            n: int

        p = node.env["proc"]

        @endpoint("who", Dto)
        async def who(**kw):
            return Dto(n=p["i"])

        if self.plan["buffered"]:
            @buffered_endpoint("later", Dto, page_size=5)
            async def later(**kw):
                return True

    def wrap(self, node, base):
        run = self
        p = node.env["proc"]

        class App(base):
            async def setup_tasks(self, tasks):
                await super().setup_tasks(tasks)
                if run.plan["slow_stop"]:
                    import asyncio

                    async def tidy():
                        try:
                            await asyncio.sleep(1e6)
                        finally:
                            await asyncio.sleep(run.plan["slow_stop"])
                    tasks.append(asyncio.create_task(tidy()))
                run.up(p)
        how, x = node.env["fault"]
        if how == "line":
            def die(n):
                self.sim.stats["crash_between_lines"] += 1
                n.crash("kill")
                n.park(None)
            linefault.arm(node, x, "kill", die, only=lambda c: c.co_name != "<module>")
        elif how == "pause":
            self.pause(node, x, self.rng.choice([0.01, 0.3, 1.0]))
        elif how == "sig":
            self.w.line_signal(node, x, 15)
        return App

    def pause(self, node, x, d):
        """The process is not scheduled for d seconds, between two of its lines."""
        def act(n):
            self.sim.stats["pause_between_lines"] += 1
            self.w.cover.add("paused-between-lines")
            end = self.sim.now + d
            while self.sim.now < end:
                n.park(end)
        linefault.arm(node, x, "pause", act, only=lambda c: c.co_name != "<module>")

    def up(self, p):
        n = p["node"]
        if n.crashed:
            return
        p["up"] = self.sim.now
        self.sim.rec("up", proc=p["i"], id=p["id"])
        for q in self.of(p["id"]):
            if q is not p and q["node"].alive and q["up"] is not None:
                self.w.violate("two-running", f"instance {IDS[p['id']]} is started as process {p['i']} while it is running as process {q['i']}, started {self.sim.now - q['up']:.4f} s ago")

    def start(self, i, how="", x=0, uid=1):
        name, inst = IDS[i]
        k = len(self.procs)
        snake = name.lower()
        p = {"i": k, "id": i, "up": None, "start": self.sim.now, "uid": uid, "judged": None}
        node = self.w.app(f"p{k}", self.setup, inst, app_name=name, wrap=self.wrap, host="m",
                          env={"ECOENV_BUFFER_DIR": f"{disk.PREFIX}{snake}.{inst}", f"ECOENV_UDS_{snake.upper()}_{inst.upper()}": f"{self.w.tmp}/uds/{snake}.{inst}"})
        node.disk = f"{disk.PREFIX}{snake}.{inst}/"
        p["node"] = node
        node.env.update(proc=p, uid=uid)
        others = [q for q in self.of(i) if q["node"].alive]
        if others:
            node.disk = None                      # its end is not the end of the running one's files
        else:
            disk.unfreeze(f"{disk.PREFIX}{snake}.{inst}/")
        pol = self.plan["pids"]
        if pol == "same" and not others and i in self.last_pid:
            node.pid = self.last_pid[i]
            self.w.cover.add("same-pid-again")
        self.last_pid[i] = node.pid
        p["others"] = others
        p["alone"] = not others
        for q in others:
            q["alone"] = False
        self.procs.append(p)
        self.sim.rec("start", proc=k, id=i, how=how, uid=uid)
        p["clean"] = not how
        if how == "call":
            node.env["die_in"] = x
        node.env["fault"] = (how, x)
        node.start()
        return p

    def running(self, i):
        return [p for p in self.of(i) if p["node"].alive and p["up"] is not None]

    def op(self, o):
        kind = o[1]
        if kind == "start":
            p = self.start(o[2], o[3], o[4], o[5])
            self.sim.after(UP, self.judge, p)
        elif kind in ("kill", "term", "slow-term"):
            for p in self.of(o[2]):
                if p["node"].alive:
                    p["clean"] = False
                    if kind == "kill":
                        self.dead(p)
                        p["node"].crash("kill")
                    else:
                        if kind == "slow-term":
                            self.pause(p["node"], o[3], o[4])
                        p["node"].signal(15)
                    break
        elif kind == "stop":
            for p in self.running(o[2])[:1]:
                self.w.cover.add("stopped-by-application")
                p["clean"] = False
                p["node"].signal(2)
        elif kind == "power":
            for p in self.procs:
                if p["node"].alive:
                    p["clean"] = False
                    d = p["node"].disk
                    p["node"].crash("power")
                    if d:
                        self.w.lose_unsynced(p["node"])
            self.sim.stats["power_loss"] += 1
            self.sim.foreign_pids.clear()
            self.d.power()
            if self.plan["pids"] == "reuse":
                for p in self.procs:
                    self.dead(p)
        elif kind == "foreign":                # processes of others take the ids of those that have ended
            self.take(o[2], o[3])
        elif kind == "full":
            t = self.sim.now
            self.d.faults.append((t, t + o[3], o[2], 28))
            self.w.cover.add("lock-directory-full")

    def dead(self, p):
        if self.plan["pids"] == "reuse":
            self.sim.after(self.rng.uniform(0.0001, 0.5), self.take, p["id"], self.rng.random() < 0.5)

    def take(self, i, same_user):
        """Somebody else's process gets the process id of the last process of this instance that has ended."""
        for p in reversed(self.of(i)):
            n = p["node"]
            if not n.alive and not any(m.alive and m.pid == n.pid for m in self.sim.nodes.values()):
                (self.sim.own_pids if same_user else self.sim.foreign_pids).add(n.pid)
                self.sim.stats["pid_reused"] += 1
                self.sim.rec("pid-reused", pid=n.pid, same_user=same_user)
                self.w.cover.add("pid-reused-same-user" if same_user else "pid-reused-other-user")
                return

    # -- verdicts
    def judge(self, p):
        """UP seconds after a start."""
        n = p["node"]
        rivals = [q for q in self.of(p["id"]) if q is not p and q["start"] <= p["start"] + UP and (q["node"].died_at is None or q["node"].died_at >= p["start"])]
        others_up = [q for q in p["others"] if q["up"] is not None]
        if not rivals and p["clean"] and not n.env.get("faulted") and p["up"] is None and not self.foreign_uid(p):
            ex = n.exit_exc
            self.w.violate("locked-out", f"instance {IDS[p['id']]} does not start although no process of it is running: "
                           + (f"{type(ex).__name__}: {ex}" if ex is not None else "still not up" if n.alive else "ended"))
        steady = [q for q in others_up if q["node"].alive]
        if steady:
            if n.alive and p["up"] is None:
                self.w.violate("not-refused", f"a second process of {IDS[p['id']]} neither runs nor has ended, {UP} s after it was started")
            self.w.cover.add("refused")
            self.named(p, steady)
            for q in steady:
                self.ping(q)

    def foreign_uid(self, p):
        """Lock files of another user are that user's."""
        return any(q["uid"] != p["uid"] for q in self.of(p["id"]))

    def named(self, p, steady):
        """Who refuses says which process it is that runs; also after others were refused before."""
        q = steady[0]
        ex = p["node"].exit_exc
        if len(steady) > 1 or ex is None or not p["clean"] or p["node"].env.get("faulted") or self.foreign_uid(p) or q["up"] > p["start"] or not q["clean"]:
            return
        if any(o[1] in ("full", "power") for o in self.plan["ops"]):
            return
        pid = str(q["node"].pid)
        if pid not in str(ex):
            self.w.violate("unnamed", f"a second process of {IDS[p['id']]} is refused with {type(ex).__name__}: {str(ex)!r}, which does not say that process {pid} is the one that runs")

    def ping(self, q):
        """The running one is undisturbed."""
        name, inst = IDS[q["id"]]
        got = []
        peer = Peer(self.w, f"ping{len(self.sim.history)}", ("uds", f"{self.w.tmp}/uds/{name.lower()}.{inst}"))
        peer.call("who", span_key(f"{q['i']}/{self.sim.now}"), {"n": 0}, lambda s, d, r: got.append((s, d)))

        def verdict():
            if q["node"].alive and q["clean"] and not self.sim.stats.get("power_loss"):
                if not got or got[0][0] != 0 or got[0][1] != {"n": q["i"]}:
                    self.w.violate("disturbed", f"process {q['i']} of {IDS[q['id']]} runs, but after another start was refused a request to it gives {got}")
        self.sim.after(2.0, verdict)

    def run(self):
        end = max([o[0] for o in self.plan["ops"]] + [0]) + UP + 3
        while self.sim.now < end:
            self.sim.run(end)
            if self.sim.now < end and not self.sim.heap:
                break
        # whatever happened: end everything that runs, then each instance can be started, and stopped
        self.d.faults.clear()
        for p in self.procs:
            if p["node"].alive:
                p["clean"] = False
                p["node"].signal(15)
        self.wait(6)
        for p in self.procs:
            if p["node"].alive:
                self.w.violate("does-not-end", f"process {p['i']} of {IDS[p['id']]} is still there 6 s after SIGTERM")
                p["node"].crash("kill")
        linefault.disarm()
        for i in self.plan["ids"]:
            uid = self.of(i)[-1]["uid"] if self.of(i) else 1
            p = self.start(i, uid=uid)
            self.wait(UP)
            self.judge(p)
        self.wait(2.5)
        self.w.cover.add("other-instance-alongside") if len(self.plan["ids"]) > 1 else None
        if any(len({IDS[i][0] + IDS[i][1] for i in a}) < len(a) and set(a) <= set(self.plan["ids"]) for a in NEAR):
            self.w.cover.add("names-alike")

    def wait(self, d):
        end = self.sim.now + d
        self.sim.at(end, lambda: None)
        while self.sim.now < end:
            self.sim.run(end)


def execute(plan):
    R = Run(plan)
    w = R.w
    try:
        R.run()
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    c = w.cover
    hist = {}
    for p in R.procs:
        n = p["node"]
        prev = hist.get(p["id"])
        if p["up"] is not None and prev is not None and not prev["node"].alive:
            how = next((e["how"] for e in R.sim.history if e["k"] == "exit" and e["node"] == prev["node"].name), None)
            if how == "kill":
                c.add("restart-after-kill")
            elif how == "power":
                c.add("restart-after-power-loss")
            elif prev["node"].exit_exc is not None:
                c.add("restart-after-refusal")
            else:
                c.add("graceful-restart")
        if n.crashed and p["up"] is None:
            c.add("kill-in-start")
        if len(p["others"]) and any(q["up"] is None or q["up"] > p["start"] for q in p["others"]):
            c.add("overlapping-starts")
        if any(q["up"] is not None and q["node"].died_at is not None and q["node"].died_at < p["start"] + 1 for q in p["others"]):
            c.add("start-while-stopping")
        if len({q["uid"] for q in R.of(p["id"])}) > 1:
            c.add("other-user")
        hist[p["id"]] = p
    if R.sim.stats.get("kill_in_lock_call"):
        c.add("kill-in-lock-call")
    if R.sim.stats.get("signal_between_lines"):
        c.add("signal-in-start")
    return runner.finish(w, plan, {"nontrivial": bool(c & {"refused", "restart-after-kill", "restart-after-power-loss", "kill-in-start", "overlapping-starts"}),
                                   "sample": {"ids": plan["ids"], "pids": plan["pids"], "ops": plan["ops"]}})
