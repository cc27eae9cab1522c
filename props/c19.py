"""C19: what the environment and a configuration file of one machine mean to each of the processes started on it, over time."""
import json
import os
import random
import re

from sim import disk, net as simnet, runner
from sim.core import SimLimit
from sim.world import Peer, World, request_line, span_key

TIERS = {
    "quick": {"runs": 900, "wall": 75},
    "thorough": {"runs": 30000, "wall": 1500},
}
RULE = "distinct event logs of runs in which a setting was given at more than one level, or a start was refused for its configuration"
REAL = ["ekosis (the whole application: configuration, logging, lock file, servers, queues, statistics)", "the log, lock and configuration files", "SQLite"]
STUB = ["network", "clock", "disk under SQLite", "the environment is one simulated machine's, copied to each process when it starts"]
ASSUMPTIONS = ["an empty variable is one that is not set", "names of applications and instances do not run into one another once joined by '_'", "which further keys 'extra' has is not judged, nor keys of the environment when a file gives 'extra'",
               "a configuration file that is being written in place can be read in part"]
PROBES = ["instance-over-application", "application-over-machine", "machine", "default", "file-over-environment", "of-another-instance", "of-another-application", "instance-only-at-other-levels", "changed-while-running", "changed-between-starts",
          "torn-file", "missing-file", "instance-not-in-file", "wrong-type", "no-buffer-directory", "two-at-once", "restart-after-refusal", "restart-after-kill", "rotated", "uds-default-name", "queue-found-again", "level-filtered", "buffered-log", "history-full"]
APPS = [("alpha", "alpha"), ("MyCoolApp", "my_cool_app"), ("gamma_x", "gamma_x")]
INSTS = ["0", "1", "b", "feedsCats", "10"]
LEVELS = ["debug", "info", "warn", "error", "critical"]
DIRS = {"DEFAULT_DIR": "D", "LOG_DIR": "L", "LOCK_DIR": "K", "BUFFER_DIR": "B"}
DEFAULTS = {"LOG_LEVEL": "info", "LOG_BUF_SIZE": 0, "LOG_MAX_FILES": 10, "LOG_MAX_SIZE": 10485760, "STAT_GP": 300, "STAT_HL": 12}
VALUES = {"LOG_LEVEL": LEVELS, "LOG_BUF_SIZE": [0, 500], "LOG_MAX_FILES": [1, 2, 3], "LOG_MAX_SIZE": [3000, 6000], "STAT_GP": [2, 3, 7], "STAT_HL": [1, 2, 3],
          **{k: [f"{v}{i}" for i in range(3)] for k, v in DIRS.items()}}
GAP = 4.0        # s between a start and what is asked of it


def generate(seed, tier):
    r = random.Random("c19/" + seed)
    ids = r.sample([[a, i] for a in range(len(APPS)) for i in INSTS], r.randint(1, 4))
    if r.random() < 0.5:            # of one application
        a = ids[0][0]
        ids = [[a, i] for i in r.sample(INSTS, len(ids))]
    if r.random() < 0.15:           # instance 'B' reads what is meant for 'b', but 'b' is not started then
        ids = [[a, "B" if i == "b" else i] for a, i in ids]
    p = {"seed": seed, "ids": ids, "buffered": r.random() < 0.6, "env": {}, "ops": [], "_shrink": ["ops"]}
    r2 = [0]
    focus = r.choice([list(VALUES) + ["TCP", "UDP", "UDS", "EXTRA"] * 2] * 2 + [r.sample([*VALUES, "EXTRA"], r.randint(1, 4))] * 3)
    files = r.random() < 0.5

    def var():
        """A variable and a value for it."""
        a, i = r.choice(ids)
        s = r.choice(focus)
        up = APPS[a][1].upper()
        lv = r.choice([0, 0, 1, 1, 2, 2, 2, 3, 4])
        if lv == 3:               # meant for another instance
            tail, own = f"_{up}_{r.choice([x for x in INSTS + ['7', '00', '01', 'bb'] if x.upper() != i.upper()]).upper()}", False
        elif lv == 4:             # ... or application
            tail, own = f"_{r.choice([n for _, n in APPS if n.upper() != up] + ['other', 'alpha1', 'gamma', 'my_cool', 'x_alpha']).upper()}_{i.upper()}", False
        else:
            tail, own = ["", f"_{up}", f"_{up}_{i.upper()}"][lv], True
        if s == "EXTRA":
            k = r.choice(["DB", "DB_NAME", "X"])
            return f"ECOENV_EXTRA{tail}_{k}", f"v{r.randrange(100)}"
        if s in VALUES:
            return f"ECOENV_{s}{tail}", r.choice([*map(str, VALUES[s]), *map(str, VALUES[s]), ""])
        r2[0] += 1
        if r.random() < 0.6:
            tail = f"_{up}_{i.upper()}"
        if s == "UDS":
            return f"ECOENV_UDS{tail}", r.choice([f"U/s{r2[0]}", "U/DEFAULT"])
        return f"ECOENV_{s}{tail}", f"127.0.0.1:{7400 + r2[0]}"

    def content(a):
        c = {}
        for b, i in ids:
            if b != a or r.random() < 0.2:
                continue
            d = {}
            if r.random() < 0.5:
                d["stats_keeper"] = {k: r.choice(VALUES[v]) for k, v in [("gather_period", "STAT_GP"), ("history_length", "STAT_HL")] if r.random() < 0.6}
            if r.random() < 0.5:
                f = {k: r.choice(VALUES[v]) for k, v in [("directory", "LOG_DIR"), ("max_size_in_bytes", "LOG_MAX_SIZE"), ("max_files", "LOG_MAX_FILES"), ("buffer_size", "LOG_BUF_SIZE")] if r.random() < 0.5}
                d["logging"] = {"file_logging": f} if r.random() < 0.7 else {}
                if r.random() < 0.5:
                    d["logging"]["level"] = r.choice(LEVELS)
            for k, s in [("lock_directory", "LOCK_DIR"), ("buffer_directory", "BUFFER_DIR")]:
                if r.random() < 0.3:
                    d[k] = r.choice(VALUES[s])
            for k in ("tcp", "udp"):
                if r.random() < 0.35:
                    r2[0] += 1
                    d[k] = {"host": "127.0.0.1", "port": 7400 + r2[0]}
            if r.random() < 0.25:
                r2[0] += 1
                d["uds"] = {"directory": "U", "socket_file_name": r.choice(["DEFAULT", f"s{r2[0]}"])}
            if r.random() < 0.3:
                d["extra"] = {k: f"f{r.randrange(100)}" for k in r.sample(["DB", "DB_NAME", "X"], r.randint(1, 2))}
            c[i] = d
        return c
    for _ in range(r.randint(0, 14)):
        k, v = var()
        p["env"][k] = v
    for a, i in ids:                  # most are to be reached
        if r.random() < 0.9:
            s = r.choice(["TCP", "TCP", "UDP", "UDS"])
            r2[0] += 1
            p["env"][f"ECOENV_{s}_{APPS[a][1].upper()}_{i.upper()}"] = r.choice(["U/DEFAULT", f"U/s{r2[0]}"]) if s == "UDS" else f"127.0.0.1:{7400 + r2[0]}"
    if r.random() < 0.85:
        p["env"]["ECOENV_BUFFER_DIR"] = "B0"
    if r.random() < 0.4:
        p["env"]["ECOENV_LOG_DIR"] = "L0"
    t = 0.1
    if files:
        for a in sorted({a for a, _ in ids}):
            p["ops"].append([0.01, "file", a, "ok", content(a), 0, 0])
    for _ in range(r.randint(2, 12)):
        t = round(t + r.choice([0.01, 0.3, GAP + 1, 12.0]) * r.uniform(0.8, 1.2), 4)
        k = r.choices(["start", "end", "env", "file"], [10, 4, 3, 4 if files else 0])[0]
        if k == "start":
            p["ops"].append([t, k, r.randrange(len(ids)), r.random() < (0.7 if files else 0.03)])
        elif k == "end":
            p["ops"].append([t, k, r.randrange(len(ids)), r.choice(["term", "term", "kill"])])
        elif k == "env":
            n, v = var()
            if r.random() < 0.3 and p["env"]:
                n, v = r.choice(list(p["env"])), None
            p["ops"].append([t, k, n, v])
        else:
            a = r.choice(ids)[0]
            how = r.choices(["ok", "torn", "gone", "dir", "text", "type", "list"], [10, 4, 0.6, 0.4, 0.4, 0.8, 0.3])[0]
            p["ops"].append([t, k, a, how, content(a), round(r.choice([0.02, 0.5, 5.0]) * r.uniform(0.8, 1.2), 4), r.random()])
    p["T"] = t
    return p


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.w = World(plan)
        self.sim = self.w.sim
        self.base = os.path.join(self.w.tmp, "cfg")
        for d in ["U", "C", *[v for k in ("DEFAULT_DIR", "LOG_DIR", "LOCK_DIR") for v in VALUES[k]]]:
            os.makedirs(os.path.join(self.base, d), exist_ok=True)
        self.env = {}
        for k, v in plan["env"].items():
            self.setenv(k, v)
        self.files = {}            # application -> (kind, content)
        self.live = {}             # id -> process
        self.procs = []
        self.queued = {}           # (buffer directory, id) -> entries in the error queue, None: not known
        self.touched = set()
        self.last = {}             # id -> (how its last process ended, what was expected of it)
        for o in plan["ops"]:
            self.sim.at(o[0], self.op, o)

    def real(self, v):
        """The path for a directory of the plan."""
        return f"{disk.PREFIX}cfg{v}" if v.startswith("B") else os.path.join(self.base, v)

    def setenv(self, k, v):
        s = re.match(r"ECOENV_([A-Z]+_DIR|UDS)(_|$)", k)
        self.env[k] = self.real(v) if v and s else v

    # -- what is to be expected
    def lookup(self, s, name, inst):
        up = name.upper()
        for lv, k in (("instance", f"ECOENV_{s}_{up}_{inst.upper()}"), ("application", f"ECOENV_{s}_{up}"), ("machine", f"ECOENV_{s}")):
            v = self.env.get(k)
            if v:
                lower = [x for x in (f"ECOENV_{s}_{up}", f"ECOENV_{s}") if x != k and self.env.get(x) and self.env[x] != v]
                if lv == "instance" and lower:
                    self.w.cover.add("instance-over-application")
                elif lv == "application" and lower:
                    self.w.cover.add("application-over-machine")
                elif lv == "machine":
                    self.w.cover.add("machine")
                return v
        self.w.cover.add("default")
        return None

    def want(self, i, with_file):
        """What a process of this id is to be like if it is started now; None if it may not run."""
        a, inst = self.plan["ids"][i]
        name = APPS[a][1]
        up = f"{name.upper()}_{inst.upper()}"
        for k, v in self.env.items():
            if v and re.search(r"_[A-Z0-9]+$", k) and k.startswith("ECOENV_TCP_"):
                if not k.endswith(up):
                    self.w.cover.add("of-another-instance" if k.startswith(f"ECOENV_TCP_{name.upper()}_") else "of-another-application")
        if any(self.env.get(f"ECOENV_{s}{x}") for s in ("TCP", "UDP", "UDS") for x in ("", f"_{name.upper()}")):
            self.w.cover.add("instance-only-at-other-levels")
        e = {}
        default = self.lookup("DEFAULT_DIR", name, inst)
        for s in VALUES:
            v = self.lookup(s, name, inst)
            if s in DEFAULTS:
                e[s] = DEFAULTS[s] if v is None else type(DEFAULTS[s])(v)
            elif s in ("LOG_DIR", "LOCK_DIR"):
                e[s] = v or default
            elif s == "BUFFER_DIR":
                e[s] = v
        for s in ("TCP", "UDP"):
            v = self.env.get(f"ECOENV_{s}_{up}")
            e[s] = int(v.rpartition(":")[2]) if v else None
        v = self.env.get(f"ECOENV_UDS_{up}")
        e["UDS"] = v and self.uds(v, name, inst)
        e["extra"] = {}
        for k in ("DB", "DB_NAME", "X"):
            for lv in (f"_{up}", f"_{name.upper()}", ""):
                v = self.env.get(f"ECOENV_EXTRA{lv}_{k}")
                if v:
                    e["extra"][k] = v
                    break
        e["only"] = True
        if with_file:
            kind, c = self.files.get(a, ("gone", {}))
            if kind != "ok" or inst not in c:
                self.w.cover.add({"ok": "instance-not-in-file", "torn": "torn-file", "type": "wrong-type"}.get(kind, "missing-file"))
                return None
            d = c[inst]
            log = d.get("logging", {})
            sk, fl = d.get("stats_keeper", {}), log.get("file_logging", {})
            for s, o, k in [("STAT_GP", sk, "gather_period"), ("STAT_HL", sk, "history_length"), ("LOG_DIR", fl, "directory"), ("LOG_MAX_SIZE", fl, "max_size_in_bytes"), ("LOG_MAX_FILES", fl, "max_files"),
                            ("LOG_BUF_SIZE", fl, "buffer_size"), ("LOG_LEVEL", log, "level"), ("LOCK_DIR", d, "lock_directory"), ("BUFFER_DIR", d, "buffer_directory")]:
                if k in o:
                    if s in DEFAULTS and e[s] != o[k] and e[s] != DEFAULTS[s]:
                        self.w.cover.add("file-over-environment")
                    e[s] = o[k]
            for s in ("tcp", "udp"):
                if s in d:
                    e[s.upper()] = d[s]["port"]
            if "uds" in d:
                e["UDS"] = self.uds(f"{d['uds']['directory']}/{d['uds']['socket_file_name']}", name, inst)
            if "extra" in d:
                e["extra"] = dict(d["extra"])
                e["only"] = False
        for s in ("LOG_DIR", "LOCK_DIR"):
            e[s] = e[s] or "/tmp"
        if self.plan["buffered"] and not e["BUFFER_DIR"]:
            self.w.cover.add("no-buffer-directory")
            return None
        return e

    def uds(self, path, name, inst):
        head, _, tail = path.rpartition("/")
        if tail == "DEFAULT":
            self.w.cover.add("uds-default-name")
            tail = f"{name}_{inst}.uds.sock"
        return f"{head}/{tail}"

    # -- operations
    def op(self, o):
        k = o[1]
        if k == "env":
            self.touched.add(o[2])
            if o[3] is None:
                self.env.pop(o[2], None)
            else:
                self.setenv(o[2], o[3])
            if self.live:
                self.w.cover.add("changed-while-running")
            self.sim.rec("env", name=o[2], value=o[3])
        elif k == "file":
            self.write(*o[2:])
        elif k == "start":
            if o[2] not in self.live:
                self.start(o[2], o[3])
        elif k == "end" and o[2] in self.live:
            self.end(o[2], o[3])

    def path(self, a):
        return os.path.join(self.base, "C", f"{APPS[a][1]}.json")

    def write(self, a, how, c, delay, frac):
        def absolute(d):
            return {k: absolute(v) if isinstance(v, dict) else self.real(v) if k.endswith("directory") else v for k, v in d.items()}
        c = absolute(c)
        text = json.dumps({"instances": c})
        p = self.path(a)
        if os.path.isdir(p):
            os.rmdir(p)
        elif os.path.exists(p):
            os.unlink(p)
        kind = how
        if how == "torn":
            whole, text = text, text[:int(frac * (len(text) - 1))]

            def rest():
                if self.files.get(a) == ("torn", c) and os.path.isfile(p):
                    open(p, "w").write(whole)
                    self.files[a] = ("ok", c)
            self.sim.after(delay, rest)
        elif how == "dir":
            os.mkdir(p)
        elif how == "text":
            text = "not at all"
        elif how == "list":
            text = json.dumps({"instances": [c]})
        elif how == "type":
            c = {k: dict(v, stats_keeper={"gather_period": "often"}) for k, v in c.items()}
            text = json.dumps({"instances": c})
            if not c:
                kind = "ok"
        if how not in ("gone", "dir"):
            open(p, "w").write(text)
        self.files[a] = (kind, c)
        self.sim.rec("file", app=a, how=how)

    def start(self, i, with_file):
        a, inst = self.plan["ids"][i]
        k = len(self.procs)
        e = self.want(i, with_file)
        if any(p["start"] > self.sim.now - 0.5 for p in self.live.values()):
            self.w.cover.add("two-at-once")
        if i in self.last:
            how, before = self.last[i]
            if how == "kill":
                self.w.cover.add("restart-after-kill")
            if before is None:
                self.w.cover.add("restart-after-refusal")
            elif e != before:
                self.w.cover.add("changed-between-starts")
        p = {"i": k, "id": i, "want": e, "start": self.sim.now, "node": None, "up": False, "cfg": None, "how": None}
        # /tmp is where logs and locks go if nobody says otherwise: here that is a directory of this run
        env = {"ECOENV_DEFAULT_DIR": os.path.join(self.base, "D0"), **self.env}
        if not env["ECOENV_DEFAULT_DIR"]:
            env["ECOENV_DEFAULT_DIR"] = os.path.join(self.base, "D0")
        if e:
            for s in ("LOG_DIR", "LOCK_DIR"):
                if e[s] == "/tmp":
                    e[s] = os.path.join(self.base, "D0")
        node = self.w.app(f"p{k}", self.setup, inst, app_name=APPS[a][0], wrap=self.wrap, host="m", argv=("-c", self.path(a)) if with_file else ())
        node.environ.clear()
        node.environ.update(env)
        node.disk = None
        node.env["proc"] = p
        p["node"] = node
        self.procs.append(p)
        self.live[i] = p
        self.sim.rec("start", proc=k, id=i, file=with_file)
        node.start()
        self.sim.after(GAP, self.judge, p)

    def setup(self, node):
        from ekosis.requests.endpoint import endpoint
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        from ekosis.configuration.config_models import AppConfiguration
        from pydantic import BaseModel
        p = node.env["proc"]

        class Who(BaseModel):
            n: int = 0
            extra: dict = {}
            name: str = ""
            instance: str = ""

        @endpoint("who", Who)
        async def who(**kw):
            c = AppConfiguration()
            return Who(n=p["i"], extra=c.extra, name=c.name, instance=c.instance)

        if self.plan["buffered"]:
            @buffered_endpoint("later", Who, max_retries=0)
            async def later(**kw):
                return False

    def wrap(self, node, base):
        p = node.env["proc"]

        class App(base):
            async def setup_tasks(self, tasks):
                await super().setup_tasks(tasks)
                import asyncio

                async def speak():
                    import logging
                    await asyncio.sleep(0.5)
                    p["up"] = True
                    log = logging.getLogger("spoken")
                    if p["want"] and p["want"]["LOG_MAX_SIZE"] < 10000:
                        for n in range((p["want"]["LOG_MAX_FILES"] + 2) * p["want"]["LOG_MAX_SIZE"] // 330 + 1):
                            log.critical(f"fill-{p['i']}-{n}")
                    else:
                        for n in range(12):
                            log.critical(f"fill-{p['i']}-{n}")
                    for n, level in enumerate(LEVELS):
                        log.log(10 * (n + 1), f"say-{p['i']}-{level}")
                tasks.append(asyncio.create_task(speak()))
        return App

    # -- verdicts
    def bad(self, cls, msg):
        self.w.violate(cls, msg.replace(f"{self.base}/", ""))

    def label(self, p):
        a, inst = self.plan["ids"][p["id"]]
        return f"process {p['i']} (instance {inst} of {APPS[a][1]})"

    def addresses(self):
        """Every address anything here says."""
        tcp, udp, uds = set(), set(), set()
        for k, v in [*self.env.items()]:
            if v and k.startswith("ECOENV_TCP"):
                tcp.add(int(v.rpartition(":")[2]))
            elif v and k.startswith("ECOENV_UDP"):
                udp.add(int(v.rpartition(":")[2]))
            elif v and k.startswith("ECOENV_UDS"):
                for a, inst in self.plan["ids"]:
                    uds.add(self.uds(v, APPS[a][1], inst))
                uds.add(v)
        for kind, c in self.files.values():
            for d in c.values() if isinstance(c, dict) else ():
                tcp |= {d["tcp"]["port"]} if "tcp" in d else set()
                udp |= {d["udp"]["port"]} if "udp" in d else set()
        for p in self.procs:
            if p["want"]:
                tcp.add(p["want"]["TCP"]), udp.add(p["want"]["UDP"]), uds.add(p["want"]["UDS"])
        both = (tcp | udp) - {None}
        return sorted([("tcp", x) for x in both] + [("udp", x) for x in both]) + sorted(("uds", x) for x in uds - {None})

    def ask(self, addr, cb, route="who", data=None):
        """cb(data) or cb(None)"""
        kind, x = addr
        sk = span_key(f"ask/{len(self.sim.history)}/{kind}/{os.path.basename(str(x))}")
        if kind == "udp":
            got = []

            def on(s, d, a):
                if not got:
                    got.append(1)
                    cb(json.loads(d)["data"])
            simnet.RawUDP(self.w.net, simnet.HubOwner("m"), on).send(request_line(route, sk, data or {}), ("127.0.0.1", x))
        else:
            Peer(self.w, "m", ("tcp", "127.0.0.1", x) if kind == "tcp" else ("uds", x)).call(route, sk, data or {}, lambda s, d, r: cb(d if s == 0 else None))

    def judge(self, p):
        n, e = p["node"], p["want"]
        if self.live.get(p["id"]) is not p or p["how"]:
            return
        if e is None:
            if n.alive and p["up"]:
                self.bad("runs-anyway", f"{self.label(p)} runs, without a configuration it could run with")
            if n.alive:
                n.crash("kill")
            self.gone(p)
            return
        if not n.alive or not p["up"]:
            ex = n.exit_exc
            self.bad("does-not-run", f"{self.label(p)} does not run with {e}: " + (f"{type(ex).__name__}: {ex}" if ex is not None else "not up" if n.alive else "ended"))
            return
        self.look(p)
        self.survey(p)
        self.sim.after(0.6, self.inside, p)

    def survey(self, p):
        """Who answers where."""
        live = {q["i"]: q for q in self.live.values()}
        for addr in self.addresses():
            def cb(d, addr=addr):
                if d is None or self.live.get(self.procs[d["n"]]["id"]) is not self.procs[d["n"]]:
                    return
                q = self.procs[d["n"]]
                a, inst = self.plan["ids"][q["id"]]
                if q["want"] is None or q["want"][addr[0].upper()] != addr[1]:
                    self.bad("address", f"{self.label(q)} answers at {addr}, its configuration is {q['want'] and {s: q['want'][s] for s in ('TCP', 'UDP', 'UDS')}}")
                    return
                q.setdefault("answered", set()).add(addr[0])
                x = d["extra"]
                bad = [k for k in ("DB", "DB_NAME", "X") if (q["want"]["only"] or k in q["want"]["extra"]) and x.get(k) != q["want"]["extra"].get(k)]
                if bad:
                    self.bad("extra", f"{self.label(q)} has {bad[0]} = {x.get(bad[0])!r} in 'extra', configured is {q['want']['extra'].get(bad[0])!r}")
                if (d["name"], d["instance"]) != (APPS[a][1], inst):
                    self.bad("identity", f"{self.label(q)} takes itself for instance {d['instance']} of {d['name']}")
            self.ask(addr, cb)

    def inside(self, p):
        if self.live.get(p["id"]) is not p or p["how"]:
            return
        e = p["want"]
        missing = [s for s in ("TCP", "UDP", "UDS") if e[s] is not None and s.lower() not in p.get("answered", ())]
        if missing:
            self.bad("address", f"{self.label(p)} does not answer at {missing[0]} {e[missing[0]]}")
            return
        s = next((s for s in ("TCP", "UDS", "UDP") if e[s] is not None), None)
        if not s:
            return
        addr = (s.lower(), e[s])

        def stats(d):
            if self.live.get(p["id"]) is not p or p["how"]:
                return
            got = d and d["statistics"].get("gather_period")
            if got != e["STAT_GP"]:
                self.bad("statistics", f"{self.label(p)} reports a gather period of {got}, configured is {e['STAT_GP']}")
        if self.live.get(p["id"]) is p:
            self.ask(addr, stats, "eco.statistics.get", {"type": "current"})
        if self.plan["buffered"]:
            self.queue(p, addr)

    def queue(self, p, addr):
        """Entries of the error queue are found again where they were left."""
        key = (p["want"]["BUFFER_DIR"], p["id"] if not p["id"] else p["id"])

        def size(d):
            got = d["queue_data"]["database_sizes"]["error"] if d and d.get("queue_data") else None
            if got is None or p["node"] is None or self.live.get(p["id"]) is not p:
                return
            known = self.queued.get(key, 0)
            if known is not None and got != known:
                self.bad("queue", f"{self.label(p)} finds {got} entries in the error queue in {key[0]}, left there were {known}")
            if known:
                self.w.cover.add("queue-found-again")
            self.queued[key] = None
            self.ask(addr, lambda d: None, "later")
            p["pushed"] = (key, got + 1, self.sim.now)
        self.ask(addr, size, "eco.buffered_handler.data", {"queue_route_key": "later"})

    def lines(self, directory, name, inst):
        out = {}
        f = re.compile(re.escape(f"{name}-{inst}.log") + r"(?:\.(\d+))?$")
        for x in os.listdir(directory):
            m = f.match(x)
            if m:
                out[int(m.group(1) or 0)] = open(os.path.join(directory, x), encoding="utf8", errors="replace").read()
        return out

    def look(self, p, ended=False):
        """What it left in the file system."""
        e = p["want"]
        a, inst = self.plan["ids"][p["id"]]
        name = APPS[a][1]
        for d in sorted({os.path.join(self.base, v) for k in ("DEFAULT_DIR", "LOG_DIR", "LOCK_DIR") for v in VALUES[k]}):
            for x in sorted(os.listdir(d)):
                if x.endswith(".lock"):
                    holder = open(os.path.join(d, x)).read().strip()
                    mine = holder == str(p["node"].pid)
                    if mine and not ended and (d != e["LOCK_DIR"] or x != f"{name}-{inst}.lock"):
                        self.bad("lock-file", f"{self.label(p)} has its lock file at {d}/{x}, configured is {e['LOCK_DIR']}")
                elif ".log" in x and d != e["LOG_DIR"] and re.search(rf"(say|fill)-{p['i']}-", open(os.path.join(d, x)).read()):
                    self.bad("log-file", f"{self.label(p)} logs to {d}/{x}, configured is {e['LOG_DIR']}")
        if not ended:
            lock = os.path.join(e["LOCK_DIR"], f"{name}-{inst}.lock")
            if not os.path.exists(lock):
                self.bad("lock-file", f"{self.label(p)} has no lock file in {e['LOCK_DIR']}")
        logs = self.lines(e["LOG_DIR"], name, inst)
        said = [m for n in sorted(logs, reverse=True) for m in re.findall(rf"say-{p['i']}-(\w+)", logs[n])]
        fills = {n: [int(x) for x in re.findall(rf"fill-{p['i']}-(\d+)", t)] for n, t in logs.items()}
        want = LEVELS[LEVELS.index(e["LOG_LEVEL"]):]
        if not ended and e["LOG_BUF_SIZE"]:
            if said:
                self.bad("log-buffer", f"{self.label(p)} has written {said} although its log buffer of {e['LOG_BUF_SIZE']} records is not full")
            self.w.cover.add("buffered-log")
            return
        if said != want and not (ended and e["LOG_MAX_SIZE"] < 10000 and said == want[len(want) - len(said):]):      # the first of them may be in a file that was dropped since
            self.bad("log-level", f"{self.label(p)}, with log level {e['LOG_LEVEL']}, " + ("has ended and " if ended else "") + f"logged the levels {said}")
            return
        if len(want) < 5:
            self.w.cover.add("level-filtered")
        used = sorted(n for n in fills if fills[n])
        if e["LOG_MAX_SIZE"] >= 10000:
            if used != [0]:
                self.bad("log-size", f"{self.label(p)}, with log files of up to {e['LOG_MAX_SIZE']} bytes, wrote to {used}")
            return
        self.w.cover.add("rotated")
        if not used:
            if not ended:
                self.bad("log-file", f"{self.label(p)} has not logged to {e['LOG_DIR']}")
            return
        if used[-1] > e["LOG_MAX_FILES"] or not ended and used[-1] != e["LOG_MAX_FILES"]:
            self.bad("log-files", f"{self.label(p)}, to keep {e['LOG_MAX_FILES']} rotated files of {e['LOG_MAX_SIZE']} bytes, has logged to {used[-1]} of them")
        big = [n for n in used if len(logs[n].encode()) > e["LOG_MAX_SIZE"] or (n and len(logs[n].encode()) < e["LOG_MAX_SIZE"] - 1500)]
        if big and not (big == used[-1:]):
            self.bad("log-size", f"{self.label(p)}, to have log files of {e['LOG_MAX_SIZE']} bytes, has one of {len(logs[big[0]].encode())}")

    def history(self, p, then):
        """How much history is kept, by the time there is enough of it."""
        e = p["want"]
        s = next((s for s in ("TCP", "UDS", "UDP") if e[s] is not None), None)
        age = self.sim.now - p["start"]
        if not s or age < GAP + 1:
            return then()
        addr = (s.lower(), e[s])
        done = []

        def full(d):
            if done:
                return
            done.append(1)
            got = d and len(d["statistics"]) if d and isinstance(d["statistics"], list) else None
            low = min(e["STAT_HL"], int((age - 1.0) / (e["STAT_GP"] + 0.2)))
            high = min(e["STAT_HL"], int(age / e["STAT_GP"]) + 1)
            if got is not None and not low <= got <= high:
                self.bad("statistics", f"{self.label(p)}, {age:.1f} s after its start, has a history of {got}; it gathers every {e['STAT_GP']} s and keeps {e['STAT_HL']}")
            if got == e["STAT_HL"]:
                self.w.cover.add("history-full")
            then()
        self.ask(addr, full, "eco.statistics.get", {"type": "full"})
        self.sim.after(0.5, lambda: (done or (done.append(1), then())))

    def end(self, i, how):
        p = self.live[i]
        if p["how"]:
            return
        p["how"] = how
        if p["want"] is None or not p["up"]:
            how = "kill"
        if how == "kill":
            if p["node"].alive:
                p["node"].crash("kill")
            self.settle(p, False)
            self.gone(p)
            return

        def term():
            if p["node"].alive:
                p["node"].signal(15)
            self.sim.after(3.0, self.ended, p)
        self.history(p, term)

    def settle(self, p, graceful):
        if p.get("pushed"):
            key, n, t = p["pushed"]
            self.queued[key] = n if graceful and self.sim.now - t > 1.0 else None
        elif p["want"] and self.plan["buffered"] and not graceful:
            self.queued[(p["want"]["BUFFER_DIR"], p["id"])] = None

    def ended(self, p):
        if p["node"].alive:
            self.bad("does-not-end", f"{self.label(p)} is still there 3 s after SIGTERM")
            p["node"].crash("kill")
        else:
            self.settle(p, True)
            self.look(p, ended=True)
        self.gone(p)

    def gone(self, p):
        if self.live.get(p["id"]) is p:
            del self.live[p["id"]]
            self.last[p["id"]] = (p["how"], p["want"])

    def run(self):
        end = self.plan["T"] + GAP + 2
        self.sim.at(end, lambda: None)
        while self.sim.now < end:
            self.sim.run(end)
        for i in sorted(self.live):
            self.end(i, "term")
        end = self.sim.now + 6
        self.sim.at(end, lambda: None)
        while self.sim.now < end:
            self.sim.run(end)


def execute(plan):
    R = Run(plan)
    w = R.w
    disk.unfreeze(f"{disk.PREFIX}cfg")
    try:
        R.run()
    except SimLimit as x:
        w.violate("livelock", str(x))
    c = w.cover
    return runner.finish(w, plan, {"nontrivial": bool(c & {"instance-over-application", "application-over-machine", "file-over-environment"}) or any(p["want"] is None for p in R.procs),
                                   "sample": {"ids": plan["ids"], "env": plan["env"], "ops": [o[:4] for o in plan["ops"]]}})
