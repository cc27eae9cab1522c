"""C14: the log shipper ships every log line, in order, once unless it is killed."""
import datetime
import json
import os
import random

from sim import disk, runner, shipper
from sim.core import SimLimit
from sim.world import World

TIERS = {
    "quick": {"runs": 4000, "wall": 100},
    "thorough": {"runs": 150000, "wall": 1500},
}
RULE = "distinct event logs of runs with at least one rotation, kill or collector failure while lines were outstanding"
REAL = ["all of the shipper's C++ code (compiled from the working tree, main included), SQLiteCpp, SQLite, nlohmann::json, the kernel's files, renames and inotify on a scratch directory"]
STUB = ["libcurl's exchange with the collector (options recorded, outcome scripted)", "disk under SQLite (in-memory VFS)", "waiting and time", "the applications writing the logs (same system calls as RotatingFileHandler)"]
ASSUMPTIONS = ["accepted means: answered 2xx and the answer received", "lines of a file that rotation deletes before they were shipped are not required", "inode numbers are not reused (tmpfs)"]
PROBES = ["rotation", "double-rotation-between-polls", "rotation-while-down", "rotation-while-undelivered", "partial-line-seen", "kill", "kill-in-sql", "kill-in-post", "kill-while-waiting", "collector-failure",
          "several-files", "late-file", "file-deleted-by-rotation", "short-read", "interrupted-wait", "redelivered-after-kill", "large-line"]
NATIVE = True
prepare = shipper.build


def generate(seed, tier):
    r = random.Random("c14/" + seed)
    T = r.choice([0.5, 3.0, 8.0, 15.0])
    nf = r.choice([1, 1, 2, 3])
    files = []
    for i in range(nf):
        ops = []
        t = r.choice([-1, -1, r.uniform(0, T / 2)])
        for _ in range(r.randint(1, 14 if tier == "quick" else 30)):
            k = r.random()
            if k < 0.72:
                ops.append([round(t, 5), "line", r.choice([0, 0, 20, 200, 9000, 30000]) if r.random() < 0.3 else 0, sorted(r.randint(1, 250) for _ in range(r.choice([0, 0, 0, 1, 3])))])
            else:
                ops.append([round(t, 5), "rotate"])
            t += r.choice([0, 0.0002, 0.002, 0.02, 0.3, 2.1, r.uniform(0, T / 4)])
        files.append({"name": r.choice(["app", "b", "Zed", "x.y"]) + f"{i}-0.log", "keep": r.choice([40, 40, 40, 1, 2, 3]), "ops": ops, "gap": r.choice([[1e-6, 1e-5], [1e-6, 3e-4], [1e-5, 3e-3]])})
    ev = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        ev.append([round(r.uniform(0, T), 5), r.choice(["kill", "killin", "killin"]), r.choice(["sql", "post", "read", "open", "stat", "wait", "close", "sql"]), r.randint(1, 6), r.choice([0.01, 0.5, 3.0])])
    ev.sort(key=lambda x: x[0])
    col = []
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        t0 = round(r.uniform(0, T), 4)
        col.append([t0, round(t0 + r.choice([0.01, 0.5, 3, 12]), 4), *r.choice([["status", 500], ["status", 503], ["status", 400], ["status", 302], ["status", r.choice([301, 401, 404, 408, 409, 413, 415, 429, 502, 504])], ["refuse", 0], ["hang", 0], ["late", 0], ["cut", 0], ["slow", 0.5], ["slow", 8.0], ["flaky", 0.5]])])
    return {"seed": seed, "T": T, "files": files, "events": ev, "collector": col, "short": r.choice([0, 0, 0.3]), "cost": r.choice([[5e-6, 5e-5], [5e-6, 4e-4], [1e-4, 5e-3]]),
            "eintr": r.choice([0, 0, 0.3]), "_shrink": ["events", "collector", "files"]}


def shrink(plan):
    for i, f in enumerate(plan["files"]):
        for j in range(len(f["ops"])):
            c = json.loads(json.dumps(plan))
            del c["files"][i]["ops"][j]
            yield c
    for k, v in (("short", 0), ("eintr", 0), ("cost", [5e-6, 5e-5])):
        if plan[k] != v:
            yield dict(plan, **{k: v})


BODIES = ["plain text", "caf\u00e9 \u4e16\u754c \U0001f600", "quote\" back\\slash /", "new\nline\ttab \u0001", "{\"looks\": \"like json\"}", ""]


def record(fi, name, i, pad):
    """The i-th record of file fi, as the formatter writes it, and what the collector must get for it."""
    r = random.Random(f"rec/{fi}/{i}")
    ts = datetime.datetime.fromtimestamp(1_700_000_000 + i * 7 + fi, tz=datetime.timezone.utc) + datetime.timedelta(microseconds=r.choice([0, 1, 331740, 999999, 50]))
    app, inst = name[:-4].rsplit("-", 1)
    sev, txt = r.choice([(5, "DEBUG"), (9, "INFO"), (13, "WARN"), (17, "ERROR"), (21, "FATAL"), (0, "UNSPECIFIED")])
    body = f"#{fi}.{i}# " + r.choice(BODIES) + "x" * pad
    rec = {"timestamp": ts.isoformat(), "severity_number": sev, "severity_text": txt, "body": body,
           "attributes": {"application_name": app, "application_instance": inst, "filename": "f.py", "lineno": i + (2 ** 33 if i % 7 == 3 else 0), "module": "m", "funcName": "fn"},
           "trace_id": f"{r.getrandbits(128):032x}" if r.random() < 0.6 else None, "span_id": None}
    if rec["trace_id"]:
        rec["span_id"] = f"{r.getrandbits(64):016x}"
    us = ts - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
    want = {"service": (app, inst), "time": (us // datetime.timedelta(microseconds=1)) * 1000, "sev": sev, "sevtext": txt, "body": body, "attrs": rec["attributes"], "trace": rec["trace_id"], "span": rec["span_id"]}
    return json.dumps(rec, ensure_ascii=r.random() < 0.3, separators=(",", ":")).encode() + b"\n", want


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.w = World(plan)
        self.sim = self.w.sim
        self.sim.max_steps = 2_000_000
        self.dir = os.path.join(self.w.tmp, "logs")
        os.makedirs(self.dir)
        T = plan["T"]
        self.heal = T + 1.0
        col = [[a, min(b, self.heal), m, x] for a, b, m, x in plan["collector"]]
        self.col = shipper.Collector(self.w, col)
        self.ship = shipper.Shipper(self.w, self.dir, self.col, plan["cost"])
        self.ship.short_p = plan["short"]
        if plan["eintr"]:
            self.ship.faults.append((0, self.heal, "wait", 4, plan["eintr"]))
        self.writers = [shipper.Writer(self.w, self.dir, f["name"], f["keep"], self.ship, f["gap"]) for f in plan["files"]]
        self.want = {}           # (file, i) -> expected record
        self.count = [0] * len(plan["files"])
        self.rotations = []      # (t, file)
        self.kills = []          # (t, incarnation)

    def op(self, fi, op):
        w = self.writers[fi]
        if op[0] == "line":
            i = self.count[fi]
            self.count[fi] += 1
            data, want = record(fi, self.plan["files"][fi]["name"], i, op[1])
            self.want[(fi, i)] = want
            w.line(data, i, op[2])
            if len(data) > 8192:
                self.w.cover.add("large-line")
        else:
            w.rotate()
            self.rotations.append((self.sim.now, fi))
            self.w.cover.add("rotation")
            n = self.ship.node
            if n is None or not n.alive:
                self.w.cover.add("rotation-while-down")

    def event(self, ev):
        kind, what, n, down = ev
        s = self.ship
        if kind == "kill":
            if s.node.env.get("waiting"):
                self.w.cover.add("kill-while-waiting")
            s.kill()
        else:
            s.kill_at = [what, n]
        s.node.env["down"] = down
        self.revive(s.node)

    def revive(self, n):
        if n is not self.ship.node:
            return
        if n.alive:
            if self.ship.kill_at and self.sim.now < self.heal:
                self.sim.after(0.05, self.revive, n)
            return
        if n.env.get("revived"):
            return
        n.env["revived"] = True
        self.w.cover.add("kill")
        self.sim.after(n.env.get("down", 0.1), self.ship.start)

    def run(self):
        p, sim = self.plan, self.sim
        for fi, f in enumerate(p["files"]):
            if f["ops"] and f["ops"][0][0] >= 0:
                self.w.cover.add("late-file")
            for op in f["ops"]:
                if op[0] <= 0:
                    self.op(fi, op[1:])
                else:
                    sim.at(op[0], self.op, fi, op[1:])
        if len(p["files"]) > 1:
            self.w.cover.add("several-files")
        sim.at(0.05, self.ship.start)
        for ev in p["events"]:
            sim.at(max(ev[0], 0.06), self.event, ev[1:])
        # everything done and healed, then time for the shipper to catch up
        self.to(self.heal)
        self.ship.kill_at = None
        while any(w.busy for w in self.writers):
            self.to(sim.now + 0.5)
        self.to(sim.now + 4.0)
        if not self.ship.node.alive and not self.ended():
            self.revive(self.ship.node)
            self.to(sim.now + 4.0)
        self.quiet = sim.now
        self.to(sim.now + 30.0)

    def ended(self):
        return self.ship.ended

    def to(self, t):
        while self.sim.now < t:
            self.sim.run(t)


def key_of(body):
    if body.startswith("#"):
        a, _, _ = body[1:].partition("#")
        x, _, y = a.partition(".")
        if x.isdigit() and y.isdigit():
            return int(x), int(y)
    return None


def execute(plan):
    R = Run(plan)
    w = R.w
    try:
        R.run()
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    for inc, why in R.ended():
        w.violate("ended", f"the shipper ended: {why}")
    judge(R, plan)
    c = w.cover
    st = R.sim.stats
    for k in ("sql", "post"):
        if st.get(f"kill_in_{k}"):
            c.add(f"kill-in-{k}")
    if st.get("short_read"):
        c.add("short-read")
    if st.get("wait_interrupted"):
        c.add("interrupted-wait")
    if any(not p["ok"] for p in R.col.posts):
        c.add("collector-failure")
    if any(w_.lost for w_ in R.writers):
        c.add("file-deleted-by-rotation")
    if any(cut for f in plan["files"] for o in f["ops"] if o[1] == "line" for cut in o[3]):
        c.add("partial-line-seen")
    return runner.finish(w, plan, {"nontrivial": bool({"rotation", "kill", "collector-failure"} & c),
                                   "sample": {"files": [{k: f[k] for k in ("name", "keep")} | {"ops": f["ops"][:6]} for f in plan["files"]], "events": plan["events"], "collector": plan["collector"]}})


def judge(R, plan, once=True, required=None):
    """What the collector accepted against what was written."""
    w = R.w
    acc = {}                 # key -> [(time, incarnation)]
    last = {}                # (incarnation, file) -> index of the last record accepted
    high = {}                # file -> highest index accepted so far
    waits = R.ship.waits
    for p in R.col.posts:
        if p["url"] != "http://collector:3100/otlp/v1/logs":
            w.violate("url", f"posted to {p['url']}")
        for r in p["records"]:
            k = key_of(r["body"])
            if k is None or k not in R.want:
                if not (k is None and R_odd(R, r)):
                    w.violate("unknown-record", f"the collector was sent a record nobody wrote: {str(r)[:300]}")
                continue
            d = {x: (r[x], v) for x, v in R.want[k].items() if r[x] != v}
            if d:
                w.violate("content", f"record {k} was sent with {str(d)[:400]} (sent, written)")
        if not p["ok"]:
            continue
        for r in p["records"]:
            k = key_of(r["body"])
            if k is None or k not in R.want:
                continue
            fi, i = k
            if once and k in acc:
                t0, inc0 = acc[k][-1]
                if inc0 == p["inc"]:
                    w.violate("twice", f"record {k} was accepted twice, at {t0:.4f} and {p['t']:.4f}, by the same run of the shipper")
                elif any(i_ == inc0 and t > t0 for t, i_ in waits):
                    w.violate("twice", f"record {k} was accepted again at {p['t']:.4f}; run {inc0} of the shipper had it accepted at {t0:.4f} and went on to wait before it was killed")
                else:
                    w.cover.add("redelivered-after-kill")
            acc.setdefault(k, []).append((p["t"], p["inc"]))
            if once:
                l = last.get((p["inc"], fi), -1)
                if i < l:
                    w.violate("order", f"record {i} of file {fi} was sent after record {l}")
                last[(p["inc"], fi)] = i
    for fi in range(len(plan["files"])):
        lost = R.writers[fi].lost
        need = [i for i in range(R.count[fi]) if i not in lost] if required is None else required(fi)
        miss = [i for i in need if (fi, i) not in acc]
        if miss:
            w.violate("missing", f"records {miss[:10]} of {plan['files'][fi]['name']} were never accepted by the collector ({len(miss)} of {len(need)}, {plan['T']} s of faults, then {R.sim.now - R.quiet:.0f} s without)")
        # none is skipped: when a record is first accepted, those before it have been
        seen = []
        for k, v in acc.items():
            if k[0] == fi:
                seen.append((v[0][0], k[1]))
        if once:
            first = {i: t for t, i in seen}
            order = [i for i in sorted(first) if i in set(need)]
            for a, b in zip(order, order[1:]):
                if first[b] < first[a]:
                    w.violate("order", f"record {b} of file {fi} was accepted at {first[b]:.4f}, record {a} only at {first[a]:.4f}")
                    break
    # conditions
    ws = sorted(t for t, _ in waits)
    for fi in range(len(plan["files"])):
        rs = [t for t, f in R.rotations if f == fi]
        for a, b in zip(rs, rs[1:]):
            if not any(a < t < b for t in ws):
                w.cover.add("double-rotation-between-polls")
        for t in rs:
            if any(p["t"] > t - 1 and p["t0"] < t and not p["ok"] for p in R.col.posts):
                w.cover.add("rotation-while-undelivered")


def R_odd(R, r):
    f = getattr(R, "odd", None)
    return bool(f and f(r))
