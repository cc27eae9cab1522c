"""C15: nothing in a log directory, and nothing the collector does, stops the log shipper."""
import json
import os
import random

from props import c14
from props.c14 import key_of, record
from sim import disk, runner, shipper
from sim.core import SimLimit

TIERS = {
    "quick": {"runs": 3000, "wall": 100},
    "thorough": {"runs": 120000, "wall": 1500},
}
RULE = "distinct event logs of runs with malformed lines, files that vanish, shrink or are replaced, or failing system calls"
REAL, STUB = c14.REAL, c14.STUB
ASSUMPTIONS = ["a file cut short in place is not written to again before the shipper has looked at it", "the state database can be opened when the shipper starts", "JSON nested deeper than a few levels is not generated"]
PROBES = ["malformed", "empty-line", "long-line", "cut-line", "unlinked", "replaced", "truncated", "flash-file", "dangling-link", "directory-named-log", "late-directory",
          "fault-open", "fault-stat", "fault-read", "fault-opendir", "fault-fstat", "state-database-error", "collector-failure", "collector-hang", "kill", "malformed-first-in-batch", "rotation", "one-file-never-accepted"]
NATIVE = True
prepare = shipper.build
BAD = [b"", b"garbage", b"{", b"{}", b"null", b"[]", b"[1,2,3]", b"12", b'"text"', b"\xff\xfe\x00\x80", b'{"timestamp": "2026-01-01T00:00:00+00:00"}', b"\x00" * 40,
       b'{"timestamp": 5, "severity_number": 9, "severity_text": "INFO", "body": "b"}', b'{"timestamp": "x", "severity_number": "9", "severity_text": 3, "body": null}',
       b'{"timestamp": "2026-01-01T00:00:00+00:00", "severity_number": 9, "severity_text": "INFO", "body": {"a": 1}, "attributes": {}}',
       b'{"timestamp": "2026-01-01T00:00:00+00:00", "severity_number": 9, "severity_text": "INFO", "body": "odd", "attributes": {"application_name": 7, "application_instance": []}}',
       b'{"timestamp": "2026-01-01T00:00:00+00:00", "severity_number": 9, "severity_text": "INFO", "body": "odd", "attributes": [1]}',
       b'{"timestamp": "2026-01-01T00:00:00+00:00", "severity_number": 9, "severity_text": "INFO", "body": "odd", "attributes": "text"}',
       b'{"timestamp": "2026-01-01T00:00:00+00:00", "severity_number": 9, "severity_text": "INFO", "body": "odd \\ud800", "attributes": {}}',
       b'{"timestamp": "2026-01-01T00:00:00+00:00", "severity_number": 9, "severity_text": "INFO", "body": "odd \xc3\x28", "attributes": {}}',
       b'{"timestamp": "", "severity_number": 9, "severity_text": "INFO", "body": "odd", "trace_id": 5}',
       b'{"timestamp": "99999-99-99T99:99:99", "severity_number": 99999999999999999999, "severity_text": "INFO", "body": "odd"}',
       b'{"timestamp": "2026-01-01T00:00:00+00:00", "severity_number": 9, "severity_text": "INFO", "body": "odd", "attributes": {"n": null, "f": 1.5, "o": {"x": [1]}, "big": 18446744073709551615}}',
       b'not json {"body": "odd"}', b" ", b"\r", b"\xef\xbb\xbf{}", b"x" * 70000]


def generate(seed, tier):
    r = random.Random("c15/" + seed)
    p = c14.generate("x" + seed, tier)
    p["seed"] = seed
    p["events"] = p["events"][:1] if r.random() < 0.3 else []
    for f in p["files"]:
        ops, hostile = [], r.random() < 0.6
        for op in f["ops"]:
            if op[1] == "rotate" and r.random() < 0.5:
                op = [op[0], "line", 0, []]
            ops.append(op)
            if r.random() < 0.35:
                ops.append([op[0], "bad", r.randrange(len(BAD)), r.random() < 0.1])
            if r.random() < 0.06:
                ops.append([op[0], "cut", r.randint(1, 200)])
            if hostile and r.random() < 0.15:
                ops.append([op[0], r.choice(["unlink", "replace"]), r.randint(0, 3)])
        if r.random() < 0.2:
            t = ops[-1][0] if ops else 0
            ops.append([t + r.uniform(0, 3), "trunc", r.choice([0, 0, 0.5])])
            ops.append([p["T"] + 16.0, "line", 0, []])
        if r.random() < 0.3:
            ops.insert(0, [ops[0][0] if ops else 0, "bad", r.randrange(len(BAD)), False])
        f["ops"] = ops
    # things that come and go
    p["extras"] = [[round(r.uniform(0.05, p["T"]), 5), r.choice(["flash", "flash", "link", "dir", "other"]), r.choice([0.0001, 0.001, 0.02, 3.0])] for _ in range(r.choice([0, 0, 1, 4]))]
    p["faults"] = []
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        t0 = round(r.uniform(0.05, p["T"]), 4)
        k, e = r.choice([("open", 13), ("open", 24), ("stat", 5), ("stat", 13), ("read", 5), ("read", 4), ("opendir", 24), ("fstat", 5), ("inotify", 28)])
        p["faults"].append([t0, round(t0 + r.choice([0.01, 0.5, 3]), 4), k, e, r.choice([0.2, 1.0])])
    p["db"] = []
    if r.random() < 0.25 and not p["events"]:
        for _ in range(r.choice([1, 2])):
            t0 = round(r.uniform(0.3, p["T"] + 0.3), 4)
            p["db"].append([t0, round(t0 + r.choice([0.1, 2.0]), 4), r.choice(["ioerr", "full"]), r.choice([disk.WRITE, disk.SYNC, disk.ANYWRITE, disk.READ])])
    p["nodir"] = r.random() < 0.06
    p["poison"] = [r.randrange(len(p["files"])), r.choice(["reject", "too-large", "refuse", "timeout"])] if len(p["files"]) > 1 and r.random() < 0.3 else None
    p["_shrink"] = ["events", "collector", "faults", "db", "extras", "files"]
    return p


shrink = c14.shrink


class Run(c14.Run):
    def __init__(self, plan):
        super().__init__(plan)
        for t0, t1, k, e, pr in plan["faults"]:
            self.ship.faults.append((t0, min(t1, self.heal), k, e, pr))
        self.touched = set()
        if plan.get("poison"):
            fi, how = plan["poison"]
            self.col.poison = (b"#%d." % fi, {"reject": (0, 400, 0.003, False), "too-large": (0, 413, 0.003, False), "refuse": (7, 0, 0.001, False), "timeout": (28, 0, 0.3, False)}[how])
            self.w.cover.add("one-file-never-accepted")
        self.waive = set()        # (file, line) merged with something cut off before it
        self.cut_before = set()
        self.extra_paths = 0
        if plan["nodir"]:
            os.rmdir(self.dir)
            self.w.cover.add("late-directory")
        for i, (t, kind, d) in enumerate(plan["extras"]):
            self.sim.at(t, self.extra, i, kind, d)
        for t0, t1, act, mask in plan["db"]:
            self.sim.at(t0, self.db_fault, min(t1, self.heal), act, mask)

    def db_fault(self, t1, act, mask):
        i = disk.fault(f"{disk.PREFIX}shipper/", mask, 0, disk.ACTIONS[act], 1)
        self.sim.stats[f"state_db_{act}"] += 1
        self.w.cover.add("state-database-error")
        self.sim.at(t1, disk.clear, i)

    def extra(self, i, kind, d):
        if not os.path.isdir(self.dir):
            return
        p = os.path.join(self.dir, f"extra{i}.log")
        self.extra_paths += 1
        if kind == "flash":
            open(p, "wb").close()
            self.w.cover.add("flash-file")
        elif kind == "link":
            os.symlink("/nonexistent/target", p)
            self.w.cover.add("dangling-link")
        elif kind == "dir":
            os.mkdir(p)
            self.w.cover.add("directory-named-log")
        else:
            p = os.path.join(self.dir, f"extra{i}.txt")
            with open(p, "wb") as f:
                f.write(b"not a log\n")
        self.ship.poke()
        self.sim.after(d, self.vanish, p)

    def vanish(self, p):
        os.rmdir(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        self.ship.poke()

    def op(self, fi, op):
        w = self.writers[fi]
        if not os.path.isdir(self.dir):
            os.makedirs(self.dir)
        kind = op[0]
        if kind == "line":
            if fi in self.cut_before:
                self.cut_before.discard(fi)
                self.waive.add((fi, self.count[fi]))
            return super().op(fi, op)
        if kind == "rotate":
            self.cut_before.discard(fi)
            return super().op(fi, op)
        if kind == "bad":
            data = BAD[op[1]]
            w.add(w.write(data * (30 if op[2] else 1) + b"\n"))
            self.cut_before.discard(fi)
            self.w.cover.add("empty-line" if not data.strip() else "long-line" if len(data) > 50000 else "malformed")
            return
        if kind == "cut":
            data, _ = record(fi, "cut0-0.log", 10 ** 6, 0)
            w.add(w.write(data[:op[1]]))
            self.cut_before.add(fi)
            self.w.cover.add("cut-line")
            return
        self.touched.add(fi)
        self.cut_before.discard(fi)
        if kind == "unlink":
            def unlink():
                w.close()
                if os.path.exists(w.path):
                    os.unlink(w.path)
                    w.lost.update(w.where.pop(w.path, []))
            w.add(unlink)
            self.w.cover.add("unlinked")
        elif kind == "replace":
            items = []
            for _ in range(op[1]):
                i = self.count[fi]
                self.count[fi] += 1
                data, want = record(fi, self.plan["files"][fi]["name"], i, 0)
                self.want[(fi, i)] = want
                items.append((i, data))

            def replace():
                w.close()
                with open(w.path + ".new", "wb") as f:
                    f.write(b"".join(d for _, d in items))
                os.utime(w.path + ".new", (1_700_000_000 + self.sim.now,) * 2)
                os.rename(w.path + ".new", w.path)
                w.lost.update(w.where.pop(w.path, []))
                w.where[w.path] = [i for i, _ in items]
            w.add(replace)
            self.w.cover.add("replaced")
        elif kind == "trunc":
            def trunc():
                w.open()
                size = int(os.fstat(w.fd).st_size * op[1])
                with open(w.path, "rb") as f:
                    keep = f.read(size).count(b"#")     # only for the record
                os.ftruncate(w.fd, size)
                w.lost.update(w.where.get(w.path, []))
                w.where[w.path] = []
                w.current = w.where[w.path]
                self.sim.rec("trunc", f=fi, size=size, keep=keep)
                w.stamp()
                if size:
                    os.write(w.fd, b"\n")
            w.add(trunc)
            self.w.cover.add("truncated")

    def run(self):
        for fi in range(len(self.plan["files"])):      # the applications are still there after the trouble
            self.sim.at(self.heal + 16.0 + fi * 0.001, self.op, fi, ["line", 0, []])
        super().run()

    def odd(self, r):
        return r["body"].startswith("odd") or r["body"] == "b"


def execute(plan):
    R = Run(plan)
    w = R.w
    try:
        R.run()
        if not os.path.isdir(R.dir):
            os.makedirs(R.dir)
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    for inc, why in R.ended():
        w.violate("ended", f"the shipper ended: {why}")
    if any(x["k"] == "hung-post" for x in R.sim.history):
        w.violate("hung", "the shipper waits without limit for a collector that does not answer")
    kills = bool(R.sim.stats.get("shipper_kill"))
    judge(R, plan, kills)
    c = w.cover
    for k in R.sim.stats:
        if k.startswith("fault_"):
            c.add("fault-" + k.split("_")[1])
        if k == "collector_hang":
            c.add("collector-hang")
    if any(not p["ok"] for p in R.col.posts):
        c.add("collector-failure")
    for f in plan["files"]:
        if f["ops"] and f["ops"][0][1] == "bad":
            c.add("malformed-first-in-batch")
    return runner.finish(w, plan, {"nontrivial": bool(c & {"malformed", "unlinked", "replaced", "truncated", "fault-open", "fault-stat", "fault-read", "flash-file", "cut-line", "state-database-error"}),
                                   "sample": {"files": [{"name": f["name"], "ops": f["ops"][:8]} for f in plan["files"]], "faults": plan["faults"], "extras": plan["extras"], "db": plan["db"], "collector": plan["collector"]}})


def judge(R, plan, kills):
    w = R.w
    acc = {}
    last = {}
    for p in R.col.posts:
        for r in p["records"]:
            k = key_of(r["body"])
            if k is None or k not in R.want:
                if not R.odd(r) and not (k and k[1] == 10 ** 6):
                    w.violate("unknown-record", f"the collector was sent a record nobody wrote: {str(r)[:300]}")
                continue
            d = {x: (r[x], v) for x, v in R.want[k].items() if r[x] != v and x != "service"}
            if d:
                w.violate("content", f"record {k} was sent with {str(d)[:400]} (sent, written)")
        if not p["ok"]:
            continue
        for r in p["records"]:
            k = key_of(r["body"])
            if k is None or k not in R.want:
                continue
            if not kills and k[0] not in R.touched:
                if k in acc:
                    w.violate("twice", f"record {k} was accepted twice, at {acc[k]:.4f} and {p['t']:.4f}")
                if k[1] < last.get(k[0], -1):
                    w.violate("order", f"record {k[1]} of file {k[0]} was sent after record {last[k[0]]}")
                last[k[0]] = k[1]
            acc.setdefault(k, p["t"])
    for fi, f in enumerate(plan["files"]):
        wr = R.writers[fi]
        if plan.get("poison") and plan["poison"][0] == fi:
            continue
        need = [i for lines in wr.where.values() for i in lines if i not in wr.lost and (fi, i) not in R.waive]
        miss = [i for i in need if (fi, i) not in acc]
        if miss:
            w.violate("missing", f"records {sorted(miss)[:10]} of {f['name']} are still there and were never accepted by the collector, {R.sim.now - R.quiet:.0f} s after the last fault")
    if not kills and R.ship.node.alive and not plan.get("poison"):
        mine = {wr.fd for wr in R.writers}
        held = 0
        for fd in os.listdir("/proc/self/fd"):
            try:
                t = os.readlink(f"/proc/self/fd/{fd}")
            except OSError:
                continue
            if t.startswith(R.dir) and int(fd) not in mine:
                held += 1
        if held > len(plan["files"]) + R.extra_paths + 1:
            w.violate("leak", f"the shipper holds {held} files open for {len(plan['files'])} logs: it will run out of descriptors")
