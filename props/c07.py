"""C07: client calls end in bounded time, with documented errors and a bounded number of attempts, and recover."""
import random

from props import c06
from sim import runner
from sim.clients import COMM, ERR, Cli

TIERS = {
    "quick": {"runs": 1400, "wall": 90},
    "thorough": {"runs": 60000, "wall": 1500},
}
RULE = ("distinct event logs of runs in which a call met a fault or a misbehaving server, or in which a fault preceded the recovery calls")
REAL = c06.REAL
STUB = c06.STUB
ASSUMPTIONS = ["a call with a single attempt on a persisted client may fail once when its connection was broken and the client's end has not been told",
               "calls that share a persisted or UDP client take turns, so the time allowed grows with the number of overlapping calls"]
PROBES = ["clean-exact", "retried", "max-retries", "refused", "recovered", "recovered-after-power", "heartbeats-after-faults", "cancelled-call", "overlap", "zero-retries", "single-attempt-after-notice", "closed-by-application"]
DOCUMENTED = COMM | set(ERR.values())


def generate(seed, tier):
    p = c06.generate(seed, tier, "c07")
    r = random.Random("c07b/" + seed)
    p["probe"] = True
    p["hb"] = r.choice([0.2, 0.5, 1.5])
    if r.random() < 0.35:
        # clean: nothing but the server's own behaviour, far from the time-outs
        p["clean"] = True
        p["faults"] = []
        p["net"] = {"lat": [0.0001, 0.002], "seg_p": p["net"]["seg_p"]}
        p["timeout"] = tm = r.choice([0.3, 1.0])
        for i, s in p["beh"].items():
            for x in s:
                x[1] = round(tm * r.choice([1.4, 2.0]), 4) if x[1] > p["timeout"] else (round(tm * 0.4, 4) if x[1] and r.random() < 0.5 else 0)
                if r.random() < 0.3 and x[0] == "ok":
                    x[1] = round(tm * r.choice([1.4, 2.0]), 4)
            if p["server"] == "raw" and r.random() < 0.4 and s[0][0] not in ("unknown", "invalid"):
                p["beh"][i] = [[r.choice(["silent", "silent", "rst", "partial", "fin"]), 0] for _ in range(r.randint(1, 3))] + [["ok", 0]]
    elif p["kind"][0] == "p" and r.random() < 0.4:
        p["faults"].append([round(r.uniform(0.2, p["T"] - 0.3), 4), "clock", r.choice([-3600, -20, 30, 86400])])
    r3 = random.Random("c07c/" + seed)
    if p["kind"][0] == "p" and not p.get("clean"):
        p["closes"] = [[round(r3.uniform(0.2, p["T"]), 4), r3.randrange(2)] for _ in range(r3.choice([0, 0, 0, 1, 3]))]
        p["last_close"] = r3.random() < 0.15
        p["_shrink"] = p["_shrink"] + ["closes"]
    if not p["faults"] and not p.get("clean"):
        p["faults"].append([round(r.uniform(0.2, p["T"] - 0.3), 4), *r.choice([["kill", 0.3], ["stall", 0.5]])])
    return p


def execute(plan):
    e = Cli(plan)
    w = e.w
    if e.run():
        verdict(e)
    return runner.finish(w, plan, summary(e, plan))


def verdict(e):
    w, p = e.w, e.plan
    for i in e.hung:
        w.violate("hang", f"{e.kind}: call {i} had not ended when every time-out and retry was long over")
    calls = {c[1]: c for c in p["calls"]}
    span = {i: v for i, v in e.res.items() if v[1] is not None}
    cl = lambda i: calls[i][2] % p["nclients"] if i in calls else (i - 10000) // 10
    for i, (t0, t1, out, det) in span.items():
        if out == "cancelled":
            if i not in calls or calls[i][5] is None:
                w.violate("undocumented-error", f"{e.kind}: call {i} ended with CancelledError although nobody cancelled it")
            continue
        if out != "ok" and out not in DOCUMENTED:
            w.violate("undocumented-error", f"{e.kind}: call {i} raised {out}({det[:200]})")
        k = sum(1 for j, u in span.items() if cl(j) == cl(i) and u[0] <= t1 and u[1] >= t0) + sum(1 for j in e.hung if cl(j) == cl(i))
        if t1 - t0 > e.bound(k) + 0.25:
            w.violate("too-slow", f"{e.kind}: call {i} took {t1 - t0:.3f} s; time-out {p['timeout']}, {e.A} attempts, delay {p['delay']}, {k} calls on the client allow {e.bound(k):.3f} s")
        if not p["net"].get("dup") and e.seen.get(i, 0) > e.A:
            w.violate("too-many-attempts", f"{e.kind}: the server saw request {i} {e.seen[i]} times; {e.A} attempts are allowed")
        if p.get("clean"):
            exact(e, i, out, det)
    if not hasattr(e, "idle_from"):
        return
    for c in range(p["nclients"]):
        for k in range(e.probes_n):
            i = 10000 + 10 * c + k
            v = e.res.get(i)
            if k == 0 and v and v[2] in COMM and e.A == 1 and e.persistent and not p.get("clean") and i not in e.noticed:
                continue
            if not v or v[2] != "ok":
                w.violate("no-recovery", f"{e.kind}: call {k} after everything was healthy again ended with {v and v[2:]}")
    if e.persistent and p["server"] == "raw":
        n = sum(1 for t in e.enq if t >= e.idle_from)
        if n < p["nclients"]:
            w.violate("no-heartbeat", f"{e.kind}: {n} heartbeats from {p['nclients']} idle client(s) in {e.idle_to - e.idle_from:.2f} s with heartbeat period {p['hb']}")
    n = len(e.end_conns) if e.stream else e.end_udp
    if n > (p["nclients"] if e.kind[0] != "t" else 0):
        w.violate("connection-leak", f"{e.kind}: {n} connections are still open at the client although {p['nclients']} client object(s) are idle")


def exact(e, i, out, det):
    """The outcome of a call that met nothing but the server's planned behaviour."""
    p, w = e.plan, e.w
    tm = p["timeout"]
    for a in range(e.A):
        k, d = e.beh(i, a)
        late = d > tm
        if late and k in ("raise", "proc", "ok", "twice") or k == "silent":
            continue
        if late:
            return
        if not e.stream and k in ("fin", "rst", "partial", "garbage", "wrongspan"):
            continue
        if not e.stream and p["server"] == "raw" and k in ("parse", "invalid") and i % 2:
            continue                # a response without span key answers nobody in particular
        if k == "rst":
            continue
        if k in ("fin", "partial"):
            if e.persistent:
                continue
            if out in COMM:
                return              # a transient client may give up on it or try again
            continue
        if k in ("garbage", "wrongspan"):
            if out not in COMM:
                w.violate("undocumented-error", f"{e.kind}: call {i} got a response that is none ({k}) and ended with {out}")
            return
        want = "ok" if k in ("ok", "twice") else ERR[k]
        if out != want:
            w.violate("wrong-outcome", f"{e.kind}: attempt {a} of call {i} ({e.A} allowed) was answered with {k}; the call ended with {out}({str(det)[:200]})")
        elif k not in ("unknown", "invalid") and e.seen.get(i, 0) != a + 1:
            w.violate("wrong-attempts", f"{e.kind}: attempt {a} of call {i} was answered, the server saw {e.seen.get(i, 0)} attempts")
        return
    if out != "CommunicationsMaxRetriesReached":
        w.violate("wrong-outcome", f"{e.kind}: all {e.A} attempts of call {i} went unanswered ({[e.beh(i, a) for a in range(e.A)]}); it ended with {out}({str(det)[:200]})")
    elif e.seen.get(i, 0) != e.A:
        w.violate("wrong-attempts", f"{e.kind}: all attempts of call {i} went unanswered; {e.A} were due, the server saw {e.seen.get(i, 0)}")


def summary(e, plan):
    x = c06.summary(e, plan)
    c = e.w.cover
    if plan.get("clean"):
        c.add("clean-exact")
    if any(n > 1 for n in e.seen.values()):
        c.add("retried")
    R = [v for i, v in e.res.items() if i < 10000]
    if any(v[2] == "CommunicationsMaxRetriesReached" for v in R):
        c.add("max-retries")
    if any(v[2] == "CommunicationsNonRetryable" and "Refused" in (v[3] or "") for v in R):
        c.add("refused")
    P = [v for i, v in e.res.items() if i >= 10000]
    if P and all(v[2] == "ok" for v in P) and plan["faults"]:
        c.add("recovered")
        if e.sim.stats["crash_power"]:
            c.add("recovered-after-power")
        if e.persistent and plan["server"] == "raw":
            c.add("heartbeats-after-faults")
    if plan["retries"] == 0:
        c.add("zero-retries")
    if e.A == 1 and e.noticed and e.persistent and plan["faults"]:
        c.add("single-attempt-after-notice")
    met = bool(plan["faults"]) or any(k != "ok" or d > plan["timeout"] for s in plan["beh"].values() for k, d in s)
    return dict(x, nontrivial=met)


shrink = c06.shrink
