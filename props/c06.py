"""C06: a client call only ever returns the response to its own request."""
import random

from sim import runner
from sim.clients import COMM, ERR, Cli

TIERS = {
    "quick": {"runs": 1400, "wall": 90},
    "thorough": {"runs": 60000, "wall": 1500},
}
RULE = ("distinct event logs of runs in which two or more calls overlapped, or a call was given up (time-out, reset, cancellation) and a later call used the same client")
REAL = ["the five clients and sender()", "the application with its TCP, UDP and UDS servers (server=app runs)"]
STUB = ["network", "clocks", "scripted server (server=raw runs)"]
ASSUMPTIONS = ["two UDP calls with the same span key cannot be told apart by their responses when the network duplicates datagrams; such calls are not generated together"]
PROBES = ["overlap", "timed-out-call", "late-answer", "retry-answered", "cancelled-call", "shared-span-key", "udp-dup", "error-reported", "server-restart", "heartbeat"]
KINDS = ["ttcp", "ptcp", "ptcp", "ptcp", "tuds", "puds", "puds", "udp", "udp"]


def generate(seed, tier, pfx="c06"):
    r = random.Random(pfx + "/" + seed)
    kind = r.choice(KINDS)
    server = r.choice(["app", "raw", "raw"])
    timeout = r.choice([0.1, 0.3, 1.0])
    n = r.randint(2, 14 if tier == "quick" else 30)
    T = r.choice([1.0, 2.0, 5.0])
    hb = r.choice([0.15, 0.5, 2.0, 60.0])
    p = {"seed": seed, "kind": kind, "server": server, "timeout": timeout, "retries": r.choice([0, 1, 2, 3, 3, 5]), "delay": r.choice([0, 0.01, 0.1]),
         "hb": hb, "nclients": r.choice([1, 1, 1, 2]), "T": T + 0.5, "calls": [], "beh": {}, "faults": [], "probe": False,
         "net": {"lat": [0.0001, r.choice([0.001, 0.003, 0.03])], "seg_p": r.choice([0, 0.3]), "spike_p": r.choice([0, 0, 0.05, 0.3]), "spike": [0.02, timeout * 1.5]},
         "_shrink": ["faults", "calls"]}
    if kind == "udp":
        p["net"].update(loss=r.choice([0, 0, 0.1, 0.3]), dup=r.choice([0, 0.1, 0.4]), reorder=r.choice([0, 0.1, 0.4]))
    slow = r.choice([0.1, 0.4, 0.8])
    t = 0.2
    for i in range(n):
        t += r.choice([0, 0, 0.0005, 0.005, timeout * r.uniform(0.3, 1.3), r.uniform(0, T / n * 1.5)])
        group = r.choice([None, None, None, 0, 1]) if kind != "udp" or not p["net"]["dup"] else None
        cancel = round(r.choice([0.001, 0.005, timeout * r.uniform(0.1, 1.5)]), 5) if r.random() < 0.08 else None
        p["calls"].append([round(t, 5), i, r.randrange(2), r.randrange(2), group, cancel])
        seq = []
        for _ in range(r.randint(1, 3)):
            d = 0 if r.random() > slow else round(timeout * r.choice([0.5, 0.9, 0.98, 1.0, 1.01, 1.05, 1.2, 1.5, 2.5]), 5)
            k = "ok" if r.random() < 0.8 else r.choice(["raise", "proc"])
            if server == "raw" and r.random() < 0.25:
                k = r.choice(["silent", "fin", "rst", "partial", "wrongspan", "garbage", "denied", "busy", "odd", "parse", "twice"])
            seq.append([k, d])
        if r.random() < 0.06:
            seq = [[r.choice(["unknown", "invalid"]), 0]]
        p["beh"][str(i)] = seq
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        ft = round(r.uniform(0.2, T), 4)
        d = round(r.choice([0.05, timeout * 0.8, timeout * 1.3, timeout * 3]), 4)
        if kind in ("ttcp", "ptcp"):
            f = r.choice([["kill", d], ["term", d], ["power", d], ["cut", d], ["reset", r.randrange(4)], ["reset", r.randrange(4)], ["stall", d]])
        elif kind == "udp":
            f = r.choice([["kill", d], ["cut", d], ["stall", d], ["stall", d]])
        else:
            f = r.choice([["kill", d], ["term", d], ["stall", d]])
        p["faults"].append([ft, *f])
    p["share"] = random.Random("c06/share/" + seed).choice([None, "trace_id", "trace_id", "span_id"])
    return p


def execute(plan):
    e = Cli(plan)
    w = e.w
    e.run()
    pairing(e)
    return runner.finish(w, plan, summary(e, plan))


def pairing(e):
    w = e.w
    for i, (t0, t1, out, det) in e.res.items():
        if out == "ok":
            n, a, pad_ok = det
            if n != i:
                w.violate("wrong-response", f"{e.kind}: the call with request {i} returned the response to request {n}")
            elif not any(x == a for x, _ in e.answers.get(i, ())):
                w.violate("wrong-response", f"{e.kind}: the call with request {i} returned a response (attempt {a}) the server never gave: {sorted(e.answers.get(i, ()))}")
            elif not pad_ok:
                w.violate("wrong-content", f"{e.kind}: the response to request {i} arrived altered")
        elif out in ERR.values():
            kinds = {k for _, k in e.answers.get(i, ())} | {k for k, _ in (e.plan["beh"].get(str(i)) or []) if k in ("unknown", "invalid")}
            want = {ERR[k] for k in kinds if k in ERR}
            if f"#{i}#" not in det or out not in want:
                w.violate("wrong-error", f"{e.kind}: the call with request {i} raised {out}({det[:160]}); the server reported {sorted(want)} for it")


def summary(e, plan):
    c = e.w.cover
    R = sorted((v for v in e.res.values() if v[1] is not None), key=lambda v: v[0])
    over = any(b[0] < a[1] for a, b in zip(R, R[1:]))
    given = [v for v in R if v[2] in COMM or v[2] in ("cancelled",)]
    if over:
        c.add("overlap")
    if any(v[2] == "CommunicationsMaxRetriesReached" for v in R):
        c.add("timed-out-call")
    if any(v[2] == "cancelled" for v in R):
        c.add("cancelled-call")
    if any(v[2] in ERR.values() for v in R):
        c.add("error-reported")
    if any(v[2] == "ok" and v[3][1] > 0 for v in R):
        c.add("retry-answered")
    if any(d > plan["timeout"] and k == "ok" for s in plan["beh"].values() for k, d in s):
        c.add("late-answer")
    if len({x[4] for x in plan["calls"] if x[4] is not None}) < sum(1 for x in plan["calls"] if x[4] is not None):
        c.add("shared-span-key")
    if e.sim.stats["udp_dup"]:
        c.add("udp-dup")
    if e.sim.stats["crash_kill"] or e.sim.stats["crash_power"] or e.sim.stats["crash_term"]:
        c.add("server-restart")
    if e.enq:
        c.add("heartbeat")
    later = bool(given) and any(v[0] > min(g[1] for g in given) for v in R)
    return {"nontrivial": bool(over or later),
            "sample": {"kind": plan["kind"], "server": plan["server"], "calls": len(plan["calls"]), "faults": plan["faults"],
                       "outcomes": {str(i): v[2] for i, v in list(e.res.items())[:8]}}}


def shrink(plan):
    if plan["nclients"] > 1:
        yield dict(plan, nclients=1)
    n = plan["net"]
    for k in ("spike_p", "loss", "dup", "reorder", "seg_p"):
        if n.get(k):
            yield dict(plan, net=dict(n, **{k: 0}))
    for i, s in plan["beh"].items():
        if s != [["ok", 0]]:
            yield dict(plan, beh=dict(plan["beh"], **{i: [["ok", 0]]}))
            if len(s) > 1:
                yield dict(plan, beh=dict(plan["beh"], **{i: s[:1]}))
