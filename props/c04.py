"""C04: buffered endpoints process every acknowledged request to success or to the error queue."""
import random

from sim import bufgen, runner
from sim.buffered import Buf
from sim.core import SimLimit

TIERS = {
    "quick": {"runs": 900, "wall": 80},
    "thorough": {"runs": 40000, "wall": 1500},
}
RULE = ("distinct event logs (requests, attempts, outcomes, responses in order) of runs in which at least one attempt failed and "
        "two requests were pending at once; conditions_reached counts runs that reached each situation")
REAL = ["whole application process: ApplicationBase, TCP/UDS server, router, buffered handlers, middleware, queues, SQLAlchemy, SQLite",
        "asyncio event loop tasks, streams and queues"]
STUB = ["network and sockets (simulated delivery, segmentation, resets)", "disk under SQLite (in-memory VFS)", "clocks", "raw clients"]
ASSUMPTIONS = ["the user's handler finishes", "requests with equal span keys are the same message (documented behaviour of the queue)"]
PROBES = ["retried", "parked", "raised", "dup", "several-pages", "two-routes-busy", "unanswered", "stalled", "middleware-raise"]


def generate(seed, tier):
    r = random.Random("c04/" + seed)
    rts = bufgen.routes(r)
    n = r.randint(3, 24 if tier == "quick" else 40)
    T = r.choice([0.5, 2.0, 6.0])
    p = {
        "seed": seed, "routes": rts, "T": T + 0.5,
        "msgs": bufgen.messages(r, rts, n, T, dup=r.choice([0, 0, 0.1, 0.4]), burst=r.choice([0.2, 0.6, 0.95])),
        "outc": bufgen.outcomes(r, n, rts, r.choice([0.1, 0.4, 0.8]), r.choice(bufgen.DURS)),
        "mgmt": [], "events": [], "net": bufgen.net(r), "uds": r.random() < 0.25,
        "mw": r.choice([0, 0, 1, 2]), "mwdelay": r.choice([0, 0, 0.01]),
        "_shrink": ["events", "mgmt", "msgs"],
    }
    if r.random() < 0.25:
        full = [m[2] for m in p["msgs"] if rts[m[1]].get("dto", 1)]
        p["poison"] = sorted(set(r.sample(full, min(len(full), r.randint(1, 3)))))
    if p["mw"] and r.random() < 0.4:
        p["mwraise"] = [r.choice(["before", "after"]), r.randrange(p["mw"]), r.randrange(n), 0]
    for _ in range(r.choice([0, 0, 1, 3])):
        t = round(r.uniform(0.1, T), 4)
        p["events"].append(r.choice([[t, "stall", r.uniform(0.05, 1.0)], [t, "clock", r.uniform(-4000, 4000)], [t, "reset", r.randrange(4)]]))
    for _ in range(r.choice([0, 0, 2])):
        p["mgmt"].append([round(r.uniform(0.1, T), 4), "data", r.randrange(len(rts)), None])
    return p


shrink = bufgen.shrink_bodies


def execute(plan):
    e = Buf(plan)
    w = e.w
    try:
        e.run()
        quiet = e.settle(60 + 40 * len(plan["msgs"]) * 0.35)
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    if not quiet:
        w.violate("no-progress", "the application does not come to rest")
    errors = []
    for ri, rt in enumerate(e.routes):
        res, _ = e.ask("data", ri)
        if res is None or res[0] != "ok":
            w.violate("data", f"data of {rt['name']}: {res}")
            errors.append(set())
            continue
        if res[1][0] != 0 or res[1][2] or res[1][3]:
            w.violate("not-processed", f"{rt['name']} is idle with (pending, error, receiving paused, processing paused) = {res[1]}")
        got = e.drain_errors(ri)
        if res[1][1] != len(got):
            w.violate("error-size", f"{rt['name']}: error size {res[1][1]}, entries {len(got)}")
        errors.append({k for k, _ in got})
    e.stop()
    if e.starts != 1:
        w.violate("ended", "the application ended by itself")
    verdict(e, plan, errors)
    M = e.messages()
    for ri in range(len(e.routes)):
        e.refine(ri)
    return runner.finish(w, plan, summary(e, plan, M))


def verdict(e, plan, errors):
    """Per message: exact number of attempts, where it ended, order of first attempts."""
    w = e.w
    M = e.messages()
    firsts = {}
    mwr = plan.get("mwraise") or [None, None, None]
    for k, m in sorted(M.items()):
        rt = e.routes[m["route"]]
        acked = [s for s in m["sends"] if s["status"] == 0]
        outs = [a["out"] for a in m["attempts"]]
        lim = max(1, rt["retries"])
        if any(a["r"] != m["route"] for a in m["attempts"]):
            w.violate("wrong-handler", f"message {k} of route {m['route']} was given to another handler")
        if k in e.poison:
            if outs or acked and k not in errors[m["route"]]:
                w.violate("error-queue", f"message {k}, whose stored content does not fit its type: attempts {outs}, in error queue: {k in errors[m['route']]}")
            continue
        if len(m["sends"]) == 1 and mwr[2] != k:
            if acked or outs:
                seq = [o for o, _ in plan["outc"].get(str(k), [["ok", 0]])]
                want = []
                for i in range(lim):
                    want.append(seq[min(i, len(seq) - 1)])
                    if want[-1] == "ok":
                        break
                if outs != want:
                    w.violate("attempts", f"message {k} on {rt['name']} (retries {rt['retries']}): attempts {outs}, expected {want}")
                if (k in errors[m["route"]]) != (want[-1] != "ok"):
                    w.violate("error-queue", f"message {k}: outcomes {want}, in error queue: {k in errors[m['route']]}")
        if mwr[0] == "before" and mwr[2] == k:      # the hook fails before every attempt
            if acked and (outs or k not in errors[m["route"]]):
                w.violate("error-queue", f"message {k}: its hook always raises; attempts {outs}, in error queue: {k in errors[m['route']]}")
        elif acked and not outs:
            w.violate("never-attempted", f"message {k} was acknowledged and never attempted")
        if acked and outs:
            firsts.setdefault(m["route"], []).append((min(s["i"] for s in m["sends"]), min(s["ri"] for s in acked), m["attempts"][0]["i"], k))
    for ri, xs in firsts.items():
        for inv, ret, st, k in xs:
            for inv2, ret2, st2, k2 in xs:
                if ret < inv2 and st > st2:
                    w.violate("order", f"message {k} was acknowledged before {k2} was sent, but {k2} was attempted first")


def summary(e, plan, M):
    w = e.w
    c = w.cover
    if any(len(m["attempts"]) > 1 for m in M.values()):
        c.add("retried")
    if any(m["attempts"] and m["attempts"][-1]["out"] != "ok" for m in M.values()):
        c.add("parked")
    if any(a["out"] == "raise" for m in M.values() for a in m["attempts"]):
        c.add("raised")
    if any(len(m["sends"]) > 1 for m in M.values()):
        c.add("dup")
    if any(s["status"] is None for m in M.values() for s in m["sends"]):
        c.add("unanswered")
    if e.sim.stats.get("stall"):
        c.add("stalled")
    if any(x["k"] == "mwraise" for x in e.sim.history):
        c.add("middleware-raise")
    # backlog reached
    back = peak = 0
    per = {}
    busy = set()
    for x in e.sim.history:
        if x["k"] == "send":
            per[x["r"]] = per.get(x["r"], 0) + 1
        elif x["k"] == "start":
            per[x["r"]] = per.get(x["r"], 0) - 1
            busy.add(x["r"])
            if len(busy) > 1:
                c.add("two-routes-busy")
        elif x["k"] in ("end", "cancelled"):
            busy.discard(x["r"])
        if per:
            peak = max(peak, max(per.values()))
    if any(v for v in per.values()) or peak > 2 * min(r["page"] for r in e.routes):
        c.add("several-pages")
    return {"nontrivial": peak > 1 and ("retried" in c or "parked" in c),
            "sample": {"routes": plan["routes"], "messages": len(plan["msgs"]), "events": plan["events"], "peak_backlog": peak}}
