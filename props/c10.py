"""C10: management endpoints against a model of two ordered maps per queue."""
import random

from sim import bufgen, runner
from sim.buffered import Buf
from sim.core import SimLimit

TIERS = {
    "quick": {"runs": 900, "wall": 90},
    "thorough": {"runs": 40000, "wall": 1500},
}
RULE = "distinct event logs of runs in which a management operation found or changed something in an error queue"
REAL = ["whole application process: servers, router, management endpoints, keepers, buffered handlers and senders, queues, SQLAlchemy, SQLite"]
STUB = ["network", "disk under SQLite (in-memory VFS)", "clocks", "raw clients", "the client object of buffered senders (scripted outcomes)"]
ASSUMPTIONS = ["an operation takes effect between its request and its response"]
PROBES = ["inspect-hit", "pop-hit", "re1-hit", "reall-hit", "clear-hit", "first10-full", "unknown-queue", "unknown-key", "sender-queue", "while-attempt-runs",
          "reprocessed-again", "restart"]
OPS = ["data", "first10", "inspect", "inspect", "pop", "pop", "clear", "re1", "re1", "reall"]


def generate(seed, tier):
    r = random.Random("c10/" + seed)
    rts = bufgen.routes(r, senders=0.35)
    n = r.randint(4, 26 if tier == "quick" else 44)
    T = r.choice([1.0, 3.0, 6.0])
    p = {
        "seed": seed, "routes": rts, "T": T + 1.0,
        "msgs": bufgen.messages(r, rts, n, T * 0.7, dup=r.choice([0, 0, 0.15]), burst=r.choice([0.3, 0.8])),
        "outc": bufgen.outcomes(r, n, rts, r.choice([0.5, 0.8, 1.0]), r.choice(bufgen.DURS)),
        "mgmt": [], "events": [], "net": bufgen.net(r), "uds": r.random() < 0.2,
        "mw": r.choice([0, 0, 1]), "mwdelay": r.choice([0, 0.02]),
        "_shrink": ["events", "mgmt", "msgs"],
    }
    if r.random() < 0.3:
        p["pages_by_inc"] = [[r.choice([1, 2, 3, 5]) for _ in rts] for _ in range(3)]
    for _ in range(r.randint(2, 22)):
        m = r.choice(p["msgs"])
        op = r.choice(OPS)
        t = m[0] + r.choice([0, 0.001, 0.05, 0.4, 1.0]) if r.random() < 0.5 else r.uniform(0.02, T)
        k = (m[2] if r.random() < 0.8 else r.randrange(n + 3)) if op in ("inspect", "pop", "re1") else None
        route = m[1] if r.random() < 0.85 else r.randrange(len(rts))
        if r.random() < 0.06:
            route = r.choice(["nowhere", "", "A", "enq.a", "eco.statistics.get", "s!nowhere", "s!"] + [("" if q.get("kind") else "s!") + q["name"] for q in rts])
        p["mgmt"].append([round(max(0.01, t), 5), op, route, k, r.choice([900, 900, 901, 902])])
    for _ in range(r.choice([0, 0, 0, 1])):
        t = round(r.uniform(0.1, T), 4)
        p["events"].append(r.choice([[t, "sig", "TERM"], [t, "sig", "HUP"], [t, "stall", r.uniform(0.05, 0.6)]]))
    return p


shrink = bufgen.shrink_bodies


def execute(plan):
    e = Buf(plan)
    w = e.w
    for g in plan["mgmt"]:
        if g[3] is not None:
            e.sk(g[3])
    try:
        e.run()
        errors = e.last_phase()
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    if errors is None:
        return runner.finish(w, plan)
    for x in e.sim.history:
        if x["k"] == "mresp" and x["res"] is not None:
            if not isinstance(x["r"], int):
                w.cover.add("unknown-queue")
                if tuple(x["res"]) != ("none",):
                    w.violate("unknown-queue", f"{x['op']} on unknown queue {x['r']!r} was answered with {x['res']}")
            elif x["res"][0] not in ("ok", "nokey"):
                w.violate("management-answer", f"{x['op']} on {e.routes[x['r']]['name']} key {x['key']} was answered with {x['res']}")
    for ri in range(len(e.routes)):
        e.refine(ri)
    M = e.messages()
    pop, clr = e.popped()
    e.conserve(M, errors, removed=pop, lost_ok=lambda k, m: m["route"] in clr)
    return runner.finish(w, plan, summary(e, plan))


def summary(e, plan):
    c = e.w.cover
    if any(r.get("kind") for r in e.routes):
        c.add("sender-queue")
    act = set()
    re = {}
    parked = {}
    nt = False
    for x in e.sim.history:
        k = x["k"]
        if k == "mresp" and x["res"] and x["t"] <= plan["T"]:
            op, res = x["op"], x["res"]
            if res[0] == "nokey":
                c.add("unknown-key")
            elif res[0] == "ok":
                if op in ("inspect", "pop", "re1"):
                    c.add(op + "-hit")
                    nt = True
                if op == "re1":
                    re[x["key"]] = re.get(x["key"], 0) + 1
                    if re[x["key"]] > 1:
                        c.add("reprocessed-again")
                if op == "first10" and len(res[1]) == 10:
                    c.add("first10-full")
                if op == "first10" and res[1]:
                    nt = True
                if op in ("reall", "clear") and parked.get(x["r"]):
                    c.add(op + "-hit")
                    nt = True
                    parked[x["r"]] = 0
                if act:
                    c.add("while-attempt-runs")
        elif k == "start":
            act.add(x["r"])
        elif k in ("end", "cancelled"):
            act.discard(x["r"])
            if k == "end" and not x["ok"]:
                parked[x["r"]] = parked.get(x["r"], 0) + 1
        elif k == "exit" and e.starts > 1:
            c.add("restart")
    return {"nontrivial": nt, "sample": {"routes": plan["routes"], "messages": len(plan["msgs"]), "management": plan["mgmt"][:8], "events": plan["events"]}}
