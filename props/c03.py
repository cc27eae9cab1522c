"""C03: graceful termination at any instant loses nothing."""
import random

from sim import bufgen, disk, runner
from sim.buffered import Buf
from sim.core import SimLimit

TIERS = {
    "quick": {"runs": 900, "wall": 90},
    "thorough": {"runs": 40000, "wall": 1500},
}
RULE = ("distinct event logs of runs in which a termination (signal or exception) hit an application that had work in its queues or in "
        "hand; conditions_reached counts runs by where the termination struck")
REAL = ["whole application process: ApplicationBase, signal handling, servers, router, buffered handlers, queues, SQLAlchemy, SQLite"]
STUB = ["network", "disk under SQLite (in-memory VFS, injected errors)", "clocks", "raw clients", "delivery of POSIX signals (handler called "
        "between two source lines, or when the loop wakes)"]
ASSUMPTIONS = ["handlers do not swallow their cancellation", "a signal is delivered between two source lines of the application",
               "the disk takes writes at shut-down, except where a fault on one queue is part of the run (then only the others are judged)"]
PROBES = ["signal-idle", "signal-during-attempt", "signal-with-backlog", "second-signal", "signal-at-line", "signal-in-start-up",
          "exception-end", "disk-error-at-shutdown", "disk-error-at-start", "page-size-change", "cancelled-attempt", "sender-queue"]
BOUND = 8.0


def generate(seed, tier):
    r = random.Random("c03/" + seed)
    rts = bufgen.routes(r, senders=0.3)
    n = r.randint(3, 22 if tier == "quick" else 36)
    T = r.choice([0.6, 2.0, 5.0])
    p = {
        "seed": seed, "routes": rts, "T": T + 1.0,
        "msgs": bufgen.messages(r, rts, n, T, dup=r.choice([0, 0, 0.15]), burst=r.choice([0.3, 0.7, 0.95])),
        "outc": bufgen.outcomes(r, n, rts, r.choice([0.1, 0.5, 0.9]), r.choice(bufgen.DURS)),
        "mgmt": [], "events": [], "on_start": {}, "net": bufgen.net(r), "uds": r.random() < 0.25,
        "mw": r.choice([0, 0, 1, 2]), "mwdelay": r.choice([0, 0.01, 0.05]), "cleanup": r.choice([0, 0, 0.05, 0.7]),
        "restart": r.choice([0.01, 0.3, 1.0]), "_shrink": ["events", "mgmt", "msgs"],
    }
    if r.random() < 0.3:
        p["pages_by_inc"] = [[r.choice([1, 2, 3, 5]) for _ in rts] for _ in range(3)]
    if r.random() < 0.12:
        p["exc"] = round(r.uniform(0.05, T), 4)
    sigs = ["TERM", "INT", "HUP"]
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        t = round(r.uniform(0.02, T), 4)
        if r.random() < 0.45:
            m = r.choice(p["msgs"])
            t = round(max(0.0, m[0] + r.choice([0, 0.0002, 0.001, 0.003, 0.01, 0.05, 0.2])), 5)
        x = r.random()
        if x < 0.45:
            p["events"].append([t, "sig", r.choice(sigs)])
            while r.random() < 0.35:
                p["events"].append([round(t + r.choice([0, 0.00003, 0.0002, 0.002, 0.1]), 6), "sig", r.choice(sigs)])
        elif x < 0.9:
            p["events"].append([t, "linesig", r.choice(sigs), int(10 ** r.uniform(0, 3.2))])
        else:
            p["on_start"][str(r.randint(1, 3))] = [["linesig", r.choice(sigs), int(10 ** r.uniform(1.5, 3.6))]]
    if r.random() < 0.2:
        t = max(0.0, r.choice(p["events"])[0] - r.choice([0, 0.001, 0.1])) if p["events"] else 0.3
        p["events"].append([round(t, 5), "diskerr", r.randrange(len(rts)), r.choice(["pending", "error"]),
                            disk.ANYWRITE, 1, r.choice(["ioerr", "full"]), 1])
    elif r.random() < 0.25:
        p["on_start"].setdefault(str(r.randint(2, 3)), []).append(["starterr", r.choice([disk.OPEN, disk.READ, disk.ANYWRITE, disk.ANYWRITE | disk.READ]),
                                                                  int(10 ** r.uniform(0, 2.0)), r.choice(["ioerr", "full"])])
    for _ in range(r.choice([0, 0, 0, 3])):
        p["mgmt"].append([round(r.uniform(0.1, T), 4), r.choice(["reall", "re1", "ppp", "unpp", "prp", "unrp", "data"]), r.randrange(len(rts)), r.randrange(n)])
    return p


shrink = bufgen.shrink_bodies


def execute(plan):
    e = Buf(plan)
    w = e.w
    try:
        e.run()
        e.settle(60 + 20 * len(plan["msgs"]))
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    bad = {ev[2] for ev in plan["events"] if ev[1] == "diskerr" and ev[0] <= plan["T"]}
    errors = []
    for ri, rt in enumerate(e.routes):
        if not e.node.alive:
            w.violate("no-restart", "the application does not stay up after the last restart")
            break
        e.ask("unpp", ri)
    e.settle(60 + 20 * len(plan["msgs"]))
    for ri, rt in enumerate(e.routes):
        res, _ = e.ask("data", ri)
        if res is None or res[0] != "ok":
            w.violate("data", f"data of {rt['name']}: {res}")
            return runner.finish(w, plan)
        if res[1][0] != 0:
            w.violate("not-processed", f"{rt['name']} is idle with (pending, error, receiving paused, processing paused) = {res[1]}")
        errors.append({k for k, _ in e.drain_errors(ri)})
    e.stop(BOUND)
    terminations(e, plan)
    M = e.messages()
    e.conserve(M, errors, skip_routes=bad)
    touched = {g[3] for g in plan["mgmt"]} if any(g[1] == "re1" for g in plan["mgmt"]) else set()
    reall = any(g[1] == "reall" for g in plan["mgmt"])
    for k, m in M.items():
        if m["route"] in bad or len(m["sends"]) > 1 or reall or k in touched:
            continue
        outs = [a["out"] for a in m["attempts"] if a["out"] not in ("cancelled", "running")]
        lim = max(1, e.routes[m["route"]]["retries"])
        if "ok" in outs[:-1] or len(outs) > lim:
            w.violate("attempts", f"message {k} on {e.routes[m['route']]['name']} (retries {lim}): attempts {outs}")
        if outs and outs[-1] not in ("ok", "park") and len(outs) < lim:
            w.violate("retry-count", f"message {k} on {e.routes[m['route']]['name']}: only {outs} of {lim} attempts were made before it was parked")
    for ri in range(len(e.routes)):
        if ri not in bad:
            e.refine(ri)
    return runner.finish(w, plan, summary(e, plan, M))


def terminations(e, plan):
    """Every end of the application has a cause, and comes within the bound of its signal."""
    w = e.w
    cause = None
    up = False
    for x in e.sim.history:
        k = x["k"]
        if k in ("signal", "bomb", "starterr") or k == "linefault":
            if cause is None:
                cause = x
        elif k == "up":
            up = True
            if cause and cause["k"] == "starterr":
                cause = None
        elif k == "exit" and x["node"] == "srv":
            if cause is None and not (not up and any(ev[1] == "diskerr" for ev in plan["events"])):
                w.violate("ended", f"the application ended by itself at {x['t']}")
            elif cause and x["t"] - cause["t"] > BOUND:
                w.violate("slow-termination", f"signal at {cause['t']}, end at {x['t']}")
            if x["how"] == "exit" and x.get("exc"):
                w.violate("shutdown-exception", f"the application ended with {x['exc']} instead of an orderly exit")
            cause = None
            up = False


def summary(e, plan, M):
    w, c = e.w, e.w.cover
    pend = 0
    att = None
    up = False
    nsig = 0
    hit = False
    for x in e.sim.history:
        k = x["k"]
        if k == "resp" and x["status"] == 0:
            pend += 1
        elif k == "start":
            att = x
        elif k == "end":
            att = None
            if x["ok"]:
                pend -= 1
        elif k == "cancelled":
            c.add("cancelled-attempt")
            att = None
        elif k == "up":
            up, nsig = True, 0
        elif k == "exit":
            up = False
            if x["how"] == "exit" and pend > 0:
                hit = True
        elif k in ("signal", "linefault", "bomb") and not x.get("final"):
            nsig += 1
            if nsig == 2:
                c.add("second-signal")
            if k == "bomb":
                c.add("exception-end")
            if k == "linefault":
                c.add("signal-at-line")
                c.add("line:" + x["at"].split(":")[1].split(".")[-1])
            if not up:
                c.add("signal-in-start-up")
            elif att:
                c.add("signal-during-attempt")
            elif pend > 0:
                c.add("signal-with-backlog")
            else:
                c.add("signal-idle")
    if any(r.get("kind") for r in plan["routes"]):
        c.add("sender-queue")
    if any(ev[1] == "diskerr" for ev in plan["events"]):
        c.add("disk-error-at-shutdown")
    if e.sim.stats.get("disk_fault_at_start"):
        c.add("disk-error-at-start")
    if plan.get("pages_by_inc") and e.starts > 1:
        c.add("page-size-change")
    return {"nontrivial": hit, "sample": {"routes": plan["routes"], "messages": len(plan["msgs"]), "events": plan["events"], "on_start": plan["on_start"],
                                          "lives": e.starts}}
