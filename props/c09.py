"""C09: pauses stop exactly what they name, until an unpause or a restart."""
import random

from sim import bufgen, runner
from sim.buffered import Buf
from sim.core import SimLimit

TIERS = {
    "quick": {"runs": 900, "wall": 90},
    "thorough": {"runs": 40000, "wall": 1500},
}
RULE = ("distinct event logs of runs in which a pause took effect while there was traffic or backlog on the paused queue")
REAL = ["whole application process: servers, router, management endpoints, buffered handlers, buffered senders and clients, queues, SQLite"]
STUB = ["network", "disk under SQLite (in-memory VFS)", "clocks", "raw clients", "the server a buffered sender talks to (scripted peer)"]
ASSUMPTIONS = ["a pause is in force from its response on; a request overlapping it may fall on either side"]
PROBES = ["refused-busy", "accepted-while-processing-paused", "pause-during-attempt", "error-ops-while-paused", "restart-while-paused",
          "two-queues", "sender-queue", "unpause-works-off"]
PAUSES = ["prp", "unrp", "ppp", "unpp", "pall", "unpall"]


def generate(seed, tier):
    r = random.Random("c09/" + seed)
    rts = bufgen.routes(r, senders=0.35)
    n = r.randint(3, 20 if tier == "quick" else 36)
    T = r.choice([0.6, 2.0, 5.0])
    p = {
        "seed": seed, "routes": rts, "T": T + 1.0,
        "msgs": bufgen.messages(r, rts, n, T, dup=r.choice([0, 0, 0.15]), burst=r.choice([0.2, 0.6])),
        "outc": bufgen.outcomes(r, n, rts, r.choice([0.1, 0.5, 0.9]), r.choice(bufgen.DURS)),
        "mgmt": [], "events": [], "net": bufgen.net(r), "uds": r.random() < 0.2,
        "mw": r.choice([0, 0, 1, 2]), "mwdelay": r.choice([0, 0.01, 0.1]),
        "_shrink": ["events", "mgmt", "msgs"],
    }
    for _ in range(r.randint(1, 12)):
        m = r.choice(p["msgs"])
        t = m[0] + r.choice([-0.2, -0.01, 0, 0.0003, 0.001, 0.02, 0.2]) if r.random() < 0.6 else r.uniform(0.02, T)
        op = r.choice(PAUSES + ["ppp", "prp", "ppp"]) if r.random() < 0.65 else r.choice(["reall", "re1", "clear", "pop", "inspect", "data", "first10"])
        p["mgmt"].append([round(max(0.01, t), 5), op, m[1] if r.random() < 0.7 else r.randrange(len(rts)), r.randrange(n) if op in ("re1", "pop", "inspect") else None,
                          r.choice([900, 900, 901])])
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        t = round(r.uniform(0.1, T), 4)
        p["events"].append(r.choice([[t, "sig", "TERM"], [t, "stall", r.uniform(0.05, 0.6)], [t, "reset", r.randrange(4)]]))
    return p


shrink = bufgen.shrink_bodies


def execute(plan):
    e = Buf(plan)
    w = e.w
    try:
        e.run()
        errors = e.last_phase()
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    if errors is None:
        return runner.finish(w, plan)
    pauses(e)
    for ri in range(len(e.routes)):
        e.refine(ri)
    M = e.messages()
    pop, clr = e.popped()
    e.conserve(M, errors, removed=pop, lost_ok=lambda k, m: m["route"] in clr)
    return runner.finish(w, plan, summary(e, plan))


def pauses(e):
    """Direct checks between the response of a pause and the next request that could end it."""
    w = e.w
    for ri, rt in enumerate(e.routes):
        rp = pp = None              # event index since when the pause is surely in force
        openm = {}
        un = {"r": -1, "p": -1}     # last response of an unpause
        mw = e.plan.get("mw", 0) if rt.get("kind") != "sender" else 0
        sends = {}
        for x in e.sim.history:
            k = x["k"]
            if k == "mreq" and x["r"] == ri:
                openm[x["i"]] = x["op"]
                if x["op"] in ("unrp", "unpall"):
                    rp = None
                if x["op"] in ("unpp", "unpall"):
                    pp = None
            elif k == "mresp" and x["of"] in openm:
                op = openm.pop(x["of"])
                if op in ("unrp", "unpall"):
                    un["r"] = x["i"]
                if op in ("unpp", "unpall"):
                    un["p"] = x["i"]
                if x["res"] and x["res"][0] == "ok":
                    undo = set(openm.values())
                    if op in ("prp", "pall") and not undo & {"unrp", "unpall"} and un["r"] < x["of"]:
                        rp = x["i"]
                    if op in ("ppp", "pall") and not undo & {"unpp", "unpall"} and un["p"] < x["of"]:
                        pp = (x["i"], x["t"])
            elif k == "exit":
                rp = pp = None
                openm = {}
            elif k == "send" and x["r"] == ri:
                sends[x["i"]] = rp
            elif k == "resp" and x["r"] == ri:
                s = sends[x["of"]]
                if s is not None and rp == s and x["status"] not in (500, None):
                    w.violate("accepted-while-paused", f"receiving on {rt['name']} was paused when request {x['key']} was sent, and it was answered with {x['status']}")
                if x["status"] == 500:
                    w.cover.add("refused-busy")
            elif (k == "bproc" and x["i_"] == 0 or k == "start" and not mw) and e.route_of(x) == ri and pp is not None and x["t"] - pp[1] >= rt.get("wait", 0):
                w.violate("attempt-while-paused", f"an attempt at {x['key']} on {rt['name']} began at t={x['t']} although processing was paused since event {pp[0]}")


def summary(e, plan):
    c = e.w.cover
    if any(r.get("kind") for r in e.routes):
        c.add("sender-queue")
    pp, rp = set(), set()
    act = {}
    nt = False
    for x in e.sim.history:
        k = x["k"]
        if k == "mresp" and x["res"] and x["res"][0] == "ok" and isinstance(x["r"], int):
            op = x["op"]
            if op in ("ppp", "pall"):
                pp.add(x["r"])
                if act.get(x["r"]) is not None:
                    c.add("pause-during-attempt")
                if x["res"][1][0]:
                    nt = True
            if op in ("prp", "pall"):
                rp.add(x["r"])
            if op in ("unpp", "unpall"):
                pp.discard(x["r"])
                if x["res"][1][0]:
                    c.add("unpause-works-off")
            if op in ("unrp", "unpall"):
                rp.discard(x["r"])
            if op in ("reall", "re1", "clear", "pop") and (x["r"] in pp or x["r"] in rp):
                c.add("error-ops-while-paused")
            if len(pp | rp) > 1:
                c.add("two-queues")
        elif k == "resp" and x["status"] == 0 and x["r"] in pp:
            c.add("accepted-while-processing-paused")
            nt = True
        elif k == "resp" and x["status"] == 500:
            nt = True
        elif k == "start":
            act[x["r"]] = x["key"]
        elif k in ("end", "cancelled"):
            act[x["r"]] = None
        elif k == "exit" and (pp or rp):
            c.add("restart-while-paused")
            pp, rp = set(), set()
    return {"nontrivial": nt, "sample": {"routes": plan["routes"], "messages": len(plan["msgs"]), "management": plan["mgmt"][:8], "events": plan["events"]}}
