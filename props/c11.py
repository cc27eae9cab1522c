"""C11: content, span key, metadata, retry number and middleware hooks of every attempt."""
import random

from sim import bufgen, runner
from sim.buffered import Buf
from sim.core import SimLimit

TIERS = {
    "quick": {"runs": 800, "wall": 90},
    "thorough": {"runs": 40000, "wall": 1500},
}
RULE = "distinct event logs of runs in which some message was attempted more than once (retry, reprocess or restart) with middleware installed"
REAL = ["whole application process: servers, router, buffered handlers, buffered middleware manager, queues, SQLAlchemy, SQLite (pickled entries)"]
STUB = ["network", "disk under SQLite (in-memory VFS)", "clocks", "raw clients"]
ASSUMPTIONS = ["hooks of a middleware that raises are judged only for order"]
PROBES = ["retry", "reprocess", "restart-with-pending", "paged", "mutating-handler", "concurrent-push-hooks", "middleware-raise", "no-metadata", "stats-of-hooks"]


def generate(seed, tier):
    r = random.Random("c11/" + seed)
    rts = bufgen.routes(r)
    n = r.randint(3, 20 if tier == "quick" else 36)
    T = r.choice([1.0, 3.0, 6.0])
    p = {
        "seed": seed, "routes": rts, "T": T + 1.0,
        "msgs": bufgen.messages(r, rts, n, T * 0.7, dup=0, burst=r.choice([0.3, 0.8, 0.95]), conns=r.choice([1, 4])),
        "outc": bufgen.outcomes(r, n, rts, r.choice([0.4, 0.7, 0.9]), r.choice(bufgen.DURS), kinds=("fail", "raise", "none", "mutate", "mutate")),
        "mgmt": [], "events": [], "net": bufgen.net(r), "uds": r.random() < 0.2,
        "mw": r.choice([0, 1, 2, 3]), "mwdelay": r.choice([0, 0.01, 0.05]),
        "_shrink": ["events", "mgmt", "msgs"],
    }
    if p["mw"] and r.random() < 0.1:
        p["mwraise"] = [r.choice(["before", "after"]), r.randrange(p["mw"]), r.randrange(n), 0]
    if r.random() < 0.3:
        p["pages_by_inc"] = [[r.choice([1, 2, 3, 5]) for _ in rts] for _ in range(3)]
    for _ in range(r.choice([0, 1, 3, 6])):
        p["mgmt"].append([round(r.uniform(0.1, T), 5), r.choice(["reall", "re1", "re1", "inspect"]), r.randrange(len(rts)), r.randrange(n), 900])
        if p["mgmt"][-1][1] == "reall":
            p["mgmt"][-1][3] = None
    for _ in range(r.choice([0, 0, 1, 2])):
        p["events"].append([round(r.uniform(0.1, T), 4), "sig", r.choice(["TERM", "INT", "HUP"])])
    return p


shrink = bufgen.shrink_bodies


def execute(plan):
    e = Buf(plan)
    w = e.w
    try:
        e.run()
        errors = e.last_phase()
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    if errors is None:
        return runner.finish(w, plan)
    hooks(e, plan)
    return runner.finish(w, plan, summary(e, plan))


def expected_meta(plan, k):
    md = {}
    for i in range(plan["mw"]):
        if (i + k) % 5:
            md.update({f"m{i}": f"meta-{k}", "last": i})
    return md


def hooks(e, plan):
    """Per message: the sequence bproc* start end aproc*, with what each of them was given."""
    w, mw = e.w, plan["mw"]
    mwr = plan.get("mwraise") or [None, None, None]
    per = {}
    for x in e.sim.history:
        if x["k"] in ("bpush", "bproc", "start", "end", "cancelled", "aproc", "mwraise"):
            per.setdefault(x["key"], []).append(x)
        elif x["k"] == "exit":
            for v in per.values():
                v.append(x)
    for k, xs in per.items():
        if not isinstance(k, int):
            w.violate("span-key", f"an event carries the unknown span key {k}")
            continue
        ri = e.body[k][0]
        lim = max(1, e.routes[ri]["retries"])
        md = expected_meta(plan, k)
        push = [x["i_"] for x in xs if x["k"] == "bpush"]
        if push != list(range(mw))[:len(push)] or (len(push) < mw and not any(x["k"] == "exit" for x in xs)):
            w.violate("push-hooks", f"message {k}: before_push ran for middlewares {push}, installed are {mw}")
        fails = 0
        seq = []
        att = None
        odd = mwr[2] == k

        def close(why):
            nonlocal seq, att, fails
            if not seq:
                return
            b = [x["i_"] for x in seq if x["k"] == "bproc"]
            a = [x["i_"] for x in seq if x["k"] == "aproc"]
            st = [x for x in seq if x["k"] == "start"]
            en = [x for x in seq if x["k"] == "end"]
            cut = why == "exit" or any(x["k"] == "cancelled" for x in seq)
            kinds = [x["k"] for x in seq if x["k"] != "mwraise"]
            order = sorted(kinds, key=lambda q: {"bproc": 0, "start": 1, "end": 2, "cancelled": 2, "aproc": 3}[q])
            if kinds != order or b != list(range(len(b))) or a != list(range(len(a))):
                w.violate("hook-order", f"message {k}: hooks ran as {[(x['k'], x.get('i_')) for x in seq]}")
            elif not cut and not odd and (len(b) != mw or len(a) != mw or len(st) != 1 or len(en) != 1):
                w.violate("hook-count", f"message {k}: hooks ran as {[(x['k'], x.get('i_')) for x in seq]} with {mw} middlewares")
            for x in seq:
                if x["k"] == "bproc" and x["retries"] != fails and not odd:
                    w.violate("retries", f"message {k}: before_process was told {x['retries']} failed attempts, there were {fails}")
                if x["k"] in ("bproc", "aproc") and x["md"] != md:
                    w.violate("metadata", f"message {k}: {x['k']} got metadata {x['md']}, collected was {md}")
                if x["k"] == "aproc" and not odd and en and bool(x["success"]) != en[0]["ok"]:
                    w.violate("hook-outcome", f"message {k}: after_process was told {x['success']!r}, the outcome was {en[0]['out']}")
            if en or any(x["k"] == "mwraise" for x in seq):
                if en and en[0]["ok"]:
                    fails = 0
                else:
                    fails = (fails + 1) % lim if fails + 1 >= lim else fails + 1
            seq = []
        for x in xs:
            if x["k"] == "bpush":
                continue
            if x["k"] == "exit":
                close("exit")
                continue
            first = x["k"] == "bproc" and x["i_"] == 0 or x["k"] == "start" and not mw
            if first:
                close("next")
            seq.append(x)
        close("end")
        e.w.cover.add("stats-of-hooks")


def summary(e, plan):
    c = e.w.cover
    M = e.messages()
    if any(len(m["attempts"]) > 1 for m in M.values()):
        c.add("retry")
    for k, m in M.items():
        incs = {a["inc"] for a in m["attempts"]}
        if len(incs) > 1:
            c.add("restart-with-pending")
        if any(a["out"] == "mutate" for a in m["attempts"][:-1]):
            c.add("mutating-handler")
        if plan["mw"] and not expected_meta(plan, k if isinstance(k, int) else 0):
            c.add("no-metadata")
    for x in e.sim.history:
        if x["k"] == "mresp" and x["op"] in ("re1", "reall") and x["res"] and x["res"][0] == "ok":
            c.add("reprocess")
        if x["k"] == "mwraise":
            c.add("middleware-raise")
    b = 0
    per = {}
    keys = []
    for x in e.sim.history:
        if x["k"] == "bpush":
            keys.append(x["key"])
        if x["k"] == "resp" and x["status"] == 0:
            per[x["r"]] = per.get(x["r"], 0) + 1
        if x["k"] == "end" and x["ok"]:
            per[x["r"]] = per.get(x["r"], 0) - 1
        if per and max(per.values()) > 2 * min(r["page"] for r in e.routes):
            c.add("paged")
    if plan["mw"] > 1 and any(keys[i] == keys[i + 2] != keys[i + 1] for i in range(len(keys) - 2)):
        c.add("concurrent-push-hooks")
    return {"nontrivial": plan["mw"] > 0 and "retry" in c,
            "sample": {"routes": plan["routes"], "messages": len(plan["msgs"]), "mw": plan["mw"], "management": plan["mgmt"][:6], "events": plan["events"]}}
