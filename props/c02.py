"""C02: crashes (kill or power loss) at any instant lose at most the RAM pages of a queue."""
import random

from sim import bufgen, disk, linefault, runner
from sim.buffered import Buf
from sim.core import SimLimit
from sim.world import World, coro_main, span_key

TIERS = {
    "quick": {"runs": 1000, "wall": 90},
    "thorough": {"runs": 50000, "wall": 1500},
}
RULE = ("distinct event logs of runs in which a crash hit a queue that held messages; conditions_reached counts runs by crash kind "
        "and by the code line at which a line-level crash struck")
REAL = ["PaginatedQueue, SQLAlchemy, SQLite with its journal (queue mode); whole application process (application mode)"]
STUB = ["disk under SQLite (in-memory VFS: unsynced writes lost, kept or torn at power loss; crash inside a disk operation)", "network", "clocks",
        "process kill (between two source lines or inside a disk operation)", "raw clients"]
ASSUMPTIONS = ["a synced write survives power loss; an unsynced one survives whole, torn at a sector, or not at all",
               "creation and deletion of files are durable when they return (SQLite syncs the directory)",
               "no silent corruption of synced data"]
PROBES = ["kill", "power", "crash-in-disk-op", "crash-at-line", "queue-mode", "app-mode", "db-survivors", "lost-some", "lost-none", "second-crash", "crash-at-start"]


def generate(seed, tier):
    r = random.Random("c02/" + seed)
    return gen_queue(r, seed, tier) if r.random() < 0.5 else gen_app(r, seed, tier)


# ---------------------------------------------------------------- application mode
def gen_app(r, seed, tier):
    rts = bufgen.routes(r, hi=2, senders=0.2)
    for x in rts:
        x["page"] = r.choice([1, 1, 2, 2, 3])
    n = r.randint(4, 30 if tier == "quick" else 50)
    T = r.choice([0.6, 2.0, 4.0])
    p = {
        "seed": seed, "routes": rts, "T": T + 1.0,
        "msgs": bufgen.messages(r, rts, n, T, dup=0, burst=r.choice([0.3, 0.8, 0.95])),
        "outc": bufgen.outcomes(r, n, rts, r.choice([0.05, 0.3, 0.7]), r.choice([[0], [0, 0.02], [0.02, 0.1, 0.3], [0.3, 0.6]])),
        "mgmt": [], "events": [], "on_start": {}, "net": bufgen.net(r), "uds": r.random() < 0.15,
        "restart": r.choice([0.05, 0.5]), "_shrink": ["events", "mgmt", "msgs"],
    }
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        t = round(r.uniform(0.02, T), 4)
        if r.random() < 0.5:
            t = round(r.choice(p["msgs"])[0] + r.choice([0, 0.0003, 0.001, 0.02, 0.2]), 5)
        x = r.random()
        if x < 0.25:
            p["events"].append([t, "kill"])
        elif x < 0.4:
            p["events"].append([t, "power"])
        elif x < 0.62:
            p["events"].append([t, "linekill", int(10 ** r.uniform(0, 3.2)), r.random() < 0.4])
        elif x < 0.92:
            p["events"].append([t, "diskcrash", r.choice([disk.WRITE, disk.SYNC, disk.ANYWRITE, disk.ANYWRITE, disk.DEL | disk.TRUNC]), int(10 ** r.uniform(0, 1.6)),
                                r.choice(["crash_before", "crash_torn", "crash_after"]), r.random() < 0.5])
        else:
            p["on_start"][str(r.randint(2, 3))] = [["linekill", int(10 ** r.uniform(2, 3.6)), r.random() < 0.4]] if r.random() < 0.5 else \
                [["diskcrash", disk.ANYWRITE, int(10 ** r.uniform(0, 1.3)), r.choice(["crash_before", "crash_torn", "crash_after"]), r.random() < 0.5]]
    if r.random() < 0.2:
        p["events"].append([round(r.uniform(0.1, T), 4), "sig", "TERM"])
    return p


def shrink(plan):
    if "routes" in plan:
        yield from bufgen.shrink_bodies(plan)
        return
    for i, l in enumerate(plan["lives"]):
        n = len(l["ops"])
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                if l["arm"] < a or l["arm"] >= a + size:
                    ops = l["ops"][:a] + l["ops"][a + size:]
                    yield dict(plan, lives=plan["lives"][:i] + [dict(l, ops=ops, arm=l["arm"] - size if l["arm"] >= a + size else l["arm"])] + plan["lives"][i + 1:])
            size //= 2


def execute(plan):
    return run_app(plan) if "routes" in plan else run_queue(plan)


def run_app(plan):
    e = Buf(plan)
    w = e.w
    w.cover.add("app-mode")
    try:
        e.run()
        errors = e.last_phase()
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    if errors is None:
        return runner.finish(w, plan)
    crashes = 0
    lives = 0
    caused = False
    for x in e.sim.history:
        if x["k"] in ("signal",):
            caused = True
        elif x["k"] == "exit" and x["node"] == "srv":
            if x["how"] == "exit" and not caused:
                w.violate("no-reopen", f"the application did not stay up after a crash (it ended by itself at {x['t']} with {x.get('exc')})")
            if x["how"] != "exit":
                crashes += 1
                w.cover.add("power" if x["how"] == "power" else "kill")
            caused = False
            lives += 1
        elif x["k"] == "linefault":
            w.cover.add("crash-at-line")
    M = e.messages()
    lost = {}
    firsts = {}
    for k, m in sorted(M.items(), key=lambda q: str(q[0])):
        rt = e.routes[m["route"]]
        lim = max(1, rt["retries"])
        acked = [s for s in m["sends"] if s["status"] == 0]
        outs = [a["out"] for a in m["attempts"]]
        if "ok" in outs[:-1]:
            w.violate("reprocessed", f"message {k} on {rt['name']} was completed and then attempted again: {[(a['out'], a['inc']) for a in m['attempts']]}")
        fails = [o for o in outs if o not in ("ok", "running", "cancelled")]
        if len(fails) > lim:
            w.violate("attempts", f"message {k} on {rt['name']} failed {len(fails)} times, the limit is {lim}: {[(a['out'], a['inc']) for a in m['attempts']]}")
        if "ok" in outs and k in errors[m["route"]]:
            w.violate("resurrected", f"message {k} on {rt['name']} was completed and is in the error queue")
        if acked and "ok" not in outs and k not in errors[m["route"]]:
            parked = len(fails) >= lim or "park" in outs
            lost.setdefault((m["route"], "error" if parked else "pending"), []).append(k)
        if acked and outs:
            firsts.setdefault(m["route"], []).append((m["sends"][0]["i"], acked[0]["ri"], m["attempts"][0]["i"], k))
    for (ri, which), ks in lost.items():
        bound = crashes * (2 * e.routes[ri]["page"] + 1)
        w.cover.add("lost-some")
        if len(ks) > bound:
            w.violate("lost-too-many", f"{crashes} crashes cost {len(ks)} messages of the {which} queue of {e.routes[ri]['name']} (page {e.routes[ri]['page']}, "
                      f"allowed {bound}): {ks}")
    if not lost and crashes:
        w.cover.add("lost-none")
    for ri, xs in firsts.items():
        for inv, ret, st, k in xs:
            for inv2, ret2, st2, k2 in xs:
                if ret < inv2 and st > st2:
                    w.violate("order", f"message {k} was acknowledged before {k2} was sent, but {k2} was attempted first")
    if e.sim.stats.get("crash_in_disk_op"):
        w.cover.add("crash-in-disk-op")
    if crashes > 1:
        w.cover.add("second-crash")
    return runner.finish(w, plan, {"nontrivial": crashes > 0 and bool(M), "sample": {"routes": plan["routes"], "messages": len(plan["msgs"]), "events": plan["events"],
                                                                                 "lost": {str(k): v for k, v in lost.items()}}})


# ---------------------------------------------------------------- queue mode
def gen_queue(r, seed, tier):
    page = r.choice([1, 2, 2, 3, 4, 5])
    lives = []
    nk = 0
    for _ in range(r.randint(1, 4)):
        ops = []
        known = list(range(nk))
        w = r.choice([2, 5, 9])
        for _ in range(r.randint(4, 40 if tier == "quick" else 80)):
            x = r.random() * (w + 4)
            if x < w:
                ops.append(["push", nk])
                known.append(nk)
                nk += 1
            elif x < w + 2.5:
                ops.append(["pop"])
            elif x < w + 3.6:
                ops.append(["popk", r.choice(known) if known else 0])
            elif x < w + 3.7:
                ops.append(["clear"])
            else:
                ops.append(["first", r.choice([1, 5, 30])])
        how = r.choice(["end", "end", "line", "line", "disk", "disk", "disk", "clean"])
        c = {"ops": ops, "how": how, "power": r.random() < 0.5, "page": page if r.random() < 0.8 else r.choice([1, 2, 3, 5])}
        c["arm"] = -1 if r.random() < 0.25 else r.randrange(len(ops))
        if how == "line":
            c["count"] = int(10 ** r.uniform(0, 3.3 if c["arm"] < 0 else 2.6))
        if how == "disk":
            c["fault"] = [r.choice([disk.WRITE, disk.SYNC, disk.ANYWRITE, disk.ANYWRITE, disk.DEL | disk.TRUNC, disk.READ]), int(10 ** r.uniform(0, 1.7)),
                          r.choice(["crash_before", "crash_torn", "crash_after"])]
        lives.append(c)
    return {"seed": seed, "lives": lives, "big": r.random() < 0.15, "_shrink": ["lives"]}


def model(st, op):
    k = op[0]
    if k == "push":
        return st if op[1] in st else st + [op[1]]
    if k == "pop":
        return st[1:]
    if k == "popk":
        return [x for x in st if x != op[1]]
    if k == "clear":
        return []
    return st


def subseq(a, b):
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


def run_queue(plan):
    w = World(plan)
    sim = w.sim
    w.cover.add("queue-mode")
    names = {}
    cur = {"st": [], "op": None, "listed": None, "got": None}

    def arm(node, life):
        if life["how"] == "line":
            w.line_kill(node, life["count"], life["power"])
        elif life["how"] == "disk":
            disk.fault(node.disk, life["fault"][0], life["fault"][1], disk.ACTIONS[life["fault"][2]], 0)

    def make_life(life, last):
        def make(node):
            async def main():
                from pydantic import BaseModel
                from ekosis.queues.paginated_queue import PaginatedQueue
                from ekosis.data_transfer_objects import SpanKey

                class Item(BaseModel):
                    n: int
                    s: str = ""
                keys = {}

                def key(i):
                    if i not in keys:
                        keys[i] = SpanKey(**span_key(f"{plan['seed']}/{i}"))
                        names[str(keys[i])] = i
                    return keys[i]

                def content(i):
                    return "y" * 2500 if plan["big"] and i % 3 == 0 else f"s{i}"
                cur["op"] = ["open"]
                q = PaginatedQueue(f"{node.disk}q.sqlite", Item, life["page"])
                for l in plan["lives"]:
                    for op in l["ops"]:
                        if len(op) > 1 and op[0] != "first":
                            key(op[1])
                listed = [names.get(x, x) for x in await q.get_first_x_span_keys(100000)]
                cur["listed"] = listed
                if q.size() != len(listed):
                    w.violate("size", f"after reopening, size() is {q.size()} and {len(listed)} keys are listed")
                sim.rec("open", keys=listed)
                judge(listed)
                for i, op in enumerate(life["ops"]):
                    if life.get("arm") == i and not last:
                        arm(node, life)
                    cur["op"] = op
                    if op[0] == "push":
                        await q.push(Item(n=op[1], s=content(op[1])), key(op[1]))
                    elif op[0] == "first":
                        await q.get_first_x_span_keys(op[1])
                    elif op[0] == "clear":
                        await q.clear()
                    else:
                        x = await (q.pop() if op[0] == "pop" else q.pop_span_key(key(op[1])))
                        want = (cur["st"][:1] if op[0] == "pop" else [op[1]] if op[1] in cur["st"] else [])
                        got = [] if x is None else [x.n]
                        if got != want or x is not None and x.s != content(x.n):
                            w.violate("wrong-pop", f"{op} returned {x!r:.200}, the surviving queue was {cur['st'][:30]}")
                    cur["st"] = model(cur["st"], op)
                    cur["op"] = None
                    sim.rec("op", op=op)
                if last:
                    out = []
                    while True:
                        x = await q.pop()
                        if x is None:
                            break
                        out.append(x.n)
                        if x.s != content(x.n):
                            w.violate("content", f"message {x.n} came back as {x!r:.200}")
                        if len(out) > 10000:
                            break
                    if out != cur["st"]:
                        w.violate("wrong-pop", f"drained {out[:40]}, the surviving queue was {cur['st'][:40]}")
                    return
                if life["how"] == "clean":
                    cur["op"] = ["shut"]
                    q.shut_down()
                    cur["op"] = ["closed"]
            return main()
        return make

    def judge(listed):
        """The keys found after a crash against the states before and after the operation that was interrupted."""
        before = cur["st"]
        op = cur.get("interrupted")
        prev = cur.get("prev_page")
        if prev is None:
            if listed:
                w.violate("ghost", f"a new queue lists {listed}")
        elif cur.get("crashed"):
            cands = [before]
            if op is not None and op[0] in ("push", "pop", "popk", "clear"):
                cands.append(model(before, op))
            fit = [c for c in cands if subseq(listed, c)]
            if not fit:
                w.violate("survivors", f"after a crash in {op} the queue lists {listed[:40]}, it held {before[:40]}")
            elif not any(len(c) - len(listed) <= 2 * prev + (1 if op else 0) for c in fit):
                w.violate("lost-too-many", f"a crash in {op} cost {len(before) - len(listed)} of {len(before)} messages, page size {prev}")
            if listed:
                w.cover.add("db-survivors")
            w.cover.add("lost-none" if listed == before else "lost-some")
        elif listed != before:
            w.violate("clean-loss", f"after a clean shut-down the queue lists {listed[:40]}, it held {before[:40]}")
        cur["st"] = list(listed)
        cur["op"] = None

    lives = plan["lives"]
    crashes = 0
    guard = 0
    todo = [(l, i == len(lives)) for i, l in enumerate(lives + [{"ops": [], "how": "end", "power": False, "page": lives[-1]["page"] if lives else 2}])]
    for life, last in todo:
        node = w.app("q", None, main=coro_main(make_life(life, last)))
        node.env["crash_power"] = life["power"] and not last
        if not last:
            if life["arm"] < 0:
                arm(node, life)
        cur["listed"] = None
        node.start()
        sim.run_until(lambda: not node.alive, 1000)
        linefault.disarm()
        disk.clear_all()
        died = node.crashed
        if node.exit_exc is not None and not died:
            w.violate("error", f"queue raised {type(node.exit_exc).__name__}: {str(node.exit_exc)[:300]} in {cur['op']}")
            break
        if w.violations:
            break
        sim.run_for(0.01)
        op = cur["op"]
        if last:
            break
        clean = op == ["closed"]
        if not died and not clean:
            # the process ended without closing the queue: a kill after the last operation
            if life["power"]:
                w.lose_unsynced(node)
                w.cover.add("power")
            else:
                w.cover.add("kill")
        elif died:
            w.cover.add("crash-in-disk-op" if life["how"] == "disk" else "crash-at-line")
            w.cover.add("power" if life["power"] else "kill")
            if op == ["open"]:
                w.cover.add("crash-at-start")
        if not clean:
            crashes += 1
            if crashes > 1:
                w.cover.add("second-crash")
        if op == ["open"] and not clean:
            # crashed while opening: what had been saved may have been in RAM again; nothing was listed, so the older bound stays
            cur["crashed"] = True
            cur["interrupted"] = op
            cur["prev_page"] = max(cur.get("prev_page") or 0, life["page"]) if cur.get("prev_page") is not None else life["page"]
            cur["opens"] = cur.get("opens", 0) + 1
            if cur["opens"] > 0:
                cur["prev_page"] = cur["prev_page"] * 2
            continue
        cur["opens"] = 0
        cur["crashed"] = not clean
        cur["interrupted"] = op if op not in (None, ["closed"]) else None
        cur["prev_page"] = life["page"]
    return runner.finish(w, plan, {"nontrivial": crashes > 0 and len(sim.history) > 3,
                                   "sample": {"lives": [(l["how"], l["power"], l["page"], len(l["ops"])) for l in lives], "crashes": crashes}})
