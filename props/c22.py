"""C22: error states against a model of counters, linearizable across concurrent clients and handlers."""
import random

from sim import net as simnet, runner
from sim.core import SimLimit
from sim.world import Peer, World, span_key

TIERS = {
    "quick": {"runs": 900, "wall": 60},
    "thorough": {"runs": 40000, "wall": 900},
}
RULE = "distinct event logs of runs in which a clear met a count above zero"
REAL = ["whole application process: servers, router, endpoints, error state list and its management endpoints"]
STUB = ["network", "clocks", "raw clients"]
ASSUMPTIONS = ["an operation takes effect between its request and its response, increments where the handler made them"]
PROBES = ["clear-some", "clear-more-than-there", "clear-all", "clear-unknown", "cleared-then-raised-again", "other-case", "overlapping", "restart", "lost-response"]
IDS = ["e1", "E1", "Disk", "disk", "dÏsk", "e 2", "", "x"]
PORT = 7300


def generate(seed, tier):
    r = random.Random("c22/" + seed)
    n = r.randint(3, 40 if tier == "quick" else 90)
    T = r.choice([0.05, 0.5, 3.0])
    ids = r.sample(IDS, r.randint(1, 4))
    p = {"seed": seed, "T": T, "ops": [], "faults": [], "uds": r.random() < 0.3, "plain": r.random() < 0.5,
         "net": {"lat": r.choice([[0.00005, 0.0002], [0.0001, 0.003], [0.001, 0.05]]), "seg_p": r.choice([0, 0.3])}, "_shrink": ["faults", "ops"]}
    for i in range(n):
        t = round(r.choice([r.uniform(0, T), r.uniform(0, T), T / 2]), 4)
        k = r.choice(["inc", "inc", "inc", "get", "clear", "clear"])
        e = r.choice(ids) if r.random() < 0.95 else r.choice(IDS + ["nothing"])
        # inc: error id, how many now, wait, how many after;  clear: error id, count (0: all)
        p["ops"].append([t, k, r.randrange(3), e] + ([r.randint(0, 3), r.choice([0, 0, 0.001, 0.05]), r.randint(0, 3)] if k == "inc" else
                                                    [r.choice([0, 1, 1, 2, 3, 10])] if k == "clear" else []))
    p["ops"].sort(key=lambda o: o[0])
    for _ in range(r.choice([0, 0, 1, 2])):
        t = round(r.uniform(0, T), 4)
        p["faults"].append(r.choice([[t, "reset", r.randrange(3)], [t, "stall", r.uniform(0.01, 0.5)], [t, "term"], [t, "kill"]]))
    return p


def describe(e):
    return "" if e.upper() == "X" else f"description of {e.upper()}"


def execute(plan):
    w = World(plan, simnet.NetCfg(**plan["net"]))
    sim = w.sim
    st = {"node": None, "left": 0}
    hist = []          # [("inc", id), ...] and operations, in the order they happened in the application

    def setup(node):
        import asyncio
        from pydantic import BaseModel
        from ekosis.data_transfer_objects import EmptyDto
        from ekosis.requests.endpoint import endpoint
        from ekosis.state_keepers.error_state_list import ErrorStateList

        class Req(BaseModel):
            op: int

        @endpoint("work", Req)
        async def work(dto, **kw):
            _, _, _, e, a, d, b = plan["ops"][dto.op]
            for n in (a, b):
                for _ in range(n):
                    ErrorStateList().increment(e, describe(e))
                    sim.rec("inc", id=e.upper())
                if d and n is a and not node.crashed:
                    await asyncio.sleep(d)
            return EmptyDto()

    def start():
        if st["node"] is not None and st["node"].alive:
            return
        n = w.app("srv", setup, tcp=None if plan["uds"] else PORT, uds="srv.sock" if plan["uds"] else None)
        st["node"] = n
        sim.rec("boot")
        n.start()

    key = ("uds", f"{w.tmp}/uds/srv.sock") if plan["uds"] else ("tcp", "127.0.0.1", PORT)
    peers = [Peer(w, f"p{i}", key) for i in range(3)]

    def op(i):
        o = plan["ops"][i]
        route, data = {"inc": lambda: ("work", {"op": i}), "get": lambda: ("eco.error_states.get", {}),
                       "clear": lambda: ("eco.error_states.clear", {"error_id": o[3], "count": o[4]})}[o[1]]()
        x = sim.rec("req", op=i)

        def done(status, d, resp):
            st["left"] -= 1
            sim.rec("resp", op=i, status=status, data=d if status == 0 else str(d)[:80])
            if status is None:
                w.cover.add("lost-response")
        st["left"] += 1
        peers[o[2]].call(route, span_key(i), data, done)
        return x

    def fault(f):
        n = st["node"]
        if f[1] == "reset":
            c = w.net.live_conns()
            if c:
                w.net.reset(c[f[2] % len(c)])
        elif f[1] == "stall":
            sim.stats["stall"] += 1
            n.stalled_until = sim.now + f[2]
        elif n.alive:
            sim.stats["crash_kill" if f[1] == "kill" else "sig_TERM"] += 1
            n.crash("kill") if f[1] == "kill" else n.signal(15)
            w.cover.add("restart")
            again(n)

    def again(n):
        if n.alive:
            sim.after(0.01, again, n)
        else:
            sim.after(0.2, start)
    try:
        start()
        sim.run_until(lambda: False, 0.3, 0.3)
        for i, o in enumerate(plan["ops"]):
            sim.after(o[0], op, i)
        for f in plan["faults"]:
            sim.after(f[0], fault, f)
        sim.run_until(lambda: False, plan["T"] + 3, 1)
        sim.run_until(lambda: not st["left"], 20, 0.5)
        if st["left"]:
            w.violate("no-answer", f"{st['left']} requests were never answered")
        # what is left at the end, read and then cleared one by one, by one client
        fin = []
        for i, e in enumerate([None] + sorted({o[3].upper() for o in plan["ops"] if o[1] == "inc"}) + [None]):
            box = []
            sim.rec("req", op=-1 - i, id=e)
            peers[0].call("eco.error_states.clear" if e is not None else "eco.error_states.get", span_key(1000 + i),
                          {"error_id": e, "count": 0} if e is not None else {}, lambda s, d, r: box.append((s, d)))
            sim.run_until(lambda: box, 10, 0.05)
            if not box:
                w.violate("no-answer", "a request after the faults was never answered")
                break
            sim.rec("resp", op=-1 - i, status=box[0][0], data=box[0][1] if box[0][0] == 0 else str(box[0][1])[:80])
            fin.append(e)
        st["node"].signal(15)
        sim.run_until(lambda: not st["node"].alive, 20, 0.2)
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    nt = False
    try:
        nt = judge(w, plan, sim.history)
    except TooMany:
        sim.stats["too_many_concurrent_operations_to_follow"] += 1
    return runner.finish(w, plan, {"nontrivial": nt, "sample": {"ops": plan["ops"][:8], "faults": plan["faults"]}})


def judge(w, plan, hist):
    """Search a place for every clear and get between its request and its response, such that every response is what the counters say."""
    nt = False
    ev = [x for x in hist if x["k"] in ("req", "resp", "inc", "boot")]
    ops = {}
    for x in ev:
        if x["k"] == "req":
            i = x["op"]
            o = plan["ops"][i] if i >= 0 else [0, "clear" if x.get("id") is not None else "get", 0, x.get("id"), 0]
            if o[1] == "inc":
                continue
            if o[1] == "get" and not any(y["k"] == "resp" and y["op"] == i and y["status"] is not None for y in ev):
                continue
            ops[i] = {"kind": o[1], "id": (o[3] or "").upper() if o[1] == "clear" else None, "n": o[4] if o[1] == "clear" else None, "res": None, "done": False, "raw": o[3]}
        elif x["k"] == "resp" and x["op"] in ops:
            d = x["data"]
            if x["status"] not in (0, None):
                w.violate("error", f"{ops[x['op']]} was answered with {x['status']} {x['data']}")
            ok = x["status"] == 0
            if ok and (not isinstance(d, dict) or not isinstance(d.get("errors"), list)):
                w.violate("form", f"{ops[x['op']]} was answered {d}")
                ok = False
            ops[x["op"]]["res"] = d["errors"] if ok else None
            ops[x["op"]]["done"] = ok
    if len({o["raw"] for o in ops.values() if o["raw"]} | {x["id"] for x in ev if x["k"] == "inc"}) > len({(o["raw"] or "").upper() for o in ops.values() if o["raw"]} | {x["id"] for x in ev if x["k"] == "inc"}):
        w.cover.add("other-case")
    # states: set of (counts, pending operations not yet applied)
    states = {((), frozenset())}
    trail = []
    for x in ev:
        if x["k"] == "boot":          # nothing is kept across a restart; requests under way may still be answered
            states = {((), p) for c, p in close(states, ops)}
        elif x["k"] == "inc":
            if any((x["id"], 0) in c for c, p in states):
                w.cover.add("cleared-then-raised-again")
            states = {(bump(c, x["id"]), p) for c, p in close(states, ops)}
        elif x["k"] == "req" and x["op"] in ops:
            if any(p for _, p in states):
                w.cover.add("overlapping")
            states = {(c, p | {x["op"]}) for c, p in states}
        elif x["k"] == "resp" and x["op"] in ops and ops[x["op"]]["done"]:
            i = x["op"]
            o = ops[i]
            before = max([dict(c).get(o["id"], -1) for c, p in states])
            states = {(c, p) for c, p in close(states, ops) if i not in p}
            if o["kind"] == "clear":
                w.cover.add("clear-unknown" if before < 0 else "clear-all" if o["n"] == 0 else "clear-some" if before > o["n"] else "clear-more-than-there")
                nt = nt or before > 0
            if not states:
                w.violate("counts", f"{'clear ' + repr(o['id']) + ' ' + str(o['n']) if o['kind'] == 'clear' else 'get'} was answered {o['res']}, which no order of the operations explains; "
                                    f"before it: {trail[-12:]}")
                return nt
        trail.append((x["k"], x.get("id", x.get("op"))) if x["k"] != "resp" else ("resp", x["op"], summary(x["data"])))
    return nt


class TooMany(Exception):
    pass


def summary(d):
    if isinstance(d, dict) and isinstance(d.get("errors"), list):
        return {e.get("error_id"): e.get("count") for e in d["errors"] if isinstance(e, dict)}
    return None


def bump(c, e):
    d = dict(c)
    d[e] = d.get(e, 0) + 1
    return tuple(sorted(d.items()))


def close(states, ops):
    """All states reachable by applying pending operations; an applied operation with a known result must have that result."""
    seen = set(states)
    work = list(states)
    while work:
        c, p = work.pop()
        for i in sorted(p, key=lambda i: (ops[i]["kind"] != "get", i)):
            o = ops[i]
            d = dict(c)
            if o["kind"] == "clear" and o["id"] in d:
                d[o["id"]] = 0 if o["n"] == 0 or o["n"] >= d[o["id"]] else d[o["id"]] - o["n"]
            now = {e: k for e, k in d.items() if k}
            if o["done"] and not same(o["res"], now):
                continue
            if len(seen) > 4000:
                raise TooMany
            if o["kind"] == "get":          # it changes nothing: taking it as early as possible loses no explanation
                seen.discard((c, p))
            s = (tuple(sorted(d.items())), p - {i})
            if s not in seen:
                seen.add(s)
                work.append(s)
            if o["kind"] == "get":
                break
    return seen


def same(res, now):
    try:
        got = {e["error_id"]: e["count"] for e in res}
        return got == now and len(res) == len(now) and all(e["description"] == describe(e["error_id"]) for e in res)
    except (KeyError, TypeError):
        return False
