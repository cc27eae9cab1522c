"""C01: PaginatedQueue against a FIFO map, across reopens, page sizes, disk errors and concurrent callers."""
import random

from sim import disk, lin, runner
from sim.world import World, coro_main, span_key

TIERS = {
    "quick": {"runs": 1400, "wall": 60},
    "thorough": {"runs": 60000, "wall": 1500},
}
RULE = ("distinct (operation sequence with results) of runs in which at least one page was written to or read back from "
        "disk; conditions_reached counts runs that reached each queue layout and each failing operation kind")
REAL = ["ekosis.queues.paginated_queue", "SQLAlchemy", "SQLite (system library)", "asyncio tasks and queues of callers"]
STUB = ["disk below SQLite (in-memory VFS with injected errors)", "scheduler and clock"]
ASSUMPTIONS = ["a disk error is reported to SQLite by the operating system, not silent corruption",
               "an operation that reports a disk error has had no effect (SQLite rolls its transaction back)"]
PROBES = ["front+db+back", "reopen-with-db", "page-size-change", "fault-fired", "fault-in-pop", "fault-in-push",
          "fault-in-shut", "fault-in-open", "fault-in-clear", "dup-push", "concurrent", "first-x-beyond-front"]


def generate(seed, tier):
    r = random.Random("c01/" + seed)
    page = r.choice([1, 1, 2, 2, 3, 4, 5, 8])
    conc = r.random() < 0.25
    n = r.randint(8, 24) if conc else r.randint(12, 90 if tier == "quick" else 220)
    nkeys = r.choice([4, 12, 30, 200])
    ops = []
    live = []
    wpush = r.choice([2, 4, 8])
    for i in range(n):
        x = r.random() * (wpush + 6)
        if x < wpush:
            k = r.randrange(nkeys)
            live.append(k)
            ops.append(["push", k, i])
        elif x < wpush + 2.2:
            ops.append(["pop"])
        elif x < wpush + 2.9:
            ops.append(["popk", r.choice(live) if live and r.random() < 0.8 else r.randrange(nkeys)])
        elif x < wpush + 3.5:
            ops.append(["insp", r.choice(live) if live and r.random() < 0.8 else r.randrange(nkeys)])
        elif x < wpush + 4.2:
            ops.append(["first", r.choice([1, 2, 3, 5, 10, 50])])
        elif x < wpush + 4.8:
            ops.append(["size"])
        elif x < wpush + 5.0:
            ops.append(["empty"])
        elif x < wpush + 5.1:
            ops.append(["clear"])
        elif not conc:
            ops.append(["reopen", r.choice([1, 2, 3, 4, 5, 8]) if r.random() < 0.4 else page])
    for op in ops:                      # some runs use big or awkward contents
        if op[0] == "push":
            op.append(r.choice(["", "x", "é☃\u0000\n\"'\\", "y" * 3000, "z" * 30]) if r.random() < 0.5 else "")
    faults = []
    if r.random() < 0.6:
        for _ in range(r.randint(1, 5)):
            if ops:
                faults.append([r.randrange(len(ops)), r.choice([disk.READ, disk.WRITE, disk.SYNC, disk.TRUNC, disk.DEL,
                              disk.ANYWRITE, disk.ANYWRITE, disk.ANYWRITE | disk.READ, disk.OPEN]),
                              r.randint(1, 6), r.choice(["ioerr", "full"]), r.random() < 0.3])
    r = random.Random("c01b/" + seed)
    if faults and r.random() < 0.4:
        at = r.choice([i for i, op in enumerate(ops) if op[0] == "clear"] or [r.randrange(len(ops))])
        ops[at] = ["clear"]
        faults.append([at, r.choice([disk.WRITE, disk.SYNC, disk.ANYWRITE, disk.ANYWRITE, disk.READ, disk.OPEN]),
                       r.choice([1, 1, 2, 3]), r.choice(["ioerr", "full"]), r.random() < 0.3])
    return {"seed": seed, "page": page, "ops": ops, "faults": faults, "tasks": r.randint(2, 4) if conc else 1}


# -- reference model: a tuple of (key, value) in order
def apply(st, op):
    k = op[0]
    if k == "push":
        if any(a == op[1] for a, _ in st):
            return st, ("key", op[1])
        return st + ((op[1], (op[2], op[3])),), ("key", op[1])
    if k == "pop":
        return (st[1:], ("val",) + st[0][1]) if st else (st, None)
    if k in ("popk", "insp"):
        for i, (a, v) in enumerate(st):
            if a == op[1]:
                return (st[:i] + st[i + 1:] if k == "popk" else st), ("val",) + v
        return st, None
    if k == "first":
        return st, tuple(a for a, _ in st[:op[1]])
    if k == "size":
        return st, len(st)
    if k == "empty":
        return st, len(st) == 0
    if k == "clear":
        return (), None
    if k == "reopen":
        return st, None
    raise AssertionError(op)


def execute(plan):
    w = World(plan)
    sim = w.sim
    log = []

    def make(node):
        async def main():
            import asyncio
            from typing import Any
            from pydantic import BaseModel
            from ekosis.queues.paginated_queue import PaginatedQueue
            from ekosis.data_transfer_objects import SpanKey

            class Item(BaseModel):
                n: int
                s: str
                extra: Any = None

            keys = {}
            names = {}

            def key(i):
                if i not in keys:
                    d = span_key(f"{plan['seed']}/{i}")
                    keys[i] = SpanKey(**d)
                    names[str(keys[i])] = i
                return keys[i]
            path = f"{node.disk}q.sqlite"
            q = None
            page = plan["page"]
            by_op = {}
            for f in plan["faults"]:
                by_op.setdefault(f[0], []).append(f[1:])

            async def do(op):
                nonlocal q, page
                k = op[0]
                if k == "push":
                    r = await q.push(Item(n=op[2], s=op[3], extra={"k": [op[2], None, 1.5]}), key(op[1]))
                    return ("key", names.get(str(r), str(r)))
                if k == "pop":
                    r = await q.pop()
                elif k == "popk":
                    r = await q.pop_span_key(key(op[1]))
                elif k == "insp":
                    r = await q.inspect_span_key(key(op[1]))
                elif k == "first":
                    return tuple(names.get(x, x) for x in await q.get_first_x_span_keys(op[1]))
                elif k == "size":
                    return q.size()
                elif k == "empty":
                    return bool(q.is_empty())
                elif k == "clear":
                    await q.clear()
                    return None
                if r is None:
                    return None
                if type(r).__name__ != "Item" or r.extra != {"k": [r.n, None, 1.5]}:
                    return ("odd", repr(r))
                return ("val", r.n, r.s)

            def open_(ps):
                return PaginatedQueue(path, Item, ps)

            async def step(i, op, model_len):
                """Returns result or ('err', text); faults of this operation are active only during it."""
                nonlocal q, page
                ids = []
                for mask, cd, act, sticky in by_op.get(i, []):
                    ids.append(disk.fault(node.disk, mask, cd, disk.ACTIONS[act], 1 if sticky else 0))
                fired = 0
                try:
                    if op[0] == "reopen":
                        try:
                            if q is not None:
                                q.shut_down()
                        except Exception as e:
                            for f in ids:
                                fired += disk.fired(f)
                                disk.clear(f)
                            ids.clear()
                            if not fired:
                                raise
                            w.cover.add("fault-in-shut")
                            # the disk is fine again: the same object must still be able to save everything
                            q.shut_down()
                        try:
                            q2 = open_(op[1])
                        except Exception:
                            for f in ids:
                                fired += disk.fired(f)
                                disk.clear(f)
                            ids.clear()
                            if not fired:
                                raise
                            w.cover.add("fault-in-open")
                            q2 = open_(op[1])
                        if op[1] != page:
                            w.cover.add("page-size-change")
                        q, page = q2, op[1]
                        return None, fired
                    return await do(op), 0
                except Exception as e:
                    return ("err", f"{type(e).__name__}: {str(e)[:200]}"), 0
                finally:
                    for f in ids:
                        n = disk.fired(f)
                        disk.clear(f)
                        if n:
                            fired += n
                    step.fired = fired
                    if fired:
                        w.cover.add("fault-fired")
                        sim.stats["disk_errors"] += fired
                        if op[0] in ("pop", "push", "clear"):
                            w.cover.add(f"fault-in-{op[0]}")

            q = open_(page)
            if plan["tasks"] == 1:
                st = ()
                for i, op in enumerate(plan["ops"]):
                    before = st
                    res, _ = await step(i, op, len(st))
                    fired = step.fired
                    sim.rec("op", op=op[:2], res=res)
                    if isinstance(res, tuple) and res and res[0] == "err":
                        if not fired:
                            w.violate("error", f"op {i} {op[:2]} raised {res[1]} although the disk works; model had {len(st)} entries")
                            return
                        continue                     # raised: nothing may have changed
                    if op[0] == "push" and any(a == op[1] for a, _ in st):
                        w.cover.add("dup-push")
                    if op[0] == "first" and len(st) > page and op[1] > page:
                        w.cover.add("first-x-beyond-front")
                    if op[0] == "reopen" and len(st) > 2 * op[1]:
                        w.cover.add("reopen-with-db")
                    if len(st) > 2 * page + 1:
                        w.cover.add("front+db+back")
                    st, want = apply(st, op)
                    if res != want:
                        w.violate(f"wrong-{op[0]}", f"op {i} {op[:2]} returned {res!r}, a FIFO map returns {want!r}; "
                                  f"model before: keys {[a for a, _ in before][:40]}, page size {page}, fault fired in this op: {fired}")
                        return
                # final drain
                res = []
                if q.size() != len(st):
                    w.violate("wrong-size", f"size {q.size()} at the end, model has {len(st)}")
                while True:
                    r = await do(["pop"])
                    if r is None:
                        break
                    res.append(r)
                    if len(res) > len(st) + 5:
                        break
                want = [("val",) + v for _, v in st]
                if res != want:
                    w.violate("wrong-drain", f"drained {res[:30]!r}, a FIFO map drains {want[:30]!r}; page size {page}")
                return
            # concurrent callers
            w.cover.add("concurrent")
            ev = [0]
            hist = []

            async def caller(t):
                for i, op in enumerate(plan["ops"]):
                    if i % plan["tasks"] != t:
                        continue
                    ev[0] += 1
                    h = {"inv": ev[0], "ret": None, "op": op, "res": None}
                    hist.append(h)
                    h["res"] = await do(op)
                    ev[0] += 1
                    h["ret"] = ev[0]
                    sim.rec("op", t=t, op=op[:2], res=h["res"])
                    await asyncio.sleep(node.rng.choice([0, 0, 0.001, 0.003]))
            rs = await asyncio.gather(*[caller(t) for t in range(plan["tasks"])], return_exceptions=True)
            for e in rs:
                if isinstance(e, Exception):
                    w.violate("error", f"concurrent operation raised {type(e).__name__}: {e}")
                    return
            ev[0] += 1
            while True:
                h = {"inv": ev[0], "op": ["pop"], "res": await do(["pop"]), "ret": ev[0] + 1}
                ev[0] += 2
                hist.append(h)
                if h["res"] is None or len(hist) > 300:
                    break
            ok, _ = lin.linearizable(hist, (), apply)
            if ok is False:
                w.violate("not-linearizable", f"no order of the concurrent operations explains their results: "
                          f"{[(h['op'][:2], h['res']) for h in hist]!r}"[:1500])
            elif ok is None:
                sim.stats["linearizability_budget_exceeded"] += 1
        return main()

    node = w.app("q", None, main=coro_main(make))
    node.start()
    sim.run_until(lambda: not node.alive, 1000)
    if node.exit_exc is not None:
        w.violate("error", f"queue raised {type(node.exit_exc).__name__}: {str(node.exit_exc)[:300]}")
    shape = runner.digest([(h.get("op"), h.get("res")) for h in sim.history])
    return runner.finish(w, plan, {"shape": shape, "nontrivial": bool(w.cover & {"front+db+back", "reopen-with-db", "concurrent", "fault-fired"}),
                                   "sample": [(h.get("op"), h.get("res")) for h in sim.history[:12]]})
