"""C20: the LRU cache, shared by the tasks of an application, against a model that is told every operation in the order it takes effect."""
import gc
import random
import weakref
from collections import OrderedDict

from sim import core, runner
from sim.core import SimLimit
from sim.world import World, coro_main

TIERS = {
    "quick": {"runs": 2500, "wall": 60},
    "thorough": {"runs": 100000, "wall": 900},
}
RULE = "distinct event logs of runs in which something was evicted or removed and operations followed"
REAL = ["ekosis.cacheing", "asyncio"]
STUB = ["clock, task scheduling"]
ASSUMPTIONS = ["used by the tasks of one event loop (there is no locking)", "keys are immutable, the capacity is one or more", "what an iteration gives while others change the cache is not judged"]
PROBES = ["evicted", "evicted-after-removal", "capacity-one", "filled-again-after-clear", "stampede", "cancelled-load", "unhashable", "lookup-saved-from-eviction", "peek-did-not-save", "iteration-under-change", "pop-newest"]


class Miss:
    def __repr__(self):
        return "nothing"


MISS = Miss()


class Odd:
    """A key that can not be hashed, or not always."""
    def __init__(self, fail):
        self.fail = fail

    def __hash__(self):
        raise ValueError("no hash") if self.fail else TypeError("unhashable")


def key_of(k):
    return [0, 1, 2, "3", "four", (5, "5"), None, "", 8.5, frozenset([9]), -1, True][k]


class V:
    __slots__ = ("n", "__weakref__")

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        raise RuntimeError("values are not for comparing")
    __hash__ = None

    def __bool__(self):
        return self.n % 3 != 0

    def __repr__(self):
        return f"V{self.n}"


def generate(seed, tier):
    r = random.Random("c20/" + seed)
    caps = [r.choice([1, 1, 2, 2, 3, 4, 8]) for _ in range(r.choice([1, 1, 2]))]
    n_keys = r.choice([2, 4, 6, 12])
    mix = r.choice([{"load": 6, "get": 3, "set": 3}, {"set": 5, "get": 3, "peek": 2, "pop_item": 1, "pop": 1, "del": 1, "item": 2, "in": 1, "items": 1, "clear": 0.3, "load": 2, "iter": 0.5, "odd": 0.4},
                    {"set": 4, "pop": 2, "pop_item": 3, "clear": 1, "get": 2, "del": 2}])
    p = {"seed": seed, "caps": caps, "tasks": [], "cancel": [], "_shrink": ["cancel", "tasks"]}
    for t in range(r.randint(1, 6)):
        ops = []
        for _ in range(r.randint(1, 25 if tier == "quick" else 80)):
            k = r.choices(list(mix), list(mix.values()))[0]
            ops.append([r.choice([0, 0, 0, 0.001, 0.01, -1]), k, r.randrange(len(caps)), r.randrange(n_keys), r.choice([0, 0.001, 0.02])])
        p["tasks"].append(ops)
    for _ in range(r.choice([0, 0, 1, 3])):
        p["cancel"].append([round(r.uniform(0, 0.1), 5), r.randrange(len(p["tasks"]))])
    return p


def shrink(plan):
    for i, ops in enumerate(plan["tasks"]):
        n = len(ops)
        for size in (n // 2, n // 4, 1):
            if size:
                for a in range(0, n, size):
                    yield dict(plan, tasks=plan["tasks"][:i] + [ops[:a] + ops[a + size:]] + plan["tasks"][i + 1:])


class Model:
    """The most recently used entry is last."""
    def __init__(self, cap):
        self.cap, self.d = cap, OrderedDict()

    def set(self, k, v):
        self.d[k] = v
        self.d.move_to_end(k)
        return self.d.popitem(last=False)[0] if len(self.d) > self.cap else MISS

    def get(self, k, default):
        if k not in self.d:
            return default
        self.d.move_to_end(k)
        return self.d[k]

    def pop(self):
        return self.d.popitem() if self.d else None

    def order(self):
        return list(reversed(self.d.items()))


def same(a, b):
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return a is b or (not isinstance(a, V) and not isinstance(b, V) and a == b)


def execute(plan):
    w = World(plan)
    sim = w.sim
    st = {"n": 0, "alive": [], "done": 0}
    tasks = []

    def make(node):
        async def main():
            import asyncio
            from ekosis.cacheing import LRUCache
            caches = [LRUCache(c) for c in plan["caps"]]
            models = [Model(c) for c in plan["caps"]]
            touched = [{} for _ in caches]     # key -> how it was used last before it would have been evicted
            removed = [False] * len(caches)
            loading = [set() for _ in caches]

            def new(c):
                st["n"] += 1
                v = V(st["n"])
                st["alive"].append((weakref.ref(v), v.n))
                return v

            def op(what, c, f, g):
                """One operation on cache and model."""
                try:
                    a = f()
                except Exception as x:
                    a = (type(x).__name__, "raised")
                try:
                    b = g()
                except Exception as x:
                    b = (type(x).__name__, "raised")
                sim.rec("op", what=what, cache=c, got=repr(a)[:60])
                if not same(a, b):
                    w.violate("answer", f"{what} on the cache of {plan['caps'][c]} gives {a!r}, and should give {b!r}")
                audit(c, what)
                return a

            def audit(c, what):
                m, x = models[c], caches[c]
                try:
                    got = (len(x), list(x.items()), list(x.keys()), list(x.values()), list(iter(x)))
                except Exception as e:
                    w.violate("contents", f"after {what} going over the cache of {plan['caps'][c]} gives {type(e).__name__}: {e}")
                    return
                o = m.order()
                want = (len(o), o, [k for k, _ in o], [v for _, v in o], [k for k, _ in o])
                if not same(got, want):
                    w.violate("contents", f"after {what} the cache of {plan['caps'][c]} holds {got[0]}: {got[1]!r} by use, keys {got[2]!r}; it should hold {o!r}")

            def put(c, k):
                v = new(c)
                full = len(models[c].d) == models[c].cap and k not in models[c].d
                oldest = next(iter(models[c].d), None)

                def f():
                    caches[c][k] = v

                def g():
                    models[c].set(k, v)
                op(f"setting {k!r}", c, f, g)
                if full:
                    w.cover.add("evicted")
                    if removed[c]:
                        w.cover.add("evicted-after-removal")
                    if touched[c].pop(("peek", oldest), None):
                        w.cover.add("peek-did-not-save")
                    if any(t[0] == "get" for t in touched[c]):
                        w.cover.add("lookup-saved-from-eviction")
                    touched[c].clear()
                if plan["caps"][c] == 1:
                    w.cover.add("capacity-one")

            async def run(i, ops):
                for wait, kind, c, kn, d in ops:
                    if wait == 0:
                        await asyncio.sleep(0)
                    elif wait > 0:
                        await asyncio.sleep(wait)
                    x, m, k = caches[c], models[c], key_of(kn)
                    oldest = next(iter(m.d), MISS)
                    if kind == "set":
                        put(c, k)
                    elif kind == "load":
                        if op(f"get {k!r}", c, lambda: x.get(k, MISS), lambda: m.get(k, MISS)) is MISS:
                            if k in loading[c]:
                                w.cover.add("stampede")
                            loading[c].add(k)
                            try:
                                await asyncio.sleep(d)
                            except asyncio.CancelledError:
                                w.cover.add("cancelled-load")
                                raise
                            finally:
                                loading[c].discard(k)
                            put(c, k)
                    elif kind == "get":
                        if k in m.d and k == oldest and len(m.d) > 1:
                            touched[c][("get", k)] = True
                        op(f"get {k!r}", c, lambda: x.get(k), lambda: m.get(k, None))
                    elif kind == "item":
                        op(f"cache[{k!r}]", c, lambda: x[k], lambda: m.get(k, None) if k in m.d else m.d[k])
                    elif kind == "peek":
                        if k in m.d and k == oldest:
                            touched[c][("peek", k)] = True
                        op(f"peek {k!r}", c, lambda: x.peek(k, "none"), lambda: m.d.get(k, "none"))
                    elif kind == "in":
                        op(f"{k!r} in", c, lambda: k in x, lambda: k in m.d)
                    elif kind == "pop_item":
                        removed[c] = removed[c] or k in m.d
                        op(f"pop_item {k!r}", c, lambda: x.pop_item(k, "none"), lambda: m.d.pop(k, "none"))
                    elif kind == "del":
                        removed[c] = removed[c] or k in m.d

                        def f():
                            del x[k]

                        def g():
                            m.d.pop(k, None)
                        if k in m.d:
                            op(f"del {k!r}", c, f, g)
                    elif kind == "pop":
                        removed[c] = removed[c] or bool(m.d)
                        if len(m.d) > 1:
                            w.cover.add("pop-newest")
                        op("pop", c, x.pop, m.pop)
                    elif kind == "clear":
                        if removed[c] == "cleared" and m.d:
                            w.cover.add("filled-again-after-clear")
                        removed[c] = "cleared"
                        op("clear", c, x.clear, m.d.clear)
                    elif kind == "items":
                        audit(c, "nothing")
                    elif kind == "odd":
                        w.cover.add("unhashable")
                        o = Odd(kn % 2)
                        want = (("ValueError" if kn % 2 else "TypeError"), "raised")

                        def f():
                            x[o] = 1
                        op("a key without hash", c, [f, lambda: x.get(o), lambda: x.peek(o), lambda: x.pop_item(o), lambda: o in x][kn % 5], lambda: want)
                    elif kind == "iter":
                        w.cover.add("iteration-under-change")
                        n = 0
                        try:
                            for _ in x.keys():
                                n += 1
                                if n > 1000:
                                    w.violate("endless", "going over a cache that others change does not end")
                                    break
                                await asyncio.sleep(0)
                        except (RuntimeError, AttributeError):
                            pass
                st["done"] += 1

            for i, ops in enumerate(plan["tasks"]):
                tasks.append(asyncio.create_task(run(i, ops)))
            loop = asyncio.get_running_loop()
            for t, i in plan["cancel"]:
                if i < len(tasks):
                    loop.call_later(t, tasks[i].cancel)
            for x in await asyncio.gather(*tasks, return_exceptions=True):
                if isinstance(x, Exception):
                    raise x
            x = None
            # what is no longer in a cache is no longer anywhere
            held = {v.n for m in models for v in m.d.values()}
            tasks.clear()
            gc.collect()
            left = sorted(n for ref, n in st["alive"] if ref() is not None and n not in held)
            if left:
                w.violate("kept", f"{len(left)} values that are no longer in a cache are still held, e.g. number {left[0]}")
            st["over"] = True
        return main()

    node = core.Node(sim, "app", coro_main(make), ["/sim/app.py", "-i", "0", "-lfo"], {"ECOENV_LOG_DIR": f"{w.tmp}/log", "ECOENV_LOCK_DIR": f"{w.tmp}/lock"})
    node.start()
    try:
        sim.run_until(lambda: not node.alive, 200.0, 1.0)
    except SimLimit as x:
        w.violate("endless", str(x))
        return runner.finish(w, plan)
    if not st.get("over") and not w.violations:
        x = node.exit_exc
        raise RuntimeError(f"the tasks did not end: {type(x).__name__}: {x}")
    return runner.finish(w, plan, {"nontrivial": bool(w.cover & {"evicted", "pop-newest"}), "sample": {"caps": plan["caps"], "tasks": [t[:4] for t in plan["tasks"][:2]]}})
