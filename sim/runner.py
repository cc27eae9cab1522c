"""Batch runner: seeded runs in forked children, minimisation, replay, evidence."""
import gc
import hashlib
import importlib
import json
import os
import re
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from random import Random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_LIMIT = 60.0          # real seconds for one simulated run before it is re-examined as a hang
_t = time.time            # real clocks, captured before patching
_mono = time.monotonic


def digest(obj):
    text = re.sub(r"0x[0-9a-f]{6,}", "0x", json.dumps(obj, sort_keys=True, default=str))
    return hashlib.sha256(text.encode()).hexdigest()[:24]


class Batch:
    def __init__(self, prop, mod, workers, scratch):
        self.prop, self.mod, self.workers, self.scratch = prop, mod, workers, scratch
        self.live = {}

    # -- one child
    def spawn(self, plan, tag, limit=RUN_LIMIT):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_REAL, limit)
                os.setpgid(0, 0)
                gc.disable()
                if not os.environ.get("VERIF_DEBUG"):
                    dn = os.open(os.devnull, os.O_RDWR)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                res = run_plan(self.mod, plan)
                out = json.dumps(res, default=str).encode()
            except BaseException as e:     # noqa
                out = json.dumps({"harness": "".join(traceback.format_exception(e))}).encode()
            try:
                mv = memoryview(out)
                while mv:
                    n = os.write(w, mv)
                    mv = mv[n:]
            finally:
                os._exit(0)
        os.close(w)
        self.live[r] = [pid, tag, plan, bytearray(), _mono()]

    def pump(self, timeout=1.0):
        """Collect finished children: list of (tag, plan, result)."""
        done = []
        if not self.live:
            return done
        rd, _, _ = select.select(list(self.live), [], [], timeout)
        for fd in rd:
            ent = self.live[fd]
            b = os.read(fd, 1 << 20)
            if b:
                ent[3] += b
                continue
            os.close(fd)
            del self.live[fd]
            _, st = os.waitpid(ent[0], 0)
            if ent[3]:
                try:
                    res = json.loads(ent[3].decode())
                except ValueError:
                    res = {"harness": f"truncated result, status {st}"}
            elif os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
                res = {"hang": True}
            elif getattr(self.mod, "NATIVE", False) and os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                res = {"violations": [{"cls": "native-crash", "msg": f"the program was ended by signal {os.WTERMSIG(st)} ({signal.Signals(os.WTERMSIG(st)).name})"}],
                       "digest": digest(["native-crash", os.WTERMSIG(st)]), "trace_tail": []}
            else:
                res = {"harness": f"child ended with status {st} and no result"}
            res["wall"] = _mono() - ent[4]
            shutil.rmtree(os.path.join(self.scratch, f"vsim-{ent[0]:08d}"), ignore_errors=True)
            done.append((ent[1], ent[2], res))
        return done

    def kill_all(self):
        for fd, ent in list(self.live.items()):
            try:
                os.kill(ent[0], signal.SIGKILL)
            except OSError:
                pass
            os.close(fd)
            os.waitpid(ent[0], 0)
            shutil.rmtree(os.path.join(self.scratch, f"vsim-{ent[0]:08d}"), ignore_errors=True)
        self.live.clear()

    def run_many(self, plans, limit=RUN_LIMIT):
        """Results of several plans, in order."""
        out = [None] * len(plans)
        i = 0
        while i < len(plans) or self.live:
            while i < len(plans) and len(self.live) < self.workers:
                self.spawn(plans[i], i, limit)
                i += 1
            for tag, _p, res in self.pump():
                out[tag] = res
        return out


def run_plan(mod, plan):
    """Execute one plan in this process (a pure function of plan and code)."""
    plan = json.loads(json.dumps(plan))
    plan["_tmp"] = os.environ.get("VERIF_SCRATCH", "/tmp")
    t0 = _mono()
    try:
        res = mod.execute(plan)
    except Exception as e:
        from .world import World
        w = World.last            # what has been found is reported, also when the rest of the history can not be judged
        if w is None or not w.violations:
            raise
        res = finish(w, plan, {"unjudged": "".join(traceback.format_exception(e))[-800:]})
    res["run_wall"] = _mono() - t0
    return res


def classes_of(res):
    if res.get("hang"):
        return ["hang"]
    return [v["cls"] for v in res.get("violations", [])]


# ---------------------------------------------------------------------------
def default_shrink(plan):
    """Candidate smaller plans: drop slices of each list in plan['lists'] keys, then single items."""
    for key in plan.get("_shrink", ["faults", "ops"]):
        items = plan.get(key) or []
        n = len(items)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                cand = dict(plan)
                cand[key] = items[:start] + items[start + size:]
                if len(cand[key]) < n:
                    yield cand
            size //= 2


def minimise(batch, mod, plan, cls, budget):
    end = _mono() + budget
    best = plan
    shrink = getattr(mod, "shrink", None)
    tried = 0
    progress = True
    while progress and _mono() < end:
        progress = False
        gens = [default_shrink(best)]
        if shrink:
            gens.append(shrink(best))
        for g in gens:
            while _mono() < end:
                cands = []
                for c in g:
                    cands.append(c)
                    if len(cands) >= batch.workers:
                        break
                if not cands:
                    break
                tried += len(cands)
                rs = batch.run_many(cands)
                hit = next((c for c, r in zip(cands, rs) if r and "harness" not in r and cls in classes_of(r)), None)
                if hit is not None:
                    best = hit
                    progress = True
                    break
            if progress:
                break
    return best, tried


# ---------------------------------------------------------------------------
def load_known():
    """known-findings.txt: 'finding: property=<id> class=<cls> | <what>' and 'fixed: ...' lines."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, what = line[len("finding:"):].partition("|")
                kv = dict(x.split("=", 1) for x in head.split())
                out.append((kv["property"], kv["class"], what.strip()))
    return out


def setup_zygote(prop):
    os.environ.setdefault("VERIF_SCRATCH", tempfile.mkdtemp(prefix="vsim-", dir="/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None))
    scratch = os.environ["VERIF_SCRATCH"]
    from . import disk, loader, loop
    so = disk.build(scratch)
    # third-party code is loaded once; the code under test is loaded per simulated process
    import asyncio, pydantic, sqlalchemy, sqlalchemy.orm, statistics, argparse, logging.handlers, platform, multiprocessing  # noqa
    from sqlalchemy.dialects.sqlite import pysqlite  # noqa
    disk.load(so)
    loader.precompile()
    loader.install()
    mod = importlib.import_module(f"props.{prop.lower()}")
    if hasattr(mod, "prepare"):
        mod.prepare(scratch)
    logging.lastResort = None
    logging.getLogger("asyncio").disabled = True
    loop.install_patches()
    gc.collect()
    gc.freeze()
    return mod, scratch


def seeds_for(base, n):
    for i in range(n):
        yield f"{base}.{i}"


def check(prop, tier, only_runs=None):
    t0 = _mono()
    base = int(os.environ.get("VERIF_SEED", "1"))
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    mod, scratch = setup_zygote(prop)
    rc = 2
    try:
        rc = _check(prop, tier, base, workers, mod, scratch, t0, only_runs)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def _check(prop, tier, base, workers, mod, scratch, t0, only_runs):
    cfg = mod.TIERS[tier]
    runs = only_runs or cfg["runs"]
    wall_cap = cfg["wall"]
    batch = Batch(prop, mod, workers, scratch)
    known = [(c, w) for p, c, w in load_known() if p == prop]
    stats, cover, digests, classes = Counter(), Counter(), set(), Counter()
    nontrivial = set()
    first = {}
    samples = []
    n_done = 0
    sim_time = 0.0
    steps = 0
    harness = []
    hangs = []
    known_hit = {}
    i = 0
    plans = iter(seeds_for(base, runs))
    exhausted = False
    stop_at = None
    truncated = False
    while True:
        while not exhausted and len(batch.live) < workers and stop_at is None:
            s = next(plans, None)
            if s is None:
                exhausted = True
                break
            if _mono() - t0 > wall_cap:
                exhausted = True
                truncated = True
                break
            batch.spawn(mod.generate(s, tier), s)
            i += 1
        if not batch.live:
            break
        if stop_at is not None and _mono() > stop_at:
            batch.kill_all()
            break
        for tag, plan, res in batch.pump():
            n_done += 1
            if "harness" in res:
                harness.append((tag, res["harness"]))
                if len(harness) > 5:
                    stop_at = _mono()
                continue
            if res.get("hang"):
                hangs.append((tag, plan))
                stop_at = stop_at or _mono() + 20
                continue
            stats.update(res.get("stats", {}))
            sim_time += res.get("sim_time", 0)
            steps += res.get("steps", 0)
            d = res.get("digest")
            new = d not in digests
            digests.add(d)
            if res.get("nontrivial", True):
                nontrivial.add(res.get("shape") or d)
            for c in res.get("cover", []):
                cover[c] += 1
            if new and len(samples) < 3 and res.get("sample"):
                samples.append({"seed": tag, "case": res["sample"]})
            for v in res.get("violations", []):
                k = next((w for c, w in known if c == v["cls"]), None)
                if k is not None:
                    known_hit[v["cls"]] = k
                    continue
                classes[v["cls"]] += 1
                if v["cls"] not in first:
                    first[v["cls"]] = (tag, plan, v["msg"])
                    stop_at = stop_at or _mono() + cfg.get("grace", 5)
    # hangs: confirm with a longer limit, alone
    for tag, plan in hangs[:2]:
        r = batch.run_many([plan], RUN_LIMIT * 2)[0]
        if r.get("hang"):
            first.setdefault("hang", (tag, plan, f"run did not finish in {RUN_LIMIT * 2} s of real time (typical: well below 1 s)"))
            classes["hang"] += 1
        elif r.get("violations"):
            v = r["violations"][0]
            first.setdefault(v["cls"], (tag, plan, v["msg"]))
    wall_explore = _mono() - t0
    for w in sorted(set(known_hit.values())):
        print(f"KNOWN-FINDING: property={prop} {w}")
    # findings that need their own directed run
    if hasattr(mod, "directed_findings") and not first:
        for cls, plan, what in mod.directed_findings():
            r = batch.run_many([plan])[0]
            if cls in classes_of(r):
                if any(c == cls for c, _ in known):
                    print(f"KNOWN-FINDING: property={prop} {what}")
                else:
                    first[cls] = ("directed", plan, r["violations"][0]["msg"])
                    classes[cls] += 1
    rc = 0
    if first:
        rc = 1
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for k, (cls, (tag, plan, msg)) in enumerate(sorted(first.items())):
            if k >= 3:
                break
            tried = 0
            mini = plan
            if cls != "hang":
                mini, tried = minimise(batch, mod, plan, cls, cfg.get("minimise", 40) / (k + 1))
            r = batch.run_many([mini], RUN_LIMIT * 2)[0]
            m2 = next((v["msg"] for v in r.get("violations", []) if v["cls"] == cls), msg)
            path = os.path.join(VERIF, "replays", f"{prop}-{cls}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": tag, "class": cls, "message": m2, "plan": mini,
                           "original_size": plan_size(plan), "minimised_size": plan_size(mini), "candidates_tried": tried,
                           "digest": r.get("digest"), "trace": r.get("trace_tail", [])}, f, indent=1, default=str)
            print(f"class={cls} seed={tag} steps {plan_size(plan)} -> {plan_size(mini)}: {m2}")
            print(f"VIOLATION property={prop} replay={path}")
    if harness and rc == 0:
        rc = 2
    for tag, h in harness[:3]:
        print(f"HARNESS-ERROR seed={tag}\n{h}", file=sys.stderr)
    wall = _mono() - t0
    ev = {
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": n_done,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples or [{"note": "no sample"}],
            "distinct_executions_by_event_log_hash": len(digests),
            "runs_per_hour": int(n_done / max(wall_explore, 0.001) * 3600),
            "simulated_seconds": round(sim_time, 3),
            "scheduler_steps": steps,
            "faults_and_events_fired": dict(sorted(stats.items())),
            "conditions_reached": dict(sorted(cover.items())),
            "real_components": mod.REAL,
            "stubbed_components": mod.STUB,
            "truncated_by_wall_cap": truncated,
            "violation_classes": dict(classes),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(first),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier}: {n_done} runs, {len(digests)} distinct, {len(nontrivial)} non-trivial, "
          f"{sim_time:.0f} simulated s, {wall:.1f} s, violations={dict(classes)} harness={len(harness)}")
    missing = [c for c in getattr(mod, "PROBES", []) if not cover.get(c)]
    if missing and rc == 0 and not truncated:
        print(f"note: conditions not reached in this batch: {missing}")
    return rc


def plan_size(plan):
    return sum(len(plan.get(k) or []) for k in plan.get("_shrink", ["faults", "ops"]))


def replay(path):
    rep = json.load(open(path))
    prop = rep["property"]
    mod, scratch = setup_zygote(prop)
    try:
        batch = Batch(prop, mod, 1, scratch)
        r = batch.run_many([rep["plan"]], RUN_LIMIT * 2)[0]
        if "harness" in r:
            print(r["harness"], file=sys.stderr)
            return 2
        hit = [v for v in r.get("violations", []) if v["cls"] == rep["class"]]
        if r.get("hang") and rep["class"] == "hang":
            hit = [{"msg": rep["message"]}]
        if hit:
            same = r.get("digest") == rep["digest"]
            print(f"class={rep['class']}: {hit[0]['msg']}\nevent log identical to the recorded one: {same}")
            print(f"VIOLATION property={prop} replay={os.path.abspath(path)}")
            return 1
        print(f"{prop}: the recorded schedule no longer violates the property; violations now: {r.get('violations')}")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def determinism(prop, n):
    """Print one event-log digest per seed (compared across processes by tools/determinism.sh)."""
    base = int(os.environ.get("VERIF_SEED", "1"))
    mod, scratch = setup_zygote(prop)
    try:
        batch = Batch(prop, mod, int(os.environ.get("VERIF_WORKERS", "8")), scratch)
        plans = [mod.generate(s, "quick") for s in seeds_for(base, n)]
        for s, r in zip(seeds_for(base, n), batch.run_many(plans)):
            print(s, r.get("digest"), ",".join(classes_of(r)), "H" if "harness" in r else "")
            if "harness" in r:
                print(r["harness"], file=sys.stderr)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


def finish(world, plan, extra=None):
    """Standard result of a run."""
    sim = world.sim
    r = {
        "violations": world.violations,
        "stats": dict(sim.stats),
        "cover": sorted(world.cover),
        "sim_time": sim.now,
        "steps": sim.steps,
        "digest": digest([sim.trace, sim.history]),
        "trace_tail": [str(x) for x in sim.history[-60:]],
    }
    r.update(extra or {})
    return r
