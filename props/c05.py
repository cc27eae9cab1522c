"""C05: a buffered sender delivers, keeps or parks every message it was given."""
import random
import signal

from sim import bufgen, runner
from sim.buffered import UNSET, Buf
from sim.core import SimLimit
from sim.world import Peer, span_key

TIERS = {
    "quick": {"runs": 900, "wall": 100},
    "thorough": {"runs": 40000, "wall": 1500},
}
RULE = ("distinct event logs of runs in which at least one send failed and two messages were pending at once")
REAL = ["sending application: buffered senders, clients, queues, SQLite, servers", "receiving application (runs with real clients): servers, router, endpoints, queues"]
STUB = ["network", "disk under SQLite (in-memory VFS)", "clocks", "raw peers that enqueue", "in the exact runs: the client of the sender (scripted outcomes)"]
ASSUMPTIONS = ["a send that ends without a response may have reached the server"]
PROBES = ["retried", "parked", "parked-at-once", "graceful-restart", "busy-server", "server-crash", "partition", "delivered-after-retry", "several-pages", "two-senders", "udp", "persisted", "reprocessed"]
DPORT, DUDP = 8900, 8901
KINDS = ["ttcp", "ptcp", "ptcp", "tuds", "puds", "udp"]


def generate(seed, tier):
    r = random.Random("c05/" + seed)
    rts = bufgen.routes(r, senders=1.0)
    n = r.randint(3, 20 if tier == "quick" else 40)
    T = r.choice([0.5, 2.0, 5.0])
    p = {
        "seed": seed, "routes": rts, "T": T + 0.5,
        "msgs": bufgen.messages(r, rts, n, T, dup=r.choice([0, 0, 0, 0.2]), burst=r.choice([0.2, 0.6, 0.95])),
        "outc": bufgen.outcomes(r, n, rts, r.choice([0.1, 0.4, 0.8]), r.choice(bufgen.DURS)),
        "mgmt": [], "events": [], "net": bufgen.net(r), "uds": r.random() < 0.2,
        "_shrink": ["events", "mgmt", "msgs"],
    }
    p["real"] = r.random() < 0.55
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        m = r.choice(p["msgs"])
        op = r.choice(["reall", "reall", "re1", "data", "first10", "ppp", "unpp", "pop"])
        p["mgmt"].append([round(m[0] + r.choice([0.001, 0.05, 0.5, 1.0]), 4), op, m[1], m[2] if op in ("re1", "pop") else None, 900])
    for _ in range(r.choice([0, 0, 1, 2])):
        t = round(r.uniform(0.1, T), 4)
        p["events"].append(r.choice([[t, "sig", "TERM"], [t, "sig", "INT"], [t, "stall", r.uniform(0.05, 0.6)], [t, "linesig", "TERM", r.randint(1, 900)]]))
    if p["real"]:
        p["net"] = {"lat": [0.0001, r.choice([0.001, 0.01])], "seg_p": r.choice([0, 0.3]), "spike_p": r.choice([0, 0.05]), "spike": [0.02, 0.6]}
        if r.random() < 0.5:
            p["net"].update(loss=0.1, dup=0.1, reorder=0.1)
        for rt in rts:
            rt["client"] = r.choice(KINDS)
            rt["tmo"] = r.choice([0.1, 0.3, 1.0])
            rt["cret"] = r.choice([0, 1, 2, 3])
            rt["buf"] = r.random() < 0.45            # buffered endpoint at the receiver
        p["outc"] = {str(k): [[r.choice(["ok", "ok", "ok", "raise", "proc"]), r.choice([0, 0, 0.02, 0.2, 1.2])] for _ in range(3)] for k in range(n)}
        for _ in range(r.choice([0, 1, 2, 4])):
            m = r.choice(p["msgs"])
            t = round(m[0] + r.choice([-0.05, 0.001, 0.003, 0.02, 0.3]), 4)
            d = round(r.choice([0.05, 0.3, 1.0, 2.5]), 3)
            p["events"].append([max(0.06, t), *r.choice([["dkill", d], ["dterm", d], ["dpower", d], ["dcut", d], ["dstall", d], ["dreset", r.randrange(3)], ["dpause", d], ["dpause", d]])])
    return p


def shrink(plan):
    yield from bufgen.shrink_bodies(plan)
    for i, rt in enumerate(plan["routes"]):
        for k, v in (("wait", 0), ("buf", False)):
            if rt.get(k):
                rs = [dict(x) for x in plan["routes"]]
                rs[i][k] = v
                yield dict(plan, routes=rs)


class SendBuf(Buf):
    def __init__(self, plan):
        for rt in plan["routes"]:
            if plan["real"]:
                c = rt["client"]
                rt["cargs"] = {"t": ["127.0.0.1", DPORT], "u": ["@UDS@"]}[c[1]] if c != "udp" else ["127.0.0.1", DUDP]
                rt["cargs"] = rt["cargs"] + [rt["tmo"]] + ([0.7] if c[0] == "p" else []) + [rt["cret"], 0.05]
        super().__init__(plan)
        for rt in plan["routes"]:
            if "cargs" in rt:
                rt["cargs"] = [f"{self.w.tmp}/uds/dst.sock" if x == "@UDS@" else x for x in rt["cargs"]]
        self.dnode = None
        self.dcrash = False
        self.dpeer = Peer(self.w, "dmgr", ("tcp", "127.0.0.1", DPORT))
        self.dseen = {}
        self.datt = {}
        self.paused = 0

    # -- the receiving application
    def dsetup(self, node):
        eng, plan, sim, w = self, self.plan, self.sim, self.w
        import asyncio
        from typing import Any
        from pydantic import BaseModel, ConfigDict
        from ekosis.data_transfer_objects import EmptyDto
        from ekosis.exceptions import ApplicationProcessingException
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        from ekosis.requests.endpoint import endpoint

        class Body(BaseModel):
            model_config = ConfigDict(ser_json_inf_nan="constants")
            n: int
            body: Any = None
            opt: Any = UNSET
            real: float = 0.5
            trap: int = 0

        def make(ri, r):
            typ = Body if r.get("dto", 1) else EmptyDto

            async def handler(dto, span_key):
                k = eng.num(str(span_key))
                got = dto.model_dump() if typ is Body else {}
                want = eng.want(k) if typ is Body else {}
                if k not in eng.body or eng.body[k][0] != ri or got != want:
                    w.violate("content", f"the server received {str(got)[:200]} with span key {k} on {r['name']}; given was {str(want)[:200]}")
                e = sim.rec("dseen", r=ri, key=k)
                if e is not None:
                    eng.dseen.setdefault(k, e["i"])
                eng.last_activity = max(eng.last_activity, sim.now)
                if r["buf"]:
                    return True
                a = eng.datt.get(k, 0)
                eng.datt[k] = a + 1
                seq = plan["outc"].get(str(k)) or [["ok", 0]]
                out, dur = seq[min(a, len(seq) - 1)]
                if dur:
                    await asyncio.sleep(dur)
                if out == "raise":
                    raise ValueError("planned")
                if out == "proc":
                    raise ApplicationProcessingException("planned")
                sim.rec("dok", key=k)
                return EmptyDto()
            handler.__name__ = f"d{ri}"
            if r["buf"]:
                buffered_endpoint(r["name"], typ, page_size=5, max_retries=3)(handler)
            else:
                endpoint(r["name"], typ)(handler)
        for ri, r in enumerate(self.routes):
            make(ri, r)

    def dstart(self):
        self.w.net.down_hosts.discard("dst")
        if self.dnode is None or not self.dnode.alive:
            self.dnode = self.w.app("dst", self.dsetup, tcp=DPORT, udp=DUDP, uds="dst.sock")
            self.dnode.start()
        else:
            self.sim.after(0.3, self.dstart)

    def start(self):
        if self.plan["real"] and self.dnode is None:
            self.w.net.key_hosts = {("tcp", "127.0.0.1", DPORT): "dst"}
            self.dstart()
        super().start()

    def apply_event(self, ev):
        k = ev[0]
        if k not in ("dkill", "dterm", "dpower", "dcut", "dstall", "dreset", "dpause"):
            return super().apply_event(ev)
        if self.faults_over:
            return
        sim, net = self.sim, self.w.net
        if k in ("dkill", "dterm", "dpower"):
            if not self.dnode.alive:
                return
            sim.stats["receiver_" + k[1:]] += 1
            if k == "dterm":
                self.dnode.signal(signal.SIGTERM)
            elif k == "dkill":
                self.dcrash = True
                self.dnode.crash("kill")
            else:
                self.dcrash = True
                net.down_hosts.add("dst")
                self.w.powerloss(self.dnode)
            sim.after(ev[1], self.dstart)
        elif k == "dcut":
            net.partition("srv", "dst")
            sim.after(ev[1], lambda: net.heal("srv", "dst"))
        elif k == "dstall":
            self.dnode.stalled_until = sim.now + ev[1]
            sim.stats["receiver_stall"] += 1
        elif k == "dreset":
            c = net.live_conns(lambda a, b: a.owner.host == "srv")
            if c:
                net.reset(c[ev[1] % len(c)])
        elif k == "dpause":
            for r in self.routes:
                if r["buf"]:
                    self.dmgr(r["name"], "pause")
            sim.after(ev[1], self.dunpause)

    def dmgr(self, name, op):
        self.paused += 1
        self.dpeer.call("eco.buffered_handler.receiving." + op, span_key(f"{self.plan['seed']}/d/{self.paused}"), {"queue_route_key": name}, lambda *a: None)

    def dunpause(self):
        for r in self.routes:
            if r["buf"]:
                self.dmgr(r["name"], "unpause")

    def settle(self, limit):
        if self.plan["real"] and not self.faults_over:
            c = self.w.net.cfg
            c.loss = c.dup = c.reorder = c.spike_p = 0
            self.w.net.heal_all()
            self.dstart()
            self.dunpause()
        return super().settle(limit)


def execute(plan):
    e = SendBuf(plan)
    w = e.w
    try:
        e.run()
        errors = e.last_phase()
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    if errors is None:
        return runner.finish(w, plan)
    M = e.messages()
    for ri in range(len(e.routes)):
        e.refine(ri)
    pop, clr = e.popped()
    e.conserve(M, errors, removed=pop, lost_ok=lambda k, m: m["route"] in clr)
    verdict(e, plan, M, errors)
    return runner.finish(w, plan, summary(e, plan, M))


def verdict(e, plan, M, errors):
    w = e.w
    moved = {x["key"] for x in e.sim.history if x["k"] == "mreq" and x["op"] in ("re1", "pop")}
    reall = {x["r"] for x in e.sim.history if x["k"] == "mreq" and x["op"] in ("reall", "clear")}
    firsts = {}
    for k, m in sorted(M.items()):
        ri = m["route"]
        rt = e.routes[ri]
        acked = [s for s in m["sends"] if s["status"] == 0]
        outs = [a["out"] for a in m["attempts"] if a["out"] != "cancelled"]
        lim = max(1, rt["retries"])
        if any(a["r"] != ri for a in m["attempts"]):
            w.violate("wrong-route", f"message {k} of sender {ri} was sent by another sender")
        if len(m["sends"]) == 1 and k not in moved and ri not in reall and (acked or outs):
            fails = 0
            for j, o in enumerate(outs):
                end = o in ("ok", "park")
                fails += o in ("busy", "comm")
                if (end or fails >= lim) and j + 1 < len(outs):
                    w.violate("attempts", f"message {k} on {rt['name']} (retries {rt['retries']}) was sent again after {outs[:j + 1]}: {outs}")
                    break
            else:
                if outs and outs[-1] != "ok" and outs[-1] != "park" and fails < lim:
                    w.violate("attempts", f"message {k} on {rt['name']} (retries {rt['retries']}): sends {outs}, then no more")
                if outs and (k in errors[ri]) != (outs[-1] != "ok"):
                    w.violate("error-queue", f"message {k} on {rt['name']}: sends {outs}, in error queue: {k in errors[ri]}")
            if not plan["real"]:
                want = []
                seq = [o for o, _ in plan["outc"].get(str(k), [["ok", 0]])]
                tr = {"fail": "busy", "mutate": "busy", "raise": "comm", "none": "park", "ok": "ok"}
                for a in m["attempts"]:
                    if a["out"] != "cancelled" and a["out"] != tr[seq[min(a["a"], len(seq) - 1)]]:
                        want.append(a["a"])
                if want:
                    w.violate("outcome", f"message {k}: attempts {want} ended differently than planned")
        if acked and not m["attempts"] and k not in moved and ri not in reall:
            w.violate("never-sent", f"message {k} was enqueued and never sent")
        if plan["real"] and "ok" in outs:
            end = max(a["end"] for a in m["attempts"] if a["out"] == "ok")
            if not rt["buf"] and e.dseen.get(k, 1 << 60) > end or rt["buf"] and not e.dcrash and k not in e.dseen:
                w.violate("not-delivered", f"message {k} on {rt['name']} counts as sent, but the server never had it")
        if acked and m["attempts"] and len(m["sends"]) == 1 and e.starts == 1:
            firsts.setdefault(ri, []).append((min(s["i"] for s in m["sends"]), min(s["ri"] for s in acked), m["attempts"][0]["i"], k))
    for ri, xs in firsts.items():
        for inv, ret, st, k in xs:
            for inv2, ret2, st2, k2 in xs:
                if ret < inv2 and st > st2:
                    w.violate("order", f"message {k} was enqueued before {k2}, but {k2} was sent first")


def summary(e, plan, M):
    c = e.w.cover
    A = [a["out"] for m in M.values() for a in m["attempts"]]
    if any(len(m["attempts"]) > 1 for m in M.values()):
        c.add("retried")
    if any(m["attempts"] and m["attempts"][-1]["out"] != "ok" for m in M.values()):
        c.add("parked")
    if "park" in A:
        c.add("parked-at-once")
    if e.starts > 1:
        c.add("graceful-restart")
    if plan["real"] and "busy" in A:
        c.add("busy-server")
    if e.dcrash:
        c.add("server-crash")
    if plan["real"] and e.sim.stats["partition"]:
        c.add("partition")
    if any(len(m["attempts"]) > 1 and m["attempts"][-1]["out"] == "ok" for m in M.values()):
        c.add("delivered-after-retry")
    if len({m["route"] for m in M.values() if m["attempts"]}) > 1:
        c.add("two-senders")
    for rt in plan["routes"]:
        if rt.get("client") == "udp":
            c.add("udp")
        elif rt.get("client", " ")[0] == "p":
            c.add("persisted")
    if any(x["k"] == "mreq" and x["op"] in ("reall", "re1") for x in e.sim.history):
        c.add("reprocessed")
    peak = cur = 0
    per = {}
    for x in e.sim.history:
        if x["k"] == "send":
            per[x["r"]] = per.get(x["r"], 0) + 1
        elif x["k"] == "start" and x["a"] == 0:
            per[x["r"]] = per.get(x["r"], 0) - 1
        peak = max([peak] + list(per.values()))
    if peak > 2 * min(r["page"] for r in e.routes):
        c.add("several-pages")
    return {"nontrivial": peak > 1 and any(a not in ("ok", "cancelled") for a in A),
            "sample": {"routes": plan["routes"], "messages": len(plan["msgs"]), "events": plan["events"], "peak_backlog": peak}}
