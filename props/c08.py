"""C08: every complete request gets exactly one correct response, in order, on its own connection."""
import json
import random

from sim import net as simnet, runner
from sim.core import SimLimit
from sim.world import World, span_key

TIERS = {
    "quick": {"runs": 2000, "wall": 90},
    "thorough": {"runs": 50000, "wall": 1500},
}
RULE = ("distinct event logs of runs in which two or more peers had requests outstanding at once, or one peer pipelined requests, and at least one request was malformed, failing, or cut off")
REAL = ["whole application process: TCP, UDP and UDS servers, router, middleware manager, endpoints, buffered endpoints, queues"]
STUB = ["network (segmentation, latency, resets)", "disk under SQLite (in-memory VFS)", "clocks", "raw peers"]
ASSUMPTIONS = ["lines stay below the stream reader's 64 KiB limit, except for the peers whose connection may be dropped for exceeding it",
               "no datagrams are lost or duplicated in these runs, so that each has exactly one response"]
PROBES = ["pipelined", "malformed", "not-utf8", "heartbeat", "half-close", "abort", "overlong", "udp", "uds", "all-three", "unserialisable", "big-response", "middleware", "buffered", "split-line", "slow-neighbour"]
PORT, UPORT = 8800, 8801
KINDS = ["ok", "ok", "ok", "ok", "big", "proc", "raise", "key", "stop", "unser", "surr", "none", "unknown", "invalid", "nulldata", "listdata", "noroute", "badspan", "nospan",
         "notjson", "utf8", "empty", "blank", "hb", "hbx", "num", "list", "null", "fuzz", "buf", "bufinv", "deep", "nan", "cr", "exc", "exc", "procempty"]
ANY = "any"
EXC = [TypeError, ConnectionResetError, BrokenPipeError, TimeoutError, AttributeError, FileNotFoundError, EOFError, RecursionError, UnicodeError, IndexError, MemoryError, AssertionError, NotImplementedError]


def generate(seed, tier):
    r = random.Random("c08/" + seed)
    np = r.randint(1, 4 if tier == "quick" else 6)
    peers = []
    idn = 0
    focus = r.sample(KINDS, 3) if r.random() < 0.4 else None
    for _ in range(np):
        tr = r.choice(["tcp", "tcp", "uds", "udp"])
        items = []
        for _ in range(r.randint(1, 8 if tier == "quick" else 14)):
            k = r.choice(focus) if focus and r.random() < 0.7 else r.choice(KINDS)
            gap = r.choice([0, 0, 0, 0.0005, 0.01, 0.2])
            delay = r.choice([0, 0, 0, 0.001, 0.05, 0.4])
            items.append([gap, k, idn, delay, r.choice([0, 0, 0, 1, 2, 3])])
            idn += 1
        end = r.choice(["stay", "stay", "stay", "half", "half", "close", "abort", "reset", "partial", "overlong"]) if tr != "udp" else "stay"
        peers.append({"tr": tr, "t": round(r.uniform(0.3, 1.0), 4), "items": items, "end": end, "wait": r.choice([0, 0, 0.003, 0.1])})
    return {"seed": seed, "peers": peers, "mw": r.choice([0, 0, 1, 3]), "mwdelay": r.choice([0, 0, 0.01]),
            "net": {"lat": r.choice([[0.00005, 0.0002], [0.0001, 0.003]]), "seg_p": r.choice([0, 0.3, 0.9])}, "_shrink": ["peers"]}


def shrink(plan):
    for i, p in enumerate(plan["peers"]):
        for j in range(len(p["items"])):
            q = [dict(x) for x in plan["peers"]]
            q[i]["items"] = p["items"][:j] + p["items"][j + 1:]
            yield dict(plan, peers=q)
    if plan["mw"]:
        yield dict(plan, mw=0)
    if plan["net"]["seg_p"]:
        yield dict(plan, net=dict(plan["net"], seg_p=0))


def line_of(seed, kind, i, delay):
    """(bytes without LF, expected) ; expected = None (no response) or dict(status=set|ANY, span=str|None|ANY, data=check or None)"""
    r = random.Random(f"{seed}/line/{i}")
    sk = span_key(f"{seed}/{i}")
    tok = f"#{i}#"

    def req(route, data, span=sk, **kw):
        d = {"route_key": route, "span_key": span, "data": data}
        d.update(kw)
        ks = list(d)
        r.shuffle(ks)
        return json.dumps({k: d[k] for k in ks}, ensure_ascii=r.random() < 0.5).encode()

    def err(st, has=tok):
        return {"status": {st}, "span": sk, "has": has}
    body = {"n": i, "kind": kind, "delay": delay, "pad": r.choice(["", "é☃", "\u0005", "a\\n", "\u2028"])}
    if kind == "ok":
        return req("echo", body, **({"extra": 1} if i % 5 == 0 else {})), {"status": {0}, "span": sk, "data": {"n": i, "pad": body["pad"], "mw": None}}
    if kind == "nan":
        return req("echo", body).replace(b'"delay": 0,', b'"delay": 0e0,'), {"status": {0}, "span": sk, "data": {"n": i, "pad": body["pad"], "mw": None}}
    if kind == "cr":
        return b" \t" + req("echo", body) + b" \r", {"status": {0}, "span": sk, "data": {"n": i, "pad": body["pad"], "mw": None}}
    if kind == "big":
        return req("echo", body), {"status": {0}, "span": sk, "data": {"n": i, "pad": "y" * 30000, "mw": None}}
    if kind in ("raise", "key", "stop"):
        return req("echo", body), err(999, tok if kind == "raise" else "")
    if kind == "exc":
        return req("echo", body), err(999, "")
    if kind == "procempty":
        return req("echo", body), err(600, "")
    if kind == "proc":
        return req("echo", body), err(600)
    if kind in ("unser", "surr"):
        return req("echo", body), err(999, "")
    if kind == "none":
        return req("echo", body), {"status": {0}, "span": sk, "data": None}
    if kind == "unknown":
        return req(f"nope{tok}", body), err(400)
    if kind == "invalid":
        return req("echo", {"n": f"x{tok}"}), err(300)
    if kind == "nulldata":
        return req("echo", None), {"status": ANY, "span": sk, "err": True}
    if kind == "listdata":
        return req("echo", [1, 2]), {"status": ANY, "span": sk, "err": True}
    if kind == "noroute":
        return json.dumps({"span_key": sk, "data": body}).encode(), {"status": {300}, "span": ANY}
    if kind == "badspan" and r.random() < 0.7:        # sixteen characters, but not sixteen hexadecimal digits
        bad = r.choice(["-00000000000000f", "0x00000000000f00", "+00000000000000a", "0000_0000_0000_f", "00 00 00 00 0000", "f00000000000000 ", "٠٠٠٠٠٠٠٠٠٠٠٠٠٠٠٥", "000000000000000g"])
        return req(*r.choice([("echo", body), ("q", {"n": i})]), dict(sk, span_id=bad)), {"status": {300}, "span": None, "err": True}
    if kind == "badspan":
        return req("echo", body, {"trace_id": f"zz{i}", "span_id": "q"}), {"status": ANY, "span": None, "err": True}
    if kind == "nospan":
        return json.dumps({"route_key": "echo", "data": body}).encode(), {"status": {300}, "span": None}
    if kind == "notjson":
        return r.choice([b"hello", b"{", b'{"route_key": "echo"', b"{'a': 1}", b"GET / HTTP/1.1", b"\x00\x01", b"{}}", b"tru", b"\x06", b"a\x05"]), {"status": {100}, "span": None}
    if kind == "utf8":
        x = req("echo", body)
        return r.choice([b"\xff", b"\xff\xfe{}", x.replace(b"echo", b"ec\xc3ho"), b"\x80" + x, x + b"\xed\xa0\x80", b"\xc3"]), {"status": {100}, "span": None}
    if kind == "empty":
        return b"", {"status": {100}, "span": None}
    if kind == "blank":
        return b" \t ", {"status": {100}, "span": None}
    if kind == "hb":
        return b"\x05", "ack"
    if kind == "hbx":
        return b"\x05 there?", "ack"
    if kind in ("num", "list", "null"):
        return {"num": b"5", "list": b"[1]", "null": b"null"}[kind], {"status": ANY, "span": None, "err": True}
    if kind == "deep":
        return b"[" * 30000, {"status": ANY, "span": None, "err": True}
    if kind == "buf":
        return req("q", {"n": i}), {"status": {0}, "span": sk, "data": {"span_key": sk}}
    if kind == "bufinv":
        return req("q", {"n": f"x{tok}"}), err(300)
    if kind == "fuzz":
        x = bytearray(req("echo", body))
        for _ in range(r.randint(1, 4)):
            p = r.randrange(len(x))
            op = r.randrange(3)
            if op == 0:
                x[p] = r.choice(b'{}[]":,0aeZ\\')
            elif op == 1:
                del x[p:p + r.randint(1, 4)]
            else:
                x[p:p] = bytes([r.choice(b'{}[]":,0aeZ\\')])
        x = bytes(x).replace(b"\n", b" ")
        if x[:1] == b"\x05":
            x = b"x" + x
        return x, {"status": ANY, "span": ANY}
    raise AssertionError(kind)


def setup_for(plan, w, log):
    def setup(node):
        import asyncio
        from pydantic import BaseModel
        from typing import Any
        from ekosis.requests.endpoint import endpoint
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        from ekosis.exceptions import ApplicationProcessingException
        from ekosis.middleware.manager import MiddlewareManager
        from ekosis.middleware.middleware_base import MiddlewareBase

        class Req(BaseModel):
            n: int
            kind: str = ""
            delay: float = 0
            pad: Any = None

        class Resp(BaseModel):
            n: int
            pad: Any
            mw: Any = None

        class QReq(BaseModel):
            n: int

        @endpoint("echo", Req)
        async def echo(dto, span_key):
            w.sim.rec("run", id=dto.n)
            log.append(("run", f"{span_key}"))
            if dto.delay:
                await asyncio.sleep(min(dto.delay, 0.5))
            k = dto.kind
            if k == "raise":
                raise ValueError(f"planned #{dto.n}#")
            if k == "key":
                raise KeyError(dto.n)
            if k == "stop":
                raise StopAsyncIteration()
            if k == "proc":
                raise ApplicationProcessingException(f"planned #{dto.n}#")
            if k == "exc":
                raise EXC[dto.n % len(EXC)](f"planned #{dto.n}#")
            if k == "procempty":
                raise ApplicationProcessingException("")
            if k == "unser":
                return Resp(n=dto.n, pad=object())
            if k == "surr":
                return Resp(n=dto.n, pad="\ud800")
            if k == "none":
                return None
            return Resp(n=dto.n, pad="y" * 30000 if k == "big" else dto.pad)

        @buffered_endpoint("q", QReq)
        async def q(dto, span_key):
            w.sim.rec("q", id=dto.n)
            return True

        class Mw(MiddlewareBase):
            def __init__(self, i):
                self.i = i

            async def before_routing(self, protocol_dto, **kw):
                log.append(("b", self.i, str(protocol_dto.span_key)))
                if plan["mwdelay"]:
                    await asyncio.sleep(plan["mwdelay"] * (self.i + 1) / 3)
                return protocol_dto

            async def after_routing(self, protocol_dto, response_dto, **kw):
                log.append(("a", self.i, str(protocol_dto.span_key)))
                if isinstance(response_dto, Resp):
                    return Resp(n=response_dto.n, pad=response_dto.pad, mw=(response_dto.mw or []) + [self.i])
                return response_dto
        for i in range(plan["mw"]):
            MiddlewareManager().add(Mw(i))
    return setup


class StreamPeer:
    def __init__(self, w, plan, i, p):
        self.w, self.p, self.i = w, p, i
        self.got = []              # (t, line)
        self.exp = []              # (kind, id, expected, delay, t_sent)
        self.owner = simnet.HubOwner(f"peer{i}")
        key = ("tcp", "127.0.0.1", PORT) if p["tr"] == "tcp" else ("uds", f"{w.tmp}/uds/srv.sock")
        self.conn = simnet.RawConn(w.net, self.owner, key, on_line=lambda c, l: (self.got.append((w.sim.now, l)), w.sim.rec("resp", p=i, b=l[:40].decode("latin1"))))
        sim = w.sim
        t = 0.0
        for gap, kind, idn, delay, split in p["items"]:
            t += gap
            line, exp = line_of(plan["seed"], kind, idn, delay)
            data = line + b"\n"
            rr = random.Random(f"{plan['seed']}/split/{idn}")
            pieces = [data]
            if split and len(data) > 1:
                cuts = sorted(rr.randrange(1, len(data)) for _ in range(split))
                pieces = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
            for x in pieces:
                sim.after(t, self.conn.send, x)
                t += 1e-6 + (rr.choice([0, 0.001, 0.05]) if split else 0)
            self.exp.append([kind, idn, exp, delay, sim.now + t])
        t += p["wait"]
        end = p["end"]
        if end == "half":
            sim.after(t, self.conn.half_close)
        elif end == "close":
            sim.after(t, self.conn.close)
        elif end == "abort":
            sim.after(t, self.conn.abort)
        elif end == "reset":
            sim.after(t, lambda: self.conn.t and w.net.reset(self.conn.t.cid))
        elif end == "partial":
            sim.after(t, self.conn.send, b'{"route_key": "echo", "span')
            sim.after(t + 0.01, self.conn.half_close)
        elif end == "overlong":
            sim.after(t, self.conn.send, b"x" * 200000 + b"\n")
        self.last = sim.now + t


class UdpPeer:
    def __init__(self, w, plan, i, p):
        self.w, self.p, self.i = w, p, i
        self.got = []
        self.exp = []
        self.sock = simnet.RawUDP(w.net, simnet.HubOwner(f"peer{i}"), lambda s, d, a: (self.got.append((w.sim.now, d)), w.sim.rec("resp", p=i, b=d[:40].decode("latin1"))))
        t = 0.0
        for gap, kind, idn, delay, split in p["items"]:
            t += gap
            line, exp = line_of(plan["seed"], kind, idn, delay)
            w.sim.after(t, self.sock.send, line + b"\n", ("127.0.0.1", UPORT))
            self.exp.append([kind, idn, exp, delay, w.sim.now + t])
        self.last = w.sim.now + t


def matches(exp, raw, mw):
    """None if raw is a correct response, else what is wrong with it."""
    if exp == "ack":
        return None if raw.rstrip(b"\n") == b"\x06" else f"expected an acknowledgement, got {raw[:200]!r}"
    try:
        d = json.loads(raw.decode())
        st, sp, da = d["status"], d["span_key"], d["data"]
    except (ValueError, KeyError, TypeError):
        return f"not a response: {raw[:200]!r}"
    if exp["status"] == ANY:
        if not isinstance(st, int) or exp.get("err") and st == 0:
            return f"status {st}"
    elif st not in exp["status"]:
        return f"status {st} ({str(da)[:120]}), expected {sorted(exp['status'])}"
    if exp["span"] != ANY and sp != exp["span"]:
        return f"span key {sp}, expected {exp['span']}"
    if st == 0 and "data" in exp:
        want = exp["data"]
        if isinstance(want, dict) and "mw" in want:
            want = dict(want, mw=list(range(mw)) if mw else None)
        if da != want:
            return f"data {str(da)[:200]}, expected {str(want)[:200]}"
    if exp.get("has") and exp["has"] not in str(da):
        return f"error text {str(da)[:200]} does not belong to this request ({exp['has']})"
    return None


def execute(plan):
    w = World(plan, simnet.NetCfg(**plan["net"]))
    sim = w.sim
    sim.max_steps = 400_000
    log = []
    node = w.app("srv", setup_for(plan, w, log), tcp=PORT, udp=UPORT, uds="srv.sock")
    node.start()
    peers = []

    def start(i, p):
        peers.append((UdpPeer if p["tr"] == "udp" else StreamPeer)(w, plan, i, p))
    for i, p in enumerate(plan["peers"]):
        sim.at(p["t"], start, i, p)
    total = 1.0 + max([p["t"] for p in plan["peers"]] + [0]) + max([sum(x[0] + 0.2 + min(x[3], 0.5) + 0.1 for x in p["items"]) for p in plan["peers"]] + [0])
    try:
        while sim.now < total + 2:
            sim.run(total + 2)
        probe(w, plan, total)
    except SimLimit as x:
        w.violate("livelock", str(x))
        return runner.finish(w, plan)
    if not node.alive:
        w.violate("server-ended", f"the application ended: {node.exit_exc!r}")
        return runner.finish(w, plan)
    for p in peers:
        (check_udp if p.p["tr"] == "udp" else check_stream)(w, plan, p)
    if plan["mw"]:
        check_mw(w, plan, log, peers)
    node.signal(15)
    sim.run_until(lambda: not node.alive, 6.0)
    return runner.finish(w, plan, summary(w, plan, peers))


def probe(w, plan, total):
    """Afterwards the server still answers on all three transports."""
    sim = w.sim
    sk = span_key(f"{plan['seed']}/probe")
    line = json.dumps({"route_key": "echo", "span_key": sk, "data": {"n": 99999}}).encode() + b"\n"
    got = {}
    o = simnet.HubOwner("probe")
    for name, key in (("tcp", ("tcp", "127.0.0.1", PORT)), ("uds", ("uds", f"{w.tmp}/uds/srv.sock"))):
        simnet.RawConn(w.net, o, key, on_line=lambda c, l, name=name: got.setdefault(name, l)).send(line)
    simnet.RawUDP(w.net, o, lambda s, d, a: got.setdefault("udp", d)).send(line, ("127.0.0.1", UPORT))
    sim.run_until(lambda: len(got) == 3, 2.0)
    for name in ("tcp", "uds", "udp"):
        ok = name in got and json.loads(got[name])["status"] == 0
        if not ok:
            w.violate("server-stopped", f"after the traffic the {name} server no longer answers: {got.get(name)}")


def slack(plan):
    return 0.25 + 0.2 * bool(plan["mwdelay"] and plan["mw"])


def check_stream(w, plan, p):
    cutoff = p.p["end"] in ("close", "abort", "reset", "overlong")
    n = len(p.exp)
    if len(p.got) > n:
        w.violate("extra-response", f"peer {p.i} ({p.p['tr']}): {len(p.got)} responses to {n} requests; extra: {p.got[n][1][:200]!r}")
    if len(p.got) < n and not cutoff:
        w.violate("missing-response", f"peer {p.i} ({p.p['tr']}, {p.p['end']}): {len(p.got)} responses to {n} requests; the request without response is of kind {p.exp[len(p.got)][0]} (closed: {p.conn.closed})")
    prev = 0.0
    for (t, raw), (kind, i, exp, delay, sent) in zip(p.got, p.exp):
        bad = matches(exp, raw, plan["mw"])
        if bad:
            w.violate("wrong-response", f"peer {p.i} ({p.p['tr']}): request {i} ({kind}): {bad}")
            return
        lim = max(prev, sent) + (0.5 if kind == "fuzz" else min(delay, 0.5)) + slack(plan)
        if t > lim:
            w.violate("late-response", f"peer {p.i} ({p.p['tr']}): request {i} ({kind}, handler takes {delay} s) was answered {t - max(prev, sent):.3f} s after it could be started")
            return
        prev = t


def check_udp(w, plan, p):
    left = list(p.exp)
    for t, raw in p.got:
        hit = None
        for x in left:                       # exact matches first
            if x[2] == "ack" or x[2]["span"] not in (None, ANY):
                if matches(x[2], raw, plan["mw"]) is None:
                    hit = x
                    break
        if hit is None:
            for x in sorted((x for x in left if x[2] != "ack" and x[2]["span"] in (None, ANY)), key=lambda x: (x[2]["status"] == ANY, x[2]["span"] == ANY)):
                if matches(x[2], raw, plan["mw"]) is None:
                    hit = x
                    break
        if hit is None:
            w.violate("wrong-response", f"udp peer {p.i}: {raw[:200]!r} answers none of its outstanding requests {[(x[0], x[1]) for x in left][:8]}")
            return
        left.remove(hit)
        if hit[2] != "ack" and hit[2]["span"] not in (None, ANY) and t > hit[4] + min(hit[3], 0.5) + slack(plan):
            w.violate("late-response", f"udp peer {p.i}: request {hit[1]} ({hit[0]}, handler takes {hit[3]} s) was answered after {t - hit[4]:.3f} s")
            return
    if left:
        w.violate("missing-response", f"udp peer {p.i}: no response to {[(x[0], x[1]) for x in left][:6]}")


def check_mw(w, plan, log, peers):
    """Each request passes every middleware once, in order, before and after its handler."""
    seen = {}
    for x in log:
        sk = x[-1]
        seen.setdefault(sk, []).append(x[:-1] if x[0] != "run" else ("run",))
    n = plan["mw"]
    for p in peers:
        if p.p["tr"] != "udp" and p.p["end"] in ("close", "abort", "reset", "overlong"):
            continue
        for kind, i, exp, delay, sent in p.exp:
            if kind in ("ok", "big", "none"):
                sk = span_key(f"{plan['seed']}/{i}")
                got = seen.get(f"{sk['trace_id']}:{sk['span_id']}", [])
                want = [("b", j) for j in range(n)] + [("run",)] + [("a", j) for j in range(n)]
                if got != want:
                    w.violate("middleware", f"request {i} ({kind}) passed {got}, expected {want}")
                    return


def summary(w, plan, peers):
    c = w.cover
    kinds = {x[1] for p in plan["peers"] for x in p["items"]}
    trs = {p["tr"] for p in plan["peers"]}
    c |= {t for t in trs if t != "tcp"}
    if len(trs) == 3:
        c.add("all-three")
    if any(b[4] - a[4] < 1e-4 for p in peers for a, b in zip(p.exp, p.exp[1:]) if p.p["tr"] != "udp"):
        c.add("pipelined")
    for k, names in (("malformed", {"notjson", "fuzz", "empty", "blank", "num", "list"}), ("not-utf8", {"utf8"}), ("heartbeat", {"hb", "hbx"}),
                     ("unserialisable", {"unser", "surr"}), ("big-response", {"big"}), ("buffered", {"buf"})):
        if kinds & names:
            c.add(k)
    for p in plan["peers"]:
        if p["end"] in ("half", "partial"):
            c.add("half-close")
        if p["end"] in ("abort", "overlong"):
            c.add(p["end"])
        if any(x[4] and p["tr"] != "udp" for x in p["items"]):
            c.add("split-line")
    if plan["mw"]:
        c.add("middleware")
    if len(peers) > 1 and any(x[3] >= 0.4 for p in plan["peers"] for x in p["items"]):
        c.add("slow-neighbour")
    return {"nontrivial": (len(peers) > 1 or "pipelined" in c) and bool(kinds - {"ok", "nan", "cr", "big"} or {"half-close", "abort"} & c),
            "sample": {"peers": [{"tr": p["tr"], "end": p["end"], "kinds": [x[1] for x in p["items"]]} for p in plan["peers"]], "middlewares": plan["mw"]}}
