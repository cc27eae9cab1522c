"""Seeded generation of plans for the buffered-endpoint engine."""
BODIES = [None, 0, True, "", "x", [], {}, [1, [2, None]], {"a": {"b": [1.5, -2]}}, "é☃𝄞\u0000\n\r\"'\\", "5\x05", "y" * 2000,
          {"span_key": "not one", "data": {}}, 2 ** 53 + 1, -0.25, "\u2028", float("inf"), [float("-inf")], {"b": [None, {}]}, {"c": {"d": None}}]
NAMES = ["a", "b.q", "r-3", "Ümlaut_q"]


def routes(r, lo=1, hi=3, empty_ok=True, senders=0.0):
    out = []
    for i in range(r.randint(lo, hi)):
        out.append({"name": NAMES[i], "page": r.choice([1, 1, 2, 2, 3, 4, 7]), "retries": r.choice([0, 1, 1, 2, 3, 4]),
                    "dto": 0 if empty_ok and r.random() < 0.12 else 1})
        if r.random() < senders:
            out[-1].update(kind="sender", wait=r.choice([0, 0, 0.002, 0.05]))
    return out


def messages(r, rts, n, T, dup=0.05, conns=3, burst=0.5):
    """n messages over [0.05, T]; some in bursts at the same instant, some re-sent with the same span key."""
    ms = []
    t = 0.05
    for k in range(n):
        if not (ms and r.random() < burst):
            t = r.uniform(0.05, T)
        m = [round(t, 4), r.randrange(len(rts)), k, r.choice(BODIES) if r.random() < 0.6 else k, r.randrange(conns)]
        ms.append(m)
        if r.random() < dup:
            ms.append([round(t + r.choice([0, 0.0005, 0.01, 0.1, 0.5, 1.5]), 4)] + m[1:4] + [r.randrange(conns)])
    ms.sort(key=lambda m: (m[0], m[2]))
    return ms


def outcomes(r, n, rts, pfail, durs, kinds=("fail", "fail", "raise", "none", "mutate")):
    out = {}
    for k in range(n):
        seq = []
        for _ in range(r.randint(1, 5)):
            o = "ok" if r.random() > pfail else r.choice(kinds)
            seq.append([o, r.choice(durs)])
        out[str(k)] = seq
    return out


DURS = [[0], [0, 0.001], [0, 0, 0.02, 0.1], [0.01, 0.05, 0.3]]


def net(r):
    return {"lat": r.choice([[0.00005, 0.0002], [0.0001, 0.003], [0.0001, 0.03]]), "seg_p": r.choice([0, 0.1, 0.5]),
            "spike_p": r.choice([0, 0, 0.05]), "spike": [0.02, 0.6]}


def shrink_bodies(plan):
    """Simpler contents, no middleware, fewer routes' worth of detail."""
    if plan.get("mw"):
        yield dict(plan, mw=0, mwdelay=0, mwraise=None)
    if plan.get("mwdelay"):
        yield dict(plan, mwdelay=0)
    if any(m[3] != 0 for m in plan["msgs"]):
        yield dict(plan, msgs=[m[:3] + [0] + m[4:] for m in plan["msgs"]])
    if any(m[4] for m in plan["msgs"]):
        yield dict(plan, msgs=[m[:4] + [0] for m in plan["msgs"]])
    if plan.get("outc"):
        used = {str(m[2]) for m in plan["msgs"]}
        if set(plan["outc"]) - used:
            yield dict(plan, outc={k: v for k, v in plan["outc"].items() if k in used})
        for k, v in plan["outc"].items():
            if k in used and v != [["ok", 0]]:
                yield dict(plan, outc={**plan["outc"], k: [["ok", 0]]})
