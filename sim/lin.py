"""Linearizability of small concurrent histories (Wing & Gong search with memoisation)."""


def linearizable(ops, init, apply, budget=200_000, best=None):
    """ops: list of dict(inv, ret, op, res) with inv/ret event indices (ret may be None: never returned).
    apply(state, op) -> (state', result), or (None, None) where the operation is impossible; states must be hashable.
    best: optional [count, ops, state] list that receives the deepest point of the search.
    Returns (True, final_states) | (False, None) | (None, None) when the budget runs out."""
    n = len(ops)
    order = sorted(range(n), key=lambda i: ops[i]["inv"])
    seen = set()
    finals = set()
    todo = [(0, init)]
    pend_mask = sum(1 << i for i in range(n) if ops[i]["ret"] is None)
    full = (1 << n) - 1
    steps = 0
    while todo:
        done, st = todo.pop()
        if (done, st) in seen:
            continue
        seen.add((done, st))
        steps += 1
        if steps > budget:
            return None, None
        if (done | pend_mask) == full:
            finals.add(st)
            if done == full or not pend_mask:
                return True, finals
        horizon = min((ops[i]["ret"] for i in range(n) if not done >> i & 1 and ops[i]["ret"] is not None), default=None)
        cand = []
        for i in order:
            if done >> i & 1:
                continue
            if horizon is not None and ops[i]["inv"] > horizon:
                break
            st2, res = apply(st, ops[i]["op"])
            if st2 is not None and (ops[i]["ret"] is None or res == ops[i]["res"]):
                cand.append((ops[i]["ret"] if ops[i]["ret"] is not None else 1 << 60, i, st2))
        cand.sort(key=lambda c: (c[0], c[1]), reverse=True)      # earliest response is tried first
        for _ret, i, st2 in cand:
            todo.append((done | 1 << i, st2))
        if best is not None:
            k = done.bit_count()
            if k > best[0]:
                best[0], best[1] = k, [ops[i] for i in order if not done >> i & 1 and (horizon is None or ops[i]["inv"] <= horizon)]
                best[2] = st
    return (True, finals) if finals else (False, None)
