"""Greedy delta debugging of a failing scenario: keeps any smaller scenario that
still shows a violation of the same class."""
import json
import time


def size(sc):
    return len(json.dumps(sc))


def minimize(prop, sc, viol, budget_s):
    t0 = time.monotonic()
    cls = {v['class'] for v in viol}
    tried = 0
    best, best_viol = sc, viol

    def fails(c):
        nonlocal tried
        tried += 1
        try:
            rep = prop.run(c, timeout=30.0)
        except Exception:       # noqa: BLE001
            return None
        hit = [v for v in rep['viol'] if v['class'] in cls]
        return rep['viol'] if hit else None
    improved = True
    while improved and time.monotonic() - t0 < budget_s:
        improved = False
        for c in prop.shrink(best):
            if time.monotonic() - t0 > budget_s:
                break
            if c is None or c == best or size(c) > size(best):
                continue
            v = fails(c)
            if v:
                best, best_viol = c, v
                improved = True
                break
    return {'sc': best, 'viol': best_viol, 'tried': tried}


def chunks_removed(lst, min_keep=0):
    """Candidate lists with halves, quarters, ... single elements removed."""
    n = len(lst)
    k = n
    while k >= 1:
        i = 0
        while i < n:
            c = lst[:i] + lst[i + k:]
            if len(c) >= min_keep and len(c) < n:
                yield c
            i += k
        k //= 2
