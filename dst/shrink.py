"""Trace minimisation: smaller operation and fault sequences, same violation."""
import copy
import json
import re


def load_known(path):
    "Known findings that suppress (status known) their own violations"
    if not path:
        return []
    try:
        with open(path) as f:
            return [k for k in json.load(f)["findings"]
                    if k.get("status") == "known"]
    except FileNotFoundError:
        return []


def is_known(known, prop, violation):
    "The known finding a violation is an instance of, if any"
    for k in known:
        if k["property"] == prop and re.fullmatch(k["class"],
                                                  violation["class"]) \
                and re.search(k["detail"], violation["detail"], re.S):
            return k
    return None


def classes(result, known=(), prop=None):
    "Classes of the unlisted violations of a result"
    return {v["class"] for v in result.get("violations", [])
            if not is_known(known, prop, v)}


def candidates(mod, trace):
    "Smaller traces, boldest first"
    for key in ("ops", "clients", "faults"):
        items = trace.get(key)
        if not isinstance(items, list):
            continue
        n = len(items)
        size = max(n//2, 1)
        while size >= 1:
            for i in range(0, n, size):
                if n - min(size, n-i) < 0 or not items:
                    continue
                t = copy.deepcopy(trace)
                del t[key][i:i+size]
                if t[key] or key == "faults":
                    yield t
            if size == 1:
                break
            size //= 2
    for i, op in enumerate(trace.get("ops", [])):
        if not isinstance(op, dict):
            continue
        for k, simple in (("faults", {}), ("clock_intr", None),
                          ("kwargs", {}), ("verbosity", 0),
                          ("stdout", None), ("iofault", None)):
            if op.get(k) not in (None, simple) and k in op:
                t = copy.deepcopy(trace)
                t["ops"][i][k] = simple
                yield t
        if isinstance(op.get("faults"), dict) and len(op["faults"]) > 1:
            for fk in op["faults"]:
                t = copy.deepcopy(trace)
                del t["ops"][i]["faults"][fk]
                yield t
        if isinstance(op.get("vals"), list) and len(op["vals"]) > 1:
            for j in range(len(op["vals"])):
                t = copy.deepcopy(trace)
                del t["ops"][i]["vals"][j]
                yield t
    if trace.get("clock") not in (None, {"kind": "tick", "dt": 0.003}):
        t = copy.deepcopy(trace)
        t["clock"] = {"kind": "tick", "dt": 0.003}
        yield t
    if hasattr(mod, "shrink"):
        yield from mod.shrink(trace)


def minimise(mod, trace, execute, budget, known=()):
    "Greedy minimisation under a time budget"
    from dst.world import REAL_PERF
    began = REAL_PERF()
    prop = trace["property"]
    result = execute(mod, trace)
    want = classes(result, known, prop)
    tried = 0
    if not want:
        return trace, result, tried
    progress = True
    while progress and REAL_PERF()-began < budget:
        progress = False
        for cand in candidates(mod, trace):
            if REAL_PERF()-began > budget:
                break
            if json.dumps(cand) == json.dumps(trace):
                continue
            tried += 1
            res = execute(mod, cand)
            if "harness_error" in res:
                continue
            if classes(res, known, prop) & want:
                trace, result, progress = cand, res, True
                want = classes(res, known, prop) & want
                break
    return trace, result, tried
