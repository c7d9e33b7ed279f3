"""C04: operations that only read the model leave it, and their inputs, alone."""
from dst import gen, ops

LEVEL = "exploration"
TECHNIQUE = ("random histories of every reading operation with solver, clock, "
             "output and user-callback failures inside them; a complete "
             "snapshot of the model and of the call's arguments is compared "
             "after each, and a clean solve afterwards is judged against an "
             "independent optimum")
TIERS = {"quick": {"runs": 2400, "budget": 50, "minruns": 200, "shrink": 40},
         "thorough": {"runs": 60000, "budget": 900, "minruns": 200,
                      "shrink": 120}}
RULE = ("each run draws a random GP or SP with scalar and vector constants and "
        "linked variables, puts it in a random state (values, partly fixed "
        "vectors, sweeps) and performs 3-8 reading operations with seeded "
        "failures; non-trivial: an operation ended in a failure, or swept")
REAL = ["gpkit (all of it)", "cvxopt solver", "ad"]
STUB = ["clock", "stdout", "solver faults in front of cvxopt, failures in "
        "linked functions and process_result methods of the run's own models"]
STATE_MEASURE = "(operation, what was swept, fault, outcome)"
FAULTS = ["solver:valueerror", "solver:boom", "solver:interrupt",
          "solver:memory", "interrupt@clock", "stdout:epipe",
          "stdout:interrupt", "callback:error", "callback:interrupt",
          "process_result:error", "process_result:interrupt"]
PROBES = ["op-failed", "swept-free", "swept-const", "swept-element",
          "swept-vector", "swept-linked", "swept-twice", "grid",
          "judged-at-end", "failed-in-sweep", "failed-in-autosweep",
          "failed-in-debug"]
ASSUMPTIONS = ["models are small (at most ~12 free variables)"]

SFAULTS = ["valueerror", "arith", "boom", "interrupt", "unknown", "memory",
           "print", "sysexit", "print_then_boom"]


def generate(rng, tier):
    "A run's trace"
    sp = rng.random() < .25
    spec = gen.gen_spec(rng, "m", sp=sp, linked=rng.random() < .4,
                        limit=not sp and rng.random() < .3,
                        freeable=rng.random() < .3, units=rng.random() < .5,
                        part=rng.random() < .6)
    V = spec["vars"]
    can = [i for i, v in enumerate(V) if v["used"]
           and v["k"] in ("const", "linked") and not v.get("limit")
           and not v.get("freeable")]
    out = []
    free = [i for i, v in enumerate(V) if v.get("freeable")]
    if free and rng.random() < .6:
        out.append({"op": "free", "i": free[0]})
    for _ in range(rng.randint(3, 8)):
        r = rng.random()
        if r < .12 and can:
            i = rng.choice(can)
            d = V[i]["d"]
            out.append({"op": "set", "i": i, "form": rng.choice(
                ["var", "key", "update", "elem", "quantity"]),
                "v": [gen.rnd(rng, .4, 4) for _ in range(d)] if d
                else gen.rnd(rng, .4, 4)})
            continue
        if r < .18:
            lim = [i for i, v in enumerate(V) if v.get("limit")]
            if lim:
                out.append({"op": "set", "i": lim[0], "form": "key",
                            "v": rng.choice([1e-6, 5e4])})
                continue
        kind = rng.choice((["solve", "sweep", "sweep", "sweep", "sweepsub",
                            "autosweep", "autosweep", "debug", "program",
                            "relax", "print", "grid", "nested"]
                           if not sp else
                           ["localsolve", "localsolve", "sweep", "sweep",
                            "debug", "program", "relax", "print", "solve",
                            "autosweep", "sweepsub"]))
        op = {"op": kind, "verbosity": rng.choice([0, 0, 0, 1, 2, 3]),
              "skip": rng.random() < .4}
        if kind in ("sweep", "sweepsub", "autosweep", "grid"):
            pool = list(can) + (free if kind != "autosweep" else [])
            if not pool:
                continue
            pick = rng.sample(pool, min(len(pool),
                                        2 if kind == "grid" or
                                        kind != "sweepsub" and
                                        rng.random() < .3 else 1))
            op["sw"] = []
            for i in pick:
                d = V[i]["d"]
                what = "all" if not d else rng.choice(["elem", "elem",
                                                       "vector"])
                if kind == "autosweep" and what == "vector":
                    what = "elem"
                lo = gen.rnd(rng, .5, 2) * (200 if i in free else 1)
                n = rng.randint(2, 3) if d != 4 else 2
                vals = [round(lo*(1+.4*j), 4) for j in range(n)]
                op["sw"].append({"i": i, "what": what, "vals": vals,
                                 "e": rng.randrange(d) if d else None,
                                 "as": rng.choice(["list", "array", "tuple"]),
                                 "key": rng.choice(["var", "key", "str"])
                                 if not d else rng.choice(["var", "key"])})
        r = rng.random()
        if r < .35:
            op["faults"] = {rng.choice(["0", "0", "1", "1", "2", "3", "*"]):
                            rng.choice(SFAULTS)}
        elif r < .42:
            op["clock_intr"] = rng.randint(1, 8)
        elif r < .55:
            op["verbosity"] = rng.choice([1, 2, 3])
            op["stdout"] = [rng.randint(1, 12),
                            rng.choice(["epipe", "enospc", "interrupt"])]
        elif r < .65:
            op["process_result"] = [rng.randint(1, 3),
                                    rng.choice(["error", "interrupt"])]
        elif r < .75:
            op["callback"] = [rng.randint(1, 4),
                              rng.choice(["error", "interrupt", "interrupt"])]
        if kind == "localsolve" and rng.random() < .5:
            op["x0"] = True
        if kind in ("solve", "sweep") and rng.random() < .2:
            op["kwargs"] = {"maxiters": 150}
        out.append(op)
    return {"spec": spec, "sp": sp, "ops": out,
            "clock": rng.choice([None, None, {"kind": "frozen"}])}


def nontrivial(trace, res):
    "Something failed or was swept"
    return bool(res.get("faults")) or any(
        k.startswith("swept") for k in res.get("probes", {}))


def plain(v):
    "A substitution's value, comparably"
    import numpy as np
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, list):
        return ["list"] + [plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return ["array", v.shape] + [plain(x) for x in v.ravel().tolist()]
    if callable(v) and not hasattr(v, "key"):
        return ("function", id(v))
    if hasattr(v, "magnitude"):
        return ("quantity", float(v.magnitude), str(v.units))
    try:
        f = float(v)
        return "nan" if f != f else f
    except (TypeError, ValueError):
        return repr(v)


def subs_of(cset):
    "What a constraint set substitutes, as its user sees it"
    out = {}
    for k, v in cset.substitutions.items():
        p = plain(v)
        if isinstance(p, list) and p[0] == "array" and \
                all(x == "nan" for x in p[2:]):
            continue        # a vector none of whose elements is fixed
        out[str(k), k.idx] = p
    return out


def posy(p):
    "A posynomial's terms"
    return sorted((tuple(sorted((str(k), float(x)) for k, x in exp.items())),
                   float(c)) for exp, c in p.hmap.items())


def snapshot(m, sub):
    "Everything about the model its user can see"
    from gpkit.constraints.set import ConstraintSet
    cons = list(m.flat())
    return {
        "substitutions": subs_of(m),
        "submodel substitutions": subs_of(sub) if sub is not None else None,
        "cost": (id(m.cost), posy(m.cost), str(m.cost)),
        "constraints": [id(c) for c in cons],
        "constraint text": [str(c) for c in cons],
        "sides": [(posy(c.left), posy(c.right)) for c in cons
                  if hasattr(c, "left") and hasattr(c.left, "hmap")],
        "top level": [id(c) for c in m],
        "length": (len(m), isinstance(m, ConstraintSet)),
        "varkeys": sorted((str(k), str(k.units), k.unitrepr, k.shape or (),
                           str(k.label), k.lineage or ())
                          for k in m.varkeys),
        "str": str(m),
        "latex": m.latex(),
    }


def execute(trace):
    "Runs the trace, comparing snapshots"
    # pylint: disable=too-many-locals,too-many-statements,too-many-branches
    import numpy as np
    from dst import sess
    from dst.world import W
    from gpkit import Model
    from gpkit.constraints.relax import (ConstraintsRelaxed, ConstantsRelaxed,
                                         ConstraintsRelaxedEqually)
    from gpkit.constraints.bounded import Bounded
    from gpkit.constraints.set import ConstraintSet
    spec = trace["spec"]
    V = spec["vars"]
    plan = {"callback": None, "process_result": None, "cb": 0, "pr": 0}

    def fire(what, count):
        "Fails the n-th time it is reached"
        plan[count] += 1
        if plan[what] and plan[count] == plan[what][0]:
            kind = plan[what][1]
            W.fired(what + ":" + kind)
            if kind == "interrupt":
                raise KeyboardInterrupt("sim: in user code")
            raise ops.SolverBoom("sim: in user code")

    class Noter(ConstraintSet):
        "A user's constraint set whose process_result may fail"
        def process_result(self, result):
            "user code"
            super().process_result(result)
            fire("process_result", "pr")

    B = gen.build(spec, hook=lambda c: fire("callback", "cb"),
                  extra=lambda B: [Noter([])])
    m = B.m
    sub = m[0] if spec["wrap"] == "part" else None
    state = gen.state0(spec)
    free = set()
    last = None
    for op in trace["ops"]:
        kind = op["op"]
        W.ev("op", kind)
        if kind == "set":
            i = op["i"]
            sess.set_value(B, m, i, op["v"], op["form"], state, spec)
            continue
        if kind == "free":
            if op["i"] not in free:
                free.add(op["i"])
                sess.del_value(B, m, op["i"], state)
            continue
        args, before_args = {}, {}
        if "sw" in op:
            for s in op["sw"]:
                key, vals = sweep_args(B, s, V[s["i"]], np)
                args[key] = vals
                W.probe("swept-linked" if V[s["i"]]["k"] == "linked" else
                        "swept-free" if s["i"] in free else
                        {"elem": "swept-element", "vector": "swept-vector",
                         "all": "swept-const"}[s["what"]])
            if len(op["sw"]) > 1:
                W.probe("swept-twice" if kind != "grid" else "grid")
        if kind == "autosweep":
            args = {k: (float(np.ravel(v)[0]), float(np.ravel(v)[-1]))
                    for k, v in args.items()}
        restore = []
        if kind in ("sweepsub", "grid"):
            for s in op["sw"]:
                key, vals = sweep_args(B, dict(s, key="var"), V[s["i"]], np)
                old = state.get(s["i"]) if s["what"] != "elem" else \
                    state[s["i"]][s["e"]]
                if V[s["i"]]["k"] == "linked" and s["i"] not in state:
                    old = gen.make_fn(V[s["i"]]["fn"], B.vars, spec)
                restore.append((s, key, old))
                if s["what"] == "elem":
                    m.substitutions[B.vars[s["i"]][s["e"]].key] = ("sweep",
                                                                   vals)
                else:
                    m.substitutions.update({key: ("sweep", vals)})
        x0 = None
        if op.get("x0"):
            x0 = {B.vars[i].key: 1.5 for i, v in enumerate(V)
                  if v["k"] == "free" and not v["d"] and v["used"]}
        kw = dict(op.get("kwargs") or {})
        given = [(k, plain(v)) for k, v in args.items()]
        gx0 = dict(x0) if x0 else None
        gkw = dict(kw)
        before = snapshot(m, sub)
        plan.update(callback=op.get("callback"), cb=0, pr=0,
                    process_result=op.get("process_result"))
        W.begin_op(op.get("faults"), op.get("clock_intr"))
        so = op.get("stdout") or [None, None]
        v = op["verbosity"]
        with sess.quiet_stdout(fail_at=so[0], kind=so[1]):
            if kind in ("solve", "nested"):
                out = sess.call(m.solve, verbosity=v, **kw)
                if kind == "nested":
                    # solving another model around this one
                    outer = sess.call(lambda: Model(m.cost, [m]))
                    if outer[0] == "ok":
                        out = sess.call(outer[1].solve, verbosity=v)
            elif kind == "localsolve":
                out = sess.call(m.localsolve, verbosity=v,
                                **({"x0": x0} if x0 else {}))
            elif kind == "program":
                out = sess.call(lambda: (m.sp if trace["sp"] else m.gp)())
            elif kind == "sweep":
                out = sess.call(m.sweep, args, verbosity=v,
                                skipsweepfailures=op["skip"], **kw)
            elif kind in ("sweepsub", "grid"):
                out = sess.call(m.localsolve if trace["sp"] else m.solve,
                                verbosity=v, skipsweepfailures=op["skip"])
            elif kind == "autosweep":
                out = sess.call(m.autosweep, args, tol=.2, samplepoints=3,
                                verbosity=v)
            elif kind == "debug":
                out = sess.call(m.debug, verbosity=v)
            elif kind == "relax":
                out = sess.call(relax, m, sub, Bounded, ConstraintsRelaxed,
                                ConstantsRelaxed, ConstraintsRelaxedEqually,
                                Model, v)
            else:
                out = sess.call(lambda: (
                    m.latex(), str(m), repr(m), last and last.table(),
                    last and last.summary()))
        W.end_op()
        plan.update(callback=None, process_result=None)
        end = "ok" if out[0] == "ok" else sess.excname(out[1])
        if out[0] == "ok" and kind in ("solve", "localsolve", "sweepsub"):
            last = out[1]
        W.ev("outcome", end)
        if out[0] == "exc":
            W.probe("op-failed")
            W.probe("failed-in-" + kind) if kind in ("sweep", "autosweep",
                                                     "debug") else None
        W.state(kind, [(s["what"], V[s["i"]]["k"]) for s in op.get("sw", [])],
                op.get("faults"), end)
        after = snapshot(m, sub)
        tag = "%s ended with %s" % (
            {k: x for k, x in op.items() if x not in (None, False, 0)},
            end if out[0] == "ok" else sess.short(out[1]))
        for k, val in before.items():
            if after[k] != val:
                W.violate("model-changed:" + k, "%s: %s" %
                          (tag, difference(val, after[k])))
        now = [(k, plain(x)) for k, x in args.items()]
        W.check([x for _, x in now] == [x for _, x in given] and
                len(now) == len(given), "argument-changed",
                lambda: "%s: the sweep argument was %s, is %s"
                % (tag, given, now))
        W.check(x0 == gx0, "argument-changed", lambda: "%s: x0 was %s, is %s"
                % (tag, gx0, x0))
        W.check(kw == gkw, "argument-changed", lambda: "%s: options changed"
                % tag)
        for s, key, old in restore:
            if s["what"] == "elem":
                m.substitutions[B.vars[s["i"]][s["e"]].key] = old
            elif old is None:
                del m.substitutions[key]
            else:
                m.substitutions[key] = gen.shaped(
                    V[s["i"]], np.array(old)) if s["what"] == "vector" \
                    else old
        before = None
        del out
    # after all of that the model solves as if none of it had happened
    if not trace["sp"]:
        ref = gen.Ref(spec, state)
        r = ref.solve()
        if r["status"] == "optimal":
            W.captured = []
            with sess.quiet_stdout():
                out = sess.call(m.solve, verbosity=0)
            if out[0] == "exc" and W.captured and \
                    W.captured[-1].get("status") in ("unknown", "stalled"):
                W.probe("solver-gave-up")
            elif out[0] == "exc":
                W.violate("spurious-failure", "a solve at the end: %s"
                          % sess.short(out[1]))
            else:
                W.probe("judged-at-end")
                sess.compare(out[1], B, ref, r, "a solve at the end")


def sweep_args(B, s, v, np):
    "The key and values of a sweep, in the trace's form"
    var = B.vars[s["i"]]
    vals = list(s["vals"])
    if s["what"] == "vector":
        vals = gen.shaped(v, np.array([[x*(1+.1*e) for e in range(v["d"])]
                                       for x in vals]))
        return var.key, vals
    if s["what"] == "elem":
        var = var[s["e"]]
    key = {"var": var, "key": var.key, "str": v["n"]}[s["key"]]
    if s["what"] == "elem":
        key = var.key
    if s["as"] == "array":
        vals = np.array(vals)
    elif s["as"] == "tuple":
        vals = tuple(vals)
    return key, vals


def relax(m, sub, Bounded, ConstraintsRelaxed, ConstantsRelaxed,
          ConstraintsRelaxedEqually, Model, v):
    "Builds and solves relaxations of the model"
    allrel = ConstraintsRelaxedEqually(m)
    Model(allrel.relaxvar**2 * m.cost, allrel).solve(verbosity=v)
    some = ConstraintsRelaxed(m)
    Model(some.relaxvars.prod()**2 * m.cost, some).solve(verbosity=v)
    for of in (Bounded(m), m):
        consts = ConstantsRelaxed(of)
        if consts.relaxvars.size:
            Model(consts.relaxvars.prod()**2 * m.cost,
                  consts).solve(verbosity=v)


def difference(a, b):
    "Where two snapshots differ"
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in sorted(set(a) | set(b), key=str):
            if a.get(k, "absent") != b.get(k, "absent"):
                out.append("%s was %s, is %s" % (k, a.get(k, "absent"),
                                                 b.get(k, "absent")))
        return "; ".join(out)
    return "was %.400s, is %.400s" % (a, b)


def shrink(trace):
    "Property-specific simplifications"
    import copy
    for i, op in enumerate(trace["ops"]):
        for k in ("callback", "process_result", "x0"):
            if op.get(k):
                t = copy.deepcopy(trace)
                del t["ops"][i][k]
                yield t
        if len(op.get("sw", [])) > 1:
            for j in range(len(op["sw"])):
                t = copy.deepcopy(trace)
                del t["ops"][i]["sw"][j]
                yield t
