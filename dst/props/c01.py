"""C01: a solve's answer depends on the model as it is now, not on its history."""
import random  # noqa: F401  (generation only)

from dst import gen

LEVEL = "exploration"
TECHNIQUE = ("random operation histories with solver, interrupt and output "
             "faults, every clean solve judged against an independently "
             "compiled optimum")
TIERS = {"quick": {"runs": 2400, "budget": 60, "minruns": 200, "shrink": 40},
         "thorough": {"runs": 60000, "budget": 1200, "minruns": 200,
                      "shrink": 120}}
RULE = ("each run draws 1-2 random models and 4-10 operations (solve, "
        "re-solve a held program, substitute, free/fix a constant, sweep, "
        "debug, solve with options) with solver faults, interrupts and stdout "
        "faults inside them; non-trivial: a clean solve was judged after at "
        "least one earlier operation on the same model")
REAL = ["gpkit (all of it)", "cvxopt solver", "ad", "pint", "numpy"]
STUB = ["clock", "stdout", "solver fault injection in front of cvxopt"]
STATE_MEASURE = ("(model kinds, last three operations with their outcome and "
                 "fault) at each judged solve")
FAULTS = ["solver:valueerror", "solver:boom", "solver:interrupt",
          "solver:unknown", "solver:memory", "solver:print",
          "interrupt@clock", "stdout:epipe", "stdout:interrupt"]
PROBES = ["judged-after-fault", "judged-after-interrupt", "judged-after-free",
          "judged-after-debug", "judged-after-sweep", "judged-held-program",
          "judged-shared-constraints", "really-infeasible"]
ASSUMPTIONS = ["cvxopt solves the reference formulation of the same small GP "
               "correctly (it is called directly, with data built from the "
               "specification)",
               "models are small (at most ~12 free variables)"]

SFAULTS = ["valueerror", "arith", "boom", "interrupt", "unknown", "memory",
           "print", "slow50", "print_then_boom", "sysexit",
           "primal infeasible", "dual infeasible"]
KWARGS = [{"maxiters": 150}, {"abstol": 1e-9}, {"reltol": 1e-8},
          {"refinement": 2}]


def gen_op(rng, nmodels, specs, swarm):
    "One random operation"
    mi = rng.randrange(nmodels)
    spec = specs[mi]
    V = spec["vars"]
    consts = [i for i, v in enumerate(V) if v["k"] == "const" and v["used"]
              and not v.get("freeable") and not v.get("limit")]
    kind = rng.choice(swarm["kinds"])
    op = {"op": kind, "m": mi}
    if kind == "set":
        if not consts:
            return {"op": "solve", "m": mi}
        i = rng.choice(consts)
        d = V[i]["d"]
        op.update(i=i, form=rng.choice(["var", "key", "str", "update",
                                        "quantity", "elem", "list"]),
                  v=[gen.rnd(rng, .4, 5) for _ in range(d)] if d
                  else gen.rnd(rng, .4, 5))
        return op
    if kind == "limit":
        lim = [i for i, v in enumerate(V) if v.get("limit")]
        if not lim:
            return {"op": "solve", "m": mi}
        op.update(op="set", i=lim[0], form="key",
                  v=rng.choice([1e-6, 1e-6, 2e3]))
        return op
    if kind in ("override", "relink"):
        li = [i for i, v in enumerate(V) if v["k"] == "linked" and v["used"]]
        if not li:
            return {"op": "solve", "m": mi}
        op.update(i=rng.choice(li), v=gen.rnd(rng, .5, 4))
        return op
    if kind == "cost":
        op["cost"] = [dict(t, c=gen.rnd(rng, .3, 3)) for t in spec["cost"]]
        return op
    if kind == "free":
        fr = [i for i, v in enumerate(V) if v.get("freeable")]
        if not fr:
            return {"op": "solve", "m": mi}
        op.update(i=fr[0], v=gen.rnd(rng, 200, 400))
        if rng.random() < .4:
            op["op"] = "set"
            op["form"] = "var"
        return op
    if kind in ("sweep", "autosweep", "sweepsub"):
        sc = [i for i in consts if not V[i]["d"]]
        if not sc:
            return {"op": "solve", "m": mi}
        i = rng.choice(sc)
        lo = gen.rnd(rng, .5, 2)
        op.update(i=i, vals=[lo] + [round(lo*(1+.5*j), 4)
                                    for j in range(1, rng.randint(2, 3))],
                  skip=rng.random() < .5)
    if kind in ("solve", "program", "hold", "resolve", "sweep", "sweepsub",
                "autosweep", "debug", "sens"):
        op["verbosity"] = rng.choice([0, 0, 0, 1, 2, 3])
        if rng.random() < swarm["prate"]:
            n = rng.choice([0, 0, 0, 1, 2])
            op["faults"] = {str(n): rng.choice(swarm["sfaults"])}
        elif rng.random() < swarm["prate"]/4:
            op["clock_intr"] = rng.randint(1, 6)
        elif rng.random() < swarm["prate"]/4:
            op["verbosity"] = rng.choice([1, 2, 3])
            op["stdout"] = [rng.randint(1, 6),
                            rng.choice(["epipe", "enospc", "interrupt"])]
        if kind in ("solve", "resolve", "program") and rng.random() < .2:
            op["kwargs"] = rng.choice(KWARGS)
    return op


def generate(rng, tier):
    "A run's trace"
    spec = gen.gen_spec(rng, "m", linked=rng.random() < .25,
                        limit=rng.random() < .35, freeable=rng.random() < .5,
                        eq=True, part=rng.random() < .7,
                        units=rng.random() < .6)
    specs = [spec]
    shared = None
    r = rng.random()
    if r < .3:      # second model around the same constraint objects
        spec2 = dict(spec)
        spec2["cost"] = [dict(t, c=gen.rnd(rng, .3, 3),
                              f=[[f[0], f[1], f[2]*(rng.choice([.5, 1, 1.5])
                                                    if spec["vars"][f[0]]["k"]
                                                    == "free" else 1), f[3]]
                                 for f in t["f"]]) for t in spec["cost"]]
        specs.append(spec2)
        shared = True
    elif r < .5:
        specs.append(gen.gen_spec(rng, "n", units=rng.random() < .5))
    kinds = ["solve"]*5 + ["set"]*4 + rng.sample(
        ["limit", "free", "free", "sweep", "sweepsub", "autosweep", "debug",
         "hold", "resolve", "resolve", "program", "limit", "cost", "override",
         "relink"], rng.randint(3, 11))
    if "resolve" in kinds:
        kinds.append("hold")
    swarm = {"kinds": kinds, "prate": rng.choice([0, .2, .45]),
             "sfaults": rng.sample(SFAULTS, rng.randint(1, 5))}
    ops = [{"op": "solve", "m": 0, "verbosity": 0}] if rng.random() < .5 else []
    for _ in range(rng.randint(4, 10)):
        ops.append(gen_op(rng, len(specs), specs, swarm))
    ops.append({"op": "solve", "m": rng.randrange(len(specs)), "verbosity": 0})
    return {"specs": specs, "shared": shared, "ops": ops,
            "clock": rng.choice([None, None, {"kind": "frozen"},
                                 {"kind": "tick", "dt": .5}])}


def nontrivial(trace, res):
    "At least one solve was judged after an earlier operation"
    return res.get("probes", {}).get("judged-after-history", 0) > 0


def execute(trace):
    "Runs the trace against gpkit"
    from dst import sess
    from dst.world import W
    from gpkit import Model
    from gpkit.exceptions import Infeasible
    W.captured = []
    models, states = [], []
    for si, spec in enumerate(trace["specs"]):
        if trace.get("shared") and si == 1:
            B = gen.Built(spec)
            B.vars, B.cons = models[0].vars, models[0].cons
            B.m = Model(_cost(B, spec), [models[0].m])
            states.append(dict(states[0]))
        else:
            B = gen.build(spec)
            states.append(gen.state0(spec))
        models.append(B)
    held = {}
    hist = {i: [] for i in range(len(models))}
    baseopts = None

    for op in trace["ops"]:
        mi = op["m"] if op["m"] < len(models) else 0
        B, state = models[mi], states[mi]
        spec, m, kind = B.spec, B.m, op["op"]
        W.ev("op", kind, mi, op.get("i"))
        if kind == "set":
            sess.set_value(B, m, op["i"], op["v"], op["form"], state, spec)
            hist[mi].append("set")
            continue
        if kind == "free":
            if state.get(op["i"]) is not None:
                sess.del_value(B, m, op["i"], state)
                hist[mi].append("free")
            continue
        if kind == "override":
            m.substitutions[B.vars[op["i"]]] = op["v"]
            state[op["i"]] = op["v"]
            hist[mi].append(kind)
            continue
        if kind == "relink":
            m.substitutions[B.vars[op["i"]]] = gen.make_fn(
                spec["vars"][op["i"]]["fn"], B.vars, spec)
            state.pop(op["i"], None)
            hist[mi].append(kind)
            continue
        if kind == "cost":
            spec = dict(spec, cost=op["cost"])
            B.spec = spec
            m.cost = _cost(B, spec)
            hist[mi].append(kind)
            continue
        if kind == "hold":
            got = sess.call(m.gp)
            if got[0] == "ok":
                held[mi] = (got[1], dict(state), spec)
            hist[mi].append("hold")
            continue
        if kind == "resolve" and mi not in held:
            continue
        W.begin_op(op.get("faults"), op.get("clock_intr"))
        nfaults = sum(W.faults.values())
        kw = dict(op.get("kwargs") or {})
        kw["verbosity"] = op.get("verbosity", 0)
        so = op.get("stdout") or [None, None]
        ncap = len(W.captured)
        use_state = state
        with sess.quiet_stdout(fail_at=so[0], kind=so[1]):
            if kind == "solve":
                out = sess.call(m.solve, **kw)
            elif kind == "program":
                out = sess.call(lambda: m.gp().solve(**kw))
            elif kind == "resolve":
                prog, use_state, spec = held[mi]
                out = sess.call(prog.solve, **kw)
            elif kind == "sweep":
                out = sess.call(m.sweep, {B.vars[op["i"]]: op["vals"]},
                                skipsweepfailures=op["skip"], **kw)
            elif kind == "sweepsub":
                m.substitutions.update({B.vars[op["i"]]:
                                        ("sweep", op["vals"])})
                out = sess.call(m.solve, skipsweepfailures=op["skip"], **kw)
            elif kind == "autosweep":
                out = sess.call(m.autosweep, {B.vars[op["i"]]:
                                              (op["vals"][0], op["vals"][-1])},
                                tol=.05, samplepoints=3, **kw)
            elif kind == "debug":
                out = sess.call(m.debug, **kw)
            else:
                raise ValueError(kind)
        W.end_op()
        faulted = sum(W.faults.values()) > nfaults
        W.ev("outcome", out[0] if out[0] == "ok" else sess.excname(out[1]))
        if kind in ("sweep", "sweepsub", "autosweep"):
            # whatever the sweep left behind, the user now sets a value
            m.substitutions[B.vars[op["i"]]] = state[op["i"]]
        # the options the solver saw are this call's and no other's
        if kind in ("solve", "program", "resolve"):
            for rec in W.captured[ncap:]:
                given = op.get("kwargs") or {}
                rec["options"] = {k: v for k, v in rec["options"].items()
                                  if isinstance(v, (int, float, str))}
                if baseopts is None and not given:
                    baseopts = rec["options"]
                if baseopts is not None:
                    want = dict(baseopts, **given)
                    if rec is not W.captured[ncap]:
                        continue    # debug() runs its own solves
                    W.check(rec["options"] == want, "leaked-options",
                            "solver called with %s, should be %s"
                            % (rec["options"], want))
        if kind in ("solve", "program", "resolve") and not faulted:
            ref = gen.Ref(spec, use_state)
            r = ref.solve()
            if r["status"] == "optimal":
                if out[0] != "ok" and W.captured[ncap:] and \
                        W.captured[-1].get("status") == "unknown":
                    W.probe("solver-gave-up")   # numerics, on its own
                elif out[0] != "ok":
                    W.violate("spurious-failure", "%s of a solvable model (%s"
                              " before): %s" % (kind, hist[mi][-3:],
                                                sess.short(out[1])))
                elif out[1] is None:
                    W.violate("no-answer", "%s returned None" % kind)
                else:
                    # a zero-soltime/verbose solve still returns one point
                    sess.compare(out[1], B, ref, r, "%s after %s"
                                 % (kind, hist[mi][-4:]))
                    if kind == "solve":
                        W.check(m.solution is out[1], "stale-solution",
                                "m.solution is not the solution returned")
                if hist[mi]:
                    W.probe("judged-after-history")
                    for h in hist[mi]:
                        for p in ("fault", "interrupt", "free", "debug",
                                  "sweep"):
                            if p in h:
                                W.probe("judged-after-"+p)
                if kind == "resolve":
                    W.probe("judged-held-program")
                if trace.get("shared"):
                    W.probe("judged-shared-constraints")
                W.state(spec["wrap"], trace.get("shared"), kind,
                        tuple(hist[mi][-3:]))
            elif r["status"] == "constant-infeasible":
                W.probe("really-infeasible")
                W.check(out[0] == "exc" and isinstance(out[1], Infeasible),
                        "accepted-infeasible", "a model whose constants "
                        "violate a constraint gave %s" % (out,))
            else:
                W.probe("really-infeasible")
        h = kind
        if faulted:
            h += "+fault"
            if out[0] == "exc" and isinstance(out[1], KeyboardInterrupt):
                h += "+interrupt"
        hist[mi].append(h)


def _cost(B, spec):
    "gpkit cost of a spec over already-built variables"
    import gpkit
    tot = None
    for t in spec["cost"]:
        out = t["c"]
        for i, idx, exp, u in t["f"]:
            x = B.vars[i] if idx is None else B.vars[i][idx]
            if u:
                x = x/gpkit.units(u)
            out = out*x**exp
        tot = out if tot is None else tot+out
    return tot


def shrink(trace):
    "Property-specific simplifications"
    import copy
    if len(trace["specs"]) == 2 and not any(o["m"] for o in trace["ops"]):
        t = copy.deepcopy(trace)
        t["specs"] = t["specs"][:1]
        t["shared"] = None
        yield t
