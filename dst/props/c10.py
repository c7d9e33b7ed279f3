"""C10: every solver adapter hands over the model and reads back the answer."""
from dst import gen

LEVEL = "exploration"
TECHNIQUE = ("simulated solvers behind every adapter - cvxopt, a simulated "
             "mskexpopt program exchanging files, a simulated mosek module "
             "receiving rows, bounds and cones - solve only what reaches them, "
             "under seeded statuses and failures; results are judged against "
             "an independent optimum of the model")
TIERS = {"quick": {"runs": 4000, "budget": 40, "minruns": 200, "shrink": 40},
         "thorough": {"runs": 100000, "budget": 900, "minruns": 200,
                      "shrink": 120}}
RULE = ("each run builds 1 random GP (a fifth: SP) and performs 3-7 solves, "
        "program solves, sweeps, local solves and changes of constants, each "
        "through a seeded adapter, a third with a failing solver; non-trivial:"
        " at least one result through a mosek adapter was compared")
REAL = ["gpkit (all of it, with both mosek adapters)", "cvxopt solver"]
STUB = ["clock", "stdout", "mskexpopt (a program that reads and writes its "
        "files)", "the mosek module (rebuilds and solves the conic problem)"]
STATE_MEASURE = "(operation, adapter, solver's fate, outcome)"
FAULTS = ["mskexpopt:exit", "mskexpopt:status", "mskexpopt:chatter",
          "mskexpopt:slow", "mosek:err", "mosek:sta", "mosek:memory",
          "mosek:interrupt", "mosek:slow", "mosek:noenv",
          "solver:unknown", "solver:valueerror", "solver:arith"]
PROBES = ["compared:mosek_cli", "compared:mosek_conif", "compared:cvxopt",
          "compared:cvxopt-split", "compared:default", "license",
          "solved-after-failure", "local", "swept", "no-such-solver"]
ASSUMPTIONS = ["the simulated mskexpopt and mosek module follow the formats "
               "and meanings gpkit's own adapters document; that real MOSEK "
               "does so too is not checked here"]

ADAPTERS = ["mosek_cli", "mosek_cli", "mosek_conif", "mosek_conif",
            "cvxopt", "cvxopt-split"]
FATES = {"mosek_cli": ["exit=233", "exit=240", "exit=1", "exit=-11",
                       "status=PRIMAL_INFEASIBLE", "status=DUAL_INFEASIBLE",
                       "status=UNKNOWN", "status=NEAR_OPTIMAL", "chatter",
                       "slow"],
         "mosek_conif": ["err=err_missing_license_file",
                         "err=err_license_version", "err=err_license_expired",
                         "err=err_space", "memory", "interrupt", "slow",
                         "sta=prim_infeas_cer", "sta=dual_infeas_cer",
                         "sta=unknown", "sta=near_optimal", "noenv"],
         "cvxopt": ["unknown", "valueerror", "arith"]}
FATES["cvxopt-split"] = FATES["cvxopt"]


def generate(rng, tier):
    "A run's trace"
    sp = rng.random() < .2
    spec = gen.gen_spec(rng, "m", sp=sp, units=rng.random() < .4,
                        part=rng.random() < .3, eq=True,
                        linked=not sp and rng.random() < .15)
    V = spec["vars"]
    consts = [i for i, v in enumerate(V) if v["k"] == "const" and v["used"]
              and not v.get("limit") and not v["d"]]
    out = []
    for _ in range(rng.randint(3, 7)):
        kind = rng.choice(["solve", "solve", "solve", "program", "sweep",
                           "set", "bad"] if not sp else
                          ["localsolve", "localsolve", "localsolve", "set"])
        if kind in ("sweep", "set") and not consts:
            kind = "localsolve" if sp else "solve"
        a = rng.choice(ADAPTERS)
        op = {"op": kind, "adapter": a, "verbosity": rng.choice([0, 0, 0, 3]),
              "default": rng.random() < .25 and a != "cvxopt-split",
              "fate": None}
        if kind not in ("set", "bad", "localsolve") and rng.random() < .35:
            op["fate"] = rng.choice(FATES[a])
        if kind == "set":
            op.update(i=rng.choice(consts), v=gen.rnd(rng, .5, 4))
        if kind == "sweep":
            lo = gen.rnd(rng, .5, 2)
            op.update(i=rng.choice(consts),
                      vals=[round(lo*(1+.4*j), 4)
                            for j in range(rng.randint(2, 3))])
        out.append(op)
    return {"spec": spec, "sp": sp, "ops": out, "clock": None}


def nontrivial(trace, res):
    "A result was compared"
    p = res.get("probes", {})
    return any(k.startswith("compared:mosek") for k in p) or "local" in p


def expected(adapter, fate):
    "-> exception class of a failing solver, or None"
    from gpkit import exceptions as ex
    if fate in (None, "chatter", "slow"):
        return None
    if fate == "interrupt":
        return KeyboardInterrupt
    if fate in ("exit=233", "exit=240") or fate.startswith("err=err_") and \
            "license" in fate:
        return ex.InvalidLicense
    if fate in ("status=PRIMAL_INFEASIBLE", "sta=prim_infeas_cer"):
        return ex.PrimalInfeasible
    if fate in ("status=DUAL_INFEASIBLE", "sta=dual_infeas_cer",
                "valueerror"):
        return ex.DualInfeasible
    return ex.UnknownInfeasible


def execute(trace):
    "Runs the trace"
    import gpkit
    from dst import sess, msk, world
    from dst.world import W
    msk.install_cli()
    msk.install_api()
    B = gen.build(trace["spec"])
    state = gen.state0(trace["spec"])
    m = B.m
    failed = False
    for op in trace["ops"]:
        kind, a = op["op"], op["adapter"]
        W.ev("op", kind, a, op["fate"])
        if kind == "set":
            m.substitutions[B.vars[op["i"]]] = op["v"]
            state[op["i"]] = op["v"]
            continue
        kw = {"verbosity": op["verbosity"]}
        if a == "cvxopt-split":
            kw.update(solver="cvxopt", use_leqs=False)
        elif op["default"]:
            gpkit.settings["default_solver"] = a
        else:
            kw["solver"] = a
        if kind == "bad":
            with sess.quiet_stdout():
                out = sess.call(m.solve, solver="nosuchsolver", verbosity=0)
            W.check(out[0] == "exc" and isinstance(out[1], ValueError),
                    "unknown-solver", lambda: out[1])
            W.probe("no-such-solver")
            continue
        fate = op["fate"]
        msk.Cli.begin()
        msk.Api.plan = None
        faults = {}
        if fate and a == "mosek_cli":
            msk.Cli.begin({"kind": fate})
        elif fate and a == "mosek_conif":
            msk.Api.plan = {"kind": fate}
        elif fate:
            faults = {"*": fate}
        if fate and expected(a, fate):
            kw["verbosity"] = 0     # at 1 gpkit goes on to debug the model
        W.begin_op(faults)
        calls, tasks, solves = len(msk.Cli.calls), msk.Api.tasks, W.opsolves
        with sess.quiet_stdout():
            if kind == "solve":
                out = sess.call(m.solve, **kw)
            elif kind == "program":
                out = sess.call(lambda: m.gp().solve(**kw))  # pylint: disable=cell-var-from-loop
            elif kind == "sweep":
                out = sess.call(m.sweep, {B.vars[op["i"]]: op["vals"]}, **kw)
                m.substitutions[B.vars[op["i"]]] = state[op["i"]]
            else:
                out = sess.call(m.localsolve, **kw)
        W.end_op()
        msk.Cli.plan = msk.Api.plan = None
        gpkit.settings["default_solver"] = "cvxopt"
        used = "mosek_cli" if len(msk.Cli.calls) > calls else \
            "mosek_conif" if msk.Api.tasks > tasks else \
            "cvxopt" if W.opsolves > solves else None
        W.ev("outcome", out[0] if out[0] == "ok" else sess.excname(out[1]))
        W.state(kind, a, fate, out[0])
        want = expected(a, fate)
        if want is not None and not (out[0] == "exc" and isinstance(
                out[1], gpkit.exceptions.PrimalInfeasible) and used is None):
            failed = True
            if want is gpkit.exceptions.InvalidLicense:
                W.probe("license")
            ok = out[0] == "exc" and type(out[1]) is want or \
                out[0] == "exc" and want not in (
                    KeyboardInterrupt, gpkit.exceptions.InvalidLicense,
                    gpkit.exceptions.PrimalInfeasible,
                    gpkit.exceptions.DualInfeasible) and \
                isinstance(out[1], want)
            if kind == "sweep":     # reported by the first point that failed
                ok = out[0] == "exc"
            if not W.check(ok, "wrong-outcome", lambda:
                           "%s through %s with %s: %s, should be %s" %
                           (kind, a, fate, out[1] if out[0] == "ok" else
                            sess.short(out[1]), want.__name__)):
                return
            continue
        if trace["sp"]:
            if not local(trace, B, state, out, a):
                return
            continue
        states = [state]
        if kind == "sweep":
            states = [{**state, op["i"]: v} for v in op["vals"]]
        refs = []
        for s in states:
            ref = gen.Ref(trace["spec"], s)
            refs.append((ref, ref.solve()))
        if any(r["status"] != "optimal" for _, r in refs):
            W.probe("not-judged")
            continue
        if out[0] != "ok":
            if _gave_up(out[1]):
                W.probe("solver-gave-up")
                continue
            W.violate("spurious-failure", "%s through %s%s: %s" %
                      (kind, a, " after a failure" if failed else "",
                       sess.short(out[1])))
            return
        if not W.check(used == a.split("-")[0], "wrong-solver",
                       "%s was asked for, %s was used" % (a, used)):
            return
        for n, (ref, r) in enumerate(refs):
            res = out[1]
            if kind == "sweep" and len(refs) > 1:
                res = res.atindex(n)
            if not sess.compare(res, B, ref, r, "%s through %s" % (kind, a)):
                return
        W.probe("compared:"+a)
        if op["default"]:
            W.probe("compared:default")
        if kind == "sweep":
            W.probe("swept")
        if failed:
            W.probe("solved-after-failure")
    del world


def _gave_up(e):
    "The simulated solver's own numerics"
    from dst import ops
    text = " ".join(str(x) for x in ops.chain(e))
    return "UNKNOWN" in text or "solution status" in text or "stalled" in text


def local(trace, B, state, out, a):
    "A local solve's first solve is of the approximation about its start"
    from dst import sess
    from dst.world import W
    if out[0] != "ok":
        if _gave_up(out[1]) or "Unsolved after" in str(out[1]):
            W.probe("solver-gave-up")
            return True
        W.violate("spurious-failure", "localsolve through %s: %s" %
                  (a, sess.short(out[1])))
        return False
    with sess.quiet_stdout():
        mine = sess.call(B.m.localsolve, verbosity=0, solver="cvxopt")
    if mine[0] != "ok":
        W.probe("solver-gave-up")
        return True
    sol = out[1]
    ref = gen.Ref(trace["spec"], state)
    x = [sess.value(sol, B, i, e) for i, e in ref.free]
    for kind, ms, ci, _ in ref.posys():
        if kind == "c":
            v = sum(ref.evalm(mo, x) for mo in ms)
            ok = sess.relclose(v, sess.mag(sol["cost"]), 2e-3)
        elif kind == "le":
            ok = sum(ref.evalm(mo, x) for mo in ms) < 1+2e-3
        elif kind == "eq":
            ok = abs(ref.evalm(ms[0], x)-1) < 2e-3
        else:
            l, r = (sum(ref.evalm(mo, x) for mo in q) for q in ms)
            ok = r <= l*(1+5e-3) or sess.mag(sol["cost"]) == 0
            if not ok and "warnings" in sol and sol["warnings"]:
                ok = True   # slack, and said so
        if not W.check(ok, "wrong-answer", "localsolve through %s: %s of "
                       "constraint %s does not hold" % (a, kind, ci)):
            return False
    W.probe("local")
    return True
