"""C02: a solver failure always surfaces, as the documented exception."""
from dst import gen, ops

LEVEL = "exploration"
TECHNIQUE = ("simulated runs in which every way a solver can fail is injected "
             "at seeded solver calls of solves, local solves, sweeps and "
             "autosweeps; the outcome is judged against a table of what each "
             "failure must surface as")
TIERS = {"quick": {"runs": 2600, "budget": 45, "minruns": 200, "shrink": 40},
         "thorough": {"runs": 60000, "budget": 900, "minruns": 200,
                      "shrink": 120}}
RULE = ("each run builds 1 random GP or SP and performs 3-7 solver operations "
        "(solve, program solve, localsolve, sweep, autosweep; cvxopt or a "
        "user-supplied solver function; verbosity 0-3) with seeded solver "
        "failures; non-trivial: at least one failure fired inside one")
REAL = ["gpkit (all of it)", "cvxopt solver"]
STUB = ["clock", "stdout", "solver failures are raised or returned in front "
        "of cvxopt, or by a user-supplied solver function"]
STATE_MEASURE = "(operation, solver kind, verbosity, fault, outcome)"
FAULTS = ["solver:valueerror", "solver:arith", "solver:boom",
          "solver:interrupt", "solver:sysexit", "solver:unknown",
          "solver:memory", "solver:typeerror", "solver:oserror"] \
    + ops.RAISES + ops.RETURNS[:-1]
PROBES = ["really-infeasible", "all-points-failed", "points-skipped",
          "sweep-halted", "debug-also-failed", "debug-recovered",
          "halted-progress-checked", "solution-kept"]
ASSUMPTIONS = ["a custom solver follows the documented interface except where "
               "a fault says otherwise"]

SFAULTS = ["valueerror", "arith", "zerodiv", "memory", "typeerror", "oserror",
           "boom", "interrupt", "sysexit", "print_then_boom", "unknown",
           "primal infeasible", "dual infeasible", "print", "slow3"]
CFAULTS = ops.RAISES + ops.RETURNS[:-1]
LATE = ["ret:long", "ret:short", "ret:noduals", "ret:shortdual"]


def generate(rng, tier):
    "A run's trace"
    sp = rng.random() < .3
    spec = gen.gen_spec(rng, "m", sp=sp, limit=not sp and rng.random() < .4,
                        units=rng.random() < .4, part=rng.random() < .6,
                        linked=rng.random() < .15)
    V = spec["vars"]
    consts = [i for i, v in enumerate(V) if v["k"] == "const" and v["used"]
              and not v.get("limit") and not v["d"]]
    swarm = rng.sample(SFAULTS, rng.randint(2, 6)) \
        + rng.sample(CFAULTS, rng.randint(2, 6))
    out = []
    for _ in range(rng.randint(3, 7)):
        kind = rng.choice(["solve", "solve", "program", "sweep", "sweep",
                           "autosweep", "set"] if not sp else
                          ["localsolve", "localsolve", "sweep", "set"])
        if kind in ("sweep", "autosweep") and not consts:
            kind = "localsolve" if sp else "solve"
        if kind == "set":
            lim = [i for i, v in enumerate(V) if v.get("limit")]
            i = rng.choice(lim or consts or [None])
            if i is None:
                continue
            out.append({"op": "set", "i": i, "v": gen.rnd(rng, .5, 3)
                        if not lim else rng.choice([1e-6, 1e4])})
            continue
        op = {"op": kind, "solver": rng.choice(["cvxopt", "default",
                                                "custom", "custom"]),
              "verbosity": rng.choice([0, 0, 0, 1, 2, 3])}
        pool = [f for f in swarm if op["solver"] == "custom"
                or not f.startswith(("raise:", "ret:"))]
        if sp:   # a later iteration may make up for these
            pool = [f for f in pool if f not in LATE]
        n = 1
        if kind == "sweep":
            n = rng.randint(2, 4)
            lo = gen.rnd(rng, .5, 2)
            op.update(i=rng.choice(consts), skip=rng.random() < .6,
                      vals=[round(lo*(1+.4*j), 4) for j in range(n)],
                      form=rng.choice(["sweep", "subs"]))
        if kind == "autosweep":
            lo = gen.rnd(rng, .5, 2)
            op.update(i=rng.choice(consts), vals=[lo, round(lo*3, 4)])
            n = 3
        if sp:
            n *= 3
        if pool and rng.random() < .8:
            if rng.random() < .2:
                op["faults"] = {"*": rng.choice(pool)}
            else:
                op["faults"] = {str(rng.randrange(n)): rng.choice(pool)
                                for _ in range(rng.randint(1, 2))}
        out.append(op)
    return {"spec": spec, "sp": sp, "ops": out,
            "clock": rng.choice([None, None, {"kind": "frozen"},
                                 {"kind": "tick", "dt": .9}])}


def nontrivial(trace, res):
    "A failure fired"
    return bool(res.get("faults"))


def execute(trace):
    "Runs the trace against gpkit"
    from dst import sess
    from dst.world import W
    from gpkit import exceptions as ex
    spec = trace["spec"]
    B = gen.build(spec)
    m = B.m
    state = gen.state0(spec)
    W.captured = []
    last = m.solution

    for op in trace["ops"]:
        kind = op["op"]
        W.ev("op", kind)
        if kind == "set":
            sess.set_value(B, m, op["i"], op["v"], "var", state, spec)
            continue
        solver = {"cvxopt": "cvxopt", "default": None}.get(op["solver"])
        if op["solver"] == "custom":
            solver = ops.custom_solver()
        v = op["verbosity"]
        kw = {"solver": solver, "verbosity": v}
        fired = []
        nfaults = dict(W.faults)
        ncap = len(W.captured)
        order = []
        orig = W.fired

        def spy(name, order=order, orig=orig):
            "remembers the order in which faults fired"
            order.append(name[7:] if name.startswith("solver:") else name)
            orig(name)
        W.fired = spy
        W.begin_op(op.get("faults"))
        sub = None
        with sess.quiet_stdout() as printed:
            if kind == "solve":
                out = sess.call(m.solve, **kw)
            elif kind == "program":
                out = sess.call(lambda: m.gp().solve(**kw))
            elif kind == "localsolve":
                out = sess.call(m.localsolve, **kw)
            elif kind == "sweep":
                var = B.vars[op["i"]]
                if op["form"] == "sweep" or trace["sp"]:
                    out = sess.call(m.sweep, {var: op["vals"]},
                                    skipsweepfailures=op["skip"], **kw)
                else:
                    m.substitutions.update({var: ("sweep", op["vals"])})
                    out = sess.call(m.solve, skipsweepfailures=op["skip"],
                                    **kw)
                    sub = True
            else:
                out = sess.call(m.autosweep, {B.vars[op["i"]]: op["vals"]},
                                tol=.3, samplepoints=3, **kw)
        W.end_op()
        del W.fired
        if sub:
            m.substitutions[B.vars[op["i"]]] = state[op["i"]]
        fired = [f for f in order if not f.startswith("slow")
                 and f not in ops.HARMLESS]
        # failures cvxopt itself reported (as opposed to injected ones)
        recs = W.captured[ncap:]
        natural = [r for r in recs if "status" not in r
                   or (r["status"] != "optimal")]
        nnatural = len(natural) - sum(
            1 for f in fired if not f.startswith(("raise:", "ret:")))
        res = out[0] if out[0] == "ok" else sess.excname(out[1])
        W.ev("outcome", res)
        W.state(kind, op["solver"], v, tuple(fired[:2]), res)
        tag = "%s(verbosity=%i) with faults %s" % (kind, v, fired)
        exc = out[1] if out[0] == "exc" else None
        if exc is not None:
            W.check(m.solution is last or kind == "autosweep" or
                    (kind == "sweep" and trace["sp"]), "solution-replaced",
                    lambda: "%s raised %s, yet m.solution changed"
                    % (tag, sess.short(exc)))
            if last is not None:
                W.probe("solution-kept")
            if kind == "autosweep":
                last = m.solution
        elif kind not in ("program", "autosweep"):
            W.check(out[1] is not None and m.solution is out[1],
                    "solution-not-set", "%s: m.solution is not what was "
                    "returned (%r)" % (tag, type(out[1])))
            last = m.solution
        else:
            last = m.solution

        bases = [f for f in fired if f in ops.BASE]
        if bases:   # never swallowed, whatever else happened
            W.check(isinstance(exc, ops.BASE[bases[-1]])
                    and fired[-1] == bases[-1], "swallowed-interrupt",
                    lambda: "%s ended with %s" % (tag, out))
            continue
        if kind == "sweep":
            judge_sweep(W, sess, ex, op, out, fired, nnatural, tag, m)
            continue
        if not fired:
            if isinstance(exc, ex.Infeasible) and kind == "localsolve" \
                    and "iteration" in str(exc):
                W.probe("sp-did-not-converge")
            elif nnatural == 0 and recs:
                W.check(exc is None, "spurious-failure", lambda: "%s, though "
                        "every solve was optimal: %s" % (tag, sess.short(exc)))
            elif exc is not None:
                W.probe("really-infeasible")
                W.check(isinstance(exc, RuntimeWarning), "undocumented-class",
                        lambda: "%s of an infeasible model: %s"
                        % (tag, sess.short(exc)))
            elif v < 1 or kind == "program" and v < 1:
                W.violate("failure-hidden", "%s returned a solution although "
                          "the solver reported %s" %
                          (tag, [r.get("status") for r in recs]))
            continue
        # something failed
        want, cause = ops.expected(fired[0])
        if nnatural and exc is not None and isinstance(exc, ex.Infeasible):
            continue    # the solver failed on its own as well
        if exc is None:
            # the one documented way around an exception: a fast verbose
            # solve prints why it failed and returns .debug()'s relaxation
            ok = (v >= 1 and kind in ("solve", "program")
                  and issubclass(want, ex.Infeasible)
                  and "let's run `.debug()`" in printed.text() and recs)
            if kind == "localsolve" or kind == "autosweep":
                ok = ok or (v >= 2 and "let's run `.debug()`"
                            in printed.text() and kind == "localsolve")
            if ok:
                W.probe("debug-recovered")
            else:
                W.violate("failure-hidden", "%s returned %s"
                          % (tag, type(out[1]).__name__))
            continue
        if len(fired) > 1:
            W.probe("debug-also-failed")
        names = [ops.expected(f)[0] for f in fired]
        if want is Exception:
            W.check(isinstance(exc, Exception), "undocumented-class",
                    lambda: "%s: %s" % (tag, sess.short(exc)))
            continue
        if any(n is Exception or n is ex.InvalidLicense for n in names[1:]):
            continue    # debug() met a solver that returns garbage
        if kind == "autosweep" and v >= 2 and issubclass(want, ex.Infeasible):
            # .debug() ran, and may have succeeded, in between
            W.check(isinstance(exc, ex.Infeasible), "wrong-class", lambda:
                    "%s raised %s" % (tag, sess.short(exc)))
            continue
        right = type(exc) is want or (fired[0] == "raise:sub"
                                      and isinstance(exc, want))
        W.check(right, "wrong-class", lambda: "%s raised %s, should be %s"
                % (tag, sess.short(exc), want.__name__))
        if cause:
            W.check(any(isinstance(c, cause) and ("sim" in str(c) or
                                                  cause is not Exception)
                        for c in ops.chain(exc)[1:]), "cause-lost",
                    lambda: "%s: %s is not among the causes of %s"
                    % (tag, cause.__name__, sess.short(exc)))


def judge_sweep(W, sess, ex, op, out, fired, nnatural, tag, m):
    "What a sweep over failing points must do"
    exc = out[1] if out[0] == "exc" else None
    n = len(op["vals"])
    wants = [ops.expected(f)[0] for f in fired]
    fatal = [w for w in wants if not issubclass(w, ex.Infeasible)]
    if fatal:
        W.check(exc is not None, "failure-hidden",
                "%s: the sweep returned normally" % tag)
        if exc is not None and fatal[0] is ex.InvalidLicense:
            W.check(isinstance(exc, (ex.InvalidLicense, RuntimeWarning)),
                    "wrong-class", lambda: "%s: %s" % (tag, sess.short(exc)))
        return
    nfail = len(fired) + nnatural
    if not op["skip"]:
        if nfail:
            W.probe("sweep-halted")
            ok = (exc is not None and isinstance(exc, RuntimeWarning)
                  and not isinstance(exc, ex.Infeasible))
            W.check(ok, "failure-hidden" if exc is None else "wrong-class",
                    lambda: "%s: halted sweep gave %s" %
                    (tag, exc is not None and sess.short(exc)))
            if ok and fired and not nnatural:
                right = any(type(c) is wants[0] or fired[0] == "raise:sub"
                            and isinstance(c, wants[0])
                            for c in ops.chain(exc))
                W.check(right, "cause-lost", lambda: "%s: no %s among the "
                        "causes of %s" % (tag, wants[0].__name__,
                                          sess.short(exc)))
                # progress is saved to m.program
                W.probe("halted-progress-checked")
                progs = m.program
                W.check(isinstance(progs, list) and 1 <= len(progs) <= n,
                        "progress-lost", lambda: "%s: m.program is %r"
                        % (tag, type(progs)))
                if isinstance(progs, list):
                    for p in progs[:-1]:
                        got = sess.call(lambda p=p: p.result["cost"])
                        W.check(got[0] == "ok", "progress-lost", lambda:
                                "%s: an earlier point's result: %s"
                                % (tag, sess.short(got[1])))
        else:
            W.check(exc is None, "spurious-failure", lambda: "%s: %s"
                    % (tag, sess.short(exc)))
    else:
        if nfail >= n:
            W.probe("all-points-failed")
            W.check(isinstance(exc, RuntimeWarning)
                    and not isinstance(exc, ex.Infeasible),
                    "failure-hidden" if exc is None else "wrong-class",
                    lambda: "%s: every point failed, yet %s" %
                    (tag, "it returned" if exc is None else sess.short(exc)))
        elif exc is not None:
            W.violate("spurious-failure", "%s: %i of %i points failed and "
                      "failures were to be skipped: %s"
                      % (tag, nfail, n, sess.short(exc)))
        elif nfail:
            W.probe("points-skipped")
    if exc is None:
        W.check(len(out[1]) == n - nfail, "failure-hidden",
                lambda: "%s: %i of %i points failed, the solution has %i"
                % (tag, nfail, n, len(out[1])))


def shrink(trace):
    "Property-specific simplifications"
    import copy
    for i, op in enumerate(trace["ops"]):
        if op.get("verbosity"):
            t = copy.deepcopy(trace)
            t["ops"][i]["verbosity"] = 0
            yield t
