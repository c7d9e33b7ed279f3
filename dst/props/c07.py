"""C07: sequential GPs iterate, end and report as documented."""
from dst import gen

LEVEL = "exploration"
TECHNIQUE = ("simulated sequences of local solves in which solver calls fail, "
             "are interrupted or return perturbed optima at seeded iterations; "
             "every iteration is refined against an independently built GP "
             "approximation of the model about the point before it")
TIERS = {"quick": {"runs": 1500, "budget": 60, "minruns": 120, "shrink": 40},
         "thorough": {"runs": 40000, "budget": 900, "minruns": 150,
                      "shrink": 120}}
RULE = ("each run builds 1 random signomial model (sums of fresh variables, "
        "constraints whose terms cancel in some approximations, signomial "
        "equalities) and performs 2-6 local solves of it or of an earlier "
        "program of it, from initial guesses in every documented form, with "
        "and without the slack penalty, with constants changed in between; "
        "non-trivial: at least 3 iterations were refined and a fault fired "
        "or an initial guess was given")
REAL = ["gpkit (all of it)", "cvxopt solver"]
STUB = ["clock", "stdout", "what a solver returned may be altered"]
STATE_MEASURE = "(start, options, iterations, fault, outcome)"
FAULTS = ["solver:" + k for k in ["interrupt", "boom", "unknown", "valueerror",
                                  "memory", "arith"]] \
    + ["perturb:primal", "perturb:objective"]
PROBES = ["iterations-refined", "cost-rose", "slack-used", "iteration-limit",
          "resumed-after-failure", "equality", "cancelled-term",
          "guess:var", "guess:name", "guess:key", "guess:quantity",
          "guess:element", "guess:solution", "step-reference-unsolved",
          "constants-in-guess", "continued-program"]
ASSUMPTIONS = ["cvxopt's optimum of an approximation is compared to 1e-3"]
BAD = ["interrupt", "boom", "unknown", "valueerror", "memory", "arith"]


def extras(rng, spec):
    "Adds signomial constraints whose approximations change shape"
    V = spec["vars"]
    consts = [i for i, v in enumerate(V) if v["k"] == "const" and v["used"]
              and not v["d"]]

    def add(n):
        V.append({"n": n, "k": "free", "u": None, "d": 0, "v": None,
                  "part": 0, "used": 1})
        i = len(V)-1
        spec["cons"].append({"o": ">=", "l": [{"c": 1., "f": [[i, None, 1, None]]}],
                             "r": [{"c": gen.rnd(rng, .02, .2), "f": []}]})
        return i

    def t(c, *fs):
        return {"c": c, "f": [[i, None, e, None] for i, e in fs]}
    for kind in rng.sample(["cancel", "cancel1", "eq", "drop"],
                           rng.choice([0, 1, 1, 1, 2])):
        y, z = add("m_y" + kind), add("m_z" + kind)
        spec["cost"].append(t(gen.rnd(rng, .5, 2), (y, rng.choice([.5, 1]))))
        spec["cost"].append(t(gen.rnd(rng, .5, 4), (z, 1)))
        c0 = t(gen.rnd(rng, .5, 3))
        if consts and rng.random() < .5:
            i = rng.choice(consts)
            c0["f"].append([i, None, 1, V[i]["u"]])
        if kind == "cancel":
            spec["cons"].append({"o": "sp", "l": [t(1., (y, 2)), t(1., (z, 2))],
                                 "r": [t(gen.rnd(rng, .4, 1.2), (y, 1), (z, 1)),
                                       c0]})
        elif kind == "cancel1":
            spec["cons"].append({"o": "sp", "l": [t(1., (y, 2)), t(1., (z, 1))],
                                 "r": [t(gen.rnd(rng, .4, 1.2), (y, 1))]})
            w = add("m_w" + kind)
            spec["cons"].append({"o": ">=", "l": [t(1., (w, 1))],
                                 "r": [t(gen.rnd(rng, .3, 2), (y, -1))]})
            spec["cost"].append(t(gen.rnd(rng, .5, 2), (w, 1)))
        elif kind == "drop":   # z's exponent vanishes if it is what y**2 is
            spec["cons"].append({"o": "sp",
                                 "l": [t(1., (y, 2), (z, 1)),
                                       t(1., (z, -1), (y, 1))],
                                 "r": [c0]})
            spec["cons"].append({"o": ">=", "l": [t(1., (z, 1))],
                                 "r": [t(gen.rnd(rng, .1, 1), (y, -.5))]})
        else:
            spec["cons"].append({"o": "spe", "l": [t(1., (y, 1)), t(1., (z, 1))],
                                 "r": [c0]})


def generate(rng, tier):
    "A run's trace"
    spec = gen.gen_spec(rng, "m", sp=True, units=rng.random() < .4,
                        part=False, eq=rng.random() < .3,
                        linked=rng.random() < .15)
    if rng.random() < .6:
        extras(rng, spec)
    V = spec["vars"]
    consts = [i for i, v in enumerate(V) if v["k"] == "const" and v["used"]]
    free = [i for i, v in enumerate(V) if v["k"] == "free"]
    out = []
    for _ in range(rng.randint(2, 6)):
        op = {"op": rng.choice(["localsolve", "localsolve", "sp", "again"]),
              "verbosity": rng.choice([0, 0, 0, 1, 2, 3]), "faults": {},
              "solver": rng.choice(["cvxopt", "custom"]), "perturb": {}}
        if consts and rng.random() < .3:
            i = rng.choice(consts)
            f = gen.rnd(rng, .6, 1.6)
            op["set"] = [i, [round(x*f, 4) for x in V[i]["v"]] if V[i]["d"]
                         else round(V[i]["v"]*f, 4)]
        if op["op"] == "sp":
            op["pccp"] = rng.random() < .6
            op["penalty"] = rng.choice([200., 200., 20., 5., 1., .3])
        r = rng.random()
        if r < .45:
            op["x0"] = []
            for i in rng.sample(free, rng.randint(1, len(free))):
                d = V[i]["d"]
                form = rng.choice(["var", "name", "key", "quantity", "element"]
                                  if not d else ["var", "key", "element"])
                op["x0"].append([i, form, [gen.rnd(rng, .1, 10)
                                           for _ in range(d)]
                                 if d else gen.rnd(rng, .1, 10)])
            if consts and rng.random() < .3:
                i = rng.choice(consts)
                if not V[i]["d"]:
                    op["x0"].append([i, "var", gen.rnd(rng, .1, 10)])
        elif r < .65:
            op["x0"] = "previous"
        r = rng.random()
        if r < .2:
            op["faults"][str(rng.choice([0, 1, 1, 2, 3]))] = rng.choice(BAD)
        elif r < .45:
            for _ in range(rng.choice([1, 1, 2])):
                op["perturb"][str(rng.choice([0, 1, 1, 2, 3]))] = \
                    [rng.choice(["primal", "primal", "objective"]),
                     rng.random(), round(rng.uniform(-1.5, 1.5), 3)]
        if rng.random() < .3:
            op["limit"] = rng.choice([1, 2, 3, 4])
        if rng.random() < .3:
            op["reltol"] = rng.choice([1e-2, 1e-3, 1e-6, .1])
        op["read"] = rng.sample(["results", "gps"], rng.randint(1, 2))
        out.append(op)
    return {"spec": spec, "ops": out, "clock": None}


def nontrivial(trace, res):
    "Iterations were refined, with a fault or a guess"
    p = res.get("probes", {})
    return p.get("iterations-refined", 0) >= 3 and (
        bool(res.get("faults")) or any(k.startswith("guess") for k in p))


class Step(gen.Ref):
    "The GP approximation of a spec about a point, built independently"
    def __init__(self, spec, state, x0, pccp, penalty):
        super().__init__(spec, state)
        self.pccp, self.penalty = pccp, penalty
        self.x0 = [x0.get(k, 1.) for k in self.free]
        self.cancelled = set()
        if pccp:
            self.slack = len(self.free)
            self.free = self.free + [("slack", None)]

    def lower(self, ms):
        "The monomial below a posynomial and equal to it at x0"
        vals = [self.evalm(m, self.x0) for m in ms]
        tot = sum(vals)
        c, fr, fx = 1., {}, {}
        for m, v in zip(ms, vals):
            w = v/tot
            c *= (m[0]/w)**w
            for j, e in m[1].items():
                fr[j] = fr.get(j, 0) + w*e
            for k, e in m[2].items():
                fx[k] = fx.get(k, 0) + w*e
        return c, fr, fx

    def posys(self):
        "Those of the approximation"
        out = []
        s = {self.slack: 1.} if self.pccp else {}
        smono = (1., s, {})
        for kind, ms, ci, e in super().posys():
            if kind == "c":
                if self.pccp:
                    ms = [(c, dict(fr, **{}) | {self.slack: self.penalty}, fx)
                          for c, fr, fx in ms]
                out.append((kind, ms, ci, e))
                if self.pccp:
                    out.append(("le", [(1., {self.slack: -1.}, {})], None, None))
            elif kind != "sp":
                out.append((kind, ms, ci, e))
            elif self.spec["cons"][ci]["o"] == "spe":
                l, r = self.lower(ms[0]), self.lower(ms[1])
                out.append(("le", [self.div(self.div(l, r), smono)], ci, 1))
                out.append(("le", [self.div(self.div(r, l), smono)], ci, -1))
            else:
                l = self.lower(ms[0])
                ps, const = [], 0.
                for m in (self.div(m, l) for m in ms[1]):
                    exps = list(m[1].values()) + list(m[2].values())
                    if all(abs(x) < 1e-9 for x in exps):
                        const += m[0]   # moved to the other side
                        self.cancelled.add(ci)
                    else:
                        ps.append(m)
                if const >= 1-1e-9:
                    self.impossible = True
                    const = 0.
                ps = [self.div((c/(1-const), fr, fx), smono)
                      for c, fr, fx in ps]
                out.append(("le", ps, ci, e))
        return out

    impossible = False

    def problem(self, P):
        "The approximation, irrespective of how anything in it is ordered"
        import math
        out = []
        for kind, ms, _, _ in P:
            const = 0.
            if kind == "le":   # gpkit moves constants to the other side
                const = sum(m[0] for m in ms if not any(m[1].values()))
                ms = [m for m in ms if any(m[1].values())]
            merged = {}
            for c, fr, _ in ms:
                exps = tuple(sorted((j, round(e, 5)) for j, e in fr.items()
                                    if abs(e) > 1e-9))
                merged[exps] = merged.get(exps, 0.) + c/(1-const)
            out.extend((round(math.log(c), 5), sorted(e for _, e in exps))
                       for exps, c in merged.items())
        return sorted(out)

    def excess(self, x, P):
        "Largest violation at x"
        worst = 0.
        for kind, ms, _, _ in P[1:]:
            tot = sum(self.evalm(m, x) for m in ms)
            worst = max(worst, abs(tot-1) if kind == "eq" else tot-1)
        return worst


def build(spec):
    "The spec's model, with its signomial equalities"
    import gpkit
    from gpkit import SignomialsEnabled
    from gpkit.constraints.sigeq import SignomialEquality
    plain = dict(spec, cons=[c for c in spec["cons"] if c["o"] != "spe"])

    def extra(B):
        def term(t):
            out = t["c"]
            for i, _, e, u in t["f"]:
                x = B.vars[i]/gpkit.units(u) if u else B.vars[i]
                out = out*x**e
            return out
        new = []
        cons, made = iter(B.cons), []
        for c in spec["cons"]:
            if c["o"] == "spe":
                with SignomialsEnabled():
                    con = SignomialEquality(sum(map(term, c["l"])),
                                            sum(map(term, c["r"])))
                new.append(con)
                made.append(con)
            else:
                made.append(next(cons))
        B.cons = made
        return new
    B = gen.build(plain, extra=extra)
    B.spec = spec
    return B


class SpecRef(gen.Ref):
    "The original constraints"
    def broken(self, x):
        "-> largest violation by inequalities, by signomial equalities"
        worst, eqs = 0., 0.
        for kind, ms, ci, _ in self.posys()[1:]:
            if kind == "sp":
                l = sum(self.evalm(m, x) for m in ms[0])
                r = sum(self.evalm(m, x) for m in ms[1])
                if self.spec["cons"][ci]["o"] == "spe":
                    eqs = max(eqs, abs(r/l-1))
                else:
                    worst = max(worst, r/l-1)
            else:
                tot = sum(self.evalm(m, x) for m in ms)
                worst = max(worst, abs(tot-1) if kind == "eq" else tot-1)
        return worst, eqs


def guess(B, m, spec, x0, previous):
    "-> the x0 to pass, {(i, e): value} it means"
    import gpkit
    from dst.world import W
    from dst import sess
    import numpy as np
    V = spec["vars"]
    if x0 == "previous":
        if previous is None:
            return None, {}
        W.probe("guess:solution")
        known = {}
        for i, v in enumerate(V):
            for e in (range(v["d"]) if v["d"] else [None]):
                if v["k"] == "free":
                    try:
                        known[(i, e)] = sess.value(previous, B, i, e)
                    except KeyError:
                        pass
        return previous["variables"], known
    out, known = {}, {}
    for i, form, val in x0 or []:
        v, var = V[i], B.vars[i]
        W.probe("guess:" + form)
        if v["k"] == "const":
            W.probe("constants-in-guess")
        if v["d"]:
            if form == "element":
                for e, x in enumerate(val):
                    out[var[e]] = x
            else:
                out[var if form == "var" and not hasattr(var, "arr")
                    else var.key] = gen.shaped(v, np.array(val, "d"))
            known.update({(i, e): x for e, x in enumerate(val)})
            continue
        if form == "quantity" and v["u"]:
            alt = gen.ALT[v["u"]][-1]
            out[var] = val*(gen.UNITS[v["u"]][1]/gen.UNITS[alt][1]) \
                * gpkit.ureg(alt)
        elif form == "name":
            out[v["n"]] = val
        elif form == "key":
            out[var.key] = val
        else:
            out[var] = val
        known[(i, None)] = val
    known = {k: x for k, x in known.items() if V[k[0]]["k"] == "free"}
    return out or None, known


class Program:
    "What is known about one SequentialGeometricProgram"
    def __init__(self, prog, state, pccp, penalty):
        self.prog, self.state = prog, dict(state)
        self.pccp, self.penalty = pccp, penalty
        self.x0 = {}


def execute(trace):
    "Runs the trace against gpkit"
    import warnings
    import numpy as np
    from gpkit import exceptions as ex
    from dst import sess, ops
    from dst.world import W
    spec = trace["spec"]
    B = build(spec)
    m = B.m
    state = gen.state0(spec)
    last, previous = None, None
    failed = False
    for op in trace["ops"]:
        W.ev("op", op["op"])
        if op.get("set"):
            i, val = op["set"]
            sess.set_value(B, m, i, val, "var", state, spec)
        x0, known = guess(B, m, spec, op.get("x0"), previous)
        calls = []

        def altered(x, obj, op=op, calls=calls):
            "the solver's optimum, as this call of this op is to return it"
            x = np.array(x, "d").ravel().copy()
            hit = op["perturb"].get(str(len(calls)))
            if hit and hit[0] == "primal":
                x[int(hit[1]*len(x))] += hit[2]
                W.fired("perturb:primal")
            elif hit:
                obj += hit[2]
                W.fired("perturb:objective")
            calls.append({"x": x, "obj": obj, "hit": hit})
            return x, obj

        def hook(sol, rec):
            "cvxopt's own result"
            from cvxopt import matrix
            if sol["status"] != "optimal":
                calls.append({"status": sol["status"]})
                return sol
            x, obj = altered(sol["x"], sol["primal objective"])
            calls[-1]["status"] = "optimal"
            sol = dict(sol)
            sol["x"], sol["primal objective"] = matrix(x), obj
            return sol
        W.captured, W.result_hook = [], hook
        kw = {"verbosity": op["verbosity"],
              "solver": "cvxopt" if op["solver"] == "cvxopt"
              else ops.custom_solver()}
        for k, name in [("limit", "iteration_limit"), ("reltol", "reltol")]:
            if k in op:
                kw[name] = op[k]
        limit, reltol = op.get("limit", 50), op.get("reltol", 1e-4)
        if x0 is not None:
            kw["x0"] = x0
        W.begin_op(op["faults"])
        with warnings.catch_warnings(record=True) as warned, \
                sess.quiet_stdout() as printed:
            warnings.simplefilter("always")
            if op["op"] == "again" and last is not None:
                P = last
                W.probe("continued-program")
                out = sess.call(P.prog.localsolve, **kw)
            elif op["op"] == "sp":
                made = sess.call(m.sp, use_pccp=op["pccp"],
                                 pccp_penalty=op["penalty"])
                out = made
                if made[0] == "ok":
                    P = Program(made[1], state, op["pccp"], op["penalty"])
                    out = sess.call(P.prog.localsolve, **kw)
            else:
                before = getattr(m, "program", None)
                out = sess.call(m.localsolve, **kw)
                if m.program is before:   # none could be made
                    made = out
                else:
                    made = None
                    P = Program(m.program, state, True, 200.)
                    made = ("ok", None)
            W.end_op()
            if op["op"] in ("localsolve", "sp") and made[0] == "exc" \
                    or op["op"] == "again" and last is None and made[0] == "exc":
                W.captured, W.result_hook = None, None
                judge_unmade(spec, state, op, made[1])
                continue
            # what a look at the program's past says
            results = None
            checkpoint = len(printed.parts)
            if "results" in op["read"]:
                got = sess.call(lambda: list(P.prog.results))
                if got[0] == "exc":
                    W.violate("results-unreadable", sess.short(got[1]))
                    W.captured, W.result_hook = None, None
                    return
                results = got[1]
            if "gps" in op["read"] or results is None:
                n = len([c for c in calls if c.get("status") == "optimal"])
                got = sess.call(lambda: [gp.result for gp in P.prog.gps[:n]])
                if got[0] == "exc":
                    W.violate("results-unreadable", sess.short(got[1]))
                    W.captured, W.result_hook = None, None
                    return
                if results is not None and not agree(results, got[1]):
                    W.violate("iteration-mixed-up", "program.results say %s, "
                              "program.gps[i].result %s" %
                              (brief(results), brief(got[1])))
                results = results if results is not None else got[1]
            afterwards = "".join(printed.parts[checkpoint:])
        captured = W.captured
        W.captured, W.result_hook = None, None
        rec = {"spec": spec, "B": B, "op": op, "P": P, "calls": calls,
               "results": results, "out": out, "known": known,
               "limit": limit, "reltol": reltol, "captured": captured,
               "warned": [str(w.message) for w in warned],
               "afterwards": afterwards, "printed": printed.text(),
               "ex": ex, "again": op["op"] == "again" and P is last}
        if failed and out[0] == "ok":
            W.probe("resumed-after-failure")
        failed = out[0] == "exc"
        if not judge(rec):
            return
        last = P
        if out[0] == "ok":
            previous = out[1]


def judge_unmade(spec, state, op, e):
    "No program could be made: only if the first approximation is impossible"
    from dst import sess
    from dst.world import W
    S = Step(spec, state, {}, True, 200.)
    S.posys()
    W.probe("no-program")
    if not S.impossible:
        W.violate("refused", "%s: %s" % (op["op"], sess.short(e)))


def agree(a, b):
    "Two lists of results are of the same solves"
    from dst import sess
    return len(a) == len(b) and all(
        sess.relclose(sess.mag(x["cost"]), sess.mag(y["cost"]), 1e-9)
        and all(abs(v - w) <= 1e-9*abs(v) for v, w in zip(flat(x), flat(y)))
        for x, y in zip(a, b))


def flat(res):
    "Sorted values of the free variables"
    import numpy as np
    return sorted(float(v) for v in np.hstack(
        [np.ravel(x) for x in res["freevariables"].values()]) if v == v)


def brief(results):
    "Costs of a list of results"
    from dst import sess
    return ["%.6g" % sess.mag(r["cost"]) for r in results]


def point(S, B, res):
    "The free variables of a result, as the reference orders them"
    from dst import sess
    out = []
    for i, e in S.free:
        if i == "slack":
            out.append(slack_of(res))
        else:
            out.append(sess.value(res, B, i, e, "freevariables"))
    return out


def slack_of(res):
    "The slack's value in a result (1 if it is not reported)"
    for k, v in res["freevariables"].items():
        if getattr(k, "name", None) == "C" and "RelaxPCCP" in str(k):
            return float(v)
    return 1.


def judge(rec):
    "Checks one local solve; False if the run should end"
    import math
    import numpy as np
    from dst import sess, ops
    from dst.world import W
    spec, B, op, P = rec["spec"], rec["B"], rec["op"], rec["P"]
    calls, results, out = rec["calls"], rec["results"], rec["out"]
    done = [c for c in calls if c.get("status") == "optimal"]
    tag = "%s (%s)" % (op["op"], op["solver"])
    fault = next((f for k, f in sorted(op["faults"].items())
                  if int(k) < len(rec["captured"])), None)
    W.ev("outcome", out[0], len(calls), len(done))
    W.state(op["op"], op.get("pccp"), bool(rec["known"]), len(calls), fault,
            out[0], type(out[1]).__name__)
    ok = True

    def bad(cls, detail):
        W.violate(cls, "%s: %s" % (tag, detail))
        return False
    if len(rec["captured"]) > rec["limit"]:
        return bad("over-limit", "%i solves, the limit was %i"
                   % (len(rec["captured"]), rec["limit"]))
    # -- every iteration is the solve it claims to be ------------------------
    if len(results) != len(done):
        return bad("iteration-mixed-up", "%i solves succeeded, the program "
                   "has %i results" % (len(done), len(results)))
    perturbed = any(c.get("hit") for c in calls)
    for k, (c, res) in enumerate(zip(done, results)):
        want = sorted(np.exp(c["x"]))
        got = flat(res)
        if k == len(done)-1 and out[0] == "ok" and len(got) == len(want)-1:
            pass   # the final slack is not reported
        elif len(got) != len(want) or any(
                abs(a-b) > 1e-9*abs(b) for a, b in zip(got, want)):
            return bad("iteration-mixed-up", "solve %i returned %s, its "
                       "result has %s" % (k, want, got))
        if not sess.relclose(sess.mag(res["cost"]), math.exp(c["obj"]), 1e-9):
            return bad("iteration-mixed-up", "solve %i returned cost %r, its "
                       "result has %r" % (k, math.exp(c["obj"]),
                                          sess.mag(res["cost"])))
    # -- each solve is of the approximation about the point before it --------
    x0 = dict(P.x0)
    x0.update(rec["known"])
    if rec["known"] and rec["again"]:
        W.probe("guess-for-continued")
    rec["lastx"] = None
    r = S = None
    for k in range(len(rec["captured"])):
        S = Step(spec, P.state, x0, P.pccp, P.penalty)
        posys = S.posys()
        P.x0 = dict(x0)
        if any(c["o"] == "spe" for c in spec["cons"]):
            W.probe("equality")
        if S.cancelled:
            W.probe("cancelled-term")
        r = S.solve(posys)
        solved = k < len(done)
        if S.impossible or r["status"] != "optimal":
            W.probe("step-reference-unsolved")
        elif not solved:
            c = calls[k] if k < len(calls) else {}
            if fault is None and not samerows(rec["captured"][k], S, posys):
                return bad("wrong-approximation", "solve %i found no solution "
                           "of a GP that is not the model's approximation "
                           "about %s" % (k, brief_x(spec, x0)))
            W.probe("solver-gave-up")
        else:
            res = results[k]
            logcost = done[k]["obj"] - (done[k]["hit"][2] if done[k]["hit"]
                                        and done[k]["hit"][0] == "objective"
                                        else 0.)
            x = point(S, B, res)
            hit = done[k]["hit"] and done[k]["hit"][0] == "primal"
            excess = S.excess(x, posys)
            soft = S.cancelled and P.pccp and max(
                r["x"][S.slack], x[S.slack]) > 1+1e-4
            if not soft and abs(logcost - math.log(r["cost"])) > 2e-3:
                return bad("wrong-approximation", "solve %i had optimal cost "
                           "%r; the approximation about %s has %r" %
                           (k, math.exp(logcost), brief_x(spec, x0), r["cost"]))
            if not hit and not soft and excess > 2e-3:
                return bad("wrong-approximation", "solve %i returned a point "
                           "that breaks the approximation about %s by %.2g" %
                           (k, brief_x(spec, x0), excess))
            W.probe("iterations-refined")
        if solved:
            now = point(S, B, results[k])
            x0 = {key: v for key, v in zip(S.free, now) if key[0] != "slack"}
            if k+1 < len(rec["captured"]):
                P.x0 = dict(x0)
    # -- it ends when it should ----------------------------------------------
    ends, prev, rose = False, None, []
    costs = [sess.mag(res["cost"]) for res in results]
    for k, cost in enumerate(costs):
        rel = None
        if prev is not None:
            rel = (prev-cost)/(prev+cost)
            if abs(rel-rec["reltol"]) < 1e-12:
                return ok
            if cost*(1-1e-6) > prev+1e-6:
                rose.append(k)
                rel = cost = None
        ends = rel is not None and rel <= rec["reltol"]
        prev = cost
        if ends and k < len(rec["captured"])-1:
            return bad("ended-late", "costs %s with reltol %g: should have "
                       "ended after solve %i" % (costs, rec["reltol"], k))
    if rose:
        W.probe("cost-rose")
    said = [w for w in rec["warned"] if "Cost rose" in w]
    if len(said) != len(rose):
        return bad("rise-warning", "costs %s: %i warnings of rises: %s"
                   % (costs, len(said), said))
    if out[0] == "ok":
        if not ends:
            return bad("ended-early", "costs %s with reltol %g"
                       % (costs, rec["reltol"]))
        return final(rec, r, S)
    if fault is not None:
        cls, _ = ops.expected(fault)
        if not isinstance(out[1], cls):
            return bad("failure-misreported", "%s at a solve came out as %s"
                       % (fault, sess.short(out[1])))
        return ok
    if len(done) < len(calls) or W.probes.get("solver-stalled") \
            or len(rec["captured"]) > len(done):
        return ok   # cvxopt gave up on its own
    if len(done) == rec["limit"] and not ends:
        W.probe("iteration-limit")
        W.check(isinstance(out[1], rec["ex"].Infeasible)
                and "Unsolved" in str(out[1]), "limit-misreported",
                lambda: "%s: %s" % (tag, sess.short(out[1])))
        return ok
    # a further approximation may be impossible
    S = Step(spec, P.state, x0, P.pccp, P.penalty)
    posys = S.posys()
    P.x0 = dict(x0)
    if S.impossible or not ends and not P.pccp and S.cancelled:
        W.probe("impossible-approximation")
        return ok
    return bad("refused", "after %i solves: %s" % (len(done),
                                                   sess.short(out[1])))


def brief_x(spec, x0):
    "A readable point"
    return {"%s[%s]" % (spec["vars"][i]["n"], e): "%.6g" % v
            for (i, e), v in sorted(x0.items(), key=str)}


def samerows(cap, S, P):
    "Whether a captured solver call is of this problem, however ordered"
    import numpy as np
    rows = [(round(float(g), 5), sorted(round(float(e), 5) for e in F
                                        if abs(e) > 1e-9))
            for g, F in zip(cap["g"], np.array(cap["F"]))]
    if cap["G"] is not None:
        rows += [(round(-float(h), 5), sorted(round(float(e), 5) for e in G
                                              if abs(e) > 1e-9))
                 for h, G in zip(cap["h"], cap["G"])]
    if cap["A"] is not None:
        rows += [(round(-float(b), 5), sorted(round(float(e), 5) for e in A
                                              if abs(e) > 1e-9))
                 for b, A in zip(cap["b"], cap["A"])]
    want = S.problem(P)
    flip = lambda row: (-row[0], sorted(-e for e in row[1]))
    if len(rows) != len(want):
        return False
    for row in rows:
        hit = next((w for w in want for v in (row, flip(row))
                    if abs(w[0]-v[0]) < 1e-3 and len(w[1]) == len(v[1])
                    and all(abs(a-b) < 1e-3 for a, b in zip(w[1], v[1]))), None)
        if hit is None:
            return False
        want.remove(hit)
    return True


def final(rec, r, S):
    "Checks what a finished local solve returned"
    import math
    import numpy as np
    from dst import sess
    from dst.world import W
    spec, B, op, P, out = (rec[k] for k in ("spec", "B", "op", "P", "out"))
    res, results = out[1], rec["results"]
    tag = "%s (%s)" % (op["op"], op["solver"])

    def bad(cls, detail):
        W.violate(cls, "%s: %s" % (tag, detail))
        return False
    lastcall = [c for c in rec["calls"] if c.get("status") == "optimal"][-1]
    x = point(S, B, res)
    xs = x[:-1] if P.pccp else x
    hit = lastcall["hit"]
    raw = np.exp(lastcall["x"])
    if not sess.relclose(sess.mag(res["cost"]), math.exp(lastcall["obj"]), 1e-9):
        return bad("final-mixed-up", "the last solve returned cost %r, the "
                   "solution has %r" % (math.exp(lastcall["obj"]),
                                        sess.mag(res["cost"])))
    # the slack: reported, and warned of, if and only if it is used
    slack = 1.
    if P.pccp:
        reported = slack_of(res)
        rest = list(np.sort(raw))
        for v in flat(res):
            j = int(np.argmin([abs(w-v) for w in rest]))
            if abs(rest[j]-v) > 1e-9*abs(v):
                return bad("final-mixed-up", "solution has value %r, which "
                           "the last solve did not return" % v)
            rest.pop(j)
        slack = rest[0] if rest else reported
        said = any("slacken" in w for w in rec["warned"])
        if abs(slack-1-1e-6) > 1e-8:
            if (slack-1 > 1e-6) != said or (slack-1 > 1e-6) == bool(rest):
                return bad("slack-misreported", "slack is %r; warned: %s; "
                           "reported: %s" % (slack, said, not rest))
        if slack-1 > 1e-6:
            W.probe("slack-used")
    elif any("slacken" in w for w in rec["warned"]):
        return bad("slack-misreported", "warned of slack without any")
    if hit:
        return True
    # the point satisfies the model itself
    ref = SpecRef(spec, P.state)
    worst, eqs = ref.broken(xs)
    if worst > slack-1 + 2e-3:
        return bad("infeasible", "final point breaks a constraint by %.2g, "
                   "with a slack of %r" % (worst, slack))
    step = max([abs(math.log(a/b)) for a, b in zip(xs, S.x0)] + [0.])
    if eqs > (slack-1)*1.1 + 2e-3 + 20*step**2:
        return bad("infeasible", "final point breaks a signomial equality by "
                   "%.2g, with a slack of %r and a last step of %.2g"
                   % (eqs, slack, step))
    cost = ref.costval(xs)*slack**(P.penalty if P.pccp else 0)
    if not sess.relclose(cost, sess.mag(res["cost"]), 3e-3):
        return bad("final-mixed-up", "the cost of the final point is %r, the "
                   "solution has %r" % (cost, sess.mag(res["cost"])))
    for (i, e), v in ref.val.items():
        if (i, e) in ref.used and not sess.relclose(
                sess.value(res, B, i, e), v, 1e-6):
            return bad("stale-constant", "%s[%s] is %r, solution has %r" % (
                spec["vars"][i]["n"], e, v, sess.value(res, B, i, e)))
    if any(c.get("hit") for c in rec["calls"]):
        return True
    if op["solver"] == "cvxopt" and \
            "Solution check warning" in rec["afterwards"]:
        return bad("spurious-warning", rec["afterwards"][:300])
    # sensitivities are those of the last approximation
    if r["status"] != "optimal" or S.cancelled or slack > 1+1e-6 \
            or S.impossible:
        return True
    weight = sess.participation(S, r)
    if any(w >= 5e-3 and not sess.relclose(a, b, 3e-3)
           for w, a, b in zip(weight, x, r["x"])):
        W.probe("several-optima")
        return True
    want = S.sensitivities(r["x"], r["la"], r["P"])
    table = res["sensitivities"]["variables"]

    def lookup(i, e):
        try:
            return float(table[sess.key(B, i, e)])
        except KeyError:
            return 0.
    for (i, e), v in want.items():
        if not sess.close(lookup(i, e), v, 5e-3, 5e-3):
            return bad("sensitivity", "to %s[%s] is %r, should be %r" % (
                spec["vars"][i]["n"], e, lookup(i, e), v))
    for i, e in S.free:
        if i != "slack" and not sess.close(lookup(i, e), 0., 1e-3, 5e-3):
            return bad("sensitivity", "to free variable %s[%s] is %r" % (
                spec["vars"][i]["n"], e, lookup(i, e)))
    las = {}
    for pi, (_, ms, ci, e) in enumerate(r["P"]):
        if ci is not None and pi in r["la"] and all(
                any(m[1].values()) for m in ms):
            o = spec["cons"][ci]["o"]
            key = (ci, 0 if o == "spe" else e or 0)
            las[key] = las.get(key, 0.) + r["la"][pi]*(e if o == "spe" else 1)
    ctable = res["sensitivities"]["constraints"]
    for (ci, e), la in las.items():
        con = sess.conlist(B.cons[ci])[e]
        if con not in ctable:
            return bad("sensitivity", "constraint %s has none" % con)
        if not sess.close(float(ctable[con]), abs(la), 5e-3, 5e-3):
            return bad("sensitivity", "constraint %s has %r, should be %r" % (
                con, float(ctable[con]), abs(la)))
    W.probe("sensitivities-compared")
    return True


def shrink(trace):
    "Property-specific simplifications"
    import copy
    for i, op in enumerate(trace["ops"]):
        for k in ("perturb", "faults"):
            for kk in op[k]:
                t = copy.deepcopy(trace)
                del t["ops"][i][k][kk]
                yield t
        for k in ("set", "x0", "limit", "reltol"):
            if k in op:
                t = copy.deepcopy(trace)
                del t["ops"][i][k]
                yield t
        if isinstance(op.get("x0"), list):
            for j in range(len(op["x0"])):
                t = copy.deepcopy(trace)
                del t["ops"][i]["x0"][j]
                yield t
