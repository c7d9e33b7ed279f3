"""C12: an autosweep bounds the optimum over its whole range."""
import math

from dst import gen

LEVEL = "exploration"
TECHNIQUE = ("simulated autosweeps with imprecise, rounding, slow, failing "
             "and interrupted solvers at seeded passes; bounds, estimates and "
             "samples are judged at every split, solved point and at seeded "
             "values against independent optima of the model there")
TIERS = {"quick": {"runs": 4000, "budget": 40, "minruns": 200, "shrink": 40},
         "thorough": {"runs": 100000, "budget": 900, "minruns": 200,
                      "shrink": 120}}
RULE = ("each run builds 1 random GP or one whose cost is a maximum of "
        "monomials, and performs 2-5 autosweeps of constants, elements or "
        "free variables to seeded tolerances, half under a fault, and changes"
        " of constants; non-trivial: an autosweep of 3 or more passes was "
        "judged")
REAL = ["gpkit (all of it)", "cvxopt solver"]
STUB = ["clock", "stdout", "solver faults in front of cvxopt; imprecision "
        "added to its results"]
STATE_MEASURE = "(form, model, what was swept, fault, passes, outcome)"
FAULTS = ["solver:unknown", "solver:valueerror", "solver:arith",
          "solver:interrupt", "solver:boom", "solver:slow", "solver:noisy",
          "solver:rounding", "stdout:interrupt"]
PROBES = ["judged", "split", "unsplit", "swept-element", "swept-free",
          "swept-again", "kinks", "failed-pass", "after-failure", "limit",
          "by-name", "tool", "two-sweeps", "posynomial", "only-gps"]
ASSUMPTIONS = ["models are small (at most ~12 free variables)",
               "bounds hold up to the accuracy of the solver, 2e-4 in the "
               "logarithm of the cost"]

SLACK = 2e-4


def generate(rng, tier):
    "A run's trace"
    kinks = None
    spec = None
    sp = False
    if rng.random() < .3:
        kinks = [[gen.rnd(rng, .3, 3), rng.choice([-2, -1, -.5, .5, 1, 2, 3])]
                 for _ in range(rng.randint(1, 4))]
        if rng.random() < .6:
            kinks.append([1., 0])
        cands = [[0, None]]
    else:
        sp = rng.random() < .08
        spec = gen.gen_spec(rng, "m", sp=sp, units=rng.random() < .4,
                            limit=not sp, part=rng.random() < .4)
        used = gen.used_elements(spec)
        cands = [[i, e] for i, e in sorted(used, key=str)
                 if spec["vars"][i]["k"] == "const"]
        free = [[i, e] for i, e in sorted(used, key=str)
                if spec["vars"][i]["k"] == "free" and e is None]
        if free and rng.random() < .3:
            cands += rng.sample(free, 1)
    out = []
    for _ in range(rng.randint(2, 5)):
        if spec and rng.random() < .2:
            consts = [i for i, v in enumerate(spec["vars"])
                      if v["k"] == "const" and v["used"] and not v["d"]
                      and not v.get("limit")]
            if consts:
                out.append({"op": "set", "i": rng.choice(consts),
                            "v": gen.rnd(rng, .5, 4)})
                continue
        n = 2 if len(cands) > 1 and rng.random() < .15 else 1
        sw = []
        for i, e in rng.sample(cands, n):
            lo = gen.rnd(rng, .3, 2)
            sw.append({"i": i, "e": e, "lo": lo,
                       "hi": round(lo*rng.choice([1.2, 2, 5, 20]), 5),
                       "by": rng.choice(["var", "key", "name"])})
        op = {"op": "autosweep", "sw": sw,
              "form": "model" if n > 1 else rng.choice(["model", "model",
                                                        "tool"]),
              "tol": rng.choice([.5, .1, .03, .01, 3e-3, 1e-3, 3e-4]),
              "samples": rng.choice([2, 3, 7, 20]),
              "at": [rng.random() for _ in range(3)],
              "verbosity": rng.choice([0, 0, 0, 1, 2]), "fault": None,
              "precision": rng.choice([None, None, "noisy", "rounding"])}
        if rng.random() < .35:
            op["fault"] = rng.choice(["unknown", "valueerror", "arith",
                                      "interrupt", "boom", "slow50", "slow50",
                                      "stdout"])
            op["call"] = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
            op["verbosity"] = 1 if op["fault"] == "stdout" else 0
        out.append(op)
    return {"spec": spec, "kinks": kinks, "sp": sp, "ops": out,
            "costunit": rng.choice([None, None, "m", "km/m", "kg*m/s^2"]),
            "clock": rng.choice([None, None, {"kind": "frozen"}])}


def nontrivial(trace, res):
    "Something was split and judged"
    return bool(res.get("probes", {}).get("split"))


class Truth:
    "The model and its independent optimum"
    def __init__(self, trace):
        import gpkit
        self.kinks = trace["kinks"]
        self.spec = trace["spec"]
        if self.kinks:
            c, t = gpkit.Variable("c", 2), gpkit.Variable("t")
            self.c, self.t = c, t
            self.m = gpkit.Model(t, [t >= a*c**p for a, p in self.kinks])
            self.m.cost = 1.*t
        else:
            self.B = gen.build(self.spec)
            self.m = self.B.m
            self.state = gen.state0(self.spec)
        if trace.get("costunit"):
            self.m.cost = self.m.cost*gpkit.units(trace["costunit"])

    def var(self, s, by):
        "The variable swept, in one of the forms it may be named"
        if self.kinks:
            v, name = self.c, "c"
        else:
            v = self.B.vars[s["i"]]
            name = self.spec["vars"][s["i"]]["n"]
            if s["e"] is not None:
                return v[s["e"]] if by == "var" else v[s["e"]].key
        if by == "name" and name in self.m.varkeys:
            return name
        return v if by == "var" else v.key

    def key(self, s):
        "Its key"
        return getattr(self.var(s, "key"), "key", None)

    def at(self, s, v):
        "-> ref, optimum at that value; None if the model isn't solvable there"
        st = {i: (list(x) if isinstance(x, (list, tuple)) else x)
              for i, x in self.state.items()}
        if s["e"] is None:
            st[s["i"]] = v
        else:
            st[s["i"]][s["e"]] = v
        ref = gen.Ref(self.spec, st)
        r = ref.solve()
        return (ref, r) if r["status"] == "optimal" else None

    def logcost(self, s, v):
        "Log of the optimal cost"
        if self.kinks:
            return max(math.log(a) + p*math.log(v) for a, p in self.kinks)
        got = self.at(s, v)
        return None if got is None else math.log(got[1]["cost"])


def leaves(bst):
    "The unsplit segments, from left to right"
    if not bst.splits:
        return [bst]
    return [l for b in bst.splits for l in leaves(b)]


def hooks(op, W):
    "A solver that isn't exact"
    if not op["precision"]:
        return None

    def imprecise(sol, rec):
        "noise, or rounding, of everything it returns"
        from cvxopt import matrix
        sol = dict(sol)
        if sol["status"] != "optimal":
            return sol
        W.fired("solver:" + op["precision"])
        for k in ("x", "znl", "zl", "y"):
            if op["precision"] == "noisy":
                v = [x*(1+2e-7*math.sin(7*j+W.solves))
                     for j, x in enumerate(sol[k])]
            else:
                v = [round(x, 6) for x in sol[k]]
            sol[k] = matrix(v, (len(v), 1), "d")
        if op["precision"] == "rounding":
            sol["primal objective"] = round(sol["primal objective"], 6)
        return sol
    return imprecise


def execute(trace):
    "Runs the trace"
    import numpy as np
    from gpkit.tools.autosweep import autosweep_1d
    from gpkit.exceptions import InvalidGPConstraint, Infeasible, \
        UnknownInfeasible, DualInfeasible
    from dst import sess
    from dst.world import W
    T = Truth(trace)
    m = T.m
    failed = False
    seen = set()
    for op in trace["ops"]:
        if op["op"] == "set":
            m.substitutions[T.B.vars[op["i"]]] = op["v"]
            T.state[op["i"]] = op["v"]
            continue
        what = "%s of %s to %s%s" % (
            op["form"], [(s["i"], s["e"], s["lo"], s["hi"])
                         for s in op["sw"]], op["tol"],
            ", after a failure" if failed else "")
        W.ev("op", what)
        fault = op["fault"]
        W.begin_op({str(op["call"]): fault}
                   if fault and fault != "stdout" else {})
        W.result_hook = hooks(op, W)
        before, bad = W.solves, sum(v for k, v in W.faults.items() if
                                    k in ("solver:noisy", "solver:rounding",
                                          "solver:slow"))
        total = sum(W.faults.values())
        out_at = {"fail_at": 1+op["call"], "kind": "interrupt"} \
            if fault == "stdout" else {}
        with sess.quiet_stdout(**out_at):
            if op["form"] == "tool":
                s, = op["sw"]
                v = T.var(s, "var" if s["by"] == "name" else s["by"])
                out = sess.call(lambda: [autosweep_1d(  # pylint: disable=cell-var-from-loop
                    m, op["tol"], v, [s["lo"], s["hi"]],
                    verbosity=op["verbosity"]).sample_at(np.linspace(
                        s["lo"], s["hi"], op["samples"]))])
                W.probe("tool")
            else:
                args = {T.var(s, s["by"]): (s["lo"], s["hi"])
                        for s in op["sw"]}
                if any(isinstance(k, str) for k in args):
                    W.probe("by-name")
                out = sess.call(m.autosweep, args, op["tol"], op["samples"],
                                verbosity=op["verbosity"])
                if out[0] == "ok" and len(args) == 1:
                    out = "ok", [out[1]]
        W.end_op()
        W.result_hook = None
        passes = W.solves - before
        fired = sum(W.faults.values()) - total - (sum(
            v for k, v in W.faults.items() if k in
            ("solver:noisy", "solver:rounding", "solver:slow")) - bad) > 0
        W.state(op["form"], bool(trace["kinks"]), [s["e"] for s in op["sw"]],
                fault, min(passes, 12), out[0])
        if trace["sp"]:
            # (some are GPs once the swept variable is substituted)
            if not W.check(out[0] == "ok" or fired or isinstance(
                    out[1], (InvalidGPConstraint, Infeasible)),
                           "sp-autoswept", lambda: "%s: %s" % (what, out[1])):
                return
            if isinstance(out[1], InvalidGPConstraint):
                W.probe("only-gps")
            continue
        if fired:
            want = (KeyboardInterrupt,) if fault in ("interrupt", "stdout") \
                else (DualInfeasible,) if fault == "valueerror" else \
                (UnknownInfeasible,)
            if not W.check(out[0] == "exc" and isinstance(out[1], want),
                           "failure-not-reported", lambda: "%s with %s: %s" %
                           (what, fault, out[1])):
                return
            failed = True
            W.probe("failed-pass")
            continue
        if out[0] == "exc":
            if any(T.logcost(s, v) is None for s in op["sw"]
                   for v in (s["lo"], s["hi"], math.sqrt(s["lo"]*s["hi"]))
                   ) if not trace["kinks"] else False:
                W.probe("not-judged")
                continue
            if "solution status" in str(out[1]) + str(out[1].__cause__):
                W.probe("solver-gave-up")
                continue
            W.violate("spurious-failure", "%s: %s" % (what,
                                                      sess.short(out[1])))
            return
        if failed:
            W.probe("after-failure")
        if len(out[1]) > 1:
            W.probe("two-sweeps")
        if not W.check(len(out[1]) == len(op["sw"]), "lost-sweeps", what):
            return
        count = 0
        for s, sol in zip(op["sw"], out[1]):
            if not judge(T, op, s, sol, what, sess, W, np):
                return
            count += len(sol.bst.sollist)
            tag = (s["i"], s["e"])
            if tag in seen:
                W.probe("swept-again")
            seen.add(tag)
        if not W.check(passes == count, "passes", "%s took %i passes for %i "
                       "solutions" % (what, passes, count)):
            return


def judge(T, op, s, sol, what, sess, W, np):
    "Judges one autosweep"
    # pylint: disable=too-many-locals,too-many-arguments,too-many-return-statements,too-many-branches
    bst = sol.bst
    tol = op["tol"]
    kind = "free" if T.spec and T.spec["vars"][s["i"]]["k"] == "free" else \
        "limit" if T.spec and T.spec["vars"][s["i"]].get("limit") else None
    if kind:
        W.probe("swept-free" if kind == "free" else kind)
    if s["e"] is not None:
        W.probe("swept-element")
    if T.kinks:
        W.probe("kinks")
    # the solutions are those of the ends and of every split, in order
    parts = leaves(bst)
    xs = [parts[0].bounds[0]] + [p.bounds[1] for p in parts]
    W.probe("split" if len(xs) > 2 else "unsplit")
    key = T.key(s)
    if not W.check(xs[0] == s["lo"] and xs[-1] == s["hi"] and xs == sorted(xs)
                   and len(set(xs)) == len(xs) == len(bst.sollist) and
                   bst.nsols == len(xs) and
                   all(a.bounds[1] == b.bounds[0]
                       for a, b in zip(parts, parts[1:])),
                   "range", lambda: "%s: solved at %s, %i solutions, nsols %s"
                   % (what, xs, len(bst.sollist), bst.nsols)):
        return False
    got = [float(one["variables"][key]) for one in bst.sollist]
    if not W.check(all(abs(g/x-1) < 1e-9 for g, x in zip(got, xs)),
                   "wrong-point", lambda: "%s: solutions at %s hold %s" %
                   (what, xs, got)):
        return False
    # solutions are optima
    picks = sorted({0, len(xs)-1, len(xs)//2, int(op["at"][0]*len(xs))})
    for j in picks:
        one = bst.sollist[j]
        if T.kinks:
            want = T.logcost(s, xs[j])
            if not W.check(abs(math.log(sess.mag(one["cost"]))-want) < SLACK,
                           "wrong-solution", "%s: log cost at %s is %s, "
                           "should be %s" % (what, xs[j], one["cost"], want)):
                return False
            continue
        ref = T.at(s, xs[j])
        if ref is None:
            W.probe("not-judged")
            continue
        if not sess.compare(one, T.B, ref[0], ref[1], "%s at %s" %
                            (what, xs[j]), "wrong-solution"):
            return False
    # the sampled values
    want = np.linspace(s["lo"], s["hi"], op["samples"])
    if not W.check(len(sol.sampled_at) == len(want) and
                   np.allclose(sol.sampled_at, want, rtol=1e-12), "samples",
                   lambda: "%s: sampled at %s" % (what, sol.sampled_at)):
        return False
    # bounds and estimate, at splits, solved points and anywhere
    values = [s["lo"]*(s["hi"]/s["lo"])**a for a in op["at"]]
    worst = sorted(((p.splitub or 0)-(p.splitlb or 0), p.splitval)
                   for p in parts)[-4:]
    values += [v for _, v in worst if v] + [xs[j] for j in picks]
    values = sorted({min(max(v, s["lo"]), s["hi"]) for v in values})
    here = bst.sample_at(values)
    at = lambda x: [float(v) for v in np.ravel(getattr(x, "magnitude", x))]
    lb, est, ub = at(here.cost_lb()), at(here["cost"]), at(here.cost_ub())
    if not W.check(at(here(T.m.cost)) == est and at(here("cost")) == est,
                   "cost-forms", lambda: "%s: cost is %s, by its posynomial "
                   "%s" % (what, est, at(here(T.m.cost)))):
        return False
    tops = []
    for v, a, b, c in zip(values, lb, est, ub):
        la, lb_, lc = math.log(a), math.log(b), math.log(c)
        if not W.check(la <= lb_+SLACK and lb_ <= lc+SLACK, "bounds-crossed",
                       "%s at %s: lower bound %s, estimate %s, upper bound %s"
                       % (what, v, a, b, c)):
            return False
        if not W.check((lc-la)/2 <= tol+SLACK, "tolerance-missed",
                       "%s at %s: lower bound %s, upper bound %s"
                       % (what, v, a, c)):
            return False
        tops.append((lc-la)/2)
        true = T.logcost(s, v)
        if true is None:
            W.probe("not-judged")
            continue
        if not W.check(la-SLACK <= true <= lc+SLACK, "bound-violated",
                       "%s at %s: cost %r, lower bound %r, upper bound %r"
                       % (what, v, math.exp(true), a, c)):
            return False
        if not W.check(abs(lb_-true) <= tol+SLACK, "bad-estimate",
                       "%s at %s: cost %r, estimate %r"
                       % (what, v, math.exp(true), b)):
            return False
    if not W.check(hasattr(bst, "tol"), "tol", "%s: has no tol" % what):
        return False
    if not W.check(max(tops) <= bst.tol+SLACK and bst.tol <= tol+1e-12,
                   "tol", lambda: "%s: tol is %s, bounds differ by %s" %
                   (what, bst.tol, max(tops))):
        return False
    # other quantities interpolate between the solutions around
    if T.kinks:
        names = [(T.t, T.t.key), (T.c, T.c.key)]
    else:
        ref = gen.Ref(T.spec, T.state)
        names = []
        for i, e in ref.free[:2]:
            v = T.B.vars[i] if e is None else T.B.vars[i][e]
            names.append((v, v.key))
        names.append((T.var(s, "var"), key))
    for v, k in names:
        if hasattr(v, "shape"):
            continue
        iscost = v.hmap == T.m.cost.hmap   # whose bounds are known
        outs = [at(here(k)), at(here(k if iscost else v))]
        twice = at(here(2*v))
        W.probe("posynomial")
        for j, x in enumerate(values):
            n = max(n for n, y in enumerate(xs[:-1]) if y <= x)
            a, b = (math.log(float(bst.sollist[q]["variables"][k]))
                    for q in (n, n+1))
            w = (math.log(xs[n+1])-math.log(x))/math.log(xs[n+1]/xs[n])
            wish = math.exp(w*a+(1-w)*b)
            if not W.check(all(sess.relclose(o[j], wish, 1e-6) for o in outs)
                           and sess.relclose(twice[j], 2*wish, 1e-6),
                           "interpolation", lambda:
                           "%s: %s at %s is %s (twice that: %s), should be %s"
                           % (what, k, x, [o[j] for o in outs], twice[j],
                              wish)):
                return False
    # the same as a plain solution
    arr = at(bst.solarray["cost"])
    if not W.check(len(arr) == len(xs) and all(
            sess.relclose(a, sess.mag(one["cost"]), 1e-9)
            for a, one in zip(arr, bst.sollist)), "solarray",
                   lambda: "%s: costs %s" % (what, arr)):
        return False
    W.probe("judged")
    return True
