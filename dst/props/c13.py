"""C13: debugging and relaxing find the least change that makes a model solve."""
import math
import re

from dst import gen

LEVEL = "exploration"
TECHNIQUE = ("simulated solves, debugs and relaxations of feasible, infeasible"
             " and unbounded models, with solver failures at seeded stages; "
             "solutions and reports are judged against an independent program"
             " with its own relaxation variables")
TIERS = {"quick": {"runs": 4000, "budget": 40, "minruns": 200, "shrink": 40},
         "thorough": {"runs": 100000, "budget": 900, "minruns": 200,
                      "shrink": 120}}
RULE = ("each run builds 1 random GP (a tenth: SP), some walled in by numbers "
        "or with a variable nothing bounds, and performs 3-7 debugs, verbose "
        "solves, relaxations of all kinds and changes of constants, a third "
        "with a failing or slow solver; non-trivial: a modification was "
        "needed, and judged")
REAL = ["gpkit (all of it)", "cvxopt solver"]
STUB = ["clock", "stdout", "solver faults in front of cvxopt"]
STATE_MEASURE = "(operation, kind of model, fault, stage reached, outcome)"
FAULTS = ["solver:unknown", "solver:valueerror", "solver:arith",
          "solver:boom", "solver:interrupt", "solver:slow"]
PROBES = ["judged-constants", "judged-constraints", "unmodified", "modified",
          "unbounded-reported", "both-failed", "solve-debugged",
          "too-slow-to-debug", "equally", "individually", "constants",
          "subset", "sensitivity", "judged-after-failure", "sp"]
ASSUMPTIONS = ["models are small (at most ~12 free variables)",
               "relaxations of less than 1% need not be reported, as "
               "documented"]

SLACK = 2e-2


def generate(rng, tier):
    "A run's trace"
    sp = rng.random() < .1
    spec = gen.gen_spec(rng, "m", sp=sp, units=rng.random() < .4, limit=not sp,
                        part=rng.random() < .4,
                        linked=rng.random() < .25)
    V = spec["vars"]
    ups = sorted({(f[0], f[1]) for c in spec["cons"] if c["o"] == ">="
                  and c["l"] and c["l"][0]["f"] for f in c["l"][0]["f"][:1]
                  if V[f[0]]["k"] == "free"}, key=str)
    wall = None
    if ups and not sp and rng.random() < .4:
        i, e = rng.choice(ups)
        wall = {"con": len(spec["cons"]), "i": i, "e": e,
                "by": gen.rnd(rng, 1.1, 6)}
        spec["cons"].append({"o": "<=",
                             "l": [{"c": 1., "f": [[i, e, 1, V[i]["u"]]]}],
                             "r": [{"c": 1e9, "f": []}]})
    loose = not sp and rng.random() < .2
    if loose:   # nothing holds it up
        V.append({"n": "m_loose", "k": "free", "u": None, "d": 0, "v": None,
                  "part": 0, "used": 1, "loose": 1})
        for t in spec["cost"]:
            t["f"].append([len(V)-1, None, rng.choice([.5, 1]), None])
    lim = [i for i, v in enumerate(V) if v.get("limit")]
    consts = [i for i, v in enumerate(V) if v["k"] == "const" and v["used"]
              and not v["d"] and not v.get("limit")]
    out = []
    for _ in range(rng.randint(3, 7)):
        kind = rng.choice(["debug", "debug", "solve", "equally",
                           "individually", "constants", "set", "limit",
                           "limit"])
        if kind == "limit" and not lim or kind == "set" and not consts:
            kind = "debug"
        if sp and kind in ("solve", "equally", "individually", "constants"):
            kind = "debug"
        op = {"op": kind}
        if kind == "set":
            op.update(i=rng.choice(consts), v=gen.rnd(rng, .5, 4))
        elif kind == "limit":
            op.update(i=rng.choice(lim), by=rng.choice(
                [gen.rnd(rng, 1.05, 2), gen.rnd(rng, 2, 8), 1e-4]))
        else:
            op.update(verbosity=rng.choice([0, 1, 1, 2]), faults={},
                      power=rng.choice([1, 5, 30, 30]), names=None)
            if kind == "solve":
                op["verbosity"] = 1
            if rng.random() < .35:
                k = rng.choice(["unknown", "unknown", "valueerror", "arith",
                                "boom", "interrupt", "slow5"])
                op["faults"] = {str(rng.choice([0, 0, 0, 1])): k}
                if kind == "debug" and rng.random() < .25:
                    op["faults"] = {"*": k}
            if kind == "constants" and rng.random() < .4:
                every = sorted({v["n"] for v in V if v["k"] != "free"
                                and v["used"]})
                op["names"] = [rng.choice(["include_only", "exclude"]),
                               rng.sample(every, rng.randint(1, len(every)))]
        out.append(op)
    return {"spec": spec, "sp": sp, "wall": wall, "loose": loose, "ops": out,
            "clock": None}


def nontrivial(trace, res):
    "A modification was judged"
    return bool(res.get("probes", {}).get("modified"))


class Relaxed(gen.Ref):
    "The program that relaxes constants, constraints or all of them"
    def __init__(self, spec, state, what, power, names=None, bounds=False):
        super().__init__(spec, state)
        self.what, self.power, self.bounds = what, power, bounds
        self.old = {}
        if what == "constants":
            for k, v in list(self.val.items()):
                n = spec["vars"][k[0]]["n"]
                if k not in self.used or v == 0 or names and (
                        (n in names[1]) == (names[0] == "exclude")):
                    continue
                self.old[k] = v
                del self.val[k]
            self.grad = {}
            self.free = sorted(self.free + list(self.old), key=str)
            self.col = {k: j for j, k in enumerate(self.free)}
        self.plain = list(self.free)

    def program(self):
        "Its posynomials; adds a column per relaxation"
        P = self.posys()
        self.free = list(self.plain)
        out = []
        rs = []

        def relaxation():
            self.free.append(("r", len(rs)))
            rs.append(len(self.free)-1)
            out.append(("le", [(1., {rs[-1]: -1}, {})], None, None))
            return rs[-1]
        one = relaxation() if self.what == "equally" else None
        for kind, ms, ci, e in P[1:]:
            if self.what == "constants":
                out.append((kind, ms, ci, e))
                continue
            r = one if one is not None else relaxation()
            ms = list(ms)
            out.append(("le", [(c, {**f, r: -1}, x) for c, f, x in ms], ci, e))
            if kind == "eq":
                (c, f, _), = ms
                out.append(("le", [(1/c, {**{j: -a for j, a in f.items()},
                                          r: -1}, {})], ci, e))
        for k, v in self.old.items():
            r = relaxation()
            j = self.col[k]
            out.append(("le", [(v, {j: -1, r: -1}, {})], None, k))
            out.append(("le", [(1/v, {j: 1, r: -1}, {})], None, k))
        if self.bounds:
            for k in self.plain:
                if k not in self.old:
                    j = self.col[k]
                    scale = 1.   # bounds are on the number, whatever its unit
                    out.append(("le", [(1e-30/scale, {j: -1}, {})], None, None))
                    out.append(("le", [(1e-30*scale, {j: 1}, {})], None, None))
        cost = [(c, {**f, **{r: self.power for r in rs}}, x)
                for c, f, x in P[0][1]]
        return [("c", cost, None, None)] + out

    def optimum(self):
        "-> log of the least objective, or None"
        P = self.program()
        s = self.solve(P)
        self.sol = s
        if s["status"] != "optimal":
            return None
        return math.log(s["cost"])

    def amounts(self, x):
        "Least relaxations under which x is feasible, and its log objective"
        P = self.posys()
        cost = sum(self.evalm(m, x) for m in P[0][1])
        if self.what == "constants":
            out = [max(x[self.col[k]]/v, v/x[self.col[k]])
                   for k, v in self.old.items()]
            worst = self.violation(x)
        else:
            out = []
            for kind, ms, _, _ in P[1:]:
                v = sum(self.evalm(m, x) for m in ms)
                out.append(max(v, 1/v, 1) if kind == "eq" else max(v, 1))
            if self.what == "equally":
                out = [max(out)] if out else [1.]
            worst = 0.
        return out, worst, math.log(cost) + self.power*sum(map(math.log, out))


def execute(trace):
    "Runs the trace"
    import copy
    import gpkit
    from dst import sess
    from dst.world import W
    spec = copy.deepcopy(trace["spec"])
    V = spec["vars"]
    state = gen.state0(spec)
    base = None
    if not trace["sp"]:
        tight = copy.deepcopy(spec)
        for i, v in enumerate(tight["vars"]):
            if v.get("loose"):
                for t in tight["cost"]:
                    t["f"] = [f for f in t["f"] if f[0] != i]
        ref = gen.Ref(tight, state)
        r = ref.solve()
        if r["status"] != "optimal":
            W.probe("not-judged")
            return
        base = {k: r["x"][j] for j, k in enumerate(ref.free)}
        if trace["wall"]:
            w = trace["wall"]
            spec["cons"][w["con"]]["r"][0]["c"] = float(
                "%.5g" % (base[(w["i"], w["e"])]/w["by"]))
    B = gen.build(spec)
    failed = False
    for op in trace["ops"]:
        kind = op["op"]
        W.ev("op", kind, op.get("faults"))
        if kind in ("set", "limit"):
            v = op.get("v")
            if kind == "limit":
                t = [f for c in spec["cons"] for x in c["r"] for f in x["f"]
                     if f[0] == op["i"]]
                del t
                lims = [c for c in spec["cons"] if c["o"] == "<=" and any(
                    f[0] == op["i"] for x in c["r"] for f in x["f"])]
                top = max(base[(f[0], f[1])]*gen.UNITS[f[3]][1]/gen.UNITS[
                    V[f[0]]["u"]][1] if f[3] else base[(f[0], f[1])]
                          for c in lims for f in c["l"][0]["f"])
                v = float("%.5g" % (top/op["by"]))
            B.m.substitutions[B.vars[op["i"]]] = v
            state[op["i"]] = v
            continue
        W.begin_op(op["faults"])
        with sess.quiet_stdout() as out:
            res, extra = run(op, B, gpkit, sess)
        faults = dict(W.opfaults)
        calls = W.opsolves
        W.end_op()
        W.state(kind, bool(trace["wall"]), trace["loose"], faults, calls,
                res[0] if res[0] == "exc" else res[1] is None)
        fired = [f for k, f in faults.items() if k == "*" and calls or
                 k != "*" and int(k) < calls]
        if "interrupt" in fired:
            if not W.check(res[0] == "exc" and isinstance(
                    res[1], KeyboardInterrupt), "interrupt-lost",
                           lambda: "%s: %s" % (op, res[1])):
                return
            failed = True
            continue
        if kind in ("debug", "solve"):
            ok = judge_debug(trace, spec, state, B, op, res, out.text(),
                             faults, calls, sess, W)
        else:
            ok = judge_relax(trace, spec, state, B, op, res, extra, fired,
                             sess, W)
        if not ok:
            return
        if failed:
            W.probe("judged-after-failure")
        failed = failed or bool(fired)


def run(op, B, gpkit, sess):
    "Performs an operation"
    from gpkit.constraints import relax
    m = B.m
    v = op["verbosity"]
    if op["op"] == "debug":
        return sess.call(m.debug, verbosity=v), None
    if op["op"] == "solve":
        return sess.call(m.solve, verbosity=v), None
    cls = {"equally": relax.ConstraintsRelaxedEqually,
           "individually": relax.ConstraintsRelaxed,
           "constants": relax.ConstantsRelaxed}[op["op"]]
    kw = {op["names"][0]: op["names"][1]} if op["names"] else {}
    made = sess.call(cls, m, **kw)
    if made[0] == "exc":
        return made, None
    rset = made[1]
    if op["op"] == "equally":
        pen = rset.relaxvar
    elif not rset.relaxvars.size:
        pen = 1
    else:
        pen = rset.relaxvars.prod()
    mr = sess.call(lambda: gpkit.Model(pen**op["power"]*m.cost, rset))
    if mr[0] == "exc":
        return mr, None
    return sess.call(mr[1].solve, verbosity=0), (rset, mr[1])


def point(ref, B, sol, sess):
    "The solution's values, in the reference's order"
    return [sess.value(sol, B, i, e) for i, e in ref.plain]


def give_up(e):
    "The real solver's numerics"
    from dst import ops
    text = " ".join(str(x) for x in ops.chain(e))
    return "solution status" in text or "stalled" in text or \
        "went wrong" in text


def fails(fault):
    "Does the solve fail?"
    return bool(fault) and not fault.startswith("slow")


def judge_debug(trace, spec, state, B, op, res, said, faults, calls, sess, W):
    "Judges a debug, or a solve which ended in one"
    # pylint: disable=too-many-arguments,too-many-locals,too-many-return-statements,too-many-branches
    what = "%s (verbosity %i) with %s" % (op["op"], op["verbosity"], faults)
    fault = lambda n: faults.get(str(n)) or faults.get("*")
    first = 0
    if op["op"] == "solve":
        if "let's run `.debug()`" not in said:
            # an ordinary solve, or an ordinary failure
            slow = str(fault(0)).startswith("slow")
            if res[0] == "exc" and slow and calls == 1:
                W.probe("too-slow-to-debug")
            return W.check(res[0] == "exc" or calls == 1, "silent-debug",
                           "%s returned after %i calls" % (what, calls))
        if not W.check(not str(fault(0)).startswith("slow"), "debugged-slow",
                       "%s was debugged although it took long" % what):
            return False
        W.probe("solve-debugged")
        first = 1
        if res[0] == "exc":
            # debug found nothing, either
            return W.check(fault(1) or calls < 2 or give_up(res[1]) or
                           "not feasible with bounded constraints" in said,
                           "lost-debug", lambda: "%s: %s" %
                           (what, sess.short(res[1])))
    elif res[0] == "exc":
        if trace["sp"] and "Unsolved after" in str(res[1]):
            return True
        W.violate("debug-raised", "%s: %s" % (what, sess.short(res[1])))
        return False
    sol = res[1]
    if trace["sp"]:
        W.probe("sp")
        return True
    tants = Relaxed(spec, state, "constants", 30, bounds=True)
    if not tants.old:
        tants.power = 0
    best = tants.optimum()
    stage = 1
    if fails(fault(first)):
        stage = 2
    elif best is None:
        stage = 0      # either; the reference does not know
    saidno = "not feasible with bounded constraints" in said
    stage2 = "not feasible with relaxed constants" in said
    if sol is None:
        W.probe("both-failed")
        twice = fails(fault(first+1))
        second = Relaxed(spec, state, "individually", 30)
        return W.check(saidno and (twice or best is None or stage == 2 and
                                   second.optimum() is None),
                       "gave-up", "%s found nothing" % what)
    if stage == 1 and stage2 and calls > first+1:
        W.probe("solver-gave-up")   # numerics; the second stage is judged
        stage = 2
    if stage == 0:
        stage = 2 if stage2 or op["verbosity"] == 0 else 1
        if op["verbosity"] == 0:
            W.probe("not-judged")
            return True
    if not W.check(op["verbosity"] == 0 or stage2 == (stage == 2),
                   "wrong-stage", "%s: %s" % (what, said[-400:])):
        return False
    if stage == 2:
        tants = Relaxed(spec, state, "individually", 30, bounds=True)
        best = tants.optimum()
    if best is None:
        W.probe("not-judged")
        return True
    W.probe("judged-constants" if stage == 1 else "judged-constraints")
    if not judge_point(tants, best, B, sol, what, trace, sess, W):
        return False
    table = sol.get("warnings", {})
    got = table.get("Relaxed Constants" if stage == 1
                    else "Relaxed Constraints", [])
    if not reports(tants, B, sol, got, what, sess, W):
        return False
    bounded = table.get("Arbitrarily Bounded Variables", [])
    names = " ".join(str(b[0]) for b in bounded)
    if stage:
        loose = [v["n"] for v in spec["vars"] if v.get("loose")]
        if loose:
            W.probe("unbounded-reported")
        if not W.check(bool(loose) == bool(bounded) and
                       all(n in names for n in loose), "boundedness",
                       "%s: reported %r, %s is unbounded"
                       % (what, names, loose)):
            return False
    if op["verbosity"] and op["op"] == "debug":
        mods = bool(got or bounded)
        if not W.check(("with these modifications" in said) == mods and
                       ("feasible without modification" in said) != mods,
                       "printed", "%s printed %s" % (what, said[-600:])):
            return False
    return True


def judge_point(ref, best, B, sol, what, trace, sess, W):
    "The least objective, at a feasible point"
    x = point(ref, B, sol, sess)
    amounts, worst, obj = ref.amounts(x)
    if not W.check(worst < 5e-3, "infeasible", "%s: the solution violates the "
                   "model, as relaxed, by %s" % (what, worst)):
        return False
    got = math.log(sess.mag(sol["cost"]))
    if obj > 690:
        return True    # beyond the range of floating point
    tol = SLACK*max(1, len(amounts)**.5)
    if trace["loose"]:
        tol = max(tol, .5)     # its bound is far away
    if not W.check(abs(got-best) < tol and abs(obj-best) < tol,
                   "not-least", lambda:
                   "%s: log objective %s, at its point %s, should be %s "
                   "(relaxations %s)" % (what, got, obj, best, amounts)):
        return False
    W.probe("modified" if max(amounts, default=1) > 1.02 else "unmodified")
    return True


def reports(ref, B, sol, got, what, sess, W):
    "Exactly what was relaxed is reported"
    x = point(ref, B, sol, sess)
    amounts, _, _ = ref.amounts(x)
    msgs = [str(g[0]) for g in got]
    must = sum(1 for a in amounts if a > 1.0105)
    may = sum(1 for a in amounts if a > 1.0003)
    if not W.check(must <= len(msgs) <= max(may, must), "report", lambda:
                   "%s: %s reported, relaxations are %s" %
                   (what, msgs, amounts)):
        return False
    if ref.what != "constants":
        pct = sorted(int(n) for t in msgs
                     for n in re.findall(r"(\d+)% ?relaxed|by (\d+)%", t)
                     for n in n if n)
        want = sorted((a-1)*100 for a in amounts)[len(amounts)-len(msgs):]
        return W.check(len(pct) == len(msgs) and all(
            abs(p-w) <= 1.01+.01*w for p, w in zip(pct, want)), "report",
                       lambda: "%s: %s, relaxations are %s" %
                       (what, msgs, amounts))
    for (k, old), a in zip(ref.old.items(), amounts):
        key = sess.key(B, *k)
        mine = [g for g in got if getattr(g[1], "key", None) == key]
        if not W.check(len(mine) == 1 if a > 1.0105 else len(mine) <= 1,
                       "report", "%s: %s was relaxed by %s, reported as %s" %
                       (what, key, a, [g[0] for g in mine])):
            return False
        for g in mine:
            nums = re.findall(r"from (\S+) to (\S+)", str(g[0]))
            now = sess.value(sol, B, *k)
            if not W.check(len(nums) == 1 and sess.relclose(
                    float(nums[0][0]), old, 1e-3) and sess.relclose(
                        float(nums[0][1]), now, 1e-3), "report", lambda:
                           "%s: %r, but %s went from %s to %s" %
                           (what, g[0], key, old, now)):
                return False
    return True


def judge_relax(trace, spec, state, B, op, res, extra, fired, sess, W):
    "Judges a model of the user's own with relaxed constraints or constants"
    # pylint: disable=too-many-arguments,too-many-return-statements
    what = "%s to the power %s, %s, with %s" % (op["op"], op["power"],
                                                op["names"], fired)
    if any(fails(f) for f in fired):
        return W.check(res[0] == "exc", "failure-not-reported", what)
    ref = Relaxed(spec, state, op["op"], op["power"], op["names"])
    best = ref.optimum()
    near = Relaxed(spec, state, op["op"], .95*op["power"], op["names"])
    if best is None or trace["loose"] or near.optimum() is None:
        # (when barely penalized, relaxing more may cost nothing)
        W.probe("not-judged")
        return True
    if res[0] == "exc":
        if give_up(res[1]):
            W.probe("solver-gave-up")
            return True
        W.violate("spurious-failure", "%s: %s" % (what, sess.short(res[1])))
        return False
    sol = res[1]
    W.probe(op["op"])
    if op["names"]:
        W.probe("subset")
    if not judge_point(ref, best, B, sol, what, trace, sess, W):
        return False
    rset = extra[0]
    amounts, _, _ = ref.amounts(point(ref, B, sol, sess))
    key = "Relaxed Constants" if op["op"] == "constants" else \
        "Relaxed Constraints"
    if op["op"] == "equally":
        r = float(sol["variables"][rset.relaxvar.key])
        if not W.check(abs(math.log(r/amounts[0]))*op["power"] < SLACK,
                       "relaxvar", "%s: relaxed by %s, needed is %s" %
                       (what, r, amounts[0])):
            return False
    else:
        rs = sorted(float(sol["variables"][v.key]) for v in rset.relaxvars)
        need = sorted(amounts)
        if op["op"] == "constants":    # unused ones may be among them
            need = [1.]*(len(rs)-len(need)) + need
        if not W.check(len(rs) == len(need) and all(
                abs(math.log(a/b))*op["power"] < SLACK
                for a, b in zip(rs, need)), "relaxvar",
                       lambda: "%s: relaxed by %s, needed is %s" %
                       (what, rs, need)):
            return False
    if not reports(ref, B, sol, sol.get("warnings", {}).get(key, []), what,
                   sess, W):
        return False
    if op["op"] != "constants":
        return True
    la = {}
    for pi, (_, ms, _, k) in enumerate(ref.sol["P"]):
        if k in ref.old and pi in ref.sol["la"]:
            j = ref.col[k]
            la[k] = la.get(k, 0.) - ref.sol["la"][pi]*ms[0][1][j]
    for k in ref.old:
        got = float(sol["sensitivities"]["variables"].get(
            sess.key(B, *k), 0))
        slow = abs(la.get(k, 0)) > .9*op["power"]  # degenerate: about to relax
        if not slow and not W.check(sess.close(got, la.get(k, 0.), 1e-2, 2e-2),
                                    "sensitivity", "%s: sensitivity to %s is "
                                    "%s, should be %s" %
                                    (what, sess.key(B, *k), got,
                                     la.get(k, 0.))):
            return False
    W.probe("sensitivity")
    return True
