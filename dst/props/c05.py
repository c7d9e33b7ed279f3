"""C05: a sweep is exactly its points, solved one by one."""
from dst import gen

LEVEL = "exploration"
TECHNIQUE = ("simulated sweeps (lists, grids, vectors, single elements, linked "
             "variables) in which seeded points fail in the solver, are "
             "infeasible, or are infeasible before reaching the solver; every "
             "table of the solution is judged point by point against an "
             "independent optimum of the model with that point's values")
TIERS = {"quick": {"runs": 2400, "budget": 50, "minruns": 200, "shrink": 40},
         "thorough": {"runs": 60000, "budget": 900, "minruns": 200,
                      "shrink": 120}}
RULE = ("each run draws a random GP or SP and sweeps it 1-3 times, with "
        "seeded failures at seeded points; non-trivial: a sweep with a "
        "failing point was judged")
REAL = ["gpkit (all of it)", "cvxopt solver", "ad"]
STUB = ["clock", "stdout", "solver faults in front of cvxopt"]
STATE_MEASURE = "(form of sweep, what was swept, which points failed and how)"
FAULTS = ["solver:valueerror", "solver:arith", "solver:unknown",
          "solver:boom", "solver:memory", "solver:print", "solver:slow"]
PROBES = ["swept-const", "swept-linked", "swept-element", "swept-vector",
          "grid", "one-point-left", "all-points-failed", "halted",
          "infeasible-before-solver", "infeasible-point", "zero-value",
          "sensitivity-cancels", "loose-warning", "linked-varies",
          "judged-points", "sp-point", "atindex", "table", "second-sweep",
          "half-free-vector"]
ASSUMPTIONS = ["models are small (at most ~12 free variables)",
               "points of signomial sweeps are judged against a fresh model's "
               "local solve at the same values, not a global optimum"]

SFAULTS = ["valueerror", "arith", "boom", "unknown", "memory", "zerodiv",
           "print", "print_then_boom", "slow3", "primal infeasible"]


def generate(rng, tier):
    "A run's trace"
    sp = rng.random() < .2
    spec = gen.gen_spec(rng, "m", sp=sp, linked=rng.random() < .5,
                        units=rng.random() < .5, limit=not sp,
                        part=rng.random() < .6)
    V, cons = spec["vars"], spec["cons"]
    ups = sorted({(f[0], f[1]) for c in cons if c["o"] == ">="
                  and c["l"] and c["l"][0]["f"] for f in c["l"][0]["f"][:1]
                  if V[f[0]]["k"] == "free"}, key=str)
    special = []
    if ups and not sp:
        for kind in rng.sample(["zero", "cancel", "room", "loose"],
                               rng.randint(1, 3)):
            i, e = rng.choice(ups)
            u = V[i]["u"]
            up = [i, e, 1, u]
            V.append({"n": "m_" + kind, "k": "const", "u": None, "d": 0,
                      "v": 0.25, "part": 0, "used": 1, "special": kind})
            k = len(V)-1
            special.append(k)
            if kind == "zero":     # a constraint which vanishes at zero
                cons.append({"o": ">=", "l": [{"c": 1., "f": [up]}],
                             "r": [{"c": gen.rnd(rng, .5, 3),
                                    "f": [[k, None, 1, None]]}]})
            elif kind == "cancel":  # no sensitivity at one
                cost = {"c": gen.rnd(rng, .1, 1), "f": [up]}
                spec["cost"].append({"c": cost["c"],
                                     "f": cost["f"]+[[k, None, 1, None]]})
                spec["cost"].append({"c": cost["c"],
                                     "f": cost["f"]+[[k, None, -1, None]]})
            elif kind == "room":   # no room at one
                cons.append({"o": ">=", "l": [{"c": 1., "f": []}],
                             "r": [{"c": 1., "f": [[k, None, 1, None]]},
                                   {"c": 1e-5, "f": [up]}]})
            else:
                cons.append({"o": ">=", "loose": 1,
                             "l": [{"c": 1., "f": [up]}],
                             "r": [{"c": 1., "f": [[k, None, 1, None]]}]})
    if ups and not sp and rng.random() < .3:
        # a vector with a fixed and a free element
        i, e = rng.choice(ups)
        V.append({"n": "m_half", "k": "const", "u": None, "d": 2,
                  "v": [gen.rnd(rng, .5, 2), gen.rnd(rng, .5, 2)], "part": 0,
                  "used": 1, "half": 1})
        k = len(V)-1
        cons.append({"o": ">=", "l": [{"c": 1., "f": [[i, e, 1, V[i]["u"]]]}],
                     "r": [{"c": gen.rnd(rng, .5, 3),
                            "f": [[k, 0, 1, None]]}]})
        cons.append({"o": ">=", "l": [{"c": 1., "f": [[k, 1, 1, None]]}],
                     "r": [{"c": gen.rnd(rng, .5, 3), "f": []}]})
        spec["cost"].append({"c": gen.rnd(rng, .1, 1),
                             "f": [[k, 1, 1, None]]})
    can = [i for i, v in enumerate(V) if v["used"]
           and v["k"] in ("const", "linked") and not v.get("limit")
           and not v.get("special")]
    lim = [i for i, v in enumerate(V) if v.get("limit")]
    elements = gen.used_elements(spec)
    for i, v in enumerate(V):
        if v["k"] == "linked" and rng.random() < .3:
            gen.rescale(spec, i, rng.choice([1e-10, 1e-6, 1e6]))
    ops = []
    for _ in range(rng.randint(1, 3)):
        form = rng.choice(["sweep", "subs", "subs", "grid", "multi"])
        count = {"sweep": 1, "subs": 1, "grid": rng.choice([2, 2, 3]),
                 "multi": 2}[form]
        sw, used = [], set()
        for _ in range(count):
            pool = [(i, 1) for i in can] + [(i, 3) for i in special] \
                + [(i, 1) for i in lim]
            pool = [i for i, w in pool for _ in range(w) if i not in used]
            if not pool:
                break
            i = rng.choice(pool)
            used.add(i)
            v = V[i]
            n = rng.randint(2, 5 if form in ("sweep", "subs") else 3)
            if v.get("special") == "zero":
                vals = [0., gen.rnd(rng, .2, 2), gen.rnd(rng, 2, 5)]
            elif v.get("special") == "cancel":
                vals = [1., gen.rnd(rng, .3, .8), gen.rnd(rng, 1.2, 3)]
            elif v.get("special") == "room":
                vals = [1., 0., gen.rnd(rng, .1, .8), 1.7, 1.0005]
                n = 3
            elif v.get("special") == "loose":
                vals = [gen.rnd(rng, 1e-4, 1e-3), gen.rnd(rng, 5, 20),
                        gen.rnd(rng, .3, 2)]
            elif v.get("limit"):
                vals = [1e-6, gen.rnd(rng, 1e4, 1e5), gen.rnd(rng, 1e4, 1e5)]
            else:
                lo = gen.rnd(rng, .4, 2)
                vals = [round(lo*(1+.35*j), 4) for j in range(5)]
            rng.shuffle(vals)
            vals = vals[:n]
            if n > 2 and rng.random() < .25:   # there and back again
                vals[-1] = vals[0]
            s = {"i": i, "what": "all", "vals": vals, "e": None,
                 "as": rng.choice(["list", "array", "tuple"]),
                 "key": rng.choice(["var", "key", "str"])}
            if v["d"]:
                s["what"] = rng.choice(["elem", "elem", "vector"])
                s["e"] = rng.choice([e for e in range(v["d"])
                                     if (i, e) in elements])
                if v.get("half"):
                    s.update(what="elem", e=0)
                s["key"] = "key"
                if s["what"] == "vector":
                    s["vals"] = [[round(x*(1+.21*e), 4) for e in
                                  range(v["d"])] for x in vals[:2]]
                    s["as"] = rng.choice(["list", "array"])
            sw.append(s)
        if not sw:
            continue
        bound_points(sw, form, 15 if sp else 60)
        op = {"form": form if len(sw) > 1 or form in ("sweep", "subs")
              else "subs", "sw": sw, "skip": rng.random() < .75,
              "verbosity": rng.choice([0, 0, 0, 1, 2]), "faults": {}}
        if rng.random() < .6:
            for _ in range(rng.randint(1, 3)):
                op["faults"][str(rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 8]))] \
                    = rng.choice(SFAULTS)
        if rng.random() < .05:
            op["faults"] = {"*": rng.choice(SFAULTS[:4])}
        if rng.random() < .25 and can:
            i = rng.choice(can)
            d = V[i]["d"]
            if V[i]["k"] == "const" and not V[i].get("half"):
                op["set"] = {"i": i, "v": [gen.rnd(rng, .4, 4) for _ in
                                           range(d)] if d
                             else gen.rnd(rng, .4, 4)}
        ops.append(op)
    return {"spec": spec, "sp": sp, "ops": ops,
            "clock": rng.choice([None, None, {"kind": "frozen"}])}


def nontrivial(trace, res):
    "A sweep some of whose points failed was judged"
    p = res.get("probes", {})
    return bool(p.get("judged-points") and (res.get("faults") or
                p.get("infeasible-point") or
                p.get("infeasible-before-solver")))


def bound_points(sw, form, most):
    "Drops values until a grid is small enough to judge in one run"
    if form != "grid":
        return
    while True:
        size, longest = 1, None
        for s in sw:
            vals = s["vals"]
            n = len(vals)
            if s["what"] == "vector":      # each element is its own axis
                n **= len(vals[0])
            elif n > 2 and (longest is None or n > len(longest["vals"])):
                longest = s
            size *= n
        if size <= most:
            return
        if longest is None:
            if len(sw) == 1:
                return
            sw.pop()
            continue
        longest["vals"] = longest["vals"][:-1]


class View:
    "One point of a sweep's tables"
    def __init__(self, table, i, n):
        self.table, self.i, self.n = table, i, n

    def __contains__(self, key):
        return key in self.table

    def __getitem__(self, key):
        got = self.table[key]
        if isinstance(got, dict):
            return View(got, self.i, self.n)
        if self.n == 1:
            return got
        return got[self.i]


def subview(table, i, n):
    "View of a table whose keys are looked up in the table itself"
    return View(table, i, n)


def points_of(B, sw, V, np):
    "[(spec var, element)] and the list of their values, in sweep order"
    keys, vals = [], []
    used = gen.used_elements(B.spec)
    for s in sw:
        if s["what"] == "vector":
            for e in range(V[s["i"]]["d"]):
                if B.spec["wrap"] == "none" and (s["i"], e) not in used:
                    continue    # it's not part of the model
                keys.append((s["i"], e))
                vals.append([row[e] for row in s["vals"]])
        else:
            keys.append((s["i"], s["e"]))
            vals.append(list(s["vals"]))
    def eqstr(k):
        v = B.vars[k[0]]
        return (v if k[1] is None else v[k[1]]).key.eqstr
    order = sorted(range(len(keys)), key=lambda j: eqstr(keys[j]))
    keys = [keys[j] for j in order]
    grids = np.meshgrid(*[vals[j] for j in order])
    flat = [g.ravel() for g in grids]
    return keys, [[float(f[p]) for f in flat] for p in range(flat[0].size)]


def state_at(state, keys, vals):
    "The model's state at one point"
    st = {i: (list(v) if isinstance(v, (list, tuple)) else v)
          for i, v in state.items()}
    for (i, e), x in zip(keys, vals):
        if e is None:
            st[i] = x
        else:
            st[i][e] = x
    return st


def execute(trace):
    "Sweeps and judges"
    import numpy as np
    from dst import sess
    from dst.world import W
    spec = trace["spec"]
    V = spec["vars"]
    B = gen.build(spec)
    m = B.m
    state = gen.state0(spec)
    for i, v in enumerate(V):
        if v.get("half"):
            del m.substitutions[B.vars[i][1].key]
            state[i] = [v["v"][0], None]
            W.probe("half-free-vector")
    for count, op in enumerate(trace["ops"]):
        if op.get("set"):
            sess.set_value(B, m, op["set"]["i"], op["set"]["v"], "var",
                           state, spec)
        if count:
            W.probe("second-sweep")
        multi = op["form"] == "multi"
        args = {}
        for s in op["sw"]:
            W.probe("swept-linked" if V[s["i"]]["k"] == "linked" else
                    {"elem": "swept-element", "vector": "swept-vector",
                     "all": "swept-const"}[s["what"]])
            key, vals = sweep_args(B, s, V[s["i"]], np)
            args[key] = vals
        if len(op["sw"]) > 1 and not multi:
            W.probe("grid")
        restore = []
        if op["form"] in ("subs", "grid"):
            for s in op["sw"]:
                old = state.get(s["i"])
                if V[s["i"]]["k"] == "linked" and s["i"] not in state:
                    old = gen.make_fn(V[s["i"]]["fn"], B.vars, spec)
                key, vals = sweep_args(B, dict(s, key="key"), V[s["i"]], np)
                m.substitutions[key] = ("sweep", vals)
                restore.append((s, B.vars[s["i"]], old))
        swept = [[s] for s in op["sw"]] if multi else [op["sw"]]
        W.begin_op(op["faults"])
        W.captured = []
        v = op["verbosity"]
        before = W.opsolves
        with sess.quiet_stdout():
            if op["form"] in ("sweep", "multi"):
                out = sess.call(m.sweep, args, verbosity=v,
                                skipsweepfailures=op["skip"])
            elif trace["sp"]:
                out = sess.call(m.localsolve, verbosity=v,
                                skipsweepfailures=op["skip"])
            else:
                out = sess.call(m.solve, verbosity=v,
                                skipsweepfailures=op["skip"])
        calls, W.captured = W.captured, None
        del before
        faults = dict(W.opfaults)
        W.end_op()
        for s, var, old in restore:
            if s["what"] == "elem":
                m.substitutions[var[s["e"]].key] = old[s["e"]]
            elif old is None:
                del m.substitutions[var.key]
            else:
                m.substitutions[var.key] = gen.shaped(
                    V[s["i"]], np.array(old)) if s["what"] == "vector" else old
        sols = out[1] if out[0] == "ok" and multi and len(swept) > 1 else \
            [out[1]] if out[0] == "ok" else None
        if trace["sp"]:
            judge_sp(trace, op, B, m, state, swept, out, sols, faults, calls,
                     np, sess, W)
        else:
            judge(op, B, m, state, swept, out, sols, faults, calls, np, sess,
                  W)
        if W.violations:
            return


def judge(op, B, m, state, swept, out, sols, faults, calls, np, sess, W):
    "Judges a GP sweep"
    # pylint: disable=too-many-locals,too-many-arguments,too-many-branches
    from dst import ops
    spec, V = B.spec, B.spec["vars"]
    call = 0
    parts = []
    for sw in swept:
        keys, pts = points_of(B, sw, V, np)
        good, failed, halted = [], [], False
        generated = 0
        for p, vals in enumerate(pts):
            ref = gen.Ref(spec, state_at(state, keys, vals))
            r = ref.solve()
            meant = any((V[i].get("limit") and x < 1) or
                        (V[i].get("special") == "room" and x >= 1)
                        for (i, _), x in zip(keys, vals))
            if r["status"] == "constant-infeasible":
                W.probe("infeasible-before-solver")
                W.state("pre", p)
                bad = True
            else:
                generated += 1
                fault = faults.get(str(call)) or faults.get("*")
                if r["status"] != "optimal" and not meant or \
                        r["status"] == "borderline":
                    W.probe("no-reference")
                    return
                real = call < len(calls) and calls[call].get("status")
                if r["status"] == "optimal" and ops.harmless(fault) and \
                        real in ("unknown", "stalled", False, None) and \
                        call < len(calls):
                    W.probe("solver-gave-up")
                    return
                call += 1
                if not ops.harmless(fault):
                    bad = True
                else:
                    bad = r["status"] != "optimal"
                    if bad:
                        W.probe("infeasible-point")
            if bad:
                failed.append(p)
                if not op["skip"]:
                    halted = True
                    break
            else:
                good.append((p, vals, ref, r))
        W.state(op["form"], [s["what"] for s in sw], failed, len(pts), halted)
        tag = "%s of %s%s" % (op["form"], {V[i]["n"] + ("" if e is None else
                              "[%s]" % e): [x[j] for x in pts]
                              for j, (i, e) in enumerate(keys)},
                              " with points %s failing" % failed
                              if failed else "")
        if halted or not good:
            W.probe("halted" if halted else "all-points-failed")
            if not W.check(out[0] == "exc" and
                           isinstance(out[1], RuntimeWarning), "no-failure",
                           lambda: "%s: should have raised a RuntimeWarning,"
                           " but %s" % (tag, sess.short(out[1])
                                        if out[0] == "exc" else "returned")):
                return
            progress(m, B, good, failed, generated, tag, sess, W)
            return
        parts.append((sw, keys, good, failed, generated, tag))
    if out[0] == "exc":
        W.violate("spurious-failure", "%s: raised %s" %
                  (tag, sess.short(out[1])))
        return
    for si, (sw, keys, good, failed, generated, tag) in enumerate(parts):
        if si == len(swept)-1:
            progress(m, B, good, failed, generated, tag, sess, W)
        if not judge_solution(sols[si], B, sw, keys, good, tag, np, sess, W,
                              state):
            return


def progress(m, B, good, failed, generated, tag, sess, W):
    "m.program has a program for each point, each keeping its own result"
    progs = m.program
    if not W.check(isinstance(progs, list) and len(progs) == generated,
                   "progress", lambda: "%s: m.program has %s programs, not %i"
                   % (tag, len(progs) if isinstance(progs, list) else
                      type(progs).__name__, generated)):
        return
    results = [sess.call(lambda p=p: p.result) for p in progs]
    results = [x for end, x in results if end == "ok" and x]
    if not W.check(len(results) >= len(good), "progress", lambda:
                   "%s: only %i programs kept a result" % (tag,
                                                           len(results))):
        return
    del failed
    if len(results) > len(good):   # e.g. a failure after the solve
        return
    for (p, _, ref, r), res in zip(good, results):
        if not sess.compare(res, B, ref, r, "%s: m.program's result for"
                            " point %i" % (tag, p), "wrong-progress"):
            return


def lengths(table, n, path, out, skip):
    "Every leaf of a solution's tables that does not have one item per point"
    for k, v in table.items():
        here = path + [str(k)]
        if isinstance(v, dict):
            if here[0] not in skip:
                lengths(v, n, here, out, skip)
        elif not hasattr(v, "__len__") or len(v) != n:
            out.append((here, getattr(v, "shape", None)))


def judge_solution(sol, B, sw, keys, good, tag, np, sess, W, state):
    "Every table of the solution, point by point"
    # pylint: disable=too-many-locals,too-many-arguments,too-many-branches,too-many-return-statements
    spec, V = B.spec, B.spec["vars"]
    n = len(good)
    if not W.check(len(sol) == n, "wrong-points", lambda: "%s: %i points in"
                   " the solution, should be %i" % (tag, len(sol), n)):
        return False
    if n == 1:
        W.probe("one-point-left")
    else:
        bad = []
        lengths({k: sol[k] for k in ("cost", "variables", "freevariables",
                                     "sweepvariables", "sensitivities",
                                     "warnings") if k in sol}, n, [], bad,
                ())
        if not W.check(not bad, "misaligned", lambda: "%s: %i points, but %s"
                       % (tag, n, bad[:4])):
            return False
    for j, (p, vals, ref, r) in enumerate(good):
        W.probe("judged-points")
        here = "%s: point %i" % (tag, p)
        if not sess.compare(View(sol, j, n), B, ref, r, here):
            return False
        for (i, e), x in zip(keys, vals):
            got = float(View(sol, j, n)["sweepvariables"][sess.key(B, i, e)])
            if not W.check(sess.relclose(got, x, 1e-6), "wrong-sweepvariable",
                           lambda: "%s: %s[%s] is %r in sweepvariables, is %r"
                           % (here, V[i]["n"], e, got, x)):
                return False
            if x == 0:
                W.probe("zero-value")
            if V[i].get("special") == "cancel" and x == 1:
                W.probe("sensitivity-cancels")
        if n > 1:
            W.probe("atindex")
            at = sol.atindex(j)
            if not sess.compare(at, B, ref, r, here + " of atindex"):
                return False
            for (i, e), v in ref.val.items():
                if (i, e) not in ref.used or (i, e) in keys:
                    continue
                if any(k[0] == i for k in keys):
                    continue    # other elements of a swept vector
                got = float(at["constants"][sess.key(B, i, e)])
                if not W.check(sess.relclose(got, v, 1e-6), "wrong-constant",
                               lambda: "%s of atindex: constant %s[%s] is %r,"
                               " should be %r" % (here, V[i]["n"], e, got,
                                                  v)):
                    return False
        for i, e in ref.free[:3]:
            x = B.vars[i] if e is None else B.vars[i][e]
            got = sol(x)
            got = float(sess_mag(got if n == 1 else got[j]))
            want = float(View(sol, j, n)["variables"][sess.key(B, i, e)])
            if not W.check(sess.relclose(got, want, 1e-9), "wrong-call",
                           lambda: "%s: sol(%s) is %r but the variables table"
                           " has %r" % (here, x, got, want)):
                return False
        if not warned(sol, j, n, B, ref, r, here, sess, W):
            return False
    for i, v in enumerate(V):
        if v["k"] not in ("const", "linked") or not v["used"]:
            continue
        key = B.vars[i].key
        swept = any(i == k[0] for k in keys)
        rows = [[ref.val.get((i, e)) for e in (range(v["d"]) if v["d"]
                                               else [None])]
                for _, _, ref, _ in good]
        varies = any(row != rows[0] for row in rows)
        if v["k"] == "linked" and varies and not swept:
            W.probe("linked-varies")
        incon = key in sol["constants"]
        if not W.check(incon == (not swept), "wrong-table", lambda: "%s: %s is"
                       " %s but is%s in the table of constants"
                       % (tag, v["n"], "swept" if swept else "not swept",
                          "" if incon else " not")):
            return False
        if swept:
            continue
        got = np.asarray(sol["constants"][key], "d")
        shape = ((n,) if varies and n > 1 else ()) + (
            gen.SHAPES.get(v["d"], (v["d"],)) if v["d"] else ())
        # values of unused elements don't matter
        if not W.check(got.shape == shape, "wrong-table", lambda: "%s: %s is"
                       " %s in the table of constants, its value in each "
                       "point is %s" % (tag, v["n"], got, rows)):
            return False
    with sess.quiet_stdout():
        text = sess.call(sol.table)
        text2 = sess.call(sol.summary)
    W.probe("table")
    for t in (text, text2):
        if t[0] == "exc":
            W.violate("table-crash", "%s: printing it raised %s"
                      % (tag, sess.short(t[1])))
            return False
    del state
    return True


def sess_mag(x):
    "Magnitude"
    return getattr(x, "magnitude", x)


def warned(sol, j, n, B, ref, r, here, sess, W):
    "The warnings of a Loose constraint set belong to the right points"
    for ci, c in enumerate(B.spec["cons"]):
        if not c.get("loose"):
            continue
        pi = [k for k, p in enumerate(r["P"]) if p[2] == ci]
        la = abs(r["la"].get(pi[0], 0.)) if pi else 0.
        if 1e-7 < la < 1e-3:
            continue
        table = sol.get("warnings", {})
        mine = table.get("Unexpectedly Tight Constraints", [])
        if n > 1 and len(mine):
            mine = mine[j]
        got = any(con is B.cons[ci] for _, con in mine)
        if la > 1e-3:
            W.probe("loose-warning")
        if not W.check(got == (la >= 1e-3), "wrong-warning", lambda: "%s: %s"
                       " has sensitivity %.2g but there is %s warning"
                       % (here, B.cons[ci], la, "a" if got else "no")):
            return False
    del ref, sess
    return True


def judge_sp(trace, op, B, m, state, swept, out, sols, faults, calls, np,
             sess, W):
    "Judges an SP sweep against fresh models' local solves"
    # pylint: disable=too-many-locals,too-many-arguments
    from dst import ops
    spec, V = B.spec, B.spec["vars"]
    if any(c.get("status") in ("unknown", "stalled") and
           ops.harmless(faults.get(str(i)) or faults.get("*"))
           for i, c in enumerate(calls)):
        W.probe("solver-gave-up")
        return
    fired = sum(1 for i in range(len(calls)) if not
                ops.harmless(faults.get(str(i)) or faults.get("*")))
    total = sum(len(points_of(B, sw, V, np)[1]) for sw in swept)
    tag = "%s of an SP, %i failures" % (op["form"], fired)
    if fired and not op["skip"] or fired == total:
        W.check(out[0] == "exc" and isinstance(out[1], RuntimeWarning),
                "no-failure", lambda: "%s: should have raised a RuntimeWarning"
                ", but %s" % (tag, sess.short(out[1]) if out[0] == "exc"
                              else "returned"))
        return
    if out[0] == "exc":
        if len(swept) == 1 or not fired:
            W.violate("spurious-failure", "%s: raised %s" %
                      (tag, sess.short(out[1])))
        return
    if not W.check(sum(len(s) for s in sols) == total-fired, "wrong-points",
                   lambda: "%s: %s points of %i" % (tag, [len(s) for s in
                                                          sols], total)):
        return
    for sol, sw in zip(sols, swept):
        keys, pts = points_of(B, sw, V, np)
        n = len(sol)
        at = 0
        if n > 1:
            bad = []
            lengths({k: sol[k] for k in ("cost", "variables", "freevariables",
                                         "sweepvariables", "sensitivities",
                                         "warnings") if k in sol}, n, [], bad,
                    ())
            if not W.check(not bad, "misaligned", lambda: "%s: %i points, but"
                           " %s" % (tag, n, bad[:4])):
                return
        for j in range(n):
            view = View(sol, j, n)
            got = [float(view["sweepvariables"][sess.key(B, i, e)])
                   for i, e in keys]
            while at < len(pts) and not all(sess.relclose(a, b, 1e-6) for a, b
                                            in zip(got, pts[at])):
                at += 1
            if not W.check(at < len(pts), "wrong-points", lambda: "%s: point"
                           " %i of the solution has %s, points are %s"
                           % (tag, j, got, pts)):
                return
            W.probe("sp-point")
            st = state_at(state, keys, pts[at])
            fresh = gen.build(spec)
            for i, x in st.items():
                sess.set_value(fresh, fresh.m, i, x, "key", {}, spec)
            W.captured = []
            with sess.quiet_stdout():
                alone = sess.call(fresh.m.localsolve, verbosity=0)
            flaky = alone[0] == "exc"
            W.captured = None
            if flaky:
                W.probe("no-reference")
                return
            W.probe("judged-points")
            same(view, alone[1], B, fresh, "%s: point %i" % (tag, at), st,
                 sess, W)
            if W.violations:
                return
            at += 1
    del trace, m


def same(view, alone, B, fresh, tag, st, sess, W):
    "One point of a sweep against the same model solved alone"
    spec = B.spec
    a, b = sess.mag(view["cost"]), sess.mag(alone["cost"])
    if not W.check(sess.relclose(a, b, 3e-3), "wrong-answer", lambda: "%s:"
                   " cost %r, alone it's %r" % (tag, a, b)):
        return
    ref = gen.Ref(spec, st)
    x = [float(view["variables"][sess.key(B, i, e)]) for i, e in ref.free]
    if not W.check(ref.violation(x) < 5e-3 and
                   sess.relclose(ref.costval(x), a, 5e-3), "wrong-answer",
                   lambda: "%s: its variables violate constraints by %r and "
                   "cost %r, not %r" % (tag, ref.violation(x), ref.costval(x),
                                        a)):
        return
    for (i, e), v in ref.val.items():
        if (i, e) in ref.used:
            got = float(view["variables"][sess.key(B, i, e)])
            if not W.check(sess.relclose(got, v, 1e-6), "wrong-answer",
                           lambda: "%s: constant %s[%s] is %r, should be %r"
                           % (tag, spec["vars"][i]["n"], e, got, v)):
                return
            t1 = view["sensitivities"]["variables"]
            t2 = alone["sensitivities"]["variables"]
            try:
                s1, s2 = (float(t1[sess.key(B, i, e)]),
                          float(t2[sess.key(fresh, i, e)]))
            except KeyError:
                continue
            if s1 == s1 and s2 == s2 and not W.check(
                    sess.close(s1, s2, 2e-2, 2e-2),
                    "wrong-answer:sensitivity", lambda: "%s: sensitivity to "
                    "%s[%s] is %r, alone it's %r"
                    % (tag, spec["vars"][i]["n"], e, s1, s2)):
                return


def sweep_args(B, s, v, np):
    "The key and values of a sweep, in the trace's form"
    var = B.vars[s["i"]]
    vals = [list(x) if isinstance(x, list) else x for x in s["vals"]]
    if s["what"] == "elem":
        var = var[s["e"]]
    key = {"var": var, "key": var.key, "str": v["n"]}[s["key"]]
    if s["what"] == "vector":
        vals = gen.shaped(v, vals)
    if s["as"] == "array":
        vals = np.array(vals)
    elif s["as"] == "tuple":
        vals = tuple(vals)
    return key, vals


def shrink(trace):
    "Property-specific simplifications"
    import copy
    for i, op in enumerate(trace["ops"]):
        if len(op["sw"]) > 1:
            for j in range(len(op["sw"])):
                t = copy.deepcopy(trace)
                del t["ops"][i]["sw"][j]
                if len(t["ops"][i]["sw"]) == 1:
                    t["ops"][i]["form"] = "subs"
                yield t
        for j, s in enumerate(op["sw"]):
            for k in range(len(s["vals"])):
                if len(s["vals"]) > 1:
                    t = copy.deepcopy(trace)
                    del t["ops"][i]["sw"][j]["vals"][k]
                    yield t
        if op.get("set"):
            t = copy.deepcopy(trace)
            del t["ops"][i]["set"]
            yield t
