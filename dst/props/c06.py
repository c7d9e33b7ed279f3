"""C06: what a solver returns is checked; wrong results never pass silently."""
from dst import gen

LEVEL = "exploration"
TECHNIQUE = ("simulated runs in which a solver's returned optimum is corrupted "
             "at seeded calls - flipped bits, lost or swapped entries, stale "
             "answers, nans - and whether gpkit warns is judged against an "
             "independent evaluation of the optimality conditions")
TIERS = {"quick": {"runs": 2600, "budget": 40, "minruns": 200, "shrink": 40},
         "thorough": {"runs": 60000, "budget": 900, "minruns": 200,
                      "shrink": 120}}
RULE = ("each run builds 1 random GP or SP and performs 2-6 solves, program "
        "solves, local solves and sweeps with cvxopt or a user's solver "
        "returning posynomial or monomial sensitivities, whose results are "
        "corrupted at seeded calls; non-trivial: a corruption that breaks an "
        "optimality condition by more than 2 percent was judged")
REAL = ["gpkit (all of it)", "cvxopt solver"]
STUB = ["clock", "stdout", "what a solver returned is altered after the fact"]
STATE_MEASURE = "(operation, solver form, corruption, verdict)"
FAULTS = ["corrupt:bitflip", "corrupt:shift", "corrupt:scale", "corrupt:nan",
          "corrupt:inf", "corrupt:negate", "corrupt:zero", "corrupt:roll",
          "corrupt:stale", "corrupt:swap"]
PROBES = ["warned", "quiet", "harmless-corruption", "only-dual-wrong",
          "only-constraint-violated", "raised-instead", "monomial-duals",
          "cvxopt-itself"]
ASSUMPTIONS = ["a result whose every optimality residual is below 1e-6 is "
               "correct, and one with a residual above 2e-2 is not; results "
               "in between are not judged"]

KINDS = ["bitflip", "bitflip", "bitflip", "shift", "shift", "scale", "nan",
         "inf", "negate", "zero", "roll", "stale", "swap"]
WHERE = ["primal", "primal", "dual", "dual", "objective"]


def corruption(rng):
    "How one result is altered"
    kind = rng.choice(KINDS)
    out = {"kind": kind, "in": rng.choice(WHERE), "at": rng.random()}
    if kind == "bitflip":
        # mostly exponent and sign bits, as low mantissa bits are harmless
        out["bit"] = rng.choice([63, 62, rng.randrange(48, 63),
                                 rng.randrange(0, 64)])
    elif kind == "shift":
        out["by"] = rng.choice([-1, 1])*gen.rnd(rng, .05, 3)
    elif kind == "scale":
        out["by"] = rng.choice([.5, .9, 1.1, 2., 1.0000001, 10.])
    elif kind == "inf":
        out["by"] = rng.choice([-1, 1])
    return out


def generate(rng, tier):
    "A run's trace"
    sp = rng.random() < .2
    spec = gen.gen_spec(rng, "m", sp=sp, units=rng.random() < .3,
                        part=rng.random() < .5, linked=rng.random() < .15)
    plain = not sp and rng.random() < .12
    if plain:
        plain_spec(rng, spec)
    V = spec["vars"]
    ups = sorted({(f[0], f[1]) for c in spec["cons"] if c["o"] == ">="
                  and c["l"] and c["l"][0]["f"] for f in c["l"][0]["f"][:1]
                  if V[f[0]]["k"] == "free"}, key=str)
    if ups and not plain and rng.random() < .5:   # a variable the cost does not mention
        i, e = rng.choice(ups)
        V.append({"n": "m_w", "k": "free", "u": None, "d": 0, "v": None,
                  "part": 0, "used": 1})
        w = [len(V)-1, None, 1, None]
        spec["cons"].append({"o": ">=", "l": [{"c": 1., "f": [w]}],
                             "r": [{"c": gen.rnd(rng, .5, 2), "f": []}]})
        spec["cons"].append({"o": ">=",
                             "l": [{"c": 1., "f": [[i, e, 1, V[i]["u"]]]}],
                             "r": [{"c": gen.rnd(rng, .1, 1), "f": [w]}]})
    consts = [i for i, v in enumerate(V) if v["k"] == "const" and v["used"]
              and not v.get("limit") and not v["d"]]
    out = []
    for _ in range(rng.randint(2, 6)):
        kind = rng.choice(["solve", "solve", "program", "raw", "sweep"]
                          if not sp else ["localsolve"])
        if kind == "sweep" and not consts:
            kind = "solve"
        op = {"op": kind, "verbosity": rng.choice([0, 0, 0, 1, 2]),
              "solver": rng.choice(["cvxopt", "la", "la", "la-1", "nu", "nu"]),
              "name": rng.choice(["mysolver", "mysolver", "cvxopt",
                                  "mosek_cli"])}
        n = 1
        if kind == "sweep":
            n = rng.randint(2, 4)
            lo = gen.rnd(rng, .5, 2)
            op.update(i=rng.choice(consts),
                      vals=[round(lo*(1+.4*j), 4) for j in range(n)])
        if sp:
            n = 4
        op["faults"] = {}
        if rng.random() < .8:
            for _ in range(rng.choice([1, 1, 2])):
                op["faults"][str(rng.randrange(n))] = [
                    corruption(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
                if plain and rng.random() < .5:
                    op["faults"][next(iter(op["faults"]))] = [
                        {"kind": "swap", "in": "dual", "at": rng.random()}]
        out.append(op)
    return {"spec": spec, "sp": sp, "ops": out, "clock": None}


def plain_spec(rng, spec):
    """A sum of variables each above its constant: sensitivities exchanged
    between its terms still add up, and even give the same dual cost"""
    n = rng.randint(2, 4)
    new = lambda nm, k, v: {"n": "m_%s" % nm, "k": k, "u": None, "d": 0,
                            "v": v, "part": 0, "used": 1}
    spec["vars"] = [new("x%i" % i, "free", None) for i in range(n)] \
        + [new("c%i" % i, "const", gen.rnd(rng, .2, 4)) for i in range(n)]
    e = rng.choice([.5, 1, 1, 2])
    t = lambda c, i, x: {"c": c, "f": [[i, None, x, None]]}
    spec["cost"] = [t(1., i, e) for i in range(n)]
    spec["cons"] = [{"o": ">=", "l": [t(1., i, 1)], "r": [t(1., n+i, 1)]}
                    for i in range(n)]


def nontrivial(trace, res):
    "A wrong result was judged"
    return bool(res.get("probes", {}).get("warned"))


def corrupt(arr, c, stale=None):
    "Applies one corruption to a float array; returns whether it changed"
    import struct
    from dst.world import W
    if not len(arr):
        return False
    j = int(c["at"]*len(arr))
    kind = c["kind"]
    before = arr.copy()
    if kind == "bitflip":
        bits, = struct.unpack("<Q", struct.pack("<d", float(arr[j])))
        arr[j], = struct.unpack("<d", struct.pack("<Q", bits ^ (1 << c["bit"])))
    elif kind == "shift":
        arr[j] += c["by"]
    elif kind == "scale":
        arr[j] *= c["by"]
    elif kind == "nan":
        arr[j] = float("nan")
    elif kind == "inf":
        arr[j] = c["by"]*float("inf")
    elif kind == "negate":
        arr[j] = -arr[j]
    elif kind == "zero":
        arr[j] = 0.
    elif kind == "swap":
        j = min(j, max(0, len(arr)-2))
        arr[j:j+2] = list(arr[j:j+2][::-1])
    elif kind == "roll":
        arr[:] = list(arr[1:]) + list(arr[:1])
    elif kind == "stale":
        if stale is None or len(stale) != len(arr):
            return False
        arr[:] = stale
    if before.tobytes() == arr.tobytes():
        return False
    W.fired("corrupt:" + kind)
    return True


def residuals(posys, x, lam, cost, nus=None):
    """How far a point is from satisfying each optimality condition of
      minimise sum(exp(b0 + A0 x))  s.t.  sum(exp(bi + Ai x)) <= 1

    posys: [(b, A)], the cost first; lam: one multiplier per posynomial;
    nus: one per monomial, if that is what the solver returned."""
    import numpy as np
    bad = float("inf")
    out = {}
    with np.errstate(all="ignore"):
        z = [b + nansafe(A, x) for b, A in posys]
        vals = [np.exp(zi).sum() for zi in z]
        out["cost"] = reldiff(vals[0], cost)
        out["primal"] = max([0.] + [v-1 if v == v else bad
                                    for v in vals[1:]])
        if nus is None:
            nus = []
            for li, zi in zip(lam, z):
                w = np.exp(zi)
                nus.append(li*w/w.sum())
        lam = [n.sum() for n in nus]
        out["norm"] = abs(lam[0]-1)
        out["sign"] = max(0., -min(float(n.min()) for n in nus))
        g = sum(A.T.dot(n) for (_, A), n in zip(posys, nus))
        out["stationary"] = float(np.abs(g).max()) if len(g) else 0.
        dual = 0.
        for (b, _), n, li in zip(posys, nus, lam):
            for bm, nm in zip(b, n):
                if li and nm:
                    dual += nm*(bm - np.log(nm/li))
                elif nm != nm or li != li:
                    dual = float("nan")
        dual = np.exp(dual)
        out["gap"] = reldiff(dual, cost)
    return {k: (bad if v != v else float(v)) for k, v in out.items()}


def reldiff(a, b):
    "Relative difference of two costs; far below 1e-20 all are the same"
    if a == b or abs(a) + abs(b) < 1e-21:
        return 0.
    if abs(a-b) < 1e-18:   # near that threshold nothing is certain
        return min(1e-2, abs(a-b)/abs(a+b) + 1e-3)
    return abs(a-b)/abs(a+b)


def nansafe(A, x):
    "A.dot(x) in which 0*inf is 0, as for a variable that is not there"
    import numpy as np
    out = np.zeros(A.shape[0])
    for i in range(A.shape[0]):
        for j in np.nonzero(A[i])[0]:
            out[i] += A[i, j]*x[j]
    return out


def execute(trace):
    "Runs the trace against gpkit"
    import numpy as np
    from dst import sess
    from dst.world import W
    spec = trace["spec"]
    B = gen.build(spec)
    m = B.m
    prev = {}

    def tampered(name, arr, cs):
        "alters one returned array by this call's corruptions"
        arr = np.array(arr, "d").ravel().copy()
        clean = arr.copy()
        hit = [c["kind"] for c in cs if c["in"] == name
               and corrupt(arr, c, prev.get(name))]
        prev[name] = clean
        return arr, hit

    for op in trace["ops"]:
        kind, form = op["op"], op["solver"]
        W.ev("op", kind, form)
        calls, trouble = [], []
        seen = [0]

        def usersolver(op=op, form=form, calls=calls, seen=seen,
                       trouble=trouble, **kw):
            "a solver function whose results may be corrupted"
            from gpkit.solvers.cvxopt import optimize
            cs = op["faults"].get(str(seen[0]), [])
            seen[0] += 1
            trouble.append(seen[0])   # until it has returned
            out = optimize(**dict(kw, kktsolver="ldl"))
            trouble.pop()
            A = np.array(kw["A"].tocsr().todense())
            b = np.log(np.array(kw["c"]))
            ends = np.cumsum([0]+list(kw["k"]))
            posys = [(b[i:j].copy(), A[i:j].copy())
                     for i, j in zip(ends[:-1], ends[1:])]
            la = np.array(out["la"], "d")
            x, h1 = tampered("primal", out["primal"], cs)
            obj, h2 = tampered("objective", [out["objective"]], cs)
            res = {"status": out["status"], "objective": obj[0], "primal": x}
            if form == "nu":
                W.probe("monomial-duals")
                nu = []
                for li, (bi, Ai) in zip(la, posys):
                    w = np.exp(bi + Ai.dot(np.array(out["primal"])))
                    nu.append(li*w/w.sum())
                nu, h3 = tampered("dual", np.hstack(nu), cs)
                res["nu"] = nu.copy()
                nus = [nu[i:j].copy() for i, j in zip(ends[:-1], ends[1:])]
                lam = None
            else:
                drop = form == "la-1"
                lam, h3 = tampered("dual", la[1:] if drop else la, cs)
                res["la"] = lam.copy()
                if drop:
                    lam = np.hstack([[1.], lam])
                nus = None
            calls.append({"x": x.copy(), "obj": obj[0], "hit": h1+h2+h3,
                          "res": residuals(posys, x, lam, obj[0], nus)})
            return res

        def incvxopt(sol, rec, op=op, calls=calls, seen=seen,
                     trouble=trouble):
            "the same for what cvxopt itself returns"
            from cvxopt import matrix
            cs = op["faults"].get(str(seen[0]), [])
            seen[0] += 1
            if sol["status"] != "optimal":
                trouble.append(seen[0])
                return sol
            sol = dict(sol)
            x, h1 = tampered("primal", sol["x"], cs)
            obj, h2 = tampered("objective", [sol["primal objective"]], cs)
            nz, nl = len(sol["znl"]), len(sol["zl"])
            dual, h3 = tampered("dual", np.hstack([
                np.ravel(sol["znl"]), np.ravel(sol["zl"]),
                np.ravel(sol["y"])]), cs)
            sol["x"] = matrix(x)
            sol["primal objective"] = float(obj[0])
            sol["znl"], sol["zl"] = matrix(dual[:nz]), matrix(dual[nz:nz+nl])
            sol["y"] = matrix(dual[nz+nl:])
            posys, lam, at = [], [1.], 0
            for kk in rec["K"]:
                posys.append((rec["g"][at:at+kk], rec["F"][at:at+kk]))
                at += kk
            lam.extend(dual[:nz])
            if rec["G"] is not None:
                for row, h, li in zip(rec["G"], rec["h"], dual[nz:nz+nl]):
                    posys.append((np.array([-h]), row[None]))
                    lam.append(li)
            if rec["A"] is not None:
                for row, bb, yi in zip(rec["A"], rec["b"], dual[nz+nl:]):
                    s = -1. if yi < 0 else 1.
                    posys.append((np.array([-s*bb]), s*row[None]))
                    lam.append(s*yi)
                    posys.append((np.array([s*bb]), -s*row[None]))
                    lam.append(0.)
            with np.errstate(all="ignore"):
                cost = np.exp(obj[0])
            calls.append({"x": x.copy(), "obj": cost, "hit": h1+h2+h3,
                          "res": residuals(posys, x, lam, cost)})
            W.probe("cvxopt-itself")
            return sol

        usersolver.__name__ = op["name"]
        solver = "cvxopt" if form == "cvxopt" else usersolver
        if form == "cvxopt":
            W.captured, W.result_hook = [], incvxopt
        kw = {"solver": solver, "verbosity": op["verbosity"]}
        W.begin_op()
        with sess.quiet_stdout() as printed:
            if kind == "solve":
                out = sess.call(m.solve, **kw)
            elif kind == "localsolve":
                out = sess.call(m.localsolve, **kw)
            elif kind == "sweep":
                out = sess.call(m.sweep, {B.vars[op["i"]]: op["vals"]}, **kw)
            else:
                prog = m.gp()
                raw = kind == "raw"
                out = sess.call(lambda: prog.solve(gen_result=not raw, **kw))
                if raw and out[0] == "ok":
                    out = sess.call(lambda: prog.result)
        W.end_op()
        W.captured, W.result_hook = None, None
        if not calls:
            W.probe("solver-gave-up")
            continue
        judged = calls[-1:] if kind == "localsolve" else calls
        warned = printed.text().count("Solution check warning")
        tag = "%s with a solver returning %s (named %s), corrupted by %s" % (
            kind, form, op["name"] if form != "cvxopt" else "cvxopt",
            [c["hit"] for c in judged])
        hit = any(c["hit"] for c in calls)
        good = 1e-4 if op["name"] == "cvxopt" or form == "cvxopt" else 1e-6
        wrong = [c for c in judged if max(c["res"].values()) > 2e-2]
        fine = [c for c in judged if max(c["res"].values()) < good
                and c["res"]["sign"] < 1e-10]
        verdict = "raised" if out[0] == "exc" else "warned" if warned \
            else "quiet"
        W.ev("outcome", verdict, len(wrong), len(fine))
        for c in judged:
            W.state(kind, form, tuple(c["hit"]), sorted(
                k for k, v in c["res"].items() if v > 2e-2), verdict)
        if out[0] == "exc":
            if trouble:
                W.probe("solver-gave-up")
            elif hit:
                W.probe("raised-instead")
            elif len(fine) == len(judged) and kind != "localsolve":
                W.violate("correct-result-refused", "%s: %s"
                          % (tag, sess.short(out[1])))
            continue
        for c in judged:
            if c["hit"] and any(c is f for f in fine):
                W.probe("harmless-corruption")
        worst = [{k: "%.3g" % v for k, v in c["res"].items() if v > 2e-2}
                 for c in wrong]
        if len(wrong) + len(fine) == len(judged):
            W.check(warned >= len(wrong), "wrong-result-silent",
                    "%s: %i of %i results were wrong (by %s), %i warnings"
                    % (tag, len(wrong), len(judged), worst, warned))
            W.check(warned <= len(wrong), "correct-result-warned",
                    lambda: "%s: %i of %i results were wrong (by %s), but: %s"
                    % (tag, len(wrong), len(judged), worst, printed.text()))
            if wrong:
                W.probe("warned")
                for w in worst:
                    if set(w) <= {"norm", "sign", "stationary", "gap"}:
                        W.probe("only-dual-wrong")
                    if set(w) == {"primal"}:
                        W.probe("only-constraint-violated")
            else:
                W.probe("quiet")
        elif wrong:
            W.check(warned >= len(wrong), "wrong-result-silent",
                    "%s: %i of %i results were wrong (by %s), %i warnings"
                    % (tag, len(wrong), len(judged), worst, warned))
        # whatever it was, it is the solver's result that is returned
        costs = [sess.mag(x) for x in np.ravel(out[1]["cost"])]
        W.check(len(costs) == len(judged) and all(
            same(a, c["obj"]) for a, c in zip(costs, judged)),
                "result-altered", lambda: "%s: the solver returned costs %s, "
                "the solution has %s" % (tag, [c["obj"] for c in judged],
                                         costs))
        if kind in ("solve", "program", "raw"):
            with np.errstate(all="ignore"):
                want = np.exp(judged[0]["x"])
            got = np.hstack([np.ravel(v) for v in
                             out[1]["freevariables"].values()])
            got, want = (sorted(float(v) for v in a if v == v)
                         for a in (got, want))
            W.check(len(got) == len(want) and
                    all(same(a, b) for a, b in zip(got, want)),
                    "result-altered", lambda: "%s: the solver returned values "
                    "%s, the solution has %s" % (tag, want, got))


def same(a, b):
    "Equality to rounding, nan included"
    return a == b or a != a and b != b or abs(a-b) <= 1e-9*max(abs(a), abs(b))


def shrink(trace):
    "Property-specific simplifications"
    import copy
    for i, op in enumerate(trace["ops"]):
        for k, cs in op.get("faults", {}).items():
            if len(cs) > 1:
                for j in range(len(cs)):
                    t = copy.deepcopy(trace)
                    del t["ops"][i]["faults"][k][j]
                    yield t
        if op.get("verbosity"):
            t = copy.deepcopy(trace)
            t["ops"][i]["verbosity"] = 0
            yield t
