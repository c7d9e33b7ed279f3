"""C16: what a program does is determined by the program."""
import builtins
import contextlib
import io
import json
import os
import warnings

from dst import gen, persist, zygote

LEVEL = "exploration"
TECHNIQUE = ("the same simulated session is run in several processes which "
             "differ in hash seed, clock, verbosity, garbage collection, "
             "memory layout and in what else was built, solved, interrupted "
             "and dropped in them before and in between; each process's "
             "programs, results, text and errors are compared to the first's")
TIERS = {"quick": {"runs": 2500, "budget": 45, "minruns": 60, "shrink": 40},
         "thorough": {"runs": 60000, "budget": 900, "minruns": 100,
                      "shrink": 120}}
RULE = ("each run builds a random GP or SP, performs 2-7 solves, sweeps, "
        "debugs, failures and reports, and repeats that in 1-3 processes "
        "which differ; non-trivial: a process with other hashes or history "
        "was compared after a solve")
REAL = ["gpkit (all of it)", "interpreters with other hash seeds",
        "cvxopt solver, in the first process"]
STUB = ["clock", "stdout", "solver in later processes (the first's answers, "
        "once the same program arrived)"]
STATE_MEASURE = "(operation, outcome, what differed between the processes)"
FAULTS = ["solver:boom", "solver:interrupt", "solver:valueerror",
          "other-hash-seed", "other-clock", "other-verbosity", "gc-storm",
          "memory-churn", "units-dropped", "others-solved", "others-failed",
          "same-built-before", "others-reported"]
PROBES = ["compared", "program", "report", "error-text", "debug", "sweep",
          "autosweep", "signomial", "printed", "unbounded", "docstring",
          "python-warning"]
ASSUMPTIONS = ["the same version of python, numpy and gpkit in each process",
               "models are built in the same order, or their numbering is "
               "reset with NamedVariables.reset_modelnumbers()"]
HS = [1, 2, 3]
TABLES = ["cost", "warnings", "sweepvariables", "model sensitivities",
          "freevariables", "constants", "sensitivities",
          "tightest constraints", "loose constraints", "top sensitivities",
          "insensitivities"]
REPORTS = ["table", "alltables", "latex", "summary", "txt", "csv", "diff",
           "model", "subbed", "names", "frame"]
MESS = ["alloc", "units", "gc", "others", "failed", "self", "reported"]
MESSFAULT = {"alloc": "memory-churn", "units": "units-dropped",
             "gc": "gc-storm", "others": "others-solved",
             "failed": "others-failed", "self": "same-built-before",
             "reported": "others-reported"}


def generate(rng, tier):
    "A run's trace"
    sp = rng.random() < .25
    spec = gen.gen_spec(rng, "m", sp=sp, units=rng.random() < .6,
                        part=rng.random() < .5, nfree=rng.choice([2, 3, 4]),
                        linked=not sp and rng.random() < .3,
                        limit=rng.random() < .3)
    V, cons = spec["vars"], spec["cons"]
    ups = [f for c in cons if c["o"] == ">=" and len(c["l"]) == 1
           for f in c["l"][0]["f"][:1] if V[f[0]]["k"] == "free"]
    for kind in rng.sample(["loose", "tight"], rng.choice([0, 1, 2])):
        if ups:
            f = rng.choice(ups)
            cons.append({"o": ">=", kind: 1,
                         "r": [{"c": gen.rnd(rng, .05, 5), "f": []}],
                         "l": [{"c": 1., "f": [[f[0], f[1], 1, f[3]]]}]})
    if rng.random() < .4:
        persist.decorate(rng, spec)
    trace = {"spec": spec, "sp": sp, "ops": [],
             "lin": rng.choice([[], [], ["Wing"], ["Plane", "Wing"]]),
             "clock": {"kind": "frozen"}}
    nsol = 0
    for _ in range(rng.randint(2, 7 if tier == "quick" else 12)):
        if nsol and rng.random() < .5:
            trace["ops"].append({"do": "report", "s": rng.randrange(nsol),
                                 "o": rng.randrange(nsol),
                                 "how": rng.choice(REPORTS)})
            continue
        if rng.random() < .12:
            trace["ops"].append({"do": "unbounded",
                                 "drop": rng.randrange(len(cons)),
                                 "bounded": rng.random() < .5})
            continue
        if rng.random() < .1:
            n = rng.randint(2, 5)
            trace["ops"].append({
                "do": "docstring", "n": n, "up": rng.sample(range(n), 1),
                "down": rng.sample(range(n), rng.randint(0, 2)),
                "cons": [[rng.choice([">=", "<=", "=="]), rng.randrange(n),
                          [[rng.randrange(n), rng.choice([1, 2, -1])]
                           for _ in range(rng.randint(1, 3))]]
                         for _ in range(rng.randint(1, 3))]})
            continue
        op = persist.gen_solve(rng, spec, sp)
        op.update(do="solve", v=rng.choice([0, 0, 1, 2, 3]))
        if rng.random() < .15:
            op["faults"] = {str(rng.choice([0, 0, 1])):
                            rng.choice(["boom", "interrupt", "valueerror"])}
        trace["ops"].append(op)
        nsol += 1
    trace["phases"] = [phase(rng, trace) for _ in
                       range(rng.choice([1, 1, 2, 3]))]
    return trace


def phase(rng, trace):
    "How a process differs from the first"
    out = {"hs": rng.choice([0] + HS), "mess": []}
    if rng.random() < .3:
        out["clock"] = rng.choice([None, {"kind": "backward"}])
    if rng.random() < .3:
        out["v"] = rng.choice([0, 1, 2, 3])
    for _ in range(rng.choice([0, 1, 2, 3])):
        a = {"a": rng.choice(MESS), "n": rng.choice([1, 2, 3, 40]),
             "at": rng.choice([0, 0, 0, rng.randrange(len(trace["ops"]))])}
        if a["a"] in ("others", "failed", "reported"):
            sp = rng.random() < .2
            a.update(spec=gen.gen_spec(rng, rng.choice("mop"), sp=sp, nfree=2,
                                       units=rng.random() < .7), sp=sp,
                     keep=rng.random() < .4, n=rng.choice([1, 1, 2]))
        elif a["a"] == "self":
            a.update(at=0, n=rng.choice([1, 2]), solve=rng.random() < .5,
                     keep=rng.random() < .5)
        elif a["a"] == "units":
            a["u"] = [rng.choice(["m", "ft", "km", "s", "min", "lbf", "N"])
                      for _ in range(3)]
        out["mess"].append(a)
    return out


def nontrivial(trace, res):
    "Was anything compared?"
    return bool(res.get("probes", {}).get("compared"))


def drive(trace, fork_run, run_child):
    "First the reference process, then those which differ"
    def other(k):
        if not k:
            return {}
        ph = trace["phases"][k-1]
        return {"clock": ph["clock"]} if "clock" in ph else {}
    return zygote.drive("C16", trace, [0]+[p["hs"] for p in trace["phases"]],
                        fork_run, run_child, override=other)


def build(trace):
    "The model, inside its lineage"
    from gpkit import NamedVariables
    with contextlib.ExitStack() as stack:
        for name in trace["lin"]:
            stack.enter_context(NamedVariables(name))
        return gen.build(trace["spec"])


class Script:
    "What a process did: recorded by the first, compared to by the others"
    def __init__(self, trace):
        self.path = os.path.join(trace["dir"], "script.json")
        self.first = trace["phase"] == 0
        self.got, self.at = [], 0
        self.want = None
        if not self.first:
            with open(self.path) as f:
                self.want = json.load(f)
        self.bad = False

    def say(self, kind, what, value):
        "One thing the process did -> False if the first did otherwise"
        from dst.world import W
        if self.bad:
            return False
        if self.first:
            self.got.append([kind, what, value])
            return True
        if self.at >= len(self.want):
            self.bad = True
            return W.check(False, "history", "%s %s has no counterpart"
                           % (kind, what))
        k, w, v = self.want[self.at]
        self.at += 1
        if (k, w) != (kind, what):
            self.bad = True
            return W.check(False, "history", "%s (%s) where %s (%s) was: %s" %
                           (kind, what, k, w, str(value)[:300]))
        d = differ(v, value)
        if d:
            self.bad = True
            return W.check(False, kind, "%s: %s%s" % (
                what, d, "\n%s\n%s" % (v, value)
                if os.environ.get("DST_FULL") else ""))
        return True

    def succeeded(self):
        "Did the first process get an answer from what is done next?"
        return any(k == "outcome" and v == "ok" for k, _, v in
                   next(([e] for e in (self.want or [])[self.at:]
                         if e[0] == "outcome"), []))

    def answer(self):
        "What the first process's solver answered here"
        return self.want[self.at][2]

    def end(self):
        "All of it"
        if self.first:
            with open(self.path, "w") as f:
                json.dump(self.got, f)


def differ(a, b):
    "How two recorded values differ, beyond rounding -> None or text"
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return None
        la, lb = a.split("\n"), b.split("\n")
        for x, y in zip(la, lb):
            if x != y:
                return "says %r, said %r" % (y[:200], x[:200])
        return "has %i lines, had %i" % (len(lb), len(la))
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "has %i elements, had %i: %s, %s" % (
                len(b), len(a), str(b)[:200], str(a)[:200])
        for x, y in zip(a, b):
            d = differ(x, y)
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b) \
                or abs(a-b) <= 1e-9*max(abs(a), abs(b)) + 1e-9:
            return None
        return "is %r, was %r" % (b, a)
    return None if a == b else "is %s, was %s" % (str(b)[:300], str(a)[:300])


def floats(x):
    "Nested floats of a value"
    import numpy as np
    arr = np.array(getattr(x, "magnitude", x), "d")
    return [float(e) for e in arr.ravel()]


def table_of(d):
    "A dictionary by variable: names and values, in its order"
    return [[str(k), floats(v)] for k, v in dict(d).items()]


def solver_for(script, faults, hook=None):
    "cvxopt in the first process, its answers in the others"
    import numpy as np
    from gpkit import exceptions as ex
    from gpkit.solvers.cvxopt import optimize
    from dst.world import W, raise_fault

    count = [0]

    def simsolver(**kw):
        "a user's solver"
        n, count[0] = count[0], count[0]+1
        if hook:
            hook()
        A = kw["A"].tocoo()
        entries = sorted(zip(A.row.tolist(), A.col.tolist(), A.data.tolist()))
        # the model's own options reach the solver, too
        rest = sorted((k, str(v)) for k, v in kw.items()
                      if k not in ("A", "c", "k", "p_idxs", "meq_idxs"))
        prog = [floats(kw["c"]), [int(i) for i in kw["k"]],
                [list(map(float, e)) for e in entries],
                [int(i) for i in kw["p_idxs"]], [list(r) for r in rest]]
        W.probe("program")
        script.say("program", "the solver's call %i" % n, prog)
        fault = (faults or {}).get(str(n))
        if fault:
            W.fired("solver:"+fault)
            raise_fault(fault)
        if script.first:
            try:  # the other processes' solvers print nothing, either
                with contextlib.redirect_stdout(io.StringIO()):
                    out = optimize(**dict(kw, kktsolver="ldl"))
            except Exception as e:
                script.say("answer", "solver", [type(e).__name__, str(e)])
                raise
            script.say("answer", "solver", [
                out["status"], float(out["objective"]), floats(out["primal"]),
                floats(out["la"])])
        ans = script.answer() if not script.first else script.got[-1][2]
        if not script.first:
            script.at += 1
        if len(ans) == 2:
            raise (getattr(ex, ans[0], None) or getattr(
                builtins, ans[0], RuntimeError))(ans[1])
        return {"status": ans[0], "objective": ans[1],
                "primal": np.array(ans[2]), "la": np.array(ans[3])}
    return simsolver


def perform(B, op, solver, v):
    "Performs a solve"
    from gpkit.tools.autosweep import autosweep_1d
    m, k, kw = B.m, op["op"], {"solver": solver, "verbosity": v}
    if k == "solve":
        return m.solve(**kw)
    if k == "localsolve":
        return m.localsolve(**kw)
    if k == "program":
        m.solve(**kw)
        return m.program.result
    if k == "debug":
        return m.debug(**kw)
    if k == "sweep":
        return m.sweep({B.vars[op["i"]]: op["vals"]}, **kw)
    if k == "sweep2":
        kept = {j: m.substitutions[B.vars[op[j]]] for j in "ij"}
        m.substitutions.update({B.vars[op["i"]]: ("sweep", op["vals"]),
                                B.vars[op["j"]]: ("sweep", op["jvals"])})
        try:
            return m.solve(**kw)
        finally:
            m.substitutions.update({B.vars[op[j]]: kept[j] for j in "ij"})
    var = B.vars[op["i"]]
    return autosweep_1d(m, .05, var.key, [op["vals"][0], op["vals"][-1]],
                        **kw).solarray


def report_of(B, sol, other, how):
    "A report's text"
    if how == "table":
        return sol.table()
    if how == "alltables":
        return sol.table(tables=TABLES)
    if how == "latex":
        return sol.table(latex=1) + B.m.latex()
    if how == "summary":
        return sol.summary()
    if how == "diff":
        return sol.diff(other, reltol=.5)
    if how in ("txt", "csv"):
        if how == "txt":
            sol.savetxt("r.txt")
        else:
            sol.savecsv(filename="r.csv")
        with open("r."+how) as f:
            return f.read()
    if how == "model":
        return "%s\n%s" % (B.m, sol.modelstr)
    if how == "subbed":
        out = []
        for con in B.cons:
            for side in (getattr(con, "left", None),
                         getattr(con, "right", None)):
                if hasattr(side, "sub") and not hasattr(side, "shape"):
                    s = side.sub(dict(B.m.substitutions)) if not any(
                        callable(v) for v in
                        dict(B.m.substitutions).values()) else side
                    out.append("%s = %s = %s" % (side, s, s.latex()))
        return "\n".join(out)
    if how == "names":
        names = sorted({k.name for k in B.m.varkeys})
        return "\n".join(
            list(map(str, dict(sol["variables"])))
            + sorted(sol.varnames((), ("unnecessary lineage",)))
            + [str(B.m.variables_byname(name)) for name in names])
    try:
        return str(sol.todataframe())
    except ImportError:
        return "no pandas"


def documented(op):
    "A model whose docstring is verified, and mostly wrong"
    from gpkit import Model, Variable, NamedVariables

    def setup(self):
        "Its variables and constraints"
        xs = []
        for i in range(op["n"]):
            x = Variable("x%i" % i)
            setattr(self, "x%i" % i, x)
            xs.append(x)
        out = []
        for oper, i, factors in op["cons"]:
            right = 2.
            for j, e in factors:
                right = right*xs[j]**e
            left = xs[i]
            out.append({">=": left.__ge__, "<=": left.__le__,
                        "==": left.__eq__}[oper](right))
        return out

    doc = "A model\n"
    for title, key in (("Upper", "up"), ("Lower", "down")):
        if op[key]:
            doc += "\n%s Unbounded\n---------------\n%s\n" % (
                title, ", ".join("x%i" % i for i in op[key]))
    cls = type("Documented", (Model,), {"setup": setup, "__doc__": doc + "\n"})
    try:
        return cls()
    finally:
        NamedVariables.modelnums[((), "Documented")] = 0


KEPT = []


def mess_up(a, trace, sess):
    "What else happens in a process"
    # pylint: disable=too-many-branches
    import gc
    from gpkit import Variable, units, NamedVariables
    from dst.world import W
    W.fired(MESSFAULT[a["a"]])
    if a["a"] == "alloc":
        junk = [bytearray(7*i % 509) for i in range(a["n"]*100)]
        junk += [[object()]*(i % 13) for i in range(a["n"]*50)]
        KEPT.append(junk[::3])
        del junk
    elif a["a"] == "units":
        for j in range(a["n"]):
            u = a["u"][j % len(a["u"])]
            x = Variable("junk%i" % j, u)
            _ = [(x**2 >= 3*units(u)**2), (x/units(u) + 1).sub({x: 2}),
                 str(x*units(u))]
        del x, _
    elif a["a"] == "gc":
        gc.set_threshold(a["n"] if a["n"] < 40 else 0)
        gc.collect()
    elif a["a"] == "self":
        for _ in range(a["n"]):
            B = build(trace)
            if a["solve"]:
                sess.call(perform, B, {"op": "localsolve" if trace["sp"]
                                       else "solve"}, None, 0)
            if a["keep"]:
                KEPT.append(B)
        B = None
        NamedVariables.reset_modelnumbers()
    else:
        for _ in range(a["n"]):
            with NamedVariables("Other"):
                B = gen.build(a["spec"])
            if a["a"] == "failed":
                W.begin_op({"0": "interrupt"})
            got = sess.call(perform, B, {"op": "localsolve" if a["sp"]
                                         else "solve"}, None, 0)
            if a["a"] == "failed":
                W.end_op()
            if a["a"] == "reported" and got[0] == "ok":
                _ = got[1].table(), got[1].summary(), str(B.m)
            if a["keep"]:
                KEPT.append((B, got))
        B = got = None
        if a["n"] % 2:
            gc.collect()


def say_result(script, sol, submodels=True):
    "All that's in a solution"
    for part in ("freevariables", "constants", "sweepvariables"):
        script.say("result", part, table_of(sol.get(part, {})))
    s = sol["sensitivities"]
    script.say("result", "cost", floats(sol["cost"]))
    script.say("result", "sensitivities", table_of(s["variables"]))
    script.say("result", "constraint sensitivities",
               table_of(s["constraints"]))
    if submodels:
        script.say("result", "model sensitivities", table_of(s["models"]))
    script.say("text", "warnings", "\n".join(
        "%s: %s" % (k, [[str(x[0]) for x in w or ()] for w in
                        (v if hasattr(v, "shape") else [v])])
        for k, v in (sol["warnings"] if "warnings" in sol else {}).items()))


@contextlib.contextmanager
def warned():
    "Records users' and runtime warnings"
    with warnings.catch_warnings(record=True) as out:
        warnings.simplefilter("ignore")
        warnings.simplefilter("always", UserWarning)
        warnings.simplefilter("always", RuntimeWarning)
        yield out


def execute(trace):
    "One process's session"
    # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    from gpkit import Model
    from gpkit.constraints.bounded import Bounded
    from dst import sess
    from dst.world import W
    script = Script(trace)
    ph = {"mess": []} if script.first else trace["phases"][trace["phase"]-1]
    if not script.first:
        if ph["hs"]:
            W.fired("other-hash-seed")
        if "clock" in ph:
            W.fired("other-clock")
        if "v" in ph:
            W.fired("other-verbosity")
    alike = "v" not in ph and "clock" not in ph

    def mess(at):
        for a in ph["mess"]:
            if min(a["at"], len(trace["ops"])-1) == at:
                with sess.quiet_stdout():
                    mess_up(a, trace, sess)

    mess(0)
    B = build(trace)
    script.say("text", "the model", str(B.m))
    sols = []
    for at, op in enumerate(trace["ops"]):
        if at:
            mess(at)
        if script.bad:
            break
        if op["do"] == "solve":
            solver = solver_for(script, op.get("faults"))
            v = op["v"]
            # a verbose solve which fails goes on to debug, a silent one not
            if "v" in ph and not v and op["op"] != "debug" \
                    and script.succeeded():
                v = ph["v"]
            with sess.quiet_stdout() as out, warned() as warns:
                got = sess.call(perform, B, op, solver, v)
            if script.bad:
                break
            W.probe(op["op"] if op["op"] in PROBES else "solve")
            if trace["sp"]:
                W.probe("signomial")
        elif op["do"] == "unbounded":
            W.probe("unbounded")
            rest = [c for i, c in enumerate(B.cons)
                    if i != op["drop"] % len(B.cons)]
            solver = solver_for(script, None)
            with sess.quiet_stdout() as out, warned() as warns:
                got = sess.call(lambda: Model(
                    B.m.cost, Bounded(rest) if op["bounded"] else rest).solve(
                        solver=solver, verbosity=0))
            if script.bad:
                break
        elif op["do"] == "docstring":
            W.probe("docstring")
            with sess.quiet_stdout() as out, warned() as warns:
                got = sess.call(documented, op)
        else:
            if not sols:
                continue
            sol, other = sols[op["s"] % len(sols)], sols[op["o"] % len(sols)]
            with sess.quiet_stdout() as out:
                got = sess.call(report_of, B, sol, other, op["how"])
            W.probe("report")
            W.ev("report", op["how"], got[0])
            script.say("text", op["how"], got[1] if got[0] == "ok"
                       else "%s: %s" % (type(got[1]).__name__, got[1]))
            continue
        W.ev(op["do"], op.get("op", ""), got[0])
        W.state(op["do"], op.get("op"), got[0] if got[0] == "ok"
                else type(got[1]).__name__, ph.get("hs"), "v" in ph,
                sorted(a["a"] for a in ph["mess"]))
        script.say("outcome", op["do"], got[0] if got[0] == "ok"
                   else type(got[1]).__name__)
        if alike or script.first:
            script.say("printed", "by a " + op["do"], out.text())
            script.say("printed", "python warnings",
                       [str(w.message) for w in warns])
            W.probe("printed")
            if warns:
                W.probe("python-warning")
        else:
            script.at += 2
        if got[0] != "ok":
            W.probe("error-text")
            script.say("error", op["do"], str(got[1]))
            continue
        sol = got[1]
        if sol is None:
            continue
        if op["do"] == "docstring":
            script.say("text", "a model", str(sol))
            continue
        sols.append(sol)
        say_result(script, sol)
        if not script.first:
            W.probe("compared")
    if not script.first and not script.bad:
        W.check(script.at == len(script.want), "history",
                "%i things were not done again" % (len(script.want)-script.at))
    script.end()
