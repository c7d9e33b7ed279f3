"""C03: process-wide state is as it was when any operation ends, however it ends."""
from dst import gen, ops

LEVEL = "exploration"
TECHNIQUE = ("random programs of nested environments, model constructions, "
             "solves, debugs and printing with exceptions, interrupts and "
             "output failures at seeded points; a shadow of every "
             "process-wide setting is compared after each step")
TIERS = {"quick": {"runs": 2400, "budget": 45, "minruns": 200, "shrink": 40},
         "thorough": {"runs": 60000, "budget": 900, "minruns": 200,
                      "shrink": 120}}
RULE = ("each run executes a random program of 4-12 steps, some nested up to "
        "four environments deep (SignomialsEnabled, Vectorize, NamedVariables,"
        " model setup), with failures inside; non-trivial: a failure left at "
        "least one environment or operation")
REAL = ["gpkit (all of it)", "cvxopt solver"]
STUB = ["clock", "stdout", "solver faults in front of cvxopt"]
STATE_MEASURE = "(step kind, environments around it, how it ended)"
FAULTS = ["solver:valueerror", "solver:boom", "solver:interrupt",
          "solver:memory", "interrupt@clock", "stdout:epipe",
          "stdout:interrupt"]
PROBES = ["raised-through-signomials", "raised-through-vectorize",
          "raised-through-named", "raised-through-setup",
          "solve-under-signomials", "failed-table", "failed-debug",
          "failed-save", "nested-same-environment", "solver-replaced-stdout"]
ASSUMPTIONS = ["environments are left in the reverse order they were entered"]
SFAULTS = ["valueerror", "boom", "interrupt", "unknown", "memory", "print",
           "sysexit", "print_then_boom", "arith"]


class UserError(Exception):
    "Raised by simulated user code"


def gen_body(rng, depth, room):
    "A random program fragment"
    body = []
    for _ in range(rng.randint(1, 4 if depth < 2 else 2)):
        r = rng.random()
        if r < .3 and depth < 4:
            body.append({"op": "ctx", "kind": rng.choice(
                ["sig", "sig", "vec", "named", "setup"]),
                "n": rng.randint(2, 3), "name": rng.choice(["A", "B"]),
                "catch": rng.random() < .5,
                "badreturn": rng.random() < .15,
                "body": gen_body(rng, depth+1, room)})
        elif r < .5:
            body.append({"op": "probe"})
        elif r < .62 and depth:
            body.append({"op": "raise", "kind": rng.choice(
                ["user", "user", "interrupt", "invalid", "bounds"])})
        else:
            body.append(gen_work(rng))
    return body


def gen_work(rng):
    "A library operation, with faults"
    kind = rng.choice(["solve", "solve", "localsolve", "sweep", "autosweep",
                       "debug", "table", "badtable", "varnames", "save",
                       "str", "relax"])
    op = {"op": kind}
    if kind in ("solve", "localsolve", "sweep", "autosweep", "debug"):
        op["verbosity"] = rng.choice([0, 0, 1, 2, 3, 4])
        op["solver"] = rng.choice(["cvxopt", "cvxopt", "custom", "stdout"])
        r = rng.random()
        if r < .5:
            op["faults"] = {rng.choice(["0", "0", "1", "2", "*"]):
                            rng.choice(SFAULTS)}
        elif r < .65:
            op["clock_intr"] = rng.randint(1, 6)
        elif r < .85:
            op["verbosity"] = rng.choice([1, 2, 3, 4])
            op["stdout"] = [rng.randint(1, 8),
                            rng.choice(["epipe", "enospc", "interrupt"])]
    if kind == "save":
        op["fail"] = rng.choice([None, "dir", "full", "full"])
        op["how"] = rng.choice(["save", "compressed", "savecsv", "savetxt"])
        op["constraints"] = rng.random() < .5
    if kind == "badtable":
        op["how"] = rng.choice(["latex", "showvars", "title"])
    return op


def generate(rng, tier):
    "A run's trace"
    body = []
    for _ in range(rng.randint(2, 5)):
        body += gen_body(rng, 0, None)
    return {"ops": body, "clock": rng.choice([None, None, {"kind": "frozen"}])}


def nontrivial(trace, res):
    "A failure passed through something"
    return bool(res.get("faults")) or any(
        k.startswith(("raised", "failed")) for k in res.get("probes", {}))


def execute(trace):
    "Runs the program, comparing every process-wide setting with its shadow"
    # pylint: disable=too-many-locals,too-many-statements
    import gc
    import os
    import sys
    import threading
    import warnings
    import numpy as np
    import cvxopt.solvers
    import gpkit
    from gpkit import (Model, Variable, SignomialsEnabled, Vectorize,
                       NamedVariables)
    from gpkit.constraints.relax import (ConstraintsRelaxed, ConstantsRelaxed,
                                         ConstraintsRelaxedEqually)
    from dst import sess
    from dst.world import W, SimStdout

    class Wing(Model):
        "a part that appears twice, SKIP VERIFICATION"
        def setup(self, c):
            x = self.x = Variable("x", "m")
            s = self.s = Variable("s", c, "m")
            return [x >= s]

    w1, w2 = Wing(2.), Wing(3.)
    y = Variable("y")
    m = Model(w1.x*w2.x/y/gpkit.units("m^2"),
              [w1, w2, y <= Variable("k", 5)])
    a, b, k = Variable("a"), Variable("b"), Variable("kk", 2)
    with SignomialsEnabled():
        spm = Model(a*b**2, [a + b >= k, a >= 0.1, b >= 0.1])
    sol = m.solve(verbosity=0)
    text = str(m)
    names = sorted(sol.varnames([], ("unnecessary lineage", "vec")))
    stream = SimStdout(keep=False)
    sys.stdout = stream
    shadow = {"sig": 0, "vec": (), "lineage": ()}
    nums = {((), "Wing"): 2}
    tmpdir = os.environ["TMPDIR"]
    counter = [0]

    def fds():
        "Number of open file descriptors"
        return len(os.listdir("/proc/self/fd"))

    def snapshot():
        "Process-wide settings that no operation may change"
        return {
            "sys.stdout": id(sys.stdout), "sys.stderr": id(sys.stderr),
            "warnings.filters": [str(f) for f in warnings.filters],
            "numpy error state": dict(np.geterr()),
            "working directory": os.getcwd(),
            "environment": dict(os.environ),
            "gpkit.settings": repr(sorted(gpkit.settings.items())),
            "cvxopt options": repr(sorted(cvxopt.solvers.options.items())),
            "recursion limit": sys.getrecursionlimit(),
            "threads": threading.active_count(),
            "temporary files": sorted(os.listdir(tmpdir)),
            "open files": fds(),
        }
    gc.collect()
    base = snapshot()

    def check(tag):
        "Compares the world with the shadow"
        now = snapshot()
        if now["open files"] != base["open files"]:
            gc.collect()    # files held only by garbage cycles
            now["open files"] = fds()
        for key, val in base.items():
            if now[key] != val:
                W.violate("ambient:" + key, "after %s: %s was %.300s, is %.300s"
                          % (tag, key, val, now[key]))
                base[key] = now[key]
                if key == "sys.stdout":
                    sys.stdout = stream
                    base[key] = id(stream)
        on = bool(SignomialsEnabled)
        if not W.check(on == (shadow["sig"] > 0), "ambient:signomials",
                       "after %s: signomials are %s, should be %s"
                       % (tag, on, shadow["sig"] > 0)):
            raise Stop()
        # what a new variable looks like
        counter[0] += 1
        v = Variable("probe%i" % counter[0])
        key = v.key if hasattr(v, "key") and v.key is not None \
            else v.flat[0].key
        got = tuple(n for n, _ in (key.lineage or ()))
        want = tuple(n for n, _ in shadow["lineage"])
        if not W.check(tuple(key.lineage or ()) == shadow["lineage"]
                       or got == want and tag == "entry", "ambient:lineage",
                       "after %s: a new variable belongs to %s, should belong"
                       " to %s" % (tag, key.lineage, shadow["lineage"])):
            raise Stop()
        shape = getattr(v, "shape", ()) or ()
        if not W.check(tuple(shape) == shadow["vec"], "ambient:vectorization",
                       "after %s: a new variable has shape %s, should be %s"
                       % (tag, shape, shadow["vec"])):
            raise Stop()
        # does writing a signomial work exactly when it should?
        p, q = 2*v, 1*v
        if not shadow["vec"]:
            out = sess.call(lambda: p - q*v)
            ok = out[0] == "ok"
            if not W.check(ok == (shadow["sig"] > 0), "ambient:signomials",
                           "after %s: writing a signomial %s, signomials "
                           "depth is %i" % (tag, "works" if ok else "fails",
                                            shadow["sig"])):
                raise Stop()

    def naming(tag):
        "How variables are named in print does not change either"
        if shadow["lineage"] or shadow["vec"]:
            return
        now = str(m)
        W.check(now == text, "ambient:naming", "after %s the model prints as"
                "\n%s\ninstead of\n%s" % (tag, now, text))
        got = sorted(sol.varnames([], ("unnecessary lineage", "vec")))
        W.check(got == names, "ambient:naming", "after %s names are %s, were "
                "%s" % (tag, got, names))

    class Stop(Exception):
        "Ends a run whose shadow no longer helps"

    def enter(op):
        "Shadow of entering an environment; returns the context manager"
        kind = op["kind"]
        saved = dict(shadow)
        if kind == "sig":
            shadow["sig"] += 1
            return saved, SignomialsEnabled()
        if kind == "vec":
            shadow["vec"] = (op["n"],) + shadow["vec"]
            return saved, Vectorize(op["n"])
        num = nums.get((shadow["lineage"], op["name"]), 0)
        nums[(shadow["lineage"], op["name"])] = num + 1
        shadow["lineage"] += ((op["name"], num),)
        return saved, NamedVariables(op["name"]) if kind == "named" else None

    def run(body, around):
        "Executes a fragment"
        for op in body:
            step(op, around)

    def step(op, around):
        "Executes one step"
        kind = op["op"]
        W.ev("op", kind, op.get("kind"))
        if kind == "probe":
            check("probe in %s" % (around,))
            return
        if kind == "raise":
            W.ev("raise", op["kind"])
            if op["kind"] == "interrupt":
                raise KeyboardInterrupt("sim: user code")
            if op["kind"] == "invalid":
                Model(Variable("u"), [Variable("u2") >= 1, 3])   # not a constraint
                raise UserError("sim: not reached")
            if op["kind"] == "bounds":
                Model(Variable("u"), []).solve(verbosity=0)   # unbounded
                raise UserError("sim: not reached")
            raise UserError("sim: user code")
        if kind == "ctx":
            if op["kind"] in [c for c in around]:
                W.probe("nested-same-environment")
            saved, cm = enter(op)
            err = None
            try:
                if op["kind"] == "setup":
                    def setup(self):
                        "simulated user code"
                        check("entering setup")
                        v = Variable("v", 2)
                        run(op["body"], around + ("setup",))
                        if op["badreturn"]:
                            return [v >= 1, "not a constraint"]
                        return [v >= 1]
                    cls = type(op["name"], (Model,),
                               {"setup": setup,
                                "__doc__": "SKIP VERIFICATION"})
                    cls()
                else:
                    with cm:
                        check("entering " + op["kind"])
                        run(op["body"], around + (op["kind"],))
            except Stop:
                raise
            except BaseException as e:  # pylint: disable=broad-except
                from dst.world import SimLimit, SimCrash
                if isinstance(e, (SimLimit, SimCrash)):
                    raise
                err = e
                W.probe("raised-through-" + {
                    "sig": "signomials", "vec": "vectorize",
                    "named": "named", "setup": "setup"}[op["kind"]])
                W.ev("raised", op["kind"], sess.excname(e))
            shadow.clear()
            shadow.update(saved)
            check("leaving %s with %s" % (op["kind"],
                                          sess.excname(err) if err else "ok"))
            naming("leaving %s" % op["kind"])
            W.state(op["kind"], around, sess.excname(err) if err else "ok")
            if err is not None and not op["catch"] and around:
                raise err
            return
        work(op, around)

    def work(op, around):
        "A library operation"
        kind = op["op"]
        if shadow["vec"] or shadow["lineage"]:
            if kind in ("debug", "relax", "localsolve"):
                kind = "solve"   # these create variables of their own
        if shadow["sig"] and kind in ("solve", "debug", "localsolve"):
            W.probe("solve-under-signomials")
        v = op.get("verbosity", 0)
        solver = None
        if op.get("solver") == "custom":
            solver = ops.custom_solver()
        elif op.get("solver") == "stdout":
            inner = ops.custom_solver()

            def solver(**kw):
                "a solver that captures its own output"
                W.probe("solver-replaced-stdout")
                import io
                sys.stdout = io.StringIO()   # and forgets to put it back
                return inner(**kw)
        so = op.get("stdout") or [None, None]
        W.begin_op(op.get("faults"), op.get("clock_intr"))
        stream.n, stream.fail_at, stream.kind = 0, so[0], so[1]
        nfaults = sum(W.faults.values())
        kw = {"verbosity": v, "solver": solver}
        if kind == "solve":
            out = sess.call(m.solve, **kw)
        elif kind == "localsolve":
            out = sess.call(spm.localsolve, **kw)
        elif kind == "sweep":
            out = sess.call(m.sweep, {w1.s: [1., 2.]}, **kw)
        elif kind == "autosweep":
            out = sess.call(m.autosweep, {w1.s: (1., 2.)}, tol=.1,
                            samplepoints=3, **kw)
        elif kind == "debug":
            out = sess.call((spm if op.get("clock_intr") else m).debug, **kw)
        elif kind == "relax":
            out = sess.call(lambda: [ConstraintsRelaxed(m),
                                     ConstantsRelaxed(m),
                                     ConstraintsRelaxedEqually(m)])
        elif kind == "table":
            out = sess.call(lambda: sol.table() + sol.summary())
        elif kind == "badtable":
            bad = {"latex": {"latex": 9}, "showvars": {"showvars": ["nope"]},
                   "title": {"tables": ["sensitivities", "cost", "modelstr"]}}
            out = sess.call(sol.table, **bad[op["how"]])
        elif kind == "varnames":
            out = sess.call(sol.varnames, ["nope"], ("vec",))
        elif kind == "str":
            out = sess.call(lambda: str(m) + m.latex() + repr(spm))
        else:
            out = save(op)
        stream.fail_at = None
        W.end_op()
        end = "ok" if out[0] == "ok" else sess.excname(out[1])
        if out[0] == "exc" and kind in ("table", "badtable", "varnames"):
            W.probe("failed-table")
        if out[0] == "exc" and kind in ("save", "debug"):
            W.probe("failed-" + kind)
        W.ev("outcome", end, sum(W.faults.values()) - nfaults)
        W.state(kind, around, v, end)
        err = out[1] if out[0] == "exc" else None
        del out     # an exception keeps its frames, and their files, alive
        if err is not None:
            err.__traceback__ = err.__cause__ = err.__context__ = None
        check("%s (verbosity %s, faults %s, stdout %s) ended with %s"
              % (kind, v, op.get("faults"), so, end))
        naming("%s, %s" % (kind, end))

    def save(op):
        "Saving, possibly to somewhere that fails"
        name = os.path.join(tmpdir, "x")
        if op["fail"] == "dir":
            name = os.path.join(tmpdir, "nowhere", "x")
        elif op["fail"] == "full":
            name = "/dev/full"
        try:
            if op["how"] == "save":
                return sess.call(sol.save, name,
                                 saveconstraints=op["constraints"])
            if op["how"] == "compressed":
                return sess.call(sol.save_compressed, name,
                                 saveconstraints=op["constraints"])
            return sess.call(getattr(sol, op["how"]), filename=name)
        finally:
            if os.path.exists(name) and name != "/dev/full":
                os.remove(name)

    try:
        check("start")
        for op in trace["ops"]:
            step(op, ())
        check("end")
        naming("everything")
        again = m.solve(verbosity=0)
        cost = np.ravel(getattr(again["cost"], "magnitude", again["cost"]))
        W.check(len(cost) == 1 and abs(cost[0] - 1.2) < 1e-3, "wrong-answer",
                "at the end the model solves to %s" % again["cost"])
    except Stop:
        pass


def shrink(trace):
    "Replace an environment by its body"
    import copy
    for i, op in enumerate(trace["ops"]):
        if op["op"] == "ctx":
            t = copy.deepcopy(trace)
            t["ops"][i:i+1] = [o for o in op["body"] if o["op"] != "raise"]
            yield t
            for j in range(len(op["body"])):
                t = copy.deepcopy(trace)
                del t["ops"][i]["body"][j]
                yield t
            for j, sub in enumerate(op["body"]):
                if sub["op"] == "ctx":
                    t = copy.deepcopy(trace)
                    t["ops"][i]["body"][j:j+1] = sub["body"]
                    yield t


_ = gen
