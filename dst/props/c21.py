"""C21: interactive sessions and plots show the model as it is."""
import contextlib
import math

LEVEL = "exploration"
TECHNIQUE = ("simulated sessions of sliders being moved, constants set "
             "elsewhere, sweeps plotted and plots drawn of models with a known "
             "optimum, with solves and display functions which fail or are "
             "interrupted; what is displayed and drawn is compared to the "
             "optimum at the constants the sliders show")
TIERS = {"quick": {"runs": 1500, "budget": 60, "minruns": 60, "shrink": 40},
         "thorough": {"runs": 60000, "budget": 900, "minruns": 200,
                      "shrink": 120}}
RULE = ("each run makes a model of 2-5 constants in 1-3 lineages, many of the "
        "same name, some vectors, and performs 6-16 operations; non-trivial: a "
        "solve or display failed and something was displayed or drawn after it")
REAL = ["gpkit (all of it)", "cvxopt solver", "pint", "ipywidgets",
        "matplotlib (Agg)"]
STUB = ["clock", "stdout", "the notebook (sliders are moved by the harness)",
        "faults in front of cvxopt"]
STATE_MEASURE = "(operation, number of sliders or sweeps, fault, outcome)"
SFAULTS = ["boom", "unknown", "valueerror", "interrupt"]
FAULTS = ["display:boom", "infeasible"] + ["solver:"+f for f in SFAULTS]
PROBES = ["moved", "session", "ranges", "drawn", "drawn-auto", "after-fault",
          "same-name", "point-drawn", "units"]
ASSUMPTIONS = ["sliders are used by .value and .children only"]
UNITS = [None, None, "m", "s"]
NAMES = ["a", "b", "aa"]


def after_import():
    "What runs would import and set up lazily, in every fork anew"
    import gpkit.interactive.widgets   # noqa
    import gpkit.interactive.plot_sweep   # noqa
    import ipywidgets
    import matplotlib.pyplot as plt
    ipywidgets.FloatSlider()
    plt.subplots(1, 1)[0].canvas.draw()
    plt.close("all")


def generate(rng, tier):
    "A run's trace"
    scopes = [rng.choice([[], ["A"], ["A"], ["B"], ["A", "B"]])
              for _ in range(rng.randint(1, 3))]
    V, taken = [], set()
    for _ in range(rng.randint(2, 5)):
        s, n = rng.randrange(len(scopes)), rng.choice(NAMES)
        if ((s, n) if scopes[s] else n) in taken:
            continue
        taken.add((s, n) if scopes[s] else n)
        V.append({"n": n, "s": s, "u": rng.choice(UNITS),
                  "d": rng.choice([0, 0, 0, 0, 2]),
                  "v": [num(rng), num(rng)],
                  "p": rng.choice([-1, -.5, .5, 1, 2])})
    return {"scopes": scopes, "vars": V, "cap": rng.choice([0, 0, 0, 30.]),
            "sgp": rng.random() < .15,
            "ops": [gen_op(rng) for _ in range(rng.randint(6, 16))]}


def num(rng):
    return float("%.3g" % rng.uniform(.5, 4))


def gen_op(rng):
    "An operation"
    k = rng.choice(["session"]*2+["move"]*6+["set", "grid", "grid", "plot"])
    op = {"k": k, "i": rng.randrange(100), "j": rng.randrange(100)}
    if rng.random() < .3 and k != "set":
        op["faults"] = {str(rng.choice([0, 0, 0, 1, 2])): rng.choice(SFAULTS)}
    if k == "session":
        op["ranges"] = [[rng.randrange(100), num(rng), num(rng)]
                        for _ in range(rng.choice([0, 1, 1, 2]))]
        op["noranges"] = rng.random() < .3
        op["twice"] = rng.random() < .3
    elif k == "move":
        op["f"] = round(rng.random(), 3)
        op["boom"] = rng.random() < .15
    elif k == "set":
        op["v"] = num(rng)
    else:
        op["sweeps"] = [[rng.randrange(100), rng.random() < .4]
                        + sorted([num(rng) for _ in range(3)])
                        for _ in range(rng.choice([1, 1, 2]))]
        op["posys"] = rng.randint(1, 2)
        op["cost"] = k == "plot" and rng.random() < .4
    return op


class Run:
    "The state of a run"
    # pylint: disable=too-many-instance-attributes
    def __init__(self, trace):
        import numpy as np
        import gpkit
        self.gp, self.np, self.trace = gpkit, np, trace
        self.V, self.vars, self.ref = trace["vars"], {}, {}
        prefix = {}
        for s, names in enumerate(trace["scopes"]):
            with contextlib.ExitStack() as envs:
                for n in names:
                    envs.enter_context(gpkit.NamedVariables(n))
                for i, v in enumerate(self.V):
                    if v["s"] == s:
                        prefix[i] = ".".join(names + [v["n"]])
                        args = [v["n"], v["v"] if v["d"] else v["v"][0]]
                        args += [v["u"]]*bool(v["u"])
                        self.vars[i] = gpkit.VectorVariable(2, *args) \
                            if v["d"] else gpkit.Variable(*args)
        self.prefix = prefix
        self.x, self.z = gpkit.Variable("x"), gpkit.Variable("z")
        m = 1
        for i, v in enumerate(self.V):
            self.ref[i] = list(v["v"]) if v["d"] else v["v"][0]
            one = gpkit.units(v["u"]) if v["u"] else 1
            g = self.vars[i].prod()/one**2 if v["d"] else self.vars[i]/one
            m = m*g**v["p"]
        cons = [self.x >= m, self.z >= self.x**.5]
        if trace["cap"]:
            cons += [trace["cap"] >= self.x]
        if trace["sgp"]:
            y = gpkit.Variable("y")
            with gpkit.SignomialsEnabled():
                cons += [y + self.x >= 3*m, y <= 2*m]
        self.m = gpkit.Model(self.z, cons)
        self.sliders, self.chosen, self.got = None, [], []
        self.boom = False

    def x_at(self, ref):
        "The optimal x, None if there's none"
        x = 1.
        for i, v in enumerate(self.V):
            val = ref[i][0]*ref[i][1] if v["d"] else ref[i]
            x *= val**v["p"]
        if self.trace["cap"] and x > self.trace["cap"]*.999:
            return None
        return x

    def display(self, sol):
        "What the sliders' user wants displayed"
        if self.boom:
            self.boom = False
            from dst.world import W
            W.fired("display:boom")
            raise RuntimeError("sim: display failed")
        self.got.append(sol)


def perform(run, op):
    "One operation; -> outcome"
    # pylint: disable=too-many-return-statements
    from dst import sess
    from dst.world import W
    k, run.got = op["k"], []
    scal = [i for i, v in enumerate(run.V) if not v["d"]]
    if not scal:
        return None
    if k == "session":
        return session(run, op, scal)
    if k == "move":
        if not run.sliders:
            return None
        n = op["i"] % len(run.sliders)
        sl = run.sliders[n]
        run.boom = bool(op.get("boom"))
        before = sl.value
        got = sess.call(setattr, sl, "value",
                        sl.min + op["f"]*(sl.max-sl.min))
        run.boom = False
        if got[0] != "ok" and not op.get("faults"):
            W.violate("refused", "moving %s: %s" % (sl.description,
                                                    sess.short(got[1])))
            return None
        if sl.value == before:
            return None
        for i, s in zip(run.chosen, run.sliders):
            run.ref[i] = s.value
        W.probe("moved")
        displayed(run, "moving %s" % run.prefix[run.chosen[n]], op)
        return got[0]
    if k == "set":
        i = scal[op["i"] % len(scal)]
        run.m.substitutions[run.vars[i]] = op["v"]
        run.ref[i] = op["v"]
        return "ok"
    return draw(run, op, scal)


def displayed(run, what, op):
    "Judges what was displayed"
    from dst.world import W
    x = run.x_at(run.ref)
    if x is None:
        W.fired("infeasible")
    if op.get("faults") or op.get("boom"):
        return
    if x is None or not 1e-6 < x < 1e6:
        return
    if len(run.got) != 1:
        W.violate("not-displayed", "%s displayed %i solutions" % (
            what, len(run.got)))
        return
    sol = run.got[0]
    W.check(abs(sol(run.x)-x) < 2e-3*x, "wrong-display",
            "%s displayed x = %s, should be %s" % (what, sol(run.x), x))
    for i, g in run.vars.items():
        W.check(run.np.allclose(sol["constants"][g], run.ref[i], rtol=1e-6),
                "wrong-display", "%s displayed %s = %s, should be %s" % (
                    what, run.prefix[i], sol["constants"][g], run.ref[i]))


def session(run, op, scal):
    "Makes sliders"
    from dst import sess
    from dst.world import W
    from gpkit.interactive.widgets import modelinteract
    ranges, want = {}, {}
    for n, lo, hi in op["ranges"]:
        i = scal[n % len(scal)]
        lo, hi = min(lo, hi), max(lo, hi)+.5
        ranges[run.prefix[i]] = (lo, hi)
        if n > 60:
            ranges[run.prefix[i]] = (lo, .125, hi)
        for j in scal:
            if run.prefix[j] == run.prefix[i] or \
                    run.V[j]["n"] == run.prefix[i]:
                want[j] = ranges[run.prefix[i]]
    names = {}
    for i in run.vars:
        for t in {run.prefix[i], run.V[i]["n"]}:
            names.setdefault(t, set()).add(i)
    if any(len(names[t]) > 1 for t in ranges):
        return None     # which is ambiguous
    if not ranges:
        want = {i: None for i in scal}
    elif op.get("noranges"):
        ranges = list(ranges)
        want = dict.fromkeys(want)
    given = dict(ranges) if isinstance(ranges, dict) else list(ranges)
    for _ in range(2 if op.get("twice") else 1):
        run.got = []
        got = sess.call(modelinteract, run.m, run.display, ranges or None)
        if op.get("faults") and got[0] != "ok":
            run.sliders = None
            for i, r in want.items():    # set by a slider made before, or not
                now = float(run.m.substitutions[run.vars[i]])
                if r and now == min(max(run.ref[i], r[0]), r[-1]):
                    run.ref[i] = now
            return got[0]
        if run.x_at(run.ref) is None:
            W.fired("infeasible")
        if not W.check(got[0] == "ok", "refused",
                       lambda: "sliders: %s" % sess.short(got[1])):
            return None
    if not W.check(ranges == given, "changed-arguments",
                   "the ranges given are now %s" % (ranges,)):
        return None
    W.probe("session")
    for i, r in want.items():   # sliders show values in their ranges only
        if r:
            run.ref[i] = min(max(run.ref[i], r[0]), r[-1])
    run.got = run.got[-1:]
    displayed(run, "making sliders", op)
    sliders = [c for c in got[1].children if hasattr(c, "varkey")]
    byid = {}
    for s in sliders:
        i, = [i for i, g in run.vars.items() if g.key == s.varkey]
        byid[i] = s
    if not W.check(set(byid) == set(want) and len(byid) == len(sliders),
                   "sliders", "sliders of %s, should be of %s" % (
                       sorted(byid), sorted(want))):
        return None
    if len({run.V[i]["n"] for i in byid}) < len(byid):
        W.probe("same-name")
    for i, s in byid.items():
        lo, *step, hi = want[i] or (run.ref[i]/2, run.ref[i]*2)
        W.check(not step or [s.step] == step, "sliders", "%s has steps of %s"
                % (run.prefix[i], s.step))
        if want[i]:
            W.probe("ranges")
        W.check((s.min, s.max) == (lo, hi), "sliders", "%s has the range %s, "
                "should have %s" % (run.prefix[i], (s.min, s.max), (lo, hi)))
        W.check(s.value == run.ref[i], "sliders",
                "%s shows %s, is %s" % (run.prefix[i], s.value, run.ref[i]))
    run.chosen = [i for i in sorted(byid)]
    run.sliders = [byid[i] for i in run.chosen]
    return "ok"


def draw(run, op, scal):
    "Plots a sweep"
    # pylint: disable=too-many-locals,too-many-branches
    import matplotlib.pyplot as plt
    from gpkit.interactive.plot_sweep import plot_1dsweepgrid
    from dst import sess
    from dst.world import W
    np, sweeps, ref = run.np, {}, {}
    for n, auto, a, b, c in op["sweeps"]:
        i = scal[n % len(scal)]
        if i in ref:
            continue
        c += 1.
        auto = auto and not run.trace["sgp"]
        ref[i] = (auto, [a, c] if auto else [[a, b+.5, c+.5], [b+.5, a, c+.5], [c+.5, b, a-.2]][n % 3])
        sweeps[run.vars[i]] = tuple(ref[i][1]) if auto else ref[i][1]
        if op["k"] == "plot":
            break
    for i, (auto, vals) in list(ref.items()):
        xs = [run.x_at(dict(run.ref, **{})) if v is None else
              run.x_at({**run.ref, i: v}) for v in vals+[None]]
        if not all(x and 1e-5 < x < 1e5 for x in xs):
            return None
    posys = [run.x, "cost" if op.get("cost") else run.z][:op["posys"]]
    given = list(posys)
    plt.close("all")
    if op["k"] == "grid":
        got = sess.call(plot_1dsweepgrid, run.m, sweeps, posys, verbosity=0)
    else:
        (g, vals), = sweeps.items()
        auto = isinstance(vals, tuple)
        fn = run.m.autosweep if auto else run.m.sweep
        got = sess.call(lambda: fn({g: vals}, verbosity=0).plot(posys))
    W.state(op["k"], len(sweeps), tuple(sorted(
        (op.get("faults") or {}).values())), got[0])
    W.check(len(posys) == len(given) and all(
        a is b for a, b in zip(posys, given)), "changed-arguments",
            "the expressions to plot are now %s" % posys)
    if op.get("faults"):
        plt.close("all")
        return got[0]
    if not W.check(got[0] == "ok", "refused",
                   lambda: "plotting: %s" % sess.short(got[1])):
        return None
    _, axes = got[1]
    axes = np.array(axes, dtype=object).reshape(len(posys), len(sweeps))
    for s, (i, (auto, vals)) in enumerate(ref.items()):
        for p, power in enumerate([1, .5][:len(posys)]):
            if auto and power == .5:
                continue     # costs are drawn as an area
            lines = axes[p, s].get_lines()
            W.probe("drawn-auto" if auto else "drawn")
            if op["k"] == "grid":
                W.probe("point-drawn")
                lines, (point,) = lines[:-1], lines[-1:]
                judge(run, i, [float(point.get_xdata()[0])],
                      [point.get_ydata()[0]], [run.ref[i]], power, "point")
            if not W.check(len(lines) == 1, "drawing", "%i lines drawn"
                           % len(lines)):
                return None
            xs, ys = lines[0].get_xdata(), lines[0].get_ydata()
            judge(run, i, xs, ys,
                  np.linspace(vals[0], vals[1], 100) if auto else vals, power,
                  "line")
    plt.close("all")
    return "ok"


def judge(run, i, xs, ys, vals, power, what):
    "Judges a line drawn"
    from dst.world import W
    xs = [float(getattr(x, "magnitude", x)) for x in xs]
    ys = [float(getattr(y, "magnitude", y)) for y in ys]
    if not W.check(len(xs) == len(vals) == len(ys) and run.np.allclose(
            xs, vals, rtol=1e-6), "drawing", "the %s of %s is drawn at %s, "
            "should be at %s" % (what, run.prefix[i], xs[:4], vals[:4])):
        return
    if run.V[i]["u"]:
        W.probe("units")
    for x, y in zip(xs, ys):
        want = run.x_at({**run.ref, i: x})
        if want is None or math.isnan(y) or abs(y-want**power) > 2e-2*y:
            W.violate("drawing", "the %s of %s is at %s for %s, should be %s"
                      % (what, run.prefix[i], y, x, want and want**power))
            return


def execute(trace):
    "A session"
    from dst import sess
    from dst.world import W
    if not trace["vars"]:
        return
    import logging
    import os
    if not os.environ.get("LOGIT"):
        logging.disable(logging.CRITICAL)   # ipywidgets' of callbacks' exceptions
    run = Run(trace)
    failed = False
    for n, op in enumerate(trace["ops"]):
        faults0 = sum(W.faults.values())
        W.begin_op(op.get("faults"))
        with sess.quiet_stdout():
            got = sess.call(perform, run, op)
        W.end_op()
        if got[0] != "ok":
            raise got[1]
        if failed and got[1] == "ok":
            W.probe("after-fault")
        failed = failed or sum(W.faults.values()) > faults0
        W.state(op["k"], got[1], tuple((op.get("faults") or {}).values()))
        W.ev("%i:%s" % (n, op["k"]), got[1], len(run.got))
        for i, g in run.vars.items():
            if W.violations:
                return
            have = sess.call(lambda g=g: run.m.substitutions[g])
            W.check(have[0] == "ok" and run.np.allclose(
                have[1], run.ref[i], rtol=1e-6), "constants",
                    lambda: "after %i:%s (%s), %s is %s, should be %s" % (
                        n, op["k"], op.get("faults"), run.prefix[i], have[1],  # pylint: disable=cell-var-from-loop
                        run.ref[i]))  # pylint: disable=cell-var-from-loop
        W.check(set(run.m.substitutions) == {
            g.key for g in run.vars.values()}, "constants",
                "after %i:%s, constants are %s" % (
                    n, op["k"], sorted(map(str, run.m.substitutions))))
        if W.violations:
            return


def nontrivial(trace, res):
    "Something was shown after a failure"
    return res.get("probes", {}).get("after-fault", 0) >= 1
