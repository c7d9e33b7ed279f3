"""C08: a saved solution is the same solution in every later process."""
from dst import gen, persist, zygote

LEVEL = "exploration"
TECHNIQUE = ("simulated lives of a solution across processes: one process "
             "solves and saves, others with different hash seeds and different "
             "pasts load, query, re-solve with and re-save it, and everything "
             "it reports is compared with what it reported when saved")
TIERS = {"quick": {"runs": 2000, "budget": 45, "minruns": 120, "shrink": 40},
         "thorough": {"runs": 60000, "budget": 900, "minruns": 200,
                      "shrink": 120}}
RULE = ("each run solves 1-2 random GPs or SPs in 1-3 ways, saves each result "
        "in 1-4 ways, and has 1-3 later processes (hash seeds 0-2) load the "
        "files, compare and save again; non-trivial: a file crossed to a "
        "process with another hash seed and was compared there")
REAL = ["gpkit (all of it)", "cvxopt solver", "pickle and gzip",
        "one interpreter per hash seed"]
STUB = ["clock", "stdout", "disk (files opened through a simulated layer; no "
        "faults here, short reads and writes aside)"]
STATE_MEASURE = "(kind of solution, ways of saving, same or other hash seed)"
FAULTS = ["process-restart", "disk:short", "disk:shortread"]
PROBES = ["compared", "other-hash-seed", "sweep", "autosweep", "lineage",
          "later-generation", "solved-with-loaded", "linked", "signomial",
          "warnings", "report-files"]
ASSUMPTIONS = ["pickled numbers are exact, so loaded numbers are compared bit "
               "for bit; the rows of a table are compared in no order"]


def generate(rng, tier):
    "A run's trace"
    models = []
    for k in range(rng.choice([1, 1, 1, 2])):
        sp = rng.random() < .2
        spec = gen.gen_spec(rng, "mn"[k], sp=sp, units=rng.random() < .5,
                            part=rng.random() < .5,
                            linked=not sp and rng.random() < .3)
        if rng.random() < .5:
            persist.decorate(rng, spec)
        lin = rng.choice([[], [], ["Wing"], ["Plane", "Wing"]])
        models.append({"spec": spec, "sp": sp, "lin": lin,
                       "warm": rng.choice([0, 0, 0, 1])})
    solves = []
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(len(models))
        op = persist.gen_solve(rng, models[k]["spec"], models[k]["sp"])
        op["m"] = k
        op["saves"] = []
        for _ in range(rng.randint(1, 3)):
            op["saves"].append({
                "how": rng.choice(persist.FORMATS if rng.random() < .75
                                  else persist.REPORTS),
                "proto": rng.choice([None, None, None, 2, 4, 5]),
                "disk": rng.choice([None, None, None, {"kind": "short",
                                    "at": rng.randrange(1, 5000)}])})
        if op["op"] == "autosweep":
            op["saves"] = [{"how": "bst", "proto": None, "disk": None}] \
                + [s for s in op["saves"] if s["how"] not in persist.REPORTS]
        solves.append(op)
    later = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        later.append({"hs": rng.choice([0, 1, 1, 2, 2]),
                      "order": rng.random(), "build": rng.choice([0, 0, 1, 2]),
                      "shuffle": rng.random() < .3,
                      "resave": rng.choice(persist.FORMATS),
                      "disk": rng.choice([None, None, {
                          "kind": "shortread", "at": rng.randrange(1, 900)}])})
    return {"models": models, "ops": solves, "later": later, "clock": None}


def nontrivial(trace, res):
    "A file was compared under another hash seed"
    return bool(res.get("probes", {}).get("other-hash-seed"))


def drive(trace, fork_run, run_child):
    "First the saving process, then those which load"
    return zygote.drive("C08", trace, [0]+[p["hs"] for p in trace["later"]],
                        fork_run, run_child)


def build(model, shuffle=False):
    "A model, inside its lineage"
    import contextlib
    from gpkit import NamedVariables
    with contextlib.ExitStack() as stack:
        for name in model["lin"]:
            stack.enter_context(NamedVariables(name))
        spec = model["spec"]
        if shuffle:
            spec = dict(spec, cons=list(reversed(spec["cons"])))
        return gen.build(spec)


def execute(trace):
    "One phase of the trace"
    import os
    from dst import simfs
    os.chdir(trace["dir"])
    simfs.install(trace["dir"])
    if trace["phase"] == 0:
        first(trace)
    else:
        later(trace, trace["phase"]-1)


def first(trace):
    "The process that solves and saves"
    import json
    from dst import sess
    from dst.world import W
    from dst.simfs import FS, REAL_OPEN
    Bs = []
    for mod in trace["models"]:
        for _ in range(mod["warm"]):
            build(mod)
        Bs.append(build(mod))
    files = []
    for k, op in enumerate(trace["ops"]):
        B = Bs[op["m"]]
        with sess.quiet_stdout():
            got = sess.call(persist.solved, B, op, B.spec, None)
        W.ev("solve", op["op"], got[0])
        if got[0] != "ok" or got[1] is None:
            W.probe("unsolved")
            continue
        sol = got[1]
        names = [v["n"] for v in B.spec["vars"] if v["used"] and not v["d"]]
        for j, s in enumerate(op["saves"]):
            how = s["how"]
            if op["op"] == "program" and how not in ("pickle",):
                sol_ = B.m.solution if B.m.solution is not None else sol
            elif op["op"] == "autosweep" and how != "bst":
                sol_ = sol.solarray
            else:
                sol_ = sol
            path = "f%i_%i.%s" % (k, j, how.strip("-"))
            before = seen(sol_, how, op, names)
            FS.begin(s["disk"] and dict(s["disk"]))
            with sess.quiet_stdout():
                out = sess.call(persist.save, sol_, how, path, s["proto"])
            FS.end()
            W.ev("save", how, out[0])
            if out[0] != "ok":
                W.violate("save-fails", "saving the result of a %s as %s: %s"
                          % (op["op"], how, sess.short(out[1])))
                return
            after = seen(sol_, how, op, names)
            d = persist.difference(before, after)
            if not W.check(d is None, "saving-changes-solution",
                           "saving the result of a %s as %s changed it: %s"
                           % (op["op"], how, d)):
                return
            if how in persist.REPORTS:
                W.probe("report-files")
                d = persist.judge_report(sol_, how, path)
                if not W.check(d is None, "wrong-report:"+how, "%s of a %s: %s"
                               % (how, op["op"], d)):
                    return
                continue
            files.append({"path": path, "how": how, "op": k, "view": after,
                          "gen": 0, "names": names})
            if trace["models"][op["m"]]["lin"]:
                W.probe("lineage")
            if "sweep" in op["op"]:
                W.probe("autosweep" if how == "bst" else "sweep")
            if "warnings" in after:
                W.probe("warnings")
            if any(v["k"] == "linked" for v in B.spec["vars"]):
                W.probe("linked")
            if trace["models"][op["m"]]["sp"]:
                W.probe("signomial")
    with REAL_OPEN("index.json", "w") as f:
        json.dump(files, f)


def seen(sol, how, op, names):
    "What the solution reports now"
    if how == "bst":
        a, b = op["vals"][0], op["vals"][-1]
        return persist.sweep_view(sol, [a, a+.3*(b-a), a+.5*(b-a), b], names)
    return persist.view(sol, cons=not how.endswith("-"))


def later(trace, k):
    "A process that loads"
    import json
    import random
    from dst import sess
    from dst.world import W
    from dst.simfs import FS, REAL_OPEN
    with REAL_OPEN("index.json") as f:
        files = json.load(f)
    p = trace["later"][k]
    W.fired("process-restart")
    Bs = []
    if p["build"]:
        for _ in range(p["build"]):
            Bs = [build(mod, p["shuffle"]) for mod in trace["models"]]
    order = list(range(len(files)))
    random.Random(p["order"]).shuffle(order)
    new = []
    for n in order:
        rec = files[n]
        op = trace["ops"][rec["op"]]
        FS.begin(p["disk"] and dict(p["disk"]))
        out = sess.call(persist.load, rec["how"], rec["path"])
        FS.end()
        W.ev("load", rec["how"], out[0])
        if out[0] != "ok":
            W.violate("load-fails", "loading a %s saved as %s: %s"
                      % (op["op"], rec["how"], sess.short(out[1])))
            return
        sol = out[1]
        with sess.quiet_stdout():
            got = sess.call(seen, sol, rec["how"], op, rec["names"])
        if got[0] != "ok":
            W.violate("loaded-unusable", "a loaded %s (%s) cannot be read: %s"
                      % (op["op"], rec["how"], sess.short(got[1])))
            return
        got = got[1]
        want = dict(rec["view"])
        if rec["how"].endswith("-"):
            want.pop("cons", None)
            want["table"] = got["table"] = None
        d = persist.difference(want, got)
        if not W.check(d is None, "loaded-differs", "a %s saved as %s and "
                       "loaded with hash seed %s (saved with %s): %s"
                       % (op["op"], rec["how"], p["hs"],
                          0 if not k else trace["later"][k-1]["hs"], d)):
            return
        W.probe("compared")
        prev = [0]+[q["hs"] for q in trace["later"][:k]]
        if p["hs"] not in prev:
            W.probe("other-hash-seed")
        if rec["gen"]:
            W.probe("later-generation")
        W.state(op["op"], rec["how"], p["hs"] in prev, rec["gen"])
        mod = trace["models"][op["m"]]
        if Bs and rec["how"] != "bst":
            if not use(trace, p, rec, op, mod, Bs[op["m"]], sol):
                return
        how = p["resave"] if rec["how"] != "bst" else "bst"
        if rec["how"].endswith("-") and not how.endswith("-"):
            how = rec["how"]
        if op["op"] == "program":
            how = rec["how"]
        path = "g%i_%i.%s" % (k, n, how.strip("-"))
        out = sess.call(persist.save, sol, how, path)
        if out[0] != "ok":
            W.violate("save-fails", "saving a loaded %s again as %s: %s"
                      % (op["op"], how, sess.short(out[1])))
            return
        if how != "bst":
            with sess.quiet_stdout():
                got = seen(sol, how, op, rec["names"])
        new.append({"path": path, "how": how, "op": rec["op"], "view": got,
                    "gen": rec["gen"]+1, "names": rec["names"]})
    with REAL_OPEN("index.json", "w") as f:
        json.dump(files + new, f)


def use(trace, p, rec, op, mod, B, sol):
    "This process's own variables name the loaded solution's"
    from dst import sess
    from dst.world import W
    for i, v in enumerate(mod["spec"]["vars"]):
        if not v["used"]:
            continue
        var = B.vars[i]
        if persist.vkname(var.key) not in rec["view"]["variables"]:
            return True     # another model number: another variable
        got = sess.call(lambda: sol["variables"][var.key])  # pylint: disable=cell-var-from-loop
        if got[0] != "ok":
            W.violate("loaded-unusable", "this process's %s is not found in "
                      "the solution loaded (%s, hash seed %s): %s" %
                      (v["n"], rec["how"], p["hs"], sess.short(got[1])))
            return False
        name = [k for k in rec["view"]["variables"]
                if k.startswith("(%r, " % v["n"])]
        if len(name) == 1 and persist.num(got[1]) != \
                rec["view"]["variables"][name[0]]:
            W.violate("loaded-differs", "%s is %s by this process's variable, "
                      "was %s" % (v["n"], persist.num(got[1]),
                                  rec["view"]["variables"][name[0]]))
            return False
    if op["op"] in ("solve", "program", "localsolve") and not rec["how"
            ].endswith("-"):
        # the loaded solution is where the model's own optimum is
        with sess.quiet_stdout():
            mine = sess.call(lambda: B.m.localsolve(x0=sol["variables"],
                                                    verbosity=0)
                             if mod["sp"] else B.m.solve(verbosity=0))
        if mine[0] == "ok" and mine[1] is not None:
            same = sess.call(lambda: sess.relclose(
                sess.mag(mine[1]["cost"]), sess.mag(sol["cost"]),
                1e-3 if not mod["sp"] else .05))
            W.check(same == ("ok", True), "loaded-differs", lambda:
                    "a new solve costs %r, the loaded one %r" %
                    (sess.mag(mine[1]["cost"]), sess.mag(sol["cost"])))
            if not mod["sp"]:
                own = sess.call(lambda: (mine[1].diff(sol),
                                         set(mine[1]["variables"])
                                         == set(sol["variables"])))
                W.check(own[0] == "ok", "loaded-unusable", lambda:
                        "diff with a loaded solution: %s" %
                        sess.short(own[1]))
                if own[0] == "ok":
                    W.check(own[1][1] and "which are not in" not in own[1][0],
                            "loaded-differs", lambda: "the loaded solution's "
                            "variables are not this model's:\n%s" % own[1][0])
            W.probe("solved-with-loaded")
    return not W.violations
