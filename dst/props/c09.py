"""C09: failed saves are reported, and damaged files never load as other results."""
from dst import gen, persist, zygote

LEVEL = "exploration"
TECHNIQUE = ("simulated disk with full disks, I/O errors, short and torn "
             "writes, failing opens and closes, interrupts, crashes that lose "
             "the tail of a file, and bit rot at seeded bytes, under every "
             "way of saving and loading; a shadow of each file says which "
             "solutions it may load as")
TIERS = {"quick": {"runs": 4000, "budget": 45, "minruns": 200, "shrink": 40},
         "thorough": {"runs": 100000, "budget": 900, "minruns": 200,
                      "shrink": 120}}
RULE = ("each run solves 1 random GP or SP in 1-2 ways and performs 4-10 "
        "saves, loads, diffs, acts of damage and solves under seeded faults; "
        "half of the runs end in a crash, after which another process loads "
        "what is left; non-trivial: a save that failed, or a load of a "
        "damaged file, was judged")
REAL = ["gpkit (all of it)", "cvxopt solver", "pickle and gzip"]
STUB = ["clock", "stdout", "disk (real files opened through a layer that "
        "injects the faults)"]
STATE_MEASURE = "(operation, way of saving, fault, outcome)"
FAULTS = ["disk:enospc", "disk:eio", "disk:closeerror", "disk:openerror",
          "disk:interrupt", "disk:crash", "disk:short", "disk:slow",
          "disk:readerror", "disk:shortread", "damage:truncate",
          "damage:flip", "damage:zero", "damage:garbage", "damage:cut",
          "lost-tail", "process-restart"]
PROBES = ["save-failed", "save-survived", "load-refused", "load-same",
          "solved-after-failed-save", "saved-after-failed-save",
          "after-crash", "diff-of-file", "report-failed", "half-overwritten"]
ASSUMPTIONS = ["uncompressed pickles carry no checksum, so they are only "
               "damaged by truncation; a checksum of 32 bits is taken to "
               "detect every other damage"]

ERRNOS = [13, 2, 24, 30, 21]


def wfault(rng):
    "What befalls a save"
    kind = rng.choice(["enospc", "enospc", "eio", "closeerror", "openerror",
                       "interrupt", "short", "slow"])
    return {"kind": kind, "at": rng.choice([0., 1., rng.random(),
                                            rng.random()]),
            "errno": rng.choice(ERRNOS)}


def rfault(rng):
    "What befalls a load"
    return {"kind": rng.choice(["readerror", "readerror", "shortread",
                                "openerror"]),
            "at": rng.random(), "errno": rng.choice(ERRNOS), "read": 1}


def generate(rng, tier):
    "A run's trace"
    sp = rng.random() < .15
    spec = gen.gen_spec(rng, "m", sp=sp, units=rng.random() < .4,
                        part=rng.random() < .5,
                        linked=not sp and rng.random() < .2)
    solves = [persist.gen_solve(rng, spec, sp)
              for _ in range(rng.choice([1, 2]))]
    out = []
    paths = {}
    for _ in range(rng.randint(4, 10)):
        kind = rng.choice(["save", "save", "save", "save", "load", "load",
                           "damage", "damage", "diff", "solve"])
        if kind in ("load", "damage", "diff") and not paths:
            kind = "save"
        if kind == "save":
            k = rng.randrange(len(solves))
            how = rng.choice(persist.FORMATS if rng.random() < .8
                             else persist.REPORTS)
            if solves[k]["op"] == "autosweep" and rng.random() < .5:
                how = "bst"
            path = rng.choice(["a", "b"])
            # a path keeps its extension, and so its format
            path += ".pgz" if how[:3] == "pgz" else ".bst" if how == "bst" \
                else "." + how if how in persist.REPORTS else ".pkl"
            out.append({"op": "save", "sol": k, "how": how, "path": path,
                        "proto": rng.choice([None, None, 2, 5]),
                        "disk": wfault(rng) if rng.random() < .6 else None})
            if how not in persist.REPORTS:
                paths[path] = how
        elif kind == "load":
            out.append({"op": "load", "path": rng.choice(sorted(paths)),
                        "disk": rfault(rng) if rng.random() < .4 else None})
        elif kind == "diff":
            out.append({"op": "diff", "path": rng.choice(sorted(paths)),
                        "sol": 0,
                        "disk": rfault(rng) if rng.random() < .4 else None})
        elif kind == "damage":
            path = rng.choice(sorted(paths))
            out.append({"op": "damage", "path": path,
                        "kind": "truncate" if path[-3:] != "pgz" else
                        rng.choice(["truncate", "flip", "flip", "flip",
                                    "zero", "garbage", "cut"]),
                        "at": rng.random(), "n": rng.choice([1, 1, 8, 512]),
                        "bit": rng.randrange(8)})
            out.append({"op": rng.choice(["load", "load", "diff"]),
                        "path": path, "disk": None, "sol": 0})
        else:
            out.append({"op": "solve"})
    later = []
    if rng.random() < .5:
        how = rng.choice(persist.FORMATS)
        out.append({"op": "save", "sol": 0, "how": how, "proto": None,
                    "path": rng.choice("ab") + (
                        ".pgz" if how[:3] == "pgz" else ".pkl"),
                    "disk": {"kind": "crash", "at": rng.choice(
                        [0., rng.random(), rng.random(), 1.])}})
        later = [{"hs": rng.choice([0, 1, 2]),
                  "tail": rng.choice([None, "cut", "zero"]),
                  "by": rng.random()}]
    return {"spec": spec, "sp": sp, "solves": solves, "ops": out,
            "later": later, "clock": None}


def nontrivial(trace, res):
    "Something failed and was judged"
    p = res.get("probes", {})
    return bool(p.get("save-failed") or p.get("load-refused"))


def drive(trace, fork_run, run_child):
    "First the process that solves, then one which finds what it left"
    def between(k, top):
        "unwritten pages are lost"
        import os
        p = trace["later"][k]["tail"] if k < len(trace["later"]) else None
        crash = [op for op in trace["ops"] if op["op"] == "save" and op["disk"]
                 and op["disk"]["kind"] == "crash"]
        if not p or not crash:
            return
        path = os.path.join(top, crash[-1]["path"])
        if not os.path.exists(path):
            return
        with open(path, "rb") as f:
            data = f.read()
        keep = int(len(data)*trace["later"][k]["by"])
        with open(path, "wb") as f:
            f.write(data[:keep] + (b"\0"*(len(data)-keep) if p == "zero"
                                   else b""))
    return zygote.drive("C09", trace, [0]+[p["hs"] for p in trace["later"]],
                        fork_run, run_child, between)


def execute(trace):
    "One phase of the trace"
    import os
    from dst import simfs
    os.chdir(trace["dir"])
    simfs.install(trace["dir"])
    if trace["phase"] == 0:
        first(trace)
    else:
        after(trace)


def seen(sol, how, names):
    "What the solution reports"
    if how == "bst":
        a, b = sol.bounds
        return persist.sweep_view(sol, [a, a+.5*(b-a), b], names)
    v = persist.view(sol, cons=not how.endswith("-"))
    if how.endswith("-"):
        v.pop("table", None)
    return v


def may_be(sol, allowed, names):
    "Is that one of the solutions the file may hold?"
    diffs = []
    for how, want in allowed:
        d = persist.difference(want, seen(sol, how, names))
        if d is None:
            return None
        diffs.append(d)
    return " and ".join(diffs[:2]) or "it is no solution ever saved there"


def first(trace):
    "The process that solves, saves, and may crash"
    import json
    from dst import sess
    from dst.world import W, SimCrash
    from dst.simfs import FS, REAL_OPEN, raw_bytes, put_bytes
    B = gen.build(trace["spec"])
    names = [v["n"] for v in B.spec["vars"] if v["used"] and not v["d"]]
    sols = []
    for op in trace["solves"]:
        with sess.quiet_stdout():
            got = sess.call(persist.solved, B, op, B.spec, None)
        sols.append(got[1] if got[0] == "ok" else None)
    if any(s is None for s in sols):
        W.probe("unsolved")
        return
    base = None
    if trace["solves"][0]["op"] == "solve":
        base = sess.mag(sols[0]["cost"])
    files = {}     # path -> what it may load as
    failed = False

    def obj(k, how):
        s = sols[k]
        if trace["solves"][k]["op"] == "autosweep" and how != "bst":
            return s.solarray
        if trace["solves"][k]["op"] == "program" and how != "pickle":
            return B.m.solution if hasattr(B.m.solution, "save") else None
        return s

    for op in trace["ops"]:
        kind = op["op"]
        W.ev("op", kind)
        if kind == "solve":
            if base is None or trace["sp"]:
                continue
            with sess.quiet_stdout():
                got = sess.call(B.m.solve, verbosity=0)
            ok = got[0] == "ok" and got[1] is not None and \
                sess.relclose(sess.mag(got[1]["cost"]), base, 1e-5)
            if not W.check(ok, "model-broken", lambda: "a solve after%s saves:"
                           " %s" % (" failed" if failed else "",
                                    sess.short(got[1]) if got[0] != "ok"
                                    else got[1]["cost"])):
                return
            if failed:
                W.probe("solved-after-failed-save")
            continue
        if kind == "damage":
            if op["path"] not in files or not _exists(op["path"]):
                continue
            data = raw_bytes(op["path"])
            hurt = damage(data, op)
            if hurt != data:
                put_bytes(op["path"], hurt)
                W.fired("damage:"+op["kind"])
            continue
        if kind in ("load", "diff"):
            if op["path"] not in files:
                continue
            how, views = files[op["path"]]
            if not load(op, how, views, sols, names):
                return
            continue
        # a save
        sol = obj(op["sol"], op["how"])
        if sol is None:
            continue
        sop = trace["solves"][op["sol"]]
        how, path = op["how"], op["path"]
        before = seen(sol, how, names)
        plan = op["disk"] and dict(op["disk"])
        if plan:
            FS.begin()
            with sess.quiet_stdout():
                out = sess.call(persist.save, sol, how, "size.tmp",
                                op["proto"])
            size = FS.written
            FS.end()
            if out[0] != "ok":
                W.violate("save-fails", "saving a %s as %s: %s" %
                          (sop["op"], how, sess.short(out[1])))
                return
            plan["at"] = int(plan["at"]*size)
            if plan["kind"] in ("enospc", "eio", "interrupt", "crash"):
                plan["at"] = min(plan["at"], size-1)
        FS.begin(plan)
        died = False
        with sess.quiet_stdout():
            try:
                out = sess.call(persist.save, sol, how, path, op["proto"])
            except SimCrash:
                died = True
        fired = FS.end()
        old = files.get(path, (None, []))
        if died or FS.crashed:
            W.probe("after-crash")
            if how not in persist.REPORTS:
                files[path] = (how, old[1] + [[how, before]])
            break
        W.ev("save", how, plan and plan["kind"], fired, out[0])
        W.state("save", how, plan and plan["kind"], fired, out[0])
        k = plan["kind"] if plan else None
        if fired and k not in ("short", "slow"):
            if out[0] == "ok":
                W.violate("failure-unreported", "%s while saving a %s as %s "
                          "was not reported" % (k, sop["op"], how))
                return
            want = {"interrupt": KeyboardInterrupt}.get(k, OSError)
            from dst import ops
            if not W.check(any(isinstance(e, want) for e in
                               ops.chain(out[1])), "wrong-error",
                           lambda: "%s while saving as %s raised %s" %
                           (k, how, sess.short(out[1]))):
                return
            failed = True
            W.probe("report-failed" if how in persist.REPORTS
                    else "save-failed")
            if how not in persist.REPORTS:
                if old[1]:
                    W.probe("half-overwritten")
                files[path] = (how, old[1] + [[how, before]])
        else:
            if out[0] != "ok":
                W.violate("save-fails", "saving a %s as %s%s: %s" %
                          (sop["op"], how, " (after a failed save)" if failed
                           else "", sess.short(out[1])))
                return
            if failed:
                W.probe("saved-after-failed-save")
            if fired:
                W.probe("save-survived")
            if how in persist.REPORTS:
                d = persist.judge_report(sol, how, path)
                if not W.check(d is None, "wrong-report:"+how,
                               "after %s: %s" % (k, d)):
                    return
            else:
                files[path] = (how, [[how, before]])
                if not load({"op": "load", "path": path, "disk": None},
                            how, [[how, before]], sols, names, must=True):
                    return
        d = persist.difference(before, seen(sol, how, names))
        if not W.check(d is None, "saving-changes-solution", "a %s save as %s"
                       " changed the solution: %s" % (
                           "failed" if out[0] != "ok" else "good", how, d)):
            return
    with REAL_OPEN("index.json", "w") as f:
        json.dump({"files": files, "names": names}, f)


def _exists(path):
    import os
    return os.path.exists(path)


def damage(data, op):
    "Bit rot and worse"
    if not data:
        return data
    i = min(int(op["at"]*len(data)), len(data)-1)
    n = op["n"]
    k = op["kind"]
    if k == "truncate":
        return data[:i]
    if k == "flip":
        return data[:i] + bytes([data[i] ^ (1 << op["bit"])]) + data[i+1:]
    if k == "zero":
        return data[:i] + b"\0"*len(data[i:i+n]) + data[i+n:]
    if k == "garbage":
        junk = bytes((37*(i+j)*(op["bit"]+3) + 11) % 256 for j in range(n))
        return data[:i] + junk[:len(data[i:i+n])] + data[i+n:]
    return data[:i] + data[i+n:]     # a block is missing


def load(op, how, views, sols, names, must=False):
    "Loads a file that may be damaged, under faults; judges what comes out"
    from dst import sess
    from dst.world import W
    from dst.simfs import FS, raw_bytes
    import os
    plan = op["disk"] and dict(op["disk"])
    size = len(raw_bytes(op["path"])) if os.path.exists(op["path"]) else 0
    if plan:
        plan["at"] = int(plan["at"]*size)
        if plan["kind"] == "shortread":
            plan["at"] = 1 + plan["at"] % 900
    if op["op"] == "diff":
        if how == "bst" or not hasattr(sols[0], "diff"):
            return True
        W.probe("diff-of-file")
    FS.begin(plan)
    with sess.quiet_stdout():
        if op["op"] == "diff":
            got = sess.call(sols[0].diff, op["path"])
        else:
            got = sess.call(persist.load, how, op["path"])
    fired = FS.end()
    W.ev("load", how, plan and plan["kind"], fired, got[0])
    W.state(op["op"], how, plan and plan["kind"], fired, got[0])
    if got[0] == "exc":
        if not W.check(isinstance(got[1], Exception), "load-dies",
                       lambda: sess.short(got[1])):
            return False
        W.probe("load-refused")
        return W.check(not must, "load-fails", lambda: "a file saved as %s "
                       "without an error does not load: %s" %
                       (how, sess.short(got[1])))
    if fired and plan["kind"] in ("openerror",):
        W.violate("failure-unreported", "a load that could not open its file "
                  "returned something")
        return False
    if op["op"] == "diff":
        W.check("Solution Diff" in got[1], "diff-says-nothing", repr(got[1]))
        return not W.violations
    with sess.quiet_stdout():
        d = sess.call(may_be, got[1], views, names)
    if d[0] != "ok":
        W.violate("loads-as-another", "a file saved as %s loads as something "
                  "that is no solution: %s" % (how, sess.short(d[1])))
        return False
    d = d[1]
    W.probe("load-same")
    return W.check(d is None, "loads-as-another", "a file last saved as %s "
                   "loads, but %s" % (how, d))


def after(trace):
    "The process that finds the files"
    import json
    from dst.world import W
    from dst.simfs import REAL_OPEN
    if not _exists("index.json"):
        return      # nothing could be solved, so nothing was saved
    with REAL_OPEN("index.json") as f:
        idx = json.load(f)
    p = trace["later"][trace["phase"]-1]
    W.fired("process-restart")
    if p["tail"]:
        W.fired("lost-tail")
    for path, (how, views) in sorted(idx["files"].items()):
        if not _exists(path):
            continue
        if not load({"op": "load", "path": path, "disk": None}, how, views,
                    [], idx["names"]):
            return
