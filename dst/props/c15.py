"""C15: solutions stand alone, and reports show what they hold."""
import re

from dst import gen, persist, report

LEVEL = "exploration"
TECHNIQUE = ("simulated sessions in which several models are solved, swept, "
             "debugged, edited, made to fail and reported on in a seeded "
             "order; every earlier solution is frozen exactly when returned "
             "and thawed after every step, and every report's text is read "
             "back against the numbers and kept")
TIERS = {"quick": {"runs": 2500, "budget": 45, "minruns": 150, "shrink": 40},
         "thorough": {"runs": 60000, "budget": 900, "minruns": 200,
                      "shrink": 120}}
RULE = ("each run builds 1-3 random GPs or SPs, some joined, with variables of "
        "equal names, and performs 5-14 solves, re-substitutions, failures, "
        "edits and reports; non-trivial: an earlier solution's reports were "
        "compared after a later solve")
REAL = ["gpkit (all of it)", "cvxopt solver"]
STUB = ["clock", "stdout", "disk (files opened through a layer that injects "
        "the faults)", "solver faults in front of cvxopt"]
STATE_MEASURE = "(operation, report, fault, kinds of solution outstanding)"
FAULTS = ["solver:boom", "solver:unknown", "solver:valueerror",
          "solver:interrupt", "solver:memory", "disk:enospc", "disk:eio",
          "disk:openerror", "disk:interrupt", "stdout:epipe",
          "stdout:interrupt"]
PROBES = ["report-repeated", "warned-then-other", "edited", "input-edited",
          "failed-solve", "failed-report",
          "again", "table", "summary",
          "diff", "csv", "txt", "subinto", "atindex", "twins", "sweep",
          "program", "debug", "signomial", "diff-of-sweep", "missing-name",
          "alike"]
ASSUMPTIONS = ["changes a user makes in place to a solution's own arrays are "
               "that solution's; it is then no longer followed"]

TABLES = ["cost", "warnings", "sweepvariables", "model sensitivities",
          "freevariables", "constants", "sensitivities",
          "tightest constraints", "loose constraints", "top sensitivities",
          "insensitivities"]
REPORTS = ["table", "table", "table", "summary", "summary", "diff", "diff",
           "csv", "txt", "subinto", "atindex", "str", "almost", "names"]
SFAULTS = ["boom", "unknown", "valueerror", "interrupt", "memory"]


def generate(rng, tier):
    "A run's trace"
    models = []
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        sp = rng.random() < .2
        spec = gen.gen_spec(rng, "mnp"[k], sp=sp, units=rng.random() < .5,
                            part=rng.random() < .5, nfree=rng.choice([2, 3]),
                            linked=not sp and rng.random() < .25)
        V, cons = spec["vars"], spec["cons"]
        if rng.random() < .5:
            persist.decorate(rng, spec)
        if rng.random() < .5:    # the same names in every model
            for v in V:
                v["n"] = v["n"].split("_", 1)[-1]
        ups = [f for c in cons if c["o"] == ">=" and len(c["l"]) == 1
               for f in c["l"][0]["f"][:1] if V[f[0]]["k"] == "free"]
        consts = [i for i, v in enumerate(V) if v["k"] == "const"
                  and v["used"] and not v["d"]]
        for kind in rng.sample(["loose", "tight"], rng.choice([0, 1, 1, 2])):
            if not ups:
                continue
            f = rng.choice(ups)
            right = {"c": gen.rnd(rng, .05, 5), "f": []}
            if consts and rng.random() < .7:
                i = rng.choice(consts)
                right["f"] = [[i, None, 1, V[i]["u"]]]
            cons.append({"o": ">=", kind: 1, "r": [right],
                         "l": [{"c": 1., "f": [[f[0], f[1], 1, f[3]]]}]})
        models.append({"spec": spec, "sp": sp,
                       "lin": rng.choice([[], [], ["Wing"], ["Plane", "Wing"]]),
                       "twin": int(not sp and rng.random() < .25)})
    ops, nsol = [], 0
    for _ in range(rng.randint(5, 14 if tier == "quick" else 24)):
        kind = rng.choice(["solve", "solve", "solve", "report", "report",
                           "report", "report", "set", "set", "fail", "edit",
                           "again"])
        if not nsol and kind in ("report", "edit"):
            kind = "solve"
        k = rng.randrange(len(models))
        mod = models[k]
        V = mod["spec"]["vars"]
        if kind in ("solve", "fail", "again"):
            op = persist.gen_solve(rng, mod["spec"], mod["sp"])
            if mod["twin"] or op["op"] == "autosweep":
                op = {"op": "solve"} if rng.random() < .6 or \
                    op["op"] == "autosweep" else op
            if kind == "again" and op["op"] == "debug":
                op = {"op": "localsolve" if mod["sp"] else "solve"}
            op.update(do=kind, m=k, v=rng.choice([0, 0, 0, 1, 2]))
            if kind == "fail":
                if rng.random() < .75:
                    op["faults"] = {str(rng.choice([0, 0, 1, 2])):
                                    rng.choice(SFAULTS)}
                else:
                    op["v"] = 2
                    op["out"] = [rng.randint(1, 4),
                                 rng.choice(["epipe", "interrupt"])]
            else:
                nsol += 1
            ops.append(op)
        elif kind == "set":
            cs = [i for i, v in enumerate(V) if v["k"] == "const"
                  and v["used"]]
            if not cs:
                continue
            i = rng.choice(cs)
            d = V[i]["d"]
            ops.append({"do": "set", "m": k, "i": i,
                        "v": [gen.rnd(rng, .4, 4) for _ in range(d)] if d
                        else gen.rnd(rng, .4, 4),
                        "mutate": rng.random() < .5})
        elif kind == "edit":
            ops.append({"do": "edit", "s": rng.randrange(nsol),
                        "part": rng.choice(["variables", "freevariables",
                                            "constants", "sens", "call",
                                            "call", "subinto"]),
                        "by": rng.choice([7., .01])})
        else:
            how = rng.choice(REPORTS)
            op = {"do": "report", "s": rng.randrange(nsol), "how": how}
            if how == "table":
                op["tables"] = rng.choice([None, rng.sample(TABLES, 4),
                                           rng.sample(TABLES, 7)])
                op["args"] = rng.choice([{}, {},
                                         {"latex": 1}, {"latex": 2},
                                         {"latex": 3}, {"latex": 9},
                                         {"sortmodelsbysenss": False},
                                         {"maxcolumns": 2},
                                         {"sortbymodel": False},
                                         {"excluded_models": ["Wing"]},
                                         {"showmodels": False}])
            if how in ("table", "summary", "diff", "csv"):
                op["show"] = rng.choice([None, None, None, "some", "absent"])
            if how == "diff":
                op["o"] = rng.randrange(nsol)
                op["args"] = rng.choice([{}, {"absdiff": True},
                                         {"senssdiff": True},
                                         {"reltol": 10.}])
            if how in ("csv", "txt") and rng.random() < .4:
                op["disk"] = {"kind": rng.choice(["enospc", "eio", "openerror",
                                                  "interrupt"]),
                              "at": rng.randrange(1, 300), "errno": 13}
            op["pick"] = rng.random()
            ops.append(op)
    return {"models": models, "ops": ops, "clock": rng.choice(
        [None, {"kind": "frozen"}])}


def nontrivial(trace, res):
    "A report was repeated after a later solve"
    return bool(res.get("probes", {}).get("report-repeated"))


class Joined:
    "Two copies of a model, in lineages of their own, solved together"
    def __init__(self, a, b):
        from gpkit import Model
        self.spec, self.vars, self.cons = a.spec, a.vars, a.cons
        self.a, self.b = a, b
        self.m = Model(a.m.cost*b.m.cost, [a.m, b.m])


def make(mod):
    "A trace's model"
    import contextlib
    from gpkit import NamedVariables
    with contextlib.ExitStack() as stack:
        for name in mod["lin"]:
            stack.enter_context(NamedVariables(name))
        if not mod["twin"]:
            return gen.build(mod["spec"])
        with NamedVariables("Left"):
            a = gen.build(mod["spec"])
        with NamedVariables("Right"):
            b = gen.build(mod["spec"])
    return Joined(a, b)


def freeze(d):
    "Every number and word of a solution, exactly"
    import numpy as np
    if isinstance(d, dict):
        return [(id(k) if not isinstance(k, str) else k, freeze(v))
                for k, v in dict.items(d)]
    if isinstance(d, np.ndarray) and d.dtype != object:
        return (d.shape, d.tobytes())
    if isinstance(d, np.ndarray):
        return (d.shape, [freeze(x) for x in d.ravel()])
    if isinstance(d, (list, tuple)):
        return [freeze(x) for x in d]
    if isinstance(d, (set, frozenset)):
        return sorted(str(x) for x in d)
    try:
        return float(getattr(d, "magnitude", d)).hex()
    except (TypeError, ValueError):
        return str(d) if isinstance(d, str) else id(d)


def where(a, b, path=""):
    "Where two frozen solutions first differ"
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                name = x[0] if isinstance(x, tuple) and len(x) == 2 and \
                    isinstance(x[0], str) else ""
                return where(x[1] if name else x, y[1] if name else y,
                             path + "/" + name if name else path)
    return path or "its tables"


class Kept:
    "A solution, and what it was when it was returned"
    def __init__(self, sol, op, mod):
        self.sol, self.op, self.mod = sol, op, mod
        self.frozen = freeze(sol)
        self.texts = {}
        self.names = sorted({vk.name for vk in dict(sol["variables"])})
        self.seq = 0

    def changed(self):
        "What changed"
        now = freeze(self.sol)
        return None if now == self.frozen else where(self.frozen, now)


def text_of(kept, op, allkept, np):
    "Performs a report; -> its text"
    sol, how = kept.sol, op["how"]
    show = None
    keys = sorted(dict(sol["variables"]), key=str)
    pick = keys[int(op.get("pick", 0)*len(keys)) % len(keys)]
    if op.get("show") == "some":
        show = [pick]
    elif op.get("show") == "absent":
        show = ["nosuchvariable", pick]
    if how == "table":
        args = dict(op["args"])
        if op["tables"]:
            args["tables"] = op["tables"]
        return sol.table(show or (), **args)
    if how == "summary":
        return sol.summary(show or ())
    if how == "diff":
        return sol.diff(allkept[op["o"]].sol, show, **op["args"])
    if how in ("csv", "txt"):
        path = "report." + how
        if how == "csv":
            sol.savecsv(show, filename=path)
        else:
            sol.savetxt(path)
        from dst.simfs import raw_bytes
        return raw_bytes(path).decode()
    if how == "subinto":
        from gpkit import Variable
        v = Variable(pick)
        e = v**2 if not pick.shape else v
        return repr([freeze(np.array(getattr(x, "magnitude", x), "d"))
                     for x in (sol(pick), sol.subinto(pick))]
                    + ([str(sol(e)), str(sol.subinto(e))] if not pick.shape
                       else []))
    if how == "atindex":
        out = []
        if len(sol) > 1:
            for i in range(len(sol)):
                out.append(repr(freeze(sol.atindex(i)["variables"])))
                out.append(sol.atindex(i).table())
        return "\n".join(out)
    if how == "almost":
        return repr([sol.almost_equal(sol), len(sol)])
    if how == "names":
        return repr([sorted(sol.varnames((), ("lineage", "vec"))),
                     sorted(sol.varnames((), ("unnecessary lineage", "vec"))),
                     "nosuchvariable" in sol["variables"]])
    return sol.modelstr


def ambiguous(sol, how, op, text):
    "Could a variable's name be another's as well?"
    from dst.world import W
    lins = {}
    for vk in dict(sol["variables"]):
        lins.setdefault(vk.name, set()).add(vk.lineage or ())
    alike = [n for n, ls in lins.items() if len(ls) > 1 and () not in ls]
    if alike:
        W.probe("alike")
    if how == "names":
        n = len(dict(sol["variables"]))
        for exclude in (("unnecessary lineage", "vec"), ("vec",)):
            names = sol.varnames((), exclude)
            if len(names) != n:
                return "%i variables have the names %s" % (n, sorted(names))
        return None
    lines = []
    if how == "str":
        lines = text.split("\n")
    elif how == "table" and not op["args"].get("latex") \
            and op["args"].get("showmodels", True):
        if op["args"].get("sortbymodel") is False:
            for title, part in report.SECTIONS.items():
                if part in ("freevariables", "constants", "sensitivities"):
                    rows = report.rows(report.sections(text).get(title, []))
                    names = [r[1] for r in rows]
                    twice = [n for n in names if names.count(n) > 1]
                    if twice:
                        return "%s has several %s" % (title, twice[0])
        for title, part in report.sections(text).items():
            if "Constraints" in title:
                for line in part:
                    if " : " in line or not lines:
                        lines.append(line)
                    else:    # it goes on
                        lines[-1] += line.strip()
    for line in lines:
        for n in alike:
            if re.search(r"(?<![\w.])%s(?!\w)" % re.escape(n), line):
                return "%r could mean any of %s" % (line.strip(), sorted(
                    map(str, lins[n])))
    return None


def judge(kept, op, text, allkept, np):
    "Does a report show what the solution holds?"
    sol, how = kept.sol, op["how"]
    bad = ambiguous(sol, how, op, text)
    if bad:
        return bad
    if how == "table" and not op["args"] and op["tables"] is None \
            and not op.get("show"):
        return report.judge_table(sol, text) \
            or report.judge_tight(sol, text, 5)
    if how == "summary" and not op.get("show"):
        secs = report.sections(text)
        for title, part in (("Free Variables", "freevariables"),):
            if title in secs:
                d = report.judge_rows(title, report.rows(secs[title]),
                                      dict(sol[part]))
                if d:
                    return d
        return report.judge_tight(sol, text, 5)
    if how == "diff" and not op.get("show"):
        other = allkept[op["o"]]
        if kept.mod["twin"] or other.mod["twin"]:
            return None
        if len(sol) != len(other.sol) and 1 not in (len(sol), len(other.sol)):
            return None
        return report.judge_diff(sol, other.sol, text,
                                 op["args"].get("reltol", 1.))
    if how == "csv" and not op.get("show"):
        return persist.judge_report(sol, how, "report.csv")
    if how == "names":
        return "the solution has a variable it was only asked for" \
            if text.endswith("True]") else None
    if how == "almost":
        return None if text.startswith("[True") else \
            "a solution is not almost equal to itself"
    if how == "atindex" and len(sol) > 1:
        for i in range(len(sol)):
            pt = sol.atindex(i)
            want = np.ravel(sol["cost"])[i]
            if float(getattr(pt["cost"], "magnitude", pt["cost"])) != float(
                    getattr(want, "magnitude", want)):
                return "point %i's cost is %s, the sweep's is %s" % (
                    i, pt["cost"], want)
            for vk in dict(sol["freevariables"]):
                a = np.array(pt["variables"][vk], "d")
                b = np.array(sol["variables"][vk], "d")[i]
                if not np.array_equal(a, b, equal_nan=True):
                    return "point %i's %s is %s, the sweep's is %s" % (
                        i, vk, a, b)
    return None


def execute(trace):
    "A session"
    # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    import os
    import numpy as np
    from dst import sess, simfs, ops
    from dst.world import W
    from dst.simfs import FS
    os.mkdir("files")
    os.chdir("files")
    simfs.install(os.getcwd())
    Bs = [make(mod) for mod in trace["models"]]
    states = [gen.state0(mod["spec"]) for mod in trace["models"]]
    for mod in trace["models"]:
        if mod["twin"]:
            W.probe("twins")
        if mod["sp"]:
            W.probe("signomial")
    kepts, alive, given = [], [], []
    last = {}       # (model, state, op) -> what its solution held

    def thaw(after):
        "All solutions are as they were"
        for j, kp in enumerate(kepts):
            if alive[j]:
                d = kp.changed()
                if not W.check(d is None, "solution-changed",
                               "%s changed %s of a %s's solution" %
                               (after, d, kp.op["op"])):
                    return False
        return True

    def again(j, tag):
        "A kept solution's reports are as they were"
        kp = kepts[j]
        for spec_, (rop, text) in list(kp.texts.items()):
            del spec_
            if rop.get("o") is not None and not alive[rop["o"]]:
                continue
            with sess.quiet_stdout():
                out = sess.call(text_of, kp, rop, kepts, np)
            if out[0] != "ok":
                W.violate("report-fails", "%s of a %s's solution, which "
                          "worked before: %s" % (rop, kp.op["op"],
                                                 sess.short(out[1])))
                return False
            if out[1] != text:
                W.violate("report-changed:"+rop["how"], "the %s of a %s's "
                          "solution changed %s: %s" % (
                              rop["how"], kp.op["op"], tag,
                              firstdiff(text, out[1])))
                return False
            W.probe("report-repeated")
        return True

    for n, op in enumerate(trace["ops"]):
        do = op["do"]
        if do == "set":
            mod = trace["models"][op["m"]]
            B = Bs[op["m"]]
            v = mod["spec"]["vars"][op["i"]]
            val = np.array(op["v"], "d") if v["d"] else op["v"]
            if v["d"]:
                val = gen.shaped(v, val)
            for b in ([B.a, B.b] if mod["twin"] else [B]):
                b_m = B.m
                b_m.substitutions[b.vars[op["i"]].key] = val
            states[op["m"]][op["i"]] = op["v"]
            if v["d"] and op["mutate"]:
                val *= 3.       # the array remains the user's
                W.probe("input-edited")
            if not thaw("setting a constant"):
                return
            continue
        if do in ("solve", "fail", "again"):
            mod, B = trace["models"][op["m"]], Bs[op["m"]]
            out = sess.quiet_stdout(fail_at=op["out"][0], kind=op["out"][1]) \
                if op.get("out") else sess.quiet_stdout()
            W.begin_op(op.get("faults"))
            with out:
                got = sess.call(solve, B, op, mod)
            W.end_op()
            W.ev(do, op["op"], got[0])
            W.state(do, op["op"], got[0], len(kepts),
                    str(op.get("faults") or op.get("out")))
            if got[0] == "exc":
                from gpkit.exceptions import UnknownInfeasible
                # numerical trouble, and sequences of programs that do not
                # settle, are no failure of a report
                if do != "fail" and not any(
                        isinstance(e, UnknownInfeasible)
                        or str(e).startswith("Unsolved after")
                        for e in ops.chain(got[1])):
                    W.violate("solve-fails", "%s: %s" %
                              (op["op"], sess.short(got[1])))
                    return
                W.probe("failed-solve")
                if not thaw("a failed %s" % op["op"]):
                    return
                continue
            sol = got[1]
            if sol is None or not hasattr(sol, "table"):
                continue
            if op["op"] in ("sweep", "sweep2"):
                W.probe("sweep")
            elif op["op"] in ("program", "debug"):
                W.probe(op["op"])
            kp = Kept(sol, op, mod)
            if do == "fail":    # it survived, and may be a partial sweep
                continue
            kepts.append(kp)
            alive.append(True)
            tag = repr((op["m"], sorted(states[op["m"]].items()), op["op"],
                        op.get("i"), op.get("j"), op.get("vals")))
            nums = persist.view(sol, tables=False)
            if op["op"] != "debug" and not mod["sp"]:
                if tag in last:
                    W.probe("again")
                    d = persist.difference(last[tag], nums)
                    if not W.check(d is None, "solves-differently",
                                   "the same %s later gave another solution"
                                   ": %s" % (op["op"], d)):
                        return
                last[tag] = nums
            if sol.get("warnings") and any(
                    k2.sol.get("warnings") for k2 in kepts[:-1]):
                W.probe("warned-then-other")
            # what it reports from now on
            for rop in ({"how": "table", "args": {}, "tables": None},
                        {"how": "str"}):
                with sess.quiet_stdout():
                    rep = sess.call(text_of, kp, rop, kepts, np)
                if rep[0] != "ok":
                    W.violate("report-fails", "a %s's %s: %s" % (
                        op["op"], rop["how"], sess.short(rep[1])))
                    return
                kp.texts[repr(rop)] = (rop, rep[1])
                d = judge(kp, rop, rep[1], kepts, np)
                if not W.check(d is None, "wrong-report:"+rop["how"],
                               "%s of a %s: %s" % (rop["how"], op["op"], d)):
                    return
            if not thaw("a %s" % op["op"]):
                return
            continue
        if not kepts:
            continue
        j = op["s"] % len(kepts)
        kp = kepts[j]
        if not alive[j]:
            continue
        if do == "edit":
            before = [str(b.m.substitutions) for b in Bs]
            edit(kp, op, np)
            W.probe("edited")
            alive[j] = False
            if not thaw("editing %s of another" % op["part"]):
                return
            if not W.check(before == [str(b.m.substitutions) for b in Bs],
                           "model-changed", "editing %s of a solution changed"
                           " a model's substitutions" % op["part"]):
                return
            continue
        rop = {k: v for k, v in op.items() if k not in ("do", "s", "disk")}
        if rop.get("o") is not None:
            rop["o"] %= len(kepts)
            if not alive[rop["o"]]:
                continue
            if len(kepts[rop["o"]].sol) > 1 or len(kp.sol) > 1:
                if len(kepts[rop["o"]].sol) != len(kp.sol) and 1 not in (
                        len(kepts[rop["o"]].sol), len(kp.sol)):
                    continue     # sweeps of different lengths
                if kepts[rop["o"]].mod is not kp.mod:
                    continue
                W.probe("diff-of-sweep")
            elif not compatible(kp.sol, kepts[rop["o"]].sol):
                continue
        models = [(str(b.m), str(b.m.substitutions)) for b in Bs]
        FS.begin(op.get("disk"))
        with sess.quiet_stdout():
            rep = sess.call(text_of, kp, rop, kepts, np)
        fired = FS.end()
        W.ev("report", op["how"], rep[0], fired)
        W.state("report", op["how"], kp.op["op"], rep[0],
                str(op.get("args")), bool(op.get("show")))
        if rep[0] == "exc":
            expect = fired or (op.get("args") or {}).get("latex") == 9
            if not W.check(expect, "report-fails", lambda: "%s of a %s's "
                           "solution: %s" % (rop, kp.op["op"],
                                             sess.short(rep[1]))):
                return
            W.probe("failed-report")
        else:
            W.probe(op["how"])
            if op.get("show") == "absent":
                W.probe("missing-name")
            d = judge(kp, rop, rep[1], kepts, np)
            if not W.check(d is None, "wrong-report:"+op["how"],
                           "%s of a %s: %s" % (rop, kp.op["op"], d)):
                return
            old = kp.texts.get(repr(rop))
            if old and old[1] != rep[1]:
                W.violate("report-changed:"+op["how"], "%s: %s" % (
                    rop, firstdiff(old[1], rep[1])))
                return
            kp.texts[repr(rop)] = (rop, rep[1])
        if not thaw("the report %s" % rop):
            return
        if not W.check(models == [(str(b.m), str(b.m.substitutions))
                                  for b in Bs], "model-changed",
                       "the report %s changed a model" % rop):
            return
        if (n + j) % 2:
            if not again(j, "after a %s" % rop):
                return
    for j in range(len(kepts)):
        if alive[j] and not again(j, "by the end of the session"):
            return
    thaw("the last reports")
    del given


def compatible(a, b):
    "Do variables that are called the same have the same shape?"
    theirs = {vk: getattr(v, "shape", ())
              for vk, v in dict(b["variables"]).items()}
    return all(theirs.get(vk, s) == s for vk, s in (
        (vk, getattr(v, "shape", ()))
        for vk, v in dict(a["variables"]).items()))


def firstdiff(a, b):
    "The first lines that differ"
    a, b = a.split("\n"), b.split("\n")
    for x, y in zip(a, b):
        if x != y:
            return "%r became %r" % (x[:200], y[:200])
    return "%i lines became %i" % (len(a), len(b))


def solve(B, op, mod):
    "Solves, at the op's verbosity"
    if op.get("v") and op["op"] in ("solve", "localsolve"):
        fn = B.m.localsolve if op["op"] == "localsolve" else B.m.solve
        return fn(verbosity=op["v"])
    return persist.solved(B, op, mod["spec"], None)


def edit(kp, op, np):
    "Changes numbers the user got from a solution, in place"
    sol, part = kp.sol, op["part"]
    for vk in sorted(dict(sol["variables"]), key=str):
        if part in ("call", "subinto"):
            x = sol(vk) if part == "call" else sol.subinto(vk)
            x = getattr(x, "magnitude", x)
        else:
            t = sol["sensitivities"]["variables"] if part == "sens" \
                else sol[part]
            if vk not in t:
                continue
            x = t[vk]
            if not isinstance(x, np.ndarray):
                t[vk] = x*op["by"]
        if isinstance(x, np.ndarray) and x.dtype != object:
            x *= op["by"]
