"""C17: what happens around and within a solve doesn't disturb it."""
import contextlib
import io
import json
import os
import re

from dst import gen, persist, zygote
from dst.props import c16

LEVEL = "exploration"
TECHNIQUE = ("sessions of solves, sweeps, autosweeps, debugs and held programs "
             "are first run one after the other, then nested: at simulated "
             "points within solvers, linked functions, process_result, "
             "printing, naming and vectorizing environments and other models' "
             "setups, with failures and interrupts inside and through them; "
             "every program, result, message and text must be the same")
TIERS = {"quick": {"runs": 2500, "budget": 45, "minruns": 60, "shrink": 40},
         "thorough": {"runs": 60000, "budget": 900, "minruns": 100,
                      "shrink": 120}}
RULE = ("each run builds two models and one which shares the first's "
        "constraints, performs 2-6 operations on them one by one in a process "
        "and nested within each other and within environments in another; "
        "non-trivial: an operation was nested or in an environment")
REAL = ["gpkit (all of it)", "cvxopt solver, in the first process"]
STUB = ["clock", "stdout", "solver when nested (its own answers to the same "
        "programs)", "linked functions, process_result methods and setups of "
        "the run's own models"]
STATE_MEASURE = "(outer operation, point, inner operation, environment, ends)"
POINTS = ["solver", "linked", "process_result", "stdout", "held"]
ENVS = ["named", "vectorized", "setup", "vectorized setup", "signomials"]
FAULTS = ["solver:boom", "solver:interrupt", "solver:valueerror"] + \
    ["nested-in-"+p for p in POINTS] + ["within-"+e.replace(" ", "-")
                                        for e in ENVS] + ["raised-through"]
PROBES = ["same-model", "sharing-model", "other-model", "twice-nested",
          "outer-failed", "inner-failed", "debug", "sweep", "autosweep",
          "signomial", "held", "program-kept", "table"]
ASSUMPTIONS = ["models are not changed by what is nested in their solves",
               "what is nested in a sweep of a model does not solve it"]


def generate(rng, tier):
    "A run's trace"
    sp = rng.random() < .25
    spec = gen.gen_spec(rng, "m", sp=sp, nfree=rng.choice([2, 3]),
                        linked=not sp and rng.random() < .5,
                        part=rng.random() < .6, limit=rng.random() < .3)
    other = gen.gen_spec(rng, "o", nfree=2, linked=rng.random() < .3,
                         limit=rng.random() < .2)
    trace = {"spec": spec, "other": other, "sp": sp, "ops": [],
             "clock": {"kind": "frozen"},
             "keep": [rng.random() < .8 for _ in spec["cons"]]}
    ids = [0]

    def operation(depth):
        on = rng.choice("mmso" if depth else "mmmso")
        issp = sp and on != "o"
        op = persist.gen_solve(rng, {"m": spec, "s": spec, "o": other}[on],
                               issp)
        if rng.random() < .15:
            op["op"] = "held"
        op.update(on=on, v=rng.choice([0, 0, 1, 2]), id=ids[0], nest=[])
        ids[0] += 1
        if rng.random() < (.3 if depth else .1):
            op["faults"] = {str(rng.choice([0, 0, 1])):
                            rng.choice(["boom", "interrupt", "valueerror"])}
        if rng.random() < (.25 if depth else .4):
            op["env"] = rng.choice(ENVS)
            op["through"] = rng.random() < .5
        for _ in range(rng.choice([0, 1, 1, 2]) if depth < 2 else 0):
            if depth and rng.random() < .7:
                continue
            inner = operation(depth+1)
            at = rng.choice(POINTS)
            if at == "held" and op["op"] != "held":
                at = "solver"
            op["nest"].append({"at": at, "n": rng.choice([1, 1, 1, 2, 3]),
                               "op": inner})
        return op

    for _ in range(rng.randint(1, 3 if tier == "quick" else 6)):
        trace["ops"].append(operation(0))
    return trace


def nontrivial(trace, res):
    "Was anything nested?"
    return any(k.startswith(("nested", "within"))
               for k in res.get("faults", {}))


def shrink(trace):
    "Smaller traces"
    def smaller(ops):
        for i, op in enumerate(ops):
            yield ops[:i] + ops[i+1:]
            for key in ("faults", "env"):
                if op.get(key):
                    yield ops[:i] + [dict(op, **{key: None})] + ops[i+1:]
            for j, n in enumerate(op["nest"]):
                yield ops[:i] + [dict(op, nest=op["nest"][:j]
                                      + op["nest"][j+1:])] + ops[i+1:]
                for rest in smaller([n["op"]]):
                    if len(rest) == 1:
                        yield ops[:i] + [dict(op, nest=op["nest"][:j] + [
                            dict(n, op=rest[0])] + op["nest"][j+1:])] \
                            + ops[i+1:]
    for ops in smaller(trace["ops"]):
        if ops:
            yield dict(trace, ops=ops)


def drive(trace, fork_run, run_child):
    "First one after the other, then nested"
    return zygote.drive("C17", trace, [0, 0], fork_run, run_child)


class Part(c16.Script):
    "What one operation did"
    def __init__(self, want):  # pylint: disable=super-init-not-called
        self.first, self.want = want is None, want
        self.got, self.at, self.bad = [], 0, False

    def say(self, kind, what, value):
        value = plain(value)
        if what == "constants":  # are in the order in which they were set
            value = sorted(value)
        return super().say(kind, what, value)


LINEAGE = re.compile(r"\b(?:[A-Za-z]+\d*\.)*Relax\d*\.")


def plain(value):
    "Without the numbers and environments of relaxations"
    if isinstance(value, str):
        return LINEAGE.sub("Relax.", value)
    if isinstance(value, list):
        return [plain(v) for v in value]
    return value


def outlook():
    "What is made of a new variable and constraint here"
    from gpkit import Variable
    y = Variable("look")
    first = y.flat[0] if hasattr(y, "shape") else y
    try:
        made = bool(first - first**2 >= 0.1)
    except Exception as e:  # pylint: disable=broad-except
        made = type(e).__name__
    return [str(first.key.lineage), list(getattr(y, "shape", ()) or ()),
            str(first.key.shape), str(made)]


class Stream(io.StringIO):
    "A user's stdout"
    hook = None

    def write(self, text):
        if self.hook:
            self.hook()
        return super().write(text)


class Session:
    "The models, and what runs within what"
    def __init__(self, trace, models, want):
        self.trace, self.models, self.want = trace, models, want
        self.got, self.stack = {}, []

    def reached(self, point):
        "A point of the innermost operation where others may be nested"
        from dst.world import W
        if self.want is None or not self.stack:
            return
        op, counts = self.stack[-1]
        counts[point] = counts.get(point, 0) + 1
        for n in op["nest"]:
            if n["at"] != point or n["n"] != counts[point]:
                continue
            inner = n["op"]
            swept = any("sweep" in o["op"] and o["on"] == inner["on"]
                        for o, _ in self.stack)
            if swept:
                continue
            W.fired("nested-in-"+point)
            if len(self.stack) > 1:
                W.probe("twice-nested")
            W.probe("same-model" if op["on"] == inner["on"] else
                    "other-model" if "o" in (op["on"], inner["on"])
                    else "sharing-model")
            self.run(inner)

    def run(self, op):
        "Performs an operation, recording it or comparing it to its record"
        from dst import sess
        from dst.world import W
        if self.want is not None and str(op["id"]) not in self.want:
            return
        part = Part(None if self.want is None else self.want[str(op["id"])])
        solver = c16.solver_for(part, op.get("faults"),
                                lambda: self.reached("solver"))
        out = Stream()
        out.hook = lambda: self.reached("stdout")
        depth = len(self.stack)
        self.stack.append((op, {}))
        try:
            with contextlib.redirect_stdout(out):
                got = self.within(op, lambda: self.perform(op, solver))
        finally:
            del self.stack[depth:]
        if self.want is not None:
            W.state(op["op"], [(n["at"], n["op"]["op"]) for n in op["nest"]],
                    op.get("env"), depth, sess.excname(got[1])
                    if got[0] != "ok" else "ok")
            if got[0] != "ok":
                W.probe("inner-failed" if depth else "outer-failed")
        W.ev(op["op"], op["on"], depth, got[0])
        if part.bad:
            return
        if op["op"] in ("debug", "sweep", "autosweep", "held"):
            W.probe(op["op"])
        if self.trace["sp"]:
            W.probe("signomial")
        part.say("outcome", op["op"], got[0] if got[0] == "ok"
                 else type(got[1]).__name__)
        part.say("printed", "by " + op["op"], out.getvalue())
        if got[0] != "ok":
            part.say("error", op["op"], str(got[1]))
        elif got[1] is not None:
            # relaxations belong to the environment they were made in
            debugged = op["op"] == "debug" or "`.debug()`" in out.getvalue()
            c16.say_result(part, got[1], not debugged)
            if not debugged:
                part.say("text", "table", got[1].table())
                W.probe("table")
            self.judge_program(op, got[1], out.getvalue())
        if self.want is None:
            self.got[str(op["id"])] = part.got
        elif not part.bad:
            W.check(part.at == len(part.want), "nested",
                    "%s: %i things were not done when nested"
                    % (op["op"], len(part.want)-part.at))

    def perform(self, op, solver):
        "The operation itself"
        B = self.models[op["on"]]
        if op["op"] != "held":
            return c16.perform(B, op, solver, op["v"])
        if self.trace["sp"] and op["on"] != "o":
            prog = B.m.sp()
            self.reached("held")
            return prog.localsolve(solver, verbosity=op["v"])
        prog = B.m.gp()
        self.reached("held")
        return prog.solve(solver, verbosity=op["v"])

    def judge_program(self, op, sol, text):
        "A model's program and solution are those of what ended last"
        from dst.world import W
        m = self.models[op["on"]].m
        if op["op"] not in ("solve", "localsolve", "sweep"):
            return
        if "let's run `.debug()`" in text:
            return  # from the debug of a verbose solve which failed
        W.probe("program-kept")
        W.check(m.solution is sol or op["op"] == "sweep", "kept",
                "%s: the model's solution is another" % op["op"])
        progs = m.program if isinstance(m.program, list) else [m.program]
        costs = c16.floats(sol["cost"])
        mine = [c16.floats(p.result["cost"])[0] for p in progs]
        d = c16.differ(costs, mine)
        W.check(not d, "kept", "%s: the cost of the model's program %s"
                % (op["op"], d))

    def within(self, op, do):
        "Performs something in an environment -> as sess.call does"
        from dst import sess
        from dst.world import W
        from gpkit import (Model, Variable, Vectorize, NamedVariables,
                           SignomialsEnabled)
        env = op.get("env")
        if self.want is None or not env:
            here = outlook() if self.want is not None else None
            out = sess.call(do)
            if here:
                now = outlook()
                W.check(now == here, "environment", "after a %s what a new "
                        "variable is became %s, was %s" % (op["op"], now, here))
            return out
        W.fired("within-"+env.replace(" ", "-"))
        got = []

        def inside():
            here = outlook()
            got.append(sess.call(do))
            now = outlook()
            W.check(now == here, "environment",
                    "within %s, what a new variable is became %s, was %s"
                    % (env, now, here))
            if got[0][0] != "ok" and op["through"]:
                W.fired("raised-through")
                raise got[0][1]

        class Re(Model):
            "A model whose setup solves another, SKIP VERIFICATION"
            def setup(self):
                "Its variable and constraint"
                z = Variable("z")
                inside()
                self.cost = (z*Variable("w", 2)).prod() \
                    if hasattr(z, "shape") else z*Variable("w", 2)
                return [z >= 3]

        def enter():
            if env == "setup":
                return Re()
            if env == "vectorized setup":
                with Vectorize(2):
                    return Re()
            with {"named": lambda: NamedVariables("Re"),
                  "vectorized": lambda: Vectorize(2),
                  "signomials": SignomialsEnabled}[env]():
                inside()
            return None

        around = (NamedVariables.lineage, Vectorize.vectorization)
        here = outlook()
        end = sess.call(enter)
        if not W.check((NamedVariables.lineage, Vectorize.vectorization)
                       == around, "environment",
                       "after %s: what's made is still within it" % env):
            NamedVariables.lineage, Vectorize.vectorization = around
        now = outlook()
        W.check(now == here, "environment", "after %s what a new variable is "
                "became %s, was %s" % (env, now, here))
        if end[0] != "ok" and (not got or end[1] is not got[0][1]):
            W.violate("environment", "%s itself failed: %s" % (
                env, sess.short(end[1])))
        elif end[0] == "ok" and end[1] is not None:
            names = sorted({k.name for k in end[1].varkeys})
            W.check(names == ["look", "w", "z"], "environment",
                    "a model whose setup performs a %s has variables %s"
                    % (op["op"], names))
        return got[0]


def models(trace, session):
    "The two models, and one which shares the first's constraints"
    from gpkit import ConstraintSet, Model

    def hook(_):
        session[0].reached("linked")

    class Noter(ConstraintSet):
        "A user's constraint set"
        def process_result(self, result):
            "user code"
            super().process_result(result)
            session[0].reached("process_result")

    out = {"m": gen.build(trace["spec"], hook=hook,
                          extra=lambda B: [Noter([])]),
           "o": gen.build(trace["other"], hook=hook,
                          extra=lambda B: [Noter([])])}

    class Sharing:
        "A model of the first's constraints"
    shares = Sharing()
    B = out["m"]
    shares.vars = B.vars
    shares.m = Model(B.m.cost*B.m.cost, [Noter([]), B.m])
    out["s"] = shares
    return out


def execute(trace):
    "One after the other in the first process, nested in the second"
    from gpkit import NamedVariables
    from dst.world import W
    path = os.path.join(trace["dir"], "script.json")
    want = None
    if trace["phase"]:
        with open(path) as f:
            want = json.load(f)
    session = []
    session.append(Session(trace, models(trace, session), want))
    todo = list(trace["ops"])
    while todo:
        op = todo.pop(0)
        NamedVariables.reset_modelnumbers()
        session[0].run(op)
        if want is None:   # inner operations come after outer ones
            todo[:0] = [n["op"] for n in op["nest"]]
    if want is None:
        with open(path, "w") as f:
            json.dump(session[0].got, f)
    W.ev("end", len(session[0].got))
