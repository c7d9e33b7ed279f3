"""C18: Tight, Loose and Bounded sets warn of exactly what a solution breaks."""
import math
import re

from dst import gen

LEVEL = "exploration"
TECHNIQUE = ("simulated solves and sweeps of models whose constraints are in "
             "random nestings of Tight, Loose, Bounded and users' own sets, "
             "with solvers whose answers are nudged, which fail or are "
             "interrupted, and with users' process_results which fail or "
             "solve again; each solution's warnings are compared with what "
             "its own values and sensitivities say, computed independently")
TIERS = {"quick": {"runs": 4000, "budget": 40, "minruns": 200, "shrink": 40},
         "thorough": {"runs": 100000, "budget": 900, "minruns": 300,
                      "shrink": 120}}
RULE = ("each run builds a model of random nested sets and one which shares "
        "them, then solves, sweeps and changes them 2-6 times; every solution "
        "is judged when made and again at the end; non-trivial: something was "
        "warned of and something was not")
REAL = ["gpkit (all of it)", "cvxopt solver"]
STUB = ["clock", "stdout", "faults in front of and nudges behind cvxopt",
        "users' constraint sets"]
STATE_MEASURE = "(operation, kinds of sets, warned categories, fault, outcome)"
SFAULTS = ["boom", "unknown", "valueerror", "interrupt"]
FAULTS = ["solver:"+f for f in SFAULTS] + [
    "nudged", "user:boom", "user:interrupt", "user:infeasible", "user:solves"]
PROBES = ["tight", "not-tight", "loose", "not-loose", "near-bound",
          "sensitive-to-bound", "unbound", "raised", "sweep", "point-skipped",
          "shared", "signomial", "array", "nested", "equality", "not-processed",
          "table", "kept"]
ASSUMPTIONS = ["what is within 1e-6 of a tolerance may be either side of it"]
KINDS = {"tight": "Unexpectedly Loose Constraints",
         "loose": "Unexpectedly Tight Constraints",
         "bounded": "Arbitrarily Bounded Variables"}


def gen_tree(rng, kids, depth=0):
    "Random nested sets of constraints"
    out, kids = [], list(kids)
    while kids:
        n = rng.randint(1, max(1, min(4, len(kids))))
        mine, kids = kids[:n], kids[n:]
        kind = rng.choice(["tight", "tight", "tight", "loose", "loose",
                           "plain", "bare", "dict", "noter"])
        node = {"kind": kind, "kids": mine}
        if kind == "tight":
            node["tol"] = rng.choice([None, None, 1e-2, 1e-1, .5, 1e-5, 2.])
        elif kind == "loose":
            node["tol"] = rng.choice([None, None, 1e-3, .05, .5, 1.])
            node["raise"] = rng.random() < .04
        if depth < 2 and rng.random() < .45:
            node["kids"] = gen_tree(rng, mine, depth+1)
        out.append(node)
    return out


def generate(rng, tier):
    "A run's trace"
    sp = rng.random() < .15
    spec = gen.gen_spec(rng, "m", sp=sp, nfree=rng.choice([2, 3, 4]),
                        linked=rng.random() < .25, part=rng.random() < .5,
                        limit=rng.random() < .4)
    V = spec["vars"]
    bounded = None
    if rng.random() < .5:
        bounded = rng.choice([{}, {}, {"eps": 1e-12}, {"lower": 1e-3},
                              {"upper": 1e3}, {"lower": 1e-6, "upper": 1e6},
                              {"lower": .02, "upper": 50.},
                              {"lower": .05, "upper": 20.}])
        for n, sign in (("m_lo", 1), ("m_hi", -1)):
            if rng.random() < .4:
                V.append({"n": n, "k": "free", "v": None, "d": 0, "part": 0,
                          "u": rng.choice([None, "m", "km"]), "used": 1,
                          "drifts": 1})
                f = [len(V)-1, None, 1, V[-1]["u"]]
                for t in spec["cost"]:
                    t["f"].append(f[:2] + [sign*rng.choice([.5, 1]), f[3]])
                spec["cons"].append({   # far from where it drifts to
                    "o": "<=" if sign > 0 else ">=", "l": [{"c": 1., "f": [f]}],
                    "r": [{"c": 1e7**sign, "f": []}]})
    second = rng.choice([None, None, {}, {"eps": 1e-12}, bounded]) \
        if bounded is not None else None
    order = list(range(len(spec["cons"])))
    rng.shuffle(order)
    consts = [i for i, v in enumerate(V) if v["k"] == "const" and v["used"]
              and not v["d"] and not v.get("limit")]
    lims = [i for i, v in enumerate(V) if v.get("limit")]
    out = []
    for _ in range(rng.randint(2, 4 if tier == "quick" else 7)):
        op = {"op": rng.choice(["solve", "solve", "solve", "sweep", "sweep",
                                "set"]), "on": rng.choice("mms"),
              "faults": {}, "noter": None, "nudge": None,
              "verbosity": rng.choice([0, 0, 1])}
        if op["op"] == "set":
            if not consts + lims:
                continue
            op["i"] = rng.choice(consts+lims)
            op["v"] = gen.rnd(rng, .4, 4) if op["i"] in consts \
                else gen.rnd(rng, 20, 1e4)
        elif op["op"] == "sweep":
            if not consts:
                continue
            op["i"] = rng.choice(consts)
            op["vals"] = [gen.rnd(rng, .4, 4)
                          for _ in range(rng.choice([2, 2, 3, 4]))]
            op["skip"] = rng.random() < .7
            if lims and rng.random() < .3:
                op["i"], op["vals"] = lims[0], [
                    gen.rnd(rng, 20, 1e4), 1e-6, gen.rnd(rng, 20, 1e4)]
        if rng.random() < .3:
            op["faults"] = {str(rng.choice([0, 0, 1, 2])): rng.choice(SFAULTS)}
        if rng.random() < .35:
            op["noter"] = {"n": rng.choice([1, 1, 2, 3, 4]),
                           "what": rng.choice(["boom", "interrupt",
                                               "infeasible", "solves",
                                               "solves"])}
        if not sp and rng.random() < .5:
            size = rng.choice([1e-4, 5e-4, 2e-3, 2e-2, .2])
            op["nudge"] = {"x": [rng.choice([0, 0, -1, 1, .5])*size
                                 for _ in range(4)],
                           "la": [rng.choice([1, 1, 1, 1.1, .5, 1e-3, 1e-7])
                                  for _ in range(3)]}
        op["process"] = rng.random() > .05
        out.append(op)
    return {"spec": spec, "sp": sp, "tree": gen_tree(rng, order),
            "bounded": bounded, "second": second, "ops": out, "clock": {"kind": "frozen"}}


def nontrivial(trace, res):
    "Something was warned of, something was not"
    p = res.get("probes", {})
    return any(p.get(k) for k in ("not-tight", "not-loose", "near-bound",
                                  "sensitive-to-bound")) and \
        any(p.get(k) for k in ("tight", "loose", "unbound"))


def shrink(trace):
    "Smaller traces"
    for i, op in enumerate(trace["ops"]):
        for key in ("noter", "nudge"):
            if op.get(key):
                yield dict(trace, ops=trace["ops"][:i] + [dict(
                    op, **{key: None})] + trace["ops"][i+1:])
        if op.get("faults"):
            yield dict(trace, ops=trace["ops"][:i] + [dict(
                op, faults={})] + trace["ops"][i+1:])

    def flatter(nodes):
        for i, node in enumerate(nodes):
            if not isinstance(node, dict):
                continue
            yield nodes[:i] + node["kids"] + nodes[i+1:]
            for kids in flatter(node["kids"]):
                yield nodes[:i] + [dict(node, kids=kids)] + nodes[i+1:]
    for tree in flatter(trace["tree"]):
        yield dict(trace, tree=tree)


class Sets:
    "The sets of a trace's tree, and which of them each constraint is in"
    def __init__(self, trace, hook):
        self.trace, self.hook = trace, hook
        self.members = []   # (set, kind, tol, raises, {(con index, element)})
        self.bounds = []    # (set, its arguments, {con index})
        self.B = None

    def make(self, B):
        "The sets"
        from gpkit import ConstraintSet
        from gpkit.constraints.bounded import Bounded
        self.B = B
        out = [self.node(n) for n in self.trace["tree"]]
        if self.trace["bounded"] is None:
            return [n for n, _ in out]
        cut = len(out)
        if self.trace.get("second") is not None and cut > 1:
            cut = 1 + cut//3
            out, rest = out[:cut], out[cut:]
            self.bounds.append((Bounded(ConstraintSet([n for n, _ in rest]),
                                        **self.trace["second"]),
                                self.trace["second"],
                                set().union(*(m for _, m in rest))))
        self.bounds.append((Bounded(ConstraintSet([n for n, _ in out]),
                                    **self.trace["bounded"]),
                            self.trace["bounded"],
                            set().union(*(m for _, m in out))))
        return [b[0] for b in self.bounds]

    def node(self, node):
        "-> set, constraints in it"
        from gpkit import ConstraintSet
        from gpkit.constraints.loose import Loose
        from gpkit.constraints.tight import Tight
        hook = self.hook
        if not isinstance(node, dict):
            return self.B.cons[node], {node}
        kids, mine = [], set()
        for k in node["kids"]:
            kid, his = self.node(k)
            kids.append(kid)
            mine |= his
        tol, kind = node.get("tol"), node["kind"]

        class Noter(ConstraintSet):
            "A user's set"
            def process_result(self, result):
                "The user's code, before or after"
                hook(result)
                super().process_result(result)
                hook(result)

        if kind == "tight":
            new = Tight(kids, reltol=tol)
            self.members.append((new, kind, tol or 1e-3, False, mine))
        elif kind == "loose":
            new = Loose(kids, senstol=tol)
            new.raiseerror = bool(node["raise"])
            self.members.append((new, kind, tol or 1e-5, node["raise"], mine))
        elif kind == "plain":
            new = ConstraintSet(kids)
        elif kind == "noter":
            new = Noter(kids)
        elif kind == "dict":
            new = ConstraintSet({"set %i" % i: k for i, k in enumerate(kids)})
        else:
            new = kids
        return new, mine


class Bounder:
    "Values and bounds of one solution (or point of a sweep)"
    def __init__(self, spec, sol, B, sess):
        self.spec, self.B = spec, B
        state = {}
        for i, v in enumerate(spec["vars"]):
            if not v["used"]:
                continue
            if v["d"]:
                state[i] = [self.get(sol, sess, i, e) for e in range(v["d"])]
            else:
                state[i] = self.get(sol, sess, i, None)
        # linked variables' values are those which were solved with
        plain = dict(spec, vars=[dict(v, k="const") if v["k"] == "linked"
                                 else v for v in spec["vars"]])
        self.ref = gen.Ref(plain, state)

    def get(self, sol, sess, i, e):
        "A value, if it has one"
        try:
            x = float(sol["variables"][sess.key(self.B, i, e)])
        except KeyError:
            return None
        return None if math.isnan(x) else x

    def sides(self, ci, e):
        "What the two sides of a constraint (element) are"
        c = self.spec["cons"][ci]
        return [sum(self.ref.mono(t, e)[0] for t in c[s]) for s in "lr"]


def near(a, b, tol=1e-6):
    "So close that either side may be right"
    return abs(a-b) <= tol*max(abs(a), abs(b))


def allows(warning, tol):
    "Is it this tolerance that the warning is of?"
    m = re.search(r"Allowable \w+: ([0-9.e+-]+)(%?)[,)]", str(warning[0]))
    return m and near(float(m.group(1))/(100 if m.group(2) else 1), tol, 1e-3)


class Judge:
    "Compares warnings with what they should be"
    def __init__(self, sets, what):
        from dst import sess
        from dst.world import W
        self.sets, self.what, self.W, self.sess = sets, what, W, sess
        self.must = {"tight": [], "loose": [], "bounded": {}}

    def expect(self, sol):
        """-> {kind: [(constraint, number, may, tolerance)]}, of one point

        may: it's so near its tolerance that it may be missing"""
        B, sess, W = self.sets.B, self.sess, self.W
        spec = B.spec
        values = Bounder(spec, sol, B, sess)
        ctable = sol["sensitivities"]["constraints"]
        out = {"tight": [], "loose": []}
        raised = set()   # 2 if one should be, 1 if one may be
        for _, kind, tol, raises, mine in self.sets.members:
            for ci in sorted(mine):
                c = spec["cons"][ci]
                for j, con in enumerate(sess.conlist(B.cons[ci])):
                    e = j if c["o"] == "vec" else None
                    if e is not None:
                        W.probe("array")
                    if c["o"] in ("==", "sp"):
                        W.probe({"==": "equality", "sp": "signomial"}[c["o"]])
                    if kind == "tight":
                        l, r = values.sides(ci, e)
                        off = abs(1-l/r)
                        num = l/r
                    else:
                        off = num = float(ctable[con]) if con in ctable else 0.
                    if off >= tol or near(off, tol) or abs(off-tol) < 1e-12:
                        out[kind].append((con, num, near(off, tol) or
                                          abs(off-tol) < 1e-12, tol))
                        W.probe("not-"+kind)
                        if raises:
                            raised |= {1} if near(off, tol) else {2}
                    else:
                        W.probe(kind)
        return out, raised

    def bounds(self, sol, bounded, conf, within):
        "-> {text: {var: may}}, how a set's variables are arbitrarily bounded"
        # pylint: disable=too-many-locals
        spec, B, sess, W = self.sets.B.spec, self.sets.B, self.sess, self.W
        eps = conf.get("eps", 1e-30)
        lower, upper = conf.get("lower", eps), conf.get("upper", 1/eps)
        free = {}
        used = {(f[0], e if f[1] == "*" else f[1])   # in a constraint
                for c in [spec["cons"][ci] for ci in within]
                for t in c["l"]+c["r"] for f in t["f"]
                for e in (range(c["d"]) if f[1] == "*" else [None])}
        given, fixed = set(), set()
        for i, v in enumerate(spec["vars"]):
            for e in (range(v["d"]) if v["d"] else [None]):
                key = sess.key(B, i, e)
                if (i, e) in used:
                    free[key] = float(sol["variables"][key])
                    if v["k"] != "free":
                        (given if len(self.sets.bounds) > 1
                         else fixed).add(key)
        ctable = sol["sensitivities"]["constraints"]
        senss = {}
        for con in bounded.flat():
            if con in ctable and len(con.vks) == 1:
                key, = con.vks
                if not hasattr(con.left, "key"):
                    continue    # another's
                n = {">=": "lower", "<=": "upper"}.get(con.oper)
                val = getattr(con.right, "value", None)
                if isinstance(val, (int, float)) and near(
                        val, {"lower": lower, "upper": upper}.get(n, 0), 1e-9):
                    senss[(key, n)] = float(ctable[con])
        out = {}
        for key, x in free.items():
            for n, at in (("lower", lower), ("upper", upper)):
                text = "%s bound of %.2g" % (n, at)
                gap = abs(math.log(x/at))
                # a constant's value may be known to another set only
                may = key in given or near(gap, 3)
                if (gap <= 3 or near(gap, 3)) and key not in fixed:
                    out.setdefault("value near "+text, {})[key] = may
                    W.probe("near-bound")
                else:
                    W.probe("unbound")
                s = senss.get((key, n), 0.)
                if (s >= 1e-7 or near(s, 1e-7)) and key not in fixed:
                    out.setdefault("sensitive to "+text, {})[key] = \
                        key in given or near(s, 1e-7)
                    W.probe("sensitive-to-bound")
        return out

    def point(self, sol, warned, where):
        "Judges the warnings of one solution"
        W = self.W
        want, raised = self.expect(sol)
        if not W.check(2 not in raised, "did-not-raise", "%s: a set told to raise "
                       "when it's not loose didn't" % where):
            return None
        for kind, wanted in want.items():
            got = list(warned.get(KINDS[kind], []))
            left = list(got)
            for con, num, may, tol in sorted(wanted, key=lambda w: w[2]):
                mine = [w for w in left if w[1] is con and allows(w, tol)]
                if not mine:
                    if may:
                        continue
                    W.violate("not-warned", "%s: there's no warning that %s is"
                              " not %s to within %s: %s" %
                              (where, con, kind, tol, num))
                    return None
                left = [w for w in left if w is not mine[0]]
                if not self.message(kind, mine[0], num, where):
                    return None
            if not W.check(not left, "spurious-warning", lambda: "%s: warned "
                           "that %s" % (where, str(left[0][0])[:600])):
                return None
        return want if self.judge_bounds(sol, warned, where) else None

    def message(self, kind, warning, num, where):
        "Its numbers are the solution's"
        said, con = str(warning[0]), warning[1]
        if kind == "tight":
            m = re.search(r"evaluated to (\S+).* but the right hand side "
                          r"evaluated to (\S+).*Actual error: (\S+)%", said)
            ok = m and near(float(m.group(3)), 100*abs(1-num), 6e-2)
            if ok and not re.search("evaluated to [0-9.e+-]+ [a-z]", said):
                ok = near(float(m.group(1))/float(m.group(2)), num, 1e-6)
        else:
            m = re.search(r"sensitivity of (\S+)\. ", said)
            ok = m and near(float(m.group(1)), num, 1e-3)
        return self.W.check(ok, "wrong-number", "%s: %s, but for %s it is %s"
                            % (where, said[:600], con, num))

    def judge_bounds(self, sol, warned, where):
        "Arbitrarily bounded variables"
        W = self.W
        got = [str(m).strip() for m, _ in warned.get(KINDS["bounded"], [])]
        table = {k: set(v) for k, v in sol.get("boundedness", {}).items()
                 if len(v)}
        every = {}
        for bounded in self.sets.bounds:
            want = self.bounds(sol, *bounded)
            for text, keys in want.items():
                for key, may in keys.items():
                    every.setdefault(text, {})
                    every[text][key] = every[text].get(key, True) and may
            for text, keys in want.items():
                must = {str(k) for k, may in keys.items() if not may}
                names = {str(k) for k in keys}
                mine = [g for g in got if g.startswith(text+":") and must <=
                        set(g.split(": ", 1)[1].split(", ")) <= names]
                if not W.check(mine or not must, "not-warned", lambda:
                               "%s: %s: %s should be, but said is only %s" %
                               (where, text, sorted(must), got)):
                    return False
                if mine:
                    got.remove(mine[0])
        if not W.check(not got, "spurious-warning", "%s: %s" % (where, got)):
            return False
        for text in sorted(set(every) | set(table)):
            keys, mine = every.get(text, {}), table.get(text, set())
            must = {k for k, may in keys.items() if not may}
            if not W.check(must <= mine <= set(keys), "boundedness",
                           lambda: "%s: %s: %s, should be %s" % (
                               where, text, sorted(map(str, mine)),
                               sorted(map(str, must)))):
                return False
        return True

    def solution(self, sol, process=True):
        "Judges all of a solution"
        W = self.W
        n = len(sol)
        wants = []
        for i in range(n):
            sub = sol.atindex(i) if n > 1 else sol
            warned = sub.get("warnings", {})
            where = "%s, point %i of %i" % (self.what, i, n)
            if not process:
                W.probe("not-processed")
                if not W.check(not any(len(w) for w in warned.values()),
                               "spurious-warning", "%s wasn't to be processed,"
                               " but warns %s" % (where, warned)):
                    return False
                continue
            want = self.point(sub, warned, where)
            if want is None:
                return False
            whole = sol.get("warnings", {})
            for cat in whole:
                mine = whole[cat][i] if n > 1 else whole[cat]
                if not W.check([str(w[0]) for w in mine] ==
                               [str(w[0]) for w in warned.get(cat, [])],
                               "wrong-point", "%s: %s in all warnings, %s in "
                               "the point's" % (where, mine, warned.get(cat))):
                    return False
            wants.append(want)
            W.state(self.what.split()[0], sorted(
                k for k in KINDS.values() if len(warned.get(k, []))))
        return not process or self.table(sol, wants)

    def table(self, sol, wants):
        "What's printed of each point"
        W = self.W
        lines = sol.table(tables=["warnings"]).split("\n")
        W.probe("table")
        n = len(wants)
        for i, want in enumerate(wants):
            for kind, wanted in want.items():
                title = KINDS[kind] + (" in sweep %i" % i if n > 1 else "")
                at = [j for j, l in enumerate(lines) if l == title]
                must = [num for _, num, may, _ in wanted if not may]
                if any(may for _, _, may, _ in wanted):
                    continue
                if not W.check(len(at) == bool(must), "table", "%s: %r is "
                               "printed %i times, there are %i such warnings"
                               % (self.what, title, len(at), len(must))):
                    return False
                if not must:
                    continue
                nums = []
                for j, l in enumerate(lines[at[0]+2:], at[0]+2):
                    if l and set(l) == {"~"} or lines[j+1:] and \
                            lines[j+1] and set(lines[j+1]) == {"-"}:
                        break   # the next title, or the end
                    m = re.match(r"\s*([0-9.e+-]+)( \S+ ([0-9.e+-]+))? : ", l)
                    if m:
                        nums.append(float(m.group(1))/float(m.group(3))
                                    if m.group(3) else float(m.group(1)))
                ok = len(nums) == len(must)
                tol = 2.2e-3 if kind == "tight" else 6e-2
                if not W.check(ok and all(near(a, b, tol) for a, b in zip(
                        sorted(nums), sorted(must))), "table", lambda:
                               "%s: under %r there is %s, warned of are %s\n%s"
                               % (self.what, title, sorted(nums), sorted(must),
                                  "\n".join(lines))):
                    return False
        return True


class Run:
    "A trace being executed"
    def __init__(self, trace):
        self.trace, self.noter, self.count, self.within = trace, None, 0, False
        self.models, self.current = {}, None

    def hook(self, _):
        "In a user's process_result"
        from gpkit.exceptions import PrimalInfeasible
        from dst.world import W
        if not self.noter or self.within:
            return
        self.count += 1
        if self.count != self.noter["n"]:
            return
        what = self.noter["what"]
        W.fired("user:"+what)
        if what == "boom":
            raise KeyError("sim: user's code")
        if what == "interrupt":
            raise KeyboardInterrupt("sim: in user's code")
        if what == "infeasible":
            raise PrimalInfeasible("sim: the user's")
        self.within = True
        try:
            self.solve_again()
        finally:
            self.within = False

    def solve_again(self):
        "Another solve of the same constraints, with other answers"
        from dst import ops, sess
        from dst.world import W

        def tamper(out, _):
            out["primal"] = out["primal"] + .03
            return out
        kept = W.opfaults
        W.opfaults = {}
        m = self.models[self.current]
        try:
            if self.trace["sp"]:
                sess.call(m.localsolve, verbosity=0)
            else:
                prog = sess.call(m.gp)
                res = sess.call(prog[1].solve, ops.custom_solver(
                    "again", tamper), verbosity=0) if prog[0] == "ok" else prog
                if res[0] == "ok":
                    sess.call(m.process_result, res[1])
        finally:
            W.opfaults = kept


def tampering(nudge):
    "What a nudged solver answers"
    import numpy as np

    def tamper(out, _):
        from dst.world import W
        W.fired("nudged")
        out = dict(out)
        x = np.ravel(out["primal"])
        out["primal"] = x + np.resize(nudge["x"], x.shape)
        if "la" in out:
            la = np.ravel(out["la"])
            out["la"] = la*np.resize(nudge["la"], la.shape)
        return out
    return tamper


def execute(trace):
    "A session of solves, each solution judged when made and at the end"
    from gpkit import Model
    from dst import ops, sess
    from dst.world import W
    run = Run(trace)
    sets = Sets(trace, run.hook)
    B = gen.build(trace["spec"], group=sets.make)
    shared = Model(B.m.cost**2 if not trace["sp"] else 2*B.m.cost,
                   [B.m])
    run.models = {"m": B.m, "s": shared}
    if any(isinstance(k, dict) for n in trace["tree"] if isinstance(n, dict)
           for k in n["kids"]):
        W.probe("nested")
    kept = []
    for op in trace["ops"]:
        m = run.models[op["on"]]
        if op["op"] == "set":
            for model in run.models.values():
                model.substitutions[sess.key(B, op["i"])] = op["v"]
            continue
        if op["on"] == "s":
            W.probe("shared")
        perform(op, m, sets, run, kept, ops, sess, W)
    for judge, sol, process, text in kept:
        W.probe("kept")
        judge.what += ", at the end"
        if judge.solution(sol, process):
            W.check(sol.table(tables=["warnings"]) == text, "kept-text",
                    "%s: prints %s, did print %s" % (
                        judge.what, sol.table(tables=["warnings"]), text))


def perform(op, m, sets, run, kept, ops, sess, W):
    "One operation"
    trace = run.trace
    solver = ops.custom_solver("sim", tampering(op["nudge"])) \
        if op["nudge"] else None
    run.noter, run.count, run.current = op["noter"], 0, op["on"]
    before = m.solution
    key = sess.key(sets.B, op["i"]) if op["op"] == "sweep" else None
    kw = {}
    if not op["process"]:
        kw["process_result"] = False
    old = None
    if key is not None:
        W.probe("sweep")
        old = m.substitutions[key]
        m.substitutions[key] = ("sweep", op["vals"])
        kw["skipsweepfailures"] = op["skip"]
    fired0 = sum(W.faults.get(f, 0) for f in FAULTS
                 if f not in ("nudged", "user:solves"))
    W.begin_op(op["faults"])
    with sess.quiet_stdout():
        solve = m.localsolve if trace["sp"] else m.solve
        if trace["sp"]:
            got = sess.call(solve, verbosity=op["verbosity"], **kw)
        else:
            got = sess.call(solve, solver, verbosity=op["verbosity"], **kw)
    W.end_op()
    run.noter = None
    if key is not None:
        m.substitutions[key] = old
    fired = sum(W.faults.get(f, 0) for f in FAULTS
                if f not in ("nudged", "user:solves")) - fired0
    what = "%s of %s%s" % (op["op"], op["on"],
                           ", nudged" if op["nudge"] else "")
    W.state(op["op"], got[0], fired, op["noter"] and op["noter"]["what"],
            op["nudge"] is not None, [n["kind"] for n in trace["tree"]
                                      if isinstance(n, dict)])
    W.ev(op["op"], op["on"], got[0] if got[0] == "ok"
         else sess.excname(got[1]))
    judge = Judge(sets, what)
    if got[0] != "ok":
        W.check(m.solution is before, "kept-solution",
                "%s failed, but changed the model's solution" % what)
        if isinstance(got[1], RuntimeWarning) and "is not loose" in str(got[1]):
            W.probe("raised")
            prog = m.program[-1] if isinstance(m.program, list) else m.program
            res = sess.call(lambda: prog.result)
            if res[0] != "ok":
                return   # raised by the debug of a verbose solve
            _, raised = judge.expect(res[1])
            W.check(raised, "spurious-raise", "%s: %s" % (what, got[1]))
        elif not fired and not op["nudge"]:
            W.check(isinstance(got[1], RuntimeWarning) or
                    trace["bounded"] or "limit" in str(trace["spec"]),
                    "spurious-failure", "%s: %s" % (what, sess.short(got[1])))
        return
    sol = got[1]
    if op["op"] == "sweep" and len(sol) < len(op["vals"]):
        W.probe("point-skipped")
    if "Relax" in str(sorted(map(str, sol["variables"]))):
        return     # a verbose solve's debug
    if judge.solution(sol, op["process"]):
        kept.append((judge, sol, op["process"],
                     sol.table(tables=["warnings"])))
