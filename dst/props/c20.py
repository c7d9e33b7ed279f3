"""C20: every name and key means exactly its variables."""
import contextlib
import math
import pickle

LEVEL = "exploration"
TECHNIQUE = ("simulated histories of setting, deleting, updating, copying, "
             "pickling and looking up constants and solutions by variables, "
             "keys, elements and names in models within models, with refused "
             "and partly refused operations and with solves that fail or are "
             "interrupted; after each step every dictionary alive is compared "
             "to a plain dictionary of (variable, element)")
TIERS = {"quick": {"runs": 4000, "budget": 40, "minruns": 200, "shrink": 40},
         "thorough": {"runs": 150000, "budget": 900, "minruns": 400,
                      "shrink": 120}}
RULE = ("each run declares 3-8 variables, many of the same name, in 1-4 "
        "lineages, groups them into models and models of these, and performs "
        "8-24 operations on their dictionaries; non-trivial: an operation was "
        "refused or a solve failed, and at least 12 dictionaries were judged after it")
REAL = ["gpkit (all of it)", "cvxopt solver", "pint"]
STUB = ["clock", "stdout", "faults in front of cvxopt"]
STATE_MEASURE = "(operation, form of key, form of value, outcome)"
SFAULTS = ["boom", "unknown", "valueerror", "interrupt"]
FAULTS = ["refused:units", "refused:absent", "refused:ambiguous",
          "refused:unknown"] + ["solver:"+f for f in SFAULTS]
PROBES = ["looked-up", "ambiguous", "element", "partial-vector", "composite",
          "copied", "pickled", "solved", "updated", "deleted", "by-name",
          "model-lookup", "set-as-nan", "converted", "written"]
ASSUMPTIONS = ["arrays hold single precision numbers when broadcast"]

# unit: (alternatives, in units of the first)
UNITS = {None: [(None, 1.)], "m": [("m", 1.), ("cm", .01), ("ft", .3048)],
         "s": [("s", 1.), ("min", 60.)], "kg": [("kg", 1.), ("g", .001)]}
NAMES = ["x", "y", "z", "xx"]


def generate(rng, tier):
    "A run's trace"
    scopes = [rng.choice([[], ["A"], ["A"], ["B"], ["A", "B"], ["B", "A"]])
              for _ in range(rng.randint(1, 4))]
    V, taken = [], set()
    for _ in range(rng.randint(3, 8)):
        s, name = rng.randrange(len(scopes)), rng.choice(NAMES)
        if ((s, name) if scopes[s] else name) in taken:
            continue
        taken.add((s, name) if scopes[s] else name)
        d = rng.choice([None, None, [1], [2], [2], [3], [2, 2]])
        size = 1
        for n in d or []:
            size *= n
        V.append({"n": name, "s": s, "u": rng.choice(list(UNITS)), "d": d,
                  "v": [gen_num(rng) for _ in range(size)]
                  if rng.random() < .5 else None,
                  "el": sorted(rng.sample(range(size),
                                          rng.randint(1, size)))
                  if rng.random() < .4 else list(range(size))})
    nleaf = rng.randint(1, 3)
    models = [{"vars": [i for i in range(len(V)) if i % nleaf == k],
               "parts": []} for k in range(nleaf)]
    models = [m for m in models if m["vars"]]
    leaves = len(models)
    for _ in range(rng.choice([0, 1, 1, 2])):
        models.append({"vars": [], "parts": rng.sample(
            range(len(models)), rng.randint(1, min(3, len(models))))})
    ops = []
    for _ in range(rng.randint(8, 24)):
        ops.append(gen_op(rng, V))
    return {"scopes": scopes, "vars": V, "models": models, "ops": ops,
            "leaves": leaves}


def gen_num(rng):
    return float("%.3g" % rng.uniform(.2, 4))


def gen_op(rng, V):
    "An operation"
    k = rng.choice(["set"]*6+["del"]*3+["write", "write",
                                        "update", "copy", "copy", "pickle",
                                        "solve", "solve", "call"])
    op = {"k": k, "t": rng.randrange(1000), "seed": rng.randrange(1000)}
    if k in ("set", "del", "write"):
        op["key"] = gen_key(rng, V)
    if k in ("set", "write"):
        op["val"] = gen_val(rng)
    elif k == "update":
        op["items"] = [[gen_key(rng, V), gen_val(rng)]
                       for _ in range(rng.randint(1, 4))]
        if rng.random() < .3:
            op["of"] = rng.randrange(1000)
    elif k == "solve":
        op["faults"] = {"0": rng.choice(SFAULTS)} if rng.random() < .35 else {}
    return op


def gen_key(rng, V):
    "How a variable is named"
    return [rng.choice(["var", "key", "name", "full", "elem", "elemkey",
                        "elemname", "unknown"] if rng.random() < .9
                       else ["name"]),
            rng.randrange(len(V)), rng.randrange(1000)]


def gen_val(rng):
    "What a variable is set to"
    return {"v": [gen_num(rng) for _ in range(4)],
            "form": rng.choice(["float", "float", "int", "qty", "list", "np",
                                "np", "npqty", "nan", "units"]),
            "alt": rng.randrange(1000)}


# ---------------------------------------------------------------------------
class Shelf:
    "A dictionary, and what it should hold"
    def __init__(self, d, ref, m=None, frozen=False):
        self.d, self.ref, self.m, self.frozen = d, ref, m, frozen


class Run:
    "The state of a run"
    def __init__(self, trace):
        import numpy as np
        import gpkit
        self.np, self.gp, self.trace = np, gpkit, trace
        self.V, self.vars, self.vids = trace["vars"], [], {}
        self.models, self.used, self.shelves = [], [], []
        self.lookups, self.counts = 0, {}
        prefix = {}
        for s, names in enumerate(trace["scopes"]):
            with contextlib.ExitStack() as envs:
                for n in names:
                    envs.enter_context(gpkit.NamedVariables(n))
                for i, v in enumerate(self.V):
                    if v["s"] == s:
                        prefix[i] = ".".join(names)
                        self.vids[i] = self.declare(v)
        self.vars = [self.vids[i] for i in range(len(self.V))]
        self.prefix = [prefix[i] for i in range(len(self.V))]
        self.idof = {}
        for i, x in enumerate(self.vars):
            self.idof[x.key] = (i, None)
            if self.V[i]["d"]:
                for e in self.elements(i):
                    self.idof[x[e].key] = (i, e)
        for k, spec in enumerate(trace["models"]):
            self.build(k, spec)

    def declare(self, v):
        gp, np = self.gp, self.np
        args = [v["n"]]
        if v["v"]:
            args.append(np.array(v["v"]).reshape(v["d"]) if v["d"]
                        else v["v"][0])
        if v["u"]:
            args.append(v["u"])
        if v["d"]:
            return gp.VectorVariable(tuple(v["d"]), *args)
        return gp.Variable(*args)

    def elements(self, i):
        "All indices of a variable, None if it is a scalar"
        d = self.V[i]["d"]
        return list(self.np.ndindex(*d)) if d else [None]

    def one(self, i):
        return self.gp.units(self.V[i]["u"]) if self.V[i]["u"] else 1.

    def build(self, k, spec):
        "A model, and what its substitutions should be"
        gp = self.gp
        used, ref, cons = set(), {}, []
        t = gp.Variable("t%i" % k)
        for i in spec["vars"]:
            els = self.elements(i)
            for j in self.V[i]["el"]:
                e = els[j]
                x = self.vars[i] if e is None else self.vars[i][e]
                used.add((i, e))
                cons += [x >= .1*self.one(i), t >= x/self.one(i)]
                if self.V[i]["v"]:
                    ref[(i, e)] = self.V[i]["v"][j]
        cost = t
        cons += [t >= .001]
        for p in spec["parts"]:
            if not isinstance(p, int) or p >= len(self.models):
                continue
            cons.append(self.models[p])
            used |= self.used[p]
            cost = cost*self.models[p].cost
            ref.update(self.model_shelf(p).ref)
        for i, e in used:
            x = self.vars[i] if e is None else self.vars[i][e]
            cost = cost*(x/self.one(i))**.1
        m = gp.Model(cost, cons)
        self.models.append(m)
        self.used.append(used)
        self.shelves.append(Shelf(m.substitutions, ref, k))

    def model_shelf(self, k):
        return [s for s in self.shelves if s.m == k][0]

    # -- names ---------------------------------------------------------------
    def full(self, i):
        return self.prefix[i] + "." * bool(self.prefix[i]) + self.V[i]["n"]

    def elname(self, i, e):
        return "%s[%s]" % (self.full(i), ",".join(map(str, e)))

    def meant(self, text, among):
        """-> {(variable, element)} of those among which a text names

        vectors of which any element is among these: (variable, None)"""
        out = set()
        for i, e in among:
            if text in (self.V[i]["n"], self.full(i)):
                out.add((i, None))
            elif e is not None and text == self.elname(i, e):
                out.add((i, e))
        return out

    def key(self, spec):
        "-> what is used as a key, the (variable, element) it is or a text"
        form, i, n = spec
        i = i % len(self.V)
        x, els = self.vars[i], self.elements(i)
        if form.startswith("elem") and els != [None]:
            e = els[n % len(els)]
            if form == "elemname":
                return self.elname(i, e), None
            return (x[e] if form == "elem" else x[e].key), (i, e)
        if form in ("name", "elemname"):
            return self.V[i]["n"], None
        if form == "full":
            return self.full(i), None
        if form == "unknown":
            return ["nosuch", self.full(i)+"q", "A.nosuch",
                    self.full(i)+"[9]"][n % 4], None
        return (x.key if form == "key" or n % 2 else x), (i, None)

    def targets(self, shelf, text):
        "What a text means in a dictionary"
        if shelf.m is not None:
            return self.meant(text, self.used[shelf.m])
        return {(i, e) for i, e in self.meant(text, set(shelf.ref))
                if e is None}

    def value(self, val, i, e):
        "-> value to set, {element: number} in the variable's unit, refusal"
        np, V = self.np, self.V[i]
        form, vs = val["form"], val["v"]
        alts = UNITS[V["u"]]
        alt, size = alts[val["alt"] % len(alts)]
        els = [e] if (e is not None or not V["d"]) else self.elements(i)
        n = len(els)
        array = e is None and V["d"]
        nums = [vs[j % len(vs)] for j in range(n)]
        if form == "units":
            bad = self.gp.units("m^5")
            return (bad*2 if val["alt"] % 2 else bad), None, "units"
        if form == "int":
            return 3, dict.fromkeys(els, 3.), None
        if form in ("list", "np", "npqty", "nan") and array:
            arr = np.array(nums).reshape(V["d"])
            if form == "list":
                if len(V["d"]) > 1:
                    return arr, dict(zip(els, nums)), None
                return list(nums), dict(zip(els, nums)), None
            if form == "nan" and n > 1:
                j = val["alt"] % n
                arr[els[j]] = np.nan
                want = dict(zip(els, nums))
                want.pop(els[j])
                return arr, want, None
            if form == "npqty" and alt:
                q = self.gp.ureg.Quantity(arr, alt)
                return q, {a: b*size for a, b in zip(els, nums)}, None
            return arr, dict(zip(els, nums)), None
        if form in ("qty", "npqty") and alt:
            q = vs[0]*self.gp.units(alt) if val["alt"] % 2 else \
                self.gp.ureg.Quantity(vs[0], alt)
            return q, dict.fromkeys(els, vs[0]*size), None
        return vs[0], dict.fromkeys(els, vs[0]), None


def near(a, b):
    return abs(a-b) <= 1e-6*abs(b)


def number(x):
    return float(getattr(x, "magnitude", x))


def holds(run, shelf):
    "What a dictionary holds, element by element; nans are not there"
    import numpy as np
    out = {}
    for k, v in dict.items(shelf.d):
        i, e = run.idof.get(k, (None, None))
        if i is None:
            if str(k).startswith("t"):    # the auxiliary variables
                continue
            return "an unknown key %r" % (k,)
        if e is not None:
            return "a key of its own for the element %s" % k
        if run.V[i]["d"]:
            v = np.asarray(v)
            if v.shape != tuple(run.V[i]["d"]):
                return "%s with shape %s" % (k, v.shape)
            for el in run.elements(i):
                if not math.isnan(float(v[el])):
                    out[(i, el)] = float(v[el])
        else:
            out[(i, None)] = number(v)
    return out


def wrong(run, shelf):
    "How a dictionary differs from what it should hold"
    have = holds(run, shelf)
    if isinstance(have, str):
        return "it has " + have
    for k in set(have) | set(shelf.ref):
        a, b = have.get(k), shelf.ref.get(k)
        if a is None or b is None or not (
                near(a, b) or shelf.frozen and abs(a-b) < 1e-3*b):
            i, e = k
            return "%s is %r, should be %r" % (
                run.elname(i, e) if e else run.full(i), a, b)
    return None


def lookup(run, shelf, spec):
    "Judges all ways of looking one key up; -> complaint or None"
    # pylint: disable=too-many-return-statements,too-many-branches
    from dst import sess
    from dst.world import W
    import numpy as np
    key, vid = run.key(spec)
    ref, d = shelf.ref, shelf.d
    named = {vid} if vid else run.targets(shelf, key)
    run.lookups += 1
    if vid is None:
        W.probe("by-name")
    got, has = sess.call(lambda: d[key]), sess.call(lambda: key in d)
    dflt = sess.call(d.get, key, "default")
    def there(i, e):
        return [el for el in ([e] if e is not None else run.elements(i))
                if (i, el) in ref]
    def same(x, i, e):
        "Is this the variable's value?"
        if e is not None or not run.V[i]["d"]:
            want = ref.get((i, e))
            if want is None:
                return bool(np.isnan(number(x)))
            return near(number(x), want) or shelf.frozen and \
                abs(number(x)-want) < 1e-3*want
        x = np.asarray(getattr(x, "magnitude", x))
        if x.shape != tuple(run.V[i]["d"]):
            return False
        return all(same(x[el], i, el) for el in run.elements(i))
    if len(named) > 1:
        W.probe("ambiguous")
        if shelf.m is not None:
            return None if got[0] != "ok" and isinstance(
                got[1], ValueError) else "%s means several, is %r" % (
                    key, got[1])
        if got[0] != "ok" or not isinstance(got[1], dict) or {
                run.idof[k] for k in got[1]} != named:
            return "%s means %s, is %r" % (key, sorted(named), got[1])
        for k, x in got[1].items():
            if not same(x, *run.idof[k]):
                return "%s's %s is %r" % (key, k, x)
        return None
    (i, e), = named or [(None, None)]
    present = there(i, e) if named else []
    if e is not None:
        W.probe("element")
    if present and e is None and len(present) < len(run.elements(i)):
        W.probe("partial-vector")
    if not present:
        if got[0] == "ok" and not (named and run.V[i]["d"]
                                   and np.isnan(np.asarray(got[1])).all()):
            return "%s isn't there, but is %r" % (key, got[1])
        if got[0] != "ok" and not isinstance(got[1], KeyError):
            return "%s isn't there: %r" % (key, got[1])
        if has[0] != "ok" or has[1]:
            return "%s isn't there, but is said to be: %r" % (key, has)
        if dflt != ("ok", "default"):
            return "%s isn't there, but .get() gives %r" % (key, dflt)
        return None
    if has[0] != "ok" or not has[1]:
        return "%s is there, but is said not to be: %r" % (key, has)
    for x in (got, dflt):
        if x[0] != "ok":
            return "%s is there, but %s" % (key, sess.short(x[1]))
        if not same(x[1], i, e):
            return "%s is %r, should be %s" % (
                key, x[1], [ref.get((i, el)) for el in run.elements(i)])
    q = sess.call(lambda: d(key))
    if q[0] != "ok":
        return "%s with units: %s" % (key, sess.short(q[1]))
    unit = run.gp.ureg.Quantity(1, run.V[i]["u"] or "dimensionless").units
    if q[1].units != unit or not same(q[1].magnitude, i, e):
        return "%s with units is %s" % (key, q[1])
    return None


def model_lookup(run, k, spec):
    "Judges a model's variables by name"
    from dst import sess
    from dst.world import W
    key, vid = run.key(spec)
    m = run.models[k]
    if vid is not None:
        return None
    named = run.meant(key, run.used[k])
    W.probe("model-lookup")
    keys = {(i, e) for i, e in run.used[k]
            if (i, None) in named or (i, e) in named}
    got = sess.call(m.variables_byname, key)
    if got[0] == "ok" or keys:
        if got[0] != "ok" or [run.idof.get(v.key) for v in got[1]] and \
                {run.idof.get(v.key) for v in got[1]} != keys or \
                len(got[1]) != len(keys):
            return "the variables named %s are %r, should be %s" % (
                key, got[1], sorted(keys, key=str))
    got = sess.call(lambda: m[key])
    if len(named) != 1:
        want = ValueError if named else KeyError
        return None if got[0] != "ok" and isinstance(got[1], want) else \
            "%s means %s, the model has %r" % (key, sorted(named, key=str),
                                               got[1])
    (i, e), = named
    if e is not None:
        return None
    if got[0] != "ok":
        return "the model's %s: %s" % (key, sess.short(got[1]))
    if run.idof.get(got[1].key) != (i, None):
        return "the model's %s is %r" % (key, got[1])
    if run.V[i]["d"]:
        for el in run.elements(i):
            x = got[1][el]
            if ((i, el) in keys) != (run.idof.get(getattr(x, "key", None))
                                     == (i, el)):
                return "the model's %s has %r at %s" % (key, x, el)
    return None


def put(run, shelf, spec, val, op):
    "Sets one key; -> (thing to call, effect, refusal)"
    key, vid = run.key(spec)
    if vid is None:
        named = run.targets(shelf, key)
        if shelf.m is None:
            return None       # would make a new, nameless entry
        if not named:
            return key, 1., None, "unknown"
        if len(named) > 1:
            return key, 1., None, "ambiguous"
        vid, = named
    i, e = vid
    value, want, refusal = run.value(val, i, e)
    return key, value, want and {(i, el): x for el, x in want.items()}, refusal


def judge_refusal(run, what, got, refusal):
    "Was it refused if and only if it should have been?"
    from dst import sess
    from dst.world import W
    W.state(what[0], what[1], what[2], refusal, got[0])
    if got[0] != "ok" and not isinstance(got[1], Exception):
        raise got[1]
    if refusal:
        if got[0] == "ok":
            W.violate("not-refused", "%s (%s) was not refused" % (what,
                                                                  refusal))
            return False
        W.fired("refused:"+refusal)
        good = {"units": Exception, "unknown": KeyError, "absent": KeyError,
                "ambiguous": (ValueError, KeyError)}[refusal]
        return W.check(isinstance(got[1], good), "refused-as",
                       lambda: "%s (%s): %s" % (what, refusal,
                                                sess.short(got[1])))
    return W.check(got[0] == "ok", "refused", lambda: "%s: %s" % (
        what, sess.short(got[1])))


def perform(run, op):
    "One operation"
    # pylint: disable=too-many-branches,too-many-return-statements,too-many-locals
    from gpkit.keydict import KeyDict
    from dst import sess
    from dst.world import W
    k = op["k"]
    live = [s for s in run.shelves if not s.frozen]
    shelf = live[op["t"] % len(live)]
    if k == "set":
        args = put(run, shelf, op["key"], op["val"], op)
        if args is None:
            return None
        key, value, want, refusal = args
        got = sess.call(shelf.d.__setitem__, key, value)
        if op["val"]["form"] in ("qty", "npqty"):
            W.probe("converted")
        if hasattr(value, "dtype") and not hasattr(value, "units"):
            value *= 7        # it's the user's own array
        if judge_refusal(run, ("set", op["key"][0], op["val"]["form"],
                               str(key)), got, refusal) and want:
            if op["val"]["form"] == "nan":
                W.probe("set-as-nan")
            shelf.ref.update(want)
        return got[0]
    if k == "write":
        shelf = run.shelves[op["t"] % len(run.shelves)]
        key, vid = run.key(op["key"])
        named = {vid} if vid else run.targets(shelf, key)
        els = sorted((i, e) for i, e in shelf.ref
                     if e is not None and named == {(i, None)})
        if not els:
            return None
        i, e = els[op["seed"] % len(els)]
        got = sess.call(lambda: shelf.d[key])
        if got[0] != "ok" or not hasattr(got[1], "dtype"):
            return None       # judged in lookup
        got[1][e] = op["val"]["v"][0]
        shelf.ref[i, e] = op["val"]["v"][0]
        W.probe("written")
        return "ok"
    if k == "del":
        key, vid = run.key(op["key"])
        named = {vid} if vid else run.targets(shelf, key) | {
            x for x in run.meant(key, set(shelf.ref)) if x[1] is None}
        gone = {(i, e) for i, e in shelf.ref
                if (i, None) in named or (i, e) in named}
        got = sess.call(shelf.d.__delitem__, key)
        if len(named) > 1:
            if got[0] == "ok":
                for x in gone:
                    del shelf.ref[x]
            return got[0]
        if got[0] == "ok" and not gone and any(
                e is not None and any(x[0] == i for x in shelf.ref)
                for i, e in named):
            return "ok"      # the vector is there
        if judge_refusal(run, ("del", op["key"][0], None, str(key)), got,
                         None if gone else "absent") and gone:
            W.probe("deleted")
            for x in gone:
                del shelf.ref[x]
        return got[0]
    if k == "update":
        if "of" in op:
            # (solutions hold values for auxiliary variables, too)
            other = live[op["of"] % len(live)]
            if other is shelf:
                return None
            got = sess.call(shelf.d.update, other.d)
            if judge_refusal(run, ("update", "of", None), got, None):
                W.probe("updated")
                shelf.ref.update({
                    x: y for x, y in other.ref.items()})
            return got[0]
        new, effect, refusal = {}, {}, None
        for spec, val in op["items"]:
            args = put(run, shelf, spec, val, op)
            if args is None or any(a is args[0] or str(a) == str(args[0])
                                   for a in new):
                continue
            if args[0] in new:
                continue      # a vector of length 1 and its element are equal
            new[args[0]] = args[1]
            if refusal is None:
                refusal = args[3]
                if not refusal:
                    effect.update(args[2])
        got = sess.call(shelf.d.update, new)
        if judge_refusal(run, ("update", len(new), None), got, refusal):
            W.probe("updated")
            shelf.ref.update(effect)   # up to what was refused
        return got[0]
    if k in ("copy", "pickle"):
        src = run.shelves[op["t"] % len(run.shelves)]
        if k == "copy":
            got = sess.call(KeyDict, src.d)
        else:
            got = sess.call(lambda: pickle.loads(pickle.dumps(
                src.d if src.m is None else KeyDict(src.d))))
        if got[0] != "ok":
            W.violate("refused", "%s: %s" % (k, sess.short(got[1])))
            return None
        W.probe("copied" if k == "copy" else "pickled")
        run.shelves.append(Shelf(got[1], dict(src.ref)))
        run.shelves[-1].frozen = src.frozen
        extra = [s for s in run.shelves if s.m is None]
        if len(extra) > 6:
            run.shelves.remove(extra[0])
        return "ok"
    if k == "solve":
        return solve(run, op)
    return None


def solve(run, op):
    "Solves a model; what the solution holds is looked up by everything"
    from dst import sess
    from dst.world import W
    k = op["t"] % len(run.models)
    m, shelf = run.models[k], run.model_shelf(k)
    if any(v < .1 for v in shelf.ref.values()):
        return None
    got = sess.call(m.solve, verbosity=0)
    W.state("solve", got[0], bool(op.get("faults")))
    if op.get("faults"):
        return got[0]
    if got[0] != "ok":
        if type(got[1]).__name__ in ("DualInfeasible", "UnknownInfeasible"):
            W.probe("solver-gave-up")    # values are not this property's
            return None
        W.violate("refused", "solving: %s" % sess.short(got[1]))
        return None
    W.probe("solved")
    consts = {x: y for x, y in shelf.ref.items() if x in run.used[k]}
    free = {x: .1 for x in run.used[k] if x not in consts}
    sol = got[1]
    run.shelves.append(Shelf(sol["variables"], dict(consts, **{}), frozen=True))
    run.shelves[-1].ref.update(free)
    run.shelves.append(Shelf(sol["constants"], consts, frozen=True))
    run.shelves.append(Shelf(sol["freevariables"], free, frozen=True))
    for x in list(consts)[:3]+list(free)[:3]:
        i, e = x
        g = run.vars[i] if e is None else run.vars[i][e]
        val, want = sess.call(sol, g), consts.get(x, free.get(x))
        unit = run.V[i]["u"] or "dimensionless"
        if val[0] != "ok":
            W.violate("refused", "a solution's %s: %s" % (
                g, sess.short(val[1])))
            return None
        x = val[1].to(unit) if hasattr(val[1], "to") else val[1]
        W.check(abs(number(x)-want) < 1e-3*want, "wrong-lookup",
                "a solution's %s is %s, should be %s %s" % (g, val[1], want,
                                                           unit))
    extra = [s for s in run.shelves if s.m is None]
    for s in extra[:-6]:
        run.shelves.remove(s)
    return "ok"


def execute(trace):
    "A history of dictionaries"
    import random
    from dst import sess
    from dst.world import W
    if not trace["vars"] or not trace["models"]:
        return
    run = Run(trace)
    if any(m["parts"] for m in trace["models"]):
        W.probe("composite")
    failed = False
    for n, op in enumerate([{"k": "start", "t": 0, "seed": 1}]
                           + trace["ops"]):
        faults0 = sum(W.faults.values())
        W.begin_op(op.get("faults"))
        with sess.quiet_stdout():
            got = sess.call(perform, run, op)
        W.end_op()
        if got[0] != "ok":
            raise got[1]
        failed = failed or sum(W.faults.values()) > faults0
        what = "%i:%s %s" % (n, op["k"], op.get("key", ""))
        W.ev(what, got[1])
        if W.violations:
            return
        rng = random.Random(op["seed"])
        for s, shelf in enumerate(run.shelves):
            bad = wrong(run, shelf)
            for _ in range(3):
                bad = bad or lookup(run, shelf, gen_key(rng, run.V))
            if not bad and shelf.m is not None:
                bad = model_lookup(run, shelf.m, gen_key(rng, run.V))
            if failed:
                W.probe("looked-up")
            if bad:
                W.violate("wrong-lookup", "after %s, dictionary %i (%s): %s"
                          % (what, s, "of model %i" % shelf.m
                             if shelf.m is not None else "a solution's"
                             if shelf.frozen else "a copy", bad))
                return


def nontrivial(trace, res):
    "A refusal or failure, and lookups after it"
    return res.get("probes", {}).get("looked-up", 0) >= 12
