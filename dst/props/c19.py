"""C19: expressions keep their meaning, whatever is done with or around them."""
import contextlib
import operator
import pickle
import re

LEVEL = "exploration"
TECHNIQUE = ("simulated histories of building, combining, substituting, "
             "converting, differentiating, approximating, constraining with, "
             "printing, pickling and solving with shared expressions, in "
             "seeded environments, with operations that are refused, solvers "
             "that fail or are interrupted and output that fails; after each "
             "step every expression alive is compared to an independent "
             "polynomial arithmetic in base units")
TIERS = {"quick": {"runs": 6000, "budget": 40, "minruns": 300, "shrink": 40},
         "thorough": {"runs": 200000, "budget": 900, "minruns": 600,
                      "shrink": 120}}
RULE = ("each run declares 3-6 scalar and vector variables in units, then "
        "performs 8-22 operations on them and on what earlier ones made; "
        "non-trivial: an operation failed or was refused and at least 6 "
        "expressions were compared after it")
REAL = ["gpkit (all of it)", "cvxopt solver", "pint"]
STUB = ["clock", "stdout", "faults in front of cvxopt"]
STATE_MEASURE = "(operation, kinds of its operands, environment, outcome)"
SFAULTS = ["boom", "unknown", "valueerror", "interrupt"]
REFUSALS = ["units", "divisor", "power", "signomial", "shape"]
FAULTS = ["refused:"+r for r in REFUSALS] + ["solver:"+f for f in SFAULTS] + [
    "stdout:epipe", "stdout:interrupt"]
PROBES = ["cancelled", "converted", "substituted", "evaluated", "derived",
          "approximated", "array", "constraint", "array-constraint",
          "dimensionless-unit", "rebuilt", "pickled", "solved", "text-read",
          "solution-called", "signomial", "zero", "shown", "as-cost",
          "looked-late"]
ASSUMPTIONS = ["what differs by less than a billionth of its terms is equal",
               "quantities are right operands, as pint decides what those on "
               "the left do"]

# unit: (size in base units, (length, mass, time))
UNITS = {None: (1., (0, 0, 0)), "m": (1., (1, 0, 0)), "cm": (.01, (1, 0, 0)),
         "km": (1000., (1, 0, 0)), "ft": (.3048, (1, 0, 0)),
         "s": (1., (0, 0, 1)), "min": (60., (0, 0, 1)),
         "kg": (1., (0, 1, 0)), "g": (.001, (0, 1, 0)),
         "N": (1., (1, 1, -2)), "m/s": (1., (1, 0, -1)),
         "km/hr": (1/3.6, (1, 0, -1)), "1/m": (1., (-1, 0, 0)),
         "m^2": (1., (2, 0, 0)), "cm^2": (1e-4, (2, 0, 0)),
         "km/m": (1000., (0, 0, 0)), "percent_": (.01, (0, 0, 0))}
UNITS.pop("percent_")
VUNITS = [None, None, "m", "cm", "ft", "s", "kg", "N", "m/s", "km/m"]
NUMS = [2, 3, .5, 1.5, 4, .25, 5, 10, .1, 7, 1]
MAXTERMS, MAXCOEFF = 24, 1e9


class Refuse(Exception):
    "The operation has no meaning"


class State:
    "Whether signomials are enabled where the reference computes"
    sig = False


def sameunits(a, b):
    return all(abs(x-y) < 1e-9 for x, y in zip(a, b))


class P:
    "A polynomial with real exponents: {exponents: coefficient}, in base units"
    __array_priority__ = 0

    def __init__(self, terms, dims, mass=None):
        self.terms, self.dims = terms, tuple(dims)
        self.mass = mass or {k: abs(c) for k, c in terms.items()}

    @staticmethod
    def num(c, unit=None):
        size, dims = UNITS[unit]
        return P({frozenset(): c*size}, dims)

    @property
    def zero(self):
        return all(abs(c) <= 1e-12*self.mass[k] for k, c in self.terms.items())

    @property
    def fuzzy(self):
        return any(abs(c) <= 1e-9*self.mass[k] for k, c in self.terms.items())

    @property
    def live(self):
        "The terms that did not cancel"
        return {k: c for k, c in self.terms.items()
                if abs(c) > 1e-9*self.mass[k]}

    @property
    def monomial(self):
        return len(self.live) == 1 and all(c > 0 for c in self.live.values())

    @property
    def ids(self):
        return {v for k in self.live for v, _ in k}

    def __add__(self, other):
        if getattr(other, "shape", None):
            return NotImplemented
        other = wrap(other)
        if other.zero:
            return self
        if self.zero:
            return other
        if not sameunits(self.dims, other.dims):
            raise Refuse("units")
        terms, mass = dict(self.terms), dict(self.mass)
        for k, c in other.terms.items():
            terms[k] = terms.get(k, 0.) + c
            mass[k] = mass.get(k, 0.) + other.mass[k]
        return P(terms, self.dims, mass)

    __radd__ = __add__

    def __mul__(self, other):
        if getattr(other, "shape", None):
            return NotImplemented
        other = wrap(other)
        terms, mass = {}, {}
        for k1, c1 in self.terms.items():
            for k2, c2 in other.terms.items():
                k = expsum(k1, k2)
                terms[k] = terms.get(k, 0.) + c1*c2
                mass[k] = mass.get(k, 0.) + self.mass[k1]*other.mass[k2]
        return P(terms, [a+b for a, b in zip(self.dims, other.dims)], mass)

    __rmul__ = __mul__

    def __neg__(self):
        return self*-1.

    def __sub__(self, other):
        if getattr(other, "shape", None):
            return NotImplemented
        if not State.sig:
            raise Refuse("signomial")
        return self + -wrap(other)

    def __rsub__(self, other):
        return wrap(other) - self

    def inverse(self, isnumber=False):
        live = self.live
        if len(live) != 1 or (not self.monomial and not isnumber):
            raise Refuse("divisor")
        (k, c), = live.items()
        return P({expscale(k, -1): 1/c}, [-d for d in self.dims])

    def __truediv__(self, other):
        if getattr(other, "shape", None):
            return NotImplemented
        return self*wrap(other).inverse(not isinstance(other, P)
                                        or getattr(other, "isnumber", False))

    def __rtruediv__(self, other):
        return wrap(other)*self.inverse()

    def __pow__(self, e):
        if self.monomial:
            (k, c), = self.live.items()
            return P({expscale(k, e): c**e}, [d*e for d in self.dims])
        if not isinstance(e, int) or e < 0:
            raise Refuse("power")
        out = P.num(1.)
        for _ in range(e):
            out = out*self
        return out

    def diff(self, v, vdims):
        terms = {}
        for k, c in self.terms.items():
            e = dict(k).get(v, 0.)
            if e:
                terms[expsum(k, frozenset([(v, -1.)]))] = c*e
        return P(terms or {frozenset(): 0.},
                 [a-b for a, b in zip(self.dims, vdims)])

    def sub(self, vals):
        terms, mass = {}, {}
        for k, c in self.terms.items():
            f = 1.
            for v, e in k:
                if v in vals:
                    f *= vals[v]**e
            k2 = frozenset((v, e) for v, e in k if v not in vals)
            terms[k2] = terms.get(k2, 0.) + c*f
            mass[k2] = mass.get(k2, 0.) + self.mass[k]*abs(f)
        return P(terms, self.dims, mass)


def expsum(k1, k2):
    out = dict(k1)
    for v, e in k2:
        out[v] = round(out.get(v, 0.)+e, 6)
    return frozenset((v, e) for v, e in out.items() if e)


def expscale(k, s):
    return frozenset((v, round(e*s, 6)) for v, e in k if e*s)


def wrap(x):
    if isinstance(x, P):
        return x
    p = P.num(float(x))
    p.isnumber = True
    return p


# ---------------------------------------------------------------------------
def gen_num(rng, units=True, sig=False):
    "A number, as a [kind, value, unit]"
    kind = rng.choice(["int", "float", "float", "np", "qty", "um"])
    val = rng.choice(NUMS)
    if kind == "int":
        val = max(1, int(val))
    if sig and rng.random() < .3:
        val = -val
    if rng.random() < .04:
        val = 0
    unit = rng.choice(list(UNITS)) if kind in ("qty", "um") else None
    if unit is None and kind in ("qty", "um"):
        kind = "float"
    return [kind, val, unit]


BINARY = ["add", "sub", "mul", "div"]


def generate(rng, tier):
    "A run's trace"
    V = []
    shared = rng.choice(VUNITS)
    for j in range(rng.randint(3, 6)):
        V.append({"n": "abcdefgh"[j]+"v"*(rng.random() < .3),
                  "u": shared if rng.random() < .5 else rng.choice(VUNITS),
                  "d": rng.choice([0, 0, 0, 2, 3, 3, 4])})
        if rng.random() < .3:
            V[-1]["l"] = rng.choice([["A"], ["B"], ["A", "B"]])
            if j and rng.random() < .6:
                V[-1]["n"] = V[rng.randrange(j)]["n"]
    ops = []
    for _ in range(rng.randint(8, 22)):
        ops.append(gen_op(rng, V))
    return {"vars": V, "ops": ops}


def gen_op(rng, V):
    r = rng.random
    sig = r() < .45
    op = {"sig": sig, "a": rng.randrange(10**6), "b": rng.randrange(10**6),
          "env": rng.choice([None]*8+["named", "vectorize"])}
    kind = rng.choice(["bin"]*9+["pow"]*2+["neg", "subst", "subst", "subst",
                                           "eval", "diff", "diff", "approx",
                                           "to", "parts", "agg", "agg",
                                           "index", "con", "con", "con",
                                           "model", "again", "pickle",
                                           "print", "aggmix"])
    op["k"] = kind
    if kind == "bin":
        op["f"] = rng.choice(["add", "add", "mul", "mul", "div", "sub"])
        if r() < .3:
            op["num"], op["left"] = gen_num(rng, sig=sig), r() < .4
            if op["left"] and op["num"][0] == "qty":
                op["num"][0] = "um"
        elif r() < .07:
            op["list"] = [rng.choice([0]+NUMS) for _ in range(3)]
            op["listform"] = rng.choice(["list", "np", "qty"])
            op["listunit"] = rng.choice(["m", "cm", "ft", "s"])
    elif kind == "pow":
        op["e"] = rng.choice([2, 2, 3, 0, 1, -1, .5, 1.5, -2, 2, -.5, 2.])
    elif kind in ("subst", "eval", "approx"):
        op["vals"] = {str(i): gen_value(rng, v) for i, v in enumerate(V)
                      if kind != "subst" or r() < .4}
        op["keep"] = r() < .3    # allows negative coefficients
    elif kind == "diff":
        op["v"], op["key"] = rng.randrange(10**6), r() < .4
    elif kind == "to":
        op["u"] = rng.choice(list(UNITS)[1:])
        op["any"] = r() < .2
    elif kind == "agg":
        op["f"] = rng.choice(["sum", "sum", "prod", "dot", "outer", "sum0",
                              "npsum"])
    elif kind == "aggmix":
        op["f"] = rng.choice(["sum", "prod"])
        op["els"] = [rng.choice([["node", rng.randrange(10**6)],
                                 ["num"]+gen_num(rng)])
                     for _ in range(rng.randint(1, 4))]
    elif kind == "index":
        op["i"] = rng.choice([0, -1, 1, "rev", "tail", "T", "head"])
    elif kind == "con":
        op["o"] = rng.choice(["<=", ">=", "==", "<="])
        if r() < .3:
            op["num"], op["left"] = gen_num(rng), False
    elif kind == "model":
        op["cons"] = [rng.randrange(10**6) for _ in range(rng.randint(0, 3))]
        op["how"] = rng.choice(["solve", "solve", "sweep", "debug",
                                "localsolve"])
        op["faults"] = {str(rng.randrange(2)): rng.choice(SFAULTS)} \
            if r() < .4 else {}
        op["cost"] = r() < .6
        op["fresh"] = r() < .6
        if r() < .5:
            op["show"] = rng.choice([None, "epipe", "interrupt"])
            op["fail_at"] = rng.randint(1, 2) if op["show"] else None
            op["show"] = op["show"] or "epipe"
    elif kind == "print":
        op["fail"] = rng.choice([None, "epipe", "interrupt"])
        op["fail_at"] = rng.randint(1, 4)
    return op


def gen_value(rng, v):
    "What a variable is substituted by"
    n = v["d"] or 1
    alt = [u for u in UNITS if u and UNITS[u][1] == UNITS[v["u"]][1]]
    vals = [float("%.3g" % rng.uniform(.2, 4)) for _ in range(n)]
    out = {"v": vals, "form": rng.choice(["float", "float", "qty", "um",
                                          "np", "elem"]),
           "u": rng.choice(alt) if alt else None,
           "key": rng.choice(["var", "name", "key"])}
    r = rng.random()
    if r < .04:
        out["bad"] = "units"
    elif r < .07 and v["d"]:
        out["bad"] = "shape"
    elif r < .14 and v["d"] and out["form"] == "float":
        out["nan"] = rng.randrange(n)
    elif r < .18:
        out["v"] = [0.]*n
    return out


# ---------------------------------------------------------------------------
class Node:
    "An expression alive, what it means, how it was made and how it looked"
    def __init__(self, kind, g, o, make=None, text=False):
        self.kind, self.g, self.o, self.make = kind, g, o, make
        self.text = text
        self.was = None


class Run:
    "The state of a run"
    def __init__(self, trace):
        import gpkit
        self.gp, self.trace, self.nodes = gpkit, trace, []
        self.ids, self.vkof = {}, {}
        self.vars = []
        self.compared_after = 0
        for i, v in enumerate(trace["vars"]):
            args = ([v["n"]] if v["u"] is None else [v["n"], v["u"]])
            size, dims = UNITS[v["u"]]
            text = v["u"] is None and not v.get("l") and not any(
                w["n"] == v["n"] for w in trace["vars"] if w is not v)
            with contextlib.ExitStack() as envs:
                for name in v.get("l", []):
                    envs.enter_context(gpkit.NamedVariables(name))
                g = gpkit.VectorVariable(v["d"], *args) if v["d"] \
                    else gpkit.Variable(*args)
            if not v["d"]:
                self.know(g.key, (i, 0), size, dims)
                o = P({frozenset([((i, 0), 1.)]): 1.}, dims)
                self.add(Node("nom", g, o, text=text))
            else:
                import numpy as np
                o = np.empty((v["d"],), dtype=object)
                for e in range(v["d"]):
                    self.know(g[e].key, (i, e), size, dims)
                    o[e] = P({frozenset([((i, e), 1.)]): 1.}, dims)
                self.add(Node("arr", g, o, text=text))
            self.vars.append(g)

    def know(self, vk, vid, size, dims):
        self.ids[vk] = (vid, size, dims)
        self.vkof[vid] = vk

    def add(self, node):
        self.nodes.append(node)
        if len(self.nodes) > 26:   # the oldest that isn't a variable
            del self.nodes[len(self.vars)]
        return node

    def pick(self, n, kinds=("nom", "arr")):
        of = [x for x in self.nodes if x.kind in kinds]
        return of[n % len(of)] if of else None

    # -- reading gpkit's expressions ----------------------------------------
    def units(self, q):
        "-> (size, dims) of a gpkit object's units"
        if q is None:
            return 1., (0, 0, 0)
        base = (1*q.units).to_base_units()
        d = dict(q.dimensionality)
        dims = (d.pop("[length]", 0), d.pop("[mass]", 0), d.pop("[time]", 0))
        assert not d, d
        return float(base.magnitude), dims

    def read(self, g):
        "-> P of a gpkit expression or number"
        from gpkit.small_classes import Numbers
        if isinstance(g, Numbers):
            q = g if hasattr(g, "magnitude") else None
            size, dims = self.units(q)
            return P({frozenset(): float(getattr(g, "magnitude", g))*size},
                     dims)
        size, dims = self.units(g.units)
        cs = getattr(g.cs, "magnitude", g.cs)
        terms = {}
        for exp, c in zip(g.exps, cs):
            k, f = [], size
            for vk, e in exp.items():
                vid, vsize, _ = self.ids[vk]
                k.append((vid, round(float(e), 6)))
                f /= vsize**float(e)
            k = frozenset((v, e) for v, e in k if e)
            terms[k] = terms.get(k, 0.) + float(c)*f
        return P(terms or {frozenset(): 0.}, dims)

    def wrong(self, g, o):
        "What is wrong with g, which should mean o"
        from gpkit.small_classes import Numbers
        if g is NotImplemented or not (isinstance(g, Numbers)
                                       or hasattr(g, "hmap")):
            return "is %r" % (g,)
        try:
            p = self.read(g)
        except KeyError as e:
            return "has an unknown variable %s" % e
        if o.zero:
            return None if all(abs(c) < 1e-9 for c in p.terms.values()) \
                else "is %s, should be zero" % (g,)
        if not sameunits(p.dims, o.dims):
            return "has dimensions %s, should have %s" % (p.dims, o.dims)
        for k in set(p.terms) | set(o.terms):
            want, got = o.terms.get(k, 0.), p.terms.get(k, 0.)
            tol = 1e-8*o.mass.get(k, 0.)
            if not abs(want-got) <= tol:
                return "has the term %s x %s, should have %s" % (
                    got, sorted(k), want)
        if not o.fuzzy and hasattr(g, "hmap"):
            from gpkit import Monomial, Posynomial, Signomial
            kind = (Monomial if o.monomial else Posynomial
                    if all(c > 0 for c in o.terms.values()) else Signomial)
            have = [c for c in (Monomial, Posynomial, Signomial)
                    if isinstance(g, c)][0]
            if have is not kind:
                return "is a %s, should be a %s" % (have.__name__,
                                                    kind.__name__)
            if {self.ids[vk][0] for vk in g.vks} != o.ids:
                return "has variables %s" % sorted(map(str, g.vks))
        return None

    def wrongnode(self, node):
        "What is wrong with a node"
        if node.kind == "nom":
            return self.wrong(node.g, node.o) or (
                hasattr(node.g, "hmap") and self.wrong(
                    node.g.sub({}, require_positive=False), node.o))
        if node.kind == "arr":
            if getattr(node.g, "shape", None) != node.o.shape:
                return "has shape %s, should have %s" % (
                    getattr(node.g, "shape", None), node.o.shape)
            for g, o in zip(node.g.flat, node.o.flat):
                bad = self.wrong(g, wrap(o))
                if bad:
                    return "has an element which " + bad
            return None
        return self.wrongcon(node)

    def wrongcon(self, node):
        "What is wrong with a constraint"
        cons = node.g if node.kind == "acon" else [node.g]
        cons = list(cons)
        if len(cons) != len(node.o):
            return "has %i elements, should have %i" % (len(cons),
                                                        len(node.o))
        for c, (small, big, oper) in zip(cons, node.o):
            if not hasattr(c, "left"):
                return "has an element %r" % (c,)
            left, right = c.left, c.right
            if c.oper == ">=":
                left, right = right, left
            if (c.oper == "=") != (oper == "=="):
                return "is %s" % c.oper
            if c.oper == "=" and self.wrong(left, small):
                left, right = right, left    # equality is symmetric
            bad = self.wrong(left, small)
            if bad:
                return "has a lesser side which " + bad
            bad = self.wrong(right, big)
            if bad:
                return "has a greater side which " + bad
        return None

    def looks(self, node, shift=0):
        """What a node looks like from the outside

        shift: which of its texts is written first; it mustn't matter"""
        g = node.g
        texts = [str, repr]
        if hasattr(g, "latex") and node.kind != "arr":
            texts.append(lambda g: g.latex())
        if hasattr(g, "str_without"):
            texts += [lambda g, x=x: g.str_without(x) for x in (
                ["units"], ["lineage"], ["units", "lineage"],
                ["unnecessary lineage"], ["lineage", "vec", "idx"])]
        out = [None]*len(texts)
        for n in range(len(texts)):
            n = (n+shift) % len(texts)
            out[n] = texts[n](g)
        if node.kind == "nom":
            out.append(hash(g))
            if hasattr(g, "hmap"):
                fresh = g.sub({}, require_positive=False)
                out.append(sorted((sorted((str(v), float(e))
                                          for v, e in exp.items()),
                                   float(getattr(c, "magnitude", c)))
                                  for exp, c in zip(fresh.exps, fresh.cs)))
                out.append(str(g.units))
        elif node.kind == "arr" and hasattr(g, "sub"):
            out.append(hash(g))
        return out


OPER = {"add": operator.add, "sub": operator.sub, "mul": operator.mul,
        "div": operator.truediv, "<=": operator.le, ">=": operator.ge,
        "==": operator.eq}


def number(run, num):
    "-> gpkit-side and reference-side of a number"
    import numpy as np
    kind, val, unit = num
    o = P.num(float(val), unit)
    if kind == "qty":
        g = val*run.gp.ureg(unit)
    elif kind == "um":
        if val == 0:
            return 0., P.num(0.)
        with run.gp.SignomialsEnabled():
            g = val*run.gp.units(unit)
    elif kind == "np":
        g = np.float64(val)
    elif kind == "int":
        g = int(val)
    else:
        g = float(val)
    o.isnumber = kind != "um"
    return g, o


def size_ok(o):
    "Whether the reference stays small enough"
    import numpy as np
    els = o.flat if isinstance(o, np.ndarray) else [o]
    els = [wrap(e) for e in els]
    return len(els) <= 16 and all(
        len(e.terms) <= MAXTERMS
        and all(1/MAXCOEFF < abs(c) < MAXCOEFF or not c
                for c in e.terms.values())
        and all(abs(x) <= 8 for k in e.terms for _, x in k) for e in els)


def elements(o):
    "The elements of a reference object"
    import numpy as np
    return [wrap(e) for e in o.flat] if isinstance(o, np.ndarray) else [wrap(o)]


class environment:
    "A gpkit environment around an operation"
    def __init__(self, run, op):
        gp = run.gp
        self.envs = []
        if op["sig"]:
            self.envs.append(gp.SignomialsEnabled())
        if op["env"] == "named":
            self.envs.append(gp.NamedVariables("Env"))
        elif op["env"] == "vectorize":
            self.envs.append(gp.Vectorize(2))

    def __enter__(self):
        for e in self.envs:
            e.__enter__()

    def __exit__(self, *exc):
        for e in reversed(self.envs):
            e.__exit__(*exc)


def execute(trace):
    "A history of expressions; each judged when made and after each step"
    from dst import sess
    from dst.world import W
    run = Run(trace)
    for node in run.nodes:
        node.was = run.looks(node)
    failed = False
    for n, op in enumerate(trace["ops"]):
        faults0 = sum(W.faults.values())
        W.begin_op(op.get("faults"))
        with sess.quiet_stdout():
            got = sess.call(perform, run, op)
        W.end_op()
        if got[0] != "ok":
            raise got[1]
        failed = failed or sum(W.faults.values()) > faults0
        what = "%i:%s %s" % (n, op["k"], op.get("f", op.get("how", "")))
        W.ev(what, str(getattr(got[1], "g", got[1])))
        for node in run.nodes:
            bad = run.wrongnode(node)
            if bad:
                W.violate("changed-meaning" if node.was else "wrong-result",
                          "%s: %s %s" % (what, node.g, bad))
                return
            looks = run.looks(node, op["a"])
            if node.was is None:
                node.was = looks
            elif looks != node.was:
                W.violate("changed-look", "%s: %s now looks like %s, did like"
                          " %s" % (what, node.g, looks, node.was))
                return
            if failed:
                W.probe("compared")
        if W.violations:
            return


def nontrivial(trace, res):
    "A failure, and comparisons after it"
    return res.get("probes", {}).get("compared", 0) >= 6


def attempt(run, op, fg, fo, what, text=False, maybe=False):
    """Performs an operation on both sides; -> node, None or 'refused'

    maybe: it may be refused although the reference knows what it means"""
    import numpy as np
    from dst import sess
    from dst.world import W
    State.sig = op["sig"]
    refusal = None
    try:
        o = fo()
        if not size_ok(o):
            return None
        els = elements(o)
        negative = any(c <= 0 for e in els for c in e.terms.values())
        if any(e.fuzzy or e.zero for e in els):
            maybe = maybe or not op["sig"]
        elif negative and not op["sig"] and not op.get("keep"):
            refusal = "signomial"
    except Refuse as e:
        refusal = str(e)
    except (ZeroDivisionError, ValueError):   # shapes don't fit
        return None
    with environment(run, op):
        got = sess.call(fg)
    W.state(op["k"], op.get("f"), op["sig"], op["env"], refusal, got[0], what)
    if got[0] != "ok":
        if not isinstance(got[1], Exception):
            raise got[1]
        if refusal:
            W.fired("refused:"+refusal)
            return "refused"
        W.check(maybe, "refused", "%s was refused: %s"
                % (describe(run, op), sess.short(got[1])))
        return "refused"
    g = got[1]
    if refusal:
        W.violate("not-refused", "%s (%s) gave %r" % (describe(run, op),
                                                      refusal, g))
        return None
    arr = isinstance(o, np.ndarray) and o.shape
    node = Node("arr" if arr else "nom", g,
                o if arr else wrap(o.item() if isinstance(o, np.ndarray)
                                   else o), (fg, op), text)
    bad = run.wrongnode(node)
    if bad:
        W.violate("wrong-result", "%s: %r %s" % (describe(run, op), g, bad))
        return None
    if arr:
        W.probe("array")
    if any(e.fuzzy for e in els):
        W.probe("zero" if all(e.zero for e in els) else "cancelled")
        return None    # residues of cancelled terms may remain
    if any(c < 0 for e in els for c in e.terms.values()):
        W.probe("signomial")
    if not hasattr(g, "hmap") and not arr:
        return None    # a number
    if text:
        readback(run, node)
    return run.add(node)


def describe(run, op):
    "An operation, with its operands"
    a, b = (run.pick(op[x]) for x in "ab")
    return "%s of %s, %s" % ({k: v for k, v in op.items()
                              if k not in ("a", "b", "env", "sig")},
                             str(a.g)[:200], str(b.g)[:200])


SUPERS = {"²": 2, "³": 3, "⁴": 4, "⁵": 5, "⁶": 6, "⁷": 7, "⁸": 8, "⁹": 9}


def readback(run, node):
    "An expression's text, evaluated as it reads, is the expression"
    import numpy as np
    from dst.world import W
    point, names = {}, {}
    for i, v in enumerate(run.trace["vars"]):
        vals = [.7+.31*i+.17*e for e in range(v["d"] or 1)]
        for e, x in enumerate(vals):
            point[(i, e)] = x
        names[v["n"]] = np.array(vals) if v["d"] else vals[0]
    text = node.g.str_without(["units"])
    if re.search(r"(^|[·/(\-])\[", text):
        return      # lists are not arrays
    expr = text.replace("·", "*").replace("^", "**")
    for s, n in SUPERS.items():
        expr = expr.replace(s, "**%i" % n)
    expr = re.sub(r"([a-z]\w*\[:\])\.(sum|prod)\(\)", r"\2(\1)", expr)
    names.update(sum=np.sum, prod=np.prod)
    if re.search(r"[^a-z0-9_.+\-*/()\[\]:, ]", expr.replace("e-", "")):
        return
    try:
        got = np.asarray(eval(expr, {"__builtins__": {
            "__import__": __import__}}, names), "d")  # pylint: disable=eval-used
    except Exception as e:  # pylint: disable=broad-except
        W.violate("unreadable-text", "%r: %s" % (text, e))
        return
    W.probe("text-read")
    for g, o in zip(np.broadcast_to(got, np.shape(node.o)).flat,
                    elements(node.o)):
        val = o.sub(point)
        want, = val.terms.values()
        mass, = val.mass.values()
        if not abs(want-g) <= 1e-7*mass:
            W.violate("wrong-text", "%r reads as %r, is %r" % (text, g, want))


def perform(run, op):
    "One operation"
    import numpy as np
    from dst import sess
    from dst.world import W
    k = op["k"]
    a, b, nom = run.pick(op["a"]), run.pick(op["b"]), run.pick(op["a"], ["nom"])
    if nom is None and k in ("diff", "to", "parts", "eval", "approx"):
        return None
    if k in ("bin", "con") and op.get("f") not in ("mul", "div") \
            and op["b"] % 10 < 6:
        dims = elements(a.o)[0].dims
        of = [n for n in run.nodes if n.kind in ("nom", "arr")
              and sameunits(elements(n.o)[0].dims, dims)]
        b = of[op["b"] % len(of)]
    if k == "bin":
        f = OPER[op["f"]]
        if op.get("list"):
            return with_list(run, op, a, f)
        text = a.text and op["env"] is None
        if "num" in op:
            gb, ob = number(run, op["num"])
            text = text and op["num"][0] in ("int", "float", "np")
            if op["left"]:
                pair = lambda x, y: (y, x)   # noqa
            else:
                pair = lambda x, y: (x, y)   # noqa
        else:
            gb, ob, text = b.g, b.o, text and b.text
            pair = lambda x, y: (x, y)       # noqa
        if op["f"] == "sub" and not op["sig"] and (
                a.kind == "arr" or isinstance(ob, np.ndarray)):
            return None   # arrays hold NotImplemented; see -x in the tests
        if "num" in op and op["num"][1] == 0 and op["f"] == "div":
            return None
        if op["num"][2] == "km/m" if "num" in op else False:
            W.probe("dimensionless-unit")
        oa = a.o
        return attempt(run, op, lambda: f(*pair(a.g, gb)),
                       lambda: f(*pair(oa, ob)), (a.kind, b.kind), text)
    if k == "pow":
        maxn = max(len(e.terms) for e in elements(a.o))
        if maxn > 5 and op["e"] == 3:
            return None
        return attempt(run, op, lambda: a.g**op["e"],
                       lambda: a.o**op["e"], a.kind,
                       a.text and not (a.kind == "arr" and
                                       isinstance(op["e"], float)),
                       maybe=not op["sig"] and any(
                           c < 0 for e in elements(a.o)
                           for c in e.terms.values()))
    if k == "neg":
        if not op["sig"]:
            return None
        return attempt(run, op, lambda: -a.g, lambda: -a.o, a.kind, a.text)
    if k in ("subst", "eval", "approx"):
        return substitute(run, op, a)
    if k == "diff":
        return derive(run, op, nom)
    if k == "to":
        return convert(run, op, nom)
    if k == "parts":
        return parts(run, op, nom)
    if k == "agg":
        return aggregate(run, op)
    if k == "aggmix":
        return aggregate_mix(run, op)
    if k == "index":
        return index(run, op)
    if k == "con":
        return constrain(run, op, a, b)
    if k == "model":
        return model(run, op)
    if k == "again":
        return again(run, op)
    if k == "pickle":
        g = pickle.loads(pickle.dumps(a.g))
        W.probe("pickled")
        node = Node(a.kind, g, a.o)
        W.check(not run.wrongnode(node), "wrong-result",
                "pickled, %s %s" % (a.g, run.wrongnode(node)))
        if a.kind == "nom":
            W.check(not a.g != g and hash(a.g) == hash(g), "not-equal",
                    lambda: "pickled, %r is not the same" % a.g)
        mine = run.looks(node, op["b"])
        W.check(a.was in (None, mine), "not-equal", lambda: "pickled, %s is %s"
                % (a.was, mine))
        return run.add(node)
    if k == "print":
        return output(run, op)
    raise ValueError(k)


def with_list(run, op, a, f):
    "Arithmetic with a list, an array or a quantity which is one"
    import numpy as np
    node = run.pick(op["a"], ["arr"])
    if node is None or node.o.ndim != 1 or (op["f"] == "sub"
                                            and not op["sig"]):
        return None
    vals = (op["list"]*2)[:node.o.shape[0]]
    if op["f"] == "div":
        vals = [v or 1 for v in vals]
    unit = op["listunit"] if op["listform"] == "qty" else None
    o = np.empty((len(vals),), dtype=object)
    for i, v in enumerate(vals):
        o[i] = P.num(float(v), unit)
        o[i].isnumber = True
    g = vals if op["listform"] == "list" else np.array(vals, "d")
    if unit:
        g = g*run.gp.ureg(unit)
    return attempt(run, op, lambda: f(node.g, g), lambda: f(node.o, o),
                   "list:"+op["listform"],
                   node.text and op["listform"] == "list",
                   maybe=0 in vals)


def substitutions(run, op):
    "-> gpkit's substitutions, reference values {id: base units}, refusal"
    import numpy as np
    gp, subs, vals, bad = run.gp, {}, {}, []
    for si, s in sorted(op["vals"].items()):
        i = int(si)
        if i >= len(run.vars):
            continue
        v, var = run.trace["vars"][i], run.vars[i]
        size = UNITS[v["u"]][0]
        nums = list(s["v"])
        if s["form"] in ("qty", "um") and s["u"]:
            scaled = [x*UNITS[s["u"]][0] for x in nums]
        else:
            scaled = [x*size for x in nums]
        for e, x in enumerate(scaled):
            if s.get("nan") != e:
                vals[(i, e)] = x
        if s.get("nan") is not None:
            nums[s["nan"]] = float("nan")
        payload = nums if v["d"] else nums[0]
        if s["form"] == "qty" and s["u"]:
            payload = (np.array(payload) if v["d"] else payload) \
                * gp.ureg(s["u"])
        elif s["form"] == "um" and s["u"] and any(nums):
            payload = [x*gp.units(s["u"]) for x in nums] if v["d"] \
                else payload*gp.units(s["u"])
        elif s["form"] == "np":
            payload = np.array(nums) if v["d"] else np.float64(payload)
        if s.get("bad") == "units":
            wrongunit = "kg" if UNITS[v["u"]][1] != (0, 1, 0) else "s"
            payload = 2*gp.ureg(wrongunit)
            bad.append(("units", i))
        elif s.get("bad") == "shape":
            payload = [1.]*(v["d"]+1)
            bad.append(("shape", i))
        if s["form"] == "elem" and v["d"] and not s.get("bad"):
            for e, x in enumerate(nums):
                subs[var[e].key if s["key"] == "key" else var[e]] = x
        else:
            if any(w["n"] == v["n"] for w in run.trace["vars"] if w is not v):
                s = dict(s, key="key")     # the name is of several
            key = {"var": var if not v["d"] else var.key, "name": v["n"],
                   "key": var.key}[s["key"]]
            subs[key] = payload
    return subs, vals, bad


def substitute(run, op, a):
    "Substitutions, evaluations and approximations"
    from dst.world import W
    import numpy as np
    k = op["k"]
    if k != "subst":
        a = run.pick(op["a"], ["nom"])
    if k == "approx":
        of = [n for n in run.nodes if n.kind == "nom"
              and len(n.o.terms) > 1]
        a = of[op["a"] % len(of)] if of else a
    subs, vals, bad = substitutions(run, op)
    present = {v for e in elements(a.o) for v in e.ids}
    relevant = [why for why, j in bad if any(i == j for i, _ in present)]
    if bad and k == "approx" or (bad and not relevant and k == "eval"):
        return None
    if any(not x for x in vals.values()) and (
            k == "approx" or any(e < 0 for p in elements(a.o)
                                 for t in p.terms for v, e in t
                                 if v in vals and not vals[v])):
        return None
    if k == "approx":
        return approximate(run, op, a, subs, vals)

    def reference():
        if relevant:
            raise Refuse(relevant[0])
        if isinstance(a.o, np.ndarray):
            out = np.empty(a.o.shape, dtype=object)
            for i, el in enumerate(a.o.flat):
                out.flat[i] = wrap(el).sub(vals)
            return out
        return a.o.sub(vals)
    given = dict(subs)
    if a.kind == "arr" and any(not hasattr(e, "sub") for e in a.g.flat):
        return None      # numbers have no .sub
    if a.kind == "arr":
        got = attempt(run, op, lambda: a.g.sub(subs, not op["keep"]),
                      reference, a.kind)
    else:
        got = attempt(run, op, lambda: a.g.sub(
            subs, require_positive=not op["keep"]), reference, a.kind)
    W.check(list(given) == list(subs), "changed-input",
            "substitution changed what was substituted")
    W.probe("substituted")
    if k == "eval" and isinstance(got, Node) and not got.o.ids:
        W.probe("evaluated")
        bad = run.wrong(got.g.value, got.o)
        W.check(not bad, "wrong-value", lambda: "%s at %s: %r %s" % (
            a.g, subs, got.g.value, bad))
    return got


def approximate(run, op, a, subs, vals):
    "A monomial approximation: the tangent at a point"
    from dst.world import W
    o = a.o
    at = o.sub(vals)
    if at.ids or at.fuzzy or not all(c > 0 for c in at.terms.values()):
        return None
    base, = at.terms.values()
    if o.monomial:
        ref = o
    else:
        exps, coeff = {}, base
        mass, = at.mass.values()
        if base < 1e-3*mass:
            return None
        for v in o.ids:
            e = sum(P({k: c}, o.dims).sub(vals).terms[frozenset()]
                    * dict(k).get(v, 0.) for k, c in o.terms.items())/base
            exps[v] = e
            coeff /= vals[v]**e
        if any(abs(e) < 1e-4 for e in exps.values()):
            return None
        ref = exps, coeff
    if o.monomial:
        return attempt(run, op, lambda: a.g.mono_approximation(subs),
                       lambda: ref, a.kind)
    from dst import sess
    with environment(run, op):
        got = sess.call(a.g.mono_approximation, subs)
    W.probe("approximated")
    if got[0] != "ok":
        W.violate("refused", "approximating %s about %s: %s" % (
            a.g, subs, sess.short(got[1])))
        return None
    g = got[1]
    exps, coeff = ref
    p = run.read(g)
    (k, c), = p.terms.items()
    k = dict(k)
    ok = sameunits(p.dims, o.dims) and set(k) == set(exps) and all(
        abs(k[v]-exps[v]) < 1e-5 for v in exps)
    W.check(ok, "wrong-result", "the approximation of %s about %s is %s, "
            "should have exponents %s" % (a.g, subs, g, exps))
    # its value where it was made, read with its own (rounded) exponents
    val = run.read(g.sub(subs))
    got, = val.terms.values()
    W.check(abs(got-base) <= 1e-7*base, "wrong-result",
            "the approximation of %s about %s is %s there, should be %s" % (
                a.g, subs, got, base))
    return g


def derive(run, op, a):
    "A derivative"
    from dst.world import W
    ids = sorted(run.vkof)
    vid = ids[op["v"] % len(ids)]
    if a.o.ids and op["v"] % 4:
        vid = sorted(a.o.ids)[op["v"] % len(a.o.ids)]
    var = run.vars[vid[0]]
    var = var[vid[1]] if getattr(var, "shape", None) else var
    dims = UNITS[run.trace["vars"][vid[0]]["u"]][1]
    W.probe("derived")
    return attempt(run, dict(op, keep=True),
                   lambda: a.g.diff(var.key if op["key"] else var),
                   lambda: a.o.diff(vid, dims), a.kind)


def convert(run, op, a):
    "Another unit"
    from dst.world import W
    units = [u for u in UNITS if u and sameunits(UNITS[u][1], a.o.dims)]
    unit = op["u"] if op["any"] or not units else \
        units[op["b"] % len(units)]

    def reference():
        if not sameunits(UNITS[unit][1], a.o.dims):
            raise Refuse("units")
        return a.o
    got = attempt(run, op, lambda: a.g.to(unit), reference, a.kind)
    if isinstance(got, Node):
        W.probe("converted")
        size, _ = run.units(got.g.units)
        W.check(abs(size-UNITS[unit][0]) <= 1e-9*UNITS[unit][0],
                "wrong-units", "%s in %s has units %s" % (a.g, unit,
                                                          got.g.units))
    return got


def parts(run, op, a):
    "The positive and negative parts, and the terms, sum to the whole"
    from dst import sess
    from dst.world import W
    with environment(run, op):
        py, ny = a.g.posy_negy()
    pos = {k: c for k, c in a.o.terms.items() if c > 0}
    neg = {k: -c for k, c in a.o.terms.items() if c < 0}
    for g, terms in ((py, pos), (ny, neg)):
        bad = run.wrong(g, P(terms, a.o.dims) if terms else P.num(0.))
        W.check(not bad, "wrong-result", lambda: "a part of %s: %s %s" % (
            a.g, g, bad))
    if neg:
        return None
    with environment(run, op):
        got = sess.call(a.g.chop)
    if not W.check(got[0] == "ok" and len(got[1]) == len(a.o.terms),
                   "wrong-result", "chopping %s: %s" % (a.g, got[1])):
        return None
    for k, c in a.o.terms.items():
        bad = [run.wrong(m, P({k: c}, a.o.dims)) for m in got[1]]
        W.check(not all(bad), "wrong-result", "chopping %s gives %s"
                % (a.g, got[1]))
    return None


def aggregate(run, op):
    "Sums and products of arrays"
    import numpy as np
    a = run.pick(op["a"], ["arr"])
    b = run.pick(op["b"], ["arr"])
    if a is None:
        return None
    f = op["f"]
    signed = any(c < 0 for e in elements(a.o)+elements(b.o)
                 for c in e.terms.values()) and not op["sig"]
    zeros = any(e.zero for e in elements(a.o)+elements(b.o))
    if f == "sum":
        return attempt(run, op, a.g.sum, lambda: plus(a.o), f, a.text,
                       maybe=signed)
    if f == "npsum":
        return attempt(run, op, lambda: np.sum(a.g), lambda: plus(a.o), f,
                       False, maybe=signed or zeros)
    if f == "sum0":
        if a.o.ndim < 2:
            return None
        return attempt(run, op, lambda: a.g.sum(axis=0),
                       lambda: np.sum(a.o, axis=0), f, maybe=signed or zeros)
    if f == "prod":
        if a.o.size > 4:
            return None

        def prod():
            out = wrap(a.o.flat[0])
            for e in list(a.o.flat)[1:]:
                out = out*e
                if not size_ok(out):
                    return out
            return out
        return attempt(run, op, a.g.prod, prod, f, a.text,
                       maybe=signed or zeros)
    if f == "dot":
        if a.o.ndim != 1 or a.o.shape != b.o.shape:
            return None
        return attempt(run, op, lambda: a.g.dot(b.g), lambda: plus(a.o*b.o),
                       f, maybe=signed or zeros)
    if a.o.ndim != 1 or b.o.ndim != 1:
        return None
    return attempt(run, op, lambda: a.g.outer(b.g),
                   lambda: np.outer(a.o, b.o), f, maybe=signed or zeros)


def plus(arr):
    "The sum of a reference array"
    out = P.num(0.)
    for e in arr.flat:
        out = out + wrap(e)
    return out


def aggregate_mix(run, op):
    "The sum or product of an array of expressions and numbers"
    gs, os_ = [], []
    for el in op["els"]:
        if el[0] == "node":
            node = run.pick(el[1], ["nom"])
            if node is None:
                continue
            gs.append(node.g)
            os_.append(node.o)
        else:
            num = el[1:]
            if num[0] == "qty":
                num = ["um"]+num[1:]
            g, o = number(run, num)
            gs.append(g)
            os_.append(o)
    signed = any(c <= 0 for e in os_ for c in e.terms.values())
    if not any(hasattr(g, "hmap") for g in gs):
        return None

    def make():
        arr = run.gp.NomialArray(gs)
        return arr.sum() if op["f"] == "sum" else arr.prod()

    def reference():
        out = os_[0]
        for o in os_[1:]:
            out = out+o if op["f"] == "sum" else out*o
        return out
    if op["f"] == "sum" and all(o.zero for o in os_):
        return None
    return attempt(run, op, make, reference, "mix", maybe=signed
                   and (not op["sig"] and any(c < 0 for e in os_
                                              for c in e.terms.values())
                        or op["f"] == "prod"))


def index(run, op):
    "An element, slice or view"
    a = run.pick(op["a"], ["arr"])
    if a is None:
        return None
    i = op["i"]
    idx = {"rev": slice(None, None, -1), "tail": slice(1, None),
           "head": slice(None, 1)}.get(i, i)
    if i == "T":
        return attempt(run, dict(op, keep=True), lambda: a.g.T,
                       lambda: a.o.T, "T")
    if isinstance(idx, int) and not -a.o.shape[0] <= idx < a.o.shape[0]:
        return None
    if a.o.shape[0] == 1 and i == "tail":
        return None
    return attempt(run, dict(op, keep=True), lambda: a.g[idx],
                   lambda: a.o[idx], "index",
                   a.text and a.o.ndim == 1)


def constrain(run, op, a, b):
    "An inequality or equality"
    import numpy as np
    from dst import sess
    from dst.world import W
    f = OPER[op["o"]]
    if "num" in op:
        gb, ob = number(run, op["num"])
    else:
        gb, ob = b.g, b.o
    oa = a.o
    try:
        pa, pb = np.broadcast_arrays(np.array(oa, dtype=object),
                                     np.array(ob, dtype=object))
    except ValueError:
        return None
    arr = isinstance(oa, np.ndarray) or isinstance(ob, np.ndarray)
    triples, must, may = [], None, True
    for x, y in zip(pa.flat, pb.flat):
        x, y = wrap(x), wrap(y)
        if x.zero or y.zero:
            return None
        small, big = (x, y) if op["o"] != ">=" else (y, x)
        triples.append((small, big, op["o"]))
        if not sameunits(x.dims, y.dims):
            must = "units"
        easy = (big.monomial and (small.monomial if op["o"] == "==" else
                                  all(c > 0 for c in small.terms.values())))
        if easy and op["o"] != "==":
            easy = not set(small.terms) & set(big.terms)
        if easy and op["o"] == "==":
            easy = small.ids or big.ids
            easy = easy and set(small.terms) != set(big.terms)
        may = may and bool(easy)
    if op["o"] == "==" and not all(
            s.monomial and g.monomial for s, g, _ in triples):
        return None      # a comparison
    with environment(run, op):
        got = sess.call(f, a.g, gb)
    W.state("con", op["o"], arr, must, got[0], op["sig"])
    if got[0] != "ok" and not isinstance(got[1], Exception):
        raise got[1]
    if must:
        refused = got[0] != "ok" or (op["o"] == "==" and not (
            arr and bool(got[1])) and not hasattr(got[1], "left"))
        if op["o"] == "==" and arr and got[0] == "ok":
            refused = not bool(got[1])
        if W.check(refused, "not-refused", "%s %s %s gave %r" % (
                a.g, op["o"], gb, got[1])):
            W.fired("refused:"+must)
        return "refused"
    if got[0] != "ok":
        W.check(not may, "refused", "%s %s %s was refused: %s" % (
            a.g, op["o"], gb, sess.short(got[1])))
        return "refused"
    if not may and not hasattr(got[1], "oper"):
        return None      # a truth value
    W.probe("array-constraint" if arr else "constraint")
    if not may and arr:
        return None
    return run.add(Node("acon" if arr else "con", got[1], triples,
                        (lambda: f(a.g, gb), op)))


def model(run, op):
    "Solves a model of some of the constraints; the answer is not judged here"
    import numpy as np
    from dst import sess
    from dst.world import W
    gp = run.gp
    cons, fresh = [], []
    for n in op["cons"]:
        node = run.pick(n, ["con", "acon"])
        if node is not None and not any(node.g is c for c in cons):
            cons.append(node.g)
            if op.get("fresh") and node.make:
                fg, made = node.make
                with environment(run, made):
                    got = sess.call(fg)
                if got[0] == "ok":    # has never been looked at
                    cons[-1] = got[1]
                    fresh.append((node, Node(node.kind, got[1], node.o)))
    bounds, keys = [], []
    for i, v in enumerate(run.trace["vars"]):
        if v["d"]:
            for e in range(v["d"]):
                keys.append((i, e, run.vars[i][e]))
        else:
            keys.append((i, 0, run.vars[i]))
    cost = 1.
    one = {i: gp.units(v["u"]) if v["u"] else 1.
           for i, v in enumerate(run.trace["vars"])}
    for i, e, x in keys:
        bounds += [x >= .05*one[i], x <= 20*one[i]]
        cost = cost*x/one[i]
    with environment(run, dict(op, env=None)):
        node = run.pick(op["b"], ["nom"])
        if op.get("cost") and node and hasattr(node.g, "hmap") and \
                node.o.ids and all(c > 0 for c in node.o.terms.values()):
            cost = node.g
            W.probe("as-cost")
        m = gp.Model(cost, cons+bounds)
        key = keys[0][2].key
        if op["how"] == "sweep":
            m.substitutions[key] = ("sweep", [.5, 1.])
        fn = {"solve": m.solve, "sweep": m.solve, "debug": m.debug,
              "localsolve": m.localsolve}[op["how"]]
        got = sess.call(fn, verbosity=0)
    if got[0] == "ok" and op.get("show"):
        with sess.quiet_stdout(fail_at=op["fail_at"], kind=op["show"]):
            shown = sess.call(lambda: print(got[1].table()
                                            if op["how"] != "debug" else m))
        W.probe("shown")
        W.check(shown[0] == "ok" or isinstance(
            shown[1], (OSError, KeyboardInterrupt)), "refused",
                lambda: "showing it: " + sess.short(shown[1]))
    for node, other in fresh:
        mine, yours = run.looks(other, op["b"]), node.was
        W.probe("looked-late")
        W.check(mine == yours, "not-repeatable", lambda: "first looked at "
                "after the model, %s is %s" % (yours, mine))
    W.state("model", op["how"], got[0], bool(op["faults"]), len(cons))
    if got[0] != "ok" or op["how"] == "debug":
        return got[0]
    W.probe("solved")
    sol = got[1]
    if op["how"] == "sweep":
        return "ok"
    vals = {(i, e): float(getattr(sol["variables"][x.key], "magnitude",
                                  sol["variables"][x.key]))
            * UNITS[run.trace["vars"][i]["u"]][0] for i, e, x in keys}
    for node in run.nodes[:12]:
        if node.kind != "nom" or not hasattr(node.g, "hmap") or \
                not node.o.ids:
            continue
        got = sess.call(sol, node.g)
        want = node.o.sub(vals)
        ref, = want.terms.values()
        mass, = want.mass.values()
        if got[0] != "ok":
            W.violate("refused", "the solution's value of %s: %s" % (
                node.g, sess.short(got[1])))
            return None
        if hasattr(got[1], "hmap"):
            W.violate("wrong-value", "a solution called with %s gives %r" % (
                node.g, got[1]))
            return None
        size, dims = run.units(got[1] if hasattr(got[1], "units") else None)
        val = float(np.asarray(getattr(got[1], "magnitude", got[1])))*size
        W.probe("solution-called")
        W.check(sameunits(dims, node.o.dims) and abs(val-ref) <= 1e-6*mass,
                "wrong-value", "a solution with %s is called with %s: %s, "
                "should be %s" % (vals, node.g, got[1], ref))
    return "ok"


def again(run, op):
    "Made again, in another state of the process, an expression's the same"
    from dst import sess
    from dst.world import W
    of = [n for n in run.nodes if n.make]
    if not of:
        return None
    node = of[op["a"] % len(of)]
    fg, made = node.make
    with environment(run, dict(made, env=op["env"])):
        got = sess.call(fg)
    if not W.check(got[0] == "ok", "not-repeatable", lambda: "%s: %s" % (
            node.g, sess.short(got[1]))):
        return None
    g = got[1]
    W.probe("rebuilt")
    other = Node(node.kind, g, node.o)
    bad = run.wrongnode(other)
    W.check(not bad, "not-repeatable", lambda: "made again, %s %s"
            % (node.g, bad))
    mine, yours = run.looks(other, op["b"]), node.was
    W.check(mine == yours, "not-repeatable", lambda: "made again, %s is %s"
            % (yours, mine))
    if node.kind == "nom":
        W.check(not node.g != g and not g != node.g, "not-equal",
                lambda: "made again, %r is not the same" % node.g)
    return None


def output(run, op):
    "Prints what there is, to an output that may fail"
    from dst import sess
    from dst.world import W
    with sess.quiet_stdout(fail_at=op["fail_at"] if op["fail"] else None,
                           kind=op["fail"]):
        for node in run.nodes:
            got = sess.call(print, node.g)
            if got[0] != "ok":
                W.check(isinstance(got[1], (OSError, KeyboardInterrupt)),
                        "refused", lambda: "printing: " + sess.short(got[1]))
                break
    return got[0]

