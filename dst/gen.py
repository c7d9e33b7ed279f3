"""Random model specifications, their gpkit models, and an independent reference.

A spec is plain JSON.  `build` turns it into a gpkit model through the public
API; `Ref` evaluates the same spec with numpy and solves it with a direct call
to cvxopt that shares no code with gpkit.

Variables are listed in spec["vars"]:
  {"n": name, "k": "free"|"const"|"linked", "u": unit|None, "d": length|0,
   "v": value(s), "part": 0|1, "fn": {...}}
(a vector of four elements is declared as a two-by-two matrix).
A factor is [var index, element|None, exponent, unit-it-is-divided-by|None];
a term is {"c": coefficient, "f": [factors]}; a constraint is
  {"o": ">=", "l": [term], "r": [terms]}   l >= sum(r)
  {"o": "==", "l": [term], "r": [term]}
  {"o": "sp", "l": [terms], "r": [terms]}  sum(l) >= sum(r), a signomial
  {"o": "vec", ...}  like ">=", every vector factor elementwise over "d"
Every spec is feasible and bounded by construction for all positive constants,
unless it carries a "limit" constraint.
"""
import math

UNITS = {  # unit -> (dimension, size in base units)
    None: (None, 1.0), "m": ("L", 1.0), "ft": ("L", 0.3048),
    "km": ("L", 1000.0), "s": ("T", 1.0), "min": ("T", 60.0),
}
ALT = {"m": ["m", "ft", "km"], "ft": ["ft", "m"], "km": ["km", "m"],
       "s": ["s", "min"], "min": ["min", "s"], None: [None]}
EXPS = [0.5, 1, 2, 1.5, -0.5, -1, 1, 1]


def rnd(rng, lo, hi):
    "log-uniform, rounded so that traces are readable"
    return float("%.3g" % math.exp(rng.uniform(math.log(lo), math.log(hi))))


def gen_spec(rng, name="m", *, nfree=None, nconst=None, units=True, vec=True,
             part=True, eq=True, linked=False, limit=False, freeable=False,
             sp=False, mixed=True, evals=False):
    "A random always-feasible GP (or SP) spec"
    V, cons = [], []
    nfree = nfree or rng.randint(2, 4)
    nconst = nconst or rng.randint(1, 3)

    def unit():
        return rng.choice([None, None, "m", "ft", "s", "min"]) if units else None

    def add(n, k, **kw):
        d = {"n": "%s" % n, "k": k, "u": None, "d": 0, "v": None, "part": 0}
        d.update(kw)
        V.append(d)
        return len(V)-1

    def fac(i, e=None, idx=None):
        v = V[i]
        if idx is None and v["d"]:
            idx = rng.randrange(v["d"])
        return [i, idx, e if e is not None else rng.choice(EXPS),
                rng.choice(ALT[v["u"]])]

    consts = []
    for j in range(nconst):
        d = rng.choice([0, 0, 0, 0, 2, 2, 3, 3, 4]) if vec else 0
        u = unit()
        val = [rnd(rng, .5, 4) for _ in range(d)] if d else rnd(rng, .5, 4)
        consts.append(add("%s_c%i" % (name, j), "const", u=u, d=d, v=val))
    if linked:
        for j in range(rng.randint(1, 2)):
            srcs = [i for i in consts if not V[i]["d"] and V[i]["k"] == "const"]
            if not srcs:
                srcs = [add("%s_s%i" % (name, j), "const", v=rnd(rng, .5, 4))]
                consts.append(srcs[0])
            kind = rng.choice(["mono", "affine", "mono"])
            use = rng.sample(srcs, min(len(srcs), rng.randint(1, 2)))
            fn = {"kind": kind, "c": rnd(rng, .5, 3),
                  "a": [[i, rng.choice([1, 2, .5, -1]) if kind == "mono"
                         else rnd(rng, .3, 2)] for i in use]}
            consts.append(add("%s_l%i" % (name, j), "linked", fn=fn))
        consts = [c for c in consts]

    ups, downs = [], []   # free vars already lower-bounded / upper-bounded

    def term(extra=(), cmax=3.):
        fs = []
        if ups and rng.random() < .75:
            fs.append(fac(rng.choice(ups), rng.choice([.5, 1, 1.5, 2])))
        if downs and rng.random() < .35:
            fs.append(fac(rng.choice(downs), rng.choice([-.5, -1, -2])))
        for _ in range(rng.randint(0, 2)):
            fs.append(fac(rng.choice(consts)))
        seen, out = set(), []
        for f in list(extra)+fs:   # one factor per element
            if (f[0], f[1]) not in seen:
                seen.add((f[0], f[1]))
                out.append(f)
        return {"c": rnd(rng, .3, cmax), "f": out}

    def distinct(terms):
        "drops terms with the same exponents (gpkit merges those)"
        seen, out = set(), []
        for t in terms:
            key = tuple(sorted((f[0], f[1] or 0, f[2]) for f in t["f"]
                               if V[f[0]]["k"] == "free"))
            full = tuple(sorted((f[0], f[1] or 0, f[2]) for f in t["f"]))
            if full not in seen:
                seen.add(full)
                out.append(t)
            del key
        return out

    for j in range(nfree):
        r = rng.random()
        vname = "%s_x%i" % (name, j)
        if eq and r < .15 and ups:
            i = add(vname, "free", u=unit())
            t = {"c": rnd(rng, .3, 3), "f": [fac(rng.choice(ups), 1),
                                             fac(rng.choice(consts))]}
            cons.append({"o": "==", "l": [{"c": 1., "f": [fac(i, 1)]}],
                         "r": [t]})
            ups.append(i)
        elif vec and r < .3:
            d = rng.choice([2, 3, 2, 3, 4])
            i = add(vname, "free", u=unit(), d=d)
            if mixed and rng.random() < .5:
                vc = [c for c in consts if V[c]["d"] == d]
                rhs = []
                for _ in range(rng.randint(1, 2)):
                    t = term()
                    if vc and rng.random() < .8:
                        t["f"] = [f for f in t["f"] if f[0] not in vc]
                        t["f"].append([rng.choice(vc), "*", rng.choice([1, 2]),
                                       None])
                        t["f"][-1][3] = rng.choice(ALT[V[t["f"][-1][0]]["u"]])
                    rhs.append(t)
                cons.append({"o": "vec", "d": d,
                             "l": [{"c": 1., "f": [[i, "*", 1,
                                                    rng.choice(ALT[V[i]["u"]])]]}],
                             "r": distinct(rhs)})
            else:
                for e in range(d):
                    cons.append({"o": ">=",
                                 "l": [{"c": 1., "f": [fac(i, 1, e)]}],
                                 "r": distinct([term() for _ in
                                                range(rng.randint(1, 2))])})
            ups.append(i)
        elif r < .5 and j > 0:
            i = add(vname, "free", u=unit())
            # pushed up by the cost, held down by a constraint
            cons.append({"o": "<=", "l": [{"c": 1., "f": [fac(i, 1)]}],
                         "r": [{"c": rnd(rng, .5, 4),
                                "f": [fac(rng.choice(consts))]}]})
            downs.append(i)
        else:
            i = add(vname, "free", u=unit())
            l = {"c": 1., "f": [fac(i, rng.choice([1, 1, 2]))]}
            if downs and rng.random() < .4:
                l["f"].append(fac(rng.choice(downs), rng.choice([.5, 1])))
            r = [term() for _ in range(rng.randint(1, 3))]
            if rng.random() < .2:   # a multiple of the left side
                t = {"c": rnd(rng, .1, .6), "f": [list(f) for f in l["f"]]}
                own = [c for c in consts if V[c]["k"] == "const"
                       and not V[c]["d"]]
                if own and rng.random() < .5:
                    t["c"] = rnd(rng, .01, .05)
                    own = rng.choice(own)
                    t["f"].append([own, None, 1, V[own]["u"]])
                r.insert(rng.randrange(len(r)+1), t)
            cons.append({"o": ">=", "l": [l], "r": distinct(r)})
            ups.append(i)
    if freeable:
        # a constant that may be freed: bounded below by its own constraint
        i = add("%s_f" % name, "const", u=unit(), v=rnd(rng, 200., 400.),
                freeable=1)
        cons.append({"o": ">=", "l": [{"c": 1., "f": [fac(i, 1)]}],
                     "r": distinct([{"c": rnd(rng, .3, 2),
                                     "f": [fac(rng.choice(consts),
                                               rng.choice([.5, 1]))]}])})
        if not ups:
            j = add("%s_xf" % name, "free")
            cons.append({"o": ">=", "l": [{"c": 1., "f": [fac(j, 1)]}],
                         "r": [{"c": 1., "f": [fac(i, .5)]}]})
            ups.append(j)
        else:
            j = add("%s_xf" % name, "free")
            cons.append({"o": ">=", "l": [{"c": 1., "f": [fac(j, 1)]}],
                         "r": distinct([term(), {"c": 1., "f": [fac(i, 1)]}])})
            ups.append(j)
    if sp:
        for j in range(rng.randint(1, 2)):
            k = rng.randint(2, 3)
            new = [add("%s_p%i%i" % (name, j, e), "free") for e in range(k)]
            cons.append({"o": "sp",
                         "l": [{"c": rnd(rng, .5, 2), "f": [fac(i, rng.choice([.5, 1]))]}
                               for i in new],
                         "r": distinct([{"c": rnd(rng, 1, 4),
                                         "f": [fac(rng.choice(consts), 1)]}]
                                       + ([{"c": rnd(rng, .3, 1),
                                            "f": [fac(rng.choice(ups), rng.choice([.5, 1]))]}]
                                          if rng.random() < .6 else []))})
            for i in new:   # keeps every split of the sum worthwhile
                ups.append(i)
                V[i]["spvar"] = 1
                cons.append({"o": ">=", "l": [{"c": 1., "f": [fac(i, 1)]}],
                             "r": [{"c": rnd(rng, 1e-3, 1e-2), "f": []}]})
    if limit and ups:
        i = rng.choice(ups)
        # a ceiling on one variable, huge unless an op lowers it
        c = add("%s_lim" % name, "const", u=V[i]["u"], v=rnd(rng, 1e4, 1e5),
                limit=1)
        for e in (range(V[i]["d"]) if V[i]["d"] else [None]):
            cons.append({"o": "<=", "l": [{"c": 1., "f": [fac(i, 1, e)]}],
                         "r": [{"c": 1., "f": [fac(c, 1)]}]})
    # cost: product or sum that pushes every up down and every down up
    cost = []
    allf = []
    for i in ups:
        for e in (range(V[i]["d"]) if V[i]["d"] else [None]):
            allf.append(fac(i, rng.choice([.5, 1, 1, 1.5]), e))
    for i in downs:
        allf.append(fac(i, rng.choice([-1, -.5]), None))
    if sp or rng.random() < .5:
        for f in allf:
            cost.append({"c": rnd(rng, .5, 2), "f": [f]})
        if rng.random() < .5:
            t = cost[rng.randrange(len(cost))]
            c = rng.choice(consts)
            if V[c]["k"] == "const":
                t["f"].append(fac(c, rng.choice([.5, 1, -1])))
    else:
        cost.append({"c": rnd(rng, .5, 2), "f": allf})
        if rng.random() < .4:
            cost.append({"c": rnd(rng, .1, 1),
                         "f": [list(rng.choice(allf)),
                               fac(rng.choice(consts), 1)]})
    used = {f[0] for c in cons for t in c["l"]+c["r"] for f in t["f"]}
    used |= {f[0] for t in cost for f in t["f"]}
    for i, v in enumerate(V):   # sources of linked variables must be present
        if v["k"] == "linked" and i in used:
            for j, _ in v["fn"]["a"]:
                if j not in used:
                    cost[0]["f"].append(fac(j, .5))
                    used.add(j)
    for i, v in enumerate(V):
        v["used"] = int(i in used)
    for c in cons:   # some bounds are written with their units
        l = c["l"]
        if (c["o"] in (">=", "<=", "==") and len(l) == 1 and l[0]["c"] == 1
                and len(l[0]["f"]) == 1 and l[0]["f"][0][3]
                and l[0]["f"][0][1] != "*" and rng.random() < .4):
            c["nat"] = 1
    wrap = "part" if part and rng.random() < .4 else "none"
    return {"name": name, "vars": V, "cons": cons, "cost": distinct(cost),
            "wrap": wrap}


def rescale(spec, i, scale):
    """Makes linked variable i's values `scale` times as large, and every
    coefficient it meets make up for that."""
    fn = spec["vars"][i]["fn"]
    fn["c"] *= scale
    if fn["kind"] != "mono":
        fn["a"] = [[j, e*scale] for j, e in fn["a"]]
    for t in spec["cost"] + [t for c in spec["cons"] for t in c["l"]+c["r"]]:
        for f in t["f"]:
            if f[0] == i:
                t["c"] *= scale**-f[2]


# ---------------------------------------------------------------------------
# gpkit side

class Built:
    "A gpkit model and handles to what it was built from"
    def __init__(self, spec):
        self.spec = spec
        self.vars = []
        self.cons = []
        self.m = None


SHAPES = {4: (2, 2)}  # vectors of this many elements are matrices


class Mat:
    "A matrix variable whose elements are counted in one dimension"
    def __init__(self, arr):
        self.arr, self.key = arr, arr.key

    def __getitem__(self, e):
        return self.arr.flat[e]


def shaped(v, xs):
    "A vector variable's values, in its own shape"
    import numpy as np
    sh = SHAPES.get(v["d"])
    if not sh:
        return xs
    if isinstance(xs, np.ndarray):
        return xs.reshape(sh if xs.size == v["d"] else (-1,)+sh)
    return np.array(xs).reshape(
        sh if not isinstance(xs[0], (list, tuple)) else (-1,)+sh).tolist()


def make_fn(fn, vars_, spec, hook=None):
    "The callable behind a linked variable"
    def linked(c):
        if hook:
            hook(c)
        if fn["kind"] == "mono":
            out = fn["c"]
            for i, e in fn["a"]:
                out = out*c[vars_[i].key]**e
            return out
        out = fn["c"]
        for i, e in fn["a"]:
            out = out + e*c[vars_[i].key]
        return out
    return linked


def build(spec, vals=None, hook=None, prebuilt=None, extra=None, group=None):
    """Builds the gpkit model of a spec.

    vals: {var index: value} overriding declared values (constants only)
    hook: called at every evaluation of a linked function
    group: makes the model's constraint sets from the Built's constraints
    """
    import gpkit
    import gpkit.constraints.loose
    from gpkit import Variable, VectorVariable, Model, SignomialsEnabled
    B = Built(spec)

    def declare():
        for i, v in enumerate(spec["vars"]):
            val = v["v"]
            if vals and i in vals:
                val = vals[i]
            args = []
            if v["k"] == "linked":
                val = make_fn(v["fn"], B.vars, spec, hook)
            if v["d"]:
                if v["k"] == "const":
                    args.append(shaped(v, list(val)))
                sh = SHAPES.get(v["d"])
                var = VectorVariable(sh or v["d"], v["n"], *args,
                                     *([v["u"]] if v["u"] else []),
                                     **v.get("descr", {}))
                B.vars.append(Mat(var) if sh else var)
            else:
                if v["k"] != "free":
                    args.append(val)
                B.vars.append(Variable(v["n"], *args,
                                       *([v["u"]] if v["u"] else []),
                                       **v.get("descr", {})))

    def factor(f, e=None):
        i, idx, exp, u = f
        x = B.vars[i]
        if idx == "*":
            if e is not None:
                x = x[e]
            x = getattr(x, "arr", x)
        elif idx is not None:
            x = x[idx]
        if u:
            x = x/gpkit.units(u)
        return x if exp == 1 else x**exp

    def term(t):
        out = t["c"] if t["c"] != 1 or not t["f"] else None
        for f in t["f"]:
            fx = factor(f)
            out = fx if out is None else out*fx
        return out

    def posy(ts):
        out = term(ts[0])
        for t in ts[1:]:
            out = out + term(t)
        return out

    def natural(c):
        "x**p and its bound, both with units"
        (i, idx, exp, u), = c["l"][0]["f"]
        x = B.vars[i] if idx is None else B.vars[i][idx]
        right = posy(c["r"])*gpkit.units(u)**exp
        left = x if exp == 1 else x**exp
        return {">=": left.__ge__, "<=": left.__le__,
                "==": left.__eq__}[c["o"]](right)

    def constraints():
        for c in spec["cons"]:
            if c.get("nat"):
                B.cons.append(natural(c))
                continue
            if c["o"] in (">=", "vec"):
                con = term(c["l"][0]) >= posy(c["r"])
            elif c["o"] == "<=":
                con = term(c["l"][0]) <= posy(c["r"])
            elif c["o"] == "==":
                con = term(c["l"][0]) == posy(c["r"])
            else:
                with SignomialsEnabled():
                    con = posy(c["l"]) >= posy(c["r"])
            B.cons.append(con)
        if group:
            return group(B)
        from gpkit.constraints.tight import Tight
        return [gpkit.constraints.loose.Loose([con]) if c.get("loose")
                else Tight([con]) if c.get("tight")
                else con for c, con in zip(spec["cons"], B.cons)]

    if spec["wrap"] == "part":
        class Part(Model):
            "a submodel, SKIP VERIFICATION"
            def setup(self):
                declare()
                return constraints()
        part = Part()
        cost = posy(spec["cost"])
        allcons = [part] + (extra(B) if extra else [])
        B.m = Model(cost, allcons)
    else:
        declare()
        cons = constraints() + (extra(B) if extra else [])
        B.m = Model(posy(spec["cost"]), cons)
    return B


# ---------------------------------------------------------------------------
# reference side

class Ref:
    "Independent evaluation of a spec at a state {var index: value or list}"
    def __init__(self, spec, state):
        self.spec = spec
        V = spec["vars"]
        self.val = {}        # (i, e) -> numeric value of fixed elements
        self.grad = {}       # linked (i, e) -> {(j, e): dlogv/dlogc}
        for i, v in enumerate(V):
            if i in state and state[i] is not None and v["k"] != "linked":
                x = state[i]
                if v["d"]:
                    xs = x if isinstance(x, (list, tuple)) else [x]*v["d"]
                    for e in range(v["d"]):
                        if xs[e] is not None:
                            self.val[(i, e)] = float(xs[e])
                else:
                    self.val[(i, None)] = float(x)
        for i, v in enumerate(V):
            if v["k"] == "linked":
                if i in state and state[i] is not None:
                    self.val[(i, None)] = float(state[i])
                    continue
                fn = v["fn"]
                if fn["kind"] == "mono":
                    x = fn["c"]
                    for j, e in fn["a"]:
                        x *= self.val[(j, None)]**e
                    self.grad[(i, None)] = {(j, None): e for j, e in fn["a"]}
                else:
                    x = fn["c"]+sum(e*self.val[(j, None)] for j, e in fn["a"])
                    self.grad[(i, None)] = {
                        (j, None): e*self.val[(j, None)]/x for j, e in fn["a"]}
                self.val[(i, None)] = x
        self.used = used_elements(spec)
        self.free = []
        for i, v in enumerate(V):
            for e in (range(v["d"]) if v["d"] else [None]):
                if (i, e) in self.used and (i, e) not in self.val:
                    self.free.append((i, e))
        self.col = {k: j for j, k in enumerate(self.free)}

    def mono(self, t, e=None):
        "-> coefficient, {free col: exp}, {fixed key: exp}, with fixed folded in"
        c, fr, fx = t["c"], {}, {}
        for i, idx, exp, u in t["f"]:
            v = self.spec["vars"][i]
            key = (i, e if idx == "*" else idx)
            c *= (UNITS[v["u"]][1]/UNITS[u][1])**exp if u else 1.0
            if key in self.val:
                c *= self.val[key]**exp
                fx[key] = fx.get(key, 0) + exp
            else:
                j = self.col[key]
                fr[j] = fr.get(j, 0) + exp
        return c, fr, fx

    @staticmethod
    def div(a, b):
        "monomial a / monomial b"
        fr, fx = dict(a[1]), dict(a[2])
        for k, x in b[1].items():
            fr[k] = fr.get(k, 0) - x
        for k, x in b[2].items():
            fx[k] = fx.get(k, 0) - x
        return a[0]/b[0], fr, fx

    def posys(self):
        """[(kind, [monomials], constraint index, element)], cost first.

        kind "c" cost, "le" sum <= 1, "eq" monomial == 1,
        "sp": (lhs monomials, rhs monomials)"""
        out = [("c", [self.mono(t) for t in self.spec["cost"]], None, None)]
        for ci, c in enumerate(self.spec["cons"]):
            for e in (range(c["d"]) if c["o"] == "vec" else [None]):
                l = [self.mono(t, e) for t in c["l"]]
                r = [self.mono(t, e) for t in c["r"]]
                if c["o"] in (">=", "vec"):
                    out.append(("le", [self.div(x, l[0]) for x in r
                                       if x[0] != 0], ci, e))
                elif c["o"] == "<=":
                    out.append(("le", [self.div(l[0], r[0])], ci, e))
                elif c["o"] == "==":
                    out.append(("eq", [self.div(l[0], r[0])], ci, e))
                else:
                    out.append(("sp", (l, r), ci, e))
        return out

    def evalm(self, mono, x):
        "value of a monomial at free values x"
        v = mono[0]
        for j, e in mono[1].items():
            v *= x[j]**e
        return v

    def solve(self, P=None):
        """Solves the GP with a direct cvxopt call.

        P: posynomials as returned by .posys(), if not those of the spec

        -> dict(status, cost, x, la) or dict(status="constant-infeasible")
        """
        import numpy as np
        from cvxopt import matrix
        from . import world
        P = P or self.posys()
        n = len(self.free)
        K, Frow, gval, lse = [], [], [], []
        G, h, lin = [], [], []
        A, b, eqs = [], [], []

        def row(m):
            r = [0.0]*n
            for j, e in m[1].items():
                r[j] = float(e)
            return r
        for pi, (kind, ms, _, _) in enumerate(P):
            if kind == "sp":
                raise ValueError("reference solves GPs only")
            if kind == "le":   # what the constants alone leave no room for
                room = 1-sum(m[0] for m in ms if not any(m[1].values()))
                if room <= 0 and any(any(m[1].values()) for m in ms):
                    return {"status": "constant-infeasible"}
            if kind != "c" and not any(any(m[1].values()) for m in ms):
                tot = sum(m[0] for m in ms)
                off = tot-1 if kind == "le" else abs(tot-1)
                if 1e-9 < off < 2e-3:   # within gpkit's tolerance
                    return {"status": "borderline"}
                if off > 1e-9:
                    return {"status": "constant-infeasible"}
                continue
            if kind == "c" or (kind == "le" and len(ms) > 1):
                K.append(len(ms))
                for m in ms:
                    Frow.append(row(m))
                    gval.append(math.log(m[0]))
                lse.append(pi)
            elif kind == "le":
                G.append(row(ms[0]))
                h.append(-math.log(ms[0][0]))
                lin.append(pi)
            else:
                A.append(row(ms[0]))
                b.append(-math.log(ms[0][0]))
                eqs.append(pi)
        mk = lambda rows: matrix(np.array(rows, "d").reshape(len(rows), n))
        kw = {}
        if G:
            kw.update(G=mk(G), h=matrix(h))
        if A:
            kw.update(A=mk(A), b=matrix(b))
        try:
            s = world.REAL_GP(K, mk(Frow), matrix(gval), kktsolver="ldl",
                              options={"show_progress": False}, **kw)
        except (ValueError, ArithmeticError) as e:
            return {"status": "error %s" % e}
        if s["status"] != "optimal":
            return {"status": s["status"]}
        x = np.exp(np.ravel(s["x"]))
        la = {0: 1.0}
        for pi, z in zip(lse[1:], s["znl"]):
            la[pi] = float(z)
        for pi, z in zip(lin, s["zl"]):
            la[pi] = float(z)
        for pi, z in zip(eqs, s["y"]):
            la[pi] = float(z)
        cost = sum(self.evalm(m, x) for m in P[0][1])
        return {"status": "optimal", "cost": cost, "x": x, "la": la, "P": P}

    def sensitivities(self, x, la, P=None):
        "dlogcost/dlog of every fixed element, gradients carried to constants"
        P = P or self.posys()
        out, cost_only = {}, {}
        for pi, (kind, ms, _, _) in enumerate(P):
            if pi not in la:
                continue
            vals = [self.evalm(m, x) for m in ms]
            tot = sum(vals)
            for m, v in zip(ms, vals):
                for key, e in m[2].items():
                    out[key] = out.get(key, 0) + la[pi]*e*v/tot
        for key, g in self.grad.items():
            s = out.pop(key, 0)
            for c, d in g.items():
                out[c] = out.get(c, 0) + s*d
        del cost_only
        return out

    def violation(self, x):
        "largest relative violation of any constraint at free values x"
        worst = 0.0
        for kind, ms, _, _ in self.posys()[1:]:
            if kind == "sp":
                l = sum(self.evalm(m, x) for m in ms[0])
                r = sum(self.evalm(m, x) for m in ms[1])
                worst = max(worst, r/l-1)
            else:
                tot = sum(self.evalm(m, x) for m in ms)
                worst = max(worst, abs(tot-1) if kind == "eq" else tot-1)
        return worst

    def costval(self, x):
        return sum(self.evalm(m, x) for m in self.posys()[0][1])


def used_elements(spec):
    "The variable elements that appear in the model"
    out = set()
    for t in spec["cost"]:
        out.update((f[0], f[1]) for f in t["f"])
    for c in spec["cons"]:
        for t in c["l"]+c["r"]:
            for f in t["f"]:
                if f[1] == "*":
                    out.update((f[0], e) for e in range(c["d"]))
                else:
                    out.add((f[0], f[1]))
    return out


def state0(spec):
    "The declared constants of a spec"
    return {i: v["v"] for i, v in enumerate(spec["vars"]) if v["k"] == "const"}
