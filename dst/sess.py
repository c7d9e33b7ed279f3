"""Helpers shared by the properties: calling gpkit, reading results, comparing."""
import math
import sys
import traceback

from dst.world import W, SimStdout, SimLimit, SimCrash
from dst import gen

TOL = 1e-3


def call(fn, *args, **kw):
    """Calls into the system under test.

    -> ("ok", value) or ("exc", exception); the step bound is never caught."""
    try:
        return "ok", fn(*args, **kw)
    except (SimLimit, SimCrash):
        raise
    except BaseException as e:  # pylint: disable=broad-except
        return "exc", e


def mag(x):
    "Magnitude as a float"
    x = getattr(x, "magnitude", x)
    return float(x)


def key(B, i, e=None):
    "The varkey of a spec variable (element)"
    v = B.vars[i]
    return v.key if e is None else v[e].key


def value(res, B, i, e=None, table="variables"):
    "A variable's value in a result"
    return float(res[table][key(B, i, e)])


def close(a, b, tol=TOL, abstol=1e-3):
    "Relative-or-absolute closeness that a nan never passes"
    return abs(a-b) <= max(tol*max(abs(a), abs(b)), abstol)


def relclose(a, b, tol=TOL):
    "Relative closeness"
    return abs(a-b) <= tol*max(abs(a), abs(b), 1e-300)


def conlist(con):
    "Scalar constraints of a (possibly vector) constraint"
    if isinstance(con, list):   # an array constraint
        return list(con)
    return [con]


def compare(res, B, ref, r, tag, cls="wrong-answer", sens=True):
    """Compares a gpkit result with the independent optimum of the same state.

    res: one point's result dict; ref, r: gen.Ref and its solve()."""
    cost = mag(res["cost"])
    if not relclose(cost, r["cost"]):
        W.violate(cls, "%s: cost %r, the model's optimum is %r"
                  % (tag, cost, r["cost"]))
        return False
    spec = B.spec
    weight = participation(ref, r)
    for j, (i, e) in enumerate(ref.free):
        got = value(res, B, i, e)
        if weight[j] < 5e-3:
            W.probe("flat-variable-skipped")   # its value hardly matters
        elif not relclose(got, r["x"][j], 3*TOL):
            W.violate(cls, "%s: %s[%s] is %r, should be %r" %
                      (tag, spec["vars"][i]["n"], e, got, r["x"][j]))
            return False
        got2 = value(res, B, i, e, "freevariables")
        if got2 != got:
            W.violate(cls, "%s: %s[%s] is %r in variables but %r in"
                      " freevariables" % (tag, spec["vars"][i]["n"], e, got,
                                          got2))
            return False
    for (i, e), v in ref.val.items():
        if (i, e) not in ref.used:
            continue
        got = value(res, B, i, e)
        if not relclose(got, v, 1e-6):
            W.violate(cls, "%s: constant %s[%s] reported as %r, is %r" %
                      (tag, spec["vars"][i]["n"], e, got, v))
            return False
    if sens:
        want = ref.sensitivities(r["x"], r["la"], r["P"])
        table = res["sensitivities"]["variables"]
        for (i, e), v in want.items():
            try:
                got = float(table[key(B, i, e)])
            except KeyError:
                got = 0.
            if math.isnan(got) and abs(v) < 1e-6:
                got = 0.
            if not close(got, v, 2*TOL, 2*TOL):
                W.violate(cls+":sensitivity",
                          "%s: sensitivity to %s[%s] is %r, should be %r" %
                          (tag, spec["vars"][i]["n"], e, got, v))
                return False
        for i, e in ref.free:   # zero gradient at an optimum
            try:
                got = float(table[key(B, i, e)])
            except KeyError:
                got = 0.
            if not close(got, 0., TOL, 5*TOL):
                W.violate(cls+":sensitivity",
                          "%s: free variable %s[%s] has sensitivity %r" %
                          (tag, spec["vars"][i]["n"], e, got))
                return False
        bad = "cost" in res["sensitivities"] and cost_sensitivities(
            res, B, ref, r)
        if bad:
            W.violate(cls+":sensitivity", "%s: the cost's own %s" % (tag, bad))
            return False
        bad = "models" in res["sensitivities"] and model_sensitivities(
            res, B, ref)
        if bad:
            W.violate(cls+":sensitivity", "%s: %s" % (tag, bad))
            return False
        ctable = res["sensitivities"]["constraints"]
        for pi, (_, ms, ci, e) in enumerate(r["P"]):
            if ci is None or pi not in r["la"] or any(
                    not any(m[1].values()) for m in ms):
                continue   # gpkit first moves constants to the other side
            con = conlist(B.cons[ci])
            con = con[e or 0]
            if con not in ctable:
                W.violate(cls+":sensitivity",
                          "%s: constraint %s has no sensitivity" % (tag, con))
                return False
            got = float(ctable[con])
            if not close(got, abs(r["la"][pi]), 2*TOL, 2*TOL):
                W.violate(cls+":sensitivity",
                          "%s: constraint %s has sensitivity %r, should be %r"
                          % (tag, con, got, abs(r["la"][pi])))
                return False
    return True


def cost_sensitivities(res, B, ref, r):
    "What is wrong with the sensitivities of the cost function by itself"
    ms = r["P"][0][1]
    vals = [ref.evalm(m, r["x"]) for m in ms]
    tot = sum(vals)
    want, fixed = {}, {k for m in ms for k in m[2]}
    for m, v in zip(ms, vals):
        for j, e in m[1].items():
            k = ref.free[j]
            want[k] = want.get(k, 0.) + e*v/tot
        for k, e in m[2].items():
            want[k] = want.get(k, 0.) + e*v/tot
    gone = set()
    for k, g in ref.grad.items():
        if k not in want:
            continue
        for c, d in g.items():
            if c in fixed:    # carried over to the constants of the cost
                want[c] = want.get(c, 0.) + want[k]*d
                gone.add(k)
    table = res["sensitivities"]["cost"]
    table = {str(vk): table[vk] for vk in getattr(table, "table", table)}
    for k, x in want.items():
        i, e = k
        vk = B.vars[i].key if e is None else B.vars[i][e].key
        got = table.get(str(vk))
        if k in gone:
            if got is not None:
                return "sensitivity to %s is %r, and %s to what it is " \
                    "linked to" % (vk, got, [table.get(str(
                        B.vars[c].key)) for c, _ in ref.grad[k]])
        elif not close(float(got or 0.), x, 2*TOL, 2*TOL):
            return "sensitivity to %s is %r, should be %r" % (vk, got, x)
    return None


def model_sensitivities(res, B, ref):
    "Do the models' sensitivities sum up those of what's in them?"
    import numpy as np
    parts = {k: res["sensitivities"][k]
             for k in ("models", "constraints", "variables")}
    models, cons, vks = [getattr(parts[k], "table", parts[k])
                         for k in ("models", "constraints", "variables")]
    def name(x):
        return ".".join("%s%i" % (n, i) if i else n
                        for n, i in getattr(x, "lineage", None) or ())
    sums, unsure = {}, set()
    for c in cons:
        sums[name(c)] = sums.get(name(c), 0.) + abs(float(
            parts["constraints"][c]))
    for vk in vks:
        x = np.abs(np.array(parts["variables"][vk], "d"))
        sums[name(vk)] = sums.get(name(vk), 0.) + float(np.nansum(x))
    for k, g in ref.grad.items():
        for i, _ in [k] + list(g):
            unsure.add(name(B.vars[i].key))
    for m in models:
        if m in unsure:
            continue
        got, want = float(parts["models"][m]), sums.get(m, 0.)
        if not close(got, want, 2*TOL, 2*TOL):
            return "model %r has sensitivity %r, its parts %r" % (m, got, want)
    return None


def participation(ref, r):
    "How strongly the optimum depends on each free variable"
    out = [0.]*len(ref.free)
    for pi, (_, ms, _, _) in enumerate(r["P"]):
        if pi not in r["la"]:
            continue
        vals = [ref.evalm(m, r["x"]) for m in ms]
        tot = sum(vals)
        for m, v in zip(ms, vals):
            for j, e in m[1].items():
                out[j] += abs(r["la"][pi]*e)*v/tot
    return out


class quiet_stdout:
    "Runs a block with a simulated stdout"
    def __init__(self, **kw):
        self.out = SimStdout(**kw)

    def __enter__(self):
        self.saved = sys.stdout
        sys.stdout = self.out
        W.stdout = self.out
        return self.out

    def __exit__(self, *exc):
        sys.stdout = self.saved


def excname(e):
    "Class name of an exception"
    return type(e).__name__


def short(e):
    "Compact description of an exception with its innermost frames"
    tb = traceback.extract_tb(e.__traceback__)[-3:]
    return "%s(%s) at %s" % (type(e).__name__, str(e)[:200],
                             " < ".join("%s:%i" % (f.name, f.lineno)
                                        for f in reversed(tb)))


def set_value(B, m, i, val, form, state, spec):
    "Applies a substitution in one of its documented forms; updates the shadow"
    import numpy as np
    import gpkit
    v = spec["vars"][i]
    var = B.vars[i]
    payload = val
    if v["d"]:
        if form == "elem":
            for e, x in enumerate(val):
                m.substitutions[var[e]] = x
            state[i] = list(val)
            return
        payload = gen.shaped(v, np.array(val, "d") if form != "list"
                             else list(val))
    elif form == "quantity" and v["u"]:
        alt = gen.ALT[v["u"]][-1]
        payload = val*(gen.UNITS[v["u"]][1]/gen.UNITS[alt][1])*gpkit.ureg(alt)
    if form == "key":
        m.substitutions[var.key] = payload
    elif form == "str" and not v["d"]:
        m.substitutions[str(var.key.name)] = payload
    elif form == "update":
        m.substitutions.update({var: payload})
    else:
        m.substitutions[var if not v["d"] else var.key] = payload
    state[i] = list(val) if v["d"] else val


def del_value(B, m, i, state):
    "Frees a constant"
    del m.substitutions[B.vars[i].key]
    state[i] = None
