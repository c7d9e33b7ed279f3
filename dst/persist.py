"""What a solution says, as plain data; the ways of saving and loading it."""
import math

from dst import gen

# files a solution can be loaded from again, and files that are only read
FORMATS = ["save", "save", "save-", "pgz", "pgz", "pgz-", "pickle"]
REPORTS = ["txt", "csv", "mat"]


def num(x):
    "A number or array, exactly"
    import numpy as np
    x = getattr(x, "magnitude", x)
    if isinstance(x, np.ndarray):
        return [list(x.shape)] + [num(e) for e in x.ravel()]
    if isinstance(x, (list, tuple)):
        return [num(e) for e in x]
    try:
        f = float(x)
    except (TypeError, ValueError):
        return type(x).__name__
    return "nan" if math.isnan(f) else f.hex()


def unit(x):
    "Its units"
    return str(getattr(x, "units", "") or "")


def vkname(vk):
    "Everything about a variable that does not vary between processes"
    extra = sorted((k, str(v)) for k, v in vk.descr.items()
                   if k in ("label", "note", "pr", "choices", "sensible"))
    return repr((vk.name, vk.lineage, vk.idx, vk.shape, vk.unitrepr, extra))


def table_lines(text):
    "Lines of a table in no order (equal rows may come in any)"
    return sorted(line.rstrip() for line in text.split("\n") if line.strip())


TABLES = ("cost", "warnings", "sweepvariables", "freevariables", "constants",
          "sensitivities")


def view(sol, cons=True, tables=True):
    "Plain data holding everything a solution reports"
    out = {"len": len(sol), "cost": [num(sol["cost"]), unit(sol["cost"])]}
    for t in ("variables", "freevariables", "constants", "sweepvariables"):
        if t in sol:
            out[t] = {vkname(vk): num(v) for vk, v in dict(sol[t]).items()}
    s = sol["sensitivities"]
    out["sens"] = {vkname(vk): num(v)
                   for vk, v in dict(s["variables"]).items()}
    if cons and "constraints" in s:
        cs = {}
        for c, v in s["constraints"].items():
            cs.setdefault(str(c), []).append(num(v))
        out["cons"] = {k: sorted(v, key=str) for k, v in cs.items()}
    for k in ("cost", "models"):
        if k in s:
            out["sens-"+k] = {str(getattr(q, "name", q)): num(v)
                              for q, v in dict(s[k]).items()}
    if "warnings" in sol:
        out["warnings"] = sorted(
            [t, sorted(sorted(str(w[0]) for w in (data or []))
                       for data in (d if hasattr(d, "shape") else [d]))]
            for t, d in sol["warnings"].items())
    by = {}
    for vk in dict(sol["variables"]):
        by.setdefault(vk.name, []).append(vk)
    for name, vks in sorted(by.items()):
        if len(vks) == 1:
            q = sol(name)
            out["call:"+name] = [num(q), unit(q),
                                 num(sol["variables"][name]),
                                 num(sol["variables"][vks[0]])]
    if hasattr(sol, "atindex") and len(sol) > 1:
        out["points"] = [[num(sol.atindex(i)["cost"]),
                          {vkname(k): num(v) for k, v in
                           dict(sol.atindex(i)["variables"]).items()}]
                         for i in range(len(sol))]
    if tables:
        out["table"] = table_lines(sol.table(tables=TABLES))
        out["model"] = sorted(getattr(sol, "modelstr", "").split("\n"))
    return out


def difference(a, b, where=""):
    "Where two views differ, or None"
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s has %r only %s" % (
                    where or "the solution", k,
                    "when loaded" if k in b else "when saved")
            d = difference(a[k], b[k], where + "/" + str(k))
            if d:
                return d
        return None
    if a != b:
        return "%s is %s when loaded, was %s" % (where, str(b)[:300],
                                                 str(a)[:300])
    return None


def sweep_view(bst, vals, names):
    "Plain data holding what an autosweep reports"
    o = bst.sample_at(vals)
    out = {"bounds": num(list(bst.bounds)), "cost": num(o("cost")),
           "lb": num(o.cost_lb()), "ub": num(o.cost_ub()),
           "n": len(bst.sollist)}
    for n in names:
        out["v:"+n] = [num(o(n)), unit(o(n))]
    out["sols"] = view(bst.solarray, tables=False)
    return out


def save(sol, how, path, proto=None):
    "Saves"
    import pickle
    kw = {} if proto is None else {"protocol": proto}
    if how == "save":
        sol.save(path, **kw)
    elif how == "save-":
        sol.save(path, saveconstraints=False, **kw)
    elif how == "pgz":
        sol.save_compressed(path, **kw)
    elif how == "pgz-":
        sol.save_compressed(path, saveconstraints=False, **kw)
    elif how == "pickle":
        with open(path, "wb") as f:
            pickle.dump(sol, f, **kw)
    elif how == "txt":
        sol.savetxt(path, tables=TABLES)
    elif how == "csv":
        sol.savecsv(filename=path)
    elif how == "mat":
        sol.savemat(path)
    elif how == "bst":
        sol.save(path)
    else:
        raise ValueError(how)


def load(how, path):
    "Loads"
    import pickle
    from gpkit.solution_array import SolutionArray
    if how in ("pgz", "pgz-"):
        return SolutionArray.decompress_file(path)
    with open(path, "rb") as f:
        return pickle.load(f)


def judge_report(sol, how, path):
    "Does a text, spreadsheet or matlab file hold the solution's values?"
    import numpy as np
    from dst.simfs import REAL_OPEN
    if how == "txt":
        with REAL_OPEN(path) as f:
            got = f.read()
        want = getattr(sol, "modelstr", "") + "\n" + sol.table(tables=TABLES)
        if table_lines(got) != table_lines(want):
            return "the text file is not the solution's table"
    elif how == "mat":
        from scipy.io import loadmat
        with REAL_OPEN(path, "rb") as f:
            got = {k: v for k, v in loadmat(f).items() if k[:2] != "__"}
        vals = {k: v for k, v in dict(sol["variables"]).items()}
        if len(got) != len(vals):
            return "the matlab file has %i variables, not %i" % (len(got),
                                                                 len(vals))
        for vk, v in vals.items():
            names = [n for n in got if n == vk.name
                     or n.endswith("_"+vk.name)]
            v = np.array(v, "f").ravel()
            if not any(np.ravel(got[n]).shape == v.shape and
                       np.array_equal(np.ravel(got[n]), v, equal_nan=True)
                       for n in names):
                return "the matlab file's %s is not %s" % (vk.name, v)
    elif how == "csv":
        with REAL_OPEN(path) as f:
            rows = [line.split(",") for line in f.read().split("\n")]
        for vk, v in dict(sol["variables"]).items():
            mine = [r for r in rows[1:] if len(r) > 2 and vk.name in r[1]]
            if not mine:
                return "the spreadsheet has no row for %s" % vk.name
            v = np.atleast_1d(np.array(v, "d")).ravel()
            first = "%.3g" % v[0] if v[0] == v[0] else "-"
            if not any(_near(r[2], first) for r in mine):
                return "the spreadsheet's %s begins with %s, is %s" % (
                    vk.name, [r[2] for r in mine], first)
    return None


def _near(text, want):
    try:
        a, b = float(text), float(want)
    except ValueError:
        return text == want
    return abs(a-b) <= 6e-3*abs(b) or (math.isnan(a) and math.isnan(b))


def solved(B, op, spec, state):
    "Performs a solve op; -> solution (or autosweep) and its kind"
    from gpkit.tools.autosweep import autosweep_1d
    m = B.m
    k = op["op"]
    if k == "solve":
        return m.solve(verbosity=0)
    if k == "localsolve":
        return m.localsolve(verbosity=0)
    if k == "program":
        m.solve(verbosity=0)
        return m.program.result
    if k == "debug":
        return m.debug(verbosity=0)
    if k == "sweep":
        var = B.vars[op["i"]]
        return m.sweep({var: op["vals"]}, verbosity=0)
    if k == "sweep2":
        kept = {k: m.substitutions[B.vars[op[k]]] for k in "ij"}
        m.substitutions.update({B.vars[op["i"]]: ("sweep", op["vals"]),
                                B.vars[op["j"]]: ("sweep", op["jvals"])})
        try:
            return m.solve(verbosity=0)
        finally:
            m.substitutions.update({B.vars[op[k]]: kept[k] for k in "ij"})
    if k == "autosweep":
        var = B.vars[op["i"]]
        return autosweep_1d(m, .05, var.key, [op["vals"][0], op["vals"][-1]],
                            verbosity=0)
    raise ValueError(k)


def decorate(rng, spec):
    "Labels and other descriptions for a spec's variables"
    for v in spec["vars"]:
        if rng.random() < .3:
            v["descr"] = dict(rng.sample([("label", "a label, with comma"),
                                          ("note", "n"), ("pr", 20),
                                          ("label", "plain")],
                                         rng.randint(1, 2)))


def gen_solve(rng, spec, sp=False):
    "A random way of obtaining a solution"
    V = spec["vars"]
    consts = [i for i, v in enumerate(V) if v["k"] == "const" and v["used"]
              and not v.get("limit") and not v["d"]]
    if sp:
        kind = rng.choice(["localsolve", "localsolve", "debug"])
    else:
        kind = rng.choice(["solve", "solve", "program", "sweep", "sweep",
                           "sweep2", "autosweep", "debug"])
    if kind in ("sweep", "autosweep", "sweep2") and not consts:
        kind = "solve"
    op = {"op": kind}
    if kind in ("sweep", "autosweep", "sweep2"):
        lo = gen.rnd(rng, .5, 2)
        n = rng.randint(1, 4) if kind != "autosweep" else 2
        op.update(i=rng.choice(consts),
                  vals=[round(lo*(1+.5*j), 4) for j in range(n)])
        rest = [i for i in consts if i != op["i"]]
        if kind == "sweep2":
            if not rest:
                op["op"] = "sweep"
            else:
                op.update(j=rng.choice(rest), jvals=[1., 1.5])
    return op
