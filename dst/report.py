"""What a solution's printed reports must say, read back from the text."""
import math
import re

NUM = re.compile(r"^[+-]?(\d+\.?\d*(e[+-]?\d+)?|inf|\.\d+)%?$")
SECTIONS = {"Free Variables": "freevariables", "Fixed Variables": "constants",
            "Swept Variables": "sweepvariables",
            "Variable Sensitivities": "sensitivities",
            "Most Sensitive Variables": "top",
            "Next Most Sensitive Variables": "top",
            "WARNINGS": "warnings"}


def lineage(vk):
    "How a table heads the rows of a variable's model"
    return ".".join("%s%i" % (n, i) if i else n for n, i in vk.lineage or ())


def sections(text):
    "-> {title: its lines}"
    out, lines = {}, text.split("\n")
    title = None
    for i, line in enumerate(lines):
        nxt = lines[i+1] if i+1 < len(lines) else ""
        if nxt and line and set(nxt) <= {"-"} and len(nxt) > 3:
            title = line
            out[title] = []
        elif title is not None and not (set(line) <= {"-"} and line):
            out[title].append(line)
    return out


def numbers(text):
    "The numbers of a cell; ' - ' is a nan"
    out = []
    for w in text.replace("[", " ").replace("]", " ").split():
        if w == "-":
            out.append(float("nan"))
        elif NUM.match(w):
            out.append(float(w.rstrip("%")))
        else:
            return out
    return out


def rows(lines):
    "-> [(header, name, numbers, unit)] of a table of variables"
    out, head = [], ""
    for line in lines:
        if not line.strip():
            continue
        if re.match(r"^ *\| ", line) and " : " not in line:
            head = line.split("| ", 1)[1].strip()
            continue
        if " : " in line:
            name, rest = line.split(" : ", 1)
            name = name.strip()
            out.append([head, name, [], ""])
        else:
            rest = line
        if not out:
            continue
        vec = rest.lstrip().startswith("[") or " : " not in line
        if vec and rest.lstrip().startswith("["):
            cell = rest.lstrip()[1:]
            cell, _, tail = cell.partition(" ]")
            # the bracket may be the unit's, if the vector goes on below
            if "[" in cell:
                cell, _, u = cell.partition("[")
                tail = "[" + u + " ]"
        elif vec:
            cell, _, tail = rest.partition("]")
        else:
            cell, _, tail = rest.partition("[")
            tail = "[" + tail if tail else ""
        out[-1][2] += numbers(cell)
        m = re.search(r"\[(.*?)\]", tail)
        if m and not out[-1][3]:
            out[-1][3] = m.group(1).strip()
    return out


def flat(v):
    "All numbers of a value"
    import numpy as np
    return [float(x) for x in np.ravel(np.array(
        getattr(v, "magnitude", v), "d"))]


def same(got, want, rel, absol=0.):
    "Are these the numbers, as printed and in any order?"
    if len(got) != len(want):
        return False
    key = lambda x: (math.isnan(x), x)
    for a, b in zip(sorted(got, key=key), sorted(want, key=key)):
        if math.isnan(a) or math.isnan(b):
            if math.isnan(a) != math.isnan(b):
                return False
        elif abs(a-b) > rel*abs(b) + absol:
            return False
    return True


def printed(got, v, vals, rel, absol=0.):
    """Are these the numbers of this value, as printed?

    An array may be laid out along any one of its dimensions."""
    import numpy as np
    shape = getattr(v, "shape", None)
    if not shape or len(got) != len(vals):
        return same(got, vals, rel, absol)
    array = np.array(vals).reshape(shape)
    return any(all(same([a], [b], rel, absol) for a, b in
                   zip(got, np.moveaxis(array, h, -1).ravel()))
               for h in range(len(shape)))


def judge_rows(title, table, data, vec=6e-3, scalar=6e-4, absol=0.,
               hidden=0., maybe=0., blank=None, units=True):
    """Do a table's rows show this data? -> complaint or None

    hidden: rows at or below are left out; maybe: rows up to here may be"""
    got = {}
    for head, name, nums, unit in table:
        got.setdefault(name, []).append((head, nums, unit))
    for vk, v in data.items():
        vals = flat(v)
        real = [abs(x) for x in vals if not math.isnan(x)]
        name = vk.str_without(("lineage", "vec"))
        mine = got.get(name, [])
        if not real or max(real) <= hidden:
            continue
        if blank is not None and len(vals) > 1:
            vals = [float("nan") if abs(x) <= blank else x for x in vals]
        tol = vec if getattr(v, "shape", None) else scalar
        fits = [r for r in mine if printed(r[1], v, vals, tol, absol)
                and (not r[0] or r[0] == lineage(vk))]
        if not fits:
            if max(real) <= maybe and not any(
                    r[0] == lineage(vk) for r in mine):
                continue
            return "%s shows %s as %s, which is %s" % (
                title, vk, [r[:2] for r in mine], vals)
        if units and bool(fits[0][2]) != bool(vk.units):
            return "%s shows %s with unit %r" % (title, vk, fits[0][2])
    for name in got:
        vks = [vk for vk in data if vk.str_without(("lineage", "vec")) == name]
        if len(got[name]) > len(vks):
            return "%s has %i rows for %s, of which there are %i" % (
                title, len(got[name]), name, len(vks))
    return None


def judge_table(sol, text):
    "Does a table hold what the solution holds? -> complaint or None"
    import numpy as np
    secs = sections(text)
    swept = len(sol) > 1
    if "Optimal Cost" in secs:
        line = " ".join(l for l in secs["Optimal Cost"] if l.strip())
        want = flat(sol["cost"])
        nums = numbers(line.replace("...", ""))
        if not same(nums, want[:4] if swept else want, 6e-3):
            return "the cost is printed as %r, is %s" % (line, want)
    for title, part in SECTIONS.items():
        if title not in secs:
            continue
        table = rows(secs[title])
        if part in ("freevariables", "constants", "sweepvariables"):
            d = judge_rows(title, table, dict(sol[part]))
        elif part == "sensitivities":
            d = judge_rows(title, table, dict(sol["sensitivities"]["variables"]
                                              ), vec=6e-2, scalar=6e-2,
                           hidden=1e-3, units=False)
        else:
            continue
        if d:
            return d
    for title, part in SECTIONS.items():
        if part in ("freevariables", "constants", "sweepvariables") \
                and title not in secs and any(
                        np.nanmax(np.abs(flat(v) + [0.])) > 0
                        for v in dict(sol.get(part, {})).values()):
            return "the table has no %s" % title
    return None


def judge_tight(sol, text, want, least=1e-2):
    "Are the tightest constraints those of the solution?"
    for title, lines in sections(text).items():
        if not title.startswith("Most Sensitive Constraints"):
            continue
        got = []
        for line in lines:
            if " : " in line:
                got += numbers(line.split(" : ")[0])
        vals = []
        for v in sol["sensitivities"]["constraints"].values():
            v = float(np_last(v))
            if v >= least:
                vals.append(v)
        vals = sorted(vals, reverse=True)[:want]
        if not same(got, vals, 6e-2):
            return "the most sensitive constraints are shown as %s, are %s" % (
                got, vals)
    return None


def np_last(v):
    "The last point's value"
    v = flat(v)
    return v[-1]


def rel_diffs(a, b):
    "Relative differences of two solutions' variables, in percent"
    import numpy as np
    out = {}
    theirs = {vk: v for vk, v in dict(b["variables"]).items()}
    for vk, v in dict(a["variables"]).items():
        if vk in theirs:
            with np.errstate(all="ignore"):
                out[vk] = 100*(np.array(v, "d")/np.array(theirs[vk], "d")-1)
    return out


def judge_diff(a, b, text, reltol=1.):
    "Does a diff show where two solutions differ? -> complaint or None"
    import numpy as np
    data = rel_diffs(a, b)
    title = "Relative Differences |above %g%%|" % reltol
    secs = sections(text)
    if not data:
        return None
    if title not in secs:
        return "the diff has no %r" % title
    table = rows(secs[title])
    for vk, v in data.items():   # too close to the limit to call
        v = np.ravel(v)
        if any(abs(abs(x)-reltol) < .06 for x in v):
            data = {k: w for k, w in data.items() if k != vk}
            name = vk.str_without(("lineage", "vec"))
            table = [r for r in table if r[1] != name]
    d = judge_rows(title, table, data, vec=1e-3, scalar=1e-3, absol=.06,
                   hidden=reltol, blank=reltol, units=False)
    if d:
        return d
    for _, name, nums, _ in table:
        vals = [abs(x) for vk, v in data.items()
                if vk.str_without(("lineage", "vec")) == name for x in flat(v)]
        if vals and max([x for x in vals if x == x] or [0]) <= reltol:
            return "%s shows %s, which differs by less" % (title, name)
    return None
