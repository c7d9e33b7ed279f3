"""Checks that a seed is one execution: the same runs, spread over other numbers
of workers in other processes, have the same event logs and findings.

usage: tools/determinism.py [runs [PROP ...]]   (of the machinery, not a check)"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from dst import runner, tree  # noqa: E402


def explore(prop, root, workers):
    "-> {index: what happened}"
    os.environ["DST_WORKERS"] = str(workers)
    chk = runner.Check(prop, os.environ.get("VERIF_SEED", "1"), "quick")
    chk.root = root
    results, errors = chk.explore()
    for e in errors[:1]:
        print(e[-800:])
    return {r["index"]: (r.get("digest"), r.get("events"),
                         [v["class"] for v in r.get("violations", [])],
                         tuple(r.get("states", []))) for r in results}


def main():
    "Each property twice"
    os.environ["DST_RUNS"] = sys.argv[1] if len(sys.argv) > 1 else "40"
    os.environ["DST_BUDGET"] = "600"
    props = sys.argv[2:] or sorted(
        f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "dst/props"))
        if f[0] == "c" and f.endswith(".py"))
    bad = 0
    for prop in props:
        root = tree.make_tree()
        try:
            one, two = (explore(prop, root, n) for n in (3, 5))
        finally:
            tree.drop_tree(root)
        both = sorted(set(one) & set(two))
        differ = [i for i in both if one[i] != two[i]]
        bad += len(differ)
        print("%s: %i runs twice, %i differ %s" % (
            prop, len(both), len(differ), differ[:10]), flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
