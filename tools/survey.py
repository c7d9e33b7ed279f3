"""Lists every class of violation a search finds, with one example each.

usage: tools/survey.py C02 [runs [seed]]   (a development aid, not a check)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import runner, tree  # noqa: E402


def main():
    "Explore, then summarise"
    prop = sys.argv[1]
    os.environ.setdefault("DST_RUNS", sys.argv[2] if len(sys.argv) > 2
                          else "800")
    chk = runner.Check(prop, sys.argv[3] if len(sys.argv) > 3 else "1",
                       os.environ.get("VERIF_TIER", "quick"))
    chk.root = tree.make_tree()
    try:
        results, errors = chk.explore()
    finally:
        tree.drop_tree(chk.root)
    classes, probes, faults = {}, {}, {}
    for r in results:
        runner.merge(probes, r.get("probes", {}))
        runner.merge(faults, r.get("faults", {}))
        for v in r.get("violations", []):
            classes.setdefault(v["class"], []).append((r["index"], v))
    print(len(results), "runs,", len(errors), "errors",
          sum(1 for r in results if r.get("nontrivial")), "nontrivial")
    for e in errors[:2]:
        print(e[-2500:])
    print("probes", dict(sorted(probes.items())))
    print("faults", dict(sorted(faults.items())))
    for c, vs in sorted(classes.items()):
        print("== %s: %i, seeds %s" % (c, len(vs), sorted({i for i, _ in vs})[:12]))
        for _, v in vs[:int(os.environ.get("N", 2))]:
            print("    ", v["detail"][-1400:])


if __name__ == "__main__":
    main()
