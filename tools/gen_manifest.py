"""Writes MANIFEST.json from properties.jsonl, the property modules and NA."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def main():
    "Regenerates MANIFEST.json"
    with open(os.path.join(VERIF, "not_applicable.json")) as f:
        na = json.load(f)
    checks, nas = [], []
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        props = [json.loads(l) for l in f if l.strip()]
    for p in props:
        pid = p["id"]
        path = os.path.join(VERIF, "dst", "props", pid.lower()+".py")
        if pid in na:
            nas.append({"property": pid, "reason": na[pid]})
            continue
        assert os.path.exists(path), pid
        mod = importlib.import_module("dst.props."+pid.lower())
        note = ("Seeded search over simulated runs; a clean batch is evidence,"
                " not proof. %s Trusted: %s."
                % (getattr(mod, "NOTE", ""),
                   "; ".join(mod.ASSUMPTIONS + ["stubbed: "
                                                + ", ".join(mod.STUB)])))
        checks.append({
            "property": pid,
            "quick_cmd": "./check %s --tier quick" % pid,
            "thorough_cmd": "./check %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "deterministic simulation with fault injection: "
                         + mod.TECHNIQUE,
            "level": mod.LEVEL, "level_note": note})
    out = {"version": 1,
           "setup_cmd": "./check --selftest",
           "checks": checks, "not_applicable": nas,
           "hooks": {"guard": "none", "enable": "no hooks were needed: the "
                     "seams are the cvxopt entry point, the mosek module, "
                     "the process's clock, stdout, files and subprocesses",
                     "source_commits": []},
           "notes": "Every check copies /repo's working tree into a scratch "
                    "directory, imports it with the seams installed and runs "
                    "each simulated execution in a fork of that state."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
