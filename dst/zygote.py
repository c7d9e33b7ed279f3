"""More simulated processes: interpreters with other hash seeds.

Some properties concern what one process leaves behind for another.  A run of
theirs has phases; each phase is a fork of an interpreter that has imported
gpkit with the seams installed, and those interpreters differ in their hash
seed, which is the one thing a fork cannot change.
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys

from dst import tree

OWN = {}   # hash seed -> running interpreter


class Zygote:
    "An interpreter that runs phases in forks of itself"
    def __init__(self, prop, hashseed):
        self.p = subprocess.Popen(
            [tree.PYTHON, "-m", "dst.zygote", prop],
            env=tree.worker_env(os.environ["DST_ROOT"], hashseed),
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            cwd=os.path.join(os.environ["DST_ROOT"], "cwd"))

    def run(self, req):
        "Runs one phase"
        self.p.stdin.write(json.dumps(req).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {"harness_error": "an interpreter ended unexpectedly"}
        return json.loads(line)


def stop():
    "Ends the interpreters started by this process"
    for z in OWN.values():
        z.p.stdin.close()
        z.p.kill()
        z.p.wait()
    OWN.clear()


def run_phase(prop, trace, hashseed, fork_run, run_child, mod):
    "One phase, in an interpreter with that hash seed"
    if str(hashseed) == os.environ.get("PYTHONHASHSEED"):
        return fork_run(lambda: run_child(mod, trace))
    if hashseed not in OWN:
        OWN[hashseed] = Zygote(prop, hashseed)
    return OWN[hashseed].run(trace)


def drive(prop, trace, phases, fork_run, run_child, between=None,
          override=None):
    """Runs the phases of a trace one after the other; merges their results.

    phases: [hash seed]; each phase executes the trace with "phase" and "dir"
    set, the directory being what outlives a process.
    between(k, dir): what happens to that directory after phase k
    override(k): what else differs in phase k's trace"""
    import importlib
    mod = importlib.import_module("dst.props." + prop.lower())
    top = os.path.join(os.environ["DST_ROOT"], "runs", "d%i" % os.getpid())
    os.makedirs(top)
    out = None
    try:
        for k, hs in enumerate(phases):
            req = dict(trace, phase=k, dir=top)
            if override:
                req.update(override(k))
            res = run_phase(prop, req, hs, fork_run, run_child, mod)
            if "hang" in res or "died" in res or "harness_error" in res:
                return res
            out = res if out is None else merge(out, res)
            if res["violations"]:
                break
            if between:
                between(k, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return out


def merge(a, b):
    "The result of two phases"
    out = dict(a)
    out["violations"] = a["violations"] + b["violations"]
    out["digest"] = hashlib.sha256((a["digest"]+b["digest"]).encode()
                                   ).hexdigest()[:32]
    out["shape"] = hashlib.md5((a["shape"]+b["shape"]).encode()
                               ).hexdigest()[:12]
    for k in ("events", "simtime", "solves"):
        out[k] = a[k] + b[k]
    for k in ("faults", "probes"):
        out[k] = dict(a[k])
        for n, v in b[k].items():
            out[k][n] = out[k].get(n, 0) + v
    out["states"] = sorted(set(a["states"]) | set(b["states"]))
    return out


def main():
    "Interpreter entry point"
    from dst import worker
    prop = sys.argv[1]
    out = os.fdopen(os.dup(1), "w")
    mod = worker.load(prop)
    os.chdir(os.path.join(os.environ["DST_ROOT"], "cwd"))
    for line in sys.stdin:
        req = json.loads(line)
        # pylint: disable=cell-var-from-loop
        res = worker.fork_run(lambda: worker.run_child(mod, req))
        out.write(json.dumps(res, default=str) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
