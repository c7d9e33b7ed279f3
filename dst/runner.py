"""Runs one property's check: many simulated runs, then verdict and evidence."""
import argparse
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time

from dst import tree, shrink

VERIF = tree.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")


def meta(prop):
    "Static facts about a property module, read without importing gpkit"
    mod = importlib.import_module("dst.props." + prop.lower())
    return mod


class Pool:
    "Worker interpreters over one scratch tree"
    def __init__(self, prop, root):
        self.prop, self.root, self.procs = prop, root, []

    def spawn(self, args, hashseed=0):
        "Starts a worker; its output goes to a file"
        n = len(self.procs)
        path = os.path.join(self.root, "out.%i" % n)
        err = os.path.join(self.root, "err.%i" % n)
        with open(path, "wb") as out, open(err, "wb") as errf:
            p = subprocess.Popen(
                [tree.PYTHON, "-m", "dst.worker", "--prop", self.prop,
                 "--known", KNOWN] + [str(a) for a in args],
                env=tree.worker_env(self.root, hashseed), stdout=out,
                stderr=errf, stdin=subprocess.DEVNULL,
                cwd=os.path.join(self.root, "cwd"), start_new_session=True)
        self.procs.append((p, path, err))
        return p, path, err

    def stop(self):
        "Ends whatever still runs"
        for p, _, _ in self.procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()


def read_lines(path):
    "The JSON lines of a worker's output"
    out = []
    with open(path) as f:
        for line in f:
            try:
                out.append(json.loads(line))
            except ValueError:
                pass
    return out


def merge(into, frm):
    "Adds up two counters"
    for k, v in frm.items():
        into[k] = into.get(k, 0) + v


class Check:
    "One invocation of a check"
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.mod = meta(prop)
        self.root = None
        self.began = time.time()
        self.known = [k for k in shrink.load_known(KNOWN)
                      if k["property"] == prop]

    def one(self, args, hashseed=0, timeout=300):
        "Runs one worker to completion; returns its output"
        pool = Pool(self.prop, self.root)
        pool.procs = [None]*0
        sub = os.path.join(self.root, "one")
        os.makedirs(sub, exist_ok=True)
        path = os.path.join(sub, "out")
        with open(path, "wb") as out:
            p = subprocess.Popen(
                [tree.PYTHON, "-m", "dst.worker", "--prop", self.prop,
                 "--known", KNOWN] + [str(a) for a in args],
                env=tree.worker_env(self.root, hashseed), stdout=out,
                stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                cwd=os.path.join(self.root, "cwd"), start_new_session=True)
            try:
                _, err = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                err = b"timeout"
        lines = read_lines(path)
        return lines[-1] if lines else {"error": err.decode()[-3000:]}

    def replay(self, path, hashseed=None):
        "Executes a replay file in a fresh process"
        with open(path) as f:
            rec = json.load(f)
        hs = rec.get("hashseed", 0) if hashseed is None else hashseed
        return self.one(["--trace", path], hashseed=hs), rec

    def explore(self):
        "The seeded search; returns the collected results"
        conf = self.mod.TIERS[self.tier]
        nw = int(os.environ.get("DST_WORKERS", conf.get("workers", 8)))
        runs = int(os.environ.get("DST_RUNS", conf["runs"]))
        budget = float(os.environ.get("DST_BUDGET", conf["budget"]))
        seeds = conf.get("hashseeds", [0])
        pool = Pool(self.prop, self.root)
        try:
            per = -(-runs // nw)
            for i in range(nw):
                pool.spawn(["--seed", self.seed, "--tier", self.tier,
                            "--start", i, "--stride", nw, "--count", per,
                            "--budget", budget],
                           hashseed=seeds[i % len(seeds)])
            deadline = time.time() + budget + 260
            for p, _, _ in pool.procs:
                try:
                    p.wait(timeout=max(1, deadline-time.time()))
                except subprocess.TimeoutExpired:
                    pass
            late = any(p.poll() is None for p, _, _ in pool.procs)
        finally:
            pool.stop()
        results, errors = [], []
        if late:
            errors.append("a worker did not finish in time")
        for i, (p, path, err) in enumerate(pool.procs):
            lines = read_lines(path)
            done = any("done" in l for l in lines)
            for l in lines:
                if "index" in l:
                    l["hashseed"] = seeds[i % len(seeds)]
                    results.append(l)
            if not done:
                with open(err) as f:
                    errors.append("worker %i: exit %s: %s"
                                  % (i, p.returncode, f.read()[-3000:]))
        results.sort(key=lambda l: l["index"])
        errors += [l["harness_error"] for l in results if "harness_error" in l]
        return results, errors

    def report(self, res, trace):
        "Minimises, writes and confirms the replay of one violation"
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(self.root, "trace.json")
        with open(path, "w") as f:
            json.dump(trace, f)
        hs = res.get("hashseed", 0)
        got = self.one(["--trace", path, "--shrink",
                        self.mod.TIERS[self.tier].get("shrink", 45)],
                       hashseed=hs)
        for cand, result in ((got.get("trace"), got.get("result")),
                             (trace, res)):
            if not cand or not shrink.classes(result, self.known, self.prop):
                continue
            v = [v for v in result["violations"]
                 if not shrink.is_known(self.known, self.prop, v)][0]
            rec = {"property": self.prop, "seed": trace["seed"],
                   "violation": v, "digest": result["digest"],
                   "hashseed": hs, "original_ops": len(trace.get("ops", [])),
                   "minimised_ops": len(cand.get("ops", [])),
                   "shrink_runs": got.get("tried"), "trace": cand}
            name = "%s-%s.json" % (self.prop, hashlib.md5(
                json.dumps(cand, sort_keys=True).encode()).hexdigest()[:10])
            out = os.path.join(VERIF, "replays", name)
            with open(out, "w") as f:
                json.dump(rec, f, indent=1)
            again, _ = self.replay(out)
            again = again.get("result", {})
            same = (v["class"] in shrink.classes(again, self.known, self.prop)
                    and again.get("digest") == result["digest"])
            rec["confirmed"] = same
            with open(out, "w") as f:
                json.dump(rec, f, indent=1)
            if same:
                return out, v
            if v["class"] in shrink.classes(again, self.known, self.prop):
                rec["confirmed"] = "same violation, different event log"
                with open(out, "w") as f:
                    json.dump(rec, f, indent=1)
                return out, v
        return None, None

    def run(self):
        "-> exit code"
        self.root = tree.make_tree()
        try:
            return self._run()
        finally:
            tree.drop_tree(self.root)

    def _run(self):
        wall0 = time.time()
        results, errors = self.explore()
        explore_s = time.time()-wall0
        bad = []
        for r in results:
            new = shrink.classes(r, self.known, self.prop)
            if new:
                bad.append(r)
        verdict, out = 0, None
        if bad:
            for r in bad[:3]:
                out, v = self.report(r, r["trace"])
                if out:
                    print("violation: %s: %s" % (v["class"], v["detail"]))
                    print("VIOLATION property=%s replay=%s" % (self.prop, out))
                    verdict = 1
                    break
            else:
                errors.append("violations that did not replay: %s"
                              % [r["violations"] for r in bad[:3]])
        knownhit = {}
        for r in results:
            for v in r.get("violations", []):
                k = shrink.is_known(self.known, self.prop, v)
                if k:
                    knownhit[k["id"]] = knownhit.get(k["id"], 0)+1
        for k in self.known:
            if k.get("replay"):
                got, _ = self.replay(os.path.join(VERIF, k["replay"]),
                                     hashseed=k.get("hashseed", 0))
                if any(shrink.is_known([k], self.prop, v) for v in
                       got.get("result", {}).get("violations", [])):
                    knownhit[k["id"]] = knownhit.get(k["id"], 0)+1
            if knownhit.get(k["id"]):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        minruns = self.mod.TIERS[self.tier].get("minruns", 50)
        if len(results) < minruns and not verdict:
            errors.append("only %i of at least %i runs finished"
                          % (len(results), minruns))
        self.evidence(results, explore_s, len(bad), knownhit)
        if errors and verdict:
            print("note: %i harness errors: %s" % (len(errors), errors[0]))
        if errors and not verdict:
            print("HARNESS ERROR (%i): %s" % (len(errors), errors[0]))
            return 2
        if not verdict:
            print("OK property=%s runs=%i" % (self.prop, len(results)))
        return verdict

    def evidence(self, results, explore_s, nbad, knownhit):
        "Writes evidence/<id>.json from what this invocation measured"
        good = [r for r in results if "harness_error" not in r]
        faults, probes, states, shapes, digs = {}, {}, set(), set(), set()
        simtime, events, solves = 0., 0, 0
        distinct = set()
        for r in good:
            merge(faults, r["faults"])
            merge(probes, r["probes"])
            states.update(r["states"])
            shapes.add(r["shape"])
            digs.add(r["digest"])
            simtime += r["simtime"]
            events += r["events"]
            solves += r["solves"]
            if r.get("nontrivial"):
                distinct.add(r["digest"])
        samples = []
        for r in good:
            if "trace" in r and len(samples) < 2:
                text = json.dumps(r["trace"])
                samples.append(r["trace"] if len(text) < 6000
                               else {"seed": r["trace"]["seed"],
                                     "truncated": text[:6000]})
        for p in getattr(self.mod, "PROBES", []):
            probes.setdefault(p, 0)
        for p in getattr(self.mod, "FAULTS", []):
            faults.setdefault(p, 0)
        n = len(good)
        wall = time.time()-self.began
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(self.seed),
            "level": self.mod.LEVEL,
            "coverage": {
                "evaluations": n,
                "distinct_nontrivial": len(distinct),
                "rule": self.mod.RULE,
                "samples": samples,
                "runs": n, "seeds": n,
                "runs_per_hour": int(n/explore_s*3600) if explore_s else 0,
                "seeds_per_hour": int(n/explore_s*3600) if explore_s else 0,
                "events": events, "solver_calls": solves,
                "simulated_seconds": round(simtime, 3),
                "faults_fired": dict(sorted(faults.items())),
                "probes_hit": dict(sorted(probes.items())),
                "distinct_interleavings": len(shapes),
                "interleaving_measure": "distinct sequences of event kinds "
                                        "(operation, seam call, fault, "
                                        "outcome) over whole runs",
                "distinct_states": len(states),
                "state_measure": getattr(self.mod, "STATE_MEASURE", ""),
                "distinct_event_logs": len(digs),
                "real_components": self.mod.REAL,
                "stubbed_components": self.mod.STUB,
                "violating_runs": nbad,
                "known_finding_hits": knownhit,
            },
            "assumptions": getattr(self.mod, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": nbad,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)


def selftest():
    "The interpreter, the scratch tree and the seams work here"
    root = tree.make_tree()
    try:
        code = ("from dst import world; world.install(); import gpkit; "
                "x = gpkit.Variable('x'); "
                "s = gpkit.Model(x, [x >= 2]).solve(verbosity=0); "
                "assert abs(s['cost']-2) < 1e-3 and world.W.solves == 1; "
                "print('selftest ok')")
        return subprocess.call([tree.PYTHON, "-W", "ignore", "-c", code],
                               env=tree.worker_env(root), cwd=root)
    finally:
        tree.drop_tree(root)


def main():
    "check PROP [--replay FILE] [--tier T]"
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    args = ap.parse_args()
    if args.selftest:
        return selftest()
    random.seed(0)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))
    chk = Check(args.prop, args.seed, args.tier)
    if args.replay:
        chk.root = tree.make_tree()
        try:
            got, rec = chk.replay(os.path.abspath(args.replay))
        finally:
            tree.drop_tree(chk.root)
        res = got.get("result", got)
        for v in res.get("violations", []):
            print("violation: %s: %s" % (v["class"], v["detail"]))
        if res.get("violations"):
            print("VIOLATION property=%s replay=%s" % (args.prop, args.replay))
            print("event log %s (recorded %s)"
                  % (res["digest"], rec.get("digest")))
            return 1
        print(json.dumps(res, indent=1)[:3000] if "harness_error" in res
              or "error" in res else "no violation")
        return 2 if "harness_error" in res or "error" in res else 0
    return chk.run()


if __name__ == "__main__":
    sys.exit(main())
