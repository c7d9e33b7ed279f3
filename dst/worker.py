"""Runs simulated executions, one forked process per run.

The worker imports gpkit once with the seams installed; every run then happens
in a fork of that pristine state, so runs cannot influence each other and one
seed is one repeatable execution.
"""
import argparse
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import traceback
import warnings


def load(prop):
    "Installs the seams, imports gpkit and the property module"
    from dst import world
    # what runs would import lazily, in every fork anew
    import numpy.testing, scipy.io, scipy.sparse  # noqa
    world.install()
    mod = __import__("dst.props." + prop.lower(), fromlist=["x"])
    if hasattr(mod, "before_import"):
        mod.before_import()
    warnings.simplefilter("ignore")
    import gpkit  # pylint: disable=unused-import
    import gpkit.constraints.relax, gpkit.constraints.bounded  # noqa
    import gpkit.solvers.cvxopt  # noqa
    src = os.path.join(os.environ["DST_ROOT"], "src")
    assert gpkit.__file__.startswith(src + os.sep), gpkit.__file__
    if hasattr(mod, "after_import"):
        mod.after_import()
    return mod


def seed_rng(prop, base, index):
    "The one PRNG of a run"
    return random.Random("%s/%s/%s" % (prop, base, index))


def in_gpkit(exc):
    "True if the exception was raised below a frame of the code under test"
    src = os.path.join(os.environ["DST_ROOT"], "src") + os.sep
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith(src):
            return True
    return False


def run_child(mod, trace):
    "Body of a run: executes a trace in this (forked) process"
    from dst.world import W, SimLimit
    W.reset(clock=trace.get("clock"), max_solves=trace.get("max_solves", 3000))
    real_out = sys.stdout
    try:
        mod.execute(trace)
    except SimLimit as e:
        W.violate("no-progress", "step bound exceeded: %s" % e)
    except Exception as e:  # pylint: disable=broad-except
        tb = traceback.format_exc()
        if in_gpkit(e):
            W.violate("unexpected-exception:" + type(e).__name__, tb[-1200:])
        else:
            return {"harness_error": tb}
    except BaseException as e:  # pylint: disable=broad-except
        return {"harness_error": "%r\n%s" % (e, traceback.format_exc())}
    finally:
        sys.stdout = real_out
    return {"violations": W.violations, "digest": W.digest(),
            "events": len(W.log), "simtime": W.span, "faults": W.faults,
            "probes": W.probes, "states": sorted(W.states),
            "solves": W.solves, "shape": shape(W.log)}


def shape(log):
    "Hash of the run's event kinds: its interleaving, values left out"
    import hashlib
    text = "|".join("%s:%s" % (e[1], e[2] if len(e) > 2
                               and isinstance(e[2], str) else "")
                    for e in log)
    return hashlib.md5(text.encode()).hexdigest()[:12]


def fork_run(fn, timeout=200, cpu=100):
    "Runs fn() in a fork; returns its JSON result"
    r, w = os.pipe()
    sys.stdout.flush()
    scratch = os.path.join(os.environ["DST_ROOT"], "runs", str(os.getpid()))
    os.makedirs(os.path.join(scratch, "tmp"), exist_ok=True)
    os.makedirs(os.path.join(scratch, "cwd"), exist_ok=True)
    try:
        return _fork_run(fn, timeout, cpu, r, w, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _fork_run(fn, timeout, cpu, r, w, scratch):
    "The forked half of fork_run"
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.environ["TMPDIR"] = os.path.join(scratch, "tmp")
            tempfile.tempdir = None
            os.chdir(os.path.join(scratch, "cwd"))
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu+10))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 1)
            if not os.environ.get("DST_DEBUG"):
                os.dup2(null, 2)
            out = fn()
            data = json.dumps(out, default=str).encode()
            while data:
                data = data[os.write(w, data):]
            code = 0
        except BaseException:  # pylint: disable=broad-except
            try:
                os.write(w, json.dumps({"harness_error":
                                        traceback.format_exc()}).encode())
            except BaseException:  # pylint: disable=broad-except
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    from dst.world import REAL_TIME
    deadline = REAL_TIME() + timeout
    timedout = False
    while True:
        left = deadline - REAL_TIME()
        if left <= 0:
            timedout = True
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            buf.append(chunk)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXCPU:
        return {"hang": "cpu limit"}
    if timedout:
        return {"harness_error": "run exceeded %ss of wall time" % timeout}
    try:
        return json.loads(b"".join(buf).decode())
    except ValueError:
        if os.WIFSIGNALED(status):
            return {"died": "signal %i" % os.WTERMSIG(status)}
        return {"died": "status %i, %r" % (status, b"".join(buf)[:200])}


def normalise(out):
    "Hangs and deaths of the simulated process are violations"
    if "hang" in out:
        return {"violations": [{"class": "no-progress",
                                "detail": "run did not end: " + out["hang"]}],
                "digest": "hang", "events": 0, "simtime": 0, "faults": {},
                "probes": {}, "states": [], "solves": 0, "shape": "hang"}
    if "died" in out:
        return {"violations": [{"class": "process-died",
                                "detail": out["died"]}],
                "digest": "died", "events": 0, "simtime": 0, "faults": {},
                "probes": {}, "states": [], "solves": 0, "shape": "died"}
    return out


def execute(mod, trace):
    "One run of a trace, in a fork (or several, if the property drives forks)"
    if hasattr(mod, "drive"):
        return normalise(mod.drive(trace, fork_run, run_child))
    return normalise(fork_run(lambda: run_child(mod, trace)))


def make_trace(mod, prop, base, index, tier):
    "The trace of one seed"
    rng = seed_rng(prop, base, index)
    trace = mod.generate(rng, tier)
    trace.setdefault("property", prop)
    trace["seed"] = "%s/%s/%s" % (prop, base, index)
    return trace


def main():
    "Worker entry point"
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--seed", default="1")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--count", type=int, default=10)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--trace")
    ap.add_argument("--shrink", type=float, default=0)
    ap.add_argument("--known")
    args = ap.parse_args()
    out = os.fdopen(os.dup(1), "w")
    from dst import world
    began = world.REAL_PERF()
    mod = load(args.prop)
    os.chdir(os.path.join(os.environ["DST_ROOT"], "cwd"))

    def emit(d):
        out.write(json.dumps(d, default=str) + "\n")
        out.flush()

    if args.trace:
        with open(args.trace) as f:
            trace = json.load(f)
        trace = trace.get("trace", trace)
        if args.shrink:
            from dst import shrink
            trace, result, tried = shrink.minimise(
                mod, trace, execute, args.shrink, shrink.load_known(args.known))
            emit({"trace": trace, "result": result, "tried": tried})
        else:
            emit({"trace": trace, "result": execute(mod, trace)})
        return
    index = args.start
    for _ in range(args.count):
        if world.REAL_PERF() - began > args.budget:
            break
        trace = make_trace(mod, args.prop, args.seed, index, args.tier)
        res = execute(mod, trace)
        res["index"] = index
        if res.get("violations") or "harness_error" in res or index < 3:
            res["trace"] = trace
        res["nontrivial"] = bool(mod.nontrivial(trace, res)) \
            if hasattr(mod, "nontrivial") else True
        emit(res)
        index += args.stride
    emit({"done": True})


if __name__ == "__main__":
    main()
