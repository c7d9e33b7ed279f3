"""C11: exchanging files with mosek's command line program survives faults."""
from dst import gen
from dst.props.c10 import expected, _gave_up

LEVEL = "exploration"
TECHNIQUE = ("a simulated mskexpopt program and a simulated disk: failing, "
             "torn, lost and stale files, full disks, failing system calls, "
             "interrupts and exit codes at seeded calls, bytes and files; "
             "after every solve the directories, processes and search path "
             "left behind are compared with a model of what may be there")
TIERS = {"quick": {"runs": 4000, "budget": 40, "minruns": 200, "shrink": 40},
         "thorough": {"runs": 100000, "budget": 900, "minruns": 200,
                      "shrink": 120}}
RULE = ("each run builds 1 random GP (a fifth: SP) and performs 4-9 solves, "
        "sweeps and local solves by mosek_cli in temporary or given "
        "directories, half of them under a fault of the disk or the program, "
        "and changes of constants, of where the program is installed and of "
        "what a directory holds; non-trivial: at least one fault fired and "
        "its outcome was judged")
REAL = ["gpkit (all of it)", "subprocess.check_output", "tempfile and shutil",
        "cvxopt solver (within the simulated program)"]
STUB = ["clock", "stdout", "subprocess.Popen: mskexpopt (a program that reads"
        " and writes its files)", "disk (real files opened through a layer "
        "that injects the faults)"]
STATE_MEASURE = "(operation, directory, fault, outcome)"
CLI = ["exit", "missing", "eacces", "enomem", "nosol", "torn", "lostline",
       "zeros", "digit", "interrupt", "chatter", "slow", "readonly"]
FAULTS = ["mskexpopt:"+k for k in CLI] + [
    "disk:enospc", "disk:eio", "disk:closeerror", "disk:openerror",
    "disk:interrupt", "disk:short", "disk:slow", "disk:readerror",
    "disk:shortread", "disk:mkdir"]
PROBES = ["compared", "failed", "survived-damage", "warned", "stale-file",
          "solved-after-failure", "path-extended", "not-installed",
          "skipped-points", "local", "given-directory", "other-directory"]
ASSUMPTIONS = ["the simulated mskexpopt follows the file formats and exit "
               "codes gpkit's adapter documents",
               "a damaged digit is noticed if the solution check warns"]

STALE = """PROBLEM STATUS      : PRIMAL_AND_DUAL_FEASIBLE
SOLUTION STATUS     : OPTIMAL
OBJECTIVE           : 1.000000e+000

PRIMAL VARIABLES
INDEX   ACTIVITY
%s
DUAL VARIABLES
INDEX   ACTIVITY
%s
"""


def gen_fault(rng):
    "What befalls a solve"
    if rng.random() < .6:
        k = rng.choice(CLI)
        if k == "exit":
            k = rng.choice(["exit=233", "exit=240", "exit=1", "exit=-9"])
        return {"by": "cli", "kind": k, "at": rng.choice(
            [0., rng.random(), rng.random(), .999]),
                "call": rng.choice([1, 1, 1, 2, 3])}
    k = rng.choice(["enospc", "enospc", "eio", "closeerror", "openerror",
                    "interrupt", "short", "slow", "readerror", "shortread",
                    "openerror-read", "mkdir"])
    p = {"by": "disk", "kind": k, "errno": rng.choice([13, 24, 28, 30]),
         "at": rng.choice([0, rng.randrange(300), rng.randrange(3000)])}
    if k in ("readerror", "openerror-read"):
        p.update(kind=k.split("-")[0], read=1, at=rng.choice(
            [0, rng.randrange(200)]))
    if k in ("short", "shortread"):
        p["at"] = rng.randrange(1, 3000)
    return p


def generate(rng, tier):
    "A run's trace"
    sp = rng.random() < .2
    spec = gen.gen_spec(rng, "m", sp=sp, units=rng.random() < .3,
                        part=rng.random() < .2, eq=True)
    consts = [i for i, v in enumerate(spec["vars"])
              if v["k"] == "const" and v["used"]
              and not v.get("limit") and not v["d"]]
    out = []
    for _ in range(rng.randint(4, 9)):
        kind = rng.choice(["solve", "solve", "solve", "sweep", "set",
                           "install", "plant"] if not sp else
                          ["localsolve", "localsolve", "set", "plant"])
        if kind in ("sweep", "set") and not consts:
            kind = "localsolve" if sp else "solve"
        op = {"op": kind}
        if kind == "set":
            op.update(i=rng.choice(consts), v=gen.rnd(rng, .5, 4))
        elif kind == "install":
            op.update(dir=rng.choice(["/opt/mosek/9/bin", "/opt/mosek/9",
                                      "/usr/lib/mosek/bin", None]),
                      told=rng.random() < .8)
        elif kind == "plant":
            op.update(dir=rng.choice("ab"),
                      what=rng.choice(["stale", "stale", "longer", "notes",
                                       "gone"]))
        else:
            op.update(dir=rng.choice([None, None, "a", "a", "b"]),
                      fault=gen_fault(rng) if rng.random() < .5 else None,
                      verbosity=rng.choice([0, 0, 0, 0, 3]))
        if kind == "sweep":
            lo = gen.rnd(rng, .5, 2)
            op.update(i=rng.choice(consts), skip=rng.random() < .5,
                      vals=[round(lo*(1+.4*j), 4)
                            for j in range(rng.randint(2, 4))])
        out.append(op)
    return {"spec": spec, "sp": sp, "ops": out, "clock": None,
            "path": rng.choice(["/usr/bin:/bin", "/usr/bin:/opt/mosek/9/bin64",
                                "/opt/mosek/9/bin-old:/bin",
                                "/opt/mosek/9/bin:/bin"])}


def nontrivial(trace, res):
    "A fault fired and was judged"
    p = res.get("probes", {})
    return bool(res.get("faults") and (p.get("failed") or p.get(
        "survived-damage") or p.get("compared")))


class Names:
    "Names of temporary directories, the same in every run"
    n = 0

    def __iter__(self):
        return self

    def __next__(self):
        Names.n += 1
        return "sim%i" % Names.n


class World:
    "What is, and may be, outside of the process"
    def __init__(self, path):
        import os
        import tempfile
        from dst import msk, simfs
        msk.install_cli()
        self.top = os.getcwd()
        self.tmp = tempfile.gettempdir()
        tempfile._name_sequence = Names()  # pylint: disable=protected-access
        os.environ["PATH"] = path
        self.path = path.split(":")
        self.mkdirfails = False
        mkdir = os.mkdir

        def sim_mkdir(*args, **kw):
            from dst.world import W
            if self.mkdirfails:
                W.fired("disk:mkdir")
                raise OSError(28, "sim: no space left on device")
            return mkdir(*args, **kw)
        os.mkdir = sim_mkdir
        for d in "ab":
            mkdir(d)
            with open(d+"/notes.txt", "w") as f:
                f.write("mine\n")
        self.listing = lambda d: sorted(os.listdir(d))
        simfs.install(os.path.dirname(self.tmp))
        msk.install_locks()

    def files(self, d):
        "Contents of the files in d which belong to the user"
        import os
        from dst import simfs
        return {n: simfs.raw_bytes(os.path.join(self.top, d, n))
                for n in self.listing(os.path.join(self.top, d))
                if n not in ("gpkit_mosek", "gpkit_mosek.sol")}


def plant(op, B):
    "Someone else changes a directory"
    import os
    from dst import simfs, msk
    msk.Cli.locked = set()     # and may do so
    d = op["dir"]
    if op["what"] == "gone":
        for n in os.listdir(d):
            if n.startswith("gpkit_mosek"):
                os.remove(os.path.join(d, n))
        return
    if op["what"] == "notes":
        simfs.put_bytes(d+"/gpkit_mosek.txt", b"mine, too\n")
        return
    more = 3 if op["what"] == "longer" else 0
    n = len([v for v in B.spec["vars"] if v["k"] == "free"])+more
    rows = "".join("%-7i %se-001   \n" % (i+1, "1.234567") for i in range(n))
    simfs.put_bytes(d+"/gpkit_mosek.sol", (STALE % (rows, rows)).encode())


def execute(trace):
    "Runs the trace"
    import gc
    import os
    import gpkit
    from dst import sess, msk
    from dst.simfs import FS
    from dst.world import W
    world = World(trace["path"])
    B = gen.build(trace["spec"])
    state = gen.state0(trace["spec"])
    m = B.m
    failed = False
    fds = None
    for op in trace["ops"]:
        kind = op["op"]
        W.ev("op", kind, op.get("dir"), (op.get("fault") or {}).get("kind"))
        if kind == "set":
            m.substitutions[B.vars[op["i"]]] = op["v"]
            state[op["i"]] = op["v"]
            continue
        if kind == "install":
            msk.Cli.bindir = op["dir"]
            gpkit.settings.pop("mosek_bin_dir", None)
            if op["told"] and op["dir"]:
                gpkit.settings["mosek_bin_dir"] = op["dir"]
            continue
        if kind == "plant":
            plant(op, B)
            if op["what"] in ("stale", "longer"):
                W.probe("stale-file")
            continue
        kw = {"solver": "mosek_cli", "verbosity": op["verbosity"]}
        if op["dir"]:
            kw["path"] = os.path.join(world.top, op["dir"])
            W.probe("given-directory")
        fault = op["fault"]
        if fault:
            kw["verbosity"] = 0    # at 1 gpkit goes on to debug the model
        mine = {d: world.files(d) for d in "ab"}
        told = gpkit.settings.get("mosek_bin_dir")
        msk.Cli.begin(dict(fault) if fault and fault["by"] == "cli" else None)
        W.begin_op({})
        before = sum(W.faults.values())
        world.mkdirfails = bool(fault) and fault["kind"] == "mkdir"
        FS.begin(dict(fault) if fault and fault["by"] == "disk" and
                 fault["kind"] != "mkdir" else None)
        with sess.quiet_stdout() as stdout:
            if kind == "solve":
                out = sess.call(m.solve, **kw)
            elif kind == "sweep":
                out = sess.call(m.sweep, {B.vars[op["i"]]: op["vals"]},
                                skipsweepfailures=op["skip"], **kw)
                m.substitutions[B.vars[op["i"]]] = state[op["i"]]
            else:
                out = sess.call(m.localsolve, **kw)
        FS.end()
        W.end_op()
        world.mkdirfails = False
        msk.Cli.plan = None
        W.ev("outcome", out[0] if out[0] == "ok" else sess.excname(out[1]))
        W.state(kind, op["dir"], fault and fault["kind"], out[0])
        if not residue(world, mine, op, told, kind, out):
            return
        fired = sum(W.faults.values()) > before
        absent = msk.Cli.bindir and msk.Cli.bindir not in \
            os.environ["PATH"].split(":")
        if absent:
            W.probe("not-installed")
        if not judge(trace, B, state, op, out, fired, absent,
                     stdout.text(), failed):
            return
        if out[0] == "exc":
            failed = True
        elif failed and not fired:
            W.probe("solved-after-failure")
        out = None
        gc.collect()
        n = len(world.listing("/proc/self/fd"))
        if fds is not None and not W.check(
                n <= fds, "files-left-open", lambda:
                "%i files open after %s, %i before" % (n, kind, fds)):
            return
        fds = n


def residue(world, mine, op, told, kind, out):
    "What the operation left behind"
    import os
    from dst import sess, msk
    from dst.world import W
    what = "%s in %s with %s (%s)" % (kind, op["dir"], op["fault"],
                                      sess.short(out[1]) if out[0] == "exc"
                                      else "ok")
    left = world.listing(world.tmp)
    if not W.check(not left, "temporary-files", "%s left %s in the temporary "
                   "directory" % (what, left)):
        return False
    for d in "ab":
        now = world.files(d)
        if not W.check(now == mine[d], "other-files", lambda:
                       "%s changed %s into %s" % (what, mine[d], now)):
            return False
        if d != op["dir"]:
            W.probe("other-directory")
    if not W.check(not msk.Cli.running, "orphan",
                   "%s left mskexpopt running" % what):
        return False
    want = list(world.path)
    if told and told not in want:
        want.append(told)
    got = os.environ["PATH"].split(":")
    if not W.check(got == want or kind == "sweep" and not got[len(want):] and
                   got == world.path, "search-path", lambda:
                   "%s left the search path as %s, should be %s"
                   % (what, got, want)):
        return False
    if got != world.path:
        W.probe("path-extended")
    world.path = got
    return W.check(os.getcwd() == world.top, "process-state",
                   "%s left the process elsewhere" % what)


def judge(trace, B, state, op, out, fired, absent, said, failed):
    "Is the outcome one of those the fault allows?"
    import gpkit
    from gpkit import exceptions as ex
    from dst import sess
    from dst.world import W
    what = "%s in %s with %s%s" % (op["op"], op["dir"], op["fault"],
                                   " after a failure" if failed else "")
    if out[0] == "exc":
        e = out[1]
        if not fired and not absent:
            if _gave_up(e) or trace["sp"] and "Unsolved after" in str(e):
                W.probe("solver-gave-up")
                return True
            W.violate("spurious-failure", "%s: %s" % (what, sess.short(e)))
            return False
        want = (ex.Infeasible, ex.InvalidLicense, ex.UnknownInfeasible)
        kind = (op["fault"] or {}).get("kind", "missing")
        if kind.startswith("exit=") and not absent and op["op"] == "solve":
            want = expected("mosek_cli", kind)
        if kind == "interrupt" and fired and (not absent or op["fault"]["by"] == "disk"):
            want = KeyboardInterrupt
        if op["op"] == "sweep":
            want = (want, RuntimeWarning, gpkit.exceptions.Infeasible)
        ok = isinstance(e, _flat(want))
        W.probe("failed")
        return W.check(ok, "wrong-exception", lambda:
                       "%s: %s" % (what, sess.short(e)))
    kind = (op["fault"] or {}).get("kind", "")
    fatal = kind.split("=")[0] in (
        "exit", "missing", "eacces", "enomem", "nosol", "interrupt",
        "enospc", "eio", "closeerror", "openerror", "readerror", "mkdir")
    if op["op"] == "solve" and not W.check(
            not (fired and fatal) and not absent, "failure-not-reported",
            "%s: a result although the exchange failed" % what):
        return False
    if fired:
        W.probe("survived-damage")
    if fired and "Solution check warning" in said:
        W.probe("warned")
        return True
    if op["op"] == "localsolve":
        return local_ok(trace, B, state, out[1], what, fired)
    pts = [(out[1], state)]
    if op["op"] == "sweep":
        key = B.vars[op["i"]].key
        n = len(out[1]["cost"]) if getattr(out[1]["cost"], "shape", ()) else 1
        pts = []
        for j in range(n):
            one = out[1].atindex(j) if n > 1 else out[1]
            pts.append((one, {**state, op["i"]: sess.mag(one["variables"][key])}))
        got = [s[op["i"]] for _, s in pts]
        if n < len(op["vals"]):
            W.probe("skipped-points")
        if not W.check(n == len(op["vals"]) or fired and op["skip"] or absent,
                       "lost-points", "%s: %s of %s" % (what, got, op["vals"])):
            return False
        if not W.check(all(any(sess.relclose(g, v, 1e-9) for v in op["vals"])
                           for g in got), "wrong-points", "%s: %s of %s" %
                       (what, got, op["vals"])):
            return False
    for one, s in pts:
        ref = gen.Ref(trace["spec"], s)
        r = ref.solve()
        if r["status"] != "optimal":
            W.probe("not-judged")
            continue
        if not sess.compare(one, B, ref, r, what, "wrong-answer"):
            return False
        W.probe("compared")
    return True


def _flat(t):
    "A flat tuple of classes"
    if not isinstance(t, tuple):
        return (t,)
    return sum((_flat(x) for x in t), ())


def local_ok(trace, B, state, sol, what, fired):
    "The point reported satisfies the model"
    from dst import sess
    from dst.world import W
    ref = gen.Ref(trace["spec"], state)
    x = [sess.value(sol, B, i, e) for i, e in ref.free]
    for kind, ms, ci, _ in ref.posys():
        if kind == "c":
            ok = sess.relclose(sum(ref.evalm(mo, x) for mo in ms),
                               sess.mag(sol["cost"]), 2e-3)
        elif kind == "le":
            ok = sum(ref.evalm(mo, x) for mo in ms) < 1+2e-3
        elif kind == "eq":
            ok = abs(ref.evalm(ms[0], x)-1) < 2e-3
        else:
            l, r = (sum(ref.evalm(mo, x) for mo in q) for q in ms)
            ok = r <= l*(1+5e-3) or sess.mag(sol["cost"]) == 0
            if not ok and sol.get("warnings"):
                ok = True   # slack, and said so
        if not W.check(ok, "wrong-answer", "%s: %s of constraint %s does not "
                       "hold" % (what, kind, ci)):
            return False
    W.probe("local")
    return True
