"""C14: builds and first imports find the solvers, whatever cuts them off."""
import io
import json
import os

import re
import select
import signal
import subprocess
import sys
import types

LEVEL = "exploration"
TECHNIQUE = ("simulated processes import and build gpkit on one simulated "
             "disk, interleaved at every disk operation by a seeded "
             "scheduler, with crashes, disk errors and interrupts there; "
             "imports are judged against the solvers there are")
TIERS = {"quick": {"runs": 2000, "budget": 45, "minruns": 60, "shrink": 60},
         "thorough": {"runs": 100000, "budget": 900, "minruns": 200,
                      "shrink": 200}}
RULE = ("each run has 2-4 waves of 1-3 processes which import gpkit anew from "
        "one installation and may build it, on machines whose solvers come "
        "and go, followed by an import on its own; half of the processes "
        "meet a crash, error or interrupt at a disk operation, and settings "
        "are blanked, torn, removed or edited between waves; non-trivial: a "
        "process built gpkit")
REAL = ["gpkit's import, settings and build", "the disk below it",
        "one process per simulated process"]
STUB = ["scheduling of processes at disk operations", "disk errors",
        "mosek and mskexpopt (present or not)", "stdout",
        "the unit tests a first import runs"]
STATE_MEASURE = "(disk operations of all processes, in order, of a wave)"
FAULTS = ["crash", "interrupt", "errno", "torn-write"]
PROBES = ["built-by-import", "built", "import-alone", "import-together",
          "crashed", "error-told", "interrupted", "error-survived",
          "no-solvers", "blank", "edited", "mosek-elsewhere", "retried",
          "overridden", "settings-kept"]
ASSUMPTIONS = ["a process's crash does not undo what it had written (no loss "
               "of power)", "the processes of a wave see the same solvers"]

EDITS = ["blank", "empty", "nofile", "nodir", "torn", "zeros", "nonewline",
         "extra", "comment", "crlf"]


def generate(rng, tier):
    "A run's trace"
    def world():
        w = {"cvxopt": rng.random() < .75,
             "mosek": rng.choice([None, None, "old", "pexp"]),
             "expopt": rng.choice([None, None, "path", "home", "MSKHOME"]),
             "code": rng.choice([1052, 28]), "version": rng.choice("78"),
             "env": None}
        if rng.random() < .12:
            w["env"] = rng.choice(["cvxopt", "mosek_cli, cvxopt",
                                   "mosek_conif"])
        return w
    now = world()
    waves = []
    for _ in range(rng.randint(2, 4)):
        if rng.random() < .4:
            now = world()
        procs = []
        faults = rng.random() < .6
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            ops = ["import"]
            if rng.random() < .45:
                ops.append("build")
                if rng.random() < .3:
                    ops.append(rng.choice(["build", "again"]))
            p = {"ops": ops, "faults": {}}
            if faults and rng.random() < .7:
                k = rng.choice(["crash", "crash", "crash", "errno", "errno",
                                "interrupt"])
                p["faults"][str(rng.randint(0, 12))] = {
                    "kind": k, "errno": rng.choice([28, 13, 5, 30]),
                    "frac": rng.random()}
                if "again" not in ops and rng.random() < .4:
                    p["ops"].append("again")
            procs.append(p)
        wave = {"world": now, "procs": procs, "edit": None,
                "sched": [rng.randint(0, 5) for _ in range(40)],
                "burst": rng.choice([0, 0, .5, .9])}
        if rng.random() < .45 or not waves and rng.random() < .6:
            wave["edit"] = [rng.choice(EDITS[:1]*4 + EDITS), rng.random()]
        waves.append(wave)
    return {"waves": waves, "seed2": rng.randrange(10**6), "clock": None}


def nontrivial(trace, res):
    "Something was built"
    p = res.get("probes", {})
    return bool(p.get("built") or p.get("built-by-import"))


def after_import():
    "Caches what simulated processes will import"
    import compileall
    src = os.path.join(os.environ["DST_ROOT"], "src", "gpkit")
    compileall.compile_dir(src, quiet=2, workers=1)


# -- a simulated process ------------------------------------------------------

class Proc:
    "This process's side of the simulation"
    inp = out = None     # pipes from and to the scheduler
    env = None           # the simulated disk
    quiet = False
    inlet = False

    @classmethod
    def tell(cls, **msg):
        "Tells the scheduler"
        cls.out.write(json.dumps(msg, default=str) + "\n")
        cls.out.flush()

    @classmethod
    def seam(cls, kind, path):
        "A disk operation: whatever the scheduler decides befalls it"
        if cls.inlet:
            return {"do": "go"}
        name = os.path.basename(path)
        name = name if name in ("env", "settings", "build.log") else "other"
        cls.inlet = True
        try:
            cls.tell(at=kind, name=name)
            msg = json.loads(cls.inp.readline())
        finally:
            cls.inlet = False
        if msg["do"] == "crash" and kind != "write":
            os._exit(99)
        if msg["do"] == "interrupt":
            raise KeyboardInterrupt("sim: interrupt at %s" % kind)
        if msg["do"] == "errno" and kind != "write":
            raise OSError(msg["errno"], "sim: " + os.strerror(msg["errno"]),
                          path)
        return msg

    @classmethod
    def inside(cls, path):
        "Is it on the simulated disk?"
        if isinstance(path, int) or path is None:
            return None
        try:
            path = os.path.abspath(os.fsdecode(path))
        except (TypeError, FileNotFoundError):
            return None
        return path if (path + os.sep).startswith(cls.env + os.sep) else None


class Raw(io.FileIO):
    "A file on the simulated disk"
    def write(self, b):
        "Writes"
        b = bytes(b)
        msg = Proc.seam("write", self.name)
        if msg["do"] in ("crash", "errno"):
            n = int(len(b)*msg["frac"])
            if n:
                super().write(b[:n])
            if msg["do"] == "crash":
                os._exit(98 if n else 99)
            raise OSError(msg["errno"], "sim: " + os.strerror(msg["errno"]))
        return super().write(b)


def seams(env):
    "Puts the simulated disk in place"
    import builtins
    import shutil
    Proc.env = env
    real = io.open

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
                 newline=None, closefd=True, opener=None):
        path = Proc.inside(file)
        if not path:
            return real(file, mode, buffering, encoding, errors, newline,
                        closefd, opener)
        Proc.seam("open" if any(c in mode for c in "wax+") else "read", path)
        raw = Raw(path, "".join(c for c in mode if c in "rwax+"))
        if "b" in mode and buffering == 0:
            return raw
        buf = io.BufferedWriter(raw) if "r" not in mode \
            else io.BufferedReader(raw)
        return buf if "b" in mode else io.TextIOWrapper(
            buf, encoding, errors, newline, buffering == 1)
    builtins.open = io.open = sim_open
    if hasattr(shutil, "_use_fd_functions"):
        shutil._use_fd_functions = False

    def wrap(name):
        fn = getattr(os, name)

        def op(*args, **kw):
            "a disk operation"
            path = next(filter(None, map(Proc.inside, args[:2])), None)
            if path:
                Proc.seam(name, path)
            return fn(*args, **kw)
        setattr(os, name, op)
    for name in ("mkdir", "rmdir", "unlink", "remove", "rename", "replace",
                 "listdir", "scandir", "stat", "lstat"):
        wrap(name)


class Popen:
    "Stands in for subprocess.Popen, for mskexpopt's sake"
    world = {}
    bindir = None

    def __init__(self, args, *_, stdout=None, **__):
        prog = args if isinstance(args, str) else args[0]
        path = os.environ.get("PATH", "").split(os.pathsep)
        here = "mskexpopt" in prog and (
            self.world["expopt"] == "path" or self.world["expopt"]
            and self.bindir in path)
        self.args, self.pid, self.stdin = args, 4242, None
        self.stdout = io.BytesIO() if stdout else None
        self.stderr = None
        self.code = self.world["code"] if here else 127
        self.returncode = None

    def wait(self, timeout=None):
        "Its return code"
        self.returncode = self.code
        return self.code
    poll = wait

    def communicate(self, *_, **__):
        "Waits for it"
        self.wait()
        return b"", b""

    def kill(self):
        "Ends it"
    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.wait()


def fresh():
    "Forgets gpkit, but for its registry of units, which is slow to make"
    for n in list(sys.modules):
        if (n == "gpkit" or n.startswith("gpkit.")) and n != "gpkit.units":
            del sys.modules[n]
    # a first import goes on to run gpkit's unit tests
    sys.modules["gpkit.tests"] = types.ModuleType("gpkit.tests")
    sys.modules["gpkit.tests.run_tests"] = types.ModuleType("run_tests")
    sys.modules["gpkit.tests.run_tests"].run = lambda *_, **__: None


def process(spec, world, site, home, cwd):
    "The life of a simulated process"
    os.chdir(cwd)
    os.environ["HOME"] = home
    if world["expopt"] == "MSKHOME":
        os.environ["MSKHOME"] = os.path.join(home, "elsewhere")
    if world["env"]:
        os.environ["GPKITSOLVERS"] = world["env"]
    Popen.world, Popen.bindir = world, bindir(world, home)
    subprocess.Popen = Popen
    for n in list(sys.modules):
        if n.split(".")[0] in ("cvxopt", "mosek"):
            del sys.modules[n]
    sys.modules["cvxopt"] = types.ModuleType("cvxopt") if world["cvxopt"] \
        else None
    sys.modules["mosek"] = None
    if world["mosek"]:
        m = sys.modules["mosek"] = types.ModuleType("mosek")
        m.conetype = types.SimpleNamespace(quad=0)
        if world["mosek"] == "pexp":
            m.conetype.pexp = 1
    fresh()
    sys.path[:0] = [site]
    sys.stdout = io.StringIO()
    seams(os.path.join(site, "gpkit", "env"))
    Proc.tell(at="start", name="")
    Proc.inp.readline()
    for op in spec["ops"]:
        out, mine = {}, sys.stdout
        try:
            import gpkit
            if op == "build":
                gpkit.build()
            else:
                out["settings"] = {k: v for k, v in gpkit.settings.items()}
        except BaseException as e:  # pylint: disable=broad-except
            import traceback
            out["exc"] = [type(e).__name__, str(e)[:200],
                          isinstance(e, OSError)]
            out["tb"] = traceback.format_exc()[-900:]
        out["cwd"] = os.getcwd() == cwd
        out["stdout"] = sys.stdout is mine or repr(sys.stdout)
        Proc.tell(done=op, **out)
        if "exc" in out and op == "build":
            pass
    Proc.tell(end=True)
    os._exit(0)


def bindir(world, home):
    "Where mskexpopt is"
    root = {"home": os.path.join(home, "mosek"),
            "MSKHOME": os.path.join(home, "elsewhere")}.get(world["expopt"])
    return root and os.path.join(root, world["version"], "tools", "platform",
                                 "linux64x86", "bin")


# -- the scheduler ------------------------------------------------------------

class Child:
    "The scheduler's side of a process"
    def __init__(self, spec, world, site, home, cwd, others=()):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.spec, self.n, self.state = spec, -1, "running"
        self.fired = None
        self.results = []
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for o in others:
                    os.close(o.w)
                    os.close(o.r)
                Proc.inp = os.fdopen(r1)
                Proc.out = os.fdopen(w2, "w")
                process(spec, world, site, home, cwd)
            except BaseException:  # pylint: disable=broad-except
                import traceback
                Proc.tell(broken=traceback.format_exc())
            finally:
                os._exit(1)
        os.close(r1)
        os.close(w2)
        self.w, self.r, self.buf = w1, r2, b""

    def listen(self):
        "Its next message"
        while b"\n" not in self.buf:
            if not select.select([self.r], [], [], 40)[0]:
                raise RuntimeError("a simulated process is stuck")
            got = os.read(self.r, 1 << 16)
            if not got:
                _, status = os.waitpid(self.pid, 0)
                self.pid = None
                return {"died": os.WEXITSTATUS(status)
                        if os.WIFEXITED(status) else -os.WTERMSIG(status)}
            self.buf += got
        line, _, self.buf = self.buf.partition(b"\n")
        return json.loads(line)

    def close(self):
        "Ends it"
        os.close(self.w)
        os.close(self.r)
        if self.pid:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)


def run_wave(wave, site, home, base, W):
    "Runs the processes of a wave; -> them"
    kids = []
    try:
        for k, spec in enumerate(wave["procs"]):
            cwd = os.path.join(base, "cwd%i" % k)
            os.makedirs(cwd, exist_ok=True)
            kids.append(Child(spec, wave["world"], site, home, cwd, kids))
        trail = []
        for c in kids:
            hear(c, kids, trail, W)
        sched = wave.get("sched") or [0]
        last, step = None, 0
        while True:
            ready = [c for c in kids if c.state == "waiting"]
            if not ready:
                break
            turn = sched[step % len(sched)]
            step += 1
            if last in ready and (turn % 10)/6. < wave.get("burst", 0):
                c = last
            else:
                c = ready[turn % len(ready)]
            last = c
            go(c, W)
            hear(c, kids, trail, W)
            if step > 3000:
                W.violate("no-progress", "3000 disk operations")
                break
        W.state(tuple(trail))
        return kids
    finally:
        for c in kids:
            c.close()


def go(c, W):
    "Lets a process go on, or not"
    fault = c.spec["faults"].get(str(c.n)) if c.n >= 0 else None
    if fault is None:
        msg = {"do": "go"}
    else:
        kind = fault["kind"]
        msg = {"do": kind, "errno": fault["errno"], "frac": fault["frac"]}
        c.fired = kind
        W.fired("torn-write" if kind == "crash" and c.at[0] == "write"
                else kind)
    c.n += 1
    os.write(c.w, json.dumps(msg).encode() + b"\n")


def hear(c, kids, trail, W):
    "Hears from it until its next disk operation"
    while True:
        msg = c.listen()
        if "at" in msg:
            c.state, c.at = "waiting", (msg["at"], msg["name"])
            trail.append((kids.index(c),) + c.at)
            W.ev("disk", kids.index(c), *c.at)
            return
        if "done" in msg:
            c.results.append((msg, c.fired))
            c.fired = None
            W.ev("result", kids.index(c), msg["done"],
                 msg.get("settings", {}).get("installed_solvers"),
                 (msg.get("exc") or [None])[0])
            continue
        if "broken" in msg:
            raise RuntimeError(msg["broken"])
        c.state = "ended" if "end" in msg else "died"
        if c.state == "died" and msg["died"] not in (98, 99):
            raise RuntimeError("a simulated process died: %s" % msg)
        return


# -- the model ----------------------------------------------------------------

def available(world):
    "The solvers there are"
    if world["env"]:
        return tuple(world["env"].split(", "))
    out = []
    if world["expopt"]:
        out.append("mosek_cli")
    if world["mosek"] == "pexp":
        out.append("mosek_conif")
    if world["cvxopt"]:
        out.append("cvxopt")
    return tuple(out) or ("",)


def edit(kind, frac, env):
    "Changes the settings; -> whether solvers are still in there, extras"
    path = os.path.join(env, "settings")
    old = b""
    if os.path.exists(path):
        with open(path, "rb") as f:
            old = f.read()
    extra = {}
    had = re.search(rb"installed_solvers : \w", old)
    if kind == "nodir":
        import shutil
        shutil.rmtree(env, ignore_errors=True)
        return False, extra
    os.makedirs(env, exist_ok=True)
    if kind == "nofile":
        if os.path.exists(path):
            os.remove(path)
        return False, extra
    if kind == "torn":
        at = old.find(b"installed_solvers : ")
        new = old[:int(frac*(max(at, 0)+len(b"installed_solvers : ")))]
    elif kind == "zeros":
        new = b"\0"*len(old)
    elif kind == "nonewline":
        new = old.rstrip(b"\n")
    elif kind == "extra":
        new = old.rstrip(b"\n") + b"\nad_errors_raise : True\nfavourites : a, b\n"
        extra = {"ad_errors_raise": "True", "favourites": ["a", "b"]}
    elif kind == "comment":
        new = b"# settings\n\n" + old + b"\n: \n"
    elif kind == "crlf":
        new = old.replace(b"\n", b"\r\n")
    else:
        new = {"blank": b"installed_solvers :  ", "empty": b""}[kind]
    with open(path, "wb") as f:
        f.write(new)
    return bool(had and kind in ("nonewline", "extra", "comment",
                                 "crlf")), extra


def execute(trace):
    "Runs the trace"
    from dst.world import W
    base = os.getcwd()
    src = os.path.join(os.environ["DST_ROOT"], "src", "gpkit")
    site = os.path.join(base, "site")
    pkg = os.path.join(site, "gpkit")
    env = os.path.join(pkg, "env")
    os.makedirs(pkg)
    for n in os.listdir(src):
        if n != "env":
            os.symlink(os.path.join(src, n), os.path.join(pkg, n))
    os.makedirs(env)
    with open(os.path.join(env, "settings"), "w") as f:
        f.write("installed_solvers :  ")     # as setup.py leaves it
    states, extra = {("",)}, {}
    for n, wave in enumerate(trace["waves"]):
        world = wave["world"]
        home = os.path.join(base, "home%i" % n)
        os.makedirs(home)
        if world["expopt"] in ("home", "MSKHOME"):
            os.makedirs(bindir(world, home))
        if wave["edit"]:
            W.ev("edit", wave["edit"][0])
            W.probe("edited")
            kept, extra = edit(*wave["edit"], env)
            if not kept:
                states, extra = {("",)}, {}
        alone = dict(wave, edit=None,
                     procs=[{"ops": ["import"], "faults": {}}])
        for w in (wave, alone):
            if ("",) in states:
                W.probe("blank")
            kids = run_wave(w, site, home, base, W)
            states = judge(w, kids, states, extra, world, home, W)
            if states is None:
                return
            if any("build" in p["ops"] or p["faults"] for p in w["procs"]):
                extra = {}     # builds write settings anew


def judge(wave, kids, states, extra, world, home, W):
    "Judges a wave; -> what may be on the disk now, or None"
    # pylint: disable=too-many-branches
    have = available(world)
    builds = ("",) in states or any(
        "build" in p["ops"] or    # and who cannot read settings builds them
        any(f["kind"] == "errno" for f in p["faults"].values())
        for p in wave["procs"])
    allowed = {s for s in states if s != ("",)}
    if builds:
        allowed.add(have)
    after = states | ({have} if builds else set())
    for k, c in enumerate(kids):
        what = "process %i of %i, with %s of %s, on %s" % (
            k, len(kids), c.spec["faults"], c.spec["ops"],
            {a: b for a, b in world.items() if b})
        if c.state == "died":
            W.probe("crashed")
        stumbled, imported = False, False
        for msg, fired in c.results:
            if not W.check(msg["cwd"], "moved", "%s: after %s, the working "
                           "directory is another" % (what, msg["done"])):
                return None
            if not W.check(msg["stdout"] is True, "stdout", "%s: %s" % (what, msg["stdout"])):
                return None
            if "exc" in msg:
                if fired == "interrupt":
                    ok = msg["exc"][0] == "KeyboardInterrupt"
                    W.probe("interrupted")
                else:
                    ok = fired == "errno" and msg["exc"][2]
                    W.probe("error-told")
                if not W.check(ok, "failed", "%s: %s failed: %s" %
                               (what, msg["done"], msg["tb"])):
                    return None
                stumbled = True
                continue
            if fired == "errno":
                W.probe("error-survived")
            if not W.check(fired != "interrupt", "interrupt-lost", what):
                return None
            if stumbled:
                W.probe("retried")
            if msg["done"] == "build":
                W.probe("built")
                after = {have}
                continue
            if imported:
                continue        # nothing was imported anew
            imported = True
            s = msg["settings"]
            got = tuple(s["installed_solvers"])
            if fired == "errno" and got != have:
                continue        # could not read it, and said so
            if fired == "errno":
                after = after | {have}
            if s.get("just built!"):
                W.probe("built-by-import")
                after = {have}
            W.probe("import-alone" if len(kids) == 1 else "import-together")
            if got == ("",):
                W.probe("no-solvers")
            if world["env"]:
                W.probe("overridden")
            if not W.check(got in allowed or fired == "errno" and
                           got in (have, ("",)), "solvers", "%s: %s found %s, "
                           "should be one of %s" % (what, msg["done"], got,
                                                    sorted(allowed))):
                return None
            if not W.check(s["default_solver"] == got[0], "default",
                           "%s: %s" % (what, s)):
                return None
            if got == have and "mosek_cli" in got and not world["env"] and \
                    s.get("just built!") and bindir(world, home):
                W.probe("mosek-elsewhere")
                if not W.check(s.get("mosek_bin_dir") == bindir(world, home),
                               "bindir", "%s: %s" % (what, s)):
                    return None
            if extra and not builds and len(kids) == 1:
                W.probe("settings-kept")
                if not W.check(all(s.get(n) == v for n, v in extra.items()),
                               "settings", "%s: %s" % (what, s)):
                    return None
    return after
