"""The simulated world: clock, solver, output stream, event log, fault points.

`install()` must run before gpkit is imported: the seams it replaces
(time.time & co., cvxopt.solvers.gp) are bound by name at import.  Everything
that happens at a seam is decided by the run's trace, which is a pure function
of its seed: the world itself never draws a random number.
"""
import hashlib
import io
import json
import sys
import time as _time

REAL_TIME = _time.time
REAL_PERF = _time.perf_counter


class SimLimit(BaseException):
    "Raised when a run exceeds its step bound (a liveness violation)"


class SimCrash(BaseException):
    "The simulated process dies here"


class World:
    "State of the one simulated run this process executes"
    def __init__(self):
        self.reset()

    def reset(self, clock=None, max_solves=4000):
        self.log = []
        self.now = 1.0e6
        self.t0 = self.now
        self.span = 0.0
        self.clock = clock or {"kind": "tick", "dt": 0.003}
        self.clock_reads = 0
        self.faults = {}          # fault kind -> times fired
        self.probes = {}          # rare condition -> times hit
        self.violations = []
        self.solves = 0           # solver calls in this run
        self.max_solves = max_solves
        self.opsolves = 0         # solver calls in this op
        self.opfaults = {}        # str(solver call index in op) -> fault
        self.captured = None      # list to capture solver calls into
        self.stdout = None
        self.clock_intr = None    # raise at the n-th clock read of this op
        self.opreads = 0
        self.states = set()
        self.solver_hook = None
        self.result_hook = None
        return self

    # -- log ---------------------------------------------------------------
    def ev(self, kind, *data):
        "Appends an event to the log"
        self.log.append([len(self.log), kind] + [_plain(d) for d in data])

    def digest(self):
        "Hash of the whole event log"
        text = json.dumps(self.log, sort_keys=True, default=str)
        return hashlib.sha256(text.encode()).hexdigest()[:32]

    def fired(self, kind):
        "Counts a fault that actually fired"
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.ev("fault", kind)

    def probe(self, name):
        "Counts a rare condition that was actually reached"
        self.probes[name] = self.probes.get(name, 0) + 1

    def violate(self, cls, detail, **extra):
        "Records a violation of the property"
        v = {"class": cls, "detail": str(detail)[:1500]}
        v.update(extra)
        self.violations.append(v)
        self.ev("VIOLATION", cls)

    def state(self, *parts):
        "Marks an abstract state as reached"
        self.states.add(hashlib.md5(repr(parts).encode()).hexdigest()[:12])

    def check(self, cond, cls, detail, **extra):
        "violate unless cond"
        if not cond:
            self.violate(cls, detail() if callable(detail) else detail, **extra)
        return bool(cond)

    # -- clock -------------------------------------------------------------
    def read_clock(self):
        "Every clock of the process reads this"
        self.clock_reads += 1
        self.opreads += 1
        if self.clock_intr is not None and self.opreads == self.clock_intr:
            self.clock_intr = None
            self.fired("interrupt@clock")
            raise KeyboardInterrupt("sim: interrupt at clock read")
        c = self.clock
        kind = c["kind"]
        step = c.get("dt", 0.003)
        if kind == "tick":
            self.advance(step)
        elif kind == "frozen":
            pass
        elif kind == "backward":
            self.advance(-step)
        elif kind == "pattern":
            pat = c["pat"]
            self.advance(pat[self.clock_reads % len(pat)])
        return self.now

    def advance(self, dt):
        "Moves the simulated clock"
        self.now += dt
        self.span += abs(dt)

    # -- ops ---------------------------------------------------------------
    def begin_op(self, faults=None, clock_intr=None):
        "Starts an operation: per-operation fault counters begin at zero"
        self.opsolves = 0
        self.opreads = 0
        self.opfaults = dict(faults or {})
        self.clock_intr = clock_intr

    def end_op(self):
        "Ends an operation: no more faults"
        self.opfaults = {}
        self.clock_intr = None

    def next_solver_fault(self):
        "Called at each solver call: which fault, if any, hits it"
        if self.solves >= self.max_solves:
            raise SimLimit("more than %i solver calls" % self.max_solves)
        self.solves += 1
        i = self.opsolves
        self.opsolves += 1
        return self.opfaults.get(str(i)) or self.opfaults.get("*")


W = World()


def _plain(d):
    if isinstance(d, (str, int, bool, type(None))):
        return d
    if isinstance(d, float):
        return "%.5e" % d
    if isinstance(d, (list, tuple)):
        return [_plain(x) for x in d]
    if isinstance(d, dict):
        return {str(k): _plain(v) for k, v in d.items()}
    try:
        return "%.5e" % float(d)
    except Exception:  # pylint: disable=broad-except
        return type(d).__name__


class SimStdout(io.TextIOBase):
    "Simulated output stream; can fail or be interrupted at the n-th write"
    encoding = "utf-8"

    def __init__(self, fail_at=None, kind=None, keep=True):
        super().__init__()
        self.parts, self.n, self.fail_at, self.kind = [], 0, fail_at, kind
        self.keep = keep

    def writable(self):
        return True

    def write(self, s):
        self.n += 1
        if self.fail_at is not None and self.n == self.fail_at:
            W.fired("stdout:" + self.kind)
            if self.kind == "epipe":
                raise BrokenPipeError(32, "sim: broken pipe")
            if self.kind == "enospc":
                raise OSError(28, "sim: no space left")
            raise KeyboardInterrupt("sim: interrupt at output")
        if self.keep:
            self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return "".join(self.parts)


# ---------------------------------------------------------------------------
# solver seam: cvxopt.solvers.gp
REAL_GP = None


class SolverBoom(Exception):
    "An exception class gpkit has never heard of"


def raise_fault(kind):
    "Raises the exception a pre-solve fault stands for, if it is one"
    if kind == "valueerror":
        raise ValueError("Rank(A) < p or Rank([H(x); A; Df(x); G]) < n")
    if kind == "arith":
        raise ArithmeticError("5")
    if kind == "zerodiv":
        raise ZeroDivisionError("division by zero")
    if kind == "memory":
        raise MemoryError("sim: allocation failed")
    if kind == "typeerror":
        raise TypeError("sim: bad argument")
    if kind == "oserror":
        raise OSError(5, "sim: I/O error")
    if kind == "boom":
        raise SolverBoom("sim: solver blew up")
    if kind == "interrupt":
        raise KeyboardInterrupt("sim: interrupt in solver")
    if kind == "sysexit":
        raise SystemExit(3)
    if kind == "crash":
        raise SimCrash("sim: process dies in solver")


def sim_gp(K, F, g, G=None, h=None, A=None, b=None, **kw):
    "Stands in for cvxopt.solvers.gp: the real one plus the trace's faults"
    fault = W.next_solver_fault()
    rec = {"K": list(K), "options": dict(kw)}
    W.ev("solver", len(K), F.size, sorted(kw))
    if W.captured is not None:
        import numpy as np
        from cvxopt import matrix
        rec.update(F=np.array(matrix(F)), g=np.array(matrix(g)).ravel(),
                   G=None if G is None else np.array(matrix(G)),
                   h=None if h is None else np.array(matrix(h)).ravel(),
                   A=None if A is None else np.array(matrix(A)),
                   b=None if b is None else np.array(matrix(b)).ravel())
        W.captured.append(rec)
    if W.solver_hook is not None:
        W.solver_hook(rec)
    kind = None
    if fault:
        kind = fault if isinstance(fault, str) else fault["kind"]
        if kind.startswith("slow"):
            W.fired("solver:slow")
            W.advance(float(kind[4:] or 100))
        elif kind == "print":
            W.fired("solver:print")
            print("sim solver chatter\n\nmore")
        elif kind == "print_then_boom":
            W.fired("solver:print_then_boom")
            print("sim solver chatter before the end")
            raise SolverBoom("sim: solver blew up after printing")
        else:
            W.fired("solver:" + kind)
            raise_fault(kind)
    try:
        sol = REAL_GP(K, F, g, G, h, A, b, **kw)
    except Stalled:
        rec["status"] = "stalled"
        W.probe("solver-stalled")
        W.ev("solved", "stalled")
        raise
    if kind in ("unknown", "primal infeasible", "dual infeasible"):
        sol = dict(sol)
        sol["status"] = kind
    if W.result_hook is not None:
        sol = W.result_hook(sol, rec)
    rec["status"] = sol["status"]
    W.ev("solved", sol["status"])
    return sol


def _patch_time():
    rd = W.read_clock
    _time.time = rd
    _time.perf_counter = rd
    _time.monotonic = rd
    _time.process_time = rd
    _time.time_ns = lambda: int(rd()*1e9)
    _time.perf_counter_ns = lambda: int(rd()*1e9)
    _time.monotonic_ns = lambda: int(rd()*1e9)
    _time.sleep = W.advance


class Stalled(ArithmeticError):
    "cvxopt's line search can loop forever; the simulated solver gives up"


def _bound_cvxopt(limit=4000):
    "Bounds the function evaluations of one cvxopt solve, deterministically"
    from cvxopt import cvxprog
    real_cp = cvxprog.cp

    def cp(F, *args, **kw):
        "cvxopt.cvxprog.cp with a bound on evaluations"
        count = [0]

        def counted(*a):
            count[0] += 1
            if count[0] > limit:
                raise Stalled("solver stalled")
            return F(*a)
        return real_cp(counted, *args, **kw)
    cvxprog.cp = cp


def install():
    "Puts the seams in place; call once, before importing gpkit"
    global REAL_GP  # pylint: disable=global-statement
    assert "gpkit" not in sys.modules
    import cvxopt.solvers
    REAL_GP = cvxopt.solvers.gp
    cvxopt.solvers.gp = sim_gp
    _bound_cvxopt()
    _patch_time()
