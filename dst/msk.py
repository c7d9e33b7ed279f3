"""Simulated MOSEK: the mskexpopt program, and the Optimizer API's module.

Both rebuild the optimization problem from nothing but what gpkit hands them
(a file in the documented format; rows, bounds and cones of a task) and solve
it with cvxopt directly, so an adapter that hands over another problem, or
reads the answer differently, gives another result.
"""
import io
import os
import subprocess
import sys
import types

from dst import world
from dst.world import W

REAL_POPEN = subprocess.Popen


class Mute(io.TextIOBase):
    "cvxopt's own chatter is not the simulated program's"
    def write(self, s):
        return len(s)


def solve_gp(K, F, g, G=None, h=None):
    "cvxopt's optimum of a GP in logs, quietly"
    from cvxopt import matrix, solvers
    import numpy as np
    kw = {"kktsolver": "ldl"}
    if G is not None and len(G):
        kw.update(G=matrix(np.array(G, "d")), h=matrix(np.array(h, "d")))
    out, sys.stdout = sys.stdout, Mute()
    kept = dict(solvers.options)
    try:
        solvers.options["show_progress"] = False
        return world.REAL_GP(K, matrix(np.array(F, "d")),
                             matrix(np.array(g, "d")), **kw)
    finally:
        sys.stdout = out
        solvers.options.clear()
        solvers.options.update(kept)


# ---------------------------------------------------------------------------
# the command line program

class BadInput(Exception):
    "mskexpopt cannot read its input"


def parse_problem(text):
    "A problem in mskexpopt's format"
    nums = []
    for line in text.split("\n"):
        line = line.strip()
        if line and not line.startswith("*"):
            nums += line.split()
    try:
        ncon, nvar, nter = (int(x) for x in nums[:3])
        c = [float(x) for x in nums[3:3+nter]]
        idx = [int(x) for x in nums[3+nter:3+2*nter]]
        rest = nums[3+2*nter:]
        if len(c) != nter or len(idx) != nter or len(rest) % 3:
            raise BadInput("wrong number of entries")
        A = [[0.]*nvar for _ in range(nter)]
        for t, j, a in zip(rest[::3], rest[1::3], rest[2::3]):
            A[int(t)][int(j)] += float(a)
    except (ValueError, IndexError) as e:
        raise BadInput(str(e)) from e
    if set(idx) != set(range(ncon+1)):
        raise BadInput("constraints %s, should be %i" % (set(idx), ncon))
    return c, idx, A


def expopt(c, idx, A):
    "-> status, objective, primal (logs), dual of every term"
    import math
    import numpy as np
    n = len(A[0])
    terms = {}
    for t, p in enumerate(idx):
        terms.setdefault(p, []).append(t)
    K, F, g, G, h, lse, lin = [], [], [], [], [], [], []
    for p in sorted(terms):
        ts = terms[p]
        if p == 0 or len(ts) > 1:
            K.append(len(ts))
            F += [A[t] for t in ts]
            g += [math.log(c[t]) for t in ts]
            lse.append(p)
        else:
            G.append(A[ts[0]])
            h.append(-math.log(c[ts[0]]))
            lin.append(p)
    try:
        sol = solve_gp(K, F, g, G, h)
    except (ArithmeticError, ValueError) as e:
        return "UNKNOWN", 0., [0.]*n, [0.]*len(c), str(e)
    if sol["status"] != "optimal":
        return "UNKNOWN", 0., [0.]*n, [0.]*len(c), sol["status"]
    x = np.array(sol["x"]).ravel()
    la = dict(zip(lin, np.array(sol["zl"]).ravel() if lin else []))
    la.update(zip(lse, [1.]+list(np.array(sol["znl"]).ravel())))
    nu = [0.]*len(c)
    for p, ts in terms.items():
        v = [math.log(c[t]) + float(np.dot(A[t], x)) for t in ts]
        top = max(v)
        e = [math.exp(q-top) for q in v]
        for t, q in zip(ts, e):
            nu[t] = float(la[p])*q/sum(e)
    obj = math.exp(sol["primal objective"])
    return "OPTIMAL", obj, list(map(float, x)), nu, ""


def fmt(x, digits=6):
    "Numbers as mskexpopt prints them"
    m, e = ("%.*e" % (digits, x)).split("e") if x == x else ("nan", "0")
    return "%se%s%03i" % (m, "-" if e[0] == "-" else "+", abs(int(e)))


def solution_text(status, obj, x, nu, digits=6):
    "A solution in mskexpopt's format"
    both = {"OPTIMAL": "PRIMAL_AND_DUAL_FEASIBLE"}.get(status, status)
    out = ["PROBLEM STATUS      : " + both, "SOLUTION STATUS     : " + status,
           "OBJECTIVE           : " + fmt(obj, digits), "",
           "PRIMAL VARIABLES", "INDEX   ACTIVITY"]
    out += ["%-7i %s   " % (i+1, fmt(v, digits)) for i, v in enumerate(x)]
    out += ["", "DUAL VARIABLES", "INDEX   ACTIVITY"]
    out += ["%-7i %s   " % (i+1, fmt(v, digits)) for i, v in enumerate(nu)]
    return "\n".join(out) + "\n\n"


class Cli:
    "State of the simulated program"
    plan = None     # {"kind", ...}: what befalls its next call
    calls = []      # (argv, text it was given, text it wrote)
    bindir = None   # where it is installed; None: on the path already
    ncall = 0       # of this operation
    running = []    # processes nobody waited for yet
    locked = set()  # read-only files it left

    @classmethod
    def begin(cls, plan=None):
        "Starts an operation"
        cls.plan, cls.ncall, cls.running = plan, 0, []
        cls.locked = set()

    @classmethod
    def kind(cls):
        "What befalls the current call"
        if cls.plan is None or cls.plan.get("call", cls.ncall) != cls.ncall:
            return None
        return cls.plan["kind"]


def run_expopt(argv):
    "The program's life: -> exit code, what it prints"
    from dst.simfs import REAL_OPEN
    kind = Cli.kind()
    if kind:
        W.fired("mskexpopt:" + kind.split("=")[0])
    if kind and kind.startswith("exit="):
        return int(kind[5:]), b"MOSEK error: sim\n"
    if len(argv) != 4 or argv[2] != "-sol":
        return 1, b"Usage: mskexpopt file -sol file\n"
    try:
        with REAL_OPEN(argv[1]) as f:
            text = f.read()
        problem = parse_problem(text)
    except (OSError, BadInput) as e:
        W.probe("input-refused")
        return 1, ("cannot read input: %s\n" % e).encode()
    status, obj, x, nu, why = expopt(*problem)
    W.solves += 1
    if kind and kind.startswith("status="):
        status = kind[7:]
    out = solution_text(status, obj, x, nu, (Cli.plan or {}).get("digits", 6))
    said = b"MOSEK sim\n\n" + why.encode() + b"\n"
    if kind == "chatter":
        said += b"\xff\xfe not text \x00\n"*50
    if kind == "slow":
        W.advance(3600.)
    if kind == "nosol":
        return 0, said
    data = out.encode()
    if kind == "torn":
        data = data[:int(Cli.plan["at"]*len(data))]
    elif kind == "lostline":
        lines = out.split("\n")
        del lines[int(Cli.plan["at"]*len(lines))]
        data = "\n".join(lines).encode()
    elif kind == "zeros":
        i = int(Cli.plan["at"]*len(data))
        data = data[:i] + b"\0"*len(data[i:i+64]) + data[i+64:]
    elif kind == "digit":
        at = [i for i, b in enumerate(data) if 48 <= b < 58]
        i = at[int(Cli.plan["at"]*len(at))]
        data = data[:i] + bytes([48+(data[i]-47) % 10]) + data[i+1:]
    if kind == "readonly":
        Cli.locked.add(os.path.basename(argv[3]))   # until it is chmod-ed
    try:
        with REAL_OPEN(argv[3], "wb") as f:
            f.write(data)
    except OSError as e:
        return 1, ("cannot write: %s\n" % e).encode()
    Cli.calls.append((list(argv), text, out))
    return 0, said


class SimPopen:
    "Stands in for subprocess.Popen: only mskexpopt is ever run"
    def __init__(self, args, *_, stdout=None, stderr=None, text=None,
                 universal_newlines=None, encoding=None, errors=None, **__):
        if isinstance(args, str):
            args = args.split()
        prog = os.path.basename(args[0])
        if prog != "mskexpopt":
            raise FileNotFoundError(2, "sim: no such program: " + prog)
        self.args, self.returncode, self.pid = list(args), None, 4242
        self.textmode = text or universal_newlines or encoding or errors
        self.errors = errors
        self.encoding = encoding or "utf-8"
        self.stdin = self.stderr = None
        Cli.ncall += 1
        kind = Cli.kind()
        if kind in ("missing", "eacces", "enomem"):
            W.fired("mskexpopt:" + kind)
            raise {"missing": FileNotFoundError(2, "sim: no such program"),
                   "eacces": PermissionError(13, "sim: permission denied"),
                   "enomem": OSError(12, "sim: cannot allocate memory")}[kind]
        if Cli.bindir and Cli.bindir not in \
                os.environ["PATH"].split(os.pathsep):
            raise FileNotFoundError(2, "sim: no such program: " + prog)
        W.ev("exec", prog, len(self.args))
        Cli.running.append(self)
        self.code, said = run_expopt(self.args)
        if stdout != subprocess.PIPE:
            said = b""
        self.said = said.decode(self.encoding, self.errors or "strict") \
            if self.textmode else said
        self.stdout = io.StringIO(self.said) if self.textmode \
            else io.BytesIO(self.said)

    def communicate(self, input=None, timeout=None):  # pylint: disable=redefined-builtin
        "Waits for its end"
        if Cli.kind() == "interrupt":
            W.fired("mskexpopt:interrupt")
            raise KeyboardInterrupt("sim: interrupt while waiting")
        self.poll()
        return self.said, None if self.stderr is None else self.stderr.read()

    def poll(self):
        "Its return code"
        if self.returncode is None:
            self.returncode = self.code
        if self in Cli.running:
            Cli.running.remove(self)
        return self.returncode

    def wait(self, timeout=None):
        "Waits for its end"
        return self.poll()

    def kill(self):
        "Ends it"
        self.code = -9

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.poll()


def install_cli():
    "Puts the simulated program in place (in a run's own process)"
    Cli.plan, Cli.calls, Cli.bindir = None, [], None
    Cli.begin()
    subprocess.Popen = SimPopen


def install_locks():
    "Read-only files cannot be removed, as on Windows"
    for name in ("unlink", "remove"):
        def gone(path, *args, _real=getattr(os, name), **kw):
            if os.path.basename(os.fspath(path)) in Cli.locked:
                W.fired("mskexpopt:readonly")
                raise PermissionError(13, "sim: read-only", path)
            return _real(path, *args, **kw)
        setattr(os, name, gone)
    chmod = os.chmod

    def unlock(path, mode, **kw):
        Cli.locked.discard(os.path.basename(os.fspath(path)))
        return chmod(path, mode, **kw)
    os.chmod = unlock


# ---------------------------------------------------------------------------
# the Optimizer API

class Api:
    "State of the simulated module"
    plan = None
    live = 0       # environments and tasks not yet released
    tasks = 0


class MosekError(Exception):
    "mosek.Error"
    def __init__(self, errno, msg="sim"):
        super().__init__(msg)
        self.errno = errno
        self.msg = msg


class _Closing:
    open = True

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def close(self):
        "Releases it"
        if self.open:
            self.open = False
            Api.live -= 1

    __del__ = close


class Task(_Closing):
    "mosek.Task: an optimization problem, row by row"
    # pylint: disable=invalid-name,missing-function-docstring
    def __init__(self):
        Api.live += 1
        Api.tasks += 1
        self.nvar = self.ncon = 0
        self.vb, self.cb, self.a = {}, {}, {}
        self.cones, self.c, self.sense = [], {}, None
        self.stream = {}
        self.sol = None

    def appendvars(self, n):
        self.nvar += int(n)

    def appendcons(self, n):
        self.ncon += int(n)

    def putvarboundlist(self, subs, bk, bl, bu):
        if not len(subs) == len(bk) == len(bl) == len(bu):
            raise ValueError("arrays of different lengths")
        for j, k, lo, up in zip(subs, bk, bl, bu):
            if not 0 <= j < self.nvar:
                raise MosekError("err_index_is_too_large")
            self.vb[int(j)] = (k, float(lo), float(up))

    def putconboundlist(self, subs, bk, bl, bu):
        if not len(subs) == len(bk) == len(bl) == len(bu):
            raise ValueError("arrays of different lengths")
        for i, k, lo, up in zip(subs, bk, bl, bu):
            if not 0 <= i < self.ncon:
                raise MosekError("err_index_is_too_large")
            self.cb[int(i)] = (k, float(lo), float(up))

    def putaijlist(self, rows, cols, vals):
        if not len(rows) == len(cols) == len(vals):
            raise ValueError("arrays of different lengths")
        for i, j, v in zip(rows, cols, vals):
            if not (0 <= i < self.ncon and 0 <= j < self.nvar):
                raise MosekError("err_index_is_too_large")
            self.a[(int(i), int(j))] = float(v)   # replaces, as documented

    def appendconesseq(self, ct, par, nummem, j):
        for k, n in zip(ct, nummem):
            self.cones.append((k, list(range(int(j), int(j)+int(n)))))
            j += n

    def putclist(self, subs, vals):
        for j, v in zip(subs, vals):
            self.c[int(j)] = float(v)

    def putobjsense(self, sense):
        self.sense = sense

    def putintparam(self, *_):
        pass

    def putdouparam(self, *_):
        pass

    def set_Stream(self, which, fn):
        self.stream[which] = fn

    def solutionsummary(self, *_):
        for fn in self.stream.values():
            fn("sim summary")

    def optimize(self):
        kind = (Api.plan or {}).get("kind")
        for fn in self.stream.values():
            fn("sim optimizer\n")
        if kind:
            W.fired("mosek:" + kind.split("=")[0])
        if kind and kind.startswith("err="):
            raise MosekError(kind[4:])
        if kind == "memory":
            raise MemoryError("sim")
        if kind == "interrupt":
            raise KeyboardInterrupt("sim: interrupt in solver")
        if kind == "slow":
            W.advance(3600.)
        W.solves += 1
        self.sol = self._solve()
        if kind and kind.startswith("sta="):
            self.sol["sta"] = kind[4:]

    def _solve(self):
        "Rebuilds the problem in (x, z) from rows, bounds and cones"
        import numpy as np
        from collections import defaultdict
        rows = defaultdict(dict)
        for (i, j), v in self.a.items():
            if v:
                rows[i][j] = v
        role = {}      # cone members
        for q, (k, mem) in enumerate(self.cones):
            if k != "pexp" or len(mem) != 3:
                raise MosekError("err_cone_type")
            for place, j in enumerate(mem):
                role[j] = (q, place)
            if self.vb.get(mem[1]) != ("fx", 1., 1.):
                raise MosekError("sim: only exp(t) cones")
        plain = [j for j in range(self.nvar) if j not in role]
        col = {j: n for n, j in enumerate(plain)}
        n = len(plain)
        expo = {}      # cone -> (coefficients, constant) of its t
        used = set()
        for i, r in rows.items():
            third = [j for j in r if role.get(j, (0, 0))[1] == 2]
            if third:
                kind, lo, up = self.cb[i]
                if len(third) != 1 or kind != "fx" or lo != up:
                    raise MosekError("sim: cone row")
                t, = third
                s = -1/r[t]
                coef = np.zeros(n)
                for j, v in r.items():
                    if j != t:
                        coef[col[j]] = v*s
                if role[t][0] in expo:
                    raise MosekError("sim: t defined twice")
                expo[role[t][0]] = (coef, -lo*s)
                used.add(i)
        K, F, g, lse, G, h, lin = [1], [np.zeros(n)], [0.], [], [], [], []
        for j, v in self.c.items():
            F[0][col[j]] = v
        if self.sense != "minimize":
            raise MosekError("sim: sense")
        for i in range(self.ncon):
            if i in used:
                continue
            r = rows[i]
            kind, _, up = self.cb[i]
            if kind != "up":
                raise MosekError("sim: bound of row %i is %s" % (i, kind))
            first = [j for j in r if role.get(j, (0, 9))[1] == 0]
            if first:
                if len(first) != len(r) or up <= 0:
                    raise MosekError("sim: row of cones")
                K.append(len(first))
                for j in first:
                    coef, const = expo[role[j][0]]
                    F.append(coef)
                    g.append(const + np.log(r[j]/up))
                lse.append(i)
            else:
                coef = np.zeros(n)
                for j, v in r.items():
                    coef[col[j]] = v
                G.append(coef)
                h.append(up)
                lin.append(("c", i))
        for j in plain:
            kind, lo, up = self.vb[j]
            if kind == "up":
                coef = np.zeros(n)
                coef[col[j]] = 1.
                G.append(coef)
                h.append(up)
                lin.append(("v", j))
            elif kind != "fr":
                raise MosekError("sim: bound of variable")
        try:
            sol = solve_gp(K, F, g, G, h)
        except (ArithmeticError, ValueError):
            return {"sta": "unknown"}
        x = np.array(sol["x"]).ravel()
        out = {"sta": "optimal" if sol["status"] == "optimal" else "unknown",
               "x": {j: float(x[col[j]]) for j in plain},
               "obj": float(sol["primal objective"]), "sux": {}, "suc": {}}
        zl = np.array(sol["zl"]).ravel() if lin else []
        for (w, i), v in zip(lin, zl):
            out["sux" if w == "v" else "suc"][i] = float(v)
        znl = np.array(sol["znl"]).ravel()
        for i, v in zip(lse, znl):
            out["suc"][i] = float(v)
        return out

    def getsolsta(self, which):
        return self.sol["sta"]

    def _slice(self, table, a, b, out):
        vals = [table.get(j, 0.) for j in range(int(a), int(b))]
        if (Api.plan or {}).get("kind") == "nan" and vals:
            vals[0] = float("nan")
        out[:] = vals
        return vals

    def getxxslice(self, which, a, b, out):
        return self._slice(self.sol["x"], a, b, out)

    def getsuxslice(self, which, a, b, out):
        return self._slice(self.sol["sux"], a, b, out)

    def getsucslice(self, which, a, b, out):
        return self._slice(self.sol["suc"], a, b, out)

    def getprimalobj(self, which):
        return self.sol["obj"]


class Env(_Closing):
    "mosek.Env"
    def __init__(self):
        if (Api.plan or {}).get("kind") == "noenv":
            W.fired("mosek:noenv")
            self.open = False
            raise MosekError("err_space")
        Api.live += 1

    def Task(self, *_):  # pylint: disable=invalid-name
        "A new task"
        return Task()

    def set_Stream(self, *_):  # pylint: disable=invalid-name
        "Streams of an environment"


class _Names:
    "An enumeration whose members are their names"
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return name


def install_api():
    "Puts a module called mosek in place"
    Api.plan, Api.live, Api.tasks = None, 0, 0
    mod = types.ModuleType("mosek")
    mod.Env, mod.Task, mod.Error = Env, Task, MosekError
    for n in ("boundkey", "conetype", "objsense", "streamtype", "iparam",
              "dparam", "onoffkey", "rescode", "solsta", "soltype"):
        setattr(mod, n, _Names())
    sys.modules["mosek"] = mod
