"""Solver stand-ins and outcome oracles shared by several properties."""
from dst.world import W, raise_fault, SolverBoom

# what each fault at the solver is documented to surface as, when the program
# that hit it is solved directly
BASE = {"interrupt": KeyboardInterrupt, "sysexit": SystemExit}
STATUS = ("unknown", "primal infeasible", "dual infeasible")
HARMLESS = ("print",)

RAISES = ["raise:PrimalInfeasible", "raise:DualInfeasible",
          "raise:UnknownInfeasible", "raise:Infeasible",
          "raise:InvalidLicense", "raise:sub"]
RETURNS = ["ret:none", "ret:empty", "ret:noprimal", "ret:noduals",
           "ret:short", "ret:long", "ret:noobjective", "ret:list",
           "ret:strings", "ret:shortdual", "ret:extradual"]


def harmless(fault):
    "True if this fault does not make the solve fail"
    return fault is None or fault in HARMLESS or fault.startswith("slow")


def expected(fault):
    "-> (exception class, original cause class or None) a failed solve raises"
    from gpkit import exceptions as ex
    if fault in BASE:
        return BASE[fault], None
    if fault == "valueerror":
        return ex.DualInfeasible, ValueError
    if fault in STATUS:
        return ex.UnknownInfeasible, None
    if fault.startswith("raise:"):
        name = fault[6:]
        if name == "sub":
            return ex.PrimalInfeasible, None
        return getattr(ex, name), None
    if fault.startswith("ret:"):
        return Exception, None
    cause = {"arith": ArithmeticError, "zerodiv": ZeroDivisionError,
             "memory": MemoryError, "typeerror": TypeError, "oserror": OSError,
             "boom": SolverBoom, "print_then_boom": SolverBoom}[fault]
    return ex.UnknownInfeasible, cause


def chain(e):
    "An exception and everything that caused it"
    out = []
    while e is not None and e not in out:
        out.append(e)
        e = e.__cause__ or e.__context__
    return out


def custom_solver(name="simsolver", tamper=None):
    """A user-supplied solver function: cvxopt's optimum, or the trace's fault.

    tamper(out, i): changes what the i-th call of the op returns"""
    from gpkit.solvers.cvxopt import optimize

    def solver(**kw):
        "stands in for a user's solver"
        i = W.opsolves
        fault = W.opfaults.get(str(i)) or W.opfaults.get("*")
        if isinstance(fault, str) and fault.startswith("raise:"):
            W.next_solver_fault()
            W.fired(fault)
            from gpkit import exceptions as ex
            if fault == "raise:sub":
                raise type("MyInfeasible", (ex.PrimalInfeasible,), {})("sim")
            raise getattr(ex, fault[6:])("sim")
        kw.setdefault("kktsolver", "ldl")
        if isinstance(fault, str) and fault.startswith("ret:"):
            kept, W.opfaults = W.opfaults, {}
            try:
                out = optimize(**kw)
            finally:
                W.opfaults = kept
            W.fired(fault)
            return spoil(out, fault)
        out = optimize(**kw)
        return tamper(out, i) if tamper else out
    solver.__name__ = name
    return solver


def spoil(out, fault):
    "Results no solver should ever hand back"
    import numpy as np
    f = fault[4:]
    out = dict(out)
    if f == "none":
        return None
    if f == "empty":
        return {}
    if f == "list":
        return [out["primal"]]
    if f == "noprimal":
        del out["primal"]
    elif f == "noduals":
        del out["la"]
    elif f == "noobjective":
        del out["objective"]
    elif f == "short":
        out["primal"] = out["primal"][:-1]
    elif f == "long":
        out["primal"] = np.append(out["primal"], 0.)
    elif f == "strings":
        out["primal"] = ["x"]*len(out["primal"])
    elif f == "shortdual":
        if len(out["la"]) > 2:
            out["la"] = out["la"][:-2]
        else:
            del out["la"]
    elif f == "extradual":
        out["la"] = np.append(out["la"], [0., 0., 0.])
    return out


__all__ = ["raise_fault"]
