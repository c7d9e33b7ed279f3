"""Scratch copy of the code under test.

Every check runs gpkit from a private copy of /repo's current working tree, so
nothing a run does (settings files, __pycache__, solver scratch files) can
touch /repo, and so that the copy holds exactly what is in the tree now.
"""
import os
import shutil
import tempfile

REPO = os.environ.get("DST_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make_tree():
    "Copies /repo/gpkit into a fresh scratch directory and returns its path"
    root = tempfile.mkdtemp(prefix="gpkit-dst-")
    src = os.path.join(root, "src")
    shutil.copytree(os.path.join(REPO, "gpkit"), os.path.join(src, "gpkit"),
                    ignore=shutil.ignore_patterns("__pycache__", "env",
                                                  "*.pyc"))
    os.makedirs(os.path.join(src, "gpkit", "env"))
    with open(os.path.join(src, "gpkit", "env", "settings"), "w") as f:
        f.write("installed_solvers : cvxopt\n")
    for sub in ("home", "tmp", "mpl", "cwd"):
        os.makedirs(os.path.join(root, sub))
    return root


def drop_tree(root):
    "Removes a scratch directory made by make_tree"
    if os.path.basename(root).startswith("gpkit-dst-"):
        shutil.rmtree(root, ignore_errors=True)


def worker_env(root, hashseed=0):
    "The complete environment a worker interpreter gets"
    return {
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": os.path.join(root, "home"),
        "TMPDIR": os.path.join(root, "tmp"),
        "MPLCONFIGDIR": os.path.join(root, "mpl"),
        "MPLBACKEND": "Agg", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
        "TZ": "UTC",
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1",
        "PYTHONHASHSEED": str(hashseed),
        "PYTHONPATH": os.path.join(root, "src") + ":" + VERIF,
        "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
        "DST_ROOT": root,
    }
