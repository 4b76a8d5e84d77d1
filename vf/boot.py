"""Environment of a check process: threads, scratch folder, hypothesis from the offline wheels.

Nothing is installed: the two wheels are unpacked into /verif/.vendor (setup_cmd, git-ignored) or,
when that folder is absent, into a private temporary folder removed at exit.
"""
import atexit
import glob
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WHEELS = "/opt/veriftools/wheels"
VENDOR = os.path.join(HERE, ".vendor")
PYTHON = "/opt/venv/bin/python"


def unpack_hypothesis(target):
    os.makedirs(target, exist_ok=True)
    for name in ("hypothesis", "sortedcontainers"):
        found = sorted(glob.glob(os.path.join(WHEELS, name + "-*.whl")))
        found = [f for f in found if "none-any" in f or "cp312" in f or "abi3" in f]
        if not found:
            raise RuntimeError("no wheel of %s in %s" % (name, WHEELS))
        with zipfile.ZipFile(found[-1]) as z:
            z.extractall(target)


def child_env(scratch, vendor):
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"), HOME=scratch, TMPDIR=scratch,
        XDG_CACHE_HOME=scratch, XDG_CONFIG_HOME=scratch,
        OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        PYTHONPATH=os.pathsep.join([HERE, vendor, REPO]), PYTHONWARNINGS="ignore",
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"),
    )
    return env


def make_scratch():
    path = tempfile.mkdtemp(prefix="vf_")
    owner = os.getpid()

    def clean():
        if os.getpid() == owner:
            shutil.rmtree(path, ignore_errors=True)

    atexit.register(clean)
    return path


if __name__ == "__main__":  # setup_cmd
    unpack_hypothesis(VENDOR)
    print("hypothesis unpacked to", VENDOR)
