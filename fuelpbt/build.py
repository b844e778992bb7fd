"""Builds the driver (and the command line programs) from /repo's working tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("FUEL_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


def source_hash():
    h = hashlib.sha256()
    for d in ("CppLispInterpreter", "CppLispDebugger", "CppLisp"):
        top = os.path.join(REPO, "CppLisp", d)
        for n in sorted(os.listdir(top)):
            if n.endswith((".cpp", ".h", ".hpp", ".c", ".inc")):
                h.update(("%s/%s\0" % (d, n)).encode())
                with open(os.path.join(top, n), "rb") as f:
                    h.update(f.read())
    for n in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        with open(os.path.join(VERIF, "harness", n), "rb") as f:
            h.update(n.encode() + b"\0" + f.read())
    for v in ("FUEL_CXX", "FUEL_SAN"):
        h.update(os.environ.get(v, "").encode() + b"\0")
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def _build(kind, script, result):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = source_hash()
        out = os.path.join(BUILD, kind + "-" + h)
        target = os.path.join(out, result)
        if not os.path.exists(target):
            # drop older builds: disk space is limited
            for n in os.listdir(BUILD):
                if n.startswith(kind + "-"):
                    shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)
            p = subprocess.run(["bash", os.path.join(VERIF, "harness", script), out],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, FUEL_REPO=REPO))
            if p.returncode != 0 or not os.path.exists(target):
                raise BuildError(p.stdout.decode("latin-1")[-4000:])
        return target


def driver():
    return _build("driver", "build.sh", "driver")


def cli():
    """the command line program, built with the driver"""
    return os.path.join(os.path.dirname(driver()), "fuel")


if __name__ == "__main__":
    print(driver())
    if "cli" in sys.argv:
        print(cli())
