"""Bring /repo's in-place Cython extensions up to date with its working tree."""
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys

REPO = "/repo"
VP = "/opt/vp/lib/build_ext.py"


def _digest(p):
    with open(p, "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def _stamp():
    out = {}
    for pat in ("pywr/**/*.pyx", "pywr/**/*.pxd", "pywr/**/*.pxi", "setup.py"):
        for f in glob.glob(os.path.join(REPO, pat), recursive=True):
            out[f] = _digest(f)
    return out


def _fresh():
    """True if the products on disk were made from exactly these sources."""
    try:
        with open(os.path.join(REPO, "build", "vp-stamp.json")) as fh:
            before = json.load(fh)
    except (OSError, ValueError):
        return False
    if os.path.exists(os.path.join(REPO, "build", "vp-running")):
        return False
    now = _stamp()
    for f, d in now.items():
        if before.get(f) != d:
            return False
        if f.endswith(".pyx"):
            base = os.path.splitext(f)[0]
            so = glob.glob(base + ".cpython-*.so")
            if not so:
                return False
            c = base + ".c"
    return all(f in now for f in before if f.endswith((".pyx", ".pxd", ".pxi")))


def main():
    with open("/tmp/verif-mc-build.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if _fresh():
            return 0
        env = dict(os.environ)
        env.pop("PYTHONPATH", None)
        log = subprocess.run(
            [sys.executable, VP] if os.path.exists(VP)
            else [sys.executable, "setup.py", "build_ext", "--inplace", "--force", "--parallel", "8"],
            cwd=REPO, env=env, stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        )
        if log.returncode:
            sys.stdout.write(log.stdout.decode(errors="replace")[-4000:])
        return 1 if log.returncode else 0


if __name__ == "__main__":
    sys.exit(main())
