"""Make Hypothesis importable from the offline wheelhouse, without touching the environment of the repository."""

import atexit
import glob
import os
import shutil
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(ROOT, ".deps")
WHEELS = "/opt/veriftools/wheels"


def _wheels():
    tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
    found = []
    for pattern in (f"hypothesis-*{tag}-{tag}*.whl", "sortedcontainers-*.whl"):
        names = sorted(glob.glob(os.path.join(WHEELS, pattern)))
        if not names:
            raise RuntimeError(f"no wheel {pattern} in {WHEELS}")
        found.append(names[-1])
    return found


def unpack(target):
    for wheel in _wheels():
        with zipfile.ZipFile(wheel) as z:
            z.extractall(target)


def ensure():
    """Put Hypothesis on sys.path, unpacking it to a temporary folder if setup did not."""
    if os.path.isfile(os.path.join(DEPS, "hypothesis", "__init__.py")):
        sys.path.append(DEPS)
        return
    target = tempfile.mkdtemp(prefix="aptv_deps_")
    atexit.register(shutil.rmtree, target, ignore_errors=True)
    unpack(target)
    sys.path.append(target)


if __name__ == "__main__":
    tmp = DEPS + f".{os.getpid()}"
    shutil.rmtree(tmp, ignore_errors=True)
    unpack(tmp)
    shutil.rmtree(DEPS, ignore_errors=True)
    os.rename(tmp, DEPS)
    print("unpacked Hypothesis to", DEPS)
