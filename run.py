"""Entry point of every check: ``run.py <property> [--tier quick|thorough] [--replay FILE]``.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check itself failed.
"""

import os
import sys

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "JAX_PLATFORMS": "cpu",
    "PIP_NO_INDEX": "1",
}
VENV_PYTHON = "/opt/venv/bin/python"


def main():
    changed = {k: v for k, v in ENV.items() if os.environ.get(k) != v}
    if changed or os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
        if os.environ.get("APTV_REEXEC") == "1":
            sys.exit("cannot set up the environment of the check")
        env = dict(os.environ, **ENV, APTV_REEXEC="1")
        # variables which change what the code under test does
        for k in ["APPLETREE_USE_HYBRID", "DO_NOT_USE_APPROX_IN_BINOM", "JAX_ENABLE_X64", "PYTHONPATH"]:
            env.pop(k, None)
        os.execve(VENV_PYTHON, [VENV_PYTHON, os.path.abspath(__file__)] + sys.argv[1:], env)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    from aptv import harness

    sys.exit(harness.main(sys.argv[1:]))


if __name__ == "__main__":
    main()
