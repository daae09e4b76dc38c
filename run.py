#!/opt/venv/bin/python
"""Launcher of the checks: run.py PROP [--tier quick|thorough] [--seed N] [--replay FILE] ..."""
import os
import sys

ENV = dict(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
PY = "/opt/venv/bin/python"
if __name__ == "__main__":
    if os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ, VERIF_REEXEC="1")
        for k, v in ENV.items():
            env[k] = os.environ.get("VERIF_" + k, v)
        repo = os.environ.get("VERIF_REPO", "/repo")
        env["PYTHONPATH"] = os.path.join(repo, "src")
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from sim.runner import main

    sys.exit(main())
