#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough      decide a property (exit 0 held, 1 VIOLATION)
check.py --replay FILE                 replay a recorded violation (exit 1 if it reproduces)"""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != "/opt/venv" or "PYTHONHASHSEED" not in os.environ:
    if os.path.exists(PY) and not os.environ.get("NOSIM_EXEC"):
        e = dict(os.environ, NOSIM_EXEC="1", PYTHONDONTWRITEBYTECODE="1")
        e.setdefault("PYTHONHASHSEED", "0")
        os.execve(PY, [PY, os.path.join(HERE, "check.py")] + sys.argv[1:], e)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from sim import runner  # noqa: E402


def main(a):
    if a and a[0] == "--lane":
        return runner.lane_main(a[1:]) or 0
    if a and a[0] == "--minimise":
        return runner.minimise_main(a[1:])
    if a and a[0] == "--replay":
        return runner.replay_main(a[1])
    if a and a[0] == "--refs":
        from sim.props import c09

        return c09.refs_main(a[1]) or 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return runner.check(prop, tier, int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
