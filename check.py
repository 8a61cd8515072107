#!/opt/venv/bin/python
"""check.py <property> [--replay FILE] [--seed N] [--runs N]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from potsim import env
    pid = sys.argv[1]
    env.reexec()
    os.chdir(os.path.dirname(os.path.abspath(__file__)))
    from potsim import runner
    mod = importlib.import_module("potsim.worlds." + pid.lower())
    rc = runner.main(mod.WORLD, sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)


main()
