#!/opt/venv/bin/python -B
"""python check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    try:
        from sim import boot
        boot.environ()
        if sys.argv[1] == '--setup':
            from sim import build
            for variant in ('plain', 'sim'):
                print(variant, build.build(variant))
            sys.exit(0)
        mod = importlib.import_module(f'sim.checks.{sys.argv[1].lower()}')
        from sim import core
        rc = core.main(mod.CHECK, sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
