"""python mc/run.py <property id> [--tier quick|thorough] [--replay file]"""

import importlib
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def main():
    pid = sys.argv[1]
    try:
        from mc import core
        module = importlib.import_module(f"checks.{pid.lower()}")
    except ImportError:
        # The implementation cannot be imported.
        raise
    return core.main(module, sys.argv[2:])


if __name__ == "__main__":
    sys.exit(main())
