import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from harness import core  # noqa: E402


def go():
    pid = sys.argv[1]
    core.bootstrap()
    mod = importlib.import_module(f"checks.{pid}")
    return core.main(pid, mod)


if __name__ == "__main__":
    rc = go()
    sys.stdout.flush()
    os._exit(rc)
