"""run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""

import importlib
import os
import sys

os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())

import warnings

warnings.simplefilter("ignore")

from vlib import env  # noqa: E402,F401
from vlib import harness  # noqa: E402

if __name__ == "__main__":
    module = importlib.import_module("checks." + sys.argv[1].lower())
    try:
        code = harness.main(module, sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.exit(code)
