"""Nothing needs building: this only shows that what the checks need is there."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib import env  # noqa: E402

import cf_units  # noqa: E402
import hypothesis  # noqa: E402
import numpy  # noqa: E402
import sympy  # noqa: E402

print("repository", env.REPO)
for m in (hypothesis, sympy, numpy, cf_units):
    print(m.__name__, m.__version__)
