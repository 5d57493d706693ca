"""list_failures.py C05 spelled: every failing case of an enumerated subcheck.

For the author, to write known-findings.txt; no check uses it."""
import importlib, os, sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env, harness  # noqa
m = importlib.import_module("checks." + sys.argv[1].lower())
[sub] = [s for s in m.SUBCHECKS if s.name == sys.argv[2]]
for case in sub.cases("quick", 1):
    try:
        sub.check(case, harness.Stats())
    except Exception as err:
        print(f"known: property={m.PROPERTY} subcheck={sub.name} case={harness.dumps(case)} :: {str(err).split(' (')[0]}")
