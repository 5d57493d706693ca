"""plant.py FILE [id...]: makes planted bugs from a list of edits (for the author; no check uses it).

FILE defines BUGS: dicts with id, property, edits [(file, old, new)], demo (python source),
needs, what_it_breaks.  Each is made in a copy of /repo, tested with the existing
tests and its demonstration, kept in /verif/seeded, and tried on its check.
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **env):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env={**os.environ, **env})
    return p.returncode, p.stdout + p.stderr


def plant(bug):
    copy = f"/tmp/plant/{bug['id']}"
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    sh(f"cp -a /repo {copy}", "/")
    out = os.path.join(VERIF, "seeded", bug["id"])
    try:
        for f, old, new in bug["edits"]:
            path = os.path.join(copy, f)
            text = open(path).read()
            if text.count(old) != 1:
                return f"{bug['id']}: {text.count(old)} places for {old!r}"
            open(path, "w").write(text.replace(old, new))
        patch = sh("git diff", copy)[1]
        code, text = sh(f"{PY} -m pytest -q -p no:cacheprovider -x", copy, PYTHONPATH=copy)
        if " passed" not in text or " failed" in text or " error" in text or "373 passed" not in text:
            return f"{bug['id']}: TESTS FAIL " + text[-700:]
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        open(os.path.join(out, "demo.py"), "w").write(
            "import os, sys\n\nsys.path.insert(0, os.getcwd())\n" + bug["demo"].strip("\n") + "\n")
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        meta = {k: bug[k] for k in ("property", "needs", "what_it_breaks")}
        open(os.path.join(out, "meta.json"), "w").write(json.dumps(meta, indent=1) + "\n")
        good, t1 = sh(f"bash {out}/demo.sh", "/repo")
        bad, t2 = sh(f"bash {out}/demo.sh", copy)
        if good or not bad:
            shutil.rmtree(out)
            return f"{bug['id']}: DEMO {good} {bad}\n{t1[-500:]}\n{t2[-500:]}"
        code, text = sh(f"{PY} run.py {bug['property']} --tier quick --seed 1 --jobs 4", VERIF, VERIF_REPO=copy)
        hit = [l for l in text.splitlines() if l.startswith("VIOLATION")]
        why = [l for l in text.splitlines() if l.startswith(bug["property"] + "/")]
        return f"{bug['id']}: exit {code} {hit} {why[:1]}"
    finally:
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as pool:
        for line in pool.map(plant, bugs):
            print(line, flush=True)
