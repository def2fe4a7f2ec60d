"""plant.py BATCH.py [ID...]: confirm planted bugs in scratch copies and write seeded/<id>/.

BATCH.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new)], needs, what_it_breaks, demo (python).
Nothing in /repo is touched.
"""
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", JAX_PLATFORMS="cpu")
BASE = json.load(open("/opt/vp/BASELINE.json"))


def stable():
    s = json.dumps(BASE)
    return BASE


def run_tests(repo):
    """Names of failed tests of the copy."""
    files = sorted(os.path.relpath(f, repo) for f in glob.glob(repo + "/tests/**/test_*.py", recursive=True))
    out = tempfile.mkdtemp(prefix="aptv_reports_")

    def one(f):
        xml = os.path.join(out, f.replace("/", ".") + ".xml")
        subprocess.run(
            ["timeout", "800", PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--randomly-seed=0",
             "--randomly-dont-reorganize", "-o", "junit_family=xunit2", f"--junitxml={xml}", f],
            cwd=repo, env=ENV, capture_output=True,
        )
        bad, n = [], 0
        if not os.path.exists(xml):
            return [f + " did not finish"], 0
        for case in ET.parse(xml).iter("testcase"):
            n += 1
            if case.find("failure") is not None or case.find("error") is not None:
                bad.append(f'{case.get("classname")}.{case.get("name")}')
        return bad, n

    with ThreadPoolExecutor(8) as pool:
        results = list(pool.map(one, files))
    shutil.rmtree(out)
    return [b for r in results for b in r[0]], sum(r[1] for r in results)


def demo(folder, repo):
    return subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=repo, env=ENV, capture_output=True, text=True, timeout=300)


def main():
    batch, ids = sys.argv[1], sys.argv[2:]
    for seed in runpy.run_path(batch)["SEEDS"]:
        if ids and seed["id"] not in ids:
            continue
        d = tempfile.mkdtemp(prefix="aptv_plant_")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
            folder = os.path.join(tempfile.mkdtemp(prefix="aptv_seed_"), seed["id"])
            os.makedirs(folder)
            with open(os.path.join(folder, "demo.py"), "w") as f:
                f.write("import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\n" + seed["demo"].lstrip("\n"))
            with open(os.path.join(folder, "demo.sh"), "w") as f:
                f.write('#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
            with open(os.path.join(folder, "meta.json"), "w") as f:
                json.dump({k: seed[k] for k in ("property", "needs", "what_it_breaks")}, f, indent=1)
            r = demo(folder, d)
            if r.returncode != 0:
                print(seed["id"], "DEMO FAILS ON CLEAN", r.stderr[-600:], r.stdout[-300:]); continue
            for file, old, new in seed["edits"]:
                p = os.path.join(d, file)
                s = open(p).read()
                assert s.count(old) == 1, (seed["id"], file, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
            open(os.path.join(folder, "patch.diff"), "w").write(diff)
            # changed lines have to be those of the original repository
            removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            for file, _, _ in seed["edits"]:
                ours = subprocess.run(["git", "diff", "5981ab3", "HEAD", "--", file], cwd=d, capture_output=True, text=True).stdout
                mine = {l[1:] for l in ours.splitlines() if l.startswith("+")}
                hit = [l for l in removed if l in mine and l.strip()]
                if hit:
                    print(seed["id"], "WARNING changes own lines", hit)
            r = demo(folder, d)
            if r.returncode == 0:
                print(seed["id"], "DEMO PASSES WITH PATCH"); continue
            print(seed["id"], "demo:", (r.stderr.strip().splitlines() or ["?"])[-1][:150], flush=True)
            bad, n = run_tests(d)
            if bad:
                print(seed["id"], "TESTS FAIL", bad[:5]); continue
            c = subprocess.run(["python3", os.path.join(VERIF, "run.py"), seed["property"]],
                               env=dict(os.environ, APTV_REPO=d, VERIF_SEED="1"), capture_output=True, text=True, cwd=VERIF)
            print(seed["id"], f"kept ({n} tests);", seed["property"], "rc", c.returncode,
                  (c.stdout.strip().splitlines() or [c.stderr[-300:]])[0][:200], flush=True)
            target = os.path.join(VERIF, "seeded", seed["id"])
            shutil.rmtree(target, ignore_errors=True)
            shutil.copytree(folder, target)
            shutil.rmtree(os.path.dirname(folder))
        finally:
            shutil.rmtree(d)


main()
