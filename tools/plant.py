"""Confirm planted bugs described in spec files and store them under seeded/.

usage: plant.py SPEC.py [ID ...]   (SPEC defines BUGS: list of dicts with id, property, needs, what,
edits [(file, old, new)], demo (python source exiting nonzero when the property is broken),
checks [property ids to run]).  Works on /repo's tree and puts it back.
"""
import json
import os
import runpy
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
           MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, env=ENV, **kw)


def clean():
    sh("git -C %s checkout -- ." % REPO)


def tests_pass():
    out = "/tmp/plant_tests.json"
    sh("bash /opt/vp/test.sh " + out, timeout=1500)
    try:
        got = json.load(open(out))
    except Exception as e:
        return "no test result (%s)" % e
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = set(base["stable"])
    ok = set(got["passed"])
    miss = sorted(names - ok)
    return None if not miss else "%d tests fail: %s" % (len(miss), miss[:3])


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    for b in bugs:
        if only and b["id"] not in only:
            continue
        clean()
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches", s.count(old), "times in", f, flush=True)
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            clean()
            continue
        diff = sh("git -C %s diff" % REPO).stdout
        d = os.path.join(HERE, "seeded", b["id"])
        tmp = "/tmp/plant_demo"
        os.makedirs(tmp, exist_ok=True)
        open(tmp + "/demo.py", "w").write(b["demo"])
        open(tmp + "/demo.sh", "w").write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        r1 = sh("timeout 280 bash %s/demo.sh" % tmp, cwd=REPO)
        if r1.returncode == 0:
            print(b["id"], "DEMO does not fail with the patch", r1.stdout[-300:], flush=True)
            clean()
            continue
        res = {}
        for c in b.get("checks", [b["property"]]):
            r = sh("%s %s/run_check.py %s" % (PY, HERE, c), cwd=HERE)
            res[c] = r.returncode
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:], r.stderr[-800:])
        fail = tests_pass()
        clean()
        r0 = sh("timeout 280 bash %s/demo.sh" % tmp, cwd=REPO)
        if r0.returncode != 0:
            print(b["id"], "DEMO fails without the patch", r0.stdout[-300:], r0.stderr[-600:], flush=True)
            continue
        print(b["id"], b["property"], "checks", res, "tests", fail or "pass",
              "demo:", (r1.stdout + r1.stderr).strip().splitlines()[-1:], flush=True)
        if fail:
            continue
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        for n in ("demo.py", "demo.sh"):
            open(d + "/" + n, "w").write(open(tmp + "/" + n).read())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]},
                  open(d + "/meta.json", "w"), indent=1)
    clean()


main()
