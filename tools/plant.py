#!/usr/bin/env python3
"""writes and verifies the planted bugs of /verif/seeded from tools/bugs_spec.py

usage: plant.py [--check] [id...]
  For each bug: copy of /repo under /tmp, edit applied, patch.diff/demo/meta written, then verified:
  the edit only touches lines of the base commit, stable tests pass, the demo passes before and fails after.
  --check also runs the check of the property on the changed copy (VERIF_REPO) and tells whether it is caught.
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs_spec import BUGS
verif = os.path.dirname(here)
REPO = "/repo"
BASE = "6c700ad"


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def stable():
    d = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests"):
        if k in d:
            return d[k]
    return d


def one(bug, docheck):
    out = []
    ok = True
    bid = bug["id"]
    tmp = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        w = os.path.join(tmp, "repo")
        sh("cp -a %s %s" % (REPO, w))
        for f, old, new in bug["edits"]:
            p = os.path.join(w, "aerokit", f)
            s = open(p, encoding="utf-8").read()
            n = s.count(old)
            if n != 1:
                return bid, False, ["%s: %d occurrences of %r" % (f, n, old[:60])]
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = sh("git diff", cwd=w).stdout
        # removed lines must come from the base commit
        for f in {e[0] for e in bug["edits"]}:
            d0 = sh("git diff -U0 -- aerokit/%s" % f, cwd=w).stdout
            bl = sh("git blame -s HEAD -- aerokit/%s" % f, cwd=w).stdout.splitlines()
            orig = 0
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d0, re.M):
                a, k = int(m.group(1)), int(m.group(2) or 1)
                for ln in range(a, a + k):
                    if bl[ln - 1].lstrip("^").startswith(BASE):
                        orig += 1
                    else:
                        out.append("line %d of %s is not original" % (ln, f)); ok = False
            if not orig:
                out.append("%s: no original line changed" % f); ok = False
        sd = os.path.join(verif, "seeded", bid)
        os.makedirs(sd, exist_ok=True)
        open(os.path.join(sd, "patch.diff"), "w").write(diff)
        open(os.path.join(sd, "demo.py"), "w").write(bug["demo"].strip() + "\nprint('demo: property holds')\n")
        open(os.path.join(sd, "demo.sh"), "w").write(
            '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
            'export PYTHONPATH=$PWD\nexec timeout 200 /opt/venv/bin/python "$here/demo.py"\n')
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(sd, "meta.json"), "w"), indent=1)
        env = {"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg"}
        r = sh("bash %s/demo.sh" % sd, cwd=REPO, env=env)
        if r.returncode:
            out.append("demo fails on clean tree: " + r.stdout[-400:]); ok = False
        r = sh("bash %s/demo.sh" % sd, cwd=w, env=env)
        if r.returncode == 0:
            out.append("demo passes with the bug"); ok = False
        else:
            out.append("demo: " + (r.stdout.strip().splitlines() or [""])[-1][:150])
        r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -5", cwd=w, env=dict(env, PYTHONPATH=w))
        m = re.search(r"(\d+) passed", r.stdout)
        if not m or int(m.group(1)) < NPASS or "failed" in r.stdout or "error" in r.stdout.lower():
            out.append("tests: " + r.stdout[-300:]); ok = False
        if docheck and ok:
            for p in [bug["property"]] + bug.get("also", []):
                r = sh("bash %s/check.sh %s" % (verif, p), env={"VERIF_REPO": w, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_OUT": os.path.join(tmp, "out")})
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                out.append("%s rc=%d %s" % (p, r.returncode, "CAUGHT " + v[0] if r.returncode == 1 and v else "MISSED " + r.stdout[-200:]))
    finally:
        shutil.rmtree(tmp)
    return bid, ok, out


def npass():
    r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -2", cwd=REPO, env={"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PYTHONPATH": REPO})
    return int(re.search(r"(\d+) passed", r.stdout).group(1))


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    docheck = "--check" in sys.argv
    NPASS = npass()
    sel = [b for b in BUGS if not args or b["id"] in args or any(a.endswith("*") and b["id"].startswith(a[:-1]) for a in args)]
    missed = []
    with cf.ThreadPoolExecutor(5) as ex:
        for bid, ok, out in ex.map(lambda b: one(b, docheck), sel):
            print("%-28s %s" % (bid, "ok" if ok else "REJECTED"))
            for o in out:
                print("      " + o.replace("\n", "\n        "))
            sys.stdout.flush()
