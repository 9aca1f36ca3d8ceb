"""Confirm planted bugs (development tool; no check uses it).

plant.py new FILE.py        write seeded/<id>/ for every entry of BUGS in FILE.py
plant.py test ID [ID...]    confirm them in scratch copies and run the check of
                            their property (or --check CNN) against each
"""
from __future__ import annotations
import ast, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
WORK = "/tmp/bw"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None, timeout=1200):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout or "")


def new(path):
    ns = {}
    exec(compile(open(path).read(), path, "exec"), ns)
    for b in ns["BUGS"]:
        d = os.path.join(WORK, "new_" + b["id"])
        sh(["rm", "-rf", d]); sh(["git", "clone", "-q", "/repo", d])
        for f, old, newt in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches", s.count(old), "times in", f); break
            open(p, "w").write(s.replace(old, newt))
        else:
            _, diff = sh(["git", "diff"], cwd=d)
            bad = blame(d, diff)
            if bad: print(b["id"], "touches lines of my own:", bad[:3])
            out = os.path.join(SEEDED, b["id"]); os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.sh"), "w").write(
                '#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            open(os.path.join(out, "demo.py"), "w").write(
                "import os, sys\nsys.path.insert(0, os.getcwd())\n"
                "sys.dont_write_bytecode = True\n" + b["demo"].lstrip("\n"))
            json.dump({"property": b["property"], "needs": b["needs"],
                       "what_it_breaks": b["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            print("wrote", b["id"])
        sh(["rm", "-rf", d])


def blame(d, diff):
    bad, f, n = [], None, 0
    for line in diff.splitlines():
        if line.startswith("--- a/"): f = line[6:]
        m = re.match(r"@@ -(\d+)", line)
        if m: n = int(m.group(1)); continue
        if line.startswith(("+", "diff", "index", "---")): continue
        if line.startswith("-"):
            _, o = sh(["git", "blame", "-l", "-L", f"{n},{n}", "HEAD", "--", f], cwd=d)
            base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=d)[1].strip()
            if not o.lstrip("^").startswith(base[:38]): bad.append((f, n))
        n += 1
    return bad


def one(bid, check, tier):
    src = os.path.join(SEEDED, bid)
    meta = json.load(open(os.path.join(src, "meta.json")))
    prop = check or meta["property"]
    d = os.path.join(WORK, bid); v = os.path.join(WORK, bid + "_v")
    sh(["rm", "-rf", d, v]); sh(["git", "clone", "-q", "/repo", d])
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    demo = ["sh", os.path.join(src, "demo.sh")]
    try:
        a, oa = sh(demo, cwd=d, env=env, timeout=300)
        rc, o = sh(["git", "apply", os.path.join(src, "patch.diff")], cwd=d)
        if rc: return f"{bid}: patch fails {o}"
        b, ob = sh(demo, cwd=d, env=env, timeout=300)
        res = f"demo {a}/{b}"
        if a or not b: res += "  DEMO-BAD " + (oa if a else ob)[-400:]
        if "--notest" not in sys.argv:
            rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"],
                       cwd=d, env=dict(env, PYTHONPATH=d))
            m = o.strip().splitlines()[-1]
            res += "  tests: " + m
            if "32 passed" not in m: res += "  TESTS-BAD"
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns("seeded", ".git", "replays", "__pycache__"))
        p = os.path.join(v, "harness/core.py"); s = open(p).read()
        open(p, "w").write(s.replace('REPO = "/repo"', f'REPO = "{d}"'))
        w = os.path.join(v, "work"); os.makedirs(w)
        rc, o = sh(["bash", "run_check.sh", prop, tier], cwd=v,
                   env=dict(os.environ, VERIF_WORK=w, VERIF_SEED="1"), timeout=900 if tier == "quick" else 5000)
        vl = [x for x in o.splitlines() if x.startswith("VIOLATION property=" + prop)]
        res += f"  {prop}: exit {rc} " + ("CAUGHT " + str(len(vl)) if rc == 1 and vl else "MISSED " + o[-300:])
        if rc == 1:
            res += " | " + next((x for x in o.splitlines() if x.strip().startswith(("clause", "  "))), "")[:140]
        return f"{bid}: {res}"
    finally:
        sh(["rm", "-rf", d, v])


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "new": new(a[1])
    else:
        ids = [x for x in a[1:] if not x.startswith("-") and not re.match(r"^C\d\d$|^thorough$|^\d$", x)]
        chk = next((x for x in a if re.match(r"^C\d\d$", x)), None)
        tier = "thorough" if "thorough" in a else "quick"
        if ids == ["all"]: ids = sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(lambda i: one(i, chk, tier), ids): print(r, flush=True)
