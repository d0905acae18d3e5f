#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: turns planted-bug specs into seeded/<id>/ after confirming each in a scratch copy of /repo.

A spec file defines BUGS = [dict(id, property, file, edits=[(old, new), ...], demo, needs, breaks)], where demo is
Python run with the repository on sys.path: it exits 0 on the clean tree and nonzero on the broken one.
plant.py --run [ID...]: runs the quick check of each planted bug's property (in a scratch copy) and records who caught what."""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, SEEDED = "/repo", os.path.join(HERE, "seeded")
CAUGHT = os.path.join(HERE, "tools", "caught.json")
DEMO = '#!/bin/sh\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env={**os.environ, **(env or {})})


def scratch():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    shutil.rmtree(d)
    subprocess.check_call(["cp", "-a", REPO, d])
    return d


def tests(d):
    stable = json.load(open("/opt/vp/BASELINE.json"))
    names = stable.get("stable") or stable.get("pass") or stable.get("passed") or stable
    r = sh("/opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider pytimize 2>&1 | tail -3", d, {"MPLBACKEND": "Agg", "PYTHONPATH": d})
    return r.stdout.strip().splitlines()[-1]


def blame_ok(d, patch):
    """Every removed line must come from the original commit."""
    base = subprocess.check_output(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=d, text=True).strip()[:7]
    f, ln, bad, removed = None, 0, [], 0
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            ln = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            b = subprocess.check_output(["git", "blame", "-l", "-s", "-L", f"{ln},{ln}", "HEAD", "--", f], cwd=d, text=True)
            removed += 1
            if not b.lstrip("^").startswith(base):
                bad.append((f, ln, l))
            ln += 1
        elif l.startswith(" "):
            ln += 1
    return removed, bad


def make(bug):
    d = scratch()
    try:
        for e in bug["edits"]:
            f, old, new = e if len(e) == 3 else (bug["file"],) + tuple(e)
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"edit matches {s.count(old)} times: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.check_output(["git", "diff"], cwd=d, text=True)
        removed, bad = blame_ok(d, patch)
        t = tests(d)
        out = os.path.join(SEEDED, bug["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        open(os.path.join(out, "demo.py"), "w").write(bug["demo"].strip() + "\n")
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        broken = sh(f"sh {out}/demo.sh", d, t=300)
        sh("git checkout -q -- .", d)
        clean = sh(f"sh {out}/demo.sh", d, t=300)
        problems = []
        if not removed: problems.append("removes no line")
        if bad: problems.append(f"touches fix lines {bad}")
        if "failed" in t or "error" in t or "158 passed" not in t: problems.append("tests: " + t)
        if broken.returncode == 0: problems.append("demo passes on the broken tree")
        if clean.returncode != 0: problems.append("demo fails on the clean tree: " + (clean.stdout + clean.stderr)[-300:])
        if problems:
            shutil.rmtree(out)
            return "; ".join(problems)
        return "ok"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(i, pids=None, seeds=(1,)):
    d = scratch()
    try:
        r = sh(f"git apply {SEEDED}/{i}/patch.diff", d)
        if r.returncode:
            return ["patch does not apply"]
        got = []
        for p in pids or [json.load(open(f"{SEEDED}/{i}/meta.json"))["property"]]:
            for s in seeds:
                r = sh(f"/opt/venv/bin/python check.py {p}", HERE, {"PBT_REPO": d, "VERIF_SEED": str(s), "VERIF_TIER": "quick"}, 900)
                line = [l for l in r.stdout.splitlines() if l.startswith("[")][:1]
                print(f"  {i} {p} seed {s}: rc {r.returncode} {line[0][:160] if line else r.stderr[-200:]}", flush=True)
                if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout and p not in got:
                    got.append(p)
        return got
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    res = json.load(open(CAUGHT)) if os.path.exists(CAUGHT) else {}
    if a[0] == "--run":
        ids = a[1:] or sorted(os.listdir(SEEDED))
    else:
        bugs = runpy.run_path(a[0])["BUGS"]
        ids = []
        for b in bugs:
            if a[1:] and b["id"] not in a[1:]:
                continue
            r = make(b)
            print(b["id"], r, flush=True)
            if r == "ok":
                ids.append(b["id"])
    for i in ids:
        res[i] = run(i)
        json.dump(res, open(CAUGHT, "w"), indent=1, sort_keys=True)
    print("missed:", [i for i in ids if not res[i]])
