#!/usr/bin/env python3
"""Generate and confirm the planted bugs: dev/seeds/*.py define S = [dict(id, property, edits, demo,
needs, breaks)].

seed.py make            write seeded/<id>/ for every definition
seed.py confirm [id..]  in a scratch copy: demo passes without, fails with the patch; tests pass
seed.py catch [id..]    run every check against every planted bug, list which report it
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEEDED = os.path.join(HERE, "seeded")
SH = '#!/bin/bash\nexec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
PRE = open(os.path.join(HERE, "dev", "demo_pre.py")).read()


def load():
    out = []
    d = os.path.join(HERE, "dev", "seeds")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            spec = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            out += m.S
    assert len({s["id"] for s in out}) == len(out), "duplicate id"
    return out


def copy():
    d = tempfile.mkdtemp(prefix="ffseed.")
    subprocess.run(["cp", "-a", REPO + "/.", d], check=True)
    return d


def edit(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p, encoding="utf-8").read()
        assert s.count(old) == 1, (f, old, s.count(old))
        s = s.replace(old, new)
        compile(s, p, "exec")
        open(p, "w", encoding="utf-8").write(s)


def make(s):
    d = copy()
    try:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d, check=True)
        edit(d, s["edits"])
        diff = subprocess.run(["git", "diff"], cwd=d, check=True, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(d)
    added = set()
    base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=REPO, check=True,
                          capture_output=True, text=True).stdout.strip()
    for f in {e[0] for e in s["edits"]}:
        old = subprocess.run(["git", "show", f"{base}:{f}"], cwd=REPO, check=True,
                             capture_output=True, text=True).stdout.splitlines()
        added |= {x for x in open(os.path.join(REPO, f)).read().splitlines() if x not in old}
    for line in diff.splitlines():
        if line.startswith("-") and not line.startswith("---") and line[1:] in added:
            print(s["id"], "changes a line that is not original:", line[1:])
    o = os.path.join(SEEDED, s["id"])
    os.makedirs(o, exist_ok=True)
    with open(os.path.join(o, "patch.diff"), "w") as f:
        f.write(diff)
    with open(os.path.join(o, "demo.sh"), "w") as f:
        f.write(SH)
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    with open(os.path.join(o, "demo.py"), "w") as f:
        f.write(PRE + s["demo"].lstrip("\n"))
    with open(os.path.join(o, "meta.json"), "w") as f:
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f,
                  indent=1)
        f.write("\n")


def demo(d, sid):
    r = subprocess.run(["bash", os.path.join(SEEDED, sid, "demo.sh")], cwd=d, capture_output=True,
                       text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def confirm(s):
    """Demo and the repository's own tests in a scratch copy (the tests of a copy need PYTHONPATH)."""
    d = copy()
    try:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d, check=True)
        a = demo(d, s["id"])
        subprocess.run(["git", "apply", os.path.join(SEEDED, s["id"], "patch.diff")], cwd=d, check=True)
        b = demo(d, s["id"])
        return a, b
    finally:
        shutil.rmtree(d)


def tests(s):
    """The stable tests with the patch applied to /repo (undone afterwards)."""
    patch = os.path.join(SEEDED, s["id"], "patch.diff")
    subprocess.run(["git", "apply", patch], cwd=REPO, check=True)
    try:
        out = tempfile.mktemp(prefix="ffseed.", suffix=".json")
        subprocess.run(["bash", "/opt/vp/test.sh", out], capture_output=True)
        res = json.load(open(out))
        os.unlink(out)
        base = json.load(open("/opt/vp/BASELINE.json"))
        return base, res
    finally:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=REPO, check=True)


def catch(s, pids):
    d = copy()
    try:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d, check=True)
        subprocess.run(["git", "apply", os.path.join(SEEDED, s["id"], "patch.diff")], cwd=d, check=True)
        hits, own = [], ""
        for q in pids:
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), q, "--repo", d],
                               capture_output=True, text=True, env=dict(os.environ, FFSA_NOEVIDENCE="1"))
            if r.returncode:
                hits.append(q if r.returncode == 1 else f"{q}!{r.returncode}")
        return hits
    finally:
        shutil.rmtree(d)


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    seeds = [s for s in load() if not ids or s["id"] in ids or s["property"] in ids]
    allp = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "ffsa", "checks"))
                  if f.startswith("p") and f.endswith(".py"))
    if cmd == "make":
        for s in seeds:
            make(s)
    elif cmd == "confirm":
        with ThreadPoolExecutor(4) as ex:
            for s, (a, b) in zip(seeds, ex.map(confirm, seeds)):
                good = a[0] == 0 and b[0] != 0
                print(s["id"], "ok" if good else "FAIL", a if not good else "", b if not good else
                      b[1].strip().splitlines()[-1:] )
    elif cmd == "tests":
        for s in seeds:
            base, res = tests(s)
            stable, passed = set(base["stable"]), set(res["passed"])
            print(s["id"], "ok" if stable <= passed else f"FAIL {sorted(stable - passed)[:5]}", flush=True)
    elif cmd == "catch":
        with ThreadPoolExecutor(8) as ex:
            path = os.path.join(HERE, "dev", "caught.json")
            found = json.load(open(path)) if os.path.exists(path) else {}
            for s, hits in zip(seeds, ex.map(lambda s: catch(s, allp), seeds)):
                print(s["id"], s["property"], "CAUGHT" if s["property"] in hits else "missed",
                      " ".join(hits), flush=True)
                found[s["id"]] = hits
            with open(path, "w") as f:
                json.dump(found, f, indent=1, sort_keys=True)
                f.write("\n")


if __name__ == "__main__":
    main()
