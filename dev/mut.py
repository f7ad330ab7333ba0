#!/usr/bin/env python3
"""Self test of the checks: apply small edits to a scratch copy of the source and run checks on it.

dev/mutants/pNN.py defines M = [(name, kind, [(file, old, new), ...]), ...] with kind
"bug" (the check must report it) or "same" (behaviour is kept: the check must stay quiet).
Usage: mut.py P01 [name...]   or   mut.py all-same   (every check against every "same" edit)
"""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def load(pid):
    path = os.path.join(HERE, "dev", "mutants", pid.lower() + ".py")
    spec = importlib.util.spec_from_file_location(pid, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return [(n, k, e if isinstance(e, list) else [e]) for n, k, e in m.M]


def run(pid, edits, pids):
    d = tempfile.mkdtemp(prefix="ffmut.")
    try:
        for x in ("ff", "libff", "plugins"):
            shutil.copytree(os.path.join(REPO, x), os.path.join(d, x))
        shutil.copy(os.path.join(REPO, "plugin_template.py"), d)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) < 1:
                return [("NOMATCH", f, old[:60])]
            s = s.replace(old, new, 1)
            open(p, "w", encoding="utf-8").write(s)
            pass
        for f in {e[0] for e in edits}:
            compile(open(os.path.join(d, f), encoding="utf-8").read(), f, "exec")
        out = []
        for q in pids:
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), q, "--repo", d],
                               capture_output=True, text=True, env=dict(os.environ, FFSA_NOEVIDENCE="1"))
            out.append((q, r.returncode, r.stdout + r.stderr))
        return out
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    verbose = "-v" in args
    args = [a for a in args if a != "-v"]
    allp = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "ffsa", "checks"))
                  if f.startswith("p") and f.endswith(".py"))
    muts = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "dev", "mutants"))
                  if f.endswith(".py"))
    jobs = []
    if args[0] == "all-same":
        for pid in muts:
            for n, k, e in load(pid):
                if k == "same":
                    jobs.append((pid, n, k, e, allp))
    elif args[0] == "all":
        for pid in muts:
            for n, k, e in load(pid):
                jobs.append((pid, n, k, e, [pid] if pid in allp else []))
    else:
        for n, k, e in load(args[0]):
            if len(args) == 1 or n in args[1:]:
                jobs.append((args[0], n, k, e, [args[0]] if args[0] in allp else allp))
    fails = 0
    with ThreadPoolExecutor(8) as ex:
        for (pid, n, k, e, pids), res in zip(jobs, ex.map(lambda j: run(j[0], j[3], j[4]), jobs)):
            if res and res[0][0] == "NOMATCH":
                print("NOMATCH", pid, n, res[0][1:])
                fails += 1
                continue
            for q, rc, out in res:
                want = (1,) if k == "bug" and q == pid else (0, 1) if k == "bug" else (0,)
                good = rc in want
                fails += not good
                und = out.count("UNDECIDED")
                if verbose or not good or (und and k == "same"):
                    print("ok  " if good else "FAIL", pid, n, k, q, f"rc={rc}", f"undecided={und}")
                    if not good or verbose or und:
                        lines = [x for x in out.splitlines() if x.strip()]
                        for x in lines[:4] + lines[-6:]:
                            print("      ", x[:230])
    print(len(jobs), "mutants,", fails, "failures")
    return 1 if fails else 0


sys.exit(main())
