#!/usr/bin/env python3
"""Does a check report a repaired defect again when its repair is taken back?
For every 'fixed:' line: reverse-apply the commit to a scratch copy and run the check on it."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(line):
    m = re.match(r"fixed: property=(\S+) (\S+) ", line)
    pid, commit = m.groups()
    if len(sys.argv) > 1 and pid not in sys.argv[1:] and commit not in sys.argv[1:]:
        return None
    d = tempfile.mkdtemp(prefix="ffrev.")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True, capture_output=True)
        r = subprocess.run(["git", "-C", d + "/r", "revert", "-n", "-Xtheirs", commit], capture_output=True, text=True)
        if r.returncode:
            return pid, commit, "CONFLICT"
        r = subprocess.run([sys.executable, HERE + "/check.py", pid, "--repo", d + "/r"], capture_output=True,
                           text=True, env=dict(os.environ, FFSA_NOEVIDENCE="1"))
        return pid, commit, f"rc={r.returncode}" + ("" if r.returncode == 1 else " MISSED")
    finally:
        shutil.rmtree(d)


lines = [l for l in open(HERE + "/known-findings.txt") if l.startswith("fixed:")]
with ThreadPoolExecutor(8) as ex:
    for res, line in zip(ex.map(one, lines), lines):
        if res:
            print(*res, "::", line.split(" ", 3)[3].strip()[:70] if "rc=1" not in res[2] else "")
