#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json: one source for both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note=None, na=None):
    P.append(dict(pid=pid, title=title, statement=" ".join(statement.split()), over=over, text=text,
                  why=" ".join(why.split()), files=files, mech=mech, technique=technique, note=note,
                  na=na))


ENGINE = "Path-sensitive abstract interpretation of the current source (trace partitioning over " \
         "comparison outcomes, loops over k generic elements)"
TRUST = "Decided from the source on every run, nothing is executed. Trusted: the transfer functions " \
        "for Python and the standard library in ffsa/, the k-limited generic lists, the anchors " \
        "named in DESIGN.md; constructs outside the modelled subset are reported as undecided, not " \
        "as violations."

exec(open(os.path.join(HERE, "dev", "props_data.py"), encoding="utf-8").read())


def main():
    checks, na, lines = [], [], []
    for p in P:
        done = os.path.exists(os.path.join(HERE, "ffsa", "checks", p["pid"].lower() + ".py"))
        if not done and p["na"] is None:
            continue
        lines.append({
            "id": p["pid"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
        if p["na"] is not None:
            na.append({"property": p["pid"], "reason": p["na"]})
        else:
            cmd = f"python3 check.py {p['pid']} --tier "
            checks.append({"property": p["pid"], "quick_cmd": cmd + "quick",
                           "thorough_cmd": cmd + "thorough", "technique": p["technique"],
                           "level": "other",
                           "level_note": (p["note"] + " " if p["note"] else "") + TRUST})
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for x in lines:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "python3 dev/setup.py", "checks": checks,
           "not_applicable": na,
           "notes": "Static analysis only; no hooks are needed in /repo. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not applicable")


main()
