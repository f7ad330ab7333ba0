#!/usr/bin/env python3
"""Generate DESIGN.md from dev/design_head.md, the checks, the seeds and known-findings.txt."""
import ast
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "dev"))


def const(n):
    try:
        return ast.literal_eval(n)
    except ValueError:
        return None


def check(pid):
    path = os.path.join(HERE, "ffsa", "checks", pid.lower() + ".py")
    tree = ast.parse(open(path, encoding="utf-8").read())
    expl, rules, floor = "", [], None
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "EXPLANATION":
            expl = const(n.value)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule" and len(n.args) == 2:
            rules.append((const(n.args[0]), const(n.args[1])))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == "floor":
            floor = ast.unparse(n.value)
    rules.sort(key=lambda x: str(x[0]))
    return expl, rules, floor


def wrap(text, indent="", first=""):
    return textwrap.fill(" ".join(text.split()), 116, initial_indent=first or indent, subsequent_indent=indent)


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json"), encoding="utf-8"))
    na = {x["property"]: x["reason"] for x in man["not_applicable"]}
    tech = {x["property"]: x for x in man["checks"]}
    fixes = {}
    for line in open(os.path.join(HERE, "known-findings.txt"), encoding="utf-8"):
        if line.startswith("fixed: property="):
            pid, rest = line[len("fixed: property="):].split(" ", 1)
            fixes.setdefault(pid, []).append(rest.strip())
    import seed
    seeds = seed.load()
    try:
        caught = json.load(open(os.path.join(HERE, "dev", "caught.json")))
    except FileNotFoundError:
        caught = {}
    cost = {}
    for p in tech:
        try:
            cost[p] = json.load(open(os.path.join(HERE, "dev", "cost.json")))[p]
        except (FileNotFoundError, KeyError):
            pass
    out = [open(os.path.join(HERE, "dev", "design_head.md"), encoding="utf-8").read().rstrip(), "", "## Properties", ""]
    for p in props:
        pid = p["id"]
        if pid in na:
            continue
        expl, rules, floor = check(pid)
        out += [f"### {pid}: {p['title']}", "", wrap("Over " + p["quantifier"]["text"] + ". " + (expl or "")), ""]
        for n, t in rules:
            if t:
                out.append(wrap(t, "  ", f"* {n}: "))
        more = f"At least {floor} obligations, or the run counts as broken." if floor else ""
        if pid in cost:
            q, t = cost[pid]
            more += f" Cost: about {q} s quick, {t} s thorough."
        out += ["", wrap(more), ""]
        out += [wrap("Beyond tests: " + p["why_tests_cant"]), ""]
        if pid in fixes:
            out += ["Defects found and repaired:", ""]
            out += [wrap(x, "  ", "* ") for x in fixes[pid]] + [""]
    out += ["## Not applicable", ""]
    for p in props:
        if p["id"] in na:
            out += [wrap(f"{p['id']} {p['title']}: {na[p['id']]}", "  ", "* ")]
    out += ["", "## Planted bugs", "",
            "Written from the text of a property and the code, see `seeded/<id>/meta.json`. *Caught by* lists every "
            "check that", "reports the change.", "", "| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
    for s in seeds:
        out.append(f"| {s['id']} | {s['property']} | {' '.join(s['breaks'].split())} | "
                   f"{', '.join(caught.get(s['id'], [])) or 'none'} |")
    open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8").write("\n".join(out) + "\n")


main()
