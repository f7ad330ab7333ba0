"""Obligations, verdicts, evidence and violation reports of one check run."""
import contextlib
import json
import os
import time

from .engine import Interp, Undecided
from .project import Anchor, Project
from .values import Raised

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier, root, seed):
        self.pid, self.tier, self.root, self.seed = pid, tier, root, seed
        self.p = Project(root)
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.oblig = []          # (rule, subject, status, detail)
        self.violations = []
        self.undec = []
        self.funcs = set()
        self.sites = set()
        self.paths = 0
        self.steps = 0
        self.cut = 0
        self.rules = {}
        self.assumptions = []
        self.floor = 1

    # -------------------------------------------------------------- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, subject):
        self.oblig.append((rule, str(subject), "discharged"))

    def bad(self, rule, subject, what, where=None, path=None):
        """A definite breach of a rule at a specific construct."""
        self.oblig.append((rule, str(subject), "violated"))
        key = f"{rule}|{subject}"
        if any(v["key"] == key for v in self.violations):
            return
        self.violations.append({"key": key, "rule": rule, "subject": str(subject), "what": what,
                                "where": str(where or ""), "path": [str(x) for x in path or ()]})

    def skip(self, rule, subject, why):
        """The construct has a shape the rule has no transfer function for: no verdict."""
        self.oblig.append((rule, str(subject), "undecided"))
        self.undec.append((rule, str(subject), str(why)))

    def check(self, cond, rule, subject, what, where=None, path=None):
        if cond:
            self.ok(rule, subject)
        else:
            self.bad(rule, subject, what, where, path)
        return cond

    @contextlib.contextmanager
    def guard(self, rule, subject):
        """Run an obligation; unsupported constructs make it undecided."""
        try:
            yield
        except Undecided as exc:
            self.skip(rule, subject, exc)
        except Anchor as exc:
            self.skip(rule, subject, f"anchor: {exc}")
        except (LookupError, TypeError, ValueError, AttributeError, RecursionError) as exc:
            if os.environ.get("FFSA_TRACE"):
                raise
            self.skip(rule, subject, f"unexpected shape: {type(exc).__name__}: {exc}")

    # -------------------------------------------------------------- running the interpreter
    def interp(self, **kw):
        return Interp(self.p, **kw)

    def run(self, qual, args, kw=None, st=None, ip=None, setup=None, **opts):
        """Interpret a function: list of (state, value|Raised)."""
        ip = ip or self.interp(**opts)
        fi = self.p.func(qual) if isinstance(qual, str) else qual
        st = st or new_state()
        if setup is not None:
            st = setup(st)
        res = ip.call_func(fi, list(args), dict(kw or {}), st, None)
        self.account(ip, len(res))
        return [(s, v) for s, v in res]

    def account(self, ip, paths):
        self.funcs |= ip.visited
        self.sites |= ip.call_sites
        self.paths += paths
        self.steps += ip.steps
        self.cut += ip.cut

    # -------------------------------------------------------------- finish
    def finish(self, level_text):
        known, fixed = load_known()
        mine = {k["key"]: k for k in known if k["property"] == self.pid}
        hard = []
        for v in self.violations:
            k = mine.get(v["key"])
            if k is not None:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
            else:
                hard.append(v)
        n = len(self.oblig)
        disc = sum(1 for o in self.oblig if o[2] == "discharged")
        broken = None
        if n < self.floor and not hard:
            broken = f"only {n} obligations were formed, {self.floor} are expected"
        for r, s, w in self.undec:
            print(f"UNDECIDED property={self.pid} rule={r} subject={s}: {w}")
        out_dir = os.path.join(HERE, "evidence")
        if os.environ.get("FFSA_NOEVIDENCE"):
            import tempfile
            out_dir = tempfile.mkdtemp(prefix="ffsa.")
            import atexit
            import shutil
            atexit.register(shutil.rmtree, out_dir, True)
        replay_dir = os.path.join(out_dir, "replay")
        os.makedirs(replay_dir, exist_ok=True)
        replay = os.path.join(replay_dir, f"{self.pid}.txt")
        if os.path.exists(replay):
            os.unlink(replay)
        if hard:
            with open(replay, "w", encoding="utf-8", errors="backslashreplace") as f:
                f.write(f"property {self.pid}\nsource digest {self.p.digest}\n"
                        f"re-run: python3 /verif/check.py {self.pid} --tier {self.tier}\n\n")
                for v in hard:
                    f.write(f"rule      {v['rule']}: {self.rules.get(v['rule'], '')}\n"
                            f"construct {v['subject']}\n"
                            f"where     {v['where']}\n"
                            f"finding   {v['what']}\n")
                    for x in v["path"]:
                        f.write(f"   {x}\n")
                    f.write("\n")
        samples = [f"{r} @ {s}: {w}" for r, s, w in
                   spread(self.oblig, 12)]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": level_text,
                "obligations": n, "discharged": disc,
                "undecided": len(self.undec),
                "rules": self.rules,
                "files_parsed": len(self.p.files),
                "functions_analysed": sorted(self.funcs),
                "call_sites_resolved": len(self.sites),
                "abstract_paths": self.paths, "abstract_steps": self.steps,
                "paths_cut_at_loop_bound": self.cut,
                "source_digest": self.p.digest,
                "samples": samples,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(hard),
        }
        path = os.path.join(out_dir, f"{self.pid}.json")
        with open(path + ".tmp", "w", encoding="utf-8", errors="backslashreplace") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        print(f"{self.pid} [{self.tier}] {len(self.p.files)} files, {len(self.funcs)} functions, "
              f"{self.paths} abstract paths: {disc}/{n} obligations discharged, "
              f"{len(self.undec)} undecided, {len(hard)} violated "
              f"({ev['wall_s']} s)")
        for v in hard:
            print(f"  {v['rule']} at {v['where'] or v['subject']}: {v['what']}")
        if hard:
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        if broken:
            print(f"ANALYSIS-BROKEN property={self.pid}: {broken}")
            return 2
        return 0


def spread(items, n):
    if len(items) <= n:
        return items
    step = len(items) / n
    return [items[int(i * step)] for i in range(n)]


def new_state():
    from .values import State
    st = State()
    st.frames = {0: {}}
    return st


def load_known():
    """known-findings.txt: 'finding: property=P key=<rule|subject> <what>' and
    'fixed: property=P <commit> <what>' lines."""
    known, fixed = [], []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: "):
                    rest = line[len("finding: property="):]
                    prop, _, rest = rest.partition(" ")
                    key, _, what = rest[len("key="):].partition(" :: ")
                    known.append({"property": prop, "key": key, "what": what})
                elif line.startswith("fixed: "):
                    fixed.append(line)
    return known, fixed


__all__ = ["Report", "Anchor", "Undecided", "Raised", "new_state"]
