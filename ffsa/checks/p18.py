"""P18: ignore files apply to exactly the tree below them, in order."""
import itertools
import re
import warnings

from .. import walkcore
from ..lib import *
from ..report import new_state
from ..values import C, DictObj, Exc, Fn, ListObj, Raised, T, Tup

EXPLANATION = (
    "The evaluation of ignore files is interpreted for every combination of pattern kinds (negated, "
    "anchored, directories only) within and across files at different levels, with the outcome of every "
    "single pattern left open: the verdict must be that of the last matching pattern and every pattern "
    "must be compared with the right text. The walk over a generic tree is interpreted with the lists of "
    "ignore files as heap objects, so that a list shared between directories shows up as a leak. The "
    "search for files of parent directories and its switches are a decision table.")

WALK = walkcore.WALK
PLUGIN = "libff.builtin.ignore:Ignore"
GIT = "libff.ignore:GitIgnore"
INST = {GIT, "libff.ignore:Glob"}
PATH, NAME = "/t/u/x", "x"

# text of the line, negated, anchored, directories only; {} is the word of the pattern
KINDS = {
    "name": ("{}", False, False, False),
    "!name": ("!{}", True, False, False),
    "name/": ("{}/", False, False, True),
    "/name": ("/{}", False, True, False),
    "dir/name": ("d/{}", False, True, False),
    "!name/": ("!{}/", True, False, True),
    "!/name": ("!/{}", True, True, False),
    "dir/name/": ("d/{}/", False, True, True),
    "/name/": ("/{}/", False, True, True),
    "\\#name": ("\\#{}", False, False, False),
    "\\!name": ("\\!{}", False, False, False),
}


def run(r):
    r.rule("R1", "the last matching pattern decides, in the order of files from the top and of lines")
    r.rule("R2", "a pattern is compared with the path below its file if anchored, otherwise with the name")
    r.rule("R3", "an entry is subject to the ignore files of its own directory and of those above, "
                 "and to no others")
    r.rule("R4", "ignore files of parent directories are used from the top down, unless switched off")
    r.rule("R5", "comments, blank lines, invalid patterns and unreadable files exclude nothing and do "
                 "not affect others")
    r.rule("R6", "a pattern has to match the whole text")
    r.floor = 120
    for rule, f in (("R1", single), ("R1", pairs), ("R1", levels), ("R5", noise), ("R5", cache),
                    ("R3", tree), ("R4", parents), ("R4", switches)):
        with r.guard(rule, f.__name__):
            f(r)


# ------------------------------------------------------------------ evaluation of patterns
class Files:
    """Ignore files with known lines; the outcome of every pattern is open."""

    def __init__(self, r, files, words, broken=()):
        self.r, self.files, self.words, self.broken = r, files, words, broken
        self.texts = {}

    def hooks(self):
        return {"builtins.open": self.open, "io.open": self.open, "os.stat": self.stat,
                "stat.S_ISREG": self.regular, "re.compile": self.compile, ".match": self.match,
                ".fullmatch": self.match, ".search": self.match, "re.match": self.match_fn,
                "re.fullmatch": self.match_fn, "re.search": self.match_fn, ".warning": self.quiet,
                "os.path.isfile": self.regular, "os.path.exists": self.regular}

    @staticmethod
    def quiet(ip, st, call):
        return [(st, C(None))]

    @staticmethod
    def regular(ip, st, call):
        return [(st, C(True))]

    def stat(self, ip, st, call):
        if call.args and isinstance(call.args[0], C) and call.args[0].v in self.broken:
            return [(st, Raised(Exc("PermissionError", (), call.node)))]
        return [(st, T("sym", f"status<{call.args[0]!r}>"))]

    def open(self, ip, st, call):
        p = call.args[0]
        if isinstance(p, C) and p.v in self.broken:
            return [(st, Raised(Exc("PermissionError", (), call.node)))]
        if not isinstance(p, C) or p.v not in self.files:
            return None
        st = st.fact(("opened", p.v), st.facts.get(("opened", p.v), 0) + 1)
        st, ref = st.new(ListObj(tuple(C(x + "\n") for x in self.files[p.v]), "gen"))
        return [(st, ref)]

    def compile(self, ip, st, call):
        if call.args and isinstance(call.args[0], C):
            if "bad" in call.args[0].v:
                return [(st, Raised(Exc("re.error", (), call.node)))]
            return [(st, T("regex", call.args[0]))]

    def match_fn(self, ip, st, call):
        return self.test(ip, st, call.args[0], call.args[1], call)

    def match(self, ip, st, call):
        if isinstance(call.recv, T) and call.recv.op == "regex":
            return self.test(ip, st, call.recv.args[0], call.args[0], call)

    def test(self, ip, st, pattern, text, call):
        if isinstance(pattern, T) and pattern.op == "regex":
            pattern = pattern.args[0]
        if not isinstance(pattern, C) or not isinstance(pattern.v, str):
            return None
        how = call.name.rsplit(".", 1)[-1]
        if (pattern.v, how) not in self.texts:
            self.texts[(pattern.v, how)] = whole(pattern.v, how)
        st = st.fact(("tested", pattern.v, how), True)
        words = [w for w in self.words if w in pattern.v]
        out, open_ = [], [(st, True)]
        for w in words:
            nxt = []
            for s, _ in open_:
                k = ("hit", w, text)
                for b in ([s.facts[k]] if k in s.facts else [True, False]):
                    x = s.fact(k, b)
                    if b:
                        out.append((x, T("sym", "match")))
                        out[-1] = (x.fact(("truth", T("sym", "match")), True), T("sym", "match"))
                    else:
                        nxt.append((x, True))
            open_ = nxt
        return out + [(s, C(None)) for s, _ in open_]


def whole(pattern, how):
    """Does a match of the regular expression always cover the whole text?"""
    if how == "fullmatch":
        return True
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = re._parser.parse(pattern)
    except re.error:
        return None
    return closed(list(tree), how)


def literal(kind, word):
    """The text a pattern without wildcards stands for."""
    t = KINDS[kind][0]
    if t[0] == "!":
        t = t[1:]
    if t[0] == "\\":
        t = t[1:]
    return t.strip("/").format(word)


def accepts(pattern, how, text):
    """Constant folding of a constant regular expression over a constant text."""
    try:
        return getattr(re, how)(pattern, text) is not None
    except re.error:
        return False


def closed(seq, how, opened=False):
    opened = opened or how == "match" or bool(seq) and str(seq[0][0]) == "AT" and \
        str(seq[0][1]) in ("AT_BEGINNING", "AT_BEGINNING_STRING")
    if not seq:
        return False
    op, av = str(seq[-1][0]), seq[-1][1]
    if op == "BRANCH":
        return all(closed(list(b), how, opened) for b in av[1])
    if op == "SUBPATTERN":
        return closed(list(av[-1]), how, opened)
    return opened and op == "AT" and str(av) == "AT_END_STRING"


def evaluate(r, sub, files, path=PATH, name=NAME, order=None, broken=(), rule="R1", specs=None, dirs=(True, False)):
    """files: {path of ignore file: [(word or None, kind)]} in the order that applies."""
    words = [w for lines in files.values() for w, _ in lines if w] + ["p9"]
    texts = {f: [KINDS[k][0].format(w) if w else k for w, k in lines] for f, lines in files.items()}
    where_ = GIT + ".match"
    for is_dir in dirs:
        model = Files(r, texts, words, broken)
        entry = T("sym", "entry")
        st = new_state()
        st, paths = st.new(ListObj(tuple(C(f) for f in order or files)))
        for k, v in (("ignore_paths", paths), ("abspath", C(path)), ("name", C(name)),
                     ("type", C("directory" if is_dir else "file"))):
            st = st.setfield(entry, k, v)
        ip = r.interp(hooks=model.hooks(), inst=INST | {PLUGIN}, fold_re=True, max_loop=24, max_elems=24,
                      types={entry: r.p.cls("libff.entry:Entry")})
        ip.steps = 0
        n = 0
        for s0, plugin in made(r, ip, st):
            for s, v in ip.call_func(process(r), [plugin, entry, C(None)], {}, s0, None):
                n += 1
                verdict(r, ip, rule, f"{sub}{' directory' if is_dir else ' file'}", files, s, v,
                        path, name, is_dir, broken, where_, model)
        r.account(ip, n)
        if not n:
            r.skip(rule, sub, "no outcome")


def outcome(s, v):
    """(ignored, path of the deciding file) of the attributes."""
    o = s.heap.get(getattr(v, "id", None))
    if not isinstance(o, DictObj):
        return None
    d = {k.v: x for k, x in o.items if isinstance(k, C)}
    return d.get("ignored"), d.get("path")


def below(path, file):
    d = file.rsplit("/", 1)[0]
    return path[len(d):].lstrip("/")


def verdict(r, ip, rule, sub, files, s, v, path, name, is_dir, broken, where_, model):
    hits = {(k[1], k[2]): f for k, f in s.facts.items() if k[0] == "hit"}
    if isinstance(v, Raised):
        r.bad("R5" if broken else rule, sub, f"the evaluation fails with {v.exc.name}", where_, describe(s))
        return
    res = outcome(s, v)
    if res is None:
        r.skip(rule, sub, f"result {v!r}")
        return
    rows, used = [], set()              # (text of the test, negated, file), the last one first
    for f in reversed([f for f in files if f not in broken]):
        for w, kind in reversed([x for x in files[f] if x[0]]):
            _, neg, anchored, only_dirs = KINDS[kind]
            if only_dirs and not is_dir:
                continue
            key = (w, C(below(path, f) if anchored else name))
            used.add(key)
            rows.append((key, neg, f))
    free = sorted((k for k in used if k not in hits), key=repr)
    wants = {decide(rows, {**hits, **dict(zip(free, x))})
             for x in itertools.product((True, False), repeat=len(free))}
    for (w, text), h in hits.items():
        if w == "p9":
            r.bad("R5", sub, "a line that is no pattern is used as one", where_, describe(s))
            return
        k = [k for ls in files.values() for x, k in ls if x == w][0]
        if (w, text) not in used and not (KINDS[k][3] and not is_dir):
            r.bad("R2", f"{sub}: {KINDS[k][0].format('name')}", f"the pattern is compared with {text!r}",
                  where_, describe(s))
            return
    r.ok("R2", f"{sub} {sorted(map(repr, hits.items()))}")
    for k in s.facts:
        if k[0] == "tested":
            ok = model.texts[k[1:]]
            if ok is not None:
                r.check(ok, "R6", f"regular expression {k[1]!r} with {k[2]}()", "the pattern is not closed at the end of the "
                        f"text: {k[1]!r} used with {k[2]}()", "libff.ignore:Glob.translate")
            for ls in files.values():
                for w, kind in ls:
                    if w and w in k[1]:
                        text = literal(kind, w)
                        r.check(accepts(k[1], k[2], text), "R2", f"{sub}: text", f"{KINDS[kind][0].format(w)!r} becomes "
                                f"{k[1]!r}, which does not match {text!r}", "libff.ignore:Glob.translate")
    got = res
    if any(not isinstance(x, C) for x in got):
        r.skip(rule, sub, f"result {got!r}")
        return
    got = (bool(got[0].v), got[1].v)
    known = {w: h for (w, t), h in hits.items()}
    case = f"{sub}, {known}"
    if not got[0]:
        got = (False, "")
    r.check(wants == {got}, rule, case, f"the result is {got}, the last matching pattern gives {sorted(wants)}",
            where_, describe(s))


def decide(rows, hits):
    for key, neg, f in rows:
        if hits[key]:
            return (False, "") if neg else (True, f)
    return (False, "")


def single(r):
    for kind in KINDS:
        evaluate(r, f"pattern {KINDS[kind][0].format('name')}", {"/t/.gitignore": [("p1", kind)]})
    evaluate(r, "pattern in the topmost directory", {"/.gitignore": [("p1", "/name")]}, dirs=(False,))


def pairs(r):
    kinds = list(KINDS)[:8]
    for a, b in itertools.product(kinds, kinds):
        evaluate(r, f"patterns {KINDS[a][0].format('a')} then {KINDS[b][0].format('b')}",
                 {"/t/.gitignore": [("p1", a), ("p2", b)]},
                 dirs=(True, False) if "name/" in (a[-5:], b[-5:]) or r.thorough else (False,))
    three = ["name", "!name", "/name", "name/"] if r.thorough else ["name", "!name"]
    for ks in itertools.product(three, three, three):
        evaluate(r, "patterns " + " then ".join(KINDS[k][0].format(c) for k, c in zip(ks, "abc")),
                 {"/t/.gitignore": [(f"p{i}", k) for i, k in enumerate(ks)]}, dirs=(True,))


def levels(r):
    kinds = list(KINDS)[:8] if r.thorough else ["name", "!name", "/name", "!/name"]
    for a, b in itertools.product(kinds, kinds):
        evaluate(r, f"{KINDS[a][0].format('a')} above, {KINDS[b][0].format('b')} below",
                 {"/t/.gitignore": [("p1", a)], "/t/u/.ignore": [("p2", b)]}, dirs=(True,))
    for ks in itertools.product(["name", "!name"], repeat=3):
        evaluate(r, "levels " + " ".join(KINDS[k][0].format(c) for k, c in zip(ks, "abc")),
                 {"/.gitignore": [("p1", ks[0])], "/t/.gitignore": [("p2", ks[1])],
                  "/t/u/.gitignore": [("p3", ks[2])]}, dirs=(True,))


def noise(r):
    for text in ("", "   ", "# comment p9", "#p9"):
        evaluate(r, f"line {text!r}", {"/t/.gitignore": [("p1", "name"), (None, text), ("p2", "!name")]},
                 dirs=(False,), rule="R5")
    evaluate(r, "invalid pattern", {"/t/.gitignore": [("p1", "name"), (None, "bad"), ("p2", "!name")]},
             dirs=(False,), rule="R5")
    evaluate(r, "only an invalid pattern", {"/t/.gitignore": [(None, "bad")],
                                            "/t/u/.gitignore": [("p2", "name")]}, dirs=(False,), rule="R5")
    evaluate(r, "empty file", {"/t/.gitignore": [], "/t/u/.gitignore": [("p2", "name")]}, dirs=(False,),
             rule="R5")
    for bad in ("/t/.gitignore", "/t/u/.gitignore"):
        evaluate(r, f"unreadable {bad}", {"/t/.gitignore": [("p1", "name")],
                                          "/t/u/.gitignore": [("p2", "name")]},
                 dirs=(False,), broken=(bad,), rule="R5")


def cache(r):
    """Several entries with different ignore files, one after the other."""
    texts = {"/t/.gitignore": ["p1"], "/t/u/.gitignore": ["!p2"], "/t/v/.gitignore": ["p3"]}
    files = {"/t/.gitignore": [("p1", "name")], "/t/u/.gitignore": [("p2", "!name")],
             "/t/v/.gitignore": [("p3", "name")]}
    lists = [["/t/.gitignore"], ["/t/.gitignore", "/t/u/.gitignore"], ["/t/.gitignore", "/t/v/.gitignore"],
             ["/t/.gitignore"], []]
    model = Files(r, texts, ["p1", "p2", "p3"])
    ip = r.interp(hooks=model.hooks(), inst=INST | {PLUGIN}, fold_re=True, max_loop=24, max_elems=24,
                  types={T("sym", f"entry{i}"): r.p.cls("libff.entry:Entry") for i in range(len(lists))})
    n = 0
    for s0, plugin in made(r, ip, new_state()):
        cur = [s0]
        for i, fs in enumerate(lists):
            e = T("sym", f"entry{i}")
            nxt = []
            for s in cur:
                s, paths = s.new(ListObj(tuple(C(f) for f in fs)))
                for k, v in (("ignore_paths", paths), ("abspath", C(f"/t/{i}")), ("name", C(f"n{i}")),
                             ("type", C("file"))):
                    s = s.setfield(e, k, v)
                for x, v in ip.call_func(process(r), [plugin, e, C(None)], {}, s, None):
                    n += 1
                    nxt.append(x)
                    mine = {f: files[f] for f in fs}
                    other = [k for k in x.facts if k[0] == "hit" and k[2] == C(f"n{i}") and
                             k[1] not in {w for f in fs for w, _ in files[f]}]
                    if other:
                        r.bad("R3", f"entry {i} after others", f"the pattern {other[0][1]} of a file that does "
                              "not apply is consulted", PLUGIN, describe(x))
                        continue
                    y = x
                    for k in list(x.facts):
                        if k[0] == "hit" and k[2] != C(f"n{i}"):
                            y = drop(y, k)
                    verdict(r, ip, "R1", f"entry {i} after others", mine, y, v, f"/t/{i}", f"n{i}", False, (),
                            PLUGIN, model)
            cur = nxt[:12]
    r.account(ip, n)


def drop(st, key):
    st = st.fork()
    st.facts = {k: v for k, v in st.facts.items() if k != key}
    return st


def process(r):
    return r.p.find_method(r.p.cls(PLUGIN), "process")


def made(r, ip, st):
    return [(s, v) for s, v in ip.call_value(Fn("class", r.p.cls(PLUGIN)), [], {}, st, None)
            if not isinstance(v, Raised)]


# ------------------------------------------------------------------ the walk
TREE = {"": [".gitignore", "a/", "f", "b/"],
        "a": ["g", ".ignore", "c/", ".gitignore"],
        "b": ["h", "d/"],
        "a/c": ["i", ".gitignore"],
        "b/d": ["j"]}
NAMES = (".gitignore", ".ignore", ".fdignore", ".ffignore")


def walk(r, dirs, setup, root="r", rule="R3"):
    """Interpret a whole walk over a tree of names: [(final state)].

    dirs: {relative path of a directory: names, directories end in a slash}; setup(ip, st) gives
    [(state, Directory)] to start with."""
    p = r.p
    modes = {}

    def scandir(ip, st, call):
        a = call.args[0]
        if not isinstance(a, C):
            return None
        st = ip.event(st, "call", "os.scandir", None, call.args, {}, call.node)
        prefix = root.rstrip("/") + "/" if root != "." else "./"
        rel = a.v[len(prefix):] if a.v.startswith(prefix) else "" if a.v == root else None
        if rel not in dirs:
            return [(st, Raised(Exc("FileNotFoundError", (), call.node)))]
        its = []
        for n in dirs[rel]:
            d = T("sym", f"direntry<{rel}/{n}>")
            its.append(d)
            st = st.setfield(d, "name", C(n.rstrip("/")))
            st = st.setfield(d, "path", C((a.v if a.v == "/" else a.v + "/") + n.rstrip("/")))
        st, lst = st.new(ListObj(tuple(its), "gen"))
        return [(st, lst)]

    def status(ip, st, call):
        m = T("sym", f"mode<{call.recv!r}>")
        st = st.setfield(T("sym", f"status<{call.recv!r}>"), "st_mode", m)
        modes[m] = repr(call.recv).rstrip(">").endswith("/")
        return [(st, T("sym", f"status<{call.recv!r}>"))]

    def kind(want):
        def hook(ip, st, call):
            if call.args and call.args[0] in modes:
                d = modes[call.args[0]]
                return [(st, C(d if want == "dir" else not d if want == "reg" else False))]
        return hook
    hk = {"os.scandir": scandir, ".stat": status, "stat.S_ISDIR": kind("dir"), "stat.S_ISREG": kind("reg"),
          "stat.S_ISLNK": kind("other"), **fs_hooks("/w", set()),
          "libff.filter:Excluder.test": walkcore.verdict("libff.filter:Excluder.test", False),
          "libff.filter:Matcher.test": walkcore.verdict("libff.filter:Matcher.test", True)}
    slow = T("attr", comp("registry"), "optimize_for_slow_plugins")
    ip = r.interp(sizes=False, hooks=hk, inst={"libff.entry:Entry", "libff.entry:StartDirectory"},
                  domains={slow: [C(False)]}, max_loop=12, max_elems=12,
                  opaque=walkcore.opaque, fold_re=True)
    st = new_state().setfield(ARGS, "jobs", C(2))
    st, names = st.new(ListObj(tuple(C(n) for n in NAMES), "set"))
    st = st.setfield(ARGS, "ignore_files", names)
    fi = p.func(WALK + ".process_directory")
    walker = obj(p, WALK)
    cur = [(s, [d]) for s, d in setup(ip, st)]
    done, steps = [], 0
    while cur:
        s, queue = cur.pop()
        if not queue:
            done.append(s)
            continue
        steps += 1
        if steps > 40:
            r.skip(rule, "tree", "too many paths")
            return []
        before = len(s.events())
        for x, v in ip.call_func(fi, [walker, queue[0]], {}, s, None):
            if isinstance(v, Raised):
                r.bad(rule, "walk", f"the walk fails with {v.exc.name}", fi.loc, describe(x))
                continue
            sm = walkcore.Summary(x, v, [])
            sm.searched, sm.processed = [], []
            for ev in x.events()[before:]:
                if ev.kind == "call" and (ev.name.endswith(".put") and ev.args):
                    sm.put(ev)
            cur.append((x, queue[1:] + [d for d, _ in sm.searched]))
    r.account(ip, len(done))
    return done


def tree(r):
    """Walk a tree with ignore files at several levels; judge the lists at the end."""
    top = "/.gitignore"
    start = T("sym", "start")
    keep = []

    def setup(ip, st):
        st = st.setfield(start, "root", C("r")).setfield(start, "absroot", C("/r"))
        st, first = st.new(ListObj((C(top),)))
        keep.append(first)
        return [(st, Tup((start, C(""), first), cls=r.p.cls("libff:Directory")))]
    done = walk(r, TREE, setup)
    first = keep[0]
    n = 0
    for s in done:
        seen = {}
        for (base, name), v in s.fields.items():
            if name == "abspath" and isinstance(v, C) and (base, "ignore_paths") in s.fields:
                seen[v.v] = s.fields[(base, "ignore_paths")]
        for rel, names_ in TREE.items():
            for nm in names_:
                path = "/".join(x for x in ("/r", rel, nm.rstrip("/")) if x)
                if path not in seen:
                    r.skip("R3", path, "the entry was not found")
                    continue
                its = items(s, seen[path])
                if its is None or not all(isinstance(i, C) for i in its):
                    r.skip("R3", path, f"ignore files {its!r}")
                    continue
                n += 1
                got = [i.v for i in its]
                chain_ = [top]
                parts = rel.split("/") if rel else []
                levels_ = [""] + ["/".join(parts[:i + 1]) for i in range(len(parts))]
                groups = [[top]]
                for lv in levels_:
                    groups.append([("/r/" + lv).rstrip("/") + "/" + f for f in TREE[lv] if f in NAMES])
                want = [x for g in groups for x in g]
                extra = [x for x in got if x not in want]
                miss = [x for x in want if x not in got]
                r.check(not extra, "R3", f"{path}: no others", f"subject to {extra}, which do not lie in a directory "
                        "above", WALK + ".scan_directory", describe(s))
                r.check(not miss, "R3", f"{path}: all above", f"not subject to {miss}", WALK + ".scan_directory",
                        describe(s))
                if not extra and not miss:
                    ordered = [g for g in groups if g]
                    pos, ok = 0, len(got) == len(want)
                    for g in ordered:
                        ok = ok and set(got[pos:pos + len(g)]) == set(g)
                        pos += len(g)
                    r.check(ok, "R3", f"{path}: order", f"the order is {got} instead of {want}",
                            WALK + ".scan_directory", describe(s))
        r.check(items(s, first) == (C(top),), "R3", "inherited list", "the list of the start directory is changed "
                "by the walk", WALK + ".scan_directory", describe(s))
    if not done or not n:
        r.skip("R3", "tree", "no complete walk")


# ------------------------------------------------------------------ parent directories
def parents(r):
    fi = r.p.find_method(r.p.cls(GIT), "from_parent_directories")
    for path, cwd, have, want in (
            ("/t/u/v", "/", {"/.gitignore", "/t/.ignore", "/t/u/.gitignore", "/t/u/v/.gitignore"},
             ["/.gitignore", "/t/.ignore", "/t/u/.gitignore"]),
            ("/t/u", "/", {"/t/u/.gitignore", "/t/.gitignore", "/x/.gitignore"}, ["/t/.gitignore"]),
            ("/t", "/", {"/.ignore", "/t/.gitignore"}, ["/.ignore"]),
            ("/t/u/v", "/", set(), []),
            ("v/w", "/t/u", {"/t/.gitignore", "/t/u/.gitignore", "/t/u/v/.gitignore", "/v/.gitignore",
                             "/t/u/v/w/.gitignore"},
             ["/t/.gitignore", "/t/u/.gitignore", "/t/u/v/.gitignore"]),
            ("/t/u/w", "/", {"/t/.gitignore", "/t/.ffignore", "/t/.ignore", "/t/u/.ignore", "/t/u/.fdignore"},
             ["/t/.gitignore", "/t/.ffignore", "/t/.ignore", "/t/u/.ignore", "/t/u/.fdignore"]),
            (".", "/t/u", {"/t/.gitignore", "/t/u/.gitignore"}, ["/t/.gitignore"]),
            ("./v", "/t/u", {"/t/.gitignore", "/t/u/.gitignore", "/t/u/v/.gitignore"},
             ["/t/.gitignore", "/t/u/.gitignore"]),
            ("..", "/t/u", {"/.gitignore", "/t/.gitignore", "/t/u/.gitignore"}, ["/.gitignore"]),
            ("/t/u/", "/", {"/t/.gitignore", "/t/u/.gitignore"}, ["/t/.gitignore"]),
            ("/t/.git", "/", {"/t/.custom", "/t/.gitignore"}, ["/t/.custom"])):
        sub = f"parents of {path} in {cwd}" + (" with other names" if "/t/.custom" in have else "")
        names = NAMES if "/t/.custom" not in have else (".custom",)
        with r.guard("R4", sub):
            st = new_state()
            st, ns = st.new(ListObj(tuple(C(n) for n in names), "set"))
            ip = r.interp(hooks=fs_hooks(cwd, have), max_loop=12, max_elems=12, fold_re=True)
            for s, v in r.run(fi, [Fn("class", r.p.cls(GIT)), ns, C(path)], st=st, ip=ip):
                if isinstance(v, Raised):
                    r.bad("R4", sub, f"fails with {v.exc.name}", fi.loc, describe(s))
                    continue
                its = items(s, v)
                if its is None or not all(isinstance(i, C) for i in its):
                    r.skip("R4", sub, f"result {v!r} {its!r}")
                    continue
                # reading a file twice in a row changes nothing
                got = [i.v for n, i in enumerate(its) if not n or its[n - 1] != i]
                got, want = ([(d, sorted(g)) for d, g in itertools.groupby(x, lambda f: f.rsplit("/", 1)[0])]
                             for x in (got, want))
                r.check(got == want, "R4", sub, f"uses {got} instead of {want}", fi.loc, describe(s))


def fs_hooks(cwd, have):
    import os.path as op

    def full(a):
        return op.normpath(op.join(cwd, a))

    def exists(ip, st, call):
        if isinstance(call.args[0], C):
            return [(st, C(full(call.args[0].v) in have))]

    def absolute(ip, st, call):
        if isinstance(call.args[0], C):
            return [(st, C(full(call.args[0].v)))]
    return {"os.path.exists": exists, "os.path.isfile": exists, "os.path.lexists": exists,
            "os.access": exists, "os.path.abspath": absolute, "os.path.realpath": absolute,
            "os.getcwd": lambda ip, st, call: [(st, C(cwd))]}


def switches(r):
    """The start directories get the right list of ignore files."""
    p = r.p
    fi = p.func("libff.main:_Base.setup_walker")
    found = T("sym", "parents")
    for ignore, off in itertools.product((True, False), repeat=2):
        sub = f"ignore={ignore} no_parent_ignore={off}"

        def search(ip, st, call):
            args = [a for a in call.args if not (getattr(a, "kind", None) == "class")]
            st = ip.event(st, "call", "parents", None, args, call.kw, call.node)
            path = args[1] if len(args) > 1 else call.kw.get("path")
            st, ref = st.new(ListObj((T("sym", f"parents<{path!r}>"),)))
            return [(st, ref)]

        def start(ip, st, call):
            return [(st, T("sym", f"start<{call.args[-1]!r}>"))]
        with r.guard("R4", sub):
            st = new_state().setfield(ARGS, "ignore", C(ignore)).setfield(ARGS, "no_parent_ignore", C(off))
            st = st.setfield(ARGS, "absolute_path", C(False))
            st, names = st.new(ListObj((C(".custom"),), "set"))
            st = st.setfield(ARGS, "ignore_files", names)
            st, dirs = st.new(ListObj((C("/t"), C("u/v"))))
            st = st.setfield(ARGS, "directories", dirs)
            ip = r.interp(hooks={GIT + ".from_parent_directories": search,
                                 "libff.entry:StartDirectory": start}, max_loop=4)
            n = 0
            for s, v in r.run(fi, [obj(p, "libff.main:_Base")], st=st, ip=ip):
                if isinstance(v, Raised):
                    continue
                got = []
                for ev in calls(s, "put"):
                    its = items(s, ev.args[-1])
                    got += its if its is not None else [None]
                if None in got or not all(is_cls(d, "libff:Directory") for d in got):
                    r.skip("R4", sub, f"start directories {got!r}")
                    continue
                n += 1
                for d, path in zip(got, ("/t", "u/v")):
                    its = items(s, d.items[2])
                    if its is None:
                        r.skip("R4", f"{sub} {path}", f"{d.items[2]!r}")
                        continue
                    want = (T("sym", f"parents<{C(path)!r}>"),) if ignore and not off else ()
                    if not ignore and not off:
                        # without --ignore nothing is excluded: both are right
                        r.check(its in (want, (T("sym", f"parents<{C(path)!r}>"),)), "R4", f"{sub} {path}",
                                f"starts with {its}", fi.loc, describe(s))
                        continue
                    r.check(its == want, "R4", f"{sub} {path}", f"starts with the ignore files {its} instead of {want}",
                            fi.loc, describe(s))
                r.check(len(got) == 2, "R4", f"{sub} all", f"{len(got)} of 2 directories are searched", fi.loc)
                for ev in s.events():
                    if ev.kind == "call" and ev.name == "parents":
                        r.check(names in ev.args or names in ev.kw.values(), "R4", f"{sub} names",
                                "the names of --ignore-files are not used", ev.where, describe(s))
            if not n:
                r.skip("R4", sub, "no outcome")
