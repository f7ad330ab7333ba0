"""P25: every entry carries the paths that lead to it."""
import itertools
import os.path

from .. import walkcore
from ..lib import *
from ..report import new_state
from ..values import C, Exc, Fn, ListObj, Raised, Ref, T, Tup
from . import p18

EXPLANATION = (
    "The path helpers look at characters only to find separators and dots, so three letters stand for all: "
    "they are interpreted by constant propagation for every string of these letters up to a length that "
    "contains every arrangement of two names. Entries are constructed symbolically for every form of a "
    "start directory and their attributes compared with the path they were found under; a whole walk over "
    "a tree is interpreted and every entry compared with the directory in which it was listed. The "
    "assignment of reference files to start directories is a decision table.")

ENTRY = "libff.entry:Entry"
START = "libff.entry:StartDirectory"
PATHS = "libff.path"
CWD = "/w"


def run(r):
    r.rule("R1", "joining and splitting keep all characters and are inverse to each other")
    r.rule("R2", "path, absolute path, directory, name, extension and depth follow from start directory and "
                 "relative path")
    r.rule("R3", "the relative path is that of the directory the entry was listed in joined with its name, and "
                 "the directory is listed under the path that is reported")
    r.rule("R4", "a reference file belongs to the start directory it lies in, otherwise to its own directory")
    r.rule("R5", "files are inspected under the path they are reported with")
    r.floor = 300
    for rule, f in (("R1", joins), ("R1", splits), ("R1", extensions), ("R2", fields), ("R2", attributes),
                    ("R2", starts), ("R3", walks), ("R4", references), ("R5", inspected)):
        with r.guard(rule, f.__name__):
            f(r)


def strings(n, letters="/.a"):
    for k in range(n + 1):
        for x in itertools.product(letters, repeat=k):
            yield "".join(x)


def normal(p):
    """No doubled and no trailing slashes."""
    return "//" not in p and (p == "/" or not p.endswith("/"))


def const(r, ip, qual, *args):
    """The constant outcomes of a function: set of values, 'raises X' or None if unknown."""
    ip.steps = 0
    out = set()
    for s, v in ip.call_func(r.p.func(qual), [C(a) for a in args], {}, new_state(), None):
        if isinstance(v, Raised):
            out.add(f"raises {v.exc.name}")
            continue
        its = items(s, v)
        if its is not None and all(isinstance(i, C) for i in its):
            out.add(tuple(i.v for i in its))
        elif isinstance(v, C):
            out.add(v.v)
        else:
            out.add(None)
    return out


# ------------------------------------------------------------------ R1
def joins(r):
    q = PATHS + ":join"
    ip = r.interp(fold_re=True)
    n = 3 if r.thorough else 2
    for a in strings(n + 1):
        if not normal(a):
            continue
        for b in strings(n):
            if b and not normal(b) or b.startswith("/"):
                continue
            got = const(r, ip, q, a, b)
            want = b if not a else a if not b else a + b if a == "/" else a + "/" + b
            if None in got:
                r.skip("R1", f"join({a!r}, {b!r})", "result not constant")
                continue
            r.check(got == {want}, "R1", f"join({a!r}, {b!r})", f"gives {got} instead of {want!r}", q)
    r.account(ip, 0)


def splits(r):
    q = PATHS + ":split"
    ip = r.interp(fold_re=True)
    for p in strings(6 if r.thorough else 5):
        if not normal(p) or not p:
            continue
        got = const(r, ip, q, p)
        if None in got:
            r.skip("R1", f"split({p!r})", "result not constant")
            continue
        if p == "/":
            want = ("/", "")
        else:
            head, slash, tail = p.rpartition("/")
            want = (head or slash, tail)
        r.check(got == {want}, "R1", f"split({p!r})", f"gives {got} instead of {want!r}", q)
    r.account(ip, 0)


def parts(p):
    """(path without extension, extension) with leading dots belonging to the name."""
    head, slash, name = p.rpartition("/")
    body = name.lstrip(".")
    lead = name[:len(name) - len(body)]
    if "." not in body:
        return p, ""
    stem, _, ext = body.rpartition(".")
    return head + slash + lead + stem, "." + ext


def extensions(r):
    q = PATHS + ":splitext"
    ip = r.interp(fold_re=True, max_loop=12)
    for p in strings(6 if r.thorough else 5):
        if not normal(p) or not p:
            continue
        got = const(r, ip, q, p)
        if None in got:
            r.skip("R1", f"splitext({p!r})", "result not constant")
            continue
        r.check(got == {parts(p)}, "R1", f"splitext({p!r})", f"gives {got} instead of {parts(p)!r}", q)
    r.account(ip, 0)


# ------------------------------------------------------------------ R2
ROOTS = {".": ("", CWD), "/": ("/", "/"), "r": ("r", CWD + "/r"), "../r": ("../r", "/r"),
         "/r/s": ("/r/s", "/r/s"), "r/": ("r", CWD + "/r"), "./": ("", CWD), "/r//": ("/r", "/r"),
         "..": ("..", "/"), "./r": ("./r", CWD + "/r"), ".h": (".h", CWD + "/.h")}
RELS = ["a", "a.b", "a/b", "a/.b", ".a/b.c.d", "a/b/c", ".a.b", "..a", "a.b/c", "a\n", " a", "ä/ö", "a.conf.original~", "a.1/-b.longextension", "x" * 70 + "/y"]


def hooks(kind="file"):
    def regular(ip, st, call):
        return [(st, C(kind == "file"))]

    def isdir(ip, st, call):
        return [(st, C(kind == "directory"))]

    def link(ip, st, call):
        return [(st, C(kind == "symlink"))]

    def real(ip, st, call):
        # the current directory and everything else is reached through symbolic links
        if isinstance(call.args[0], C):
            return [(st, C(os.path.normpath(os.path.join("/real/w", "/real/" + call.args[0].v
                                                         if call.args[0].v.startswith("/") else call.args[0].v))))]
    return {"stat.S_ISREG": regular, "stat.S_ISDIR": isdir, "stat.S_ISLNK": link, **p18.fs_hooks(CWD, set()),
            "os.path.realpath": real}


def made(r, ip, st, root, rel):
    """[(state, entry)] of an entry below a start directory."""
    for s, sd in ip.call_value(Fn("class", r.p.cls(START)), [ARGS, C(root)], {}, st, None):
        if isinstance(sd, Raised):
            continue
        for x, e in ip.call_value(Fn("class", r.p.cls(ENTRY)), [sd, C(rel), T("sym", "status")], {}, s, None):
            yield x, e


def joined(root, rel):
    return rel if not root else root + rel if root == "/" else root + "/" + rel


def expected(root, rel):
    shown, absroot = ROOTS[root]
    path = joined(shown, rel)
    head, slash, name = path.rpartition("/")
    d = head or slash
    stem = parts(path)
    hidden = any(x.startswith(".") and x not in (".", "..") for x in path.split("/"))
    return {"relpath": rel, "path": path, "abspath": joined(absroot, rel), "dir": d, "name": name,
            "ext": stem[1][1:], "pathx": stem[0], "namex": stem[0].rpartition("/")[2],
            "depth": rel.count("/"), "hide": name.startswith("."), "hidden": hidden, "basename": name,
            "dirname": os.path.normpath(os.path.join(CWD, d))}


def fields(r):
    for root in ROOTS:
        for rel in RELS:
            want = expected(root, rel)
            sub = f"{rel!r} in {root!r}"
            with r.guard("R2", sub):
                ip = r.interp(hooks=hooks(), inst={ENTRY, START}, fold_re=True, max_loop=16, max_elems=16)
                n = 0
                for s, e in made(r, ip, new_state(), root, rel):
                    if isinstance(e, Raised):
                        r.bad("R2", sub, f"the entry cannot be made: {e.exc.name}", ENTRY, describe(s))
                        continue
                    n += 1
                    for name, w in want.items():
                        for _, v in ip.getattr_(e, name, s):
                            v = val(s, v)
                            if isinstance(v, Raised):
                                r.bad("R2", f"{name} of {sub}", f"raises {v.exc.name}", f"{ENTRY}.{name}")
                            elif not isinstance(v, C):
                                r.skip("R2", f"{name} of {sub}", f"{v!r}")
                            else:
                                r.check(v.v == w, "R2", f"{name} of {sub}", f"is {v.v!r} instead of {w!r}",
                                        f"{ENTRY}.{name}")
                r.account(ip, n)
                if not n:
                    r.skip("R2", sub, "no entry")


def attributes(r):
    """The root attribute is the start directory without trailing slashes."""
    for root, (shown, absroot) in ROOTS.items():
        ip = r.interp(hooks=hooks(), inst={ENTRY, START}, fold_re=True)
        for s, e in made(r, ip, new_state(), root, "a"):
            if isinstance(e, Raised):
                continue
            for _, v in ip.getattr_(e, "root", s):
                r.check(v == C(shown or "."), "R2", f"root {root!r}", f"the attribute root is {v!r}", ENTRY)
        r.account(ip, 1)


def starts(r):
    """Every start directory is searched once, under its own or its absolute path."""
    fi = r.p.func("libff.main:_Base.setup_walker")
    for absolute in (False, True):
        sub = f"start directories, absolute={absolute}"

        def start(ip, st, call):
            return [(st, T("sym", "start", call.args[-1]))]
        with r.guard("R2", sub):
            st = new_state().setfield(ARGS, "absolute_path", C(absolute)).setfield(ARGS, "ignore", C(False))
            st, dirs = st.new(ListObj((C("/t"), C("u/v"), C("."))))
            st = st.setfield(ARGS, "directories", dirs)
            fs = p18.fs_hooks(CWD, set())
            fs["os.path.realpath"] = lambda ip, st, call: [         # everything is reached through a symbolic link
                (x, C("/real" + v.v)) for x, v in p18.fs_hooks(CWD, set())["os.path.abspath"](ip, st, call) or ()]
            ip = r.interp(hooks={START: start, **fs}, max_loop=5)
            n = 0
            for s, v in r.run(fi, [obj(r.p, "libff.main:_Base")], st=st, ip=ip):
                if isinstance(v, Raised):
                    continue
                got = []
                for ev in calls(s, "put"):
                    its = items(s, ev.args[-1])
                    got += its if its is not None else [None]
                if not all(is_cls(d, "libff:Directory") for d in got):
                    r.skip("R2", sub, f"{got!r}")
                    continue
                n += 1
                want = ["/t", CWD + "/u/v", CWD] if absolute else ["/t", "u/v", "."]
                have = [d.items[0].args[1].v if isinstance(d.items[0], T) and len(d.items[0].args) > 1 and
                        isinstance(d.items[0].args[1], C) else None for d in got]
                r.check(have == want, "R2", sub, f"searches {have} instead of {want}", fi.loc, describe(s))
                r.check(all(d.items[1] == C("") for d in got), "R2", sub + ": relative paths",
                        f"the walk starts at {[d.items[1] for d in got]}", fi.loc, describe(s))
            if not n:
                r.skip("R2", sub, "no outcome")


# ------------------------------------------------------------------ R3
TREE = {"": ["a/", "f", "b.c/"], "a": ["g", ".h/"], "b.c": [], "a/.h": ["i"]}


def walks(r):
    for root in (".", "/", "r", "/r/s"):
        shown, absroot = ROOTS[root]

        def setup(ip, st):
            out = []
            for s, sd in ip.call_value(Fn("class", r.p.cls(START)), [ARGS, C(root)], {}, st, None):
                if not isinstance(sd, Raised):
                    s, l = s.new(ListObj(()))
                    out.append((s, Tup((sd, C(""), l), cls=r.p.cls("libff:Directory"))))
            return out
        with r.guard("R3", f"walk of {root}"):
            done = p18.walk(r, TREE, setup, root)
            if not done:
                r.skip("R3", f"walk of {root}", "no complete walk")
            for s in done:
                listed = [e.args[0].v for e in s.events() if e.kind == "call" and e.name == "os.scandir" and
                          isinstance(e.args[0], C)]
                want = [d and joined("" if root == "." else root, d) or root for d in TREE]
                got = sorted(os.path.normpath(x) for x in listed)
                r.check(got == sorted(os.path.normpath(x) for x in want), "R3", f"walk of {root}: directories",
                        f"lists {listed} instead of {want}", walkcore.WALK + ".scan_directory", describe(s))
                have = {}
                for (base, name), v in s.fields.items():
                    if isinstance(base, Ref) and name in ("path", "abspath", "relpath") and isinstance(v, C):
                        have.setdefault(base, {})[name] = v.v
                rels = {x["relpath"]: x for x in have.values() if "relpath" in x}
                for d, names in TREE.items():
                    for n in names:
                        rel = joined(d, n.rstrip("/"))
                        x = rels.get(rel)
                        if not r.check(x is not None, "R3", f"{rel} in {root}", f"no entry has the relative path {rel!r}, "
                                       f"there are {sorted(rels)}", walkcore.WALK + ".scan_directory"):
                            continue
                        r.check(x.get("path") == joined(shown, rel) and x.get("abspath") == joined(absroot, rel), "R3",
                                f"paths of {rel} in {root}", f"{x}", walkcore.WALK + ".scan_directory")


# ------------------------------------------------------------------ R4
def references(r):
    fi = r.p.find_method(r.p.cls(ENTRY), "as_reference") or r.p.find_method(r.p.cls(ENTRY), "from_path")
    if fi is None:
        r.skip("R4", "references", "no constructor for reference files")
        return
    # start directories, reference, (relative path, path, depth) that follow
    for dirs, path, rel in (
            (["."], "a", "a"), (["."], "a/b", "a/b"), (["."], CWD + "/a/b", "a/b"), (["."], "./a/b", "a/b"),
            (["r"], "r/a/b", "a/b"), (["r"], CWD + "/r/a", "a"), (["/"], "/a/b/c", "a/b/c"), (["/"], "x", "w/x"),
            (["/r", "/s"], "/s/a/b", "a/b"), (["/r", "/s"], "/s/r/b", "r/b"), (["/r"], "/rr/a", "a"),
            (["/r"], "/s/a", "a"), (["/r"], "a", "a"), (["/r"], "../s/a", "a"), (["/r"], "/a", "a"),
            (["/r"], "/r", "r"), (["/r"], "/r/", "r"), (["r/"], "r/a/", "a"), (["/r"], "a/b/", "b"), (["/r"], "..", "..")):
        sub = f"reference {path!r}, searching {' '.join(dirs)}"
        with r.guard("R4", sub):
            st = new_state()
            st, ds = st.new(ListObj(tuple(C(d) for d in dirs)))
            st = st.setfield(ARGS, "directories", ds)

            def status(ip, st, call):
                a = call.args[0]
                st = ip.event(st, "call", "os.stat", None, call.args, {}, call.node)
                if isinstance(a, C) and a.v == "":
                    return [(st, Raised(Exc("FileNotFoundError", (), call.node)))]
                return [(st, T("sym", f"status<{a!r}>"))]
            ip = r.interp(hooks={"os.stat": status, **hooks()}, inst={ENTRY, START}, fold_re=True, max_loop=16,
                          max_elems=16)
            n = 0
            for s, e in r.run(fi, [Fn("class", r.p.cls(ENTRY)), ARGS, C(path)], st=st, ip=ip):
                n += 1
                if isinstance(e, Raised):
                    r.bad("R4", sub, f"fails with {e.exc.name}", fi.loc, describe(s))
                    continue
                got = {}
                for name in ("relpath", "abspath", "depth", "status"):
                    for _, v in ip.getattr_(e, name, s):
                        got[name] = val(s, v)
                if not all(isinstance(got[x], C) for x in ("relpath", "abspath", "depth")):
                    r.skip("R4", sub, f"{got}")
                    continue
                full = os.path.normpath(os.path.join(CWD, path))
                r.check(got["relpath"].v == rel, "R4", f"{sub}: relative path", f"is {got['relpath'].v!r} instead of "
                        f"{rel!r}", fi.loc, describe(s))
                r.check(got["depth"].v == rel.count("/"), "R4", f"{sub}: depth", f"is {got['depth'].v!r}", fi.loc)
                r.check(os.path.normpath(got["abspath"].v) == full, "R4", f"{sub}: absolute path",
                        f"is {got['abspath'].v!r} instead of {full!r}", fi.loc)
                r.check(got["status"] in (T("sym", f"status<{C(path)!r}>"),
                                          T("sym", f"status<{C(path.rstrip('/'))!r}>"), T("sym", f"status<{C(full)!r}>")),
                        "R4", f"{sub}: status", f"is {got['status']!r}", fi.loc)
            if not n:
                r.skip("R4", sub, "no outcome")


# ------------------------------------------------------------------ R5
def inspected(r):
    """System calls about an entry name the path of the entry."""
    seen = []
    for kind in ("symlink", "directory", "file"):
        for root in (".", "r", "/r/s", "/"):
            rel = "a/b"
            own = expected(root, rel)
            fine = {own["path"], own["abspath"]}
            log = []

            def record(name):
                def hook(ip, st, call):
                    log.append((name, call.args[0] if call.args else None, call.node))
                    if name == "os.readlink":
                        return [(st, C("../t"))]
                    if name == "os.path.realpath":
                        a = call.args[0]
                        if isinstance(a, C):
                            return [(st, C(os.path.normpath(os.path.join(CWD, a.v))))]
                    if name == "os.path.exists":
                        return [(st, C(True)), (st, C(False))]
                return hook
            hk = hooks(kind)
            for n in ("os.readlink", "os.path.realpath", "os.path.exists", "os.scandir"):
                hk[n] = record(n)
            with r.guard("R5", f"{kind} in {root}"):
                ip = r.interp(hooks=hk, inst={ENTRY, START}, fold_re=True, max_loop=12)
                for s, e in made(r, ip, new_state(), root, rel):
                    if isinstance(e, Raised):
                        r.bad("R5", f"{kind} in {root}", f"fails with {e.exc.name}", ENTRY, describe(s))
                        continue
                    if kind == "symlink":
                        target = os.path.normpath(os.path.join(CWD, own["dir"], "../t"))
                        for _, v in ip.getattr_(e, "link", s):
                            r.check(v == C("../t"), "R5", f"link in {root}", f"the link is {v!r}", ENTRY)
                        for _, v in ip.getattr_(e, "target", s):
                            if isinstance(v, C):
                                r.check(v.v == target, "R5", f"target in {root}", f"the target of ../t is {v.v!r} instead "
                                        f"of {target!r}", ENTRY)
                            else:
                                r.skip("R5", f"target in {root}", f"{v!r}")
                    else:
                        list(ip.getattr_(e, "empty", s))
                for name, a, node in log:
                    if not isinstance(a, C):
                        continue
                    sub = f"{name} for a {kind} in {root}"
                    if name in ("os.readlink", "os.scandir"):
                        seen.append(sub)
                        r.check(a.v in fine, "R5", sub, f"inspects {a.v!r} instead of {own['path']!r}",
                                f"libff/entry.py:{getattr(node, 'lineno', '')}")
                r.account(ip, 1)
    if not seen:
        r.skip("R5", "inspection", "no system call found")
