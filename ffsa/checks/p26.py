"""P26: file attributes describe the inode."""
import itertools
import stat

from ..inventory import dotted
from ..lib import *
from ..report import new_state
from ..schema import declared, plugins
from ..values import C, DictObj, Exc, Fn, ListObj, Raised, Ref, T, Tup
from . import p09, p18

EXPLANATION = (
    "The construction of an entry and the reading of every attribute the file plugin declares are interpreted "
    "with a symbolic stat result for every kind of file and the term of the result is compared with the "
    "documented field; permission bits are enumerated. The lookup of mountpoints is interpreted for the "
    "arrangements of a path and mountpoints above, beside and below it, in every order of mounting. The text of "
    "a mode is propagated through the parser for all combinations of classes, operators and permissions.")

ENTRY = "libff.entry:Entry"
START = "libff.entry:StartDirectory"
MOUNTS = "libff.entry:Mountpoints"
STATUS = T("sym", "status")
CWD = "/w"
# kind of file -> (predicate of the stat module, format bits)
KINDS = {"directory": ("S_ISDIR", 0o040000), "file": ("S_ISREG", 0o100000), "symlink": ("S_ISLNK", 0o120000),
         "socket": ("S_ISSOCK", 0o140000), "fifo": ("S_ISFIFO", 0o010000), "char": ("S_ISCHR", 0o020000),
         "block": ("S_ISBLK", 0o060000), "door": ("S_ISDOOR", 0o150000), "port": ("S_ISPORT", 0o160000),
         "whiteout": ("S_ISWHT", 0o170000), "other": (None, 0o110000)}


def run(r):
    r.rule("R1", "attributes taken from the inode have the value of their field of the stat result")
    r.rule("R2", "the type is that of the file, and everything that depends on the type agrees with it")
    r.rule("R3", "exec and perm describe the permission bits")
    r.rule("R4", "user and group are the names of the ids of the file, empty for unknown ids")
    r.rule("R5", "empty means a regular file without content or a directory without entries")
    r.rule("R6", "link, target and broken describe symbolic links, other files have no link and no target")
    r.rule("R7", "the mountpoint is the nearest one above the file, the one mounted last if there are several")
    r.rule("R8", "every declared file attribute exists")
    r.rule("R9", "modes denote the bits of the classes, operators and permissions they are written with")
    r.floor = 400
    for rule, f in (("R1", numbers), ("R2", kinds), ("R3", executable), ("R4", owners), ("R5", empties), ("R6", links),
                    ("R7", nearest), ("R7", table), ("R7", uses), ("R7", mounts), ("R8", exists), ("R9", modes)):
        with r.guard(rule, f.__name__):
            f(r)


def interp(r, st_hooks=None, **kw):
    hooks = {}
    for kind, (name, fmt) in KINDS.items():
        if name:
            hooks["stat." + name] = predicate(fmt)
    hooks["stat.S_IFMT"] = lambda ip, s, c: [(s, C(c.args[0].v & 0o170000))] if isinstance(c.args[0], C) else None
    hooks.update(p18.fs_hooks(CWD, set()))
    hooks.update(st_hooks or {})
    return r.interp(hooks=hooks, inst={ENTRY, START}, fold_re=True, max_loop=16, max_elems=16, strict_attrs=True,
                    **kw)


def predicate(fmt):
    def test(ip, s, c):
        a = val(s, c.args[0])
        return [(s, C(a.v & 0o170000 == fmt))] if isinstance(a, C) and isinstance(a.v, int) else None
    return test


def entry(r, ip, mode, rel="d/name", root="/r", absroot="/r", facts=None):
    """[(state, entry)] of a file with the given mode."""
    st = new_state().setfield(STATUS, "st_mode", C(mode))
    if facts:
        st = facts(st)
    start = T("sym", "start")
    st = st.setfield(start, "root", C(root)).setfield(start, "absroot", C(absroot)) \
        .setfield(start, "device", T("sym", "start device"))
    good = []
    for s, e in ip.call_value(Fn("class", r.p.cls(ENTRY)), [start, C(rel), STATUS], {}, st, None):
        if isinstance(e, Raised):
            r.bad("R2", f"entry of mode {mode:o}", f"cannot be made: {e.exc.name}", ENTRY, describe(s))
        else:
            good.append((s, e))
    return good


def read(ip, s, e, name):
    return [(x, val(x, v)) for x, v in ip.getattr_(e, name, s)]


def field(name):
    return T("attr", STATUS, name)


def number_of(v):
    """The term below conversions that keep a number, and the conversions."""
    conv = []
    while isinstance(v, T) and (v.op == "pure" and str(v.args[0]).split(".")[-1] in ("int", "floor", "trunc") or
                                v.op in ("int", "floor")):
        xs = [a for a in v.args if isinstance(a, T)]
        if len(xs) != 1:
            return v, conv
        conv.append("int")
        v = xs[0]
    if isinstance(v, T) and v.op == "call" and str(v.args[0]).split(".")[-1].split(":")[-1] in ("int", "floor", "trunc"):
        xs = [a for a in v.args[1:] if isinstance(a, T)]
        if len(xs) == 1:
            return xs[0], ["int"]
    return v, conv


def whole_seconds(v, name):
    """Whether a term is the number of nanoseconds divided by 10**9 or the integer of the stat tuple."""
    if v == T("item", STATUS, C({"st_atime": 7, "st_mtime": 8, "st_ctime": 9}[name])):
        return True
    if isinstance(v, T) and v.op == "item" and v.args[1] == C(0) and isinstance(v.args[0], T) and \
            v.args[0].op in ("pure", "call", "divmod") and "divmod" in (v.args[0].op, *map(str, v.args[0].args[:1])):
        v = v.args[0]
    elif not (isinstance(v, T) and (v.op in ("//", "floordiv") or v.op == "binop" and v.args[0] in ("//", C("//")))):
        return False
    parts = [a for a in v.args if isinstance(a, (T, C)) and a not in (C("//"), C("divmod"))]
    return parts == [field(name + "_ns"), C(10 ** 9)]


# ------------------------------------------------------------------ R1
PLAIN = {"device": "st_dev", "inode": "st_ino", "links": "st_nlink", "uid": "st_uid", "gid": "st_gid",
         "mtime": "st_mtime", "time": "st_mtime", "ctime": "st_ctime", "atime": "st_atime"}


def numbers(r):
    for kind, (_, fmt) in KINDS.items():
        sub0 = f"of a {kind}"
        with r.guard("R1", sub0):
            ip = interp(r)
            for s, e in entry(r, ip, fmt | 0o644):
                for name, want in PLAIN.items():
                    sub = f"{name} {sub0}"
                    for x, v in read(ip, s, e, name):
                        if isinstance(v, Raised):
                            r.bad("R1", sub, f"raises {v.exc.name}", f"{ENTRY}.{name}", describe(x))
                            continue
                        base, conv = number_of(v)
                        if want.endswith("time"):
                            # The float may be rounded up to the next second.
                            r.check(whole_seconds(base, want), "R1", sub, f"is {short(v)}, which is not the time of "
                                    "the inode in whole seconds", f"{ENTRY}.{name}", describe(x))
                        else:
                            r.check(base == field(want), "R1", sub, f"is {short(v)}", f"{ENTRY}.{name}", describe(x))
                for x, v in read(ip, s, e, "size"):
                    want = field("st_size") if kind == "file" else C(0)
                    r.check(v == want, "R1", f"size {sub0}", f"is {short(v)}", f"{ENTRY}.size", describe(x))
                for x, v in read(ip, s, e, "mode"):
                    r.check(v == C(fmt | 0o644), "R1", f"mode {sub0}", f"is {short(v)}", f"{ENTRY}.mode", describe(x))
                got = {}
                for x, v in read(ip, s, e, "samedev"):
                    eq = x.facts.get(("eq", field("st_dev"), T("sym", "start device")))
                    if eq is None:
                        eq = x.facts.get(("eq", T("sym", "start device"), field("st_dev")))
                    if isinstance(v, T) and v.op in ("eq", "==", "cmp"):
                        r.check({field("st_dev"), T("sym", "start device")} <= set(walk_terms(v)), "R1",
                                f"samedev {sub0}", f"is {short(v)}", f"{ENTRY}.samedev")
                        got = None
                        break
                    if isinstance(v, C) and eq is not None:
                        got[eq] = v.v
                if got:
                    r.check(got == {True: True, False: False} or set(got) != {True, False} and
                            all(k == w for k, w in got.items()), "R1", f"samedev {sub0}", f"is {got}",
                            f"{ENTRY}.samedev")
            r.account(ip, 1)


# ------------------------------------------------------------------ R2
ASK = {"is_dir": "directory", "is_file": "file", "is_symlink": "symlink", "is_socket": "socket", "is_fifo": "fifo"}


def kinds(r):
    p = r.p
    choices = None
    ci = p.cls("libff.type:FileType")
    with r.guard("R2", "choices"):
        choices = p09.class_set(r, ci, "choices")
    for kind, (_, fmt) in KINDS.items():
        for perm in (0, 0o7777):
            sub = f"type of a {kind} {perm:o}"
            with r.guard("R2", sub):
                ip = interp(r)
                n = 0
                for s, e in entry(r, ip, fmt | perm):
                    n += 1
                    for x, v in read(ip, s, e, "type"):
                        r.check(v == C(kind), "R2", sub, f"is {short(v)}", ENTRY, describe(x))
                    for name, k in ASK.items():
                        fi = p.find_method(p.cls(ENTRY), name)
                        if fi is None:
                            continue
                        for x, v in ip.call_func(fi, [e], {}, s, None):
                            r.check(v == C(k == kind), "R2", f"{name} of a {kind} {perm:o}", f"is {short(v)}", fi.loc,
                                    describe(x))
                r.account(ip, n)
                if not n:
                    r.skip("R2", sub, "no entry")
        if choices:
            r.check(kind in choices, "R2", f"{kind} can be tested for", f"the types that can be tested for are "
                    f"{sorted(choices)}", ci.qual)
    short_ = {"d": "directory", "f": "file", "l": "symlink", "s": "socket", "p": "fifo", "pipe": "fifo"}
    fi = p.find_method(ci, "test")
    for text, want in list(short_.items()) + [(k, k) for k in KINDS]:
        for kind in KINDS:
            sub = f"type={text} of a {kind}"
            with r.guard("R2", sub):
                test = Tup((T("sym", "attribute"), C("="), Fn("class", ci), C(text), C(False)),
                           cls=p.cls("libff.parser:Test"))
                for s, v in r.run(fi, [Fn("class", ci), T("sym", "entry"), test, C(kind)]):
                    v = val(s, v)
                    if not isinstance(v, (C, Raised)):
                        r.skip("R2", sub, f"is {short(v)}")
                        continue
                    r.check(v == C(kind == want), "R2", sub, p09.outcome_text(v), fi.loc, describe(s))


# ------------------------------------------------------------------ R3
def executable(r):
    bits = [1 << i for i in range(12)]
    perms = {0, 0o7777, 0o666, 0o755, 0o644, 0o7666} | set(bits) | {0o7777 & ~b for b in bits}
    if r.thorough:
        perms |= set(range(0o10000))
    ip = interp(r)
    for kind in ("directory", "file", "symlink", "socket", "fifo"):
        for perm in sorted(perms):
            sub = f"{kind} {perm:o}"
            ip.steps = 0
            with r.guard("R3", sub):
                for s, e in entry(r, ip, KINDS[kind][1] | perm):
                    want = kind not in ("directory", "symlink") and bool(perm & 0o111)
                    for x, v in read(ip, s, e, "exec"):
                        r.check(v == C(want), "R3", f"exec of {sub}", f"is {short(v)}", f"{ENTRY}.exec", describe(x))
                    for x, v in read(ip, s, e, "perm"):
                        r.check(v == C(perm), "R3", f"perm of {sub}", f"is {short(v)}", f"{ENTRY}.perm", describe(x))
    r.account(ip, 1)


# ------------------------------------------------------------------ R4
def owners(r):
    for name, fn, fieldname in (("user", "pwd.getpwuid", "st_uid"), ("group", "grp.getgrgid", "st_gid")):
        for known in (True, False):
            for cached in ((), (7,), (5,), (7, 5)):
                sub = f"{name}, {'known' if known else 'unknown'} id, {len(cached)} names cached {cached}"
                with r.guard("R4", sub):
                    def lookup(ip, s, c):
                        if not known:
                            return [(s, Raised(Exc("KeyError", (), c.node)))]
                        return record(s, fn, c.args[0])

                    def facts(st):
                        st = st.setfield(STATUS, "st_uid", C(5)).setfield(STATUS, "st_gid", C(5))
                        return st
                    other = "pwd.getpwuid" if fn != "pwd.getpwuid" else "grp.getgrgid"
                    ip = interp(r, {fn: lookup, other: lambda ip, s, c: record(s, "other", c.args[0])})
                    for s, e in entry(r, ip, 0o100644, facts=facts):
                        for kind, attr in (("user", "_pwd_cache"), ("group", "_grp_cache")):
                            s, d = s.new(DictObj(tuple((C(i), T("cached", kind, i)) for i in cached)))
                            s = s.setfield(e, attr, d)
                        n = 0
                        for x, v in read(ip, s, e, name):
                            n += 1
                            if isinstance(v, Raised):
                                r.bad("R4", sub, f"raises {v.exc.name}", f"{ENTRY}.{name}", describe(x))
                                continue
                            if 5 in cached:
                                want = {T("cached", name, 5), T("name of", fn, C(5)) if known else C("")}
                            else:
                                want = {T("name of", fn, C(5)) if known else C("")}
                            r.check(v in want, "R4", sub, f"is {short(v)}", f"{ENTRY}.{name}", describe(x))
                            for attr in ("_pwd_cache", "_grp_cache"):
                                ref = x.fields.get((e, attr))
                                o = x.heap.get(ref.id) if isinstance(ref, Ref) else None
                                if not isinstance(o, DictObj):
                                    continue
                                kind = "user" if attr == "_pwd_cache" else "group"
                                for k, w in o.items:
                                    if k == C(5) and 5 not in cached:
                                        r.check(kind == name and w in want, "R4", sub + ": cache",
                                                f"{short(w)} is remembered as the {kind} of the id", f"{ENTRY}.{name}",
                                                describe(x))
                                    else:
                                        r.check(w == T("cached", kind, k.v if isinstance(k, C) else None), "R4",
                                                sub + ": other names", f"{short(w)} is remembered as the {kind} of "
                                                f"{short(k)}", f"{ENTRY}.{name}", describe(x))
                        if not n:
                            r.skip("R4", sub, "no outcome")


def record(s, fn, key):
    """An entry of the user or group database."""
    rec, name = T("record", fn, key), T("name of", fn, key)
    for f in ("pw_name", "gr_name", ("item", C(0))):
        s = s.setfield(rec, f, name)
    return [(s, rec)]


# ------------------------------------------------------------------ R5
def empties(r):
    for kind, (_, fmt) in KINDS.items():
        for content in (0, 1, 3, None) if kind in ("directory", "file") else (0,):
            sub = f"empty of a {kind} with {content}"
            with r.guard("R5", sub):
                def scan(ip, s, c):
                    if content is None:
                        return [(s, Raised(Exc("PermissionError", (), c.node)))]
                    names = tuple(T("sym", f"child{i}") for i in range(content))
                    for x in names:
                        s = s.fact(("neq", x, C(None)), True).fact(("truth", x), True)
                    s, l = s.new(ListObj(names))
                    return [(s, l)]

                def names(ip, s, c):
                    return scan(ip, s, c)

                def facts(st):
                    return st.setfield(STATUS, "st_size", C(content or 0))
                ip = interp(r, {"os.scandir": scan, "os.listdir": names})
                for s, e in entry(r, ip, fmt | 0o644, facts=facts):
                    for x, v in read(ip, s, e, "empty"):
                        if content is None and kind == "file":
                            continue
                        want = kind in ("directory", "file") and content == 0
                        if isinstance(v, T):
                            v = C(x.facts.get(("truth", v))) if ("truth", v) in x.facts else v
                        if isinstance(v, T):
                            r.skip("R5", sub, f"is {short(v)}")
                            continue
                        r.check(v == C(want), "R5", sub, p09.outcome_text(v), f"{ENTRY}.empty", describe(x))
                r.account(ip, 1)


# ------------------------------------------------------------------ R6
def links(r):
    p = r.p
    get = p.find_method(p.cls(ENTRY), "get_attribute")
    targets = {"x/y": "/r/d/x/y", "/abs/z": "/abs/z", "../up": "/r/up", "x y": "/r/d/x y"}
    for kind, (_, fmt) in KINDS.items():
        for there in (True, False) if kind == "symlink" else (True,):
            for text in ("x/y", "/abs/z", "../up", "x y") if kind == "symlink" else ("x",):
                sub = f"{kind} to {text}, {'existing' if there else 'missing'}"
                with r.guard("R6", sub):
                    asked = []

                    def exists(ip, s, c):
                        if not isinstance(c.args[0], C):
                            return None
                        # only the target itself, or the link that leads to it, say whether it exists
                        asked.append(c.args[0])
                        return [(s, C(there if c.args[0].v in (targets[text], "/r/d/name") else not there))]

                    def real(ip, s, c):
                        import os.path
                        a = c.args[0]
                        if not isinstance(a, C):
                            return None
                        return [(s, C(os.path.normpath(os.path.join(CWD, a.v))))]
                    ip = interp(r, {"os.readlink": lambda ip, s, c: [(s, C(text))], "os.path.exists": exists,
                                    "os.path.realpath": real})
                    n = 0
                    for s, e in entry(r, ip, fmt | 0o777):
                        n += 1
                        want = {"link": C(text), "broken": C(kind == "symlink" and not there),
                                "target": C(targets.get(text))}
                        for name, w in want.items():
                            for x, v in ip.call_func(get, [e, C(name)], {}, s, None):
                                v = val(x, v)
                                if kind != "symlink" and name != "broken":
                                    r.check(raised_name(v) == "KeyError", "R6", f"{name} of a {kind}",
                                            f"is {p09.outcome_text(v)}", f"{ENTRY}.get_attribute", describe(x))
                                elif not isinstance(v, (C, Raised)):
                                    r.skip("R6", f"{name} of a {sub}", f"is {short(v)}")
                                else:
                                    r.check(v == w, "R6", f"{name} of a {sub}", p09.outcome_text(v), ENTRY, describe(x))
                    if kind != "symlink":
                        continue
                    if not n:
                        r.skip("R6", sub, "no entry")
                    r.account(ip, n)


# ------------------------------------------------------------------ R7
def reference(entries, path):
    """The nearest of the mountpoints, the last one mounted."""
    best = None
    for m in entries:
        d = m[0].rstrip("/") + "/"
        if (path.rstrip("/") + "/").startswith(d) and (best is None or len(d) >= len(best[0])):
            best = (d, m[1], m[2])
    return best


MOUNTED = [("/", "root", "ext4"), ("/a", "da", "xfs"), ("/a/b", "db", "tmpfs"), ("/ab", "dab", "proc"),
           ("/a-b", "dm", "vfat")]
PATHS = ["/", "/a", "/a/", "/a/x", "/a/b", "/a/b/c", "/a/bc", "/ab", "/ab/c", "/abc", "/a-b", "/a-b/c", "/x", "/b/a"]


def nearest(r):
    """Mountpoints.get() with a table as it is filled by the constructor."""
    p = r.p
    orders = [list(o) for o in itertools.permutations(MOUNTED)]
    orders = orders if r.thorough else orders[::7]
    for order in orders:
        lookups(r, order, "R7", f"{' '.join(m[0] for m in order)}")


def lookups(r, order, rule, label, paths=PATHS):
    p = r.p
    ci = p.cls(MOUNTS)
    get = p.find_method(ci, "get")
    lines = [f"{escaped(d)} {escaped(m)} {f} rw,relatime 0 0\n" for m, d, f in order]
    ip = None

    def opened(ip, s, c):
        name = c.args[0] if c.args else c.kw.get("file")
        if name != C("/proc/mounts") and name != C("/proc/self/mounts"):
            return None
        mode = c.args[1] if len(c.args) > 1 else c.kw.get("mode", C("r"))
        binary = isinstance(mode, C) and "b" in mode.v
        if not binary and c.kw.get("errors") != C("surrogateescape") and not "".join(lines).isprintable() and \
                any("\ud800" <= ch <= "\udfff" for x in lines for ch in x):
            return [(s, Raised(Exc("UnicodeDecodeError", (), c.node)))]
        s, l = s.new(ListObj(tuple(C(x.encode("utf-8", "surrogateescape") if binary else x) for x in lines)))
        return [(s, l)]
    ip = r.interp(hooks={"builtins.open": opened, "io.open": opened,
                         "os.fsdecode": lambda ip, s, c: [(s, C(c.args[0].v.decode("utf-8", "surrogateescape")
                                                              if isinstance(c.args[0].v, bytes) else c.args[0].v))]
                         if isinstance(c.args[0], C) else None},
                  inst={MOUNTS}, fold_re=True, max_loop=16, max_elems=16)
    done = 0
    for s, m in ip.call_value(Fn("class", ci), [], {}, new_state(), None):
        if isinstance(m, Raised):
            r.bad(rule, label, f"the table cannot be read: {m.exc.name}", MOUNTS, describe(s))
            continue
        for path in paths:
            ip.steps = 0
            sub = f"{path} with {label}"
            want = reference(order, path)
            for x, v in ip.call_func(get, [m, C(path)], {}, s, None):
                its = items(x, v)
                if isinstance(v, Raised):
                    r.bad(rule, sub, f"raises {v.exc.name}", f"{MOUNTS}.get", describe(x))
                    continue
                if its is None or not all(isinstance(i, C) for i in its):
                    r.skip(rule, sub, f"is {short(v)}")
                    continue
                if any(k[0] == "truth" and f != s.facts.get(k) for k, f in x.facts.items()):
                    r.skip(rule, sub, "depends on an unknown comparison")
                    continue
                done += 1
                got = tuple(i.v for i in its)
                if want is None:
                    r.check(got[0].rstrip("/") == "", rule, sub, f"is {got}, there is no mountpoint above it",
                            f"{MOUNTS}.get", describe(x))
                    continue
                r.check((got[0].rstrip("/"),) + got[1:] == (want[0].rstrip("/"),) + want[1:], rule, sub,
                        f"is {got}, should be {want}", f"{MOUNTS}.get", describe(x))
    r.account(ip, done)
    if not done:
        r.skip(rule, label, "no result")


def escaped(text):
    """As the kernel writes names into the table (mangle() in fs/proc_namespace.c)."""
    return "".join(f"\\{ord(c):03o}" if c in " \t\n\\#" else c for c in text)


def table(r):
    lookups(r, [], "R7", "an empty table")
    lookups(r, [("/a", "d", "xfs")], "R7", "no root")
    # several file systems on one directory: the last one is visible
    for a, b in (("z", "a"), ("a", "z")):
        lookups(r, [("/", a, "rootfs"), ("/", b, "ext4"), ("/a", a, "autofs"), ("/a", b, "nfs")], "R7",
                f"two on a directory, {a} then {b}", ["/", "/x", "/a", "/a/x"])
        lookups(r, [("/a", "same", a), ("/", "root", "ext4"), ("/a", "same", b)], "R7",
                f"remounted, {a} then {b}", ["/", "/x", "/a", "/a/x"])
    # names the kernel escapes, and names that look like several fields
    for name in ("/m p", "/m\tp", "/m\\p", "/m#p", "/m\u00a0p", "/m\u2003p", "/m\u0085p", "/ä", "/m\\040p", "/m\udcffp"):
        lookups(r, [("/", "root", "ext4"), (name, "dev", "vfat"), ("/m", "other", "xfs")], "R7",
                f"mountpoint {name!r}", ["/", name, name + "/x", "/m", "/m/x", "/x"])
    lookups(r, [("/", "root", "ext4"), ("/a", "my device", "cifs")], "R7", "device 'my device'", ["/a", "/a/x", "/x"])


def uses(r):
    """mpath, devname, fstype and pseudofs of an entry."""
    def get(ip, s, c):
        a = c.args[-1]
        return [(s, Tup((T("mount", a), T("name", a), T("kind", a))))]
    ip = interp(r, {MOUNTS + ".get": get})
    for s, e in entry(r, ip, 0o100644, rel="x/y", root="../r", absroot="/r"):
        s0 = s.setfield(e, "_mountpoints", obj(r.p, MOUNTS))
        for name, op in (("mpath", "mount"), ("devname", "name"), ("fstype", "kind")):
            for x, v in read(ip, s0, e, name):
                r.check(v == T(op, C("/r/x/y")), "R7", name, f"is {short(v)}", f"{ENTRY}.{name}", describe(x))
    r.account(ip, 1)
    known = {"proc", "sysfs", "tmpfs", "devtmpfs", "cgroup2", "debugfs"}
    for kind in sorted(known) + ["ext4", "xfs", "rootfs", "nfs", ""]:
        ip = interp(r, {MOUNTS + ".get": lambda ip, s, c: [(s, Tup((C("/"), C("d"), C(kind))))]})
        for s, e in entry(r, ip, 0o100644):
            s = s.setfield(e, "_mountpoints", obj(r.p, MOUNTS))
            for x, v in read(ip, s, e, "pseudofs"):
                r.check(v == C(kind in known), "R7", f"pseudofs on {kind}", f"is {short(v)}", f"{ENTRY}.pseudofs",
                        describe(x))
        r.account(ip, 1)


def mounts(r):
    """A directory is a mountpoint if its parent is on another device or is the directory itself."""
    for kind in ("directory", "file", "symlink"):
        for same in (True, False, None):
            sub = f"mount of a {kind}, parent on {'the same' if same else 'another' if same is False else 'no'} device"
            with r.guard("R7", sub):
                parent = T("sym", "parent status")

                def status(ip, s, c):
                    if same is None:
                        return [(s, Raised(Exc("FileNotFoundError", (), c.node)))]
                    return [(s.setfield(parent, "st_dev", C(1 if same else 2)), parent)]
                ip = interp(r, {"os.lstat": status, "os.stat": status,
                                "os.path.realpath": lambda ip, s, c: [(s, C("/real/parent"))],
                                "os.readlink": lambda ip, s, c: [(s, C("t"))],
                                "os.path.exists": lambda ip, s, c: [(s, C(True))]})
                for s, e in entry(r, ip, KINDS[kind][1] | 0o755,
                                  facts=lambda st: st.setfield(STATUS, "st_dev", C(1))):
                    for x, v in read(ip, s, e, "mount"):
                        want = kind == "directory" and same is False
                        r.check(v == C(want), "R7", sub, p09.outcome_text(v), f"{ENTRY}.mount", describe(x))
                r.account(ip, 1)


# ------------------------------------------------------------------ R8
def exists(r):
    p = r.p
    ci = next((c for c in plugins(p) if c.name == "File"), None)
    names = sorted(declared(p, ci)) if ci else []
    if len(names) < 20:
        r.skip("R8", "attributes", f"only {len(names)} attributes are declared")
    get = p.find_method(p.cls(ENTRY), "get_attribute")
    for kind in ("file", "directory", "symlink"):
        ip = interp(r, {"os.readlink": lambda ip, s, c: [(s, C("t"))],
                        "os.path.exists": lambda ip, s, c: [(s, C(True))]})
        for s, e in entry(r, ip, KINDS[kind][1] | 0o644, facts=lambda st: st.setfield(STATUS, "st_uid", C(5))
                          .setfield(STATUS, "st_gid", C(5))):
            for attr in ("_pwd_cache", "_grp_cache"):
                s, d = s.new(DictObj(()))
                s = s.setfield(e, attr, d)
            for name in names:
                if name in ("link", "target") and kind != "symlink":
                    continue
                ip.steps = 0
                with r.guard("R8", f"{name} of a {kind}"):
                    for x, v in ip.call_func(get, [e, C(name)], {}, s, None):
                        r.check(raised_name(v) not in ("KeyError", "AttributeError"), "R8", f"{name} of a {kind}",
                                "does not exist", f"{ENTRY}.{name}", describe(x))
        r.account(ip, 1)


# ------------------------------------------------------------------ R9
WHO = {"u": 0o4700, "g": 0o2070, "o": 0o1007, "a": 0o7777, "": 0o7777}
PERM = {"r": 0o444, "w": 0o222, "x": 0o111, "s": 0o6000, "t": 0o1000}


def denoted(text):
    """The bits a mode denotes."""
    bits = 0
    for part in text.split(","):
        if part.lstrip("+-=").isdigit():
            who, op, val = 0o7777, part[0] if part[0] in "+-=" else "=", int(part.lstrip("+-="), 8)
        else:
            i = next(k for k, c in enumerate(part) if c in "+-=")
            who = 0
            for c in part[:i] or "a":
                who |= WHO[c]
            op, val = part[i], 0
            for c in part[i + 1:]:
                val |= PERM[c]
            val &= who
        bits = bits | val if op == "+" else bits & ~val if op == "-" else bits & ~who | val
    return bits


def modes(r):
    p = r.p
    ci = p.cls("libff.type:Mode")
    fi = p.find_method(ci, "input")
    single = [f"{w}{o}{x}" for w in ("", "u", "g", "o", "a", "ug", "uo", "go", "ugo", "gu", "ua")
              for o in "+-=" for x in ("r", "w", "x", "s", "t", "rw", "rwx", "xr", "rwxst")]
    single += ["0", "7", "644", "0644", "7777", "+111", "-22", "=4755", "+4000", "1000"]
    pairs = [f"{a},{b}" for a in ("u+r", "a+rwx", "ug=rw", "o=", "g+s", "755", "u=rwx")
             for b in ("g+w", "o-r", "u-x", "a-w", "u=s", "o=x", "go-rwx", "-22", "+t", "644") if not a.endswith("=")]
    triples = ["u=rwx,g=rx,o=r", "u+r,g+w,o+x", "a+r,u-r,g=w", "u+x,u-x,u+w", "755,u-x,g=w", "u=rw,g=r,o=", "o+t,u+s,g+s"]
    triples = [t for t in triples if not t.endswith("=")]
    if r.thorough:
        pairs = [f"{a},{b}" for a in single for b in single[::5]]
    ip = r.interp(fold_re=True, max_loop=24, max_elems=24)
    for text in single + pairs + triples:
        sub = f"mode {text}"
        want = denoted(text)
        ip.steps = 0
        with r.guard("R9", sub):
            n = 0
            for s, v in ip.call_func(fi, [Fn("class", ci), C(text)], {}, new_state(), None):
                v = val(s, v)
                n += 1
                if isinstance(v, Raised):
                    r.bad("R9", sub, f"is refused with {v.exc.name}", fi.loc, describe(s))
                elif not isinstance(v, C):
                    r.skip("R9", sub, f"is {short(v)}")
                else:
                    r.check(v.v == want, "R9", sub, f"denotes {v.v:o} instead of {want:o}", fi.loc, describe(s))
            if not n:
                r.skip("R9", sub, "no outcome")
    for text in ("", "u", "u+", "+", "rwx", "8", "u+q", "w+r", "u+r,", ",u+r", "u+r;g+w", "u+r g+w", "0x7", "u++r",
                 "-", "u7", "99"):
        sub = f"mode {text!r}"
        ip.steps = 0
        with r.guard("R9", sub):
            for s, v in ip.call_func(fi, [Fn("class", ci), C(text)], {}, new_state(), None):
                if isinstance(val(s, v), (C, Raised)):
                    r.check(raised_name(v) == "ValueError", "R9", sub, f"is {p09.outcome_text(v)}", fi.loc, describe(s))
    r.account(ip, 1)
