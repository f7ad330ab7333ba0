"""P11: only regular files are opened for their content."""
import ast

from ..excflow import Flow
from ..inventory import call_sites
from ..lib import *
from ..report import new_state
from ..schema import plugins
from ..values import C, Exc, Fn, Raised, T, Tup
from .p10 import OPENERS

EXPLANATION = (
    "The methods of every plugin are interpreted for an entry of each file type; every library call "
    "that opens or parses a file by its path is a content access. For an entry that is not a regular "
    "file no path may reach a content access, neither in the check whether the plugin handles the entry "
    "nor, unless that check refuses on all paths, in the extraction. The reading of ignore files is "
    "interpreted for a path of each file type, and the mapping of file modes to types is checked. The "
    "inventory of all openings of the program is compared with what these runs covered.")

KINDS = {"file": "S_ISREG", "directory": "S_ISDIR", "symlink": "S_ISLNK", "socket": "S_ISSOCK",
         "fifo": "S_ISFIFO", "char": "S_ISCHR", "block": "S_ISBLK", "door": "S_ISDOOR",
         "port": "S_ISPORT", "whiteout": "S_ISWHT", "other": None}
CONTENT = set(OPENERS) - {"os.fdopen", "io.FileIO", "logging.FileHandler"} | {
    "os.open", "magic.detect_from_filename", "magic.from_file", "pymediainfo.MediaInfo.parse",
    "io.FileIO", "linecache.getlines", "tokenize.open", "mmap.mmap", "runpy.run_path",
    "xml.etree.ElementTree.parse", "zipfile.is_zipfile", "tarfile.is_tarfile", "filecmp.cmp",
    "shutil.copyfile", "json.load"}
HARMLESS = ("os.path.", "os.stat", "os.lstat", "os.readlink", "os.listxattr", "os.getxattr", "os.fs",
            "os.scandir", "os.listdir", "os.statvfs", "os.access", "os.open_dir", "mimetypes.",
            "builtins.", "re.", "fnmatch.", "str.", "functools.", "itertools.", "time.", "ctypes.",
            "subprocess.", "os.strerror")


def run(r):
    r.rule("R1", "no plugin opens an entry that is not a regular file")
    r.rule("R2", "an entry is of type 'file' exactly if its mode says so")
    r.rule("R3", "an ignore file is only opened if it is a regular file")
    r.rule("R4", "every opening of a file by a computed path is covered by R1 or R3, or opens a file of ff "
                 "itself")
    r.floor = 100
    covered = set()
    plugin_access(r, covered)
    entry_access(r, covered)
    types(r)
    ignore_files(r, covered)
    inventory(r, covered)


def entry_access(r, covered):
    """The attributes of the file plugin are properties of the entry."""
    p = r.p
    sinks_in = {s.scope for s in call_sites(p) if s.name in CONTENT}
    ci = p.cls("libff.entry:Entry")
    for name, fi in sorted(ci.methods.items()):
        if fi.kind in ("classmethod", "staticmethod") or name.startswith("__"):
            continue
        with r.guard("R1", f"Entry.{name}"):
            fl = Flow(p, r.interp())
            fl.escapes(fi, ci)
            if not any(k[0].qual in sinks_in for k in fl.sets):
                r.ok("R1", f"Entry.{name}: no content access")
                continue
            for kind in KINDS:
                sk = Sink(covered)
                ip = r.interp(hooks=dict(sk.hooks(), **kind_hooks(kind)), max_loop=1)
                entry = obj(p, ci.qual)
                st = new_state().setfield(entry, "type", C(kind))
                res = ip.call_func(fi, [entry], {}, st, None)
                r.account(ip, len(res))
                hits = [(s, e) for s, v in res for e in sinks(s)]
                if kind != "file" and hits:
                    s, e = hits[0]
                    r.bad("R1", f"Entry.{name} of a {kind}", f"{e.name} is reached", where_of(e),
                          describe(s))
                else:
                    r.ok("R1", f"Entry.{name} of a {kind}")


class Sink:
    """Records every content access, with the call site."""

    def __init__(self, covered):
        self.covered = covered

    def hook(self, name):
        def h(ip, s, c):
            self.covered.add(id(c.node))
            s = ip.event(s, "sink", name, None, tuple(c.args), dict(c.kw or {}), c.node)
            return [(s, T("call", name, None, *c.args, C(c.node.lineno)))]
        return h

    def hooks(self):
        return {n: self.hook(n) for n in CONTENT}


def kind_hooks(kind):
    """The answers of the stat module and os.path for a file of one kind."""
    out = {}
    for k, fn in KINDS.items():
        if fn:
            out["stat." + fn] = lambda ip, s, c, v=(k == kind): [(s, C(v))]
    for n, ks in (("isfile", ("file",)), ("isdir", ("directory",)), ("islink", ("symlink",))):
        out["os.path." + n] = lambda ip, s, c, v=kind in ks: [(s, C(v))]
    return out


def sinks(s):
    return [e for e in s.events() if e.kind == "sink"]


# ------------------------------------------------------------------ R1
def reaching(p, ip, ci, sinks_in):
    """The functions on the call paths from the methods of a plugin to content accesses."""
    fl = Flow(p, ip)
    for n in METHODS:
        fi = p.find_method(ci, n)
        if fi is not None:
            fl.escapes(fi, ci)
    todo = [k for k in fl.sets if k[0].qual in sinks_in and k[0].qual != IGNORE_INIT]
    up = set()
    while todo:
        k = todo.pop()
        if k in up:
            continue
        up.add(k)
        todo.extend(fl.deps.get(k, ()))
    return {k[0] for k in up}


METHODS = ("can_handle", "get_entry_cache_tag", "cache", "process")
IGNORE_INIT = "libff.ignore:GitIgnore.__init__"     # see R3


def plugin_access(r, covered):
    p = r.p
    sinks_in = {s.scope for s in call_sites(p) if s.name in CONTENT}
    for ci in plugins(p):
        names = None
        with r.guard("R1", f"{ci.qual}: call graph"):
            names = reaching(p, r.interp(), ci, sinks_in)
        if names is None:
            continue
        if not names:
            r.ok("R1", f"{ci.qual}: no content access")
            continue
        for kind in KINDS:
            sub = f"{ci.qual} on a {kind}"
            with r.guard("R1", sub):
                access(r, p, ci, kind, sub, covered, names)


def access(r, p, ci, kind, sub, covered, names):
    sk = Sink(covered)
    hooks = dict(sk.hooks(), **kind_hooks(kind))
    hooks["libff.ignore:GitIgnore"] = lambda ip, s, c: [(s, T("sym", "ignore file"))]     # see R3
    entry = obj(p, "libff.entry:Entry")
    plug = T("new", ci, C(1))
    st = new_state().setfield(entry, "type", C(kind))
    # the file may be readable or not, the content may be anything
    handles = p.find_method(ci, "can_handle")
    own = {c.module.name for c in p.mro(ci) if hasattr(c, "module")} | {"libff.entry"}
    ip = r.interp(hooks=hooks, max_loop=1, depth=10,
                  opaque=lambda fi: fi.module.name not in own and fi not in names)
    yes = []
    bad = False
    for s, v in ip.call_func(handles, [plug, entry], {}, st, None):
        for e in sinks(s):
            if kind != "file":
                bad = True
                r.bad("R1", sub, f"{e.name} is reached in {where_of(e)} for a {kind}", where_of(e),
                      describe(s))
        if isinstance(v, Raised):
            continue
        if may_be_true(ip, s, v):
            yes.append(s)
    if bad:
        return
    n = len(yes)
    for name in METHODS[1:]:
        fi = p.find_method(ci, name)
        if fi is None or not yes or fi.cls.name == "Plugin":
            continue
        for s0 in yes[:6]:
            args = [plug, entry] + ([T("sym", "cached")] if name == "process" else [])
            ip.steps = 0
            for s, v in ip.call_func(fi, args, {}, s0, None):
                n += 1
                for e in sinks(s):
                    if kind != "file" and not bad:
                        bad = True
                        r.bad("R1", sub, f"{e.name} is reached in {where_of(e)} for a {kind}",
                              where_of(e), describe(s))
    r.account(ip, n)
    if not bad:
        r.ok("R1", sub)


def may_be_true(ip, s, v):
    for s2, t in ip.truth(v, s):
        if t:
            return True
    return False


def where_of(e):
    try:
        return f"{e.fn}:{e.node.lineno}"
    except AttributeError:
        return str(e)


# ------------------------------------------------------------------ R2
def types(r):
    p = r.p
    ci = p.cls("libff.entry:Entry")
    for kind in KINDS:
        sub = f"type of a {kind}"
        with r.guard("R2", sub):
            ip = r.interp(hooks=kind_hooks(kind), inst={ci.qual}, max_loop=1,
                          opaque=lambda fi: fi.module.name == "libff.path")
            st = new_state()
            n, wrong = 0, False
            for s, v in ip.call_value(Fn("class", ci), [T("sym", "start"), T("sym", "relpath"),
                                                        T("sym", "status")], {}, st, None):
                if isinstance(v, Raised):
                    continue
                n += 1
                for s2, t in ip.getattr_(v, "type", s):
                    if not isinstance(t, C):
                        r.skip("R2", sub, f"the type is {short(t)}")
                        continue
                    if (t.v == "file") != (kind == "file"):
                        r.bad("R2", sub, f"the type is {t.v!r}", ci.methods["__init__"].loc, describe(s2))
                        wrong = True
                fi = p.find_method(ci, "is_file")
                for s2, t in ip.call_func(fi, [v], {}, s, None):
                    if isinstance(t, C) and bool(t.v) != (kind == "file"):
                        r.bad("R2", sub + ", is_file()", f"is_file() yields {t.v!r}", fi.loc,
                              describe(s2))
                        wrong = True
            r.account(ip, n)
            if n and not wrong:
                r.ok("R2", sub)
            if not n:
                r.skip("R2", sub, "no path")


# ------------------------------------------------------------------ R3
def ignore_files(r, covered):
    p = r.p
    ci = p.cls("libff.ignore:GitIgnore")
    for kind in KINDS:
        sub = f"ignore file that is a {kind}"
        with r.guard("R3", sub):
            sk = Sink(covered)
            ip = r.interp(hooks=dict(sk.hooks(), **kind_hooks(kind)), inst={ci.qual}, max_loop=1)
            st = new_state()
            n, opened = 0, 0
            for s, v in ip.call_value(Fn("class", ci), [C("/dir"), T("sym", "name")], {}, st, None):
                n += 1
                for e in sinks(s):
                    opened += 1
                    if kind != "file":
                        r.bad("R3", sub, f"{e.name} is reached", where_of(e), describe(s))
            r.account(ip, n)
            if kind != "file" and not opened:
                r.ok("R3", sub)
            elif kind == "file":
                if opened:
                    r.ok("R3", sub)
                else:
                    r.skip("R3", sub, "no opening found")


# ------------------------------------------------------------------ R4
def inventory(r, covered):
    p = r.p
    for s in call_sites(p):
        if s.name not in CONTENT:
            continue
        sub = f"{s.scope}: {ast.unparse(s.node)[:60]}"
        if id(s.node) in covered:
            r.ok("R4", sub)
            continue
        a = s.node.args[0] if s.node.args else None
        if isinstance(a, ast.Constant) or a is not None and "__file__" in ast.unparse(a):
            r.ok("R4", sub)
        elif s.module.name in ("libff.plugin", "libff.help", "libff.registry"):
            r.ok("R4", sub)         # code and documentation of ff itself
        else:
            r.skip("R4", sub, "not reached by the interpretation")
