"""P31: plugins report what the file they are asked about says."""
import re

from ..lib import *
from ..report import Undecided, new_state
from ..values import C, DictObj, Exc, ListObj, Raised, Ref, T, Tup

EXPLANATION = (
    "can_handle, cache and process of the plugins are interpreted one after the other as the registry does, for an "
    "entry with known paths. The libraries they ask are replaced by summaries: opening a file gives an object with "
    "known content and a position, digests record what they are fed, git, magic, pymediainfo, tarfile, ast and the "
    "functions for extended attributes give known answers for the path they are given and nothing for any other. The "
    "values that are produced are compared with what the description of the attribute says.")

ENTRY = "libff.entry:Entry"
PATH, ABS, DIR, NAME = "top/pkg/sub/x.py", "/base/top/pkg/sub/x.py", "top/pkg/sub", "x.py"
BIG = bytes(i % 251 for i in range(3 * 8192 + 5))
ELASTIC = T("sym", "content of the large file")


def large(s):
    """The content an elastic file has in this state."""
    v = s.fields.get((ELASTIC, "data"))
    return v.v if v is not None else None


def pattern(n):
    n = max(n, len(BIG))
    return (BIG * (n // len(BIG) + 1))[:n]


def run(r):
    r.rule("R1", "a hash is the digest of the whole content of the file by the algorithm it is named after")
    r.rule("R2", "text, linecount and lines are those of the whole file; a file that cannot be decoded is no text")
    r.rule("R3", "the members of a tar archive are the names of all its members, whatever the documented compression")
    r.rule("R4", "a shebang is what follows #! in the first line, without blanks at the end")
    r.rule("R5", "the imports of a Python file are all modules that are imported anywhere in it")
    r.rule("R6", "tracked, dirty, repo and repo_dir follow from the git repository the entry is in")
    r.rule("R7", "mime, type, subtype, encoding and name follow from what libmagic reports")
    r.rule("R8", "the attributes of a medium are those of its tracks, durations in seconds, video before image")
    r.rule("R9", "extended attributes are listed as key=value, all of them")
    r.rule("R10", "the file system is the one of the directory or of the directory a file is in")
    r.rule("R11", "a file belongs to a package if its absolute path is listed, whatever the start directory")
    r.rule("R12", "the libraries an executable needs are all that it is linked with")
    r.floor = 60
    for f, rule in ((hashes, "R1"), (grep, "R2"), (tar, "R3"), (shebang, "R4"), (py, "R5"), (git, "R6"), (mime, "R7"),
                    (media, "R8"), (xattr, "R9"), (fs, "R10"), (pacman, "R11"), (elf, "R12")):
        with r.guard(rule, f.__name__):
            f(r, rule)


# ------------------------------------------------------------------ a file with known content
class Elastic:
    """Content of a file that is larger than the first piece that is read of it."""

    def __init__(self, make):
        self.make = make                         # number of units -> content

    def __repr__(self):
        return "Elastic"


class Files:
    """Summary of open(): {path: bytes or Elastic or (bytes, text or None or Elastic)}."""

    def __init__(self, content):
        self.content = content

    def hooks(self):
        out = {"builtins.open": self.open, "open": self.open, "io.open": self.open, "tokenize.open": self.open,
               "<iter>": self.iter, "builtins.iter": self.sentinel}
        for n in ("read", "readline", "readlines", "close", "read1", "tell", "seek",
                  "fileno", "readinto"):
            out["." + n] = getattr(self, "f_" + n, self.unknown)
        return out

    @staticmethod
    def unknown(ip, s, c):
        if c.recv is not None and isinstance(c.recv, T) and c.recv.op == "file":
            raise Undecided(f"{c.name} of a file")
        return None

    def open(self, ip, s, c):
        path = c.args[0] if c.args else c.kw.get("file")
        path = path.v if isinstance(path, C) else None
        mode = c.args[1] if len(c.args) > 1 else c.kw.get("mode", C("r"))
        if path is None or not isinstance(mode, C):
            raise Undecided("open with unknown arguments")
        data = self.content.get(path)
        if data is None:
            return [(s, Raised(Exc("FileNotFoundError", (), c.node)))]
        binary = "b" in mode.v
        if isinstance(data, tuple):              # (bytes, text or None)
            data = data[0] if binary else data[1] if isinstance(data[1], Elastic) else data[0]
        if isinstance(data, bytes) and not binary:
            enc, err = [c.kw.get(k, C(d)) for k, d in (("encoding", None), ("errors", None))]
            if not isinstance(enc, C) or not isinstance(err, C):
                raise Undecided("unknown encoding")
            try:
                data = data.decode(enc.v or "utf-8", err.v or "strict")
            except UnicodeDecodeError:
                data = Exc("UnicodeDecodeError", (), c.node)
            except LookupError as exc:
                raise Undecided("unknown encoding") from exc
            if isinstance(data, str):
                data = data.replace("\r\n", "\n").replace("\r", "\n")
        n = sum(1 for e in s.events() if e.kind == "opened")
        f = T("file", C(path), C(n))
        s = ip.event(s, "opened", path, None, (), {}, c.node)
        s = s.setfield(f, "data", C(data) if not isinstance(data, (Exc, Elastic)) else data)
        return [(s.setfield(f, "pos", C(0)), f)]

    @staticmethod
    def take(ip, s, f, n, node, limit=None):
        """[(state, value)] of reading n units, a line (n="line") or all of the rest as lines (n="lines")."""
        data, pos = s.fields[f, "data"], s.fields[f, "pos"].v
        if isinstance(data, Elastic):
            k = n if isinstance(n, int) else limit
            k = 0 if k is None or k < 0 else k
            if k > 1 << 24:
                raise Undecided("read of a very large size")
            data = s.fields.get((ELASTIC, "data"))
            new = s.fields[f, "data"].make(3 * k + 5)
            if data is None or len(data.v) <= 2 * k:
                data = C(new)
            elif data.t is not type(new):
                data = C(data.v.decode() if isinstance(data.v, bytes) else data.v.encode())
            s = s.setfield(ELASTIC, "data", data).setfield(f, "data", data)
        if isinstance(data, Exc):
            return [(s, Raised(data))]
        data = data.v
        nl = b"\n" if isinstance(data, bytes) else "\n"
        if n == "line":
            e = data.find(nl, pos) + 1 or len(data)
            e = e if limit is None or limit < 0 else min(e, pos + limit)
            return [(s.setfield(f, "pos", C(e)), C(data[pos:e]))]
        if n == "lines":
            ls = data[pos:].split(nl)
            ls = [x + nl for x in ls[:-1]] + [x for x in ls[-1:] if x]
            if limit is not None and limit > 0:
                n = 0
                while n < len(ls) and sum(map(len, ls[:n])) < limit:
                    n += 1
                ls = ls[:n]
            ls = [C(x) for x in ls]
            return [(s.setfield(f, "pos", C(len(data))), ls)]
        e = len(data) if n is None or n < 0 else min(len(data), pos + n)
        return [(s.setfield(f, "pos", C(e)), C(data[pos:e]))]

    def f_read(self, ip, s, c):
        if not (isinstance(c.recv, T) and c.recv.op == "file"):
            return None
        n = c.args[0] if c.args else c.kw.get("size", C(-1))
        if not isinstance(n, C):
            raise Undecided("read of unknown size")
        return self.take(ip, s, c.recv, n.v, c.node)

    f_read1 = f_read

    def f_readline(self, ip, s, c):
        if not (isinstance(c.recv, T) and c.recv.op == "file"):
            return None
        return self.take(ip, s, c.recv, "line", c.node, self.limit(c))

    @staticmethod
    def limit(c):
        n = c.args[0] if c.args else next(iter(c.kw.values()), None)
        if n is not None and not isinstance(n, C):
            raise Undecided("unknown limit")
        return n.v if n is not None else None

    def f_readlines(self, ip, s, c):
        if not (isinstance(c.recv, T) and c.recv.op == "file"):
            return None
        out = []
        for x, v in self.take(ip, s, c.recv, "lines", c.node, self.limit(c)):
            out.append((x, v) if isinstance(v, Raised) else x.new(ListObj(v)))
        return out

    def f_close(self, ip, s, c):
        return [(s, C(None))] if isinstance(c.recv, T) and c.recv.op == "file" else None

    @staticmethod
    def sentinel(ip, s, c):
        """iter(function, sentinel)"""
        if len(c.args) != 2:
            return None
        out, todo = [], [(s, [])]
        while todo:
            s, acc = todo.pop()
            if len(acc) > 400:
                raise Undecided("no end of the iteration")
            for x, v in ip.call_value(c.args[0], [], {}, s, c.node):
                if isinstance(v, Raised):
                    out.append((x, v))
                    continue
                if not isinstance(v, C) or not isinstance(c.args[1], C):
                    raise Undecided("iteration with a sentinel")
                if v == c.args[1]:
                    out.append(x.new(ListObj(acc, "gen")))
                else:
                    todo.append((x, [*acc, v]))
        return out

    def iter(self, ip, s, f, node):
        if not (isinstance(f, T) and f.op == "file"):
            return None
        return self.take(ip, s, f, "lines", node)


# ------------------------------------------------------------------ asking a plugin
def ask(r, qual, hooks, kind="file", fields=(), plug=None, st=None, prepare=None, attrs=(), **kw):
    """[(state, value)]: outcomes of asking a plugin about an entry: {attribute: value}, None if it does not handle
    the entry or has no data, Raised for any other exception."""
    p = r.p
    ci = p.cls(qual)
    base = kind_hooks(kind)
    ip = r.interp(hooks={**base, **hooks, "<enter>": lambda cm: cm}, max_loop=60, max_elems=80, depth=12, fold_re=True, sizes=False,
                  inst={qual}, **kw)
    ent = obj(p, ENTRY)
    st = st or new_state()
    for k, v in {"type": kind, "path": PATH, "abspath": ABS, "dir": DIR, "name": NAME, "ext": "py", "root": "top",
                 **dict(fields)}.items():
        st = st.setfield(ent, k, C(v))
    plug = plug or T("new", ci, C(1))
    for k, v in attrs:
        st = st.setfield(plug, k, v)
    out = []
    for s in prepare(ip, plug, st) if prepare else [st]:
        for s, v in ip.call_func(p.find_method(ci, "can_handle"), [plug, ent], {}, s, None):
            if isinstance(v, Raised):
                out.append((s, v))
                continue
            for s, t in ip.truth(v, s):
                out.extend(extract(p, ip, ci, plug, ent, s) if t else [(s, None)])
    r.account(ip, len(out))
    return out


def extract(p, ip, ci, plug, ent, st):
    tree = p.find_attr(ci, "use_cache")
    caches = [(st, C(None))]
    if tree is not None and getattr(tree[1], "value", True):
        caches = ip.call_func(p.find_method(ci, "cache"), [plug, ent], {}, st, None)
    out = []
    for s, c in caches:
        if isinstance(c, Raised):
            out.append((s, None if c.exc.name == "NoData" else c))
            continue
        for x, v in ip.call_func(p.find_method(ci, "process"), [plug, ent, c], {}, s, None):
            if isinstance(v, Raised):
                out.append((x, None if v.exc.name == "NoData" else v))
            else:
                out.extend(collected(ip, x, v))
    return out


def collected(ip, st, v):
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), DictObj):
        d = st.heap[v.id]
        if d.open:
            raise Undecided("unknown attributes")
        return [(st, {key(k): x for k, x in d.items})]
    out = []
    for s, els in ip.elements(v, st):
        if isinstance(els, Raised):
            out.append((s, els))
            continue
        d = {}
        for e in els:
            kv = items(s, e)
            if kv is None or len(kv) != 2:
                raise Undecided(f"item {e!r}")
            d[key(kv[0])] = kv[1]
        out.append((s, d))
    return out


def key(k):
    if not isinstance(k, C):
        raise Undecided(f"attribute {k!r}")
    return k.v


def plain(st, v):
    """A Python value for a value of the interpreter."""
    if isinstance(v, C):
        return v.v
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListObj) or isinstance(v, Tup):
        return [plain(st, i) for i in items(st, v)]
    return v


def known(v):
    if isinstance(v, T) and v.op in ("digest", "tag name"):
        return all(isinstance(a, (C, str)) for a in v.args)
    return not isinstance(v, T) and (not isinstance(v, list) or all(known(i) for i in v))


def verdicts(r, rule, sub, where_, out, wanted, norm=lambda k, v: v):
    """Compare all outcomes with {attribute: value}, None for none, or a function from the state to them."""
    if not out:
        r.skip(rule, sub, "no outcome")
    for s, got in out:
        want = wanted(s) if callable(wanted) else wanted
        if any(not (isinstance(k[1], T) and k[1].op == "track") for k in s.facts):
            r.skip(rule, sub, f"a value is not known: {[k for k in s.facts]!r}"[:200])
            continue
        if isinstance(got, Raised):
            r.bad(rule, sub, f"fails with {got.exc.name}", where_, describe(s))
            continue
        if want is None or got is None:
            r.check(not want and not got, rule, sub, "the attributes are missing" if want else
                    f"there should be no attributes, not {sorted(got or ())}", where_, describe(s))
            continue
        for k in sorted({*want, *got}):
            if k not in want or k not in got:
                r.bad(rule, f"{sub}: {k}", "the attribute is missing" if k in want else "there should be none", where_,
                      describe(s))
                continue
            v = norm(k, plain(s, got[k]))
            w = norm(k, want[k])
            if v == w:
                r.ok(rule, f"{sub}: {k}")
            elif known(v):
                r.bad(rule, f"{sub}: {k}", f"the value is {v!r}"[:200] + f" instead of {w!r}"[:200], where_, describe(s))
            else:
                r.skip(rule, f"{sub}: {k}", f"the value is {v!r}"[:200])


def loc(r, qual):
    return r.p.cls(qual).loc


def kind_hooks(kind):
    from .p11 import kind_hooks as h
    return h(kind)


# ------------------------------------------------------------------ R1
def hash_hooks(content):
    def new(ip, s, c, name=None):
        args = list(c.args)
        name = name or args.pop(0)
        if not isinstance(name, C):
            raise Undecided("unknown algorithm")
        n = sum(1 for e in s.events() if e.kind == "new hash")
        h = T("hash", name, C(n))
        s = ip.event(s, "new hash", name.v, None, (), {}, c.node)
        return feed(ip, s.setfield(h, "fed", C(b"")), h, args[0], h) if args else [(s.setfield(h, "fed", C(b"")), h)]

    def feed(ip, s, h, data, res):
        old = s.fields[h, "fed"]
        if not isinstance(data, C) or not isinstance(old, C):
            raise Undecided("unknown data is digested")
        if not isinstance(data.v, bytes):
            return [(s, Raised(Exc("TypeError", (), None)))]
        return [(s.setfield(h, "fed", C(old.v + data.v)), res)]

    def update(ip, s, c):
        if not (isinstance(c.recv, T) and c.recv.op == "hash"):
            return None
        return feed(ip, s, c.recv, c.args[0], C(None))

    def digest(ip, s, c):
        if not (isinstance(c.recv, T) and c.recv.op == "hash"):
            return None
        if c.recv.args[0].v.startswith("shake") and not c.args and not c.kw:
            return [(s, Raised(Exc("TypeError", (), c.node)))]
        return [(s, T("digest", c.name, c.recv.args[0], s.fields[c.recv, "fed"]))]

    def whole(ip, s, c):
        f, name = c.args[:2]
        if not (isinstance(f, T) and f.op == "file" and isinstance(name, C)):
            raise Undecided("file_digest")
        n = sum(1 for e in s.events() if e.kind == "new hash")
        h = T("hash", name, C(n))
        s = ip.event(s, "new hash", name.v, None, (), {}, c.node)
        return [(x.setfield(h, "fed", v), v if isinstance(v, Raised) else h)
                for x, v in Files.take(ip, s, f, -1, c.node)]
    return {**Files(content).hooks(), "hashlib.new": new, "hashlib.file_digest": whole, ".update": update,
            ".hexdigest": digest, ".digest": digest, "hashlib.md5": lambda i, s, c: new(i, s, c, C("md5")),
            "hashlib.sha256": lambda i, s, c: new(i, s, c, C("sha256"))}


def hashes(r, rule):
    from .p14 import dynamic, plugins
    found = [ci for ci in plugins(r.p) if dynamic(r.p, ci)]
    if not found:
        r.skip(rule, "hash", "no plugins are made for the algorithms")
    for ci in found:
        for name in ("md5", "sha256", "blake2b", "shake_128", "shake_256"):
            for what, data in (("empty file", b""), ("small file", b"a\r\n\x00"), ("large file", Elastic(pattern))):
                with r.guard(rule, f"{name} of a {what}"):
                    out = ask(r, ci.qual, hash_hooks({PATH: data, ABS: data}), attrs=[("name", C(name))])
                    verdicts(r, rule, f"{name} of a {what}", loc(r, ci.qual), out,
                             lambda s, d=data, n=name: {n: T("digest", ".hexdigest", C(n), C(d if isinstance(d, bytes) else large(s)))})
        with r.guard(rule, "no regular file"):
            verdicts(r, rule, "no regular file", loc(r, ci.qual), ask(r, ci.qual, hash_hooks({}), "fifo"), None)
        with r.guard(rule, "unreadable"):
            verdicts(r, rule, "unreadable", loc(r, ci.qual),
                     ask(r, ci.qual, hash_hooks({}), attrs=[("name", C("md5"))]), None)


# ------------------------------------------------------------------ R2
def grep(r, rule):
    q = "libff.builtin.grep:Grep"
    for what, raw, text in (("empty", b"", ""), ("no newline at the end", b"a\nb", "a\nb"), ("lines", b"a\n\n b \nc\n", "a\n\n b \nc\n"),
                            ("long", b"x\n" * 30, "x\n" * 30), ("other separators", "a\x0cb\x0bc\x1cd\n\u2028e\x85f\n".encode(), "a\x0cb\x0bc\x1cd\n\u2028e\x85f\n"),
                            ("binary", b"\xff\x00", None), ("large", Elastic(lambda n: b"x\n" * n), Elastic(lambda n: "x\n" * n))):
        with r.guard(rule, what):
            f = (raw, text)

            def want(s, text=text):
                text = large(s) if isinstance(text, Elastic) else text
                lines = text.split("\n") if text is not None else []
                lines = lines[:-1] if lines[-1:] == [""] else lines
                return {"text": True, "linecount": len(lines), "lines": lines} if text is not None else {"text": False}
            verdicts(r, rule, what, loc(r, q), ask(r, q, Files({PATH: f, ABS: f}).hooks()), want,
                     lambda k, v: [x.removesuffix("\n") if isinstance(x, str) else x for x in v]
                     if k == "lines" and isinstance(v, list) else v)
    with r.guard(rule, "unreadable"):
        verdicts(r, rule, "unreadable", loc(r, q), ask(r, q, Files({}).hooks()), None)


# ------------------------------------------------------------------ R3
def tar(r, rule):
    q = "plugins.tar:Tar"
    names = ["b", "a/c", "b", "a"]
    tf = T("sym", "archive")
    members = [T("member", C(n)) for n in names]

    def open_(ip, s, c):
        mode = c.args[1] if len(c.args) > 1 else c.kw.get("mode", C("r"))
        name = c.args[0] if c.args else c.kw.get("name", c.kw.get("fileobj"))
        if isinstance(name, T) and name.op == "file":
            name = name.args[0]
        if name not in (C(PATH), C(ABS)):
            return [(s, Raised(Exc("FileNotFoundError", (), c.node)))]
        if mode not in (C("r"), C("r:*"), C("r|*")):
            return [(s, Raised(Exc("tarfile.ReadError", (), c.node)))]
        return [(s, tf)]

    def of(v):
        return lambda ip, s, c: [s.new(ListObj(v))] if c.recv == tf else None
    hooks = {"tarfile.open": open_, "tarfile.TarFile.open": open_, ".getnames": of([C(n) for n in names]),
             ".getmembers": of(members), "<iter>": lambda ip, s, v, node: [(s, members)] if v == tf else None,
             ".close": lambda ip, s, c: [(s, C(None))] if c.recv == tf else None,
             "@name": lambda ip, s, b, node: [(s, b.args[0])] if isinstance(b, T) and b.op == "member" else None}
    for n, dirs in (("isfile", False), ("isreg", False), ("isdir", True)):       # "a" is a directory
        hooks["." + n] = lambda ip, s, c, dirs=dirs: [(s, C((c.recv.args[0].v == "a") == dirs))] \
            if isinstance(c.recv, T) and c.recv.op == "member" else None
    for name in ("a.tar", "a.tar.gz", "a.tgz", "a.tar.bz2", "a.tbz2", "a.tar.xz", "a.txz", ".x.tar"):
        with r.guard(rule, name):
            verdicts(r, rule, name, loc(r, q), ask(r, q, hooks, fields={"name": name, "ext": "x"}), {"members": names},
                     lambda k, v: sorted(set(v)) if known(v) else v)
    for name in ("a.txt", "tar", "a.tar.txt"):
        with r.guard(rule, name):
            verdicts(r, rule, name, loc(r, q), ask(r, q, hooks, fields={"name": name}), None)


# ------------------------------------------------------------------ R4
def shebang(r, rule):
    q = "plugins.introspect:Shebang"
    for what, raw, want in (("script", b"#!/bin/sh -e \nfoo\n", "/bin/sh -e"), ("one line", b"#!/bin/sh", "/bin/sh"),
                            ("carriage return", b"#!/bin/sh\r\n", "/bin/sh"), ("none", b"foo\n#!/bin/sh\n", None),
                            ("empty file", b"", None), ("comment", b"# !/bin/sh\n", None),
                            ("not ASCII", b"#!/bin/\xff\n", None),
                            ("long line", Elastic(lambda n: b"#!/bin/" + b"x" * n + b"\nfoo\n"), "long")):
        with r.guard(rule, what):
            verdicts(r, rule, what, loc(r, q), ask(r, q, Files({PATH: raw, ABS: raw}).hooks()), lambda s, w=want: None if not w
                     else {"shebang": w if w != "long" else large(s)[2:-5].decode()})
    with r.guard(rule, "unreadable"):
        verdicts(r, rule, "unreadable", loc(r, q), ask(r, q, Files({}).hooks()), None)


# ------------------------------------------------------------------ R5
def py(r, rule):
    q = "plugins.introspect:Py"
    source = (b"#!/usr/bin/python\n", "#!/usr/bin/python\n")

    def node(i, kind, body=(), **fields):
        return T("node", C(i), C(kind)), fields, list(body)
    nodes = [node(0, "Module", [1, 2, 8, 4]), node(1, "Import", names=["a"]), node(2, "FunctionDef", [3, 9]),
             node(3, "ImportFrom", module="e.f", level=0, names=["x"]), node(4, "Expr"),
             node(5, "ImportFrom", module="h", level=1, names=["y"]), node(6, "ImportFrom", module="i.j", level=2, names=["y"]),
             node(7, "Import", names=["a"]), node(8, "ClassDef", [5, 6]), node(9, "If", [10, 7]),
             node(10, "Import", names=["b", "c.d"])]
    want = ["a", "a", "b", "c.d", "e.f", "sub.h", "pkg.i.j"]
    tops = {n: [nodes[i][0] for i in kids] for n, _, kids in nodes}

    def prepare(ip, plug, st):
        for n, fields, _ in nodes:
            for k, v in fields.items():
                if k == "names":
                    als = []
                    for x in v:
                        a = T("alias", n, C(x))
                        st = st.setfield(a, "name", C(x)).setfield(a, "asname", C("other"))
                        als.append(a)
                    st, v = st.new(ListObj(als))
                else:
                    v = C(v)
                st = st.setfield(n, k, v)
        return [st]

    def isinstance_(ip, s, c):
        if not (isinstance(c.args[0], T) and c.args[0].op == "node"):
            return None
        its = items(s, c.args[1])
        kinds = {x for v in (its if its is not None else [c.args[1]]) for x in re.findall(r"\bast\.(\w+)", repr(v))}
        if not kinds:
            raise Undecided("kind of a node")
        return [(s, C(bool(kinds & {c.args[0].args[1].v, "AST"}) or "stmt" in kinds and c.args[0] != nodes[0][0]))]

    def below(n):
        todo, out = [n], []
        while todo:
            n = todo.pop(0)
            out.append(n)
            todo += tops[n]
        return out

    def of(f):
        def hook(ip, s, c):
            return [s.new(ListObj(f(c.args[0])))] if c.args and c.args[0] in tops else None
        return hook

    def body(ip, s, b, node_):
        return [s.new(ListObj(tops[b]))] if b in tops and tops[b] else None

    def parse(ip, s, c):
        if c.args[0] not in (C(source[0]), C(source[1])):
            raise Undecided("what is parsed is not the content of the file")
        return [(s, nodes[0][0])]
    f = Files({PATH: source, ABS: source}).hooks()
    hooks = {**f, "ast.walk": of(below), "ast.iter_child_nodes": of(tops.get), "@body": body, "ast.parse": parse, "builtins.isinstance": isinstance_}

    def norm(k, v):
        return sorted(set(v)) if isinstance(v, list) and known(v) else v
    plain_ = (b"import a\n", "import a\n")
    shell = (b"#!/bin/sh\nimport a\n", "#!/bin/sh\nimport a\n")
    for what, ext, text in (("script", "", source), ("module", "py", plain_), ("upper case", "PY", plain_),
                            ("text", "", plain_), ("other extension", "pyx", plain_), ("other script", "", shell),
                            ("module with another shebang", "py", shell)):
        with r.guard(rule, what):
            source = text
            out = ask(r, q, {**hooks, **Files({PATH: text, ABS: text}).hooks()}, fields={"name": "x", "ext": ext}, prepare=prepare)
            verdicts(r, rule, what, loc(r, q), out, {"imports": want} if what in ("script", "module", "upper case", "module with another shebang")
                     else None, norm)


# ------------------------------------------------------------------ R6
def git(r, rule):
    q = "plugins.git:Git"
    repos = {"/base": (b"t\0d/m\0d/\xc3\xa9 u\0d e/k\0", b" M d/m\0?? d/n\0A  d/\xc3\xa9 u\0?? new/\0"),
             "/base/inner": (b"z\0", b"")}

    def isdir(ip, s, c):
        a = c.args[0]
        if not isinstance(a, C):
            raise Undecided("unknown directory")
        return [(s, C(a.v.endswith("/.git") and a.v[:-5] in repos))]

    def run_(ip, s, c):
        words = items(s, c.args[0] if c.args else c.kw["args"])
        ws = [w.v if isinstance(w, C) else None for w in words or [None]]
        cwd = c.kw.get("cwd")
        if "-C" in ws:
            at = ws[ws.index("-C") + 1]
        else:
            at = cwd.v if isinstance(cwd, C) else None
        if None in ws or at not in repos:
            raise Undecided(f"git is run with {ws}")
        res = T("done", C(sum(1 for e in s.events() if e.kind == "git")))
        s = ip.event(s, "git", at, None, (), {}, c.node)
        text = repos[at][0] if "ls-files" in ws else repos[at][1] if "status" in ws else None
        if text is None:
            raise Undecided(f"git is run with {ws}")
        return [(s.setfield(res, "stdout", C(text)).setfield(res, "returncode", C(0)), res)]

    hooks = {"os.path.isdir": isdir, "subprocess.run": run_,
             "subprocess.check_output": lambda i, s, c: [(x, x.fields[v, "stdout"]) for x, v in run_(i, s, c)],
             "os.path.isfile": lambda i, s, c: [(s, C(False))], "os.path.exists": isdir}
    asked = [("tracked", "t", "file", 1, 0, "/base"), ("untracked", "d/n", "file", 0, 0, "/base"),
             ("changed", "d/m", "file", 1, 1, "/base"), ("added", "d/\xe9 u", "file", 1, 1, "/base"),
             ("repository", "", "directory", 1, 1, "/base"), ("directory", "d", "directory", 1, 1, "/base"),
             ("similar directory", "d e", "directory", 1, 0, "/base"), ("prefix of a directory", "d ", "directory", 0, 0, "/base"),
             ("new directory", "new", "directory", 0, 0, "/base"), ("link to a directory", "d", "symlink", 0, 0, "/base"),
             ("inner", "inner/z", "file", 1, 0, "/base/inner"), ("inner repository", "inner", "directory", 1, 0, "/base/inner"),
             ("beside", "other/t", "file", 0, 0, "/base")]
    orders = [asked, asked[::-1]]
    for i, order in enumerate(orders):
        st = None
        for what, path, kind, tracked, dirty, repo in order:
            ab = ("/base/" + path).rstrip("/")
            with r.guard(rule, f"{what} {i}"):
                st = asked_git(r, rule, q, f"{what}{' (other order)' if i else ''}", st, hooks, ab, kind,
                               {"repo_dir": repo, "repo": ab == repo, "tracked": bool(tracked), "dirty": bool(dirty)})
        with r.guard(rule, "outside"):
            asked_git(r, rule, q, "outside", st, hooks, "/elsewhere/x", "file", None)


def asked_git(r, rule, q, what, st, hooks, path, kind, want):
    prep = None if st is not None else made(q, r)
    fresh = kind_hooks(kind)
    out = ask(r, q, {**fresh, **hooks}, kind, {"abspath": path, "path": path[1:], "name": path.rsplit("/")[-1],
                                               "dir": path[1:].rpartition("/")[0]},
              st=st, prepare=prep)
    verdicts(r, rule, what, loc(r, q), out, want)
    return out[0][0] if len(out) == 1 else None


def made(q, r):
    """Run the constructor of the plugin."""
    def prepare(ip, plug, st):
        init = r.p.find_method(r.p.cls(q), "__init__")
        if init is None:
            return [st]
        return [s for s, v in ip.call_func(init, [plug], {}, st, None) if not isinstance(v, Raised)]
    return prepare


# ------------------------------------------------------------------ R7
def mime(r, rule):
    q = "libff.builtin.mime:Mime"

    def detect(ip, s, c):
        if c.args[0] not in (C(PATH), C(ABS)):
            return [(s, Raised(Exc("FileNotFoundError", (), c.node)))]
        t = T("sym", "detected")
        return [(s.setfield(t, "mime_type", C("text/x-foo")).setfield(t, "encoding", C("us-ascii"))
                 .setfield(t, "name", C("Foo, text")), t)]
    out = ask(r, q, {"magic.detect_from_filename": detect, ".detect_from_filename": detect})
    verdicts(r, rule, "mime", loc(r, q), out, {"mime": "text/x-foo", "type": "text", "subtype": "x-foo",
                                               "encoding": "us-ascii", "name": "Foo, text"})


# ------------------------------------------------------------------ R8
def media(r, rule):
    q = "libff.builtin.media:Medium"
    general = ("General", {"performer": "P", "album": "A", "title": "T", "genre": "G", "recorded_date": "D"})
    audio = ("Audio", {"duration": 61500})
    video = ("Video", {"width": 30, "height": 20, "duration": "61500.0"})
    image = ("Image", {"format": "PNG", "width": 3, "height": 2})
    tags = {"artist": "P", "album": "A", "title": "T", "genre": "G", "date": "D"}
    for what, tracks, want in (
            ("song", [general, audio], {**tags, "duration": 61}),
            ("song without tags", [("General", {}), audio], {"duration": 61}),
            ("film", [("General", {}), video, audio], {"width": 30, "height": 20, "duration": 61}),
            ("film in another order", [audio, video, general], {**tags, "width": 30, "height": 20, "duration": 61}),
            ("two videos", [video, ("Video", {"width": 1, "height": 1})], {"width": 30, "height": 20, "duration": 61}),
            ("image", [("General", {}), image], {"format": "png", "width": 3, "height": 2}),
            ("video with a cover", [image, video], {"width": 30, "height": 20, "duration": 61}),
            ("text only", [("Text", {})], {})):
        with r.guard(rule, what):
            def parse(ip, s, c):
                if c.args[0] not in (C(PATH), C(ABS)):
                    return [(s, Raised(Exc("FileNotFoundError", (), c.node)))]
                ts = []
                for i, (kind, fields) in enumerate(tracks):
                    t = T("track", C(i))
                    full = {"performer": None, "album": None, "title": None, "genre": None, "recorded_date": None,
                            "duration": None, "width": None, "height": None, "format": None, **fields}
                    for k, v in {"track_type": kind, **full}.items():
                        s = s.setfield(t, k, C(v))
                    s = s.fact(("truth", t), True).fact(("neq", t, C(None)), True)
                    ts.append(t)
                s, l = s.new(ListObj(ts))
                m = T("sym", "info")
                return [(s.setfield(m, "tracks", l), m)]
            out = ask(r, q, {"pymediainfo.MediaInfo.parse": parse, ".parse": parse,
                             "mimetypes.guess_type": lambda i, s, c: [(s, Tup([C("video/x"), C(None)]))]})
            verdicts(r, rule, what, loc(r, q), out, want)
    for kind in ("image/png", "audio/mpeg", "video/mp4", "text/plain", None):
        with r.guard(rule, f"kind {kind}"):
            out = ask(r, q, {"pymediainfo.MediaInfo.parse": parse, ".parse": parse, "mimetypes.guess_type":
                             lambda i, s, c: [(s, Tup([C(kind), C(None)]))]})
            good = kind is not None and not kind.startswith("text")
            r.check(all((v is not None) == good for s, v in out), rule, f"kind {kind}",
                    f"a file of type {kind} is {'not ' if good else ''}taken for a medium", loc(r, q))


# ------------------------------------------------------------------ R9
def xattr(r, rule):
    q = "plugins.xattr:Xattr"
    attrs = {"user.a": b"1", "user.b": b"x=y", "user.c": b""}

    def listed(ip, s, c):
        if c.args[0] not in (C(PATH), C(ABS)):
            return [(s, Raised(Exc("FileNotFoundError", (), c.node)))]
        return [s.new(ListObj([C(k) for k in attrs]))]

    def got(ip, s, c):
        if c.args[0] not in (C(PATH), C(ABS)) or not isinstance(c.args[1], C):
            return [(s, Raised(Exc("OSError", (), c.node)))]
        return [(s, C(attrs[c.args[1].v]))]
    for kind in ("file", "directory"):
        with r.guard(rule, kind):
            verdicts(r, rule, kind, loc(r, q), ask(r, q, {"os.listxattr": listed, "os.getxattr": got}, kind),
                     {"xattrs": ["user.a=1", "user.b=x=y", "user.c="]}, lambda k, v: sorted(v) if known(v) else v)


# ------------------------------------------------------------------ R10
def fs(r, rule):
    q = "plugins.fs:Fs"
    ci = r.p.cls(q)
    for kind, want in (("directory", ABS), ("file", "/base/" + DIR), ("symlink", "/base/" + DIR)):
        with r.guard(rule, kind):
            asked = []

            def statfs(ip, s, c):
                asked.append(next((a for a in c.args if isinstance(a, C)), None))
                return [(s, Tup([C("ext"), C(False)]))]

            def abspath(ip, s, c):
                a = c.args[0]
                if not isinstance(a, C):
                    raise Undecided("unknown path")
                return [(s, C(a.v if a.v.startswith("/") else "/base/" + a.v))]
            out = ask(r, q, {"plugins.fs:Fs.get_fs_type": statfs, "os.path.abspath": abspath}, kind)
            if not asked:
                r.skip(rule, kind, "the file system is asked for in another way")
                continue
            verdicts(r, rule, kind, ci.loc, out, {"type": "ext", "remote": False})
            r.check(all(a in (C(want), C(want.removeprefix("/base/"))) for a in asked), rule, f"{kind}: path",
                    f"the file system of {asked} is asked for instead of {want}", ci.loc)


# ------------------------------------------------------------------ R11
def pacman(r, rule):
    q = "plugins.pacman:Pacman"
    lines = ["one /base/top/\n", f"one {ABS}\n", "two /base/top/\n", "two /base/a b\n"]
    proc = T("sym", "proc")

    def popen(ip, s, c):
        s, l = s.new(ListObj([C(x) for x in lines]))
        return [(s.setfield(proc, "stdout", l), proc)]

    def run_(ip, s, c):
        res = T("sym", "done")
        text = c.kw.get("text", c.kw.get("universal_newlines", c.kw.get("encoding", C(False))))
        data = "".join(lines)
        return [(s.setfield(res, "stdout", C(data if text.v else data.encode())), res)]

    def prepare(ip, plug, st):
        setup = r.p.find_method(r.p.cls(q), "setup")
        return [s for s, v in ip.call_func(setup, [plug], {}, st, None) if not isinstance(v, Raised)]
    for what, path, ab, kind, want in (
            ("file", "top/pkg/sub/x.py", ABS, "file", {"installed": True, "pkgname": "one"}),
            ("absolute", ABS, ABS, "file", {"installed": True, "pkgname": "one"}),
            ("blank in the name", "a b", "/base/a b", "file", {"installed": True, "pkgname": "two"}),
            ("directory", "top", "/base/top", "directory", {"installed": True, "pkgname": ("one", "two")}),
            ("other", "top/pkg/y", "/base/top/pkg/y", "file", {"installed": False})):
        with r.guard(rule, what):
            out = ask(r, q, {"subprocess.Popen": popen, "subprocess.run": run_}, kind,
                      {"path": path, "abspath": ab}, prepare=prepare)
            w = want.get("pkgname")
            if isinstance(w, tuple):
                out = [(s, dict(v, pkgname=C(w)) if isinstance(v, dict) and v.get("pkgname") in map(C, w) else v)
                       for s, v in out]
            verdicts(r, rule, what, loc(r, q), out, want)


# ------------------------------------------------------------------ R12
def elf(r, rule):
    q = "plugins.introspect:Elf"
    head = b"\x7fELF\x02\x01"
    secs = [("other", []), ("dyn", [("DT_NEEDED", "libz.so.1"), ("DT_SONAME", "self"), ("DT_NEEDED", "libc.so.6")]),
            ("dyn", [("DT_NEEDED", "liba.so")])]
    ef = T("sym", "elf")

    def sections(ip, s, c):
        return [s.new(ListObj([T("section", C(i)) for i in range(len(secs))]))]

    def tags(ip, s, c):
        ts = []
        for j, (tag, name) in enumerate(secs[c.recv.args[0].v][1]):
            t = T("tag", c.recv, C(j))
            e = T("entry of", t)
            s = s.setfield(t, "entry", e).setfield(e, "d_tag", C(tag))
            if tag == "DT_NEEDED":
                s = s.setfield(t, "needed", C(name))
            ts.append(t)
        return [s.new(ListObj(ts))]

    def needed(ip, s, b, node):
        if isinstance(b, T) and b.op == "tag" and (b, "needed") not in s.fields:
            return [(s, Raised(Exc("AttributeError", (), node)))]
        return None

    def isinstance_(ip, s, c):
        if isinstance(c.args[0], T) and c.args[0].op == "section":
            return [(s, C(secs[c.args[0].args[0].v][0] == "dyn"))]
        return None

    def make(ip, s, c):
        f = c.args[0]
        return [(s, ef)] if isinstance(f, T) and f.op == "file" else None
    hooks = {".iter_sections": sections, ".iter_tags": tags, "builtins.isinstance": isinstance_,
             "elftools.elf.elffile.ELFFile": make, "ELFFile": make, "@needed": needed}
    with r.guard(rule, "executable"):
        out = ask(r, q, {**Files({PATH: head, ABS: head}).hooks(), **hooks})
        verdicts(r, rule, "executable", loc(r, q), out, {"sonames": ["liba.so", "libc.so.6", "libz.so.1"]},
                 lambda k, v: sorted(v) if isinstance(v, list) and known(v) else v)
    with r.guard(rule, "other"):
        out = ask(r, q, {**Files({PATH: b"\x7fELX", ABS: b"\x7fELX"}).hooks(), **hooks})
        verdicts(r, rule, "other", loc(r, q), out, None)
