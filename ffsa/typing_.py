"""Python types of abstract values: a small type inference over terms."""
import ast

from .project import ClassInfo
from .values import C, DictObj, Fn, InstObj, ListObj, Raised, Ref, Splice, T, Tup

STR = {".lower", ".upper", ".strip", ".rstrip", ".lstrip", ".decode", ".replace", ".join", ".format",
       ".title", ".hexdigest", ".capitalize", ".zfill", ".casefold", ".expandtabs", ".removeprefix",
       ".removesuffix", ".ljust", ".rjust", ".center", ".isoformat", ".strftime", ".swapcase",
       "os.path.basename", "os.path.dirname", "os.path.join", "os.path.abspath", "os.path.realpath",
       "os.path.normpath", "os.path.expanduser", "os.path.relpath", "os.fsdecode", "os.readlink", "str",
       "repr", "format", "hex", "oct", "ascii", "chr", "os.getcwd", "stat.filemode", "time.strftime",
       "platform.system", "os.strerror", "builtins.str"}
BYTES = {".encode", "os.fsencode", "os.getxattr", ".digest", "bytes"}
LIST = {".split", ".rsplit", ".splitlines", ".readlines", "sorted", "list", "os.listxattr", "os.listdir",
        ".getnames"}
LIST_STR = {".split", ".rsplit", ".splitlines", ".readlines", "os.listxattr", "os.listdir", ".getnames"}
INT = {"len", ".count", ".find", ".rfind", ".index", ".rindex", "ord", "hash", "int", "os.path.getsize",
       "os.getuid", "os.getgid", ".bit_length", "binascii.crc32", "time.time_ns", "id"}
FLOAT = {"float", "time.time", "os.path.getmtime", "os.path.getctime", "os.path.getatime",
         ".total_seconds"}
BOOL = {"os.path.exists", "os.path.lexists", "os.path.isfile", "os.path.isdir", "os.path.islink",
        "os.path.ismount", "os.path.isabs", "os.path.samefile", ".startswith", ".endswith", ".isdigit",
        ".isdecimal", ".isalpha", ".isupper", ".islower", ".isspace", ".isalnum", "bool", "isinstance",
        "any", "all", "callable", "issubclass", "hasattr", "os.access", ".issubset", ".issuperset",
        ".isdisjoint", "stat.S_ISDIR", "stat.S_ISREG", "stat.S_ISLNK", "stat.S_ISSOCK", "stat.S_ISFIFO",
        "stat.S_ISCHR", "stat.S_ISBLK", "stat.S_ISDOOR", "stat.S_ISPORT", "stat.S_ISWHT"}
SET = {"set"}
COMPARE = {"==", "!=", "<", ">", "<=", ">=", "in", "not in", "is", "is not", "not", "eq", "cmp", "lt",
           "gt", "le", "ge"}
ARITH = {"+", "-", "*", "//", "%", "&", "|", "^", "<<", ">>", "**", "neg", "u-"}
ENTRY_STR = {"path", "root", "relpath", "dir", "name", "abspath", "link", "target", "type", "ext", "pathx",
             "namex", "dirname", "basename", "absroot", "user", "group", "mpath", "devname", "fstype"}


class Types:
    """`known` maps terms (or attribute names of given receivers) to type names."""

    def __init__(self, known=None, entry=None, project=None):
        self.known = known or {}
        self.entry = entry
        self.project = project

    def lookup(self, v, st, path=()):
        """The types of a value (or of its elements at `path`) that is looked up in a dictionary that is
           a constant of a module: `D.get(k, default)` or `D[k]`; an empty set if it is not known."""
        if not isinstance(v, T) or self.project is None:
            return set()
        if v.op == "item" and len(v.args) > 1 and isinstance(v.args[1], (int, C)):
            if self.table(v.args[0]) is None:
                i = v.args[1].v if isinstance(v.args[1], C) else v.args[1]
                return self.lookup(v.args[0], st, (i,) + path)
        if v.op == "item" and v.args:
            d, default = self.table(v.args[0]), []
        elif v.op in ("call", "pure") and v.args[0] == ".get" and len(v.args) > 2:
            d, default = self.table(v.args[1]), [x for x in v.args[3:] if x is not None] or [C(None)]
        else:
            return set()
        if d is None:
            return set()
        out = set()
        for n in d.values:
            for i in path:
                n = n.elts[i] if isinstance(n, (ast.Tuple, ast.List)) and isinstance(i, int) and \
                    -len(n.elts) <= i < len(n.elts) else None
            out.add(literal(n))
        for x in default:
            for i in path:
                x = x.items[i] if isinstance(x, Tup) and isinstance(i, int) and \
                    -len(x.items) <= i < len(x.items) else \
                    C(x.v[i]) if isinstance(x, C) and isinstance(x.v, tuple) and isinstance(i, int) and \
                    -len(x.v) <= i < len(x.v) else None
            out.add(None if x is None else self.of(x, st))
        return set() if None in out else out

    def table(self, v):
        """The dictionary display a module variable is bound to."""
        if not isinstance(v, T) or v.op != "var" or len(v.args) != 2:
            return None
        m = self.project.modules.get(v.args[0])
        if m is None:
            return None
        defs = [n for n in ast.walk(m.tree) if isinstance(n, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == v.args[1] for t in n.targets)]
        if len(defs) == 1 and isinstance(defs[0].value, ast.Dict):
            return defs[0].value
        return None

    def of(self, v, st, depth=8):
        """One of str, bytes, int, float, bool, none, list, set, tuple, dict, gen, function, or None."""
        if depth == 0:
            return None
        if isinstance(v, T):
            f = st.facts.get(("val", v))
            if f is not None:
                v = f
        if isinstance(v, C):
            if v.v is None:
                return "none"
            t = v.t.__name__
            return t if t in ("str", "bytes", "int", "float", "bool", "tuple") else None
        if isinstance(v, Tup):
            return "set" if v.kind in ("set", "frozenset") else None if v.cls is not None else "tuple"
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, ListObj):
                return o.kind if o.cls is None else None
            if isinstance(o, DictObj):
                return "dict" if o.cls is None else None
            return None
        if isinstance(v, Fn):
            return "function"
        if not isinstance(v, T):
            return None
        if v in self.known:
            return self.known[v]
        ts = self.lookup(v, st)
        if ts:
            return ts.pop() if len(ts) == 1 else None
        op, a = v.op, v.args
        if op in ("fstr", "str", "fmt"):
            return "str"
        if op == "len":
            return "int"
        if op in COMPARE:
            return "bool"
        if op == "slice":
            return self.of(a[0], st, depth - 1)
        if op in ("item", "elem"):
            return self.element(a[0], st, depth - 1, a[1] if len(a) > 1 else None)
        if op == "attr":
            return self.attr(a[0], a[1], st)
        if op in ("call", "pure") and isinstance(a[0], str):
            return self.call(a[0], v, st, depth)
        if op == "/":
            return "float" if self.number(a[0], st, depth) and self.number(a[1], st, depth) else "float" \
                if self.of(a[0], st, depth - 1) != "str" and isinstance(a[1], C) and \
                isinstance(a[1].v, (int, float)) else None
        if op in ARITH:
            ts = [self.of(x, st, depth - 1) for x in a if not isinstance(x, str)]
            if op == "+" and ts and all(t == "str" for t in ts):
                return "str"
            if op == "%" and ts and ts[0] == "str":
                return "str"
            if op == "*" and "str" in ts:
                return "str"
            if ts and all(t == "bool" for t in ts) and op in ("&", "|", "^"):
                return "bool"
            if op in ("&", "|", "^", "<<", ">>") and any(t == "int" for t in ts) and \
                    all(t in ("int", "bool", None) for t in ts):
                return "int"
            if ts and all(t in ("int", "bool") for t in ts):
                return "int"
            if ts and all(t in ("int", "bool", "float") for t in ts):
                return "float"
        return None

    def number(self, v, st, depth):
        return self.of(v, st, depth - 1) in ("int", "float", "bool")

    def call(self, name, v, st, depth):
        if name == "round":
            args = [x for x in v.args[2:] if x is not None]
            return "int" if len(args) <= 1 else "float"
        if name in (".readline", ".read"):
            m = self.mode(v)
            return None if m is None else "bytes" if "b" in m else "str"
        if name in (".readlines",):
            return "list"
        for t, names in (("str", STR), ("bytes", BYTES), ("list", LIST), ("int", INT), ("float", FLOAT),
                         ("bool", BOOL), ("set", SET)):
            if name in names or name.startswith("builtins.") and name[9:] in names:
                if t == "str" and name in (".lower", ".upper", ".strip", ".rstrip", ".lstrip", ".replace",
                                           ".join", ".title") and len(v.args) > 1:
                    r = self.of(v.args[1], st, depth - 1)
                    if r == "bytes":
                        return "bytes"
                return t
        if name in ("min", "max", "abs", "sum"):
            ts = {self.of(x, st, depth - 1) for x in v.args[2:] if x is not None}
            return ts.pop() if len(ts) == 1 else None
        return None

    def mode(self, v):
        """The mode of the file a read call is made on."""
        for x in terms(v):
            if isinstance(x, T) and x.op in ("call", "pure") and x.args[0] in ("open", "builtins.open",
                                                                               "io.open"):
                rest = [y for y in x.args[3:] if isinstance(y, C) and isinstance(y.v, str)]
                return rest[0].v if rest else "r"
        return None

    def attr(self, b, name, st):
        if isinstance(b, T) and b == self.entry or isinstance(b, T) and b.op == "new" and \
                isinstance(b.args[0], ClassInfo) and b.args[0].name in ("Entry", "StartDirectory"):
            if name in ENTRY_STR:
                return "str"
        if name in ("st_mtime", "st_ctime", "st_atime", "st_birthtime"):
            return "float"
        if name.startswith("st_"):
            return "int"
        return None

    def element(self, coll, st, depth, key=None):
        if depth <= 0:
            return None
        t = self.of(coll, st, depth)
        if t == "str":
            return "str"
        if t == "bytes":
            return "int"
        if isinstance(coll, T) and coll.op in ("call", "pure") and coll.args[0] in LIST_STR:
            if coll.args[0] in (".split", ".rsplit", ".splitlines") and len(coll.args) > 1 and \
                    self.of(coll.args[1], st, depth - 1) == "bytes":
                return "bytes"
            if coll.args[0] == ".readlines":
                m = self.mode(coll)
                return None if m is None else "bytes" if "b" in m else "str"
            return "str"
        if isinstance(coll, T) and coll.op == "slice":
            return self.element(coll.args[0], st, depth - 1)
        if isinstance(coll, T) and coll.op in ("call", "pure") and coll.args[0] in ("sorted", "list", "set",
                                                                                    "reversed"):
            return self.element(coll.args[2], st, depth - 1) if len(coll.args) > 2 else None
        if isinstance(coll, T) and coll.op == "enter":
            x = coll.args[0]
            if isinstance(x, T) and x.op in ("call", "pure") and x.args[0] in ("open", "builtins.open"):
                return "bytes" if "b" in (self.mode(x) or "") else "str"
        return None

    def elements(self, v, st):
        """The types of the elements of a list value (None for unknown ones)."""
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, ListObj):
                return [self.element(i.term, st, 6) if isinstance(i, Splice) else self.of(i, st)
                        for i in o.items]
        if isinstance(v, Tup):
            return [self.of(i, st) for i in v.items]
        if isinstance(v, T):
            return [self.element(v, st, 6)]
        return [None]


def literal(n):
    """The type of a literal."""
    if isinstance(n, ast.Constant):
        return "none" if n.value is None else type(n.value).__name__
    return {ast.Tuple: "tuple", ast.List: "list", ast.Dict: "dict", ast.Set: "set", ast.JoinedStr: "str"}.get(
        type(n))


def terms(v):
    todo = [v]
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, T):
            todo.extend(y for y in x.args if not isinstance(y, (str, int)))
        elif isinstance(x, Tup):
            todo.extend(x.items)
        elif isinstance(x, Splice):
            todo.append(x.term)


__all__ = ["Types", "terms", "Raised", "InstObj"]
