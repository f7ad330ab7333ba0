"""Path-sensitive abstract interpreter over the syntax trees of the repository.

It is a trace-partitioning abstract interpretation: values are constants, opaque terms or small heap
objects, branches on opaque terms split the abstract state and record the assumed outcome as a fact,
loops over unknown collections are explored for a bounded number of generic elements.  Nothing of the
repository is executed and no solver is involved.
"""
import ast
import builtins
import errno
import os
import re
import stat
import string

from .project import ClassInfo, FuncInfo
from .values import (LIMIT, C, DictObj, Event, Exc, Fn, InstObj, ListObj, Mod, Raised, Ref, Size, Splice, State,
                     T, Tup, Val)


class Undecided(Exception):
    """The analysis met a construct it has no transfer function for."""


NONE, TRUE, FALSE = C(None), C(True), C(False)

PURE_METHODS = {
    "lower", "upper", "strip", "lstrip", "rstrip", "split", "rsplit", "splitlines", "startswith",
    "endswith", "join", "replace", "encode", "decode", "format", "isdigit", "isdecimal", "isalpha",
    "isspace", "casefold", "title", "capitalize", "find", "rfind", "index", "count", "partition",
    "rpartition", "group", "groups", "groupdict", "mro", "isalnum", "isnumeric", "removeprefix",
    "removesuffix", "isascii", "swapcase", "bit_length", "hexdigest_",
}

PURE_EXT = {
    "os.path.join", "os.path.dirname", "os.path.basename", "os.path.abspath", "os.path.normpath",
    "os.path.splitext", "os.path.split", "os.path.isabs", "os.path.expanduser", "os.fsencode",
    "os.fsdecode", "os.path.commonpath", "os.path.relpath", "stat.S_ISDIR", "stat.S_ISREG",
    "stat.S_ISLNK", "stat.S_ISSOCK", "stat.S_ISFIFO", "stat.S_ISCHR", "stat.S_ISBLK",
    "stat.S_ISDOOR", "stat.S_ISPORT", "stat.S_ISWHT", "stat.filemode", "stat.S_IMODE",
    "stat.S_IFMT", "re.escape", "pickle.dumps", "sys.getfilesystemencoding", "os.strerror",
    "mimetypes.guess_type", "textwrap.fill", "os.fspath",
}

CONST_MODULES = {"os": os, "stat": stat, "errno": errno, "string": string, "re": re,
                 "os.path": os.path}

EXT_EXC_BASES = {
    "queue.Empty": "Exception", "queue.Full": "Exception", "re.error": "Exception",
    "sqlite3.Error": "Exception", "sqlite3.Warning": "Exception",
    "sqlite3.DatabaseError": "sqlite3.Error", "sqlite3.OperationalError": "sqlite3.DatabaseError",
    "sqlite3.IntegrityError": "sqlite3.DatabaseError",
    "subprocess.SubprocessError": "Exception",
    "subprocess.TimeoutExpired": "subprocess.SubprocessError",
    "subprocess.CalledProcessError": "subprocess.SubprocessError",
    "threading.BrokenBarrierError": "RuntimeError",
    "tarfile.TarError": "Exception", "tarfile.ReadError": "tarfile.TarError",
    "tarfile.CompressionError": "tarfile.TarError", "tarfile.StreamError": "tarfile.TarError",
    "zlib.error": "Exception", "lzma.LZMAError": "Exception", "binascii.Error": "ValueError",
    "pickle.PickleError": "Exception", "pickle.UnpicklingError": "pickle.PickleError",
    "json.JSONDecodeError": "ValueError", "ELFError": "Exception",
    "elftools.common.exceptions.ELFError": "Exception", "multiprocessing.TimeoutError": "Exception",
    "struct.error": "Exception", "argparse.ArgumentError": "Exception",
    "multiprocessing.BrokenBarrierError": "RuntimeError",
    "concurrent.futures.TimeoutError": "Exception",
    "<any>": "Exception",
}
EXT_ALIASES = {"sqlite3.dbapi2.Error": "sqlite3.Error", "multiprocessing.queues.Empty": "queue.Empty",
               "IOError": "OSError", "EnvironmentError": "OSError", "os.error": "OSError",
               "socket.error": "OSError", "re.PatternError": "re.error", "select.error": "OSError",
               "_queue.Empty": "queue.Empty"}


class Call:
    __slots__ = ("name", "target", "recv", "args", "kw", "node", "fi")

    def __init__(self, name, target, recv, args, kw, node, fi=None):
        self.name, self.target, self.recv, self.args, self.kw = name, target, recv, args, kw
        self.node, self.fi = node, fi

    def arg(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if name is not None and name in self.kw:
            return self.kw[name]
        return default


from .expr import ExprMixin  # noqa: E402
from .calls import CallsMixin  # noqa: E402


class Interp(ExprMixin, CallsMixin):
    def __init__(self, project, debug=False, hooks=None, raises=None, domains=None, types=None,
                 max_elems=2, max_loop=6, max_paths=6000, recursion=2, opaque=None, inst=None,
                 item_raises=None, while_limit=None, depth=14, pure_ext=(), abs_lists=False,
                 fold_re=False, shared=False, strict_attrs=False, widen=False, sizes=True):
        self.p = project
        self.debug = debug
        self.hooks = dict(hooks or {})
        self.raises = raises
        self.domains = dict(domains or {})
        self.types = dict(types or {})
        self.max_elems = max_elems
        self.max_loop = max_loop
        self.max_paths = max_paths
        self.recursion = recursion
        self.opaque = opaque
        self.inst = set(inst or ())
        self.item_raises = item_raises
        self.abs_lists = abs_lists
        self.shared = shared       # empty class-level containers may have been filled before
        self.strict_attrs = strict_attrs   # constructed objects have no attributes but the assigned ones
        self.fold_re = fold_re     # fold regular expressions over constants
        self.widen = widen         # a count that is increased may be any number
        self.sizes = sizes         # lengths and counts may exceed limits that the examples do not reach
        self.depth = depth
        self.pure_ext = PURE_EXT | set(pure_ext)
        self.steps = 0
        self.forks = 0
        self.visited = set()       # FuncInfo.qual interpreted
        self.call_sites = set()
        self.cut = 0
        self.undecided = []
        self._attr_types = {}
        self.ctx_fields = self._context_fields()

    # ------------------------------------------------------------------ setup helpers
    def _context_fields(self):
        """The shared context's component fields (set to None in its constructor, filled later)."""
        try:
            ctx = self.p.cls("libff.context:Context")
            init = ctx.methods.get("__init__")
        except Exception:
            return {}
        comp = {"args": None, "logger": "libff.logger:Logger", "cache": "libff.cache:NullCache",
                "registry": "libff.registry:Registry", "matcher": "libff.filter:Matcher",
                "excluder": "libff.filter:Excluder", "walker": "libff.walk:FilesystemWalker",
                "processing": "libff.processing:BaseProcessing"}
        fields = {}
        if init is not None:
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) \
                                and t.value.id == "self":
                            fields[t.attr] = comp.get(t.attr)
        for k, v in comp.items():
            fields.setdefault(k, v)
        self._comp = comp
        return fields

    CTX = T("ctx", "context")
    ARGS = T("ctx", "args")

    @staticmethod
    def args_attr(name):
        return T("attr", Interp.ARGS, name)

    def start(self):
        return State()

    # ------------------------------------------------------------------ types
    def typ(self, v, st=None):
        """ClassInfo of a value, or a string for external types, or None."""
        if isinstance(v, Ref):
            o = st.heap.get(v.id) if st is not None else None
            if isinstance(o, (InstObj, ListObj, DictObj)) and o.cls is not None:
                return o.cls
            return None
        if isinstance(v, Tup):
            return v.cls
        if isinstance(v, T):
            if v in self.types:
                return self.types[v]
            if v.op == "ctx":
                if v.args[0] == "context":
                    return self.p.cls("libff.context:Context")
                q = self._comp.get(v.args[0])
                return self.p.cls(q) if q else None
            if v.op == "new":
                return v.args[0]
            if v.op == "newext":
                return v.args[0]
            if v.op == "attr":
                base = self.typ(v.args[0], st)
                if isinstance(base, ClassInfo):
                    return self.attr_type(base, v.args[1])
            if v.op == "enter":
                return self.typ(v.args[0], st)
        return None

    def attr_type(self, ci, name):
        key = (ci.qual, name)
        if key in self._attr_types:
            return self._attr_types[key]
        self._attr_types[key] = None
        found = set()
        for c in self.p.mro(ci):
            if not isinstance(c, ClassInfo):
                continue
            for fi in c.methods.values():
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr == name and \
                                    isinstance(t.value, ast.Name) and t.value.id == "self":
                                found.add(self._expr_type(n.value, fi.module))
        found.discard("none")
        res = found.pop() if len(found) == 1 else None
        self._attr_types[key] = res
        return res

    def _expr_type(self, e, module):
        if isinstance(e, ast.Constant) and e.value is None:
            return "none"
        if isinstance(e, ast.Call):
            name = self.dotted(e.func, module)
            if isinstance(name, ClassInfo):
                return name
            return name
        if isinstance(e, (ast.List, ast.ListComp)):
            return "builtins.list"
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return "builtins.dict"
        if isinstance(e, (ast.Set, ast.SetComp)):
            return "builtins.set"
        return None

    def dotted(self, e, module):
        """Resolve an expression to a ClassInfo or a dotted external name, else None."""
        if isinstance(e, ast.Name):
            r = self.p.resolve_global(module, e.id)
            if r is None:
                return f"builtins.{e.id}" if hasattr(builtins, e.id) else None
            if r[0] == "class":
                return r[1]
            if r[0] in ("ext", "mod"):
                return r[1]
            return None
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value, module)
            if isinstance(b, str):
                return f"{b}.{e.attr}"
        return None

    def issub_exc(self, cls, other):
        """Exception class subtyping over project classes and external names."""
        if cls is other or cls == other:
            return True
        if isinstance(cls, ClassInfo):
            for c in self.p.mro(cls)[1:]:
                if c is other:
                    return True
                if isinstance(c, str) and self.issub_exc(c, other):
                    return True
            return False
        cls = EXT_ALIASES.get(cls, cls)
        if isinstance(other, ClassInfo):
            return False
        other = EXT_ALIASES.get(other, other)
        cls = cls[9:] if cls.startswith("builtins.") else cls
        other = other[9:] if other.startswith("builtins.") else other
        if cls == other:
            return True
        a, b = getattr(builtins, cls, None), getattr(builtins, other, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        if cls in EXT_EXC_BASES:
            return self.issub_exc(EXT_EXC_BASES[cls], other)
        if isinstance(a, type):
            return False
        # unknown external exception class: assume a direct subclass of Exception
        return other in ("Exception", "BaseException")

    # ------------------------------------------------------------------ events
    def event(self, st, kind, name, recv=None, args=(), kw=None, node=None, res=None):
        s = st.fork()
        ev = Event(kind, name, recv, args, kw or {}, node, st.fn, st.facts, res, st.withs, st.stack)
        s.trace = (st.trace, ev)
        return s

    # ------------------------------------------------------------------ facts
    def resolve(self, v, st):
        if isinstance(v, T):
            r = st.facts.get(("val", v))
            if r is not None:
                return r
        return v

    def truth(self, v, st):
        """Split on the truth value of v: list of (state, bool)."""
        v = self.resolve(v, st)
        if isinstance(v, C):
            return [(st, bool(v.v))]
        if isinstance(v, Tup):
            if v.cls is not None:
                return [(st, True)]
            return [(st, bool(v.items))]
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, ListObj):
                if any(not isinstance(i, Splice) for i in o.items):
                    return [(st, True)]
                if not o.items:
                    return [(st, False)]
                out, cur = [], [st]
                for i in o.items:     # true if any spliced collection is non-empty
                    nxt = []
                    for s in cur:
                        for s2, b in self.truth(i.term, s):
                            if b:
                                out.append((s2, True))
                            else:
                                nxt.append(s2)
                    cur = nxt
                return out + [(s, False) for s in cur]
            if isinstance(o, DictObj):
                if o.items or not o.open:
                    return [(st, bool(o.items))]
                return self._fork_fact(("truth", v), st)
            ci = o.cls
            if isinstance(ci, ClassInfo):
                for dn in ("__bool__", "__len__"):
                    m = self.p.find_method(ci, dn)
                    if m is not None:
                        out = []
                        for s, r in self.call_func(m, [v], {}, st, None):
                            if isinstance(r, Raised):
                                continue
                            out.extend(self.truth(r, s))
                        return out
            return [(st, True)]
        if isinstance(v, (Fn, Mod, Exc)):
            return [(st, True)]
        if isinstance(v, T):
            ci = self.typ(v, st)
            if isinstance(ci, ClassInfo) and v.op in ("ctx", "new"):
                return [(st, True)]
            if isinstance(ci, ClassInfo) and v.op == "sym" and \
                    not any(self.p.find_method(ci, m) for m in ("__bool__", "__len__")):
                return [(st, True)]
            if v.op == "not":
                return [(s, not b) for s, b in self.truth(v.args[0], st)]
            if v.op == "len":
                return self.truth(v.args[0], st)
            if v.op == "list":
                if any(not isinstance(i, Splice) for i in v.args):
                    return [(st, True)]
                if not v.args:
                    return [(st, False)]
            if v.op == "pure" and v.args[0] in self.ORDER_WRAPPERS and len(v.args) > 2 and \
                    v.args[0] not in ("iter", "reversed"):
                return self.truth(v.args[2], st)
            card = st.facts.get(("card", v))
            if card is not None:
                return [(st, card > 0)]
            return self._fork_fact(("truth", v), st)
        raise Undecided(f"truth of {v!r}")

    def _fork_fact(self, key, st):
        if key in st.facts:
            return [(st, st.facts[key])]
        self.forks += 1
        return [(st.fact(key, True), True), (st.fact(key, False), False)]

    def eq(self, a, b, st, identity=False):
        """Split on a == b: list of (state, bool)."""
        a, b = self.resolve(a, st), self.resolve(b, st)
        if isinstance(a, C) and isinstance(b, C):
            if identity:
                return [(st, a.t is b.t and a.v == b.v)]
            if self.sizes:
                for x, y in ((a.v, b.v), (b.v, a.v)):
                    if self.open_size(x, y):
                        return self._fork_fact(("size", int(x), "=", y), st)
            try:
                return [(st, bool(a.v == b.v))]
            except Exception:
                return [(st, False)]
        if a == b:
            return [(st, True)]
        if isinstance(a, C) and not isinstance(b, C):
            a, b = b, a
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return [(st, False)]
            if "set" in a.kind or "set" in b.kind:
                return self._fork_fact(("eq",) + tuple(sorted((a, b), key=repr)), st)
            out = [(st, True)]
            for x, y in zip(a.items, b.items):
                nxt = []
                for s, ok in out:
                    if not ok:
                        nxt.append((s, ok))
                    else:
                        nxt.extend(self.eq(x, y, s))
                out = nxt
            return out
        if isinstance(a, Tup) and isinstance(b, C):
            if isinstance(b.v, tuple) and "set" not in a.kind and not identity:
                return self.eq(a, Tup(tuple(C(x) for x in b.v)), st)
            if not isinstance(b.v, (tuple, frozenset)):
                return [(st, False)]
        if isinstance(a, (Ref,)) or isinstance(b, (Ref,)):
            if identity:
                return [(st, False)]
            if not isinstance(a, Ref):
                a, b = b, a
            oa = st.heap[a.id]
            if isinstance(oa, ListObj):
                ib = None
                if isinstance(b, Ref) and isinstance(st.heap[b.id], ListObj):
                    ib = st.heap[b.id].items
                elif isinstance(b, Tup):
                    return [(st, False)]
                elif isinstance(b, C):
                    return [(st, False)]
                if ib is not None and not any(isinstance(i, Splice) for i in oa.items + ib) \
                        and oa.kind in ("list", "gen") and oa.cls is None:
                    return self.eq(Tup(oa.items), Tup(ib), st)
            if isinstance(b, C):
                return [(st, False)]
            if isinstance(oa, InstObj) and isinstance(b, Ref):
                return [(st, False)]
            return self._fork_fact(("eq",) + tuple(sorted((a, b), key=repr)), st)
        if isinstance(a, (Fn, Mod, Exc)) or isinstance(b, (Fn, Mod, Exc)):
            if isinstance(a, T) or isinstance(b, T):
                return self._fork_fact(("eq",) + tuple(sorted((a, b), key=repr)), st)
            return [(st, False)]
        if isinstance(a, Tup):
            a, b = b, a
        # a is an opaque term
        if isinstance(b, C):
            if b.v is None and isinstance(self.typ(a, st), ClassInfo) and \
                    a.op in ("new", "ctx", "sym"):
                return [(st, False)]
            if b.v is None and a.op == "newext":
                return [(st, False)]
            if ("neq", a, b) in st.facts:
                return [(st, False)]
            t = st.facts.get(("truth", a))
            if t is not None and t != bool(b.v):
                return [(st, False)]
            if b.v is None and a.op in ("len", "fstr", "+", "str", "not"):
                return [(st, False)]
            if isinstance(b.v, bool) and t is not None and self.is_bool(a):
                return [(st, t == b.v)]
            if ("isnt", a, b.t.__name__) in st.facts:
                return [(st, False)]
            # 'a is None' known false does not exclude other constants
            self.forks += 1
            yes = st.fact(("val", a), b)
            if ("truth", a) not in st.facts:
                yes = yes.fact(("truth", a), bool(b.v))
            no = st.fact(("neq", a, b), True)
            return [(yes, True), (no, False)]
        for k in ("ord",):
            o = self.get_ord(a, b, st)
            if o is not None:
                return [(st, o == "eq")]
        key = ("eq",) + tuple(sorted((a, b), key=repr))
        return self._fork_fact(key, st)

    @staticmethod
    def is_bool(t):
        return t.op in ("not", "in", "isinstance", "boolcall")

    def get_ord(self, a, b, st):
        o = st.facts.get(("ord", a, b))
        if o is not None:
            return o
        o = st.facts.get(("ord", b, a))
        if o is not None:
            return {"lt": "gt", "gt": "lt", "eq": "eq"}[o]
        key = ("eq",) + tuple(sorted((a, b), key=repr))
        if st.facts.get(key) is True:
            return "eq"
        return None

    def order(self, op, a, b, st):
        """Split on an ordering comparison: list of (state, bool)."""
        a, b = self.resolve(a, st), self.resolve(b, st)
        sat = {"<": ("lt",), "<=": ("lt", "eq"), ">": ("gt",), ">=": ("gt", "eq")}[op]
        if isinstance(a, C) and isinstance(b, C):
            if self.sizes and self.open_size(a.v, b.v):
                return [(x, t == (op in (">", ">="))) for x, t in
                        self.at_least(int(a.v), b.v + (op in (">", "<=")), st)]
            if self.sizes and self.open_size(b.v, a.v):
                return [(x, t == (op in ("<", "<="))) for x, t in
                        self.at_least(int(b.v), a.v + (op in ("<", ">=")), st)]
            try:
                r = {"<": a.v < b.v, "<=": a.v <= b.v, ">": a.v > b.v, ">=": a.v >= b.v}[op]
            except TypeError:
                raise Undecided("ordering of constants of different types")
            return [(st, bool(r))]
        if isinstance(a, Tup) and isinstance(b, Tup) and a.items and b.items:
            raise Undecided("tuple ordering")
        # len(x) > 0 and friends
        if isinstance(b, C) and isinstance(a, T) and a.op == "len":
            if (op, b.v) in ((">", 0), (">=", 1)):
                return self.truth(a.args[0], st)
            if (op, b.v) in (("<", 1), ("<=", 0)):
                return [(s, not t) for s, t in self.truth(a.args[0], st)]
        if isinstance(a, C) and isinstance(b, T) and b.op == "len":
            inv = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
            return self.order(inv, b, a, st)
        if a == b:
            return [(st, "eq" in sat)]
        o = self.get_ord(a, b, st)
        if o is not None:
            return [(st, o in sat)]
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(y, T) and y.op == "len" and isinstance(y.args[0], T) and \
                    y.args[0].op == "list" and ("pos", y.args[0].args, x) in st.facts:
                pos, n = st.facts[("pos", y.args[0].args, x)], len(y.args[0].args)
                rel = "lt" if pos < n else "eq"
                if flip:
                    rel = {"lt": "gt", "eq": "eq"}[rel]
                return [(st, rel in sat)]
        key = ("eq",) + tuple(sorted((a, b), key=repr))
        opts = ["lt", "eq", "gt"]
        if st.facts.get(key) is False or ("neq", a, b) in st.facts or ("neq", b, a) in st.facts:
            opts = ["lt", "gt"]
        # consistency of several constant bounds on the same term
        if isinstance(a, C) != isinstance(b, C):
            t, c, flip = (a, b, False) if isinstance(b, C) else (b, a, True)
            if isinstance(c.v, (int, float)):
                keep = []
                lb = self.lower_bound(t)
                for x in opts:
                    y = x if not flip else {"lt": "gt", "gt": "lt", "eq": "eq"}[x]
                    if lb is not None and (y == "lt" and c.v <= lb or y == "eq" and c.v < lb):
                        continue
                    if self._num_ok(t, y, c.v, st):
                        keep.append(x)
                opts = keep or opts
        self.forks += 1
        return [(st.fact(("ord", a, b), x), x in sat) for x in opts]

    @staticmethod
    def open_size(n, limit):
        """Is the number n in an example unknown in comparison with the limit?"""
        return type(n) is Size and type(limit) in (int, float) and limit >= LIMIT and 0 < n < limit

    def at_least(self, n, limit, st):
        for k, v in st.facts.items():        # a larger size is not below what a smaller one is not below
            if k[0] == "size" and k[2] == ">=" and (v and k[1] <= n and k[3] >= limit or
                                                    not v and k[1] >= n and k[3] <= limit):
                return [(st, v)]
        return self._fork_fact(("size", n, ">=", limit), st)

    @staticmethod
    def _num_ok(t, rel, v, st):
        for k, o in st.facts.items():
            if k[0] != "ord":
                continue
            if k[1] == t and isinstance(k[2], C) and isinstance(k[2].v, (int, float)):
                w, r = k[2].v, o
            elif k[2] == t and isinstance(k[1], C) and isinstance(k[1].v, (int, float)):
                w, r = k[1].v, {"lt": "gt", "gt": "lt", "eq": "eq"}[o]
            else:
                continue
            # t r w and t rel v must be satisfiable
            if r == "eq" and not {"lt": w < v, "eq": w == v, "gt": w > v}[rel]:
                return False
            if rel == "eq" and not {"lt": v < w, "eq": v == w, "gt": v > w}[r]:
                return False
            if r == "lt" and rel == "gt" and w <= v:
                return False
            if r == "gt" and rel == "lt" and w >= v:
                return False
        return True

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        """Execute statements: list of (state, outcome); outcome None means fall through."""
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                for st2, out in self.exec_stmt(s, x):
                    if out is None:
                        nxt.append(st2)
                    else:
                        done.append((st2, out))
            cur = self._dedupe(nxt)
            if len(cur) + len(done) > self.max_paths:
                raise Undecided("too many paths")
            if not cur:
                break
        return done + [(x, None) for x in cur]

    @staticmethod
    def _dedupe(states):
        return states

    def exec_stmt(self, s, st):
        self.steps += 1
        if self.steps > 400000:
            raise Undecided("step budget exhausted")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(s).__name__} at line {s.lineno}")
        return m(s, st)

    def s_Pass(self, s, st):
        return [(st, None)]

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return [(x, ("raise", v.exc) if isinstance(v, Raised) else None)
                for x, v in self.ev(s.value, st)]

    def s_Global(self, s, st):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Import(self, s, st):
        st = self.event(st, "import", ",".join(a.name for a in s.names), node=s)
        out = [(st, None)]
        if self.raises is not None:
            for ex in self.raises("import", None, st, None) or ():
                out.append((st, ("raise", Exc(ex, (), s))))
        return out

    def s_ImportFrom(self, s, st):
        return self.s_Import(s, st)

    def s_FunctionDef(self, s, st):
        fn = st.fn
        fi = None
        if fn is not None:
            q = fn.qual + ".<locals>." + s.name
            fi = self.p.funcs.get(q)
        if fi is None:
            fi = FuncInfo(s.name, (fn.qual if fn else "?") + ".<locals>." + s.name, s,
                          fn.module if fn else None, None, outer=fn)
        return [(st.setvar(st.fid, s.name, Fn("func", fi, frame=st.fid)), None)]

    def s_ClassDef(self, s, st):
        raise Undecided("nested class")

    def s_Return(self, s, st):
        if s.value is None:
            return [(st, ("ret", NONE))]
        return [(x, ("raise", v.exc) if isinstance(v, Raised) else ("ret", v))
                for x, v in self.ev(s.value, st)]

    def s_Break(self, s, st):
        return [(st, ("break",))]

    def s_Continue(self, s, st):
        return [(st, ("continue",))]

    def s_Assign(self, s, st):
        if (self.widen or self.sizes) and len(s.targets) == 1 and isinstance(s.value, ast.BinOp) and \
                isinstance(s.targets[0], (ast.Name, ast.Attribute)):
            t = ast.unparse(s.targets[0])
            for a, b in ((s.value.left, s.value.right), (s.value.right, s.value.left)):
                if isinstance(b, ast.Constant) and ast.unparse(a) == t:
                    return self.s_AugAssign(ast.copy_location(
                        ast.AugAssign(target=s.targets[0], op=s.value.op, value=b), s), st)
        out = []
        for x, v in self.ev(s.value, st):
            if isinstance(v, Raised):
                out.append((x, ("raise", v.exc)))
                continue
            cur = [(x, None)]
            for t in s.targets:
                nxt = []
                for y, o in cur:
                    nxt.extend(self.assign(t, v, y) if o is None else [(y, o)])
                cur = nxt
            out.extend(cur)
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, None)]
        return self.s_Assign(ast.copy_location(ast.Assign(targets=[s.target], value=s.value), s), st)

    def s_AugAssign(self, s, st):
        tgt = s.target
        load = self._as_load(tgt)
        out = []
        for x, pair in self.ev_seq([load, s.value], st):
            if isinstance(pair, Raised):
                out.append((x, ("raise", pair.exc)))
                continue
            old, val = pair
            # in-place extension of a list
            if isinstance(s.op, ast.Add) and isinstance(old, Ref) and \
                    isinstance(x.heap.get(old.id), ListObj):
                for y, r in self.list_method(old, "extend", [val], {}, x, s):
                    out.append((y, ("raise", r.exc) if isinstance(r, Raised) else None))
                continue
            if isinstance(s.op, ast.BitOr) and isinstance(old, Ref):
                for y, r in self.list_method(old, "update", [val], {}, x, s):
                    out.append((y, ("raise", r.exc) if isinstance(r, Raised) else None))
                continue
            n = self.widened(tgt, s.op, old, val)
            if n is not None:
                out.extend(self.assign(tgt, n, x, aug=(type(s.op).__name__, old, val)))
                continue
            for y, r in self.binop(s.op, old, val, x, s):
                if isinstance(r, Raised):
                    out.append((y, ("raise", r.exc)))
                else:
                    if self.sizes and isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(r, C) and r.t is int and \
                            isinstance(val, C) and r.v >= 0 and isinstance(s.value, ast.Constant):
                        r = C(Size(r.v))
                    out.extend(self.assign(tgt, r, y, aug=(type(s.op).__name__, old, val)))
        return out

    def widened(self, tgt, op, old, val):
        """With `widen` what is counted up or down in steps of a constant may be any number."""
        if not self.widen or not isinstance(op, (ast.Add, ast.Sub)) or not isinstance(val, C) or \
                type(val.v) not in (int, float) or not val.v or isinstance(tgt, ast.Subscript) or \
                isinstance(tgt, ast.Attribute) and tgt.attr == "value":
            return None
        if isinstance(old, C) and type(old.v) in (int, float) or \
                isinstance(old, T) and old.op == "sym" and str(old.args[0]).startswith("count:"):
            return T("sym", "count:" + ast.unparse(tgt))
        return None

    @staticmethod
    def _as_load(t):
        t2 = ast.parse(ast.unparse(t), mode="eval").body
        for n in ast.walk(t2):
            if hasattr(n, "lineno"):
                n.lineno = t.lineno
                n.col_offset = t.col_offset
        return t2

    def assign(self, t, v, st, aug=None):
        if isinstance(t, ast.Name):
            fid = st.fid
            fr = st.frames[fid]
            if t.id in fr.get("<nonlocal>", ()):  # pragma: no cover
                raise Undecided("nonlocal")
            return [(st.setvar(fid, t.id, v), None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.ev(t.value, st):
                if isinstance(b, Raised):
                    out.append((x, ("raise", b.exc)))
                    continue
                b = self.resolve(b, x)
                x = self.event(x, "store", t.attr, b, [v], {"aug": C(aug[0]), "old": aug[1],
                                                            "by": aug[2]} if aug else {}, t)
                h = self.hooks.get("=" + t.attr)
                if h is not None:
                    x = h(self, x, b, v) or x
                out.append((x.setfield(b, t.attr, v), None))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            idx = t.slice
            if isinstance(idx, ast.Slice):
                if idx.step is not None:
                    raise Undecided("slice assignment")
                if idx.lower is not None or idx.upper is not None:
                    bounds = [b for b in (idx.lower, idx.upper) if b is not None]
                    for x, vals in self.ev_seq([t.value, *bounds], st):
                        if isinstance(vals, Raised):
                            out.append((x, ("raise", vals.exc)))
                            continue
                        b, rest = self.resolve(vals[0], x), [self.resolve(i, x) for i in vals[1:]]
                        items = self.seq_items(v, x)
                        o = x.heap.get(b.id) if isinstance(b, Ref) else None
                        if items is None or not isinstance(o, ListObj) or \
                                not all(isinstance(i, C) and i.v is not None for i in rest) or \
                                any(isinstance(i, Splice) for i in o.items):
                            raise Undecided("slice assignment")
                        lo = rest.pop(0).v if idx.lower is not None else None
                        hi = rest.pop(0).v if idx.upper is not None else None
                        new = list(o.items)
                        new[lo:hi] = items
                        out.append((x.put(b, o.with_items(tuple(new))), None))
                    return out
                for x, b in self.ev(t.value, st):
                    if isinstance(b, Raised):
                        out.append((x, ("raise", b.exc)))
                        continue
                    if not (isinstance(b, Ref) and isinstance(x.heap[b.id], ListObj)):
                        raise Undecided("slice assignment")
                    items = self.seq_items(v, x)
                    d = x.heap.get(v.id) if isinstance(v, Ref) else None
                    if isinstance(d, DictObj) and not d.open:
                        items = tuple(k for k, _ in d.items)
                    its = items if items is not None else (Splice(self._as_term(v, x)),)
                    out.append((x.put(b, x.heap[b.id].with_items(its)), None))
                return out
            for x, pair in self.ev_seq([t.value, idx], st):
                if isinstance(pair, Raised):
                    out.append((x, ("raise", pair.exc)))
                    continue
                b, k = pair
                k = self.resolve(k, x)
                if isinstance(b, Ref) and isinstance(x.heap[b.id], DictObj):
                    out.append((self.dict_set(b, k, v, x), None))
                elif isinstance(b, Ref) and isinstance(x.heap[b.id], ListObj) and \
                        isinstance(k, C) and isinstance(k.v, int):
                    items = list(x.heap[b.id].items)
                    try:
                        items[k.v] = v
                    except IndexError:
                        out.append((x, ("raise", Exc("IndexError", (), t))))
                        continue
                    out.append((x.put(b, x.heap[b.id].with_items(items)), None))
                else:
                    x = self.event(x, "setitem", "[]", b, [k, v], {}, t)
                    out.append((x.setfield(b, ("item", k), v), None))
            return out
        raise Undecided(f"assignment target {type(t).__name__}")

    def unpack(self, t, v, st):
        v = self.resolve(v, st)
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        seq = None
        if isinstance(v, Tup):
            seq = v.items
        elif isinstance(v, Ref) and isinstance(st.heap[v.id], ListObj):
            seq = st.heap[v.id].items
            if any(isinstance(i, Splice) for i in seq):
                seq = None
        elif isinstance(v, C) and isinstance(v.v, (str, bytes)):
            seq = [C(x) for x in v.v]
        if seq is None:
            if isinstance(v, C):
                return [(st, ("raise", Exc("TypeError", (), t)))]
            vals = []
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    vals.append(T("rest", v, C(i)))
                else:
                    vals.append(self.item_term(v, C(i), st))
        elif star:
            i = star[0]
            tail = n - i - 1
            if len(seq) < n - 1:
                return [(st, ("raise", Exc("ValueError", (), t)))]
            st, mid = st.new(ListObj(seq[i:len(seq) - tail]))
            vals = list(seq[:i]) + [mid] + list(seq[len(seq) - tail:] if tail else [])
        else:
            if len(seq) != n:
                return [(st, ("raise", Exc("ValueError", (), t)))]
            vals = list(seq)
        cur = [(st, None)]
        for e, x in zip(t.elts, vals):
            nxt = []
            for y, o in cur:
                nxt.extend(self.assign(e, x, y) if o is None else [(y, o)])
            cur = nxt
        return cur

    def item_term(self, v, k, st):
        f = st.fields.get((v, ("item", k)))
        if f is not None:
            return f
        return T("item", v, k)

    def s_If(self, s, st):
        out = []
        for x, v in self.ev(s.test, st):
            if isinstance(v, Raised):
                out.append((x, ("raise", v.exc)))
                continue
            for y, b in self.truth(v, x):
                out.extend(self.exec_block(s.body if b else s.orelse, y))
        return out

    def s_While(self, s, st):
        out = []
        cur = [st]
        limit = self.max_loop
        for i in range(limit + 1):
            nxt = []
            for x in cur:
                for y, v in self.ev(s.test, x):
                    if isinstance(v, Raised):
                        out.append((y, ("raise", v.exc)))
                        continue
                    for z, b in self.truth(v, y):
                        if not b:
                            out.extend(self.exec_block(s.orelse, z))
                            continue
                        if i == limit:
                            self.cut += 1
                            out.append((z, ("cut",)))
                            continue
                        for w, o in self.exec_block(s.body, z):
                            if o is None or o[0] == "continue":
                                nxt.append(w)
                            elif o[0] == "break":
                                out.append((w, None))
                            else:
                                out.append((w, o))
            cur = nxt
            if len(cur) + len(out) > self.max_paths:
                raise Undecided("too many paths")
            if not cur:
                break
        return out

    def s_For(self, s, st):
        out = []
        for x, v in self.ev(s.iter, st):
            if isinstance(v, Raised):
                out.append((x, ("raise", v.exc)))
                continue
            out.extend(self.for_loop(s.target, v, s.body, s.orelse, x, s))
        return out

    def for_loop(self, target, coll, body, orelse, st, node):
        out = []
        coll = self.resolve(coll, st)
        if isinstance(coll, Ref) and isinstance(st.heap[coll.id], ListObj) and \
                not any(isinstance(i, Splice) for i in st.heap[coll.id].items):
            # live iteration: later mutations of the list are seen
            cur = [(st, 0)]
            bound = 40 + len(st.heap[coll.id].items)
            while cur:
                nxt = []
                for x, i in cur:
                    items = x.heap[coll.id].items
                    if i >= len(items):
                        out.extend(self.exec_block(orelse, x))
                        continue
                    if i > bound:
                        out.append((x, ("cut",)))
                        continue
                    nxt.extend(self._iter_body(target, items[i], body, x, out, i))
                cur = nxt
                if len(cur) + len(out) > self.max_paths:
                    raise Undecided("too many paths")
            return out
        for x, items in self.elements(coll, st, node):
            if isinstance(items, Raised):
                out.append((x, ("raise", items.exc)))
                continue
            cur = [x]
            for i, it in enumerate(items):
                nxt = []
                for y in cur:
                    nxt.extend(z for z, _ in self._iter_body(target, it, body, y, out, i))
                cur = nxt
            for y in cur:
                out.extend(self.exec_block(orelse, y))
            if len(out) > self.max_paths:
                raise Undecided("too many paths")
        return out

    def _iter_body(self, target, item, body, st, out, i):
        nxt = []
        for y, o in self.assign(target, item, st):
            if o is not None:
                out.append((y, o))
                continue
            for z, o2 in self.exec_block(body, y):
                if o2 is None or o2[0] == "continue":
                    nxt.append((z, i + 1))
                elif o2[0] == "break":
                    out.append((z, None))
                else:
                    out.append((z, o2))
        return nxt

    def elements(self, coll, st, node=None):
        """All elements of a collection: list of (state, [values]) or (state, Raised)."""
        coll = self.resolve(coll, st)
        if "<iter>" in self.hooks and isinstance(coll, T):
            res = self.hooks["<iter>"](self, st, coll, node)
            if res is not None:
                return res
        if isinstance(coll, Tup):
            return self._expand(coll.items, st)
        if isinstance(coll, C):
            if isinstance(coll.v, (str, bytes)):
                return [(st, [C(x) for x in coll.v])]
            if isinstance(coll.v, range):
                if len(coll.v) > 40:
                    raise Undecided("long range")
                return [(st, [C(x) for x in coll.v])]
            if isinstance(coll.v, frozenset):
                return [(st, [C(x) for x in sorted(coll.v, key=repr)])]
            return [(st, Raised(Exc("TypeError", (), node)))]
        if isinstance(coll, Ref):
            o = st.heap[coll.id]
            if isinstance(o, ListObj):
                return self._expand(o.items, st)
            if isinstance(o, DictObj):
                return [(st, [k for k, _ in o.items])]
            ci = o.cls
            m = self.p.find_method(ci, "__iter__") if isinstance(ci, ClassInfo) else None
            if m is not None:
                out = []
                for x, r in self.call_func(m, [coll], {}, st, node):
                    if isinstance(r, Raised):
                        out.append((x, r))
                    else:
                        out.extend(self.elements(r, x, node))
                return out
            raise Undecided("iteration over instance")
        if isinstance(coll, Fn) and coll.kind == "class":
            return self._opaque_elements(T("cls", coll.target.qual), st)
        if isinstance(coll, T) and coll.op == "pure" and coll.args[0] == "range":
            r = self._range_elements(coll, st, node)
            if r is not None:
                return r
        if isinstance(coll, T):
            ci = self.typ(coll, st)
            if isinstance(ci, ClassInfo):
                h = self.hooks.get(ci.qual + ".__iter__")
                m = self.p.find_method(ci, "__iter__")
                if h is None and m is not None and not self._polymorphic(ci, "__iter__"):
                    out = []
                    for x, r in self.call_func(m, [coll], {}, st, node):
                        if isinstance(r, Raised):
                            out.append((x, r))
                        else:
                            out.extend(self.elements(r, x, node))
                    return out
            outs = self._opaque_elements(coll, st)
            if self.raises is not None:
                for ex in self.raises("<iter>", coll, st, None) or ():
                    outs.append((st, Raised(Exc(ex, (), node))))
            return outs
        raise Undecided(f"iteration over {coll!r}")

    def _range_elements(self, coll, st, node):
        """range(0, len(<known list>), <step>): split over the stride the step makes in that list."""
        a = coll.args[2:]
        if len(a) == 3:
            start, stop, step = a
        elif len(a) == 2:
            start, stop, step = a[0], a[1], C(1)
        elif len(a) == 1:
            start, stop, step = C(0), a[0], C(1)
        else:
            return None
        stop, step = self.resolve(stop, st), self.resolve(step, st)
        if start != C(0):
            return None
        if isinstance(stop, T) and stop.op == "len" and isinstance(stop.args[0], T) and \
                stop.args[0].op == "list" and not any(isinstance(i, Splice)
                                                      for i in stop.args[0].args):
            items = stop.args[0].args
        elif isinstance(stop, C) and isinstance(stop.v, int) and stop.v <= 6:
            items = None
        else:
            return None
        n = len(items) if items is not None else stop.v
        if step == C(1):
            return [(st, [C(i) for i in range(n)])]
        lo = self.lower_bound(step)
        if lo is None:
            return None
        out = []
        if lo < 1:
            out.append((st, Raised(Exc("ValueError", (), node))))
        if n == 0:
            return out + [(st, [])]
        for s in range(1, n + 1):
            x, els = st, []
            self.forks += 1
            if items is None:
                if isinstance(step, C):
                    return [(st, [C(i) for i in range(0, n, step.v)])]
                x = x.fact(("val", step), C(s))
                out.append((x, [C(i) for i in range(0, n, s)]))
                continue
            for k in range(0, n, s):
                e = T("rng", coll, C(k // s)) if k else C(0)
                els.append(e)
                nxt = step if e == C(0) else T("+", e, step)
                x = x.fact(("pos", items, e), k)
                x = x.fact(("pos", items, nxt), min(n, k + s))
                x = x.fact(("pos", items, T("+", e, step)), min(n, k + s))
            out.append((x, els))
        return out

    def lower_bound(self, v):
        """A proven lower bound of a numeric term, or None."""
        if isinstance(v, C):
            return v.v if isinstance(v.v, (int, float)) else None
        if not isinstance(v, T):
            return None
        if v == self.args_attr("jobs"):
            return 1
        if v.op == "len":
            return 0
        if v.op == "attr" and v.args[1] in ("n_waiting",):
            return 0
        if v.op == "call" and v.args[0].endswith("qsize"):
            return 0
        if v.op == "pure" and v.args[0] in ("min", "max") and len(v.args) > 3:
            b = [self.lower_bound(x) for x in v.args[2:]]
            if v.args[0] == "max":
                b = [x for x in b if x is not None]
                return max(b) if b else None
            return None if None in b else min(b)
        if v.op == "pure" and v.args[0] in ("int", "round", "abs", "math.floor", "math.ceil"):
            b = self.lower_bound(v.args[2])
            return int(b) if b is not None and b >= 0 else b
        if v.op in ("+", "*", "/", "//"):
            x, y = self.lower_bound(v.args[0]), self.lower_bound(v.args[1])
            if x is None or y is None or x < 0 or y < 0:
                return None
            if v.op == "+":
                return x + y
            if v.op == "*":
                return x * y
            return 0
        return None

    def _expand(self, items, st):
        out = [(st, [])]
        for i in items:
            nxt = []
            for x, acc in out:
                if isinstance(i, Splice):
                    for y, el in self.elements(i.term, x):
                        if isinstance(el, Raised):
                            nxt.append((y, el))
                        else:
                            nxt.append((y, acc + el))
                elif isinstance(acc, Raised):
                    nxt.append((x, acc))
                else:
                    nxt.append((x, acc + [i]))
            out = nxt
        return out

    ORDER_WRAPPERS = {"sorted", "reversed", "list", "tuple", "set", "iter", "frozenset"}

    def _opaque_elements(self, coll, st):
        base = coll
        while base.op == "pure" and base.args[0] in self.ORDER_WRAPPERS and len(base.args) > 2:
            base = base.args[2]
            if not isinstance(base, T):
                return self.elements(base, st)
        if base.op == "pure" and base.args[0] == "enumerate":
            out = []
            for x, els in self.elements(base.args[2], st):
                if isinstance(els, Raised):
                    out.append((x, els))
                else:
                    out.append((x, [Tup((C(i), e)) for i, e in enumerate(els)]))
            return out
        key = ("card", base)
        if key in st.facts:
            n = st.facts[key]
            return [(st, [T("elem", base, C(i)) for i in range(n)])]
        t = st.facts.get(("truth", base))
        out = []
        for n in range(self.max_elems + 1):
            if t is True and n == 0 or t is False and n > 0:
                continue
            self.forks += 1
            x = st.fact(key, n)
            if t is None:
                x = x.fact(("truth", base), n > 0)
            out.append((x, [T("elem", base, C(i)) for i in range(n)]))
        return out

    def s_Try(self, s, st):
        outs = []
        for x, o in self.exec_block(s.body, st):
            if o is not None and o[0] == "raise":
                outs.extend(self.handle(s, o[1], x))
            elif o is None:
                outs.extend(self.exec_block(s.orelse, x))
            else:
                outs.append((x, o))
        if not s.finalbody:
            return outs
        res = []
        for x, o in outs:
            if o is not None and o[0] == "cut":
                res.append((x, o))
                continue
            for y, o2 in self.exec_block(s.finalbody, x):
                res.append((y, o2 if o2 is not None else o))
        return res

    s_TryStar = s_Try

    def handler_types(self, h, st):
        if h.type is None:
            return ["BaseException"]
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in elts:
            out.extend(self.exc_types(e, st.fn.module, st))
        return out

    def exc_types(self, e, module, st=None):
        if isinstance(e, ast.Starred):
            return self.exc_types(e.value, module, st)
        if isinstance(e, ast.Tuple):
            return [t for x in e.elts for t in self.exc_types(x, module, st)]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.exc_types(e.left, module, st) + self.exc_types(e.right, module, st)
        d = self.dotted(e, module)
        if isinstance(d, ClassInfo):
            return [d]
        if isinstance(d, str):
            d = d[9:] if d.startswith("builtins.") else d
            return [EXT_ALIASES.get(d, d)]
        # a name bound to a tuple of classes at module, class or local level
        if isinstance(e, ast.Name):
            r = self.p.resolve_global(module, e.id)
            if r is not None and r[0] == "var":
                vals = r[1].assigns.get(r[2], [])
                if len(vals) == 1:
                    return self.exc_types(vals[0], r[1], st)
            if st is not None:
                v = st.frames.get(st.fid, {}).get(e.id)
                if isinstance(v, Tup):
                    return [x.target if x.kind == "class" else str(x.target) for x in v.items
                            if isinstance(x, Fn)]
                if isinstance(v, Fn):
                    return [v.target]
            return [e.id]
        if isinstance(e, ast.Attribute) and st is not None:
            vals = self.ev(e, st)
            if len(vals) == 1:
                v = vals[0][1]
                if isinstance(v, Tup) and all(isinstance(i, Fn) for i in v.items):
                    return [i.target for i in v.items]
                if isinstance(v, Fn):
                    return [v.target]
        return [ast.unparse(e)]

    def handle(self, s, exc, st):
        """Route a raised exception through the handlers of a try statement."""
        for h in s.handlers:
            types = self.handler_types(h, st)
            if any(self.issub_exc(exc.cls, t) for t in types):
                x = st
                if h.name:
                    x = x.setvar(x.fid, h.name, exc)
                x = self.event(x, "caught", exc.name, exc, [], {}, h)
                x = x.fork()
                x.exc = st.exc + (exc,)
                out = []
                for y, o in self.exec_block(h.body, x):
                    y = y.fork()
                    y.exc = st.exc
                    out.append((y, o))
                return out
        return [(st, ("raise", exc))]

    def s_Raise(self, s, st):
        if s.exc is None:
            if st.exc:
                return [(st, ("raise", st.exc[-1]))]
            return [(st, ("raise", Exc("RuntimeError", (), s)))]
        out = []
        for x, v in self.ev(s.exc, st):
            if isinstance(v, Raised):
                out.append((x, ("raise", v.exc)))
                continue
            exc = self.as_exc(v, x, s)
            x = self.event(x, "raise", exc.name, exc, [], {}, s)
            out.append((x, ("raise", exc)))
        return out

    def as_exc(self, v, st, node):
        v = self.resolve(v, st)
        if isinstance(v, Exc):
            return v
        if isinstance(v, Fn) and v.kind == "class":
            return Exc(v.target, (), node)
        if isinstance(v, Fn) and v.kind in ("ext", "builtin"):
            return Exc(v.target, (), node)
        if isinstance(v, T) and v.op == "newext":
            return Exc(v.args[0], (), node)
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), InstObj):
            return Exc(st.heap[v.id].cls, st.heap[v.id].args, node)
        return Exc("<any>", (), node)

    def s_Assert(self, s, st):
        if not self.debug:
            return [(st, None)]
        out = []
        for x, v in self.ev(s.test, st):
            if isinstance(v, Raised):
                out.append((x, ("raise", v.exc)))
                continue
            for y, b in self.truth(v, x):
                if b:
                    out.append((y, None))
                elif self.hooks.get("<assert>") == "assume":
                    continue
                else:
                    out.append((y, ("raise", Exc("AssertionError", (), s))))
        return out

    def s_Delete(self, s, st):
        cur = [(st, None)]
        for t in s.targets:
            nxt = []
            for x, o in cur:
                if o is not None:
                    nxt.append((x, o))
                    continue
                if isinstance(t, ast.Name):
                    nxt.append((x, None))
                elif isinstance(t, ast.Subscript):
                    nxt.extend(self._del_item(t, x))
                else:
                    nxt.append((self.event(x, "del", ast.unparse(t), node=t), None))
            cur = nxt
        return cur

    def _del_item(self, t, st):
        out = []
        if isinstance(t.slice, ast.Slice):
            for x, vals in self.ev_seq([t.value] + [b for b in (t.slice.lower, t.slice.upper) if b],
                                       st):
                if isinstance(vals, Raised):
                    out.append((x, ("raise", vals.exc)))
                    continue
                base = vals[0]
                rest = list(vals[1:])
                lo = rest.pop(0) if t.slice.lower is not None else None
                hi = rest.pop(0) if t.slice.upper is not None else None
                if not (isinstance(base, Ref) and isinstance(x.heap[base.id], ListObj)):
                    raise Undecided("del slice of opaque")
                o = x.heap[base.id]
                for y, a in self.position(base, lo, 0, x):
                    for z, b in self.position(base, hi, len(o.items), y):
                        items = o.items[:a] + o.items[max(a, b):]
                        out.append((z.put(base, o.with_items(items)), None))
            return out
        for x, pair in self.ev_seq([t.value, t.slice], st):
            if isinstance(pair, Raised):
                out.append((x, ("raise", pair.exc)))
                continue
            b, k = pair
            k = self.resolve(k, x)
            if isinstance(b, Ref) and isinstance(x.heap[b.id], ListObj):
                o = x.heap[b.id]
                if isinstance(k, C) and isinstance(k.v, int):
                    items = list(o.items)
                    try:
                        del items[k.v]
                    except IndexError:
                        out.append((x, ("raise", Exc("IndexError", (), t))))
                        continue
                    out.append((x.put(b, o.with_items(items)), None))
                    continue
                raise Undecided("del of opaque index")
            if isinstance(b, Ref) and isinstance(x.heap[b.id], DictObj):
                o = x.heap[b.id]
                keep = tuple(kv for kv in o.items if kv[0] != k)
                if len(keep) == len(o.items):
                    out.append((x, ("raise", Exc("KeyError", (), t))))
                else:
                    out.append((x.put(b, DictObj(keep, o.cls, o.default, o.open)), None))
                continue
            out.append((self.event(x, "delitem", "[]", b, [k], {}, t), None))
        return out

    def s_With(self, s, st):
        return self._with(list(s.items), s.body, st, s)

    s_AsyncWith = s_With

    def _with(self, items, body, st, node):
        if not items:
            return self.exec_block(body, st)
        it, rest = items[0], items[1:]
        out = []
        for x, cm in self.ev(it.context_expr, st):
            if isinstance(cm, Raised):
                out.append((x, ("raise", cm.exc)))
                continue
            x0 = x
            x = self.event(x, "enter", self.cm_name(cm), cm, [], {}, it.context_expr)
            x = x.fork()
            x.withs = x.withs + (cm,)
            entered = []
            ci = self.typ(cm, x)
            em = self.p.find_method(ci, "__enter__") if isinstance(ci, ClassInfo) else None
            if em is not None:
                for y, r in self.call_func(em, [cm], {}, x, node):
                    if isinstance(r, Raised):
                        out.append((y, ("raise", r.exc)))
                    else:
                        entered.append((y, r))
            elif isinstance(cm, Ref):
                entered.append((x, cm))
            else:
                h = self.hooks.get("<enter>")
                v = h(cm) if h is not None else None
                entered.append((x, T("enter", cm) if v is None else v))
            for y, r in entered:
                if it.optional_vars is not None:
                    assigned = self.assign(it.optional_vars, r, y)
                else:
                    assigned = [(y, None)]
                for z, o in assigned:
                    if o is not None:
                        out.append((z, o))
                        continue
                    for w, o2 in self._with(rest, body, z, node):
                        if o2 is not None and o2[0] == "cut":
                            out.append((w, o2))
                            continue
                        w = self.event(w, "exit", self.cm_name(cm), cm, [],
                                       {"outcome": C(o2[0] if o2 else "normal")}, it.context_expr)
                        w = w.fork()
                        w.withs = x0.withs
                        xm = self.p.find_method(ci, "__exit__") if isinstance(ci, ClassInfo) else None
                        if xm is not None:
                            for v, r2 in self.call_func(xm, [cm, NONE, NONE, NONE], {}, w, node):
                                if isinstance(r2, Raised):
                                    out.append((v, ("raise", r2.exc)))
                                else:
                                    out.append((v, o2))
                            continue
                        if o2 is not None and o2[0] == "raise" and self._suppresses(cm, o2[1]):
                            out.append((w, None))
                            continue
                        out.append((w, o2))
        return out

    def _suppresses(self, cm, exc):
        if isinstance(cm, T) and cm.op == "newext" and cm.args[0] == "contextlib.suppress":
            for a in cm.args[1:]:
                if isinstance(a, Tup):
                    for x in a.items:
                        if isinstance(x, Fn) and self.issub_exc(exc.cls, x.target):
                            return True
        return False

    @staticmethod
    def cm_name(cm):
        if isinstance(cm, T):
            if cm.op in ("call", "pure", "newext"):
                return str(cm.args[0])
            return cm.op
        return type(cm).__name__

    def s_Match(self, s, st):
        out = []
        for x, v in self.ev(s.subject, st):
            if isinstance(v, Raised):
                out.append((x, ("raise", v.exc)))
                continue
            cur = [x]
            for case in s.cases:
                nxt = []
                for y in cur:
                    for z, b in self.match_pat(case.pattern, v, y):
                        if not b:
                            nxt.append(z)
                            continue
                        if case.guard is not None:
                            for w, g in self.ev(case.guard, z):
                                if isinstance(g, Raised):
                                    out.append((w, ("raise", g.exc)))
                                    continue
                                for u, gb in self.truth(g, w):
                                    if gb:
                                        out.extend(self.exec_block(case.body, u))
                                    else:
                                        nxt.append(u)
                        else:
                            out.extend(self.exec_block(case.body, z))
                cur = nxt
            out.extend((y, None) for y in cur)
        return out

    def match_pat(self, pat, v, st):
        if isinstance(pat, ast.MatchValue):
            out = []
            for x, c in self.ev(pat.value, st):
                out.extend(self.eq(v, c, x))
            return out
        if isinstance(pat, ast.MatchSingleton):
            return self.eq(v, C(pat.value), st, identity=True)
        if isinstance(pat, ast.MatchOr):
            out, cur = [], [st]
            for p in pat.patterns:
                nxt = []
                for x in cur:
                    for y, b in self.match_pat(p, v, x):
                        (out.append((y, True)) if b else nxt.append(y))
                cur = nxt
            return out + [(x, False) for x in cur]
        if isinstance(pat, ast.MatchAs):
            if pat.pattern is None:
                if pat.name:
                    st = st.setvar(st.fid, pat.name, v)
                return [(st, True)]
            out = []
            for x, b in self.match_pat(pat.pattern, v, st):
                if b and pat.name:
                    x = x.setvar(x.fid, pat.name, v)
                out.append((x, b))
            return out
        if isinstance(pat, ast.MatchClass) and not pat.patterns and not pat.kwd_patterns:
            out = []
            for x, c in self.ev(pat.cls, st):
                for y, r in self.isinstance_(v, c, x):
                    out.append((y, r))
            return out
        raise Undecided("match pattern")
