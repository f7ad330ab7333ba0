"""Interprocedural exception-flow analysis over the syntax tree.

For every function (in the context of the concrete class of its receiver) the set of exceptions that
may leave it is computed as a fixpoint: explicit raises, the may-raise model of the library calls and
the escapes of the resolved project callees, minus what the enclosing handlers catch. Receivers are
resolved by a field based type inference with a class-hierarchy fallback. Nothing is executed."""
import ast
import builtins

from .inventory import dotted
from .project import ClassInfo, FuncInfo

OS = ("OSError",)
# what a library call may raise for some input or fault
LIB = {
    "builtins.int": ("ValueError",), "builtins.float": ("ValueError",),
    "builtins.open": OS, "io.open": OS, "os.open": OS,
    "os.stat": OS, "os.lstat": OS, "os.scandir": OS, "os.listdir": OS, "os.readlink": OS,
    "os.statvfs": OS, "os.listxattr": OS, "os.getxattr": OS, "os.getcwd": OS,
    "os.path.abspath": OS, "os.path.getsize": OS, "os.path.getmtime": OS, "os.path.samefile": OS,
    "os.access": (), "os.chdir": OS,
    "re.compile": ("re.error", "OverflowError", "RecursionError"),
    "re.match": ("re.error",), "re.search": ("re.error",), "re.fullmatch": ("re.error",),
    "shlex.split": ("ValueError",), "sqlite3.connect": ("sqlite3.Error",),
    "subprocess.Popen": OS, "subprocess.run": OS, "subprocess.check_output": OS,
    "subprocess.check_call": OS, "subprocess.call": OS,
    "struct.unpack": ("struct.error",), "struct.unpack_from": ("struct.error",),
    "struct.iter_unpack": ("struct.error",), "zlib.decompress": ("zlib.error",),
    "xml.etree.ElementTree.parse": ("OSError", "xml.etree.ElementTree.ParseError"),
    "xml.etree.ElementTree.fromstring": ("xml.etree.ElementTree.ParseError",),
    "plistlib.load": ("Exception",), "plistlib.loads": ("Exception",),
    "pickle.load": ("Exception",), "pickle.loads": ("Exception",),
    "tomllib.load": ("ValueError",), "tomllib.loads": ("ValueError",),
    "gzip.decompress": ("OSError", "EOFError", "zlib.error"),
    "lzma.decompress": ("lzma.LZMAError",), "bz2.decompress": OS,
    "binascii.unhexlify": ("ValueError",), "base64.b64decode": ("ValueError",),
    "os.path.getctime": OS, "os.path.getatime": OS, "mmap.mmap": ("OSError", "ValueError"),
    "tokenize.open": ("OSError", "SyntaxError", "UnicodeDecodeError"),
    "pathlib.Path.read_text": ("OSError", "UnicodeDecodeError"),
    "datetime.datetime.strptime": ("ValueError",), "time.strptime": ("ValueError",),
    "time.localtime": ("OSError", "OverflowError", "ValueError"),
    "time.gmtime": ("OSError", "OverflowError", "ValueError"),
    "time.mktime": ("OverflowError",),
    "datetime.datetime.fromtimestamp": ("OSError", "OverflowError", "ValueError"),
    "ast.parse": ("SyntaxError", "ValueError", "RecursionError", "MemoryError"),
    "ast.literal_eval": ("SyntaxError", "ValueError", "RecursionError", "MemoryError"),
    "json.loads": ("ValueError", "RecursionError"), "json.load": ("ValueError", "RecursionError"),
    "tarfile.open": ("Exception",), "zipfile.ZipFile": ("Exception",),
    "gzip.open": OS, "bz2.open": OS, "lzma.open": OS,
    "magic.detect_from_filename": ("OSError", "ValueError"),
    "pymediainfo.MediaInfo.parse": ("OSError", "RuntimeError"),
    "pwd.getpwuid": ("KeyError",), "grp.getgrgid": ("KeyError",),
    "pwd.getpwnam": ("KeyError",), "grp.getgrnam": ("KeyError",),
    "elftools.elf.elffile.ELFFile": ("elftools.common.exceptions.ELFError",),
    "os.getxattr": OS, "os.remove": OS, "os.unlink": OS, "os.mkdir": OS, "os.makedirs": OS,
    "os.rename": OS, "shutil.copy": OS, "shutil.rmtree": OS, "os.rmdir": OS,
    "importlib.import_module": ("Exception",),
}
METHODS = {
    "execute": ("sqlite3.Error",), "executemany": ("sqlite3.Error",), "commit": ("sqlite3.Error",),
    "executescript": ("sqlite3.Error",),
    "strptime": ("ValueError",), "timestamp": ("OverflowError", "ValueError"),
    "decode": ("UnicodeDecodeError",), "getnames": ("Exception",), "getmembers": ("Exception",),
    "iter_sections": ("elftools.common.exceptions.ELFError",),
    "iter_tags": ("elftools.common.exceptions.ELFError",),
    "exec_module": ("Exception",), "fromhex": ("ValueError",),
}
FILE_READ = {"read", "readline", "readlines", "readinto"}
CONSUMERS = {"list", "tuple", "set", "dict", "sorted", "sum", "any", "all", "max", "min", "frozenset",
             "enumerate", "next", "reversed", "map", "filter", "zip"}
ERRORS_SAFE = {"surrogateescape", "ignore", "replace", "backslashreplace", "surrogatepass",
               "xmlcharrefreplace", "namereplace"}
BUILTIN_METHODS = set()
for _t in (str, bytes, list, dict, set, tuple, int, float):
    BUILTIN_METHODS.update(n for n in dir(_t) if not n.startswith("__"))
BUILTIN_METHODS |= {"match", "search", "close", "read", "write", "readlines", "put", "wait", "acquire",
                    "release", "reset", "qsize", "start", "terminate", "flush"}


class Item:
    """One exception that may leave a function."""
    __slots__ = ("exc", "site", "text")

    def __init__(self, exc, site, text):
        self.exc, self.site, self.text = exc, site, text

    def key(self):
        return (self.exc if isinstance(self.exc, str) else self.exc.qual, self.site)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    @property
    def name(self):
        return self.exc if isinstance(self.exc, str) else self.exc.name


class Flow:
    def __init__(self, p, ip, lib=None, methods=None, ignore=()):
        """ip: an Interp, for exception subtyping."""
        self.p, self.ip = p, ip
        self.lib = dict(LIB, **(lib or {}))
        self.methods = dict(METHODS, **(methods or {}))
        self.recursive = set()          # call edges inside a cycle of the call graph
        self.ignore = set(ignore)       # quals whose escapes are not looked at
        self.sets = {}                  # (fi, selfcls) -> set of items
        self.via = {}                   # ((fi, selfcls), item) -> (line, next key)
        self.deps = {}
        self.calls = 0
        self.unresolved = set()
        self._fields = None
        self._props = None
        self._bymeth = None
        self._ltypes = {}
        self._params = None
        self._rets = {}
        self._esc = {}
        self._busy = set()

    # ------------------------------------------------------------------ fixpoint
    def escapes(self, fi, selfcls=None):
        """Fixpoint; call cycles found in a first round may exhaust the stack in the second one."""
        self._solve(fi, selfcls)
        cyc = self.cycles()
        if cyc - self.recursive:
            self.recursive |= cyc
            self.sets, self.deps, self.via = {}, {}, {}
            self._solve(fi, selfcls)
        return self.sets[(fi, selfcls)]

    def cycles(self):
        """Call edges whose callee calls back to the caller."""
        succ = {}
        for callee, callers in self.deps.items():
            for c in callers:
                succ.setdefault(c, set()).add(callee)
        reach = {}

        def from_(k):
            if k not in reach:
                seen, todo = set(), list(succ.get(k, ()))
                while todo:
                    x = todo.pop()
                    if x not in seen:
                        seen.add(x)
                        todo.extend(succ.get(x, ()))
                reach[k] = seen
            return reach[k]
        return {(a, b) for a, bs in succ.items() for b in bs if a in from_(b) or a == b}

    def _solve(self, fi, selfcls=None):
        key = (fi, selfcls)
        if key not in self.sets:
            self.sets[key] = set()
            work = [key]
            while work:
                self._new = []
                k = work.pop()
                res = self._compute(k)
                work.extend(self._new)
                if res != self.sets[k]:
                    self.sets[k] = res
                    work.extend(d for d in self.deps.get(k, ()) if d not in work)
                for n in self._new:
                    pass
        return self.sets[key]

    def path(self, fi, selfcls, item):
        out, key, seen = [], (fi, selfcls), set()
        while key not in seen:
            seen.add(key)
            v = self.via.get((key, item))
            out.append(f"{key[0].module.rel}:{v[0] if v else key[0].node.lineno} {key[0].qual}")
            if v is None or v[1] is None:
                break
            key = v[1]
        return out

    def _get(self, caller, key):
        self.deps.setdefault(key, set()).add(caller)
        if key not in self.sets:
            self.sets[key] = set()
            self._new.append(key)
        return self.sets[key]

    def _compute(self, key):
        fi, selfcls = key
        body = fi.node.body if not isinstance(fi.node, ast.Lambda) else [ast.Expr(fi.node.body)]
        w = Walker(self, key)
        return w.block(body)

    # ------------------------------------------------------------------ program facts
    def fields(self):
        """attribute name -> [(value expression, function, class)] over all assignments."""
        if self._fields is None:
            self._fields, self._unpacked = {}, {}
            for fi in self.p.all_funcs():
                for n in ast.walk(fi.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            if isinstance(t, ast.Attribute):
                                self._fields.setdefault(t.attr, []).append((n.value, fi))
                            elif isinstance(t, (ast.Tuple, ast.List)):
                                for x in t.elts:
                                    if isinstance(x, ast.Attribute):
                                        self._unpacked.setdefault(x.attr, []).append((n.value, fi))
        return self._fields

    def props(self):
        if self._props is None:
            self._props = {}
            for ci in self.p.classes.values():
                for n, m in ci.methods.items():
                    if m.kind == "property":
                        self._props.setdefault(n, []).append((m, ci))
        return self._props

    def method_names(self):
        self.by_method("")
        return self._bymeth

    def by_method(self, name):
        if self._bymeth is None:
            self._bymeth = {}
            for ci in self.p.classes.values():
                for c in self.p.mro(ci):
                    if isinstance(c, ClassInfo):
                        for n, m in c.methods.items():
                            self._bymeth.setdefault(n, {})[ci] = self.p.find_method(ci, n)
        return self._bymeth.get(name, {})

    # ------------------------------------------------------------------ types
    # a type is ("inst", ClassInfo) | ("cls", ClassInfo) | ("file", mode) | ("ext", dotted) | "?"
    def types(self, e, fi, selfcls, depth=0):
        if depth > 8 or e is None:
            return {"?"}
        m = fi.module
        if isinstance(e, ast.Name):
            if e.id in ("self",) and fi.cls is not None and fi.kind in ("method", "property",
                                                                        "contextmanager"):
                return {("inst", selfcls or fi.cls)}
            if e.id in ("cls",) and fi.kind == "classmethod" and fi.cls is not None:
                return {("cls", selfcls or fi.cls)}
            loc = self.locals(fi)
            if e.id in loc:
                out = set()
                for v in loc[e.id]:
                    out |= {"?"} if v is None else self.types(v, fi, selfcls, depth + 1) \
                        if isinstance(v, ast.AST) else {v}
                if None in loc[e.id]:
                    out |= self.param_types(fi, e.id, depth)
                return out
            r = self.p.resolve_global(m, e.id)
            if r and r[0] == "class":
                return {("cls", r[1])}
            d = dotted(self.p, m, e)
            if d in self.p.funcs:
                return {("func", self.p.funcs[d])}
            if d is not None and d in self.lib:
                return {("lib", d)}
            if r and r[0] == "var":
                out = set()
                for v in r[1].assigns.get(r[2], ()):
                    d = dotted(self.p, r[1], v.func) if isinstance(v, ast.Call) else None
                    if d in self.p.classes:
                        out.add(("inst", self.p.classes[d]))
                    else:
                        out.add("?")
                return out
            return {"?"}
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "super":
                return {("super", fi.cls)}
            d = dotted(self.p, m, e.func)
            if d in ("builtins.open", "io.open", "os.fdopen"):
                return {("file", open_mode(e))}
            if d in self.p.classes:
                return {("inst", self.p.classes[d])}
            if d in self.p.funcs:
                return self.returns(self.p.funcs[d], None, depth)
            if d is not None:
                return {("ext", d)}
            out = set()
            for t in self.types(e.func, fi, selfcls, depth + 1):
                if t != "?" and t[0] == "cls":
                    out.add(("inst", t[1]))
            if isinstance(e.func, ast.Attribute):
                for f2, c2, _ in self.resolve(e, fi, selfcls, depth + 1):
                    out |= self.returns(f2, c2, depth)
            return out or {"?"}
        if isinstance(e, ast.IfExp):
            return self.types(e.body, fi, selfcls, depth + 1) | \
                self.types(e.orelse, fi, selfcls, depth + 1)
        if isinstance(e, ast.NamedExpr):
            return self.types(e.value, fi, selfcls, depth + 1)
        if isinstance(e, ast.Attribute):
            out = set()
            for v, f2 in self.fields().get(e.attr, ()):
                if isinstance(v, ast.Constant):
                    continue
                out |= self.types(v, f2, f2.cls, depth + 1)
            return out or {"?"}
        if isinstance(e, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp,
                          ast.Tuple, ast.Constant, ast.JoinedStr, ast.Compare)):
            return {("ext", "builtins.container")}
        return {"?"}

    def params(self):
        """(function, parameter) -> [(argument, function)] over the calls whose callee is a name."""
        if self._params is None:
            self._params = {}
            for fi in self.p.all_funcs():
                for n in ast.walk(fi.node):
                    if not isinstance(n, ast.Call):
                        continue
                    tgt = self.plain_callee(n, fi)
                    if tgt is None:
                        continue
                    a = tgt.node.args
                    names = [x.arg for x in a.posonlyargs + a.args]
                    if tgt.cls is not None and tgt.kind != "staticmethod":
                        names = names[1:]
                    for i, x in enumerate(n.args):
                        if isinstance(x, ast.Starred):
                            break
                        if i < len(names):
                            self._params.setdefault((tgt, names[i]), []).append((x, fi))
                    for k in n.keywords:
                        if k.arg:
                            self._params.setdefault((tgt, k.arg), []).append((k.value, fi))
        return self._params

    def plain_callee(self, n, fi):
        d = dotted(self.p, fi.module, n.func)
        if d in self.p.classes:
            return self.p.find_method(self.p.classes[d], "__init__")
        if d in self.p.funcs:
            return self.p.funcs[d]
        f = n.func
        if isinstance(f, ast.Attribute) and fi.cls is not None:
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and \
                    f.value.func.id == "super":
                return self.p.find_method(fi.cls, f.attr, after=fi.cls)
            if isinstance(f.value, ast.Name) and f.value.id == "self":
                return self.p.find_method(fi.cls, f.attr)
        if isinstance(f, ast.Attribute) and f.attr not in BUILTIN_METHODS:
            impls = set(self.by_method(f.attr).values())
            if len(impls) == 1:
                return impls.pop()
        return None

    def param_types(self, fi, name, depth):
        out = set()
        for x, f2 in self.params().get((fi, name), ()):
            if (fi, name) in self._busy or depth > 6:
                continue
            self._busy.add((fi, name))
            out |= {t for t in self.types(x, f2, f2.cls, depth + 1) if t != "?"}
            self._busy.discard((fi, name))
        return out

    def returns(self, fi, selfcls, depth):
        out = set()
        if fi.is_gen:
            return {("gen", fi)}
        if fi not in self._rets:
            self._rets[fi] = [n.value for n in ast.walk(fi.node)
                              if isinstance(n, ast.Return) and n.value is not None]
        for v in self._rets[fi]:
            out |= self.types(v, fi, selfcls or fi.cls, depth + 2)
        return out or {"?"}

    def locals(self, fi):
        if fi in self._ltypes:
            return self._ltypes[fi]
        out = {}
        a = fi.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            out.setdefault(x.arg, []).append(None)
        todo = list(ast.iter_child_nodes(fi.node))
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        out.setdefault(t.id, []).append(n.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                out.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.NamedExpr):
                out.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        out.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name):
                out.setdefault(n.optional_vars.id, []).append(n.context_expr)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    out.setdefault(x, []).append(None)
            todo.extend(ast.iter_child_nodes(n))
        # names declared global are not locals
        for n in ast.walk(fi.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    out.pop(x, None)
        self._ltypes[fi] = out
        return out

    # ------------------------------------------------------------------ callees
    def ctor(self, ci):
        f = self.p.find_method(ci, "__init__")
        return [(f, ci, False)] if f is not None else []

    def resolve(self, call, fi, selfcls, depth=0):
        """Project callees of a call: [(FuncInfo, class of the receiver, is constructor)]."""
        f = call.func
        m = fi.module
        if isinstance(f, ast.Name):
            loc = self.locals(fi)
            if f.id in loc or (f.id == "cls" and fi.kind == "classmethod"):
                out = []
                for t in self.types(f, fi, selfcls, depth + 1):
                    if t != "?" and t[0] == "cls":
                        out += self.ctor(t[1])
                    elif t != "?" and t[0] == "func":
                        out.append((t[1], None, False))
                # a local alias of a function
                for v in loc.get(f.id, ()):
                    if isinstance(v, (ast.Name, ast.Attribute)):
                        d = dotted(self.p, m, v)
                        if d in self.p.funcs:
                            out.append((self.p.funcs[d], None, False))
                return out
            d = dotted(self.p, m, f)
            nested = self.p.funcs.get(f"{fi.qual}.<locals>.{f.id}")
            if nested is not None:
                return [(nested, None, False)]
            if d in self.p.classes:
                return self.ctor(self.p.classes[d])
            if d in self.p.funcs:
                return [(self.p.funcs[d], None, False)]
            return []
        if isinstance(f, ast.Attribute):
            d = dotted(self.p, m, f, {k: None for k in self.locals(fi)})
            if d in self.p.classes:
                return self.ctor(self.p.classes[d])
            if d in self.p.funcs:
                ci = self.p.funcs[d].cls
                return [(self.p.funcs[d], ci, False)]
            if d is not None and ":" not in d:
                return []           # an external function
            out, unknown = [], False
            if f.attr not in self.method_names():
                # a function stored in an attribute
                for t in self.types(f, fi, selfcls, depth + 1):
                    if t != "?" and t[0] == "func":
                        out.append((t[1], None, False))
                    elif t != "?" and t[0] == "cls":
                        out += self.ctor(t[1])
                return out
            for t in self.types(f.value, fi, selfcls, depth + 1):
                if t == "?":
                    unknown = True
                elif t[0] in ("inst", "cls"):
                    x = self.p.find_method(t[1], f.attr)
                    if x is not None:
                        out.append((x, t[1], False))
                elif t[0] == "super":
                    x = self.p.find_method(selfcls or t[1], f.attr, after=t[1])
                    if x is not None:
                        out.append((x, selfcls or t[1], False))
            if unknown and not out and f.attr not in BUILTIN_METHODS:
                out = [(x, c, False) for c, x in self.by_method(f.attr).items()
                       if x is not None and accepts(x, call)]
            return out
        if isinstance(f, ast.Call):
            # getattr(x, f"...")()
            return []
        return []


def accepts(fi, call):
    """Can the (bound) function be called with these arguments?"""
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return True
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if fi.cls is not None and fi.kind != "staticmethod":
        names = names[1:]
    if len(call.args) > len(names) and a.vararg is None:
        return False
    given = set(names[:len(call.args)]) | {k.arg for k in call.keywords}
    if a.kwarg is None and not {k.arg for k in call.keywords} <= set(names) | {x.arg for x in a.kwonlyargs}:
        return False
    need = set(names[:len(names) - len(a.defaults)])
    need |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    return need <= given


def open_mode(call):
    mode = call.args[1] if len(call.args) > 1 else None
    errors = None
    for k in call.keywords:
        if k.arg == "mode":
            mode = k.value
        elif k.arg == "errors":
            errors = k.value
    if mode is not None and not isinstance(mode, ast.Constant):
        return "?"
    if mode is not None and "b" in mode.value:
        return "bin"
    if isinstance(errors, ast.Constant) and errors.value in ERRORS_SAFE:
        return "esc"
    return "text"


class Walker:
    """Escapes of one function body under its handlers."""

    def __init__(self, flow, key):
        self.f, self.key = flow, key
        self.fi, self.selfcls = key
        self.m = self.fi.module

    def block(self, stmts, caught=None):
        out = set()
        for s in stmts:
            out |= self.stmt(s, caught)
        return out

    def item(self, exc, node, text):
        it = Item(exc, f"{self.m.rel}:{getattr(node, 'lineno', 0)}", text)
        self.f.via.setdefault((self.key, it), (getattr(node, "lineno", 0), None))
        return it

    def stmt(self, s, caught):
        f = self.f
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return set()
        if isinstance(s, ast.Raise):
            out = self.expr(s.exc) if s.exc is not None else set()
            if s.exc is None:
                return out | (caught[1] if caught else set())
            e = s.exc
            if isinstance(e, ast.Name) and caught and e.id == caught[0]:
                return out | caught[1]
            c = self.exc_class(e)
            if c is None:
                f.unresolved.add((self.fi.qual, s.lineno, ast.unparse(e)[:60]))
                return out
            return out | {self.item(c, s, ast.unparse(s)[:80])}
        if isinstance(s, ast.Try):
            body = self.block(s.body, caught)
            out, rest = set(), body
            for h in s.handlers:
                types = self.handler_types(h)
                got = {i for i in rest if types is None or any(f.ip.issub_exc(i.exc, t)
                                                               for t in types)}
                # a handler of a subclass catches a part of what a broader item stands for
                part = set() if types is None else \
                    {i for i in rest - got if any(f.ip.issub_exc(t, i.exc) for t in types)}
                rest = rest - got
                out |= self.block(h.body, (h.name, got | {
                    Item(t, i.site, i.text) for i in part for t in types
                    if f.ip.issub_exc(t, i.exc)}))
            out |= rest
            out |= self.block(s.orelse, caught)
            out |= self.block(s.finalbody, caught)
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            out, sup = set(), []
            for w in s.items:
                c = w.context_expr
                if isinstance(c, ast.Call) and dotted(f.p, self.m, c.func) == "contextlib.suppress":
                    sup += [self.class_of(a) for a in c.args]
                else:
                    out |= self.expr(c)
            body = self.block(s.body, caught)
            if sup:
                body = {i for i in body if not any(t is not None and f.ip.issub_exc(i.exc, t)
                                                   for t in sup)}
            return out | body
        if isinstance(s, (ast.For, ast.AsyncFor)):
            return self.expr(s.iter) | self.consume(s.iter) | self.block(s.body, caught) | \
                self.block(s.orelse, caught)
        if isinstance(s, ast.While):
            return self.expr(s.test) | self.block(s.body, caught) | self.block(s.orelse, caught)
        if isinstance(s, ast.If):
            return self.expr(s.test) | self.block(s.body, caught) | self.block(s.orelse, caught)
        if isinstance(s, ast.Assert):
            return self.expr(s.test) | (self.expr(s.msg) if s.msg else set())
        if isinstance(s, ast.Match):
            out = self.expr(s.subject)
            for c in s.cases:
                out |= self.block(c.body, caught)
            return out
        out = set()
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                out |= self.expr(ch)
        return out

    # ------------------------------------------------------------------ exceptions
    def class_of(self, e):
        d = dotted(self.f.p, self.m, e)
        if d is None:
            return None
        if d in self.f.p.classes:
            return self.f.p.classes[d]
        if d.startswith("builtins."):
            return d[9:]
        return self.f.ip.EXC_ALIASES.get(d, d) if hasattr(self.f.ip, "EXC_ALIASES") else d

    def handler_types(self, h):
        """None: catches everything."""
        if h.type is None:
            return None
        es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in es:
            c = self.class_of(e)
            if isinstance(c, str) and ":" in c:
                # a module variable that holds a tuple of classes
                mod, _, name = c.partition(":")
                vals = self.f.p.modules[mod].assigns.get(name, ()) if mod in self.f.p.modules else ()
                if len(vals) == 1 and isinstance(vals[0], ast.Tuple):
                    out += [x for x in map(self.class_of, vals[0].elts) if x is not None]
                    continue
            if c is None:
                # imported inside a function (resolved like a module level import) or unknown
                c = ast.unparse(e)
            out.append(c)
        return out

    def exc_class(self, e):
        if isinstance(e, ast.Call):
            f = e.func
            c = self.class_of(f)
            if c is not None and (isinstance(c, ClassInfo) or c in self.f.p.classes):
                return c
            if isinstance(f, ast.Attribute):
                # alternative constructor: Class.from_x(...)
                b = self.class_of(f.value)
                if isinstance(b, ClassInfo):
                    return b
            if isinstance(f, ast.Name):
                for t in self.f.types(f, self.fi, self.selfcls):
                    if t != "?" and t[0] == "cls":
                        return t[1]
            if isinstance(c, str):
                return c if c not in self.f.p.funcs else None
            return None
        c = self.class_of(e)
        if isinstance(c, ClassInfo) or (isinstance(c, str) and ":" not in c):
            return c
        if isinstance(e, ast.Name):
            for t in self.f.types(e, self.fi, self.selfcls):
                if t != "?" and t[0] in ("inst", "cls"):
                    return t[1]
        return None

    # ------------------------------------------------------------------ expressions
    def expr(self, e):
        out = set()
        todo = [e]
        while todo:
            n = todo.pop()
            if n is None or isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Call):
                out |= self.call(n)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                out |= self.attribute(n)
            elif isinstance(n, ast.comprehension):
                out |= self.consume(n.iter)
            elif isinstance(n, ast.YieldFrom):
                out |= self.consume(n.value)
            elif isinstance(n, ast.Starred):
                out |= self.consume(n.value)
            todo.extend(ast.iter_child_nodes(n))
        return out

    def pull(self, key, node):
        out = set()
        if (self.key, key) in self.f.recursive and not self.structural(node):
            out.add(self.item("RecursionError", node, "recursion"))
        for i in self.f._get(self.key, key):
            self.f.via.setdefault((self.key, i), (node.lineno, key))
            out.add(i)
        return out

    def structural(self, node):
        """A self call on an element of the own argument: as deep as the structure is nested, which
        was itself built by a recursion."""
        if isinstance(node, ast.Name):
            values = self.f.locals(self.fi).get(node.id, ())
            return bool(values) and all(isinstance(v, ast.Call) and self.structural(v) for v in values)
        if not isinstance(node, ast.Call):
            return False
        args = {x.id for x in node.args if isinstance(x, ast.Name)}
        for n in ast.walk(self.fi.node):
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name) and \
                    n.target.id in args and isinstance(n.iter, ast.Name):
                a = self.fi.node.args
                if n.iter.id in [x.arg for x in a.posonlyargs + a.args]:
                    return True
        return False

    def consume(self, e):
        """Iterating over the value of an expression."""
        out = set()
        for t in self.f.types(e, self.fi, self.selfcls):
            if t == "?":
                continue
            if t[0] == "file" and t[1] in ("text", "bin", "esc"):
                out.add(self.item("OSError", e, "reading a file"))
                if t[1] == "text":
                    out.add(self.item("UnicodeDecodeError", e, "decoding a file"))
            elif t[0] == "gen":
                out |= self.pull((t[1], t[1].cls if t[1].cls else None), e)
            elif t[0] == "inst":
                x = self.f.p.find_method(t[1], "__iter__")
                if x is not None:
                    out |= self.pull((x, t[1]), e)
        return out

    def attribute(self, n):
        props = self.f.props().get(n.attr)
        if not props or dotted(self.f.p, self.m, n, {k: None for k in self.f.locals(self.fi)}):
            return set()
        out, unknown = set(), False
        for t in self.f.types(n.value, self.fi, self.selfcls):
            if t == "?":
                unknown = True
            elif t[0] == "inst":
                x = self.f.p.find_method(t[1], n.attr)
                if x is not None and x.kind == "property":
                    out |= self.pull((x, t[1]), n)
        if unknown and not out and n.attr not in self.f.fields():
            for x, c in props:
                out |= self.pull((x, c), n)
        return out

    def call(self, n):
        f = self.f
        f.calls += 1
        out = set()
        callees = f.resolve(n, self.fi, self.selfcls)
        if len(n.args) + len(n.keywords) > 1 and all(
                self.static(x) for x in list(n.args) + [k.value for k in n.keywords]):
            callees_used = []       # does not depend on input
        elif isinstance(n.func, ast.Attribute) and n.func.attr not in f.method_names() and \
                n.args and not n.keywords and all(self.constant_field(x) for x in n.args):
            callees_used = []       # a stored function applied to a configured constant
        else:
            callees_used = callees
        for x, c, _ in callees_used:
            if x.qual in f.ignore:
                continue
            if x.is_gen and not self.consumed(n):
                # the body of a generator runs where it is iterated
                continue
            out |= self.pull((x, c), n)
        loc = {k: None for k in f.locals(self.fi)}
        d = dotted(f.p, self.m, n.func, loc)
        if d is None and isinstance(n.func, ast.Name):
            for v in f.locals(self.fi).get(n.func.id, ()):
                if isinstance(v, (ast.Name, ast.Attribute)):
                    d = dotted(f.p, self.m, v)
        if d is not None:
            cwd = "cwd" if d.startswith("subprocess.") and any(k.arg == "cwd" for k in n.keywords) else ""
            for x in self.libset(d, n):
                out.add(self.item(x, n, f"{d}({cwd})"))
            if d == "builtins.next" and len(n.args) == 1:
                # inside of a generator it turns into a RuntimeError
                out.add(self.item("RuntimeError" if self.fi.is_gen else "StopIteration", n, "next()"))
            if d.startswith("builtins.") and d[9:] in CONSUMERS:
                for a in n.args:
                    out |= self.consume(a)
        if isinstance(n.func, ast.Attribute) and (d is None or d not in f.lib) and not callees:
            name = n.func.attr
            ts = f.types(n.func.value, self.fi, self.selfcls)
            files = [t for t in ts if t != "?" and t[0] == "file"]
            if name in FILE_READ and files:
                out.add(self.item("OSError", n, "reading a file"))
                if any(t[1] == "text" for t in files):
                    out.add(self.item("UnicodeDecodeError", n, "decoding a file"))
            elif name == "decode":
                err = n.args[1] if len(n.args) > 1 else next(
                    (k.value for k in n.keywords if k.arg == "errors"), None)
                v = n.func.value
                same = isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                    v.func.attr == "encode" and ast.dump(v.args[0] if v.args else v) == \
                    ast.dump(n.args[0] if n.args else v)
                if not same and not (isinstance(err, ast.Constant) and err.value in ERRORS_SAFE):
                    out.add(self.item("UnicodeDecodeError", n, ast.unparse(n)[:60]))
            elif name == "encode" and ts <= {"?"}:
                err = n.args[1] if len(n.args) > 1 else next(
                    (k.value for k in n.keywords if k.arg == "errors"), None)
                if not self.errors_safe(err) and not isinstance(n.func.value, ast.Constant):
                    out.add(self.item("UnicodeEncodeError", n, ast.unparse(n)[:60]))
            elif name in f.methods and all(t == "?" or t[0] == "ext" for t in ts):
                for x in f.methods[name]:
                    out.add(self.item(x, n, f".{name}()"))
        return out

    def consumed(self, call):
        """Is the generator returned by this call iterated right here?"""
        par = self.f.p.parent_map(self.m).get(call)
        if isinstance(par, (ast.For, ast.comprehension, ast.YieldFrom, ast.Starred)):
            return True
        if isinstance(par, ast.Call) and call in par.args:
            d = dotted(self.f.p, self.m, par.func)
            if d is not None and d.startswith("builtins.") and d[9:] in CONSUMERS:
                return True
            return isinstance(par.func, ast.Attribute) and par.func.attr in (
                "join", "extend", "update")
        if isinstance(par, (ast.Assign, ast.NamedExpr, ast.Return, ast.Expr)):
            # assigned generators are seen by consume(); returned ones by the caller
            return False
        return True

    def libset(self, d, n):
        ex = self.f.lib.get(d)
        if not ex:
            return ()
        if d in ("builtins.int", "builtins.float"):
            if not n.args or self.numeric(n.args[0]):
                return ()
        if d == "re.compile":
            if n.args and const_text(n.args[0]):
                return ()
            if n.args:
                if n not in self.f._esc:
                    self.f._esc[n] = self.escaped(n.args[0])
                if not self.f._esc[n]:
                    return ex
                return tuple(x for x in ex if x == "re.error")
        if d.startswith("subprocess."):
            kw = {k.arg: k.value for k in n.keywords}

            def on(name):
                v = kw.get(name)
                return v is not None and not (isinstance(v, ast.Constant) and not v.value)
            if d in ("subprocess.check_output", "subprocess.check_call") or on("check"):
                ex += ("subprocess.CalledProcessError",)
            if on("timeout"):
                ex += ("subprocess.TimeoutExpired",)
            if d in ("subprocess.run", "subprocess.check_output") and \
                    (on("text") or on("universal_newlines") or on("encoding")) and \
                    not self.errors_safe(kw.get("errors")) and \
                    (d == "subprocess.check_output" or on("capture_output") or on("stdout")):
                ex += ("UnicodeDecodeError",)
        return ex

    @staticmethod
    def errors_safe(e):
        return isinstance(e, ast.Constant) and e.value in ERRORS_SAFE

    def static(self, e):
        """An expression that does not depend on locals or parameters."""
        loc = self.f.locals(self.fi)
        return not any(isinstance(x, (ast.Call, ast.Await, ast.Yield)) or
                       isinstance(x, ast.Name) and (x.id in loc or x.id in ("self", "cls"))
                       for x in ast.walk(e)
                       if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
                               x.func.attr == "join") and
                       not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
                            x.func.id == "sorted"))

    def constant_field(self, e):
        """An attribute that only ever holds constants of the program."""
        if not isinstance(e, ast.Attribute):
            return False
        vals = self.f.fields().get(e.attr, ())
        if not vals:
            return False
        for v, g in vals:
            if isinstance(v, ast.Constant):
                continue
            if not isinstance(v, ast.Name):
                return False
            args = self.f.params().get((g, v.id))
            if not args:
                return False
            for x, g2 in args:
                todo = [(x, g2)]
                seen = set()
                while todo:
                    y, h = todo.pop()
                    if (y, h) in seen:
                        continue
                    seen.add((y, h))
                    if isinstance(y, ast.Name) and (h, y.id) in self.f.params():
                        todo += self.f.params()[(h, y.id)]
                        continue
                    try:
                        ast.literal_eval(y)
                    except ValueError:
                        return False
        return True

    def escaped(self, e, depth=0, fi=None):
        """A pattern text made by code that escapes the literal parts."""
        f, fi = self.f, fi or self.fi
        if depth > 4:
            return False
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                if dotted(f.p, fi.module, x.func) == "re.escape":
                    return True
                for g, _, _ in f.resolve(x, fi, self.selfcls):
                    if any(isinstance(y, ast.Call) and dotted(f.p, g.module, y.func) == "re.escape"
                           for y in ast.walk(g.node)):
                        return True
            elif isinstance(x, ast.Attribute):
                f.fields()
                for v, g in f.fields().get(x.attr, []) + f._unpacked.get(x.attr, []):
                    if v is not e and self.escaped(v, depth + 1, g):
                        return True
            elif isinstance(x, ast.Name):
                for v in f.locals(fi).get(x.id, ()):
                    if isinstance(v, ast.AST) and v is not e and self.escaped(v, depth + 1, fi):
                        return True
        return False

    def numeric(self, e, depth=0):
        if isinstance(e, ast.Constant):
            return True
        if isinstance(e, ast.BinOp):
            return not isinstance(e.op, ast.Mod) and (self.numeric(e.left, depth) or
                                                      self.numeric(e.right, depth))
        if isinstance(e, ast.UnaryOp):
            return self.numeric(e.operand, depth)
        if isinstance(e, ast.Call):
            d = dotted(self.f.p, self.m, e.func)
            if d in ("builtins.len", "builtins.round", "builtins.abs", "builtins.sum",
                     "builtins.float", "builtins.int", "time.time", "builtins.max", "builtins.min"):
                return True
            return isinstance(e.func, ast.Attribute) and e.func.attr in (
                "timestamp", "start", "end", "total_seconds", "count", "find", "index")
        if isinstance(e, ast.Attribute):
            return e.attr.startswith("st_")
        if isinstance(e, ast.Name) and depth < 4:
            for x in ast.walk(self.fi.node):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and \
                        x.target.id == e.id and isinstance(x.op, (ast.Div, ast.FloorDiv, ast.Sub, ast.Pow)):
                    return True     # only numbers support this operation
            vs = self.f.locals(self.fi).get(e.id)
            return bool(vs) and all(isinstance(v, ast.expr) and self.numeric(v, depth + 1) for v in vs)
        return False


def const_text(e):
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.BinOp):
        return const_text(e.left) and const_text(e.right)
    return False
