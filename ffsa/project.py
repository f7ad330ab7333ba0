"""Source model of the analysed repository: modules, imports, classes, functions.

Everything here is computed from the text of /repo on every run with the stdlib `ast` module; no code
of the repository is imported or executed.
"""
import ast
import hashlib
import os
import symtable  # noqa: F401  (kept for parity with older pythons)


class Anchor(Exception):
    """A named construct the analysis starts from has vanished: analysis broken, not a verdict."""


class FuncInfo:
    __slots__ = ("name", "qual", "node", "module", "cls", "is_gen", "kind", "outer")

    def __init__(self, name, qual, node, module, cls, outer=None):
        self.name, self.qual, self.node, self.module, self.cls = name, qual, node, module, cls
        self.outer = outer
        self.is_gen = is_generator(node)
        self.kind = "function"
        for dec in getattr(node, "decorator_list", []):
            d = dec.func if isinstance(dec, ast.Call) else dec
            dn = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ""
            if dn == "property" or dn == "cached_property":
                self.kind = "property"
            elif dn == "staticmethod":
                self.kind = "staticmethod"
            elif dn == "classmethod":
                self.kind = "classmethod"
            elif dn == "contextmanager":
                self.kind = "contextmanager"
        if cls is not None and self.kind == "function":
            self.kind = "method"

    def __repr__(self):
        return f"<func {self.qual}>"

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, name, qual, node, module):
        self.name, self.qual, self.node, self.module = name, qual, node, module
        self.methods = {}      # name -> FuncInfo
        self.attrs = {}        # name -> value expression (class level assignment)
        self.base_exprs = node.bases if node is not None else []
        self.nt_fields = None  # field names for namedtuples
        self.guarded = {}      # name -> "debug"/"nodebug" for members defined under __debug__
        self._mro = None

    def __repr__(self):
        return f"<class {self.qual}>"

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"


class Module:
    def __init__(self, name, rel, tree, source):
        self.name, self.rel, self.tree, self.source = name, rel, tree, source
        self.imports = {}      # local name -> ("mod", modname) | ("from", modname, name)
        self.star = []         # star imported module names
        self.functions = {}
        self.classes = {}
        self.assigns = {}      # name -> list of value expressions
        self.all = None
        self.is_pkg = rel.endswith("__init__.py")

    def __repr__(self):
        return f"<module {self.name}>"


SOURCE_DIRS = ("libff", "libff/builtin", "ff", "plugins")


class Project:
    def __init__(self, root="/repo"):
        self.root = root
        self.modules = {}
        self.by_rel = {}
        self.funcs = {}
        self.classes = {}
        self.files = []
        digest = hashlib.sha256()
        for d in SOURCE_DIRS:
            full = os.path.join(root, d)
            if not os.path.isdir(full):
                raise Anchor(f"source directory {d} is missing")
            for fn in sorted(os.listdir(full)):
                if fn.endswith(".py"):
                    self._load(os.path.join(d, fn), digest)
        for extra in ("bin/ff",):
            if os.path.exists(os.path.join(root, extra)):
                self._load(extra, digest)
        self.digest = digest.hexdigest()
        for m in self.modules.values():
            self._index(m)
        self._subclasses = None
        self.parents = {}

    # ------------------------------------------------------------------ loading
    def _load(self, rel, digest):
        path = os.path.join(self.root, rel)
        with open(path, "rb") as f:
            raw = f.read()
        digest.update(rel.encode() + b"\0" + raw + b"\0")
        src = raw.decode("utf-8")
        tree = ast.parse(src, filename=rel)
        if rel.endswith("__init__.py"):
            name = os.path.dirname(rel).replace("/", ".")
        elif rel == "bin/ff":
            name = "bin.ff"
        else:
            name = rel[:-3].replace("/", ".")
        m = Module(name, rel, tree, src)
        self.modules[name] = m
        self.by_rel[rel] = m
        self.files.append(rel)

    def _abs(self, m, level, modname):
        if level == 0:
            return modname or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:len(parts) - (level - 1)]
        if modname:
            parts = parts + modname.split(".")
        return ".".join(parts)

    def _index(self, m):
        # imports anywhere in the module (function-level imports are treated as module-level names)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.imports[a.asname] = ("mod", a.name)
                    else:
                        m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = self._abs(m, n.level, n.module)
                for a in n.names:
                    if a.name == "*":
                        m.star.append(base)
                    else:
                        m.imports[a.asname or a.name] = ("from", base, a.name)
        self._index_body(m, m.tree.body, None, m.name + ":", None)

    def _index_body(self, m, body, cls, prefix, guard):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(n.name, prefix + n.name, n, m, cls)
                if cls is None:
                    m.functions[n.name] = fi
                else:
                    cls.methods[n.name] = fi
                    if guard:
                        cls.guarded[n.name] = guard
                self.funcs[fi.qual] = fi
                self._nested(m, n, fi)
            elif isinstance(n, ast.ClassDef):
                ci = ClassInfo(n.name, prefix + n.name, n, m)
                if cls is None:
                    m.classes[n.name] = ci
                self.classes[ci.qual] = ci
                self._index_body(m, n.body, ci, ci.qual + ".", None)
            elif isinstance(n, ast.If):
                t = n.test
                g = guard
                if isinstance(t, ast.Name) and t.id == "__debug__":
                    g = "debug"
                self._index_body(m, n.body, cls, prefix, g)
                self._index_body(m, n.orelse, cls, prefix, guard)
            elif isinstance(n, (ast.Try,)):
                self._index_body(m, n.body, cls, prefix, guard)
                for h in n.handlers:
                    self._index_body(m, h.body, cls, prefix, guard)
                self._index_body(m, n.orelse, cls, prefix, guard)
                self._index_body(m, n.finalbody, cls, prefix, guard)
            elif isinstance(n, ast.With):
                self._index_body(m, n.body, cls, prefix, guard)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                targets = n.targets if isinstance(n, ast.Assign) else [n.target]
                if n.value is None:
                    continue
                for t in targets:
                    if isinstance(t, ast.Name):
                        dest = m.assigns if cls is None else cls.attrs
                        if cls is None:
                            dest.setdefault(t.id, []).append(n.value)
                            nt = self._namedtuple(n.value)
                            if nt:
                                ci = ClassInfo(t.id, prefix + t.id,
                                               ast.ClassDef(name=t.id, bases=[], keywords=[],
                                                            body=[], decorator_list=[],
                                                            lineno=n.lineno,
                                                            col_offset=n.col_offset), m)
                                ci.nt_fields = nt
                                m.classes[t.id] = ci
                                self.classes[ci.qual] = ci
                            if t.id == "__all__":
                                try:
                                    m.all = list(ast.literal_eval(n.value))
                                except ValueError:
                                    pass
                        else:
                            dest[t.id] = n.value

    def _nested(self, m, fn, fi):
        """Index functions nested in functions (closures)."""
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = fi.qual + ".<locals>." + n.name
                if q not in self.funcs:
                    sub = FuncInfo(n.name, q, n, m, None, outer=fi)
                    self.funcs[q] = sub

    @staticmethod
    def _namedtuple(v):
        if isinstance(v, ast.Call):
            f = v.func
            fname = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if fname == "namedtuple" and len(v.args) >= 2:
                try:
                    fields = ast.literal_eval(v.args[1])
                except ValueError:
                    return None
                if isinstance(fields, str):
                    fields = fields.replace(",", " ").split()
                return tuple(fields)
        return None

    # ------------------------------------------------------------------ lookup
    def module(self, name):
        try:
            return self.modules[name]
        except KeyError:
            raise Anchor(f"module {name} is missing") from None

    def cls(self, qual):
        """Find a class by 'module:Class' or unique simple name."""
        if qual in self.classes:
            return self.classes[qual]
        name = qual.split(":")[-1]
        c = [c for c in self.classes.values() if c.name == name]
        if len(c) == 1:
            return c[0]
        if ":" in qual:
            mod = qual.split(":")[0]
            r = self.resolve_global(self.modules.get(mod), name) if mod in self.modules else None
            if r and r[0] == "class":
                return r[1]
        raise Anchor(f"class {qual} is missing")

    def func(self, qual):
        if qual in self.funcs:
            return self.funcs[qual]
        mod, _, rest = qual.partition(":")
        if "." in rest:
            cname, _, meth = rest.rpartition(".")
            ci = self.cls(f"{mod}:{cname}")
            fi = self.find_method(ci, meth)
            if fi is not None:
                return fi
        else:
            m = self.modules.get(mod)
            if m is not None:
                r = self.resolve_global(m, rest)
                if r and r[0] == "func":
                    return r[1]
        raise Anchor(f"function {qual} is missing")

    def resolve_global(self, m, name, _seen=None):
        """Resolve a module-level name to ("func",fi) / ("class",ci) / ("mod",name) /
        ("ext",dotted) / ("var",module,name) / None."""
        if m is None:
            return None
        seen = _seen or set()
        if (m.name, name) in seen:
            return None
        seen = seen | {(m.name, name)}
        if name in m.functions:
            return ("func", m.functions[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.assigns:
            return ("var", m, name)
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == "mod":
                return ("mod", imp[1])
            base, sub = imp[1], imp[2]
            if base in self.modules:
                r = self.resolve_global(self.modules[base], sub, seen)
                if r is not None:
                    return r
            if f"{base}.{sub}" in self.modules:
                return ("mod", f"{base}.{sub}")
            return ("ext", f"{base}.{sub}")
        for base in m.star:
            if base in self.modules:
                bm = self.modules[base]
                if bm.all is not None and name not in bm.all:
                    continue
                r = self.resolve_global(bm, name, seen)
                if r is not None:
                    return r
        return None

    def bases(self, ci):
        out = []
        for b in ci.base_exprs:
            r = self.resolve_expr_class(ci.module, b)
            if r is not None:
                out.append(r)
        return out

    def resolve_expr_class(self, m, e):
        """ClassInfo for a base expression, or a string for an external class."""
        if isinstance(e, ast.Name):
            r = self.resolve_global(m, e.id)
            if r is None:
                return e.id
            if r[0] == "class":
                return r[1]
            if r[0] == "ext":
                return r[1]
            if r[0] == "var":
                return e.id
            return e.id
        if isinstance(e, ast.Attribute):
            return ast.unparse(e)
        if isinstance(e, ast.Call):
            nt = self._namedtuple(e)
            if nt:
                ci = ClassInfo("_nt", m.name + ":_nt", ast.ClassDef(
                    name="_nt", bases=[], keywords=[], body=[], decorator_list=[],
                    lineno=e.lineno, col_offset=0), m)
                ci.nt_fields = nt
                return ci
            return ast.unparse(e)
        return None

    def mro(self, ci):
        """C3 linearisation over project classes (external bases appear as strings at the end)."""
        if ci._mro is not None:
            return ci._mro
        bases = self.bases(ci)
        seqs = []
        for b in bases:
            seqs.append(list(self.mro(b)) if isinstance(b, ClassInfo) else [b])
        seqs.append(list(bases))
        out = [ci]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            out.append(cand)
            seqs = [[x for x in s if x is not cand and x != cand] for s in seqs]
            seqs = [s for s in seqs if s]
        ci._mro = out
        return out

    def nt_fields(self, ci):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo) and c.nt_fields:
                return c.nt_fields
        return None

    def find_method(self, ci, name, after=None, debug=True):
        skip = after is not None
        for c in self.mro(ci):
            if skip:
                if c is after:
                    skip = False
                continue
            if isinstance(c, ClassInfo) and name in c.methods:
                if c.guarded.get(name) == "debug" and not debug:
                    continue
                return c.methods[name]
        return None

    def find_attr(self, ci, name):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c, c.attrs[name]
        return None

    def issub(self, ci, other):
        """other: ClassInfo or external name."""
        return any(c is other or c == other for c in self.mro(ci))

    def subclasses(self, ci, strict=False):
        out = []
        for c in self.classes.values():
            if c is ci and strict:
                continue
            if self.issub(c, ci):
                out.append(c)
        return out

    def parent_map(self, m):
        if m.name not in self.parents:
            pm = {}
            for n in ast.walk(m.tree):
                for ch in ast.iter_child_nodes(n):
                    pm[ch] = n
            self.parents[m.name] = pm
        return self.parents[m.name]

    def all_funcs(self):
        return list(self.funcs.values())
