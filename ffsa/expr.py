"""Expression and call semantics of the abstract interpreter (mixin)."""
import ast
import builtins
import re
import string

from .project import ClassInfo, FuncInfo
from .values import (C, DictObj, Exc, Fn, InstObj, ListObj, Mod, Raised, Ref, Size, Splice, T, Tup)
from . import engine as E

NONE, TRUE, FALSE = C(None), C(True), C(False)

BINOPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%",
          "Pow": "**", "BitOr": "|", "BitAnd": "&", "BitXor": "^", "LShift": "<<", "RShift": ">>",
          "MatMult": "@"}
PYOPS = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
    "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b,
    "**": lambda a, b: a ** b if abs(b) < 64 else 1 / 0, "|": lambda a, b: a | b,
    "&": lambda a, b: a & b, "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b if b < 64 else 1 / 0,
    ">>": lambda a, b: a >> b,
}
OPERATOR_FUNCS = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=",
                  "contains": "contains", "and_": "&", "or_": "|", "add": "+", "sub": "-",
                  "not_": "not", "truth": "bool", "is_": "is", "is_not": "is not", "xor": "^",
                  "mul": "*"}
STR_METHODS = {m for m in dir(str) if not m.startswith("_")}
LIST_METHODS = {"append", "extend", "insert", "pop", "remove", "clear", "copy", "sort", "reverse",
                "index", "count", "add", "discard", "update", "popleft", "appendleft",
                "extendleft", "union", "difference", "intersection", "issubset", "issuperset",
                "isdisjoint", "symmetric_difference", "difference_update"}
DICT_METHODS = {"get", "setdefault", "items", "keys", "values", "pop", "update", "copy", "clear",
                "most_common", "elements", "popitem"}


class ExprMixin:
    # ------------------------------------------------------------------ dispatch
    def ev(self, e, st):
        """Evaluate an expression: list of (state, value or Raised)."""
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise E.Undecided(f"expression {type(e).__name__} at line {getattr(e, 'lineno', 0)}")
        self.steps += 1
        return m(e, st)

    def ev_seq(self, exprs, st):
        """Evaluate expressions left to right: list of (state, [values]) or (state, Raised)."""
        out = [(st, [])]
        for e in exprs:
            nxt = []
            for x, acc in out:
                if isinstance(acc, Raised):
                    nxt.append((x, acc))
                    continue
                if isinstance(e, ast.Starred):
                    for y, v in self.ev(e.value, x):
                        if isinstance(v, Raised):
                            nxt.append((y, v))
                            continue
                        nxt.append((y, acc + [("*", v)]))
                    continue
                for y, v in self.ev(e, x):
                    nxt.append((y, v if isinstance(v, Raised) else acc + [v]))
            out = nxt
        return out

    def expand_stars(self, vals, st):
        """Replace ("*", value) markers by elements; opaque iterables become Splice items."""
        out = []
        for v in vals:
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "*":
                v = self.resolve(v[1], st)
                if isinstance(v, Tup):
                    out.extend(v.items)
                elif isinstance(v, Ref) and isinstance(st.heap[v.id], ListObj):
                    out.extend(st.heap[v.id].items)
                elif isinstance(v, Ref) and isinstance(st.heap[v.id], DictObj):
                    out.extend(k for k, _ in st.heap[v.id].items)
                elif isinstance(v, C) and isinstance(v.v, (str, bytes)):
                    out.extend(C(x) for x in v.v)
                else:
                    out.append(Splice(v))
            else:
                out.append(v)
        return out

    # ------------------------------------------------------------------ atoms
    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return [(st, C("..."))]
        return [(st, C(e.value))]

    def e_Name(self, e, st):
        n = e.id
        if n == "__debug__":
            return [(st, C(self.debug))]
        # lexical frames: the current one, then closures
        fid = st.fid
        while fid is not None:
            fr = st.frames[fid]
            if n in fr:
                return [(st, self.resolve(fr[n], st))]
            fid = fr.get("<parent>")
        return self.global_name(n, st.fn.module if st.fn else None, st, e)

    def global_name(self, n, module, st, node=None):
        if module is not None:
            r = self.p.resolve_global(module, n)
            if r is not None:
                if r[0] == "func":
                    return [(st, Fn("func", r[1]))]
                if r[0] == "class":
                    return [(st, Fn("class", r[1]))]
                if r[0] == "mod":
                    return [(st, Mod(r[1]))]
                if r[0] == "ext":
                    return [(st, Fn("ext", r[1]))]
                if r[0] == "var":
                    return self.module_var(r[1], r[2], st)
        if n in ("__name__", "__file__", "__doc__"):
            return [(st, T("var", module.name if module else "?", n))]
        if hasattr(builtins, n):
            return [(st, Fn("builtin", n))]
        # a name bound by "global x; import x" in a plugin's setup()
        return [(st, T("global", module.name if module else "?", n))]

    def module_var(self, m, name, st):
        ov = st.fields.get((("modvar", m.name), name))
        if ov is not None:
            return [(st, ov)]
        vals = m.assigns.get(name, [])
        term = T("var", m.name, name)
        if len(vals) != 1:
            return [(st, term)]
        v = vals[0]
        if isinstance(v, ast.Dict) and len(v.keys) > 40:
            return [(st, term)]
        return self.const_expr(v, m, st, term, (("modvar", m.name), name))

    def const_expr(self, e, module, st, fallback, memo=None, cls=None):
        """Evaluate a module- or class-level expression in its own scope."""
        if self.shared and fallback.op == "clsattr" and (
                isinstance(e, (ast.Dict, ast.List)) and not (e.keys if isinstance(e, ast.Dict) else e.elts)
                or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.args
                and not e.keywords and e.func.id in ("dict", "set", "list")):
            return [(st, fallback)]             # shared by all instances: filled by earlier uses
        fi = FuncInfo(f"<{module.name}>", f"{module.name}:<module>",
                      ast.Lambda(args=None, body=e), module, cls)
        fid = ("m", module.name, st.nid)
        x = st.fork()
        x.nid += 1
        scope = {}
        if cls is not None:
            for c in self.p.mro(cls):
                if isinstance(c, ClassInfo):
                    for k in c.attrs:
                        scope.setdefault(k, T("clsattr", c.qual, k))
        x.frames = {**st.frames, fid: {"<clsscope>": cls} if cls is not None else {}}
        x.stack = st.stack + ((fi, fid),)
        raises, self.raises = self.raises, None
        try:
            res = self.ev(e, x)
        except E.Undecided:
            return [(st, fallback)]
        finally:
            self.raises = raises
        if len(res) != 1 or isinstance(res[0][1], Raised):
            return [(st, fallback)]
        y, v = res[0]
        y = y.fork()
        y.stack = st.stack
        y.trace = st.trace
        if isinstance(v, T) and v.op in ("call", "newext", "pure") and v != fallback:
            # created once at import time: identity is the variable
            if v.op == "newext":
                self.types.setdefault(fallback, v.args[0])
            elif v.op in ("call", "pure") and isinstance(v.args[0], str) and \
                    v.args[0] == "re.compile":
                self.types.setdefault(fallback, "re.Pattern")
            v = fallback
        if isinstance(v, Ref) and isinstance(y.heap[v.id], ListObj) and \
                y.heap[v.id].kind in ("set", "frozenset"):
            v = Tup(y.heap[v.id].items, kind="frozenset")
        if memo is not None and isinstance(v, Ref):
            y = y.setfield(memo[0], memo[1], v)
        return [(y, v)]

    def e_Attribute(self, e, st):
        out = []
        for x, b in self.ev(e.value, st):
            if isinstance(b, Raised):
                out.append((x, b))
            else:
                out.extend(self.getattr_(b, e.attr, x, e))
        return out

    def getattr_(self, b, name, st, node=None):
        b = self.resolve(b, st)
        h = self.hooks.get("@" + name)
        if h is not None:
            res = h(self, st, b, node)
            if res is not None:
                return res
        f = st.fields.get((b, name))
        if f is not None:
            return [(st, self.resolve(f, st))]
        if name == "__class__":
            ci = self.typ(b, st)
            return [(st, Fn("class", ci) if isinstance(ci, ClassInfo) else T("attr", b, name))]
        if isinstance(b, Mod):
            return self.mod_attr(b, name, st)
        if isinstance(b, Fn):
            return self.fn_attr(b, name, st, node)
        if isinstance(b, Tup) and b.cls is not None:
            fields = self.p.nt_fields(b.cls) or ()
            if name in fields and fields.index(name) < len(b.items):
                return [(st, b.items[fields.index(name)])]
            m = self.p.find_method(b.cls, name, debug=self.debug)
            if m is not None:
                return self.bind(m, b, b.cls, st, node)
            a = self.p.find_attr(b.cls, name)
            if a is not None:
                return self.const_expr(a[1], a[0].module, st, T("clsattr", a[0].qual, name), cls=a[0])
            return [(st, Fn("method", name, recv=b))]
        if isinstance(b, C):
            if isinstance(b.v, (re.Pattern, re.Match)) and not callable(getattr(b.v, name, len)):
                return [(st, C(getattr(b.v, name)))]
            return [(st, Fn("method", name, recv=b))]
        if isinstance(b, Exc):
            return self.exc_attr(b, name, st)
        ci = self.typ(b, st)
        if isinstance(ci, ClassInfo):
            return self.inst_attr(b, ci, name, st, node)
        if isinstance(b, Ref):
            o = st.heap[b.id]
            if isinstance(o, (ListObj, DictObj)):
                return [(st, Fn("method", name, recv=b))]
        if b == self.ARGS:
            t = T("attr", b, name)
            return self.split_domain(t, st)
        if isinstance(b, T) and b.op == "global":
            return [(st, Fn("ext", f"{b.args[1]}.{name}"))]
        if isinstance(b, T) and isinstance(ci, str) and ci.startswith("module:"):
            return [(st, Fn("ext", f"{ci[7:]}.{name}"))]
        t = T("attr", b, name)
        return self.split_domain(t, st)

    def split_domain(self, t, st):
        r = self.resolve(t, st)
        if r is not t:
            return [(st, r)]
        dom = self.domains.get(t)
        if dom is None:
            return [(st, t)]
        out = []
        for d in dom:
            if isinstance(d, C):
                x = st.fact(("val", t), d)
                if isinstance(d.v, (bool, type(None), str, int)):
                    x = x.fact(("truth", t), bool(d.v))
                out.append((x, d))
            else:
                out.append((st.fact(("val", t), d), d))
        return out

    def exc_attr(self, b, name, st):
        if name == "args":
            return [(st, Tup(b.args))]
        if isinstance(b.cls, ClassInfo):
            init = self.p.find_method(b.cls, "__init__")
            if init is not None:
                params = [a.arg for a in init.node.args.args][1:]
                for n in ast.walk(init.node):
                    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and \
                            n.targets[0].attr == name and isinstance(n.value, ast.Name) and \
                            n.value.id in params:
                        i = params.index(n.value.id)
                        if i < len(b.args):
                            return [(st, b.args[i])]
                        d = init.node.args.defaults
                        j = i - (len(params) - len(d))
                        if 0 <= j < len(d) and isinstance(d[j], ast.Constant):
                            return [(st, C(d[j].value))]
            a = self.p.find_attr(b.cls, name)
            if a is not None:
                return self.const_expr(a[1], a[0].module, st, T("clsattr", a[0].qual, name))
            m = self.p.find_method(b.cls, name)
            if m is not None:
                return self.bind(m, b, b.cls, st, None)
        return [(st, T("attr", b, name))]

    def mod_attr(self, b, name, st):
        if b.name in self.p.modules:
            m = self.p.modules[b.name]
            r = self.p.resolve_global(m, name)
            if r is not None:
                return self.global_name(name, m, st)
            if f"{b.name}.{name}" in self.p.modules:
                return [(st, Mod(f"{b.name}.{name}"))]
            return [(st, T("var", b.name, name))]
        full = f"{b.name}.{name}"
        real = E.CONST_MODULES.get(b.name)
        if real is not None:
            v = getattr(real, name, None)
            if isinstance(v, (int, str)) and not callable(v):
                return [(st, C(int(v) if isinstance(v, int) and not isinstance(v, bool) else v))]
        if full in ("os.path", "multiprocessing.sharedctypes", "importlib.util",
                    "multiprocessing.queues", "concurrent.futures"):
            return [(st, Mod(full))]
        if full in ("sys.stdout", "sys.stderr", "sys.argv", "os.environ", "sys.stdin",
                    "sys.executable"):
            return [(st, T("var", *full.split(".")))]
        return [(st, Fn("ext", full))]

    def fn_attr(self, b, name, st, node):
        if b.kind == "class":
            ci = b.target
            if name in ("__name__", "__qualname__"):
                return [(st, C(ci.name))]
            m = self.p.find_method(ci, name, debug=self.debug)
            if m is not None:
                if m.kind == "classmethod":
                    return [(st, Fn("func", m, recv=b))]
                return [(st, Fn("func", m))]
            if name == "name" and self._named_class(ci) and "name" not in self._own_attrs(ci):
                return [(st, C(ci.name.lower()))]
            a = self.p.find_attr(ci, name)
            if a is not None:
                if self.is_enum(a[0]):
                    return [(st, C(("enum", a[0].qual, name)))]
                return self.const_expr(a[1], a[0].module, st, T("clsattr", a[0].qual, name),
                                       (b, name), cls=a[0])
            return [(st, T("clsattr", ci.qual, name))]
        if b.kind in ("ext", "builtin"):
            base = b.target if b.kind == "ext" else f"builtins.{b.target}"
            return [(st, Fn("ext", f"{base}.{name}"))]
        return [(st, T("attr", b, name))]

    def _own_attrs(self, ci):
        return ci.attrs

    def _named_class(self, ci):
        """Classes whose __init_subclass__ hook derives `name` from the class name."""
        for c in self.p.mro(ci)[1:]:
            if isinstance(c, ClassInfo) and "__init_subclass__" in c.methods:
                return True
        return False

    def is_enum(self, ci):
        return any(isinstance(c, str) and c.split(".")[-1] in ("Enum", "IntEnum", "Flag", "StrEnum",
                                                               "IntFlag")
                   for c in self.p.mro(ci))

    def _polymorphic(self, ci, name):
        """More than one implementation of `name` is possible for a receiver of static type ci."""
        base = self.p.find_method(ci, name)
        for c in self.p.subclasses(ci, strict=True):
            if name in c.methods and c.methods[name] is not base:
                return True
        return False

    def inst_attr(self, b, ci, name, st, node):
        if name == "context" and not (ci.qual == "libff.context:Context"):
            if self.p.find_method(ci, name) is None:
                return [(st, self.CTX)]
        if ci.qual == "libff.context:Context" and name in self._comp:
            t = T("ctx", name)
            f = st.fields.get((t, "<self>"))
            return [(st, f if f is not None else t)]
        nt = self.p.nt_fields(ci)
        if nt and name in nt:
            return self.split_domain(T("attr", b, name), st)
        m = self.p.find_method(ci, name, debug=self.debug)
        if m is not None:
            return self.bind(m, b, ci, st, node)
        if self.strict_attrs and isinstance(b, Ref) and isinstance(st.heap[b.id], InstObj):
            missing = self.p.find_method(ci, "__getattr__", debug=self.debug)
            if missing is not None and self.p.find_attr(ci, name) is None:
                return self.call_func(missing, [b, C(name)], {}, st, node)
        if self._assigned(ci, name):
            if name in self._comp and self._assigned_from_context(ci, name):
                return [(st, T("ctx", name))]
            return self.split_domain(T("attr", b, name), st)
        if self._is_base_class(ci) and name in self.ctx_fields:
            if name in self._comp:
                t = T("ctx", name)
                f = st.fields.get((t, "<self>"))
                return [(st, f if f is not None else t)]
            t = T("attr", self.CTX, name)
            f = st.fields.get((self.CTX, name))
            return [(st, f)] if f is not None else self.split_domain(t, st)
        if self._is_base_class(ci) and ci.qual != "libff.context:Context":
            cx = self.p.cls("libff.context:Context")
            m = self.p.find_method(cx, name, debug=self.debug)
            if m is not None:
                return self.bind(m, self.CTX, cx, st, node)
        a = self.p.find_attr(ci, name)
        if a is not None:
            if self.is_enum(a[0]):
                return [(st, C(("enum", a[0].qual, name)))]
            return self.const_expr(a[1], a[0].module, st, T("clsattr", a[0].qual, name), cls=a[0])
        if isinstance(b, Ref) and isinstance(st.heap[b.id], (ListObj, DictObj)):
            return [(st, Fn("method", name, recv=b))]
        if name == "name" and self._named_class(ci):
            return [(st, C(ci.name.lower()))]
        if any(isinstance(c, str) for c in self.p.mro(ci)) and \
                any(isinstance(c, str) and c.split(".")[-1] in ("list", "dict", "set", "Namespace")
                    for c in self.p.mro(ci)):
            return [(st, T("attr", b, name))]
        return self.split_domain(T("attr", b, name), st)

    def _is_base_class(self, ci):
        return any(isinstance(c, ClassInfo) and c.qual == "libff:BaseClass" for c in self.p.mro(ci))

    def _assigned(self, ci, name):
        key = ("asg", ci.qual, name)
        if key not in self._attr_types:
            r = False
            for c in self.p.mro(ci):
                if isinstance(c, ClassInfo):
                    for fi in c.methods.values():
                        for n in ast.walk(fi.node):
                            if isinstance(n, ast.Attribute) and n.attr == name and \
                                    isinstance(n.ctx, ast.Store) and \
                                    isinstance(n.value, ast.Name) and n.value.id in ("self", "cls"):
                                r = True
            self._attr_types[key] = r
        return self._attr_types[key]

    def _assigned_from_context(self, ci, name):
        for c in self.p.mro(ci):
            if isinstance(c, ClassInfo):
                for fi in c.methods.values():
                    for n in ast.walk(fi.node):
                        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) \
                                and n.targets[0].attr == name and \
                                ast.unparse(n.value).endswith("context." + name):
                            return True
        return False

    def bind(self, m, b, ci, st, node):
        if m.kind == "property":
            return self.call_func(m, [b], {}, st, node)
        if m.kind == "staticmethod":
            return [(st, Fn("func", m))]
        if m.kind == "classmethod":
            return [(st, Fn("func", m, recv=Fn("class", ci)))]
        return [(st, Fn("func", m, recv=b))]

    # ------------------------------------------------------------------ containers
    def e_Tuple(self, e, st):
        out = []
        for x, vals in self.ev_seq(e.elts, st):
            if isinstance(vals, Raised):
                out.append((x, vals))
                continue
            items = self.expand_stars(vals, x)
            if any(isinstance(i, Splice) for i in items):
                x, r = x.new(ListObj(items, "tuple"))
                out.append((x, r))
            else:
                out.append((x, Tup(items)))
        return out

    def e_List(self, e, st):
        return self._mklist(e.elts, st, "list")

    def e_Set(self, e, st):
        return self._mklist(e.elts, st, "set")

    def _mklist(self, elts, st, kind):
        out = []
        for x, vals in self.ev_seq(elts, st):
            if isinstance(vals, Raised):
                out.append((x, vals))
                continue
            out.append(x.new(ListObj(self.expand_stars(vals, x), kind)))
        return out

    def e_Dict(self, e, st):
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)
        out = []
        for x, vals in self.ev_seq(exprs, st):
            if isinstance(vals, Raised):
                out.append((x, vals))
                continue
            vals = list(vals)
            x, r = x.new(DictObj())
            for k, v in zip(e.keys, e.values):
                if k is None:
                    src = vals.pop(0)
                    if isinstance(src, Ref) and isinstance(x.heap[src.id], DictObj):
                        for kk, vv in x.heap[src.id].items:
                            x = self.dict_set(r, kk, vv, x)
                    else:
                        o = x.heap[r.id]
                        x = x.put(r, DictObj(o.items, o.cls, o.default, True))
                else:
                    kk = vals.pop(0)
                    vv = vals.pop(0)
                    x = self.dict_set(r, kk, vv, x)
            out.append((x, r))
        return out

    def dict_set(self, ref, k, v, st):
        o = st.heap[ref.id]
        k = self.resolve(k, st)
        items = []
        hit = False
        for kk, vv in o.items:
            if kk == k or st.facts.get(("eq",) + tuple(sorted((kk, k), key=repr))) is True:
                items.append((kk, v))
                hit = True
            else:
                items.append((kk, vv))
        if not hit:
            items.append((k, v))
        return st.put(ref, DictObj(items, o.cls, o.default, o.open))

    def dict_get(self, ref, k, st):
        """list of (state, value or None for a missing key)."""
        o = st.heap[ref.id]
        k = self.resolve(k, st)
        for kk, vv in o.items:
            if self.resolve(kk, st) == k:
                return [(st, vv)]
        out = []
        cur = [st]
        for kk, vv in o.items:
            nxt = []
            for x in cur:
                for y, b in self.eq(kk, k, x):
                    if b:
                        out.append((y, vv))
                    else:
                        nxt.append(y)
            cur = nxt
        for x in cur:
            if o.open:
                out.append((x, T("item", ref, k)))
            out.append((x, None))
        return out

    def e_ListComp(self, e, st):
        return self._comp_(e, [e.elt], st, "list")

    def e_SetComp(self, e, st):
        return self._comp_(e, [e.elt], st, "set")

    def e_GeneratorExp(self, e, st):
        return self._comp_(e, [e.elt], st, "gen")

    def e_DictComp(self, e, st):
        return self._comp_(e, [e.key, e.value], st, "dict")

    def _comp_(self, e, elts, st, kind):
        saved = st.frames[st.fid]
        fid = st.fid
        x, acc = st.new(ListObj((), "list"))
        out = []
        for y, o in self._comp_gen(e.generators, 0, elts, acc, x, kind):
            fr = dict(y.frames[fid])
            for g in e.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        if n.id in saved:
                            fr[n.id] = saved[n.id]
                        else:
                            fr.pop(n.id, None)
            y = y.fork()
            y.frames = {**y.frames, fid: fr}
            if o is not None:
                if o[0] == "raise":
                    out.append((y, Raised(o[1])))
                continue
            items = y.heap[acc.id].items
            if kind == "dict":
                y, r = y.new(DictObj())
                for kv in items:
                    y = self.dict_set(r, kv.items[0], kv.items[1], y)
            else:
                y, r = y.new(ListObj(items, kind))
            out.append((y, r))
        return out

    def _comp_gen(self, gens, i, elts, acc, st, kind):
        """Execute nested generators: list of (state, outcome)."""
        if i == len(gens):
            out = []
            for x, vals in self.ev_seq(elts, st):
                if isinstance(vals, Raised):
                    out.append((x, ("raise", vals.exc)))
                    continue
                v = Tup(vals) if kind == "dict" else vals[0]
                o = x.heap[acc.id]
                out.append((x.put(acc, o.with_items(o.items + (v,))), None))
            return out
        g = gens[i]
        out = []
        for x, coll in self.ev(g.iter, st):
            if isinstance(coll, Raised):
                out.append((x, ("raise", coll.exc)))
                continue
            # [y for y in <opaque>] without conditions keeps the collection whole
            if len(gens) == 1 and not g.ifs and kind in ("list", "gen", "set") and \
                    isinstance(coll, T) and not isinstance(self.typ(coll, x), ClassInfo) and \
                    isinstance(g.target, ast.Name) and isinstance(elts[0], ast.Name) and \
                    elts[0].id == g.target.id and not self.has_elements(coll, x, g.iter):
                o = x.heap[acc.id]
                out.append((x.put(acc, o.with_items(o.items + (Splice(coll),))), None))
                continue
            for y, els in self.elements(coll, x, g.iter):
                if isinstance(els, Raised):
                    out.append((y, ("raise", els.exc)))
                    continue
                cur = [(y, None)]
                for el in els:
                    nxt = []
                    for z, o in cur:
                        if o is not None:
                            nxt.append((z, o))
                            continue
                        for w, o2 in self.assign(g.target, el, z):
                            if o2 is not None:
                                nxt.append((w, o2))
                                continue
                            for v, ok in self._conds(g.ifs, w):
                                if isinstance(ok, Raised):
                                    nxt.append((v, ("raise", ok.exc)))
                                elif ok:
                                    nxt.extend(self._comp_gen(gens, i + 1, elts, acc, v, kind))
                                else:
                                    nxt.append((v, None))
                    cur = nxt
                    if len(cur) > self.max_paths:
                        raise E.Undecided("too many paths")
                out.extend(cur)
        return out

    def _conds(self, ifs, st):
        out = [(st, True)]
        for c in ifs:
            nxt = []
            for x, ok in out:
                if ok is not True:
                    nxt.append((x, ok))
                    continue
                for y, v in self.ev(c, x):
                    if isinstance(v, Raised):
                        nxt.append((y, v))
                    else:
                        nxt.extend(self.truth(v, y))
            out = nxt
        return out

    # ------------------------------------------------------------------ operators
    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        done = []
        cur = [st]
        for i, sub in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for x in cur:
                for y, v in self.ev(sub, x):
                    if isinstance(v, Raised) or last:
                        done.append((y, v))
                        continue
                    for z, b in self.truth(v, y):
                        if b == is_and:
                            nxt.append(z)
                        else:
                            done.append((z, self._truth_const(v, b, z)))
            cur = nxt
        return done

    def _truth_const(self, v, b, st):
        if isinstance(v, T) and v.op in ("in", "isinstance", "not"):
            return C(b)
        return v

    def e_UnaryOp(self, e, st):
        out = []
        for x, v in self.ev(e.operand, st):
            if isinstance(v, Raised):
                out.append((x, v))
                continue
            v = self.resolve(v, x)
            if isinstance(e.op, ast.Not):
                out.extend((y, C(not b)) for y, b in self.truth(v, x))
            elif isinstance(v, C):
                try:
                    out.append((x, C(-v.v if isinstance(e.op, ast.USub) else
                                     ~v.v if isinstance(e.op, ast.Invert) else +v.v)))
                except TypeError:
                    out.append((x, Raised(Exc("TypeError", (), e))))
            else:
                out.append((x, T({"USub": "neg", "Invert": "~", "UAdd": "pos"}[type(e.op).__name__],
                                 v)))
        return out

    def e_BinOp(self, e, st):
        out = []
        for x, p in self.ev_seq([e.left, e.right], st):
            if isinstance(p, Raised):
                out.append((x, p))
            else:
                out.extend(self.binop(e.op, p[0], p[1], x, e))
        return out

    def binop(self, op, a, b, st, node):
        sym = BINOPS[type(op).__name__] if not isinstance(op, str) else op
        a, b = self.resolve(a, st), self.resolve(b, st)
        if isinstance(a, C) and isinstance(b, C):
            if sym == "%" and self.sizes and self.open_size(a.v, b.v):
                return [(x, C(0) if t else C(int(a.v))) for x, t in self._fork_fact(("size", int(a.v), "%", b.v), st)]
            try:
                return [(st, C(PYOPS[sym](a.v, b.v)))]
            except ZeroDivisionError:
                return [(st, Raised(Exc("ZeroDivisionError", (), node)))]
            except (TypeError, ValueError, OverflowError, KeyError):
                return [(st, Raised(Exc("TypeError", (), node)))]
        ia, ib = self.seq_items(a, st), self.seq_items(b, st)
        if sym in ("&", "|", "-", "^") and ia is not None and ib is not None and \
                any(isinstance(x, Ref) and st.heap[x.id].kind in ("set", "frozenset") for x in (a, b)) and \
                all(isinstance(x, C) for x in ia + ib):
            out = [x for x in ia if sym == "|" or (x in ib) == (sym == "&")]
            if sym in ("|", "^"):
                out += [x for x in ib if x not in ia]
            return [st.new(ListObj(tuple(dict.fromkeys(out)), "set"))]
        if sym in ("+", "|") and ia is not None and ib is not None:
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [(st, Tup(ia + ib, kind=a.kind))]
            kind = st.heap[a.id].kind if isinstance(a, Ref) else "list"
            return [st.new(ListObj(ia + ib, kind))]
        if sym == "+" and (ia is not None or ib is not None) and not isinstance(a, C) and \
                not isinstance(b, C):
            items = (ia if ia is not None else (Splice(a),)) + \
                    (ib if ib is not None else (Splice(b),))
            return [st.new(ListObj(items))]
        if sym == "%" and isinstance(a, C) and isinstance(a.v, str):
            args = b.items if isinstance(b, Tup) and b.cls is None else (b,)
            done = self.percent(a.v, args)
            return [(st, done if done is not None else T("fstr", a, b))]
        if sym == "-" and isinstance(a, Ref) and isinstance(st.heap[a.id], ListObj) and \
                st.heap[a.id].kind in ("set", "frozenset"):
            return [(st, T("-", a, b))]
        if sym == "+" and (self._strlike(a) or self._strlike(b)):
            return [(st, self.concat([a, b]))]
        if sym == "*" and isinstance(b, C) and isinstance(b.v, int) and ia is not None and b.v < 5:
            return [st.new(ListObj(ia * b.v))]
        return [(st, T(sym, a, b))]

    @staticmethod
    def _strlike(v):
        return isinstance(v, C) and isinstance(v.v, str) or \
            isinstance(v, T) and v.op in ("fstr", "str", "fmt")

    @staticmethod
    def concat(parts):
        """Canonical concatenation: constants merged, other parts wrapped as str(part)."""
        flat = []
        for p in parts:
            ps = list(p.args) if isinstance(p, T) and p.op == "fstr" else [p]
            for q in ps:
                if isinstance(q, C) and isinstance(q.v, (str, int)) and \
                        not isinstance(q.v, bool):
                    q = C(str(q.v))
                    if q.v == "":
                        continue
                    if flat and isinstance(flat[-1], C):
                        flat[-1] = C(flat[-1].v + q.v)
                        continue
                elif not (isinstance(q, T) and q.op in ("str", "fmt")):
                    q = T("str", q)
                flat.append(q)
        if not flat:
            return C("")
        if len(flat) == 1 and isinstance(flat[0], C):
            return flat[0]
        return T("fstr", *flat)

    def percent(self, fmt, args):
        """'..%s..%d..' % args with plain conversions only."""
        pieces = re.split(r"%([sd%])", fmt)
        if "%" in "".join(pieces[::2]):
            return None
        out, left = [], list(args)
        for i, x in enumerate(pieces):
            if i % 2 == 0:
                out.append(C(x))
            elif x == "%":
                out.append(C("%"))
            elif left:
                out.append(left.pop(0))
            else:
                return None
        return None if left else self.concat(out)

    def str_format(self, fmt, args, kw):
        """'..{}..{0}..{name}..'.format() with plain fields only."""
        out, n = [], 0
        try:
            for lit, name, spec, conv in string.Formatter().parse(fmt):
                out.append(C(lit))
                if name is None:
                    continue
                if spec or conv not in (None, "s"):
                    return None
                if name == "":
                    out.append(args[n])
                    n += 1
                elif name.isdigit():
                    out.append(args[int(name)])
                elif name in kw:
                    out.append(kw[name])
                else:
                    return None
        except (ValueError, IndexError):
            return None
        return self.concat(out)

    def seq_items(self, v, st):
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Ref) and isinstance(st.heap[v.id], ListObj):
            return st.heap[v.id].items
        return None

    def e_JoinedStr(self, e, st):
        exprs = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]
        out = []
        for x, vals in self.ev_seq(exprs, st):
            if isinstance(vals, Raised):
                out.append((x, vals))
                continue
            vals = list(vals)
            parts = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    parts.append(C(v.value))
                else:
                    val = self.resolve(vals.pop(0), x)
                    plain = v.format_spec is None and v.conversion in (-1, 115)
                    if plain and isinstance(val, C) and isinstance(val.v, (str, int)) and \
                            not isinstance(val.v, bool):
                        parts.append(C(str(val.v)))
                    elif plain:
                        parts.append(val if isinstance(val, T) and val.op == "fstr" else
                                     T("str", val))
                    elif isinstance(val, C) and isinstance(val.v, (str, int, float)) and \
                            (v.format_spec is None or all(isinstance(q, ast.Constant) for q in v.format_spec.values)):
                        conv = {115: str, 114: repr, 97: ascii}.get(v.conversion, lambda q: q)
                        spec = "".join(q.value for q in v.format_spec.values) if v.format_spec is not None else ""
                        try:
                            parts.append(C(format(conv(val.v), spec)))
                        except ValueError:
                            return [(x, Raised(Exc("ValueError", (), e)))]
                    else:
                        spec = ast.unparse(v.format_spec) if v.format_spec is not None else ""
                        parts.append(T("fmt", val, spec, chr(v.conversion) if v.conversion > 0
                                       else ""))
            out.append((x, self.concat(parts)))
        return out

    def e_FormattedValue(self, e, st):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), st)

    def e_Compare(self, e, st):
        cur = [(st, None, None)]
        done = []
        operands = [e.left] + e.comparators
        first = [(x, v) for x, v in self.ev(operands[0], st)]
        cur = []
        for x, v in first:
            if isinstance(v, Raised):
                done.append((x, v))
            else:
                cur.append((x, v))
        for i, op in enumerate(e.ops):
            nxt = []
            last = i == len(e.ops) - 1
            for x, left in cur:
                for y, right in self.ev(operands[i + 1], x):
                    if isinstance(right, Raised):
                        done.append((y, right))
                        continue
                    for z, b in self.compare(op, left, right, y, e):
                        if isinstance(b, Raised):
                            done.append((z, b))
                        elif last or not b:
                            done.append((z, C(b)))
                        else:
                            nxt.append((z, right))
            cur = nxt
        return done

    def compare(self, op, a, b, st, node=None):
        n = op if isinstance(op, str) else type(op).__name__
        if n in ("Eq", "=="):
            return self.eq(a, b, st)
        if n in ("NotEq", "!="):
            return [(x, not r) for x, r in self.eq(a, b, st)]
        if n in ("Is", "is"):
            return self.eq(a, b, st, identity=True)
        if n in ("IsNot", "is not"):
            return [(x, not r) for x, r in self.eq(a, b, st, identity=True)]
        if n in ("In", "in"):
            return self.contains(a, b, st, node)
        if n in ("NotIn", "not in"):
            return [(x, r if isinstance(r, Raised) else not r)
                    for x, r in self.contains(a, b, st, node)]
        sym = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}.get(n, n)
        return self.order(sym, a, b, st)

    def contains(self, a, coll, st, node=None):
        a, coll = self.resolve(a, st), self.resolve(coll, st)
        items = self.seq_items(coll, st)
        if items is not None:
            out, cur = [], [st]
            for i in items:
                nxt = []
                for x in cur:
                    if isinstance(i, Splice):
                        for y, b in self._fork_fact(("in", a, i.term), x):
                            (out.append((y, True)) if b else nxt.append(y))
                    else:
                        for y, b in self.eq(a, i, x):
                            (out.append((y, True)) if b else nxt.append(y))
                cur = nxt
            return out + [(x, False) for x in cur]
        if isinstance(coll, Ref) and isinstance(st.heap[coll.id], DictObj):
            return [(x, v is not None) for x, v in self.dict_get(coll, a, st)]
        if isinstance(coll, C) and isinstance(a, C):
            try:
                return [(st, a.v in coll.v)]
            except TypeError:
                return [(st, Raised(Exc("TypeError", (), node)))]
        if isinstance(coll, C) and isinstance(coll.v, str) and isinstance(a, T):
            # `x in "+="`: membership in a constant string of single characters
            return self._fork_fact(("in", a, coll), st)
        if isinstance(coll, T):
            if coll.op == "pure" and coll.args[0] in self.ORDER_WRAPPERS and len(coll.args) > 2 and \
                    coll.args[0] not in ("iter",):
                return self.contains(a, coll.args[2], st, node)
            ci = self.typ(coll, st)
            if isinstance(ci, ClassInfo):
                m = self.p.find_method(ci, "__contains__")
                if m is not None:
                    out = []
                    for x, r in self.call_func(m, [coll, a], {}, st, node):
                        if isinstance(r, Raised):
                            out.append((x, r))
                        else:
                            out.extend(self.truth(r, x))
                    return out
            if isinstance(coll, T) and coll.op in ("attr", "sym", "var", "clsattr", "elem", "call",
                                                   "pure", "item", "fstr", "enter", "-"):
                return self._fork_fact(("in", a, coll), st)
            return self._fork_fact(("in", a, coll), st)
        if isinstance(coll, Fn):
            return self._fork_fact(("in", a, coll), st)
        return self._fork_fact(("in", a, coll), st)

    def e_IfExp(self, e, st):
        out = []
        for x, v in self.ev(e.test, st):
            if isinstance(v, Raised):
                out.append((x, v))
                continue
            for y, b in self.truth(v, x):
                out.extend(self.ev(e.body if b else e.orelse, y))
        return out

    def e_NamedExpr(self, e, st):
        out = []
        for x, v in self.ev(e.value, st):
            if isinstance(v, Raised):
                out.append((x, v))
                continue
            out.extend((y, v) for y, _ in self.assign(e.target, v, x))
        return out

    def e_Lambda(self, e, st):
        fi = FuncInfo("<lambda>", (st.fn.qual if st.fn else "?") + ".<lambda>", e, st.fn.module, None,
                      outer=st.fn)
        return [(st, Fn("lambda", fi, frame=st.fid))]

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        if e.value is None:
            vals = [(st, NONE)]
        else:
            vals = self.ev(e.value, st)
        out = []
        for x, v in vals:
            if isinstance(v, Raised):
                out.append((x, v))
                continue
            out.append((self.add_yield(v, x, e), NONE))
        return out

    def has_elements(self, v, st, node):
        """Whether a hook knows the elements of an opaque value."""
        return "<iter>" in self.hooks and isinstance(v, T) and \
            self.hooks["<iter>"](self, st, v, node) is not None

    def add_yield(self, v, st, node):
        st = self.event(st, "yield", "yield", None, [v], {}, node)
        fr = st.frames[st.fid]
        acc = fr.get("<yields>")
        if acc is None:
            return st
        o = st.heap[acc.id]
        return st.put(acc, o.with_items(o.items + (v,)))

    def e_YieldFrom(self, e, st):
        out = []
        for x, v in self.ev(e.value, st):
            if isinstance(v, Raised):
                out.append((x, v))
                continue
            items = self.seq_items(v, x)
            if items is not None:
                for i in items:
                    x = self.add_yield(i, x, e)
                out.append((x, NONE))
            elif isinstance(v, (T, C)) and not isinstance(self.typ(v, x), ClassInfo) and \
                    not self.has_elements(v, x, e):
                out.append((self.add_yield(Splice(v), x, e), NONE))
            else:
                for y, els in self.elements(v, x, e):
                    if isinstance(els, Raised):
                        out.append((y, els))
                        continue
                    for i in els:
                        y = self.add_yield(i, y, e)
                    out.append((y, NONE))
        return out

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # ------------------------------------------------------------------ subscripts
    def e_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            return self._slice(e, st)
        out = []
        for x, p in self.ev_seq([e.value, e.slice], st):
            if isinstance(p, Raised):
                out.append((x, p))
                continue
            b, k = self.resolve(p[0], x), self.resolve(p[1], x)
            if isinstance(k, T) and k.op == "slice object":
                lo, hi, step = [None if a == C(None) else a for a in k.args]
                out.extend(self.slice_value(b, lo, hi, x, e) if step in (None, C(1)) else
                           self.step_slice(b, lo, hi, step, x))
                continue
            out.extend(self.subscript(b, k, x, e))
        return out

    def subscript(self, b, k, st, node):
        if isinstance(b, Ref) and isinstance(st.heap[b.id], DictObj):
            o = st.heap[b.id]
            out = []
            for x, v in self.dict_get(b, k, st):
                if v is None and o.default is not None:
                    if isinstance(o.default, C):
                        out.append((x, o.default))
                    else:
                        for y, r in self.call_value(o.default, [], {}, x, node):
                            if not isinstance(r, Raised):
                                y = self.dict_set(b, k, r, y)
                            out.append((y, r))
                elif v is None:
                    out.append((x, Raised(Exc("KeyError", (k,), node))))
                else:
                    out.append((x, v))
            return out
        items = self.seq_items(b, st)
        if items is not None and isinstance(k, C) and isinstance(k.v, int):
            if not any(isinstance(i, Splice) for i in items):
                try:
                    return [(st, items[k.v])]
                except IndexError:
                    return [(st, Raised(Exc("IndexError", (), node)))]
        if isinstance(b, C) and isinstance(k, C):
            try:
                return [(st, C(b.v[k.v]))]
            except IndexError:
                return [(st, Raised(Exc("IndexError", (), node)))]
            except (TypeError, KeyError):
                return [(st, Raised(Exc("TypeError", (), node)))]
        f = st.fields.get((b, ("item", k)))
        if f is not None:
            return [(st, f)]
        if items is not None and isinstance(k, (C, T)):
            # a boolean or unknown index into a known sequence: split over all positions
            if isinstance(k, T) and not any(isinstance(i, Splice) for i in items) and \
                    len(items) <= 4:
                out = []
                for i, v in enumerate(items):
                    for x, eqv in self.eq(k, C(i), st):
                        if eqv:
                            out.append((x, v))
                return out or [(st, T("item", b, k))]
        st2 = self.event(st, "getitem", "[]", b, [k], {}, node)
        out = [(st2, T("item", b, k))]
        if self.item_raises is not None and st.facts.get(("in", k, b)) is not True:
            for ex in self.item_raises(b, k, st) or ():
                out.append((st2, Raised(Exc(ex, (k,), node))))
        return out

    def position(self, b, bound, default, st):
        """Split on the position a slice bound denotes inside the list b: (state, index)."""
        o = st.heap[b.id]
        n = len(o.items)
        if bound is None:
            return [(st, default)]
        bound = self.resolve(bound, st)
        if isinstance(bound, C) and bound.v is None:
            return [(st, default)]
        if isinstance(bound, C) and isinstance(bound.v, int) and bound.v == 0:
            return [(st, 0)]
        absl = (o.abslen or self.abs_lists) and o.kind in ("list", "gen") and o.cls is None
        if self.sizes and not absl and isinstance(bound, C) and o.kind in ("list", "gen") and \
                self.open_size(Size(n), bound.v) and n > 1:
            key = ("pos", o.items, bound)
            if key in st.facts:
                return [(st, st.facts[key])]
            return [(x.fact(key, q), q) for x, t in self.at_least(n, bound.v + 1, st)
                    for q in (range(1, n) if t else (n,))]
        if isinstance(bound, C) and isinstance(bound.v, int) and not absl:
            return [(st, max(0, min(n, bound.v if bound.v >= 0 else n + bound.v)))]
        if isinstance(bound, T) and bound.op == "len" and bound.args[0] == self._lenkey(b, st):
            return [(st, n)]
        key = ("pos", o.items, bound)
        if key in st.facts:
            return [(st, st.facts[key])]
        if isinstance(bound, T) and bound.op == "pure" and bound.args[0] in ("min", "max") and \
                len(bound.args) > 3:
            out = [(st, None)]
            pick = min if bound.args[0] == "min" else max
            for part in bound.args[2:]:
                nxt = []
                for x, best in out:
                    for y, q in self.position(b, part, default, x):
                        nxt.append((y, q if best is None else pick(best, q)))
                out = nxt
            return out
        lo, hi = 0, n
        strict = False
        for k, p in st.facts.items():
            if k[0] != "pos" or k[1] != o.items:
                continue
            rel = self._cmp_bound(k[2], bound, st)
            if rel in ("<", "<="):
                lo = max(lo, p)
                if rel == "<" and p < n:
                    strict = True
            elif rel in (">", ">="):
                hi = min(hi, p)
        if isinstance(bound, C) and isinstance(bound.v, int) and bound.v > 0:
            lo = max(lo, min(1, n))
        self.forks += 1
        return [(st.fact(key, p), p) for p in range(lo, hi + 1)]

    def _cmp_bound(self, a, b, st):
        """Known relation between two slice bounds (a ? b), or None."""
        if isinstance(a, C) and isinstance(b, C) and isinstance(a.v, int) and isinstance(b.v, int) \
                and a.v > 0 and b.v > 0:
            return "<" if a.v < b.v else ">" if a.v > b.v else "="
        # b = a + positive term
        if isinstance(b, T) and b.op == "+" and a in b.args:
            return "<="
        if isinstance(a, T) and a.op == "+" and b in a.args:
            return ">="
        if isinstance(b, T) and b.op == "-" and b.args[0] == a:
            return ">="
        if isinstance(a, T) and a.op == "-" and a.args[0] == b:
            return "<="
        return None

    def _lenkey(self, b, st):
        o = st.heap[b.id]
        return T("list", *o.items)

    def _slice(self, e, st):
        sl = e.slice
        exprs = [e.value] + [b for b in (sl.lower, sl.upper, sl.step) if b is not None]
        out = []
        for x, vals in self.ev_seq(exprs, st):
            if isinstance(vals, Raised):
                out.append((x, vals))
                continue
            base = self.resolve(vals[0], x)
            rest = list(vals[1:])
            lo = rest.pop(0) if sl.lower is not None else None
            hi = rest.pop(0) if sl.upper is not None else None
            step = self.resolve(rest.pop(0), x) if sl.step is not None else None
            if step is None or step == C(1) or step == C(None):
                out.extend(self.slice_value(base, lo, hi, x, e))
            else:
                out.extend(self.step_slice(base, lo, hi, step, x))
        return out

    def step_slice(self, base, lo, hi, step, st):
        """x[lo:hi:step]: sequences of known items, and x[::-1] of any."""
        lo = self.resolve(lo, st) if lo is not None else C(None)
        hi = self.resolve(hi, st) if hi is not None else C(None)
        if not all(isinstance(b, C) for b in (lo, hi, step)):
            raise E.Undecided("extended slice")
        full = lo == C(None) and hi == C(None) and step == C(-1)
        if isinstance(base, C) and isinstance(base.v, (str, bytes, tuple)):
            return [(st, C(base.v[lo.v:hi.v:step.v]))]
        items = self.seq_items(base, st)
        if items is not None and (full or not any(isinstance(i, Splice) for i in items)):
            got = tuple(items)[lo.v:hi.v:step.v]
            if isinstance(base, Tup) and base.cls is None and base.kind == "tuple":
                return [(st, Tup(got))]
            return [st.new(ListObj(got))]
        if full:
            return [(st, T("pure", "reversed", None, base))]
        raise E.Undecided("extended slice")

    def slice_value(self, base, lo, hi, st, node):
        lo = self.resolve(lo, st) if lo is not None else None
        hi = self.resolve(hi, st) if hi is not None else None
        if isinstance(base, C) and all(b is None or isinstance(b, C) for b in (lo, hi)):
            try:
                return [(st, C(base.v[(lo.v if lo else None):(hi.v if hi else None)]))]
            except TypeError:
                return [(st, Raised(Exc("TypeError", (), node)))]
        if isinstance(base, Tup) and all(b is None or isinstance(b, C) for b in (lo, hi)):
            items = base.items[(lo.v if lo else None):(hi.v if hi else None)]
            if base.cls is not None or base.kind == "tuple":
                return [(st, Tup(items))]
        if isinstance(base, Ref) and isinstance(st.heap[base.id], ListObj):
            o = st.heap[base.id]
            out = []
            for x, a in self.position(base, lo, 0, st):
                for y, b in self.position(base, hi, len(o.items), x):
                    y, r = y.new(ListObj(o.items[a:max(a, b)], o.kind if o.kind != "gen" else "list",
                                         o.abslen))
                    out.append((y, r))
            return out
        none = C(None)
        if (lo is None or lo == none) and (hi is None or hi == none):
            return [(st, base)]
        return [(st, T("slice", base, lo if lo is not None else none,
                       hi if hi is not None else none))]

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = e.func
        # super().method(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and \
                isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            return self._super_call(e, f.attr, st)
        out = []
        for x, fv in self.ev(f, st):
            if isinstance(fv, Raised):
                out.append((x, fv))
                continue
            for y, av in self.ev_args(e, x):
                if isinstance(av, Raised):
                    out.append((y, av))
                    continue
                args, kw = av
                out.extend(self.call_value(fv, args, kw, y, e))
                if len(out) > self.max_paths:
                    raise E.Undecided("too many paths")
        return out

    def ev_args(self, e, st):
        out = []
        names = [k.arg for k in e.keywords]
        for x, vals in self.ev_seq(list(e.args) + [k.value for k in e.keywords], st):
            if isinstance(vals, Raised):
                out.append((x, vals))
                continue
            pos = self.expand_stars(vals[:len(e.args)], x)
            kw = {}
            for n, v in zip(names, vals[len(e.args):]):
                if n is None:
                    v = self.resolve(v, x)
                    if isinstance(v, Ref) and isinstance(x.heap[v.id], DictObj):
                        for kk, vv in x.heap[v.id].items:
                            if isinstance(kk, C):
                                kw[kk.v] = vv
                    else:
                        kw["**"] = v
                else:
                    kw[n] = self.resolve(v, x)
            out.append((x, ([self.resolve(p, x) for p in pos], kw)))
        return out

    def _super_call(self, e, name, st):
        fi = st.fn
        while fi is not None and fi.cls is None and fi.outer is not None:
            fi = fi.outer
        if fi is None or fi.cls is None:
            raise E.Undecided("super outside class")
        fr = st.frames[st.fid]
        a = fi.node.args.args
        selfv = fr.get(a[0].arg) if a else None
        if selfv is None:
            raise E.Undecided("super without self")
        ci = selfv.target if isinstance(selfv, Fn) and selfv.kind == "class" else self.typ(selfv, st)
        if not isinstance(ci, ClassInfo):
            ci = fi.cls
        m = self.p.find_method(ci, name, after=fi.cls, debug=self.debug)
        out = []
        for x, av in self.ev_args(e, st):
            if isinstance(av, Raised):
                out.append((x, av))
                continue
            args, kw = av
            if m is None:
                if isinstance(selfv, Ref) and isinstance(x.heap[selfv.id], ListObj):
                    if name == "__init__":
                        if args:
                            items = self.seq_items(args[0], x)
                            items = items if items is not None else (Splice(args[0]),)
                            x = x.put(selfv, x.heap[selfv.id].with_items(items))
                        out.append((x, NONE))
                    else:
                        out.extend(self.list_method(selfv, name, args, kw, x, e))
                    continue
                if name == "__init__" or name.startswith("__init_subclass"):
                    out.append((x, NONE))
                    continue
                out.extend(self.call_ext(f"super.{name}", selfv, args, kw, x, e))
                continue
            out.extend(self.call_func(m, [selfv] + args, kw, x, e))
        return out

    def call_value(self, fv, args, kw, st, node):
        fv = self.resolve(fv, st)
        if isinstance(fv, Fn):
            if fv.kind == "func":
                a = ([fv.recv] if fv.recv is not None else []) + args
                return self.call_func(fv.target, a, kw, st, node, frame=fv.frame)
            if fv.kind == "lambda":
                return self.call_lambda(fv, args, kw, st, node)
            if fv.kind == "class":
                return self.instantiate(fv.target, args, kw, st, node)
            if fv.kind == "builtin":
                return self.call_builtin(fv.target, args, kw, st, node)
            if fv.kind == "ext":
                return self.call_ext_named(fv.target, args, kw, st, node)
            if fv.kind == "method":
                return self.call_method(fv.recv, fv.target, args, kw, st, node)
            if fv.kind == "partial":
                pf, pargs, pkw = fv.target.parts
                return self.call_value(pf, list(pargs) + args, {**dict(pkw), **kw}, st, node)
        if isinstance(fv, T):
            if fv.op == "attr":
                return self.call_method(fv.args[0], fv.args[1], args, kw, st, node, callee=fv)
            if fv.op == "clsattr":
                return self.call_ext(f"{fv.args[0]}.{fv.args[1]}", None, args, kw, st, node)
            return self.call_ext("<value>", fv, args, kw, st, node)
        if isinstance(fv, Ref):
            ci = self.typ(fv, st)
            m = self.p.find_method(ci, "__call__") if isinstance(ci, ClassInfo) else None
            if m is not None:
                return self.call_func(m, [fv] + args, kw, st, node)
        raise E.Undecided(f"call of {fv!r}")

    # ---- project functions
    def call_func(self, fi, args, kw, st, node, frame=None):
        self.call_sites.add((fi.qual, getattr(node, "lineno", 0)))
        h = self.find_hook(fi, args, st)
        call = E.Call(fi.qual, fi, args[0] if args and fi.cls is not None else None, args, kw, node,
                      fi)
        if h is not None:
            r = h(self, st, call)
            if r is not None:
                return r
        depth = len(st.stack)
        rec = sum(1 for f, _ in st.stack if f is fi)
        opaque = depth > self.depth or rec > self.recursion or \
            (self.opaque is not None and self.opaque(fi))
        # dynamic dispatch on a receiver that is not exact
        if not opaque and fi.kind == "method" and args and isinstance(args[0], T) and \
                fi.cls is not None:
            ci = self.typ(args[0], st)
            if isinstance(ci, ClassInfo) and args[0] not in self.types and \
                    args[0].op != "new" and self._polymorphic(ci, fi.name):
                opaque = True
        if opaque:
            return self.opaque_call(fi, args, kw, st, node)
        return self.inline(fi, args, kw, st, node, frame)

    def find_hook(self, fi, args, st):
        h = self.hooks.get(fi.qual)
        if h is not None:
            return h
        if fi.cls is not None:
            for c in self.p.mro(fi.cls):
                if isinstance(c, ClassInfo):
                    h = self.hooks.get(f"{c.qual}.{fi.name}")
                    if h is not None:
                        return h
            h = self.hooks.get("." + fi.name + "()")
            if h is not None:
                return h
        return None

    def opaque_call(self, fi, args, kw, st, node):
        recv = args[0] if fi.cls is not None and fi.kind in ("method", "property") and args else None
        rest = args[1:] if recv is not None else args
        res = self.fresh_call(fi.qual, recv, rest, kw, st)
        st, res = res
        st = self.event(st, "call", fi.qual, recv, rest, kw, node, res)
        out = [(st, res)]
        if self.raises is not None:
            for ex in self.raises(fi.qual, recv, st, None) or ():
                out.append((st, Raised(Exc(ex, (), node))))
        return out

    def fresh_call(self, name, recv, args, kw, st):
        key = (name, recv, tuple(args), tuple(sorted(kw.items(), key=lambda t: str(t[0]))))
        n = st.counts.get(key, 0)
        x = st.fork()
        x.counts = {**st.counts, key: n + 1}
        extra = tuple(v for _, v in key[3])
        t = T("call", name, recv, *args, *extra, C(n) if n else None)
        return x, t

    def bind_params(self, fi, args, kw, st, node):
        a = fi.node.args
        env = {}
        params = [p.arg for p in getattr(a, "posonlyargs", [])] + [p.arg for p in a.args]
        args = list(args)
        kw = dict(kw)
        if fi.node.__class__ is ast.Lambda and a is None:
            return st, env
        if any(isinstance(x, Splice) for x in args):
            i = [isinstance(x, Splice) for x in args].index(True)
            term = args[i].term
            # fn(*opaque): spread opaque items over the remaining parameters
            fixed = args[:i]
            need = len(params) - len(fixed) - len(a.defaults)
            if a.vararg is None:
                args = fixed + [self.item_term(term, C(j), st) for j in range(max(need, 0))]
        for i, p in enumerate(params):
            if i < len(args):
                env[p] = args[i]
            elif p in kw:
                env[p] = kw.pop(p)
            else:
                j = i - (len(params) - len(a.defaults))
                if 0 <= j < len(a.defaults):
                    st, env[p] = self._default(fi, a.defaults[j], st)
                elif "**" in kw:
                    env[p] = T("item", kw["**"], C(p))
                else:
                    return st, Raised(Exc("TypeError", (C(f"missing argument {p}"),), node))
        extra = args[len(params):]
        if a.vararg is not None:
            if any(isinstance(x, Splice) for x in extra):
                st, env[a.vararg.arg] = st.new(ListObj(extra, "tuple"))
            else:
                env[a.vararg.arg] = Tup(extra)
        elif extra:
            return st, Raised(Exc("TypeError", (C("too many arguments"),), node))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif d is not None:
                st, env[p.arg] = self._default(fi, d, st)
            else:
                return st, Raised(Exc("TypeError", (C(f"missing argument {p.arg}"),), node))
        if a.kwarg is not None:
            st, r = st.new(DictObj([(C(k), v) for k, v in kw.items()]))
            env[a.kwarg.arg] = r
        return st, env

    def _default(self, fi, e, st):
        cls = fi.cls
        res = self.const_expr(e, fi.module, st, T("default", fi.qual, ast.unparse(e)), cls=cls)
        return res[0]

    def inline(self, fi, args, kw, st, node, frame=None):
        self.visited.add(fi.qual)
        st, env = self.bind_params(fi, args, kw, st, node)
        if isinstance(env, Raised):
            return [(st, env)]
        fid = ("f", st.nid)
        x = st.fork()
        x.nid += 1
        if frame is not None:
            env["<parent>"] = frame
        gen = fi.is_gen
        if gen:
            x, acc = x.new(ListObj((), "gen"))
            env["<yields>"] = acc
        x.frames = {**x.frames, fid: env}
        x.stack = st.stack + ((fi, fid),)
        out = []
        for y, o in self.exec_block(fi.node.body, x):
            y = y.fork()
            y.stack = st.stack
            y.withs = st.withs
            if o is not None and o[0] == "raise":
                out.append((y, Raised(o[1])))
                continue
            if o is not None and o[0] == "cut":
                self.cut += 1
                y = y.note("cut")
                if gen:
                    out.append((y, acc))
                else:
                    out.append((y, T("cut", fi.qual)))
                continue
            if gen:
                out.append((y, acc))
            else:
                out.append((y, o[1] if o is not None and o[0] == "ret" else NONE))
        return out

    def call_lambda(self, fv, args, kw, st, node):
        fi = fv.target
        st, env = self.bind_params(fi, args, kw, st, node)
        if isinstance(env, Raised):
            return [(st, env)]
        fid = ("f", st.nid)
        x = st.fork()
        x.nid += 1
        if fv.frame is not None and fv.frame in x.frames:
            env["<parent>"] = fv.frame
        x.frames = {**x.frames, fid: env}
        x.stack = st.stack + ((fi, fid),)
        out = []
        for y, v in self.ev(fi.node.body, x):
            y = y.fork()
            y.stack = st.stack
            out.append((y, v))
        return out

    # ---- classes
    def instantiate(self, ci, args, kw, st, node):
        h = self.hooks.get(ci.qual)
        if h is not None:
            r = h(self, st, E.Call(ci.qual, ci, None, args, kw, node))
            if r is not None:
                return r
        nt = self.p.nt_fields(ci)
        if nt and self.p.find_method(ci, "__new__") is None:
            if any(isinstance(a, Splice) for a in args):
                term = [a for a in args if isinstance(a, Splice)][0].term
                fixed = [a for a in args if not isinstance(a, Splice)]
                args = fixed + [T("item", term, C(i)) for i in range(len(nt) - len(fixed))]
            vals = list(args)
            for f in nt[len(vals):]:
                if f in kw:
                    vals.append(kw[f])
                else:
                    vals.append(T("missing", f))
            st = self.event(st, "new", ci.qual, None, vals, {}, node)
            return [(st, Tup(vals, cls=ci))]
        mro = self.p.mro(ci)
        names = {c for c in mro if isinstance(c, str)}
        if self.is_enum(ci):
            return [(st, T("pure", ci.qual, None, *args))]
        if self._is_exc(ci):
            vals = list(args)
            init = self.p.find_method(ci, "__init__")
            if init is not None and kw:
                params = [a.arg for a in init.node.args.args][1:]
                for p in params[len(vals):]:
                    if p in kw:
                        vals.append(kw[p])
            st = self.event(st, "new", ci.qual, None, vals, kw, node)
            return [(st, Exc(ci, vals, node))]
        init = self.p.find_method(ci, "__init__")
        if "list" in names or "set" in names or "dict" in names:
            obj = DictObj((), cls=ci) if "dict" in names else \
                ListObj((), "set" if "set" in names else "list", cls=ci)
            st, r = st.new(obj)
            st = self.event(st, "new", ci.qual, None, args, kw, node, r)
            if init is None:
                if args and isinstance(obj, ListObj):
                    items = self.seq_items(args[0], st)
                    st = st.put(r, obj.with_items(items if items is not None else (Splice(args[0]),)))
                return [(st, r)]
            out = []
            for x, v in self.call_func(init, [r] + args, kw, st, node):
                out.append((x, v if isinstance(v, Raised) else r))
            return out
        if ci.qual in self.inst:
            st, r = st.new(InstObj(ci, args))
            st = self.event(st, "new", ci.qual, None, args, kw, node, r)
            if init is None:
                if names & {"argparse.Namespace", "types.SimpleNamespace"}:
                    for k, v in kw.items():
                        st = st.setfield(r, k, v)
                return [(st, r)]
            out = []
            for x, v in self.call_func(init, [r] + args, kw, st, node):
                out.append((x, v if isinstance(v, Raised) else r))
            return out
        key = ("new", ci.qual, tuple(args))
        n = st.counts.get(key, 0)
        st = st.fork()
        st.counts = {**st.counts, key: n + 1}
        t = T("new", ci, C(n), *args, *[v for _, v in sorted(kw.items())])
        st = self.event(st, "new", ci.qual, None, args, kw, node, t)
        out = [(st, t)]
        if self.raises is not None:
            for ex in self.raises(ci.qual, None, st, None) or ():
                out.append((st, Raised(Exc(ex, (), node))))
        return out

    def _is_exc(self, ci):
        for c in self.p.mro(ci):
            if isinstance(c, str):
                b = getattr(builtins, c.split(".")[-1], None)
                if isinstance(b, type) and issubclass(b, BaseException):
                    return True
                if c in E.EXT_EXC_BASES:
                    return True
        return False

    def isinstance_(self, v, cls, st):
        v, cls = self.resolve(v, st), self.resolve(cls, st)
        classes = list(cls.items) if isinstance(cls, Tup) else [cls]
        if isinstance(cls, Ref) and isinstance(st.heap[cls.id], ListObj):
            classes = list(st.heap[cls.id].items)
        out, cur = [], [st]
        for c in classes:
            nxt = []
            for x in cur:
                r = self._isinst1(v, c, x)
                if r is None:
                    for y, b in self._fork_fact(("isinstance", v, c), x):
                        (out.append((y, True)) if b else nxt.append(y))
                elif r:
                    out.append((x, True))
                else:
                    nxt.append(x)
            cur = nxt
        return out + [(x, False) for x in cur]

    def _isinst1(self, v, c, st):
        name = None
        if isinstance(c, Fn):
            if c.kind == "class":
                ci = self.typ(v, st)
                if isinstance(v, Exc):
                    return self.issub_exc(v.cls, c.target)
                if isinstance(ci, ClassInfo):
                    if self.p.issub(ci, c.target):
                        return True
                    if isinstance(v, (Ref, Tup)) or v in self.types:
                        return False
                    return None if self.p.issub(c.target, ci) else False
                if isinstance(v, (C, Ref, Tup, Fn)):
                    return False
                return None
            name = c.target
        if name is None:
            return None
        short = name.split(".")[-1]
        if isinstance(v, Exc):
            return self.issub_exc(v.cls, name)
        if isinstance(v, C):
            b = getattr(builtins, short, None)
            if isinstance(b, type):
                return isinstance(v.v, b)
            return False
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, ListObj):
                if o.cls is not None and any(s == short for s in self.p.mro(o.cls)
                                             if isinstance(s, str)):
                    return True
                return {"list": o.kind == "list", "set": o.kind == "set",
                        "tuple": o.kind == "tuple",
                        "frozenset": o.kind == "frozenset"}.get(short, False)
            if isinstance(o, DictObj):
                return short in ("dict", "Mapping", "MutableMapping") or \
                    (short == "Counter" and o.default is not None)
            return False
        if isinstance(v, Tup):
            if v.kind == "frozenset":
                return short in ("set", "frozenset")
            return short == "tuple"
        if isinstance(v, T):
            if v.op in ("fstr", "str", "fmt"):
                return short == "str"
            ci = self.typ(v, st)
            if isinstance(ci, ClassInfo):
                return any(isinstance(s, str) and s.split(".")[-1] == short
                           for s in self.p.mro(ci))
        return None
