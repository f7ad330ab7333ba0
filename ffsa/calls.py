"""Semantics of builtin, external and method calls of the abstract interpreter (mixin)."""
import ast
import re
import builtins

from .project import ClassInfo
from .values import (C, DictObj, Exc, Fn, InstObj, ListObj, Mod, Raised, Ref, Size, Splice, T, Tup)
from . import engine as E

NONE, TRUE, FALSE = C(None), C(True), C(False)

PURE_BUILTINS = {"abs", "min", "max", "ord", "chr", "repr", "hash", "id", "round", "divmod", "bin",
                 "hex", "oct", "float", "bytes", "bytearray", "memoryview", "slice", "format",
                 "ascii", "pow", "complex", "vars", "dir", "object"}

OPERATOR_FUNCS = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=",
                  "is_": "is", "is_not": "is not"}
OPERATOR_BIN = {"and_": "&", "or_": "|", "add": "+", "sub": "-", "xor": "^", "mul": "*", "mod": "%",
                "iadd": "+", "ior": "|", "iand": "&", "concat": "+"}
OPERATOR_BIN.update({f"__{k.strip('_')}__": v for k, v in list(OPERATOR_BIN.items())})
OPERATOR_FUNCS.update({f"__{k}__": v for k, v in list(OPERATOR_FUNCS.items()) if "_" not in k})


RE_FUNCS = {"compile", "match", "search", "fullmatch", "split", "findall", "finditer", "sub",
            "escape"}


class Partial:
    """Callable with pre-bound leading arguments."""

    def __init__(self, fn, args, kw):
        self.parts = (fn, tuple(args), tuple(kw.items()))

    def __eq__(self, o):
        return isinstance(o, Partial) and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)

    @property
    def qual(self):
        return f"partial({self.parts[0]!r})"


class CallsMixin:
    # ------------------------------------------------------------------ builtins
    def call_builtin(self, name, args, kw, st, node):
        h = self.hooks.get("builtins." + name)
        if h is not None:
            r = h(self, st, E.Call(name, None, None, args, kw, node))
            if r is not None:
                return r
        m = getattr(self, "b_" + name.strip("<>_"), None)
        if m is not None:
            return m(args, kw, st, node)
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            st = self.event(st, "new", name, None, args, kw, node)
            return [(st, Exc(name, args, node))]
        if name in PURE_BUILTINS:
            if args and all(isinstance(a, C) for a in args) and not kw and \
                    name in ("abs", "min", "max", "ord", "chr", "round", "hex", "oct", "bin",
                             "repr", "divmod"):
                try:
                    v = b(*[a.v for a in args])
                    return [(st, Tup([C(i) for i in v]) if isinstance(v, tuple) else C(v))]
                except Exception:
                    return [(st, Raised(Exc("TypeError", (), node)))]
            if name in ("min", "max") and len(args) == 1:
                return self.minmax(name, args, kw, st, node)
            return [(st, self.pure(name, None, args, kw))]
        return self.call_ext(name, None, args, kw, st, node)

    @staticmethod
    def pure(name, recv, args, kw=None):
        extra = tuple(v for _, v in sorted((kw or {}).items(), key=lambda t: str(t[0])))
        return T("pure", name, recv, *args, *extra)

    def minmax(self, name, args, kw, st, node):
        items = self.seq_items(args[0], st)
        if items is not None and not any(isinstance(i, Splice) for i in items):
            if not items and "default" not in kw:
                return [(st, Raised(Exc("ValueError", (), node)))]
            if not items:
                return [(st, kw["default"])]
            if all(isinstance(i, C) for i in items) and "key" not in kw:
                f = min if name == "min" else max
                return [(st, C(f(i.v for i in items)))]
            if len(set(items)) == 1:
                return [(st, items[0])]
            return [(st, self.pure(name, None, items, kw))]
        return [(st, self.pure(name, None, args, kw))]

    def _each(self, coll, st, node):
        return self.elements(coll, st, node)

    def b_any(self, args, kw, st, node, want=True):
        out = []
        for x, els in self.elements(args[0], st, node):
            if isinstance(els, Raised):
                out.append((x, els))
                continue
            cur = [x]
            for el in els:
                nxt = []
                for y in cur:
                    for z, b in self.truth(el, y):
                        if b == want:
                            out.append((z, C(want)))
                        else:
                            nxt.append(z)
                cur = nxt
            out.extend((y, C(not want)) for y in cur)
        return out

    def b_all(self, args, kw, st, node):
        return self.b_any(args, kw, st, node, want=False)

    def b_sum(self, args, kw, st, node):
        out = []
        for x, els in self.elements(args[0], st, node):
            if isinstance(els, Raised):
                out.append((x, els))
                continue
            acc = args[1] if len(args) > 1 else kw.get("start", C(0))
            cur = [(x, acc)]
            for el in els:
                nxt = []
                for y, a in cur:
                    nxt.extend((y, a) if isinstance(a, Raised) else t
                               for t in ([None] if isinstance(a, Raised) else
                                         self.binop("+", a, el, y, node)))
                cur = nxt
            out.extend(cur)
        return out

    def b_slice(self, args, kw, st, node):
        if any(isinstance(a, Splice) for a in args) or not 1 <= len(args) <= 3:
            return [(st, T("pure", "slice", None, *args))]
        a = [C(None), *args, C(None)] if len(args) == 1 else [*args, C(None)][:3]
        return [(st, T("slice object", *a[:3]))]

    def b_sorted(self, args, kw, st, node):
        st = self.event(st, "sorted", "sorted", None, args, kw, node)
        items = self.seq_items(args[0], st)
        if items is not None:
            if not kw and len(items) > 1 and all(isinstance(i, C) for i in items):
                o = st.heap.get(args[0].id) if isinstance(args[0], Ref) else args[0]
                vals = [i.v for i in items]
                try:
                    if getattr(o, "kind", None) in ("set", "frozenset"):
                        vals = set(vals)
                    items = tuple(C(x) for x in sorted(vals))
                except TypeError:
                    pass
            else:
                items = self.ordered(items, kw, st, node) or items
            return [st.new(ListObj(items, "list"))]
        if isinstance(args[0], Ref) and isinstance(st.heap[args[0].id], DictObj):
            return [st.new(ListObj([k for k, _ in st.heap[args[0].id].items], "list"))]
        return [(st, T("pure", "sorted", None, args[0]))]

    def ordered(self, items, kw, st, node):
        """The sorted items if all their keys are known constants, else None."""
        def plain(v):
            v = self.resolve(v, st)
            if isinstance(v, C):
                return v.v
            if isinstance(v, Tup) and not any(isinstance(i, Splice) for i in v.items):
                return tuple(plain(i) for i in v.items)
            raise ValueError
        rev = self.resolve(kw.get("reverse", C(False)), st)
        key = kw.get("key")
        if not isinstance(rev, C) or set(kw) - {"key", "reverse"} or len(items) < 2:
            return None
        try:
            if key is None or key == C(None):
                keys = [plain(i) for i in items]
            else:
                keys = []
                for i in items:
                    if isinstance(i, Splice):
                        return None
                    res = self.call_value(key, [i], {}, st, node)
                    if len(res) != 1 or isinstance(res[0][1], Raised) or res[0][0].heap != st.heap:
                        return None
                    keys.append(plain(res[0][1]))
            order = sorted(range(len(items)), key=lambda n: keys[n], reverse=bool(rev.v))
        except (ValueError, TypeError):
            return None
        return tuple(items[n] for n in order)

    def _collect(self, args, kw, st, node, kind):
        if not args:
            if kind == "tuple":
                return [(st, Tup(()))]
            return [st.new(ListObj((), kind))]
        v = self.resolve(args[0], st)
        items = self.seq_items(v, st)
        if items is None and isinstance(v, Ref) and isinstance(st.heap[v.id], DictObj):
            items = tuple(k for k, _ in st.heap[v.id].items)
        if items is None and isinstance(v, C):
            if isinstance(v.v, (str, bytes, range, frozenset)):
                items = tuple(C(x) for x in v.v)
            else:
                return [(st, Raised(Exc("TypeError", (), node)))]
        if items is None and isinstance(v, T):
            ci = self.typ(v, st)
            if isinstance(ci, ClassInfo) and self.p.find_method(ci, "__iter__") is not None:
                out = []
                for x, els in self.elements(v, st, node):
                    if isinstance(els, Raised):
                        out.append((x, els))
                    else:
                        out.append(x.new(ListObj(els, kind)))
                return out
            res = self.hooks["<iter>"](self, st, v, node) if "<iter>" in self.hooks else None
            if res is None:
                items = (Splice(v),)
        if items is None:
            out = []
            for x, els in self.elements(v, st, node):
                out.append((x, els) if isinstance(els, Raised) else x.new(ListObj(els, kind)))
            return out
        if kind == "tuple" and not any(isinstance(i, Splice) for i in items):
            return [(st, Tup(items))]
        if kind in ("set", "frozenset"):
            uniq = []
            for i in items:
                if i not in uniq:
                    uniq.append(i)
            items = uniq
        return [st.new(ListObj(items, kind))]

    def b_list(self, args, kw, st, node):
        return self._collect(args, kw, st, node, "list")

    def b_tuple(self, args, kw, st, node):
        return self._collect(args, kw, st, node, "tuple")

    def b_set(self, args, kw, st, node):
        return self._collect(args, kw, st, node, "set")

    def b_frozenset(self, args, kw, st, node):
        return self._collect(args, kw, st, node, "frozenset")

    def b_iter(self, args, kw, st, node):
        if len(args) == 2:
            return [(st, T("pure", "iter2", None, *args))]
        v = self.resolve(args[0], st)
        items = self.seq_items(v, st)
        if items is not None:
            if isinstance(v, Ref) and st.heap[v.id].kind == "gen":
                return [(st, v)]
            return [st.new(ListObj(items, "gen"))]
        return [(st, T("pure", "iter", None, v))] if isinstance(v, T) else \
            self._collect(args, kw, st, node, "gen")

    def b_next(self, args, kw, st, node):
        v = self.resolve(args[0], st)
        if isinstance(v, Ref) and isinstance(st.heap[v.id], ListObj):
            out = []
            for x in self.concretise(v, st):
                if isinstance(x, tuple):
                    out.append(x)
                    continue
                o = x.heap[v.id]
                if o.items:
                    out.append((x.put(v, o.with_items(o.items[1:])), o.items[0]))
                elif len(args) > 1:
                    out.append((x, args[1]))
                else:
                    out.append((x, Raised(Exc("StopIteration", (), node))))
            return out
        x, t = self.fresh_call("next", None, [v], {}, st)
        x = self.event(x, "call", "next", None, [v], {}, node, t)
        y = st if len(args) > 1 else st
        return [(x, t), (y, args[1] if len(args) > 1 else Raised(Exc("StopIteration", (), node)))]

    def b_dict(self, args, kw, st, node):
        st, r = st.new(DictObj())
        if args:
            v = self.resolve(args[0], st)
            if isinstance(v, Ref) and isinstance(st.heap[v.id], DictObj):
                o = st.heap[v.id]
                st = st.put(r, DictObj(o.items, None, None, o.open))
            else:
                items = self.seq_items(v, st)
                ok = items is not None
                for i in items or ():
                    if isinstance(i, Tup) and len(i.items) == 2:
                        st = self.dict_set(r, i.items[0], i.items[1], st)
                    else:
                        ok = False
                if not ok:
                    if not kw:
                        return [(st, T("pure", "dict", None, v))]
                    o = st.heap[r.id]
                    st = st.put(r, DictObj(o.items, None, None, True))
        for k, v in kw.items():
            st = self.dict_set(r, C(k), v, st)
        return [(st, r)]

    def b_len(self, args, kw, st, node):
        v = self.resolve(args[0], st)
        if isinstance(v, Tup):
            return [(st, C(len(v.items)))]
        if isinstance(v, C):
            try:
                return [(st, C(len(v.v)))]
            except TypeError:
                return [(st, Raised(Exc("TypeError", (), node)))]
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, ListObj):
                if not (o.abslen or self.abs_lists and o.kind == "list" and o.cls is None) \
                        and not any(isinstance(i, Splice) for i in o.items):
                    return [(st, C(Size(len(o.items)) if self.sizes else len(o.items)))]
                return [(st, T("len", T("list", *o.items)))]
            if isinstance(o, DictObj) and not o.open:
                return [(st, C(Size(len(o.items)) if self.sizes else len(o.items)))]
            ci = self.typ(v, st)
            m = self.p.find_method(ci, "__len__") if isinstance(ci, ClassInfo) else None
            if m is not None:
                return self.call_func(m, [v], {}, st, node)
        if isinstance(v, T):
            ci = self.typ(v, st)
            m = self.p.find_method(ci, "__len__") if isinstance(ci, ClassInfo) else None
            if m is not None and v.op != "elem":
                return self.call_func(m, [v], {}, st, node)
        return [(st, T("len", v))]

    def b_isinstance(self, args, kw, st, node):
        return [(x, C(b)) for x, b in self.isinstance_(args[0], args[1], st)]

    def b_issubclass(self, args, kw, st, node):
        a, b = self.resolve(args[0], st), self.resolve(args[1], st)
        targets = list(b.items) if isinstance(b, Tup) else [b]
        if isinstance(a, Fn) and a.kind in ("class", "ext", "builtin") and \
                all(isinstance(t, Fn) for t in targets):
            res = False
            for t in targets:
                if a.kind == "class":
                    tt = t.target
                    if isinstance(tt, str):
                        res |= any(isinstance(c, str) and c.split(".")[-1] == tt.split(".")[-1]
                                   for c in self.p.mro(a.target)) or tt == "object"
                    else:
                        res |= self.p.issub(a.target, tt)
                else:
                    ba, bt = getattr(builtins, str(a.target), None), \
                        getattr(builtins, str(t.target), None)
                    if isinstance(ba, type) and isinstance(bt, type):
                        res |= issubclass(ba, bt)
                    else:
                        res |= a.target == t.target
            return [(st, C(res))]
        return [(x, C(r)) for x, r in self._fork_fact(("issubclass", a, b), st)]

    def b_str(self, args, kw, st, node):
        if not args:
            return [(st, C(""))]
        v = self.resolve(args[0], st)
        if isinstance(v, C) and isinstance(v.v, (str, int, float, type(None))) and len(args) == 1:
            return [(st, C(str(v.v)))]
        rest = [self.resolve(a, st) for a in (*args[1:], *kw.values())]
        if isinstance(v, C) and isinstance(v.v, bytes) and rest and all(isinstance(a, C) for a in rest):
            try:
                return [(st, C(str(v.v, *[a.v for a in rest[:len(args) - 1]],
                                   **dict(zip(kw, [a.v for a in rest[len(args) - 1:]])))))]
            except UnicodeDecodeError:
                return [(st, Raised(Exc("UnicodeDecodeError", (), node)))]
            except (LookupError, TypeError):
                pass
        if isinstance(v, T) and v.op in ("fstr", "str"):
            return [(st, v)]
        ci = self.typ(v, st)
        m = self.p.find_method(ci, "__str__") if isinstance(ci, ClassInfo) and \
            not isinstance(v, Exc) else None
        if m is not None:
            return self.call_func(m, [v], {}, st, node)
        return [(st, T("str", v, *args[1:]))]

    def b_int(self, args, kw, st, node):
        if not args:
            return [(st, C(0))]
        v = self.resolve(args[0], st)
        if isinstance(v, C) and all(isinstance(a, C) for a in args):
            try:
                return [(st, C(int(*[a.v for a in args])))]
            except ValueError:
                return [(st, Raised(Exc("ValueError", (), node)))]
            except TypeError:
                return [(st, Raised(Exc("TypeError", (), node)))]
            except OverflowError:
                return [(st, Raised(Exc("OverflowError", (), node)))]
        out = [(st, self.pure("int", None, args, kw))]
        if self.raises is not None:
            for ex in self.raises("int", None, st, E.Call("int", None, None, args, kw, node)) or ():
                out.append((st, Raised(Exc(ex, (), node))))
        return out

    def b_float(self, args, kw, st, node):
        v = self.resolve(args[0], st) if args else C(0.0)
        if isinstance(v, C) and isinstance(v.v, (str, int, float)):
            try:
                return [(st, C(float(v.v)))]
            except ValueError:
                return [(st, Raised(Exc("ValueError", (), node)))]
            except OverflowError:
                return [(st, Raised(Exc("OverflowError", (), node)))]
        return [(st, self.pure("float", None, args, kw))]

    def b_bool(self, args, kw, st, node):
        if not args:
            return [(st, FALSE)]
        return [(x, C(b)) for x, b in self.truth(args[0], st)]

    def b_enumerate(self, args, kw, st, node):
        start = args[1] if len(args) > 1 else kw.get("start", C(0))
        items = self.seq_items(args[0], st)
        if items is not None and not any(isinstance(i, Splice) for i in items) and \
                isinstance(start, C):
            num = (lambda i: Size(i + start.v)) if self.sizes and type(start.v) is int else (lambda i: i + start.v)
            return [st.new(ListObj([Tup((C(num(i)), v)) for i, v in enumerate(items)], "gen"))]
        if start == C(0):
            return [(st, T("pure", "enumerate", None, self._as_term(args[0], st)))]
        out = []
        for x, els in self.elements(args[0], st, node):
            if isinstance(els, Raised):
                out.append((x, els))
            else:
                y, acc = x, []
                for i, el in enumerate(els):
                    k = C(i + start.v) if isinstance(start, C) else \
                        (start if i == 0 else T("+", start, C(i)))
                    acc.append(Tup((k, el)))
                out.append(y.new(ListObj(acc, "gen")))
        return out

    def _as_term(self, v, st):
        return v

    def b_zip(self, args, kw, st, node):
        cols = [self.seq_items(a, st) for a in args]
        known = [c for c in cols if c is not None and not any(isinstance(i, Splice) for i in c)]
        if known:
            n = min(len(c) for c in known)
            rows = []
            for i in range(n):
                row = []
                for a, c in zip(args, cols):
                    if c is not None and i < len(c) and not any(isinstance(k, Splice) for k in c):
                        row.append(c[i])
                    else:
                        row.append(T("elem", a, C(i)) if isinstance(a, T) else T("item", a, C(i)))
                rows.append(Tup(row))
            return [st.new(ListObj(rows, "gen"))]
        out = []
        for x, els in self.elements(args[0], st, node):
            if isinstance(els, Raised):
                out.append((x, els))
                continue
            rows = [Tup([el] + [T("elem", a, C(i)) for a in args[1:]]) for i, el in enumerate(els)]
            out.append(x.new(ListObj(rows, "gen")))
        return out

    def b_range(self, args, kw, st, node):
        args = [self.resolve(a, st) for a in args]
        if all(isinstance(a, C) for a in args):
            try:
                return [(st, C(range(*[a.v for a in args])))]
            except (TypeError, ValueError):
                return [(st, Raised(Exc("TypeError", (), node)))]
        return [(st, T("pure", "range", None, *args))]

    def b_reversed(self, args, kw, st, node):
        items = self.seq_items(args[0], st)
        if items is not None:
            return [st.new(ListObj(tuple(reversed(items)), "gen"))]
        if isinstance(args[0], Ref):
            return self._collect(args, kw, st, node, "gen")
        return [(st, T("pure", "reversed", None, args[0]))]

    def b_map(self, args, kw, st, node):
        out = []
        fn = args[0]
        if len(args) > 2:
            zs = self.b_zip(args[1:], {}, st, node)
        else:
            zs = [(st, args[1])]
        for s, coll in zs:
            for x, els in self.elements(coll, s, node):
                if isinstance(els, Raised):
                    out.append((x, els))
                    continue
                cur = [(x, ())]
                for el in els:
                    nxt = []
                    a = list(el.items) if len(args) > 2 else [el]
                    for y, acc in cur:
                        if isinstance(acc, Raised):
                            nxt.append((y, acc))
                            continue
                        for z, v in self.call_value(fn, a, {}, y, node):
                            nxt.append((z, v if isinstance(v, Raised) else acc + (v,)))
                    cur = nxt
                for y, acc in cur:
                    out.append((y, acc) if isinstance(acc, Raised) else y.new(ListObj(acc, "gen")))
        return out

    def b_filter(self, args, kw, st, node, keep=True):
        out = []
        for x, els in self.elements(args[1], st, node):
            if isinstance(els, Raised):
                out.append((x, els))
                continue
            cur = [(x, ())]
            for el in els:
                nxt = []
                for y, acc in cur:
                    if isinstance(acc, Raised):
                        nxt.append((y, acc))
                        continue
                    vals = [(y, el)] if args[0] == NONE else self.call_value(args[0], [el], {}, y,
                                                                            node)
                    for z, v in vals:
                        if isinstance(v, Raised):
                            nxt.append((z, v))
                            continue
                        for w, b in self.truth(v, z):
                            nxt.append((w, acc + (el,) if b == keep else acc))
                cur = nxt
            for y, acc in cur:
                out.append((y, acc) if isinstance(acc, Raised) else y.new(ListObj(acc, "gen")))
        return out

    def b_getattr(self, args, kw, st, node):
        name = self.resolve(args[1], st)
        if isinstance(name, C) and isinstance(name.v, str):
            return self.getattr_(args[0], name.v, st, node)
        return [(st, T("getattr", *args))]

    def b_hasattr(self, args, kw, st, node):
        name = self.resolve(args[1], st)
        if isinstance(name, C):
            ci = self.typ(args[0], st)
            if isinstance(ci, ClassInfo) and (self.p.find_method(ci, name.v, debug=self.debug)
                                              or self.p.find_attr(ci, name.v)):
                return [(st, TRUE)]
        return [(x, C(b)) for x, b in self._fork_fact(("hasattr", args[0], name), st)]

    def b_setattr(self, args, kw, st, node):
        name = self.resolve(args[1], st)
        if isinstance(name, C):
            b = self.resolve(args[0], st)
            st = self.event(st, "store", name.v, b, [args[2]], {}, node)
            h = self.hooks.get("=" + name.v)
            if h is not None:
                st = h(self, st, b, args[2]) or st
            return [(st.setfield(b, name.v, args[2]), NONE)]
        return [(self.event(st, "store", "?", args[0], [args[2]], {}, node), NONE)]

    def b_callable(self, args, kw, st, node):
        v = self.resolve(args[0], st)
        if isinstance(v, Fn):
            return [(st, TRUE)]
        if isinstance(v, C):
            return [(st, FALSE)]
        return [(x, C(b)) for x, b in self._fork_fact(("callable", v), st)]

    def b_type(self, args, kw, st, node):
        v = self.resolve(args[0], st)
        ci = self.typ(v, st)
        if isinstance(ci, ClassInfo):
            return [(st, Fn("class", ci))]
        if isinstance(v, C):
            return [(st, Fn("builtin", v.t.__name__))]
        return [(st, T("type", v))]

    def b_itemgetter(self, args, kw, st, node):
        return self.subscript(self.resolve(args[1], st), self.resolve(args[0], st), st, node)

    def b_attrgetter(self, args, kw, st, node):
        if isinstance(args[0], C):
            return self.getattr_(args[1], args[0].v, st, node)
        raise E.Undecided("attrgetter")

    def b_methodcaller(self, args, kw, st, node):
        name = self.resolve(args[0], st)
        out = []
        for x, f in self.getattr_(args[-1], name.v, st, node):
            out.extend(self.call_value(f, list(args[1:-1]), kw, x, node))
        return out

    # ------------------------------------------------------------------ external functions
    def call_ext_named(self, name, args, kw, st, node):
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, E.Call(name, None, None, args, kw, node))
            if r is not None:
                return r
        mod, _, fn = name.rpartition(".")
        if mod.startswith("builtins."):
            # unbound method of a builtin type: str.lower(x), list.append(l, x)
            if args:
                return self.call_method(args[0], fn, args[1:], kw, st, node)
        if mod in ("operator", "_operator"):
            f = fn.strip("_")
            if fn in OPERATOR_FUNCS:
                return self._cmp_result(OPERATOR_FUNCS[fn], args[0], args[1], st, node)
            if fn in OPERATOR_BIN:
                return self.binop(OPERATOR_BIN[fn], args[0], args[1], st, node)
            if f == "contains":
                return [(x, r if isinstance(r, Raised) else C(r))
                        for x, r in self.contains(args[1], args[0], st, node)]
            if f == "not":
                return [(x, C(not b)) for x, b in self.truth(args[0], st)]
            if f == "truth":
                return [(x, C(b)) for x, b in self.truth(args[0], st)]
            if f == "getitem":
                return self.subscript(args[0], self.resolve(args[1], st), st, node)
            if f in ("itemgetter", "attrgetter", "methodcaller") and len(args) >= 1:
                return [(st, Fn("partial", Partial(Fn("builtin", f"<{f}>"), args, kw)))]
            if f in ("invert", "inv"):
                a = self.resolve(args[0], st)
                return [(st, C(~a.v) if isinstance(a, C) else T("~", a))]
        if self.fold_re and name == "re.sub" and len(args) == 3 and not kw and isinstance(args[1], Fn) and \
                isinstance(args[0], C) and isinstance(args[2], C) and isinstance(args[0].v, type(args[2].v)):
            try:
                got = self.sub_call(re.compile(args[0].v), args[1], args[2].v, st, node)
            except re.error:
                got = None
            if got is not None:
                return got
        if self.fold_re and mod == "re" and args and all(isinstance(a, C) for a in args) and \
                all(isinstance(a, C) for a in kw.values()) and fn in RE_FUNCS:
            return self.fold(lambda: getattr(re, fn)(*[a.v for a in args],
                                                     **{k: a.v for k, a in kw.items()}), st, node)
        if name in ("functools.partial",):
            return [(st, Fn("partial", Partial(args[0], args[1:], kw)))]
        if name in ("functools.reduce",):
            return self._reduce(args, st, node)
        if name in ("itertools.chain",):
            items = []
            for a in args:
                it = self.seq_items(a, st)
                items.extend(it if it is not None else (Splice(a),))
            return [st.new(ListObj(items, "gen"))]
        if name in ("itertools.chain.from_iterable",):
            return self._flatten(args[0], st, node)
        if name in ("itertools.filterfalse",):
            return self.b_filter(args, kw, st, node, keep=False)
        if name == "itertools.starmap":
            out = []
            for x, els in self.elements(args[1], st, node):
                if isinstance(els, Raised):
                    out.append((x, els))
                    continue
                cur = [(x, ())]
                for el in els:
                    nxt = []
                    for y, acc in cur:
                        for z, v in self.call_value(args[0], self.expand_stars([("*", el)], y), {},
                                                    y, node):
                            nxt.append((z, acc + (v,)))
                    cur = nxt
                out.extend(y.new(ListObj(acc, "gen")) for y, acc in cur)
            return out
        if name == "itertools.islice":
            lo, hi = (None, args[1]) if len(args) == 2 else (args[1], args[2])
            if isinstance(args[0], T):
                st, r = st.new(ListObj((Splice(args[0]),), "list", True))
                return self.slice_value(r, lo, hi, st, node)
            return self.slice_value(args[0], lo, hi, st, node)
        if name == "itertools.count":
            return [(st, T("pure", name, None, *args))]
        if name in ("collections.Counter", "collections.OrderedDict", "collections.defaultdict"):
            default = C(0) if name.endswith("Counter") else None
            if name.endswith("defaultdict"):
                default = args[0] if args else None
                args = args[1:]
            if args and name.endswith("Counter"):
                out = []
                for x, els in self.elements(args[0], st, node):
                    if isinstance(els, Raised):
                        out.append((x, els))
                        continue
                    x, r = x.new(DictObj((), None, C(0)))
                    cur = [x]
                    for el in els:
                        nxt = []
                        for y in cur:
                            for z, v in self.dict_get(r, el, y):
                                for w, s in self.binop("+", v if v is not None else C(0), C(1), z,
                                                       node):
                                    nxt.append(self.dict_set(r, el, s, w))
                        cur = nxt
                    out.extend((y, r) for y in cur)
                return out
            if args or kw:
                res = self.b_dict(args, kw, st, node)
                out = []
                for x, r in res:
                    if isinstance(r, Ref):
                        o = x.heap[r.id]
                        x = x.put(r, DictObj(o.items, None, default, o.open))
                    out.append((x, r))
                return out
            return [st.new(DictObj((), None, default))]
        if name == "collections.deque":
            return self._collect(args, kw, st, node, "list") if args else \
                [st.new(ListObj((), "list"))]
        if name in ("sys.exit", "os._exit", "exit"):
            st = self.event(st, "call", name, None, args, kw, node)
            return [(st, Raised(Exc("SystemExit", args, node)))]
        real_mod = E.CONST_MODULES.get(mod)
        if real_mod is not None and name in self.pure_ext and args and \
                all(isinstance(a, C) for a in args):
            try:
                v = getattr(real_mod, fn)(*[a.v for a in args])
                if isinstance(v, tuple):
                    return [(st, Tup([C(i) for i in v]))]
                return [(st, C(v))]
            except Exception:
                pass
        if name in E.EXT_EXC_BASES:
            return [(st, Exc(name, args, node))]
        if fn[:1].isupper() or name in ("multiprocessing.Value", "threading.local"):
            return self.new_ext(name, args, kw, st, node)
        return self.call_ext(name, None, args, kw, st, node)

    def new_ext(self, name, args, kw, st, node):
        key = ("newext", name, tuple(args), tuple(sorted(kw.items(), key=lambda t: str(t[0]))))
        n = st.counts.get(key, 0)
        st = st.fork()
        st.counts = {**st.counts, key: n + 1}
        t = T("newext", name, Tup(args), Tup([Tup((C(k), v)) for k, v in sorted(
            kw.items(), key=lambda t: str(t[0]))]), C(n))
        st = self.event(st, "new", name, None, args, kw, node, t)
        out = [(st, t)]
        if self.raises is not None:
            for ex in self.raises(name, None, st, E.Call(name, None, None, args, kw, node)) or ():
                out.append((st, Raised(Exc(ex, (), node))))
        return out

    def _cmp_result(self, op, a, b, st, node):
        return [(x, r if isinstance(r, Raised) else C(r)) for x, r in
                self.compare(op, a, b, st, node)]

    def _reduce(self, args, st, node):
        out = []
        for x, els in self.elements(args[1], st, node):
            if isinstance(els, Raised):
                out.append((x, els))
                continue
            els = ([args[2]] if len(args) > 2 else []) + list(els)
            if not els:
                out.append((x, Raised(Exc("TypeError", (), node))))
                continue
            cur = [(x, els[0])]
            for el in els[1:]:
                nxt = []
                for y, acc in cur:
                    nxt.extend(self.call_value(args[0], [acc, el], {}, y, node)
                               if not isinstance(acc, Raised) else [(y, acc)])
                cur = nxt
            out.extend(cur)
        return out

    def _flatten(self, coll, st, node):
        out = []
        for x, els in self.elements(coll, st, node):
            if isinstance(els, Raised):
                out.append((x, els))
                continue
            items = []
            for el in els:
                it = self.seq_items(el, x)
                items.extend(it if it is not None else (Splice(el),))
            out.append(x.new(ListObj(items, "gen")))
        return out

    def call_ext(self, name, recv, args, kw, st, node):
        self.call_sites.add((name, getattr(node, "lineno", 0)))
        call = E.Call(name, None, recv, args, kw, node)
        if name in self.pure_ext:
            t = self.pure(name, recv, args, kw)
            out = [(st, t)]
        else:
            st, t = self.fresh_call(name, recv, args, kw, st)
            st = self.event(st, "call", name, recv, args, kw, node, t)
            out = [(st, t)]
        if self.raises is not None:
            for ex in self.raises(name, recv, st, call) or ():
                out.append((st, Raised(ex if isinstance(ex, Exc) else Exc(ex, (), node))))
        return out

    # ------------------------------------------------------------------ methods
    def call_method(self, recv, name, args, kw, st, node, callee=None):
        recv = self.resolve(recv, st)
        if name == "fromkeys" and not kw and len(args) < 2:      # dict.fromkeys(recv, *args)
            its = self.seq_items(recv, st)
            if its is not None and not any(isinstance(i, Splice) for i in its):
                v = args[0] if args else C(None)
                return [st.new(DictObj([(k, v) for k in dict.fromkeys(its)]))]
        if isinstance(recv, C) and isinstance(recv.v, re.Pattern) and "." + name in self.hooks:
            r = self.hooks["." + name](self, st, E.Call("." + name, None, recv, args, kw, node))
            if r is not None:
                return r
        if isinstance(recv, C):
            return self.const_method(recv, name, args, kw, st, node)
        if isinstance(recv, Ref):
            o = st.heap[recv.id]
            h = self.hooks.get("." + name)
            if h is not None:
                r = h(self, st, E.Call("." + name, None, recv, args, kw, node))
                if r is not None:
                    return r
            if isinstance(o, ListObj):
                return self.list_method(recv, name, args, kw, st, node)
            if isinstance(o, DictObj):
                return self.dict_method(recv, name, args, kw, st, node)
            return self.call_ext("." + name, recv, args, kw, st, node)
        if isinstance(recv, Tup):
            r = self.tup_method(recv, name, args, kw, st, node)
            if r is not None:
                return r
        if isinstance(recv, Mod):
            return self.call_ext_named(f"{recv.name}.{name}", args, kw, st, node)
        ty = self.typ(recv, st)
        names = []
        if isinstance(ty, ClassInfo):
            names.append(f"{ty.qual}.{name}")
        elif isinstance(ty, str):
            names.append(f"{ty}.{name}")
        names.append("." + name)
        for n in names:
            h = self.hooks.get(n)
            if h is not None:
                r = h(self, st, E.Call(n, None, recv, args, kw, node))
                if r is not None:
                    return r
        full = names[0]
        if name in E.PURE_METHODS and not isinstance(ty, ClassInfo):
            self.call_sites.add((full, getattr(node, "lineno", 0)))
            t = self.pure("." + name, recv, args, kw)
            out = [(st, t)]
            if self.raises is not None:
                for ex in self.raises(full, recv, st,
                                      E.Call(full, None, recv, args, kw, node)) or ():
                    out.append((st, Raised(Exc(ex, (), node))))
            return out
        return self.call_ext(full, recv, args, kw, st, node)

    def fold(self, func, st, node):
        """Constant folding: a side-effect free library function applied to constants."""
        try:
            v = func()
        except Exception as e:
            name = type(e).__name__
            return [(st, Raised(Exc("re.error" if isinstance(e, re.error) else name, (C(str(e)),), node)))]
        return [self.lift(v, st)]

    def lift(self, v, st):
        if isinstance(v, (list, map, filter)) or type(v).__name__ in ("callable_iterator",):
            items = []
            for x in v:
                st, y = self.lift(x, st)
                items.append(y)
            return st.new(ListObj(tuple(items)))
        if isinstance(v, tuple):
            items = []
            for x in v:
                st, y = self.lift(x, st)
                items.append(y)
            return st, Tup(items)
        if isinstance(v, dict):
            return st.new(DictObj([(C(k), C(x)) for k, x in v.items()]))
        return st, C(v)

    def sub_call(self, pattern, repl, text, st, node):
        """pattern.sub(function, text) with constant pattern and text, None if the result is unknown."""
        parts, pos = [], 0
        for m in pattern.finditer(text):
            res = self.call_value(repl, [C(m)], {}, st, node)
            if len(res) != 1 or not isinstance(res[0][1], C):
                return None
            st = res[0][0]
            parts += [text[pos:m.start()], res[0][1].v]
            pos = m.end()
        parts.append(text[pos:])
        try:
            return [(st, C(text[:0].join(parts)))]
        except TypeError:
            return [(st, Raised(Exc("TypeError", (), node)))]

    def const_method(self, recv, name, args, kw, st, node):
        if isinstance(recv.v, re.Pattern) and name == "sub" and len(args) == 2 and not kw and \
                isinstance(args[0], Fn) and isinstance(args[1], C) and \
                isinstance(args[1].v, type(recv.v.pattern)):
            got = self.sub_call(recv.v, args[0], args[1].v, st, node)
            if got is not None:
                return got
        if isinstance(recv.v, (re.Pattern, re.Match)) and all(isinstance(a, C) for a in args) and \
                all(isinstance(a, C) for a in kw.values()) and hasattr(recv.v, name):
            return self.fold(lambda: getattr(recv.v, name)(*[a.v for a in args],
                                                           **{k: a.v for k, a in kw.items()}), st, node)
        if isinstance(recv.v, (str, bytes)) and name == "join" and args:
            items = self.seq_items(args[0], st)
            if items is not None and all(isinstance(i, C) and isinstance(i.v, str) for i in items):
                return [(st, C(recv.v.join(i.v for i in items)))]
            if items is not None and isinstance(recv.v, str) and \
                    not any(isinstance(i, Splice) for i in items):
                parts = []
                for i in items:
                    parts += [recv, i] if parts else [i]
                return [(st, self.concat(parts))]
            if items is not None:
                return [(st, T("pure", ".join", recv, T("list", *items)))]
            return [(st, T("pure", ".join", recv, args[0]))]
        if isinstance(recv.v, (str, bytes, int)) and hasattr(recv.v, name):
            if all(isinstance(a, C) for a in args) and all(isinstance(v, C) for v in kw.values()):
                try:
                    v = getattr(recv.v, name)(*[a.v for a in args],
                                              **{k: v.v for k, v in kw.items()})
                except Exception as e:
                    return [(st, Raised(Exc(type(e).__name__, (), node)))]
                if isinstance(v, list):
                    return [st.new(ListObj([C(x) for x in v]))]
                if isinstance(v, tuple):
                    return [(st, Tup([C(x) for x in v]))]
                return [(st, C(v))]
            if name in ("startswith", "endswith") and isinstance(args[0], Tup) and \
                    all(isinstance(i, C) for i in args[0].items):
                return [(st, C(getattr(recv.v, name)(tuple(i.v for i in args[0].items))))]
            done = self.str_format(recv.v, args, kw) if name == "format" and \
                isinstance(recv.v, str) else None
            if done is not None:
                return [(st, done)]
            if name == "format":
                return [(st, T("fstr", recv, *[T("str", a) for a in args],
                               *[T("str", v) for v in kw.values()]))]
            return [(st, self.pure("." + name, recv, args, kw))]
        if recv.v is None:
            return [(st, Raised(Exc("AttributeError", (C(name),), node)))]
        return [(st, self.pure("." + name, recv, args, kw))]

    def tup_method(self, recv, name, args, kw, st, node):
        if recv.cls is not None:
            fields = self.p.nt_fields(recv.cls) or ()
            if name == "_replace":
                items = list(recv.items)
                for k, v in kw.items():
                    if k in fields:
                        items[fields.index(k)] = v
                return [(st, Tup(items, cls=recv.cls))]
            if name == "_asdict":
                return [st.new(DictObj([(C(f), v) for f, v in zip(fields, recv.items)]))]
        if name in ("union", "difference", "intersection", "__or__"):
            return [(st, self.pure("." + name, recv, args, kw))]
        if name == "index":
            for i, v in enumerate(recv.items):
                if v == args[0]:
                    return [(st, C(i))]
                if not (isinstance(v, C) and isinstance(args[0], C)):
                    break
            else:
                return [(st, Raised(Exc("ValueError", (), node)))]
            return [(st, self.pure(".index", recv, args, kw))]
        if name == "count":
            return [(st, self.pure(".count", recv, args, kw))]
        if name == "join":
            return None
        return None

    def concretise(self, ref, st):
        """Replace splices of a heap list by elements: states (or (state, Raised) tuples)."""
        o = st.heap[ref.id]
        if not any(isinstance(i, Splice) for i in o.items):
            return [st]
        out = []
        for x, els in self._expand(o.items, st):
            if isinstance(els, Raised):
                out.append((x, els))
            else:
                out.append(x.put(ref, ListObj(els, o.kind, o.abslen, o.cls)))
        return out

    def list_method(self, recv, name, args, kw, st, node):
        o = st.heap[recv.id]
        setlike = o.kind in ("set", "frozenset")
        if name in ("append",) or name == "add":
            v = args[0]
            if setlike and v in o.items:
                return [(st, NONE)]
            st = self.event(st, "append", name, recv, args, kw, node)
            return [(st.put(recv, o.with_items(o.items + (v,))), NONE)]
        if name == "appendleft":
            return [(st.put(recv, o.with_items((args[0],) + o.items)), NONE)]
        if name in ("extend", "update"):
            items = o.items
            for a in args:
                a = self.resolve(a, st)
                it = self.seq_items(a, st)
                if it is None and isinstance(a, C) and isinstance(a.v, (str, bytes)):
                    it = tuple(C(x) for x in a.v)
                if it is None and isinstance(a, Ref) and isinstance(st.heap[a.id], DictObj):
                    it = tuple(k for k, _ in st.heap[a.id].items)
                if it is None and isinstance(a, Ref):
                    res = []
                    for x, els in self.elements(a, st, node):
                        if isinstance(els, Raised):
                            res.append((x, els))
                        else:
                            oo = x.heap[recv.id]
                            res.append((x.put(recv, oo.with_items(oo.items + tuple(els))), NONE))
                    return res
                if it is None:
                    it = (Splice(a),)
                if setlike:
                    it = tuple(i for i in it if i not in items)
                items = items + it
            st = self.event(st, "extend", name, recv, args, kw, node)
            return [(st.put(recv, o.with_items(items)), NONE)]
        if name == "insert":
            i = self.resolve(args[0], st)
            if isinstance(i, C):
                items = list(o.items)
                items.insert(i.v, args[1])
                return [(st.put(recv, o.with_items(items)), NONE)]
            raise E.Undecided("insert at unknown index")
        if name in ("pop", "popleft", "popitem"):
            idx = self.resolve(args[0], st) if args else C(0 if name == "popleft" or setlike else -1)
            if not isinstance(idx, C):
                raise E.Undecided("pop of unknown index")
            out = []
            for x in self.concretise(recv, st):
                if isinstance(x, tuple):
                    out.append(x)
                    continue
                items = list(x.heap[recv.id].items)
                try:
                    v = items.pop(idx.v)
                except IndexError:
                    out.append((x, Raised(Exc("KeyError" if setlike else "IndexError", (), node))))
                    continue
                out.append((x.put(recv, x.heap[recv.id].with_items(items)), v))
            return out
        if name == "clear":
            st = self.event(st, "clear", name, recv, args, kw, node)
            return [(st.put(recv, o.with_items(())), NONE)]
        if name == "copy":
            return [st.new(ListObj(o.items, o.kind, o.abslen))]
        if name == "sort":
            st = self.event(st, "sort", "sort", recv, args, kw, node)
            got = self.ordered(o.items, kw, st, node)
            return [(st.put(recv, st.heap[recv.id].with_items(got)) if got else st, NONE)]
        if name == "reverse":
            return [(st.put(recv, o.with_items(tuple(reversed(o.items)))), NONE)]
        if name in ("remove", "discard"):
            out, cur = [], [(st, 0)]
            n = len(o.items)
            for i in range(n):
                nxt = []
                for x, _ in cur:
                    it = o.items[i]
                    if isinstance(it, Splice):
                        nxt.append((x, 0))
                        continue
                    for y, b in self.eq(it, args[0], x):
                        if b:
                            items = o.items[:i] + o.items[i + 1:]
                            out.append((y.put(recv, o.with_items(items)), NONE))
                        else:
                            nxt.append((y, 0))
                cur = nxt
            for x, _ in cur:
                if name == "discard":
                    out.append((x, NONE))
                else:
                    out.append((x, Raised(Exc("KeyError" if setlike else "ValueError", (), node))))
            return out
        if name == "index":
            for i, v in enumerate(o.items):
                if v == args[0]:
                    return [(st, C(i))]
                if not (isinstance(v, C) and isinstance(args[0], C)):
                    break
            else:
                return [(st, Raised(Exc("ValueError", (), node)))]
            return [(st, self.pure(".index", recv, args, kw))]
        if name == "count":
            return [(st, self.pure(".count", recv, args, kw))]
        if name in ("union", "__or__"):
            items = o.items
            for a in args:
                it = self.seq_items(a, st)
                it = it if it is not None else (Splice(a),)
                items = items + tuple(i for i in it if i not in items)
            return [st.new(ListObj(items, "set"))]
        if name in ("difference", "intersection", "symmetric_difference"):
            return [(st, T("-" if name == "difference" else "&", recv, *args))]
        if name in ("issubset", "issuperset", "isdisjoint"):
            return [(x, C(b)) for x, b in self._fork_fact((name, recv, *args), st)]
        if name == "close":
            return [(st, NONE)]
        if name == "send":
            return self.b_next([recv], {}, st, node)
        return self.call_ext("." + name, recv, args, kw, st, node)

    def dict_method(self, recv, name, args, kw, st, node):
        o = st.heap[recv.id]
        if name in ("get", "setdefault", "pop"):
            out = []
            for x, v in self.dict_get(recv, args[0], st):
                if v is not None:
                    if name == "pop":
                        oo = x.heap[recv.id]
                        k = self.resolve(args[0], x)
                        x = x.put(recv, DictObj([kv for kv in oo.items
                                                 if self.resolve(kv[0], x) != k],
                                                oo.cls, oo.default, oo.open))
                    out.append((x, v))
                    continue
                d = args[1] if len(args) > 1 else kw.get("default", NONE)
                if name == "setdefault":
                    x = self.dict_set(recv, args[0], d, x)
                    out.append((x, d))
                elif name == "get":
                    out.append((x, d))
                elif len(args) > 1:
                    out.append((x, d))
                else:
                    out.append((x, Raised(Exc("KeyError", (args[0],), node))))
            return out
        if name in ("items", "most_common"):
            items = [Tup((k, v)) for k, v in o.items]
            if o.open:
                items.append(Splice(T("openitems", recv)))
            return [st.new(ListObj(items, "gen"))]
        if name == "keys":
            return [st.new(ListObj([k for k, _ in o.items], "gen"))]
        if name == "values":
            return [st.new(ListObj([v for _, v in o.items], "gen"))]
        if name == "update":
            for a in args:
                a = self.resolve(a, st)
                if isinstance(a, Ref) and isinstance(st.heap[a.id], DictObj):
                    for k, v in st.heap[a.id].items:
                        st = self.dict_set(recv, k, v, st)
                    continue
                items = self.seq_items(a, st)
                if items is not None and all(isinstance(i, Tup) and len(i.items) == 2
                                             for i in items):
                    for i in items:
                        st = self.dict_set(recv, i.items[0], i.items[1], st)
                    continue
                oo = st.heap[recv.id]
                st = st.put(recv, DictObj(oo.items, oo.cls, oo.default, True))
                st = self.event(st, "dictupdate", "update", recv, [a], kw, node)
            for k, v in kw.items():
                if k != "**":
                    st = self.dict_set(recv, C(k), v, st)
            return [(st, NONE)]
        if name == "copy":
            return [st.new(DictObj(o.items, None, o.default, o.open))]
        if name == "clear":
            return [(st.put(recv, DictObj((), o.cls, o.default, False)), NONE)]
        if name == "popitem":
            if o.items:
                kv = o.items[-1]
                return [(st.put(recv, DictObj(o.items[:-1], o.cls, o.default, o.open)),
                         Tup(kv))]
            return [(st, Raised(Exc("KeyError", (), node)))]
        return self.call_ext("." + name, recv, args, kw, st, node)
