"""Helpers shared by the checks."""
from .project import ClassInfo
from .values import C, DictObj, Exc, Fn, InstObj, ListObj, Raised, Ref, Splice, T, Tup

CTX = T("ctx", "context")
ARGS = T("ctx", "args")


def arg(name):
    return T("attr", ARGS, name)


def comp(name):
    return T("ctx", name)


def obj(p, qual, n=0):
    """An opaque receiver of an exact project class."""
    return T("new", p.cls(qual), C(n))


def items(st, v):
    """The items of a known sequence value, or None."""
    if isinstance(v, Tup):
        return v.items
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, ListObj):
            return o.items
        if isinstance(o, DictObj):
            return tuple(k for k, _ in o.items)
    return None


def val(st, v):
    """The value of a term on this path, if an assumption fixed it."""
    if isinstance(v, T):
        r = st.facts.get(("val", v))
        if r is not None:
            return r
    return v


def truth_fact(st, v):
    """True/False/None: what the path assumes about the truth of v."""
    v = val(st, v)
    if isinstance(v, C):
        return bool(v.v)
    t = st.facts.get(("truth", v))
    if t is None and ("card", v) in st.facts:
        t = st.facts[("card", v)] > 0
    return t


def walk_terms(v, seen=None):
    """All subterms of a value."""
    todo = [v]
    while todo:
        x = todo.pop()
        if x is None:
            continue
        yield x
        if isinstance(x, T):
            todo.extend(a for a in x.args if not isinstance(a, (str, int)) or isinstance(a, bool))
        elif isinstance(x, Tup):
            todo.extend(x.items)
        elif isinstance(x, Splice):
            todo.append(x.term)
        elif isinstance(x, Fn) and x.recv is not None:
            todo.append(x.recv)


def mentions(v, what, st=None, depth=6):
    """Does value v contain the term `what` (following heap references)?"""
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        for y in walk_terms(x):
            if y == what:
                return True
            if st is not None and isinstance(y, Ref) and y.id not in seen:
                seen.add(y.id)
                o = st.heap.get(y.id)
                if isinstance(o, ListObj):
                    todo.extend(o.items)
                elif isinstance(o, DictObj):
                    for k, w in o.items:
                        todo.extend((k, w))
                elif isinstance(o, InstObj):
                    todo.extend(o.args)
    return False


def deps(v, st=None, roots=None):
    """Leaf attribute chains a value depends on, as dotted strings."""
    out = set()
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if x is None or isinstance(x, (str, int, float)):
            continue
        if isinstance(x, T):
            c = chain(x)
            if c is not None:
                out.add(c)
                continue
            todo.extend(x.args)
        elif isinstance(x, Tup):
            todo.extend(x.items)
        elif isinstance(x, Splice):
            todo.append(x.term)
        elif isinstance(x, Ref) and st is not None and x.id not in seen:
            seen.add(x.id)
            o = st.heap.get(x.id)
            if isinstance(o, ListObj):
                todo.extend(o.items)
            elif isinstance(o, DictObj):
                for k, w in o.items:
                    todo.extend((k, w))
    return out


def chain(x):
    """'root.a.b' for attribute chains over a symbol/context/new object, else None."""
    names = []
    while isinstance(x, T) and x.op == "attr":
        names.append(x.args[1])
        x = x.args[0]
    if isinstance(x, T) and x.op in ("sym", "ctx", "new", "var"):
        root = "self" if x.op == "new" else str(x.args[0]) if x.op != "var" else \
            ".".join(map(str, x.args))
        return ".".join([root] + names[::-1])
    return None


def calls(st, *names):
    """Call events whose name is (or ends with '.'+) one of the names."""
    out = []
    for e in st.events():
        if e.kind in ("call", "new", "append") and any(
                e.name == n or e.name.endswith("." + n) or e.name.endswith(":" + n) for n in names):
            out.append(e)
    return out


def is_cls(v, qual):
    return isinstance(v, Tup) and v.cls is not None and v.cls.qual == qual


def raised_name(v):
    return v.exc.name if isinstance(v, Raised) else None


def describe(st, limit=14):
    """A readable rendering of a path: assumptions and events."""
    out = []
    for k, v in list(st.facts.items())[:limit]:
        if k[0] in ("truth", "val", "ord", "eq", "in", "isinstance", "card"):
            out.append(f"assume {k[0]} {short(k[1:])} = {short(v)}")
    for e in st.events()[-limit:]:
        out.append(f"{e.where}: {e.kind} {e.name}({', '.join(short(a) for a in e.args)})")
    return out


def short(v, n=100):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n - 3] + "..."


def where(st):
    ev = st.events()
    return ev[-1].where if ev else ""


def order_rels(st, a, b, nonneg=()):
    """Relations ('lt','eq','gt') between a and b that are consistent with the path's order facts
    (transitive closure over the facts; `nonneg` terms are >= 0)."""
    a, b = val(st, a), val(st, b)
    le = {}                                  # (x, y) -> strict?

    def edge(x, y, strict):
        le[(x, y)] = le.get((x, y), False) or strict
    for k, f in st.facts.items():
        if k[0] == "ord":
            x, y = val(st, k[1]), val(st, k[2])
            if f == "lt":
                edge(x, y, True)
            elif f == "gt":
                edge(y, x, True)
            else:
                edge(x, y, False)
                edge(y, x, False)
        elif k[0] == "eq" and f is True and len(k) == 3:
            edge(val(st, k[1]), val(st, k[2]), False)
            edge(val(st, k[2]), val(st, k[1]), False)
    zero = C(0)
    for x in nonneg:
        edge(zero, val(st, x), False)
    nodes = {x for p in le for x in p} | {a, b}
    nums = [x for x in nodes if isinstance(x, C) and isinstance(x.v, (int, float))]
    for x in nums:
        for y in nums:
            if x != y and x.v < y.v:
                edge(x, y, True)
    for k in nodes:
        for i in nodes:
            if (i, k) not in le:
                continue
            for j in nodes:
                if (k, j) in le and i != j:
                    edge(i, j, le[(i, k)] or le[(k, j)])
    for x, y in list(le):
        if (y, x) in le and (le[(x, y)] or le[(y, x)]):
            return set()                     # contradiction: infeasible path
    if a == b:
        return {"eq"}
    out = {"lt", "eq", "gt"}
    if (a, b) in le:
        out -= {"gt"} | ({"eq"} if le[(a, b)] else set())
    if (b, a) in le:
        out -= {"lt"} | ({"eq"} if le[(b, a)] else set())
    for k, f in st.facts.items():
        if (k[0] == "eq" and f is False and len(k) == 3 or k[0] == "neq") and \
                {val(st, k[1]), val(st, k[2])} == {a, b}:
            out.discard("eq")
    return out
