"""Abstract values and abstract states of the path-sensitive abstract interpreter."""


class Val:
    __slots__ = ()


class Size(int):
    """A length or count in an example: how it compares to limits above it is not known."""
    __slots__ = ()

    def __add__(self, o):
        return Size(int(self) + int(o)) if isinstance(o, int) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return Size(int(self) - int(o)) if isinstance(o, int) else NotImplemented

    def __mul__(self, o):
        return Size(int(self) * int(o)) if isinstance(o, int) else int(self) * o

    __rmul__ = __mul__


LIMIT = 10                                   # smaller numbers are no limits


class C(Val):
    """A known constant."""
    __slots__ = ("v", "h", "t")

    def __init__(self, v):
        self.v = v
        self.t = int if type(v) is Size else type(v)
        self.h = hash((self.t.__name__, v))

    def __eq__(self, o):
        return isinstance(o, C) and self.t is o.t and self.v == o.v

    def __hash__(self):
        return self.h

    def __repr__(self):
        return repr(self.v)


class T(Val):
    """An opaque term: an uninterpreted operation over other values."""
    __slots__ = ("op", "args", "h")

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self.h = hash((op, args))

    def __eq__(self, o):
        return self is o or (isinstance(o, T) and self.h == o.h and self.op == o.op
                             and self.args == o.args)

    def __hash__(self):
        return self.h

    def __repr__(self):
        if self.op == "attr":
            return f"{self.args[0]!r}.{self.args[1]}"
        if self.op == "ctx":
            return f"<{self.args[0]}>"
        if self.op == "sym":
            return f"${self.args[0]}"
        if self.op in ("call", "pure"):
            a = [x for x in self.args[1:] if x is not None]
            return f"{self.args[0]}({', '.join(map(repr, a))})"
        return f"{self.op}({', '.join(map(repr, self.args))})"


class Tup(Val):
    """An immutable sequence; `cls` is set for namedtuples, `kind` for frozen sets etc."""
    __slots__ = ("items", "cls", "kind", "h")

    def __init__(self, items, cls=None, kind="tuple"):
        self.items = tuple(items)
        self.cls = cls
        self.kind = kind
        self.h = hash((self.items, cls.qual if cls else None, kind))

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items and self.cls is o.cls \
            and self.kind == o.kind

    def __hash__(self):
        return self.h

    def __repr__(self):
        if self.cls is not None:
            return f"{self.cls.name}({', '.join(map(repr, self.items))})"
        return f"({', '.join(map(repr, self.items))})"


class Ref(Val):
    """A reference to a heap object."""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and self.id == o.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return f"@{self.id}"


class Fn(Val):
    """A callable known to the analysis.

    kind: func (FuncInfo), class (ClassInfo), ext (dotted name), builtin (name),
          lambda (node, module), partial, method of an opaque receiver (opaque)."""
    __slots__ = ("kind", "target", "recv", "frame", "h")

    def __init__(self, kind, target, recv=None, frame=None):
        self.kind, self.target, self.recv, self.frame = kind, target, recv, frame
        self.h = hash((kind, id(target) if not isinstance(target, str) else target, recv, frame))

    def __eq__(self, o):
        return isinstance(o, Fn) and self.kind == o.kind and self.recv == o.recv and \
            (self.target is o.target or self.target == o.target) and self.frame == o.frame

    def __hash__(self):
        return self.h

    def __repr__(self):
        t = self.target
        name = t if isinstance(t, str) else getattr(t, "qual", None) or type(t).__name__
        return f"<{self.kind} {name}>" if self.recv is None else f"<{self.recv!r}.{name}>"


class Mod(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Mod) and o.name == self.name

    def __hash__(self):
        return hash(("mod", self.name))

    def __repr__(self):
        return f"<module {self.name}>"


class Exc(Val):
    """An exception instance. cls is a ClassInfo or a dotted external/builtin name."""
    __slots__ = ("cls", "args", "origin")

    def __init__(self, cls, args=(), origin=None):
        self.cls, self.args, self.origin = cls, tuple(args), origin

    def __eq__(self, o):
        return isinstance(o, Exc) and self.cls == o.cls and self.args == o.args

    def __hash__(self):
        return hash(("exc", self.cls if isinstance(self.cls, str) else self.cls.qual, self.args))

    @property
    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name

    def __repr__(self):
        return f"{self.name}(...)"


class Raised:
    """Result marker: evaluation ended with an exception."""
    __slots__ = ("exc",)

    def __init__(self, exc):
        self.exc = exc


class Splice(Val):
    """All elements of an opaque iterable, inside a heap list."""
    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term

    def __eq__(self, o):
        return isinstance(o, Splice) and o.term == self.term

    def __hash__(self):
        return hash(("splice", self.term))

    def __repr__(self):
        return f"*{self.term!r}"


class ListObj:
    __slots__ = ("items", "kind", "abslen", "cls")

    def __init__(self, items, kind="list", abslen=False, cls=None):
        self.items, self.kind, self.abslen, self.cls = tuple(items), kind, abslen, cls

    def with_items(self, items):
        return ListObj(items, self.kind, self.abslen, self.cls)


class DictObj:
    __slots__ = ("items", "cls", "default", "open")

    def __init__(self, items=(), cls=None, default=None, open=False):
        self.items, self.cls, self.default, self.open = tuple(items), cls, default, open


class InstObj:
    __slots__ = ("cls", "args")

    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = args


class Event:
    __slots__ = ("kind", "name", "recv", "args", "kw", "node", "fn", "facts", "res", "withs",
                 "stack")

    def __init__(self, kind, name, recv, args, kw, node, fn, facts, res, withs, stack):
        self.kind, self.name, self.recv, self.args, self.kw = kind, name, recv, tuple(args), kw
        self.node, self.fn, self.facts, self.res = node, fn, facts, res
        self.withs, self.stack = withs, stack

    @property
    def loc(self):
        rel = self.fn.module.rel if self.fn is not None else "?"
        return f"{rel}:{getattr(self.node, 'lineno', 0)}"

    @property
    def where(self):
        q = self.fn.qual if self.fn is not None else "?"
        return f"{self.loc} ({q})"

    def arg(self, i, name=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if name is not None:
            return self.kw.get(name)
        return None

    def __repr__(self):
        r = f"{self.recv!r}." if self.recv is not None else ""
        return f"[{self.kind} {r}{self.name}({', '.join(map(repr, self.args))}) @{self.loc}]"


class State:
    __slots__ = ("frames", "heap", "facts", "fields", "trace", "stack", "withs", "nid", "exc",
                 "counts", "notes")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.facts = {}
        self.fields = {}
        self.trace = None
        self.stack = ()      # ((FuncInfo, frame_id), ...)
        self.withs = ()
        self.nid = 1
        self.exc = ()        # stack of currently handled exceptions
        self.counts = {}
        self.notes = ()

    def fork(self):
        s = State.__new__(State)
        for k in State.__slots__:
            setattr(s, k, getattr(self, k))
        return s

    # persistent updates -------------------------------------------------
    def fact(self, k, v):
        s = self.fork()
        s.facts = {**self.facts, k: v}
        return s

    def new(self, obj):
        s = self.fork()
        r = Ref(s.nid)
        s.nid += 1
        s.heap = {**self.heap, r.id: obj}
        return s, r

    def put(self, ref, obj):
        s = self.fork()
        s.heap = {**self.heap, ref.id: obj}
        return s

    def setvar(self, fid, name, val):
        s = self.fork()
        s.frames = {**self.frames, fid: {**self.frames[fid], name: val}}
        return s

    def setfield(self, base, name, val):
        s = self.fork()
        s.fields = {**self.fields, (base, name): val}
        return s

    def note(self, n):
        s = self.fork()
        s.notes = self.notes + (n,)
        return s

    @property
    def fn(self):
        return self.stack[-1][0] if self.stack else None

    @property
    def fid(self):
        return self.stack[-1][1]

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out
