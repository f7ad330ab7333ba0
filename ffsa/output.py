"""Standard output and standard error as sequences of pieces of text.

`hooks()` are hooks of the interpreter that turn every print, write and JSON dump into an event
("out", stream) whose arguments are pieces: constant texts, terms, and json(record) terms. Text that
may hold characters that cannot be encoded fails with UnicodeEncodeError, unless it was escaped."""
from .lib import mentions
from .values import C, Exc, Raised, T, Tup

ESCAPES = {"backslashreplace", "namereplace", "xmlcharrefreplace"}


def stream_of(v):
    """stdout, stderr or a description of a file."""
    if v is None or v == C(None):
        return "stdout"
    if isinstance(v, T):
        text = [x for x in v.args if isinstance(x, (str, C))]
        names = [x.v if isinstance(x, C) else x for x in text]
        for n in ("stdout", "stderr", "__stdout__", "__stderr__"):
            if n in names:
                return n.strip("_")
        for a in v.args:
            if isinstance(a, T):
                s = stream_of(a)
                if s in ("stdout", "stderr"):
                    return s
    return f"file {v!r}"


def pieces(v):
    """Text as a list of constants and terms."""
    if isinstance(v, C):
        return [str(v.v)] if not isinstance(v.v, (bytes, tuple)) else [v]
    if isinstance(v, T):
        if v.op in ("fstr", "concat", "+"):
            out = []
            for a in v.args:
                out += pieces(a)
            return out
        if v.op == "str" and len(v.args) == 1:
            return pieces(v.args[0])
        e = escaped(v)
        if e is not None:
            return pieces(e)
    return [v]


def escaped(v):
    """The text of which v is a visible escaping; None if v is something else."""
    if isinstance(v, T) and v.op in ("call", "pure") and v.args[0] == ".decode":
        inner = v.args[1]
        if isinstance(inner, T) and inner.op in ("call", "pure") and inner.args[0] == ".encode":
            if {x.v for x in inner.args[2:] if isinstance(x, C) and isinstance(x.v, str)} & ESCAPES:
                return inner.args[1]
            if any(isinstance(x, T) and x.op == "kw" for x in inner.args[2:]) and \
                    any(e in repr(inner) for e in ESCAPES):
                return inner.args[1]
    return None


def merge(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


def fails(v, safe=()):
    """May printing v fail with UnicodeEncodeError?"""
    if isinstance(v, C):
        return not str(v.v).isascii() if isinstance(v.v, str) else False
    if escaped(v) is not None:
        return False
    if isinstance(v, T):
        if v in safe:
            return False
        if v.op in ("fstr", "concat", "+", "str"):
            return any(fails(a, safe) for a in v.args)
        if v.op == "json":
            return not v.args[1].v
        if v.op in ("call", "pure") and v.args[0] in ("ascii", "builtins.ascii"):
            return False
    return True


def hooks(encode=True, safe=()):
    def emit(ip, s, c, stream, parts, text):
        ok = ip.event(s, "out", stream, None, parts, {}, c.node)
        out = [(ok, C(None))]
        if encode and any(fails(t, safe) for t in text):
            out.append((s.fact(("unencodable",), True), Raised(Exc("UnicodeEncodeError", (), c.node))))
        return out

    def show(ip, s, c):
        end = c.kw.get("end", C("\n"))
        end = C("\n") if end == C(None) else end
        sep = c.kw.get("sep", C(" "))
        parts = []
        text = list(c.args) + [end]
        for i, a in enumerate(c.args):
            if i:
                parts += pieces(sep)
            parts += pieces(a)
        parts += pieces(end)
        stream = stream_of(c.kw.get("file"))
        res = emit(ip, s, c, stream, wrap(merge(parts)), text)
        if c.kw.get("flush") == C(True):
            res = [(ip.event(x, "flush", stream, None, [], {}, c.node) if not isinstance(v, Raised) else x, v)
                   for x, v in res]
        return res

    def write(ip, s, c):
        if c.recv is None or not c.args:
            return None
        stream = stream_of(c.recv)
        if stream.startswith("file") or "std" not in repr(c.recv):
            return None
        return emit(ip, s, c, stream, wrap(merge(pieces(c.args[0]))), [c.args[0]])

    def lines(ip, s, c):
        if c.recv is None or "std" not in repr(c.recv):
            return None
        its = ip.seq_items(c.args[0], s)
        if its is None:
            return None
        ps = [x for i in its for x in pieces(i)]
        return emit(ip, s, c, stream_of(c.recv), wrap(merge(ps)), list(its))

    def flush(ip, s, c):
        if c.recv is None or "std" not in repr(c.recv):
            return None
        return [(ip.event(s, "flush", stream_of(c.recv), None, [], {}, c.node), C(None))]

    def value(c):
        ascii_ = c.kw.get("ensure_ascii", C(True))
        indent = c.kw.get("indent", C(None))
        return T("json", c.args[0], ascii_ if isinstance(ascii_, C) else C(False), indent)

    def dump(ip, s, c):
        v = value(c)
        fp = c.args[1] if len(c.args) > 1 else c.kw.get("fp")
        return emit(ip, s, c, stream_of(fp), [v], [v])

    def dumps(ip, s, c):
        return [(s, value(c))]
    return {"print": show, "builtins.print": show, ".write": write, ".writelines": lines, ".flush": flush,
            "json.dump": dump, "json.dumps": dumps}


def wrap(ps):
    return [C(p) if isinstance(p, str) else p for p in ps]


def written(s, stream="stdout"):
    """The pieces written to a stream on a path."""
    out = []
    for e in s.events():
        if e.kind == "out" and e.name == stream:
            out += [a.v if isinstance(a, C) and isinstance(a.v, str) else a for a in e.args]
    return merge(out)


def flushed(s, stream="stdout"):
    """Is everything flushed at the end of a path?"""
    pend = False
    for e in s.events():
        if e.name == stream and e.kind == "out" and e.args:
            pend = True
        elif e.name == stream and e.kind == "flush":
            pend = False
    return not pend


__all__ = ["hooks", "written", "flushed", "pieces", "merge", "stream_of", "escaped", "Tup", "mentions"]
