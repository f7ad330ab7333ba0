"""P17: output is complete, well-formed and goes to the right stream."""
import ast
import itertools
import re

from .. import output
from ..inventory import call_sites, dotted, own_nodes, scopes
from ..lib import *
from ..report import Undecided, new_state
from ..values import C, DictObj, Exc, Fn, ListObj, Raised, Ref, T, Tup

EXPLANATION = (
    "The consoles are interpreted symbolically with a model of the two output streams: for every "
    "combination of missing values, options and encoding failures the pieces of text a record puts on "
    "standard output must be the rendered fields joined by the separator and ended by the terminator, or "
    "nothing; the JSON pieces must form one object per line or one array for any number of records. "
    "Colouring is decided by removing the escape sequences. Writing sites of the whole program are "
    "audited for their stream, and writes of worker processes for the lock and the flush.")

K = "libff.console:"
PROC = "libff.processing:"
ENT = "libff.entry:Entry"


def run(r):
    r.rule("R1", "a text record is the rendered fields in order, joined by the separator and ended by the "
                 "terminator; a missing value is the empty string if --all or :n allows it, otherwise the "
                 "record is left out")
    r.rule("R2", "text that cannot be encoded is escaped, never lost and never a failure")
    r.rule("R3", "JSON output is one object per line, or one array of all records, for any number of them")
    r.rule("R4", "a JSON record has every requested attribute, null if it is missing")
    r.rule("R5", "what is written by a worker is flushed at once, and under a lock")
    r.rule("R6", "colours and padding never change the visible text")
    r.rule("R7", "diagnostics go to standard error, and only the output functions write to standard output")
    r.rule("R8", "the chosen console is the one for the options, and is closed once")
    r.rule("R9", "counts are printed completely, in the chosen format")
    r.floor = 150
    for name, f in (("R1", records), ("R3", json_records), ("R4", to_dict), ("R6", colours), ("R6", padding),
                    ("R2", codecs), ("R7", streams), ("R7", audit), ("R8", selection), ("R9", counts)):
        with r.guard(name, f.__name__):
            f(r)


def field(p, i, modifier=None, width=None, attr=None):
    a = Tup(tuple(C(x) for x in attr)) if attr else Tup((C(f"plugin{i}"), C(f"attr{i}")))
    return Tup((a, T("sym", f"type{i}"), C(width), C(modifier)), cls=p.cls("libff.field:Field"))


def text(i):
    return T("sym", f"text{i}")


def make(r, ip, cls, st):
    out = ip.call_value(Fn("class", r.p.cls(K + cls)), [CTX], {}, st, None)
    return [(s, c) for s, c in out if not isinstance(c, Raised)]


def number(v):
    for x in walk_terms(v):
        t = x.v if isinstance(x, C) else x.args[0] if isinstance(x, T) and x.op == "sym" else None
        if isinstance(t, str) and re.match(r"attr\d", t):
            return int(t[4])
    raise Undecided(f"attribute {v!r}")


def get_hooks():
    """Every attribute has a value or is missing; rendering gives a text of its own."""
    def pair(ip, s, c):
        i = number(c.args[-1])
        return [(s.fact(("missing", i), False), Tup((T("sym", f"value{i}"), T("sym", f"type{i}")))),
                (s.fact(("missing", i), True), Raised(Exc("KeyError", (), c.node)))]

    def single(ip, s, c):
        i = number(c.args[-1])
        return [(s.fact(("missing", i), False), T("sym", f"value{i}")),
                (s.fact(("missing", i), True), Raised(Exc("KeyError", (), c.node)))]

    def kind(ip, s, c):
        return [(s, T("sym", f"type{number(c.args[-1])}"))]

    def render(ip, s, c):
        for x in [c.recv] + list(c.args):
            for y in walk_terms(x) if x is not None else ():
                if isinstance(y, T) and y.op == "sym" and str(y.args[0]).startswith("value"):
                    i = int(str(y.args[0])[5:])
                    want = T("sym", f"type{i}")
                    if not (mentions(c.recv, want) if c.recv is not None else mentions(Tup(tuple(c.args)), want)):
                        s = s.fact(("wrong type",), i)
                    return [(s.fact(("rendered", i), tuple(c.args)), text(i))]
        return None
    reg = "libff.registry:Registry."
    return {reg + "get_attribute_and_type": pair, reg + "get_attribute": single, reg + "get_attribute_type": kind,
            ".output": render}


def settings(st, **kw):
    base = {"separator": C("|"), "newline": T("sym", "newline"), "profile": C(None), "all": C(False)}
    base.update(kw)
    for k, v in base.items():
        st = st.setfield(ARGS, k, v)
    return st


# ------------------------------------------------------------------ R1, R2, R5
def records(r):
    p = r.p
    NEWLINE = T("sym", "newline")
    fi = p.find_method(p.cls(K + "Console"), "process")
    plans = [(n, mods) for n in (1, 2) for mods in itertools.product((None, "n", "h"), repeat=n)]
    plans += [(3, m) for m in ((None,) * 3, ("n",) * 3, ("n", None, "x"))]
    if r.thorough:
        plans += [(3, m) for m in itertools.product((None, "n", "h", "o"), repeat=3)]
        plans += [(4, m) for m in itertools.product((None, "n"), repeat=4)]
    for n, mods in plans:
        for all_ in (True, False):
            for cls in ("Console",) + (("ColorConsole",) if mods[0] is None else ()):
                sub = f"{cls} fields {mods}{' --all' if all_ else ''}"
                with r.guard("R1", sub):
                    hk = get_hooks()
                    hk.update(output.hooks(safe=(NEWLINE,)))
                    hk.update(environ(""))
                    ip = r.interp(hooks=hk, inst={K + cls}, max_loop=n + 2)
                    st = settings(new_state(), all=C(all_))
                    st, l = st.new(ListObj(tuple(field(p, i, m) for i, m in enumerate(mods))))
                    st = st.setfield(ARGS, "output", l)
                    fi = p.find_method(p.cls(K + cls), "process")
                    seen = 0
                    for s, c in make(r, ip, cls, st)[:1]:
                        base = len(output.written(s))
                        res = ip.call_func(fi, [c, T("sym", "entry")], {}, s, None)
                        r.account(ip, len(res))
                        for s2, v in res:
                            if isinstance(v, T) and v.op == "cut":
                                continue
                            seen += 1
                            got = output.written(s2)[base:]
                            if isinstance(v, Raised):
                                rule = "R2" if v.exc.name.startswith("Unicode") else "R1"
                                r.bad(rule, sub, f"printing a record fails with {v.exc.name}", fi.loc, describe(s2))
                                continue
                            miss = [i for i in range(n) if s2.facts.get(("missing", i))]
                            asked = [i for i in range(n) if ("missing", i) in s2.facts]
                            out = any(not all_ and mods[i] != "n" for i in miss)
                            if out:
                                r.check(not got, "R1", f"{sub}: missing {miss}", f"a record with a missing value is "
                                        f"printed as {show(got)}", fi.loc, describe(s2))
                                continue
                            if len(asked) != n:
                                r.bad("R1", f"{sub}: fields", f"only the fields {asked} are looked at", fi.loc,
                                      describe(s2))
                                continue
                            want = []
                            for i in range(n):
                                want += (["|"] if i else []) + ([] if i in miss else [text(i)])
                            want = output.merge(want + [T("sym", "newline")])
                            rule = "R2" if s2.facts.get(("unencodable",)) else "R1"
                            r.check(got == want, rule, f"{sub}: missing {miss}", f"the record is printed as "
                                    f"{show(got)} instead of {show(want)}", fi.loc, describe(s2))
                            wrong = s2.facts.get(("wrong type",))
                            r.check(wrong is None, "R1", f"{sub}: types", f"value {wrong} is rendered by another type",
                                    fi.loc, describe(s2))
                            for i in range(n):
                                a = s2.facts.get(("rendered", i))
                                if a is not None and mods[i] is not None:
                                    r.check(C(mods[i]) in a, "R1", f"{sub}: modifier", f"the modifier {mods[i]!r} is "
                                            f"not used for field {i}", fi.loc, describe(s2))
                            protected(r, s2, sub, fi)
                    if not seen:
                        r.skip("R1", sub, "no path")
    with r.guard("R1", "separator"):
        for given, want in (("\\t", "\t"), ("\\n", "\n"), (" ", " "), ("a\\tb", "a\tb"), ("\\0", "\\0"), ("", "")):
            ip = r.interp(hooks=output.hooks(encode=False) | get_hooks(), inst={K + "Console"}, max_loop=4)
            st = settings(new_state(), separator=C(given), newline=C("\0"))
            st, l = st.new(ListObj((field(p, 0, attr=("x", "attr0")), field(p, 1, attr=("x", "attr1")))))
            st = st.setfield(ARGS, "output", l)
            fi = p.find_method(p.cls(K + "Console"), "process")
            for s, c in make(r, ip, "Console", st)[:1]:
                for s2, v in ip.call_func(fi, [c, T("sym", "entry")], {}, s, None):
                    if s2.facts.get(("missing", 0)) or s2.facts.get(("missing", 1)) or isinstance(v, Raised):
                        continue
                    got = output.written(s2)
                    exp = output.merge([text(0), want, text(1), "\0"])
                    if given == "\\0" and got == output.merge([text(0), "\0", text(1), "\0"]):
                        got = exp
                    r.check(got == exp, "R1", f"separator {given!r}", f"the record is printed as {show(got)}", fi.loc)


def show(ps):
    return "+".join(repr(x) if isinstance(x, str) else short(x) for x in ps) or "nothing"


def protected(r, s, sub, fi):
    """Flush, and the lock around everything that is written (R5)."""
    r.check(output.flushed(s), "R5", f"{sub}: flush", "a record is not flushed, it is lost when the process ends",
            fi.loc, describe(s))
    held = []
    for e in s.events():
        if e.kind == "enter":
            held.append(e.recv)
        elif e.kind == "exit" and held:
            held.pop()
        elif e.kind == "call" and e.name.endswith("acquire"):
            held.append(e.recv)
        elif e.kind == "call" and e.name.endswith("release") and held:
            held.pop()
        elif e.name == "stdout" and e.kind in ("out", "flush"):
            ok = any(h is not None and ("lock" in repr(h).lower()) for h in held)
            r.check(ok, "R5", f"{sub}: lock", "a record is written while other processes may write to the same "
                    "stream", fi.loc, describe(s))


# ------------------------------------------------------------------ R3
def json_records(r):
    p = r.p
    for cls, form in (("JsonlConsole", "lines"), ("JsonConsole", "array")):
        fi = p.find_method(p.cls(K + cls), "process")
        fc = p.find_method(p.cls(K + cls), "close")
        for n in range(0, 6 if r.thorough else 4):
            sub = f"{cls}, {n} records"
            with r.guard("R3", sub):
                recs = [T("sym", f"record{i}") for i in range(n)]

                def to_dict(ip, s, c):
                    i = next((i for i in range(n) if mentions(c.args[-1], T("sym", f"entry{i}"))), None)
                    if i is None:
                        raise Undecided("record of an unknown entry")
                    return [(s, recs[i])]
                hk = output.hooks(safe=(T("sym", "newline"),))
                hk.update({"libff.field:OutputFields.to_dict": to_dict, ".to_dict": to_dict})
                ip = r.interp(hooks=hk, inst={K + cls}, max_loop=n + 2)
                for s, c in make(r, ip, cls, settings(new_state())):
                    cur = [(s, None)]
                    for i in range(n):
                        nxt = []
                        for s, _ in cur:
                            for s2, v in ip.call_func(fi, [c, T("sym", f"entry{i}")], {}, s, None):
                                if isinstance(v, Raised):
                                    r.bad("R3", sub, f"printing a record fails with {v.exc.name}", fi.loc, describe(s2))
                                else:
                                    nxt.append((s2, v))
                        cur = nxt[:20]
                    for s, _ in cur:
                        for s2, v in ip.call_func(fc, [c], {}, s, None):
                            if isinstance(v, Raised):
                                r.bad("R3", sub, f"the end of the output fails with {v.exc.name}", fc.loc, describe(s2))
                                continue
                            shape(r, s2, sub, form, recs, fc)
                            if form == "lines":
                                protected(r, s2, sub, fi)
                            r.check(not output.written(s2, "stderr"), "R3", f"{sub}: errors", "a record is written "
                                    "to standard error", fi.loc, describe(s2))
                r.account(ip, len(cur))


def shape(r, s, sub, form, recs, fi):
    got = output.written(s)
    flat, objs = "", []
    for x in got:
        if isinstance(x, str):
            flat += x
        elif isinstance(x, T) and x.op == "json":
            objs.append(x.args[0])
            flat += "\x01" if x.args[2] == C(None) else "\x02"
        else:
            r.skip("R3", sub, f"piece {short(x)}")
            return
    if form == "lines":
        ok = re.fullmatch(r"(\x01\n)*", flat) is not None
    else:
        ok = re.fullmatch(r"\s*\[\s*([\x01\x02](\s*,\s*[\x01\x02])*)?\s*\]\s*", flat) is not None
    r.check(ok, "R3", sub, f"{len(recs)} records are printed as {show(got)}", fi.loc, describe(s))
    r.check(objs == recs, "R3", f"{sub}: records", f"the records {[short(o) for o in objs]} are printed instead of "
            f"{[short(o) for o in recs]}", fi.loc, describe(s))
    if form == "array":
        r.check(flat.endswith("\n"), "R3", f"{sub}: last line", "the output does not end with a newline", fi.loc)


# ------------------------------------------------------------------ R4
def to_dict(r):
    p = r.p
    qual = "libff.field:OutputFields"
    fi = p.find_method(p.cls(qual), "to_dict")
    plans = [(None,), ("n",), ("h",), (None, None), ("n", None), ("h", None), (None, "h", "n"), (None, None, None)]
    if r.thorough:
        plans += list(itertools.product((None, "h", "n", "o"), repeat=3))
    for mods in plans:
        n = len(mods)
        for all_ in (False, True):
            sub = f"record of {mods}{' --all' if all_ else ''}"
            with r.guard("R4", sub):
                hk = get_hooks()
                hk["libff.registry:Registry.setup_attribute"] = hk["libff.registry:Registry.parse_attribute"] = \
                    lambda ip, s, c: [(s, T("sym", f"attr{number(c.args[-1])}"))]
                ip = r.interp(hooks=hk, inst={qual}, max_loop=2 * n + 2, fold_re=True)
                st = settings(new_state(), all=C(all_))
                st, argv = st.new(ListObj(tuple(C(f"attr{i}" + (f":{m}" if m else "")) for i, m in enumerate(mods))))
                good = [(s, f) for s, f in ip.call_value(Fn("class", p.cls(qual)), [CTX, argv], {}, st, None)
                        if not isinstance(f, Raised)]
                res = [x for s, f in good for x in ip.call_func(fi, [f, T("sym", "entry")], {}, s, None)]
                r.account(ip, len(res))
                done = 0
                for s, v in res:
                    if isinstance(v, Raised):
                        r.bad("R4", sub, f"fails with {v.exc.name}", fi.loc, describe(s))
                        continue
                    got = pairs(s, v)
                    if got is None:
                        continue
                    done += 1
                    for i in range(n):
                        mine = [w for k, w in got if name_index(k) == i]
                        if len(mine) != 1:
                            r.bad("R4", f"{sub}: field {i}", f"the record has {len(mine)} values for an attribute",
                                  fi.loc, describe(s))
                            continue
                        if s.facts.get(("missing", i)):
                            r.check(mine[0] == C(None), "R4", f"{sub}: missing {i}", "a missing value is "
                                    f"{short(mine[0])}", fi.loc, describe(s))
                        else:
                            want = text(i) if mods[i] == "h" else T("sym", f"value{i}")
                            r.check(mine[0] == want, "R4", f"{sub}: value {i}", f"the value is {short(mine[0])}",
                                    fi.loc, describe(s))
                    r.check(len(got) == n, "R4", f"{sub}: size", f"the record has {len(got)} values", fi.loc,
                            describe(s))
                if not done:
                    r.skip("R4", sub, "no record")


def name_index(v):
    for x in walk_terms(v):
        t = x.v if isinstance(x, C) else x.args[0] if isinstance(x, T) and x.op == "sym" else None
        if isinstance(t, str) and re.fullmatch(r"attr\d", t):
            return int(t[4:])
    return None


def pairs(s, v):
    if isinstance(v, Ref):
        o = s.heap.get(v.id)
        if isinstance(o, DictObj):
            return list(o.items)
    return None


# ------------------------------------------------------------------ R6
RULES = ["", "di=1;34", "di=1;34:*.py=33:ex=32:ln=36:or=31", "rs=:di=1:*.py=3", "rs=0;1:di=:ex=:*.py=",
         "*.tar.gz=1:*.py:=::di=5=6:x", "di=1;34:ln=target:*.PY=1:*x=7", "no=0:fi=0:mh=00:*=1:*.=2:.py=4"]
PATHS = [("a/f.py", "a", "f.py"), ("f.py", "", "f.py"), ("/lib.py", "/", "lib.py"), ("/usr/f", "/usr", "f"),
         ("a b/c\td/x.tar.gz", "a b/c\td", "x.tar.gz"), (" a/ b .py ", " a", " b .py "), ("./f", ".", "f"), ("../d.d/f.PY", "../d.d", "f.PY")]
KINDS = {"file": {}, "executable": {"exec": True}, "directory": {"dir": True}, "link": {"link": True},
         "broken link": {"link": True, "broken": True}, "link to a directory": {"link": True, "dir": True}}


def environ(value):
    def get(ip, s, c):
        if c.recv is not None and "environ" not in repr(c.recv):
            return None
        key = next((a for a in c.args if isinstance(a, C)), None)
        return [(s, C(value) if key == C("LS_COLORS") else C(""))]
    return {"os.environ.get": get, "os.getenv": get, ".get": get}


def colours(r):
    p = r.p
    for cls in ("Console", "ColorConsole"):
        ci = p.cls(K + cls)
        fi = p.find_method(ci, "format_field")
        for ls in RULES if cls == "ColorConsole" else RULES[:1]:
            for path, dir_, name in PATHS if r.thorough or cls == "Console" else PATHS[:6]:
                for kind, flags in KINDS.items():
                    sub = f"{cls} {ls!r} {kind} {path!r}"
                    with r.guard("R6", sub):
                        coloured(r, cls, fi, ls, (path, dir_, name), kind, flags, sub)


def entry_hooks(flags):
    def flag(name):
        return lambda ip, s, c: [(s, C(bool(flags.get(name))))]
    hk = {}
    for m, n in (("is_dir", "dir"), ("is_symlink", "link"), ("is_executable", "exec")):
        hk["." + m] = hk[f"{ENT}.{m}"] = flag(n)
    return hk


def coloured(r, cls, fi, ls, names, kind, flags, sub):
    p = r.p
    path, dir_, name = names
    entry = T("sym", "entry")
    hk = get_hooks()
    hk.update(output.hooks(encode=False))
    hk.update(environ(ls))
    hk.update(entry_hooks(flags))
    st = settings(new_state(), follow_symlinks=C(False))
    st, l = st.new(ListObj(()))
    st = st.setfield(ARGS, "output", l)
    ext = name.rsplit(".", 1)[1] if "." in name else ""
    for k, v in (("path", path), ("dir", dir_), ("name", name), ("ext", ext), ("link", "target"),
                 ("broken", bool(flags.get("broken")))):
        st = st.setfield(entry, k, C(v))
    ip = r.interp(hooks=hk, inst={K + cls}, max_loop=12)
    consoles = make(r, ip, cls, st)
    if len(consoles) != 1:
        raise Undecided(f"{len(consoles)} paths through the constructor")
    for s, c in consoles:
        for attr, mod, want in (("path", None, path), ("name", None, name), ("dir", None, dir_),
                                ("path", "h", path + (" -> target" if flags.get("link") and not flags.get("dir")
                                                      else ""))):
            for width in (None, "12", "-12", "2"):
                f = field(p, 0, mod, width, ("file", attr))
                ip.steps = 0
                res = ip.call_func(fi, [c, entry, f], {}, s, None)
                r.account(ip, len(res))
                for s2, v in res:
                    here = f"{sub} {attr}{':' + mod if mod else ''}{' width ' + width if width else ''}"
                    if isinstance(v, Raised):
                        r.bad("R6", here, f"fails with {v.exc.name}", fi.loc, describe(s2))
                        continue
                    if not (isinstance(v, C) and isinstance(v.v, str)):
                        r.skip("R6", here, short(v))
                        continue
                    got = re.sub(r"\x1b\[[0-9;=a-z]*?m", "", v.v)
                    w = padded(want, width)
                    if mod == "h" and flags.get("link") and flags.get("dir"):
                        # Whether the target of a link to a directory is shown is not settled.
                        ok = got in (w, padded(path + " -> target", width))
                    else:
                        ok = got == w
                    r.check(ok, "R6", here, f"shown as {v.v!r}, which reads {got!r} instead of {w!r}", fi.loc)
                    r.check(cls == "ColorConsole" or "\x1b" not in v.v, "R6", f"{here}: plain", "escape sequences in "
                            "plain output", fi.loc)
                    if cls == "ColorConsole":
                        seqs = re.findall(r"\x1b\[([^m]*)m", v.v)
                        r.check(not seqs or len(seqs) > 1 or "rs=:" in ls or "rs=" in ls, "R6", f"{here}: reset",
                                f"the colour is not reset in {v.v!r}", fi.loc)


def padded(text, width):
    if width is None:
        return text
    w = int(width)
    return text.ljust(-w) if w < 0 else text.rjust(w)


def padding(r):
    """Fields of other attributes: padded by spaces around the rendered value."""
    p = r.p
    for cls in ("Console", "ColorConsole"):
        fi = p.find_method(p.cls(K + cls), "format_field")
        for value in ("", "abc", "12345678901234", "\u00e4\u00f6"):
            for width in (None, "5", "-5", "14", "-14", "1"):
                sub = f"{cls} value {value!r} width {width}"
                with r.guard("R6", sub):
                    hk = get_hooks()
                    hk[".output"] = lambda ip, s, c: [(s, C(value))]
                    hk.update(environ("di=1:*.py=3"))
                    ip = r.interp(hooks=hk, inst={K + cls}, max_loop=6)
                    st, l = settings(new_state()).new(ListObj(()))
                    st = st.setfield(ARGS, "output", l)
                    for s, c in make(r, ip, cls, st)[:1]:
                        res = ip.call_func(fi, [c, T("sym", "entry"), field(p, 0, None, width)], {}, s, None)
                        r.account(ip, len(res))
                        for s2, v in res:
                            if s2.facts.get(("missing", 0)):
                                r.check(isinstance(v, Raised) and v.exc.name == "KeyError", "R6", f"{sub}: missing",
                                        f"a missing value is formatted as {short(v)}", fi.loc)
                            elif isinstance(v, C):
                                r.check(v.v == padded(value, width), "R6", sub, f"shown as {v.v!r}", fi.loc)
                            elif isinstance(v, Raised):
                                r.bad("R6", sub, f"fails with {v.exc.name}", fi.loc, describe(s2))
                            else:
                                r.skip("R6", sub, short(v))


# ------------------------------------------------------------------ R7
LOG = "libff.logger:Logger"
WRITERS = {"libff.console", "libff.processing", "libff.help", "libff.argparse", "libff.main"}


def streams(r):
    """Everything the logger and the usage errors write goes to standard error."""
    p = r.p
    ci = p.cls(LOG)
    todo = [(ci, n) for n in sorted({n for c in p.mro(ci) for n in getattr(c, "methods", {})})
            if not n.startswith("_") and n != "set_debug"]
    ap = p.modules["libff.argparse"].classes.get("ArgumentParser")
    if ap is not None and p.find_method(ap, "error") is not None:
        todo.append((ap, "error"))
    for c, n in todo:
        fi = p.find_method(c, n)
        a = fi.node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        static = any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property")
                     for d in fi.node.decorator_list)
        with r.guard("R7", f"{c.name}.{n}"):
            ip = r.interp(hooks=output.hooks(encode=False), max_loop=3, debug=True)
            me = obj(p, c.qual)
            kw = {x: T("sym", x) for x in params[0 if static else 1:]}
            res = ip.call_func(fi, [] if static else [me], kw, new_state(), None)
            r.account(ip, len(res))
            wrote = False
            for s, v in res:
                for e in s.events():
                    if e.kind == "out":
                        wrote = True
                        if e.name.startswith("file"):
                            r.skip("R7", f"{c.name}.{n}", e.name)
                            continue
                        r.check(e.name == "stderr", "R7", f"{c.name}.{n}", f"a message is written to {e.name}",
                                fi.loc, describe(s))
            if not wrote:
                r.skip("R7", f"{c.name}.{n}", "writes nothing that is known")
    # The text of the message is written, whatever its category is.
    for n in ("warning", "hint", "error", "info"):
        fi = p.find_method(ci, n)
        if fi is None:
            continue
        with r.guard("R7", f"text of {n}"):
            ip = r.interp(hooks=output.hooks(encode=False), max_loop=3)
            kw = {"exitcode": C(None)} if "exitcode" in [x.arg for x in fi.node.args.args] else {}
            if "tag" in [x.arg for x in fi.node.args.args]:
                kw["tag"] = C(None)
            for s, v in ip.call_func(fi, [obj(p, LOG), T("sym", "message")], kw, new_state(), None):
                got = [e for e in s.events() if e.kind == "out" and
                       any(mentions(a, T("sym", "message"), s) for a in e.args)]
                r.check(len(got) == 1, "R7", f"text of {n}", f"the message is written {len(got)} times", fi.loc,
                        describe(s))


def audit(r):
    """Writes to standard output are part of the output functions."""
    p = r.p
    sites = call_sites(p)
    by_scope = {}
    for s in sites:
        by_scope.setdefault(s.scope, []).append(s)
    for s in sites:
        st = written_to(p, s)
        if st is None:
            continue
        if st == "?" and s.module.name not in WRITERS:
            r.skip("R7", s.where, "stream is not known")
            continue
        if st in ("stderr", "?"):
            r.ok("R7", s.where)
            continue
        r.check(allowed(p, s, sites), "R7", s.where, "standard output is written outside of the output functions",
                s.where)


def allowed(p, s, sites, seen=()):
    if s.module.name in WRITERS:
        return True
    name = s.scope.split(":")[1].split(".")[-1]
    if not name or s.scope in seen:
        return False
    used = [x for x in sites if (x.method or (x.name or "").split(":")[-1].split(".")[-1]) == name and x.scope != s.scope]
    return bool(used) and all(allowed(p, x, sites, seen + (s.scope,)) for x in used)


def written_to(p, s):
    """The stream a call writes to: stdout, stderr, ? or None if it is no such call."""
    def stream(e):
        d = dotted(p, s.module, e)
        if d in ("sys.stdout", "sys.__stdout__", "sys.stdout.buffer"):
            return "stdout"
        if d in ("sys.stderr", "sys.__stderr__", "sys.stderr.buffer"):
            return "stderr"
        if isinstance(e, ast.Constant) and e.value is None:
            return "stdout"
        return None
    if s.name == "builtins.print":
        f = s.arg(None, "file")
        return "stdout" if f is None else stream(f) or "?"
    if s.method in ("write", "writelines"):
        return stream(s.node.func.value)
    if s.name == "json.dump":
        f = s.arg(1, "fp")
        return stream(f) if f is not None else "?"
    if s.name == "os.write" and s.node.args and isinstance(s.node.args[0], ast.Constant):
        return {1: "stdout", 2: "stderr"}.get(s.node.args[0].value)
    return None


# ------------------------------------------------------------------ R8
def selection(r):
    p = r.p
    made = {}

    def maker(qual):
        def h(ip, s, c):
            return [(ip.event(s, "console", qual, None, list(c.args), {}, c.node), T("sym", "console " + qual))]
        return h
    hk = {ci.qual: maker(ci.qual) for ci in [p.cls(K + "BaseConsole")] + list(p.subclasses(p.cls(K + "BaseConsole")))}
    for cname in ("ImmediateConsoleProcessing", "CollectiveConsoleProcessing"):
        ci = p.cls(PROC + cname)
        fi = p.find_method(ci, "__init__")
        for count, js, color, tty in itertools.product((False, True), (None, "json", "jsonl"),
                                                       ("auto", "always", "never"), (False, True)):
            sub = f"{cname}: count={count} json={js} color={color} terminal={tty}"
            with r.guard("R8", sub):
                h = dict(hk)
                h[".isatty"] = lambda ip, s, c: [(s, C(tty))]
                h["os.isatty"] = h[".isatty"]
                ip = r.interp(hooks=h, inst={ci.qual})
                st = settings(new_state(), count=T("sym", "count") if count else C(None), json=C(js), color=C(color),
                              sort=C(None), limit=C(None))
                st = st.fact(("truth", T("sym", "count")), True)
                want = "NullConsole" if count else {"json": "JsonConsole", "jsonl": "JsonlConsole"}.get(js) or \
                    ("ColorConsole" if color == "always" or color == "auto" and tty else "Console")
                res = ip.call_value(Fn("class", ci), [CTX], {}, st, None)
                r.account(ip, len(res))
                for s, v in res:
                    if isinstance(v, Raised):
                        r.bad("R8", sub, f"fails with {v.exc.name}", fi.loc, describe(s))
                        continue
                    got = [e.name for e in s.events() if e.kind == "console"]
                    if len(got) != 1 or not got[0].startswith(K):
                        r.skip("R8", sub, f"consoles {got}")
                        continue
                    r.check(got[0] == K + want, "R8", sub, f"the console is {got[0]} instead of {want}", fi.loc,
                            describe(s))
                    made[(cname, got[0])] = v
        with r.guard("R8", f"{cname}.close"):
            fc = p.find_method(ci, "close")
            con = T("new", p.cls(K + "JsonConsole"), C(0))
            closes = {c.qual + ".close": (lambda ip, s, c: [(ip.event(s, "closed", "console", c.recv, [], {}, c.node),
                                                            C(None))])
                      for c in [p.cls(K + "BaseConsole")] + list(p.subclasses(p.cls(K + "BaseConsole")))}
            ip = r.interp(hooks=closes, opaque=lambda f: f.name == "print_count")
            me = obj(p, ci.qual)
            st = settings(new_state(), count=C(None)).setfield(me, "console", con)
            res = ip.call_func(fc, [me], {}, st, None)
            r.account(ip, len(res))
            for s, v in res:
                n = sum(e.kind == "closed" for e in s.events())
                r.check(n == 1 and not isinstance(v, Raised), "R8", f"{cname}.close", f"the console is closed {n} times",
                        fc.loc, describe(s))
    with r.guard("R8", "NullConsole"):
        fi = p.find_method(p.cls(K + "NullConsole"), "process")
        ip = r.interp(hooks=output.hooks(encode=False))
        for s, v in ip.call_func(fi, [obj(p, K + "NullConsole"), T("sym", "entry")], {}, new_state(), None):
            r.check(not output.written(s), "R8", "NullConsole", "something is printed while counting", fi.loc)
    with r.guard("R8", "end"):
        from . import p06
        fi = p.func("libff.main:Main.walk")
        for s, v in (x for code in (0, 1, 2, 3, 4) for x in p06.walk_outcomes(r, code)):
            if isinstance(v, Raised) and v.exc.name == "KeyboardInterrupt":
                continue
            n = sum(e.kind == "call" and e.name.endswith("close") and e.recv == comp("processing") for e in s.events())
            r.check(n == 1, "R8", "end of the search", f"the output is closed {n} times", fi.loc, describe(s))


# ------------------------------------------------------------------ R9
def counts(r):
    p = r.p
    q = PROC + "CollectiveConsoleProcessing"
    fi = p.find_method(p.cls(q), "print_count")
    cases = [{"_total": 3}, {"_total": 0}, {"_total": 12, "file.size": 2048, "file.type": {"f": 10, "d": 2}},
             {"_total": 3, "file.size": "2.0K", "file.depth": {"10": 1, "9": 1, "1": 1}},
             {"_total": 1, "file.ext": {"": 1}}, {"_total": 2, "file.mime": {}},
             {"_total": 4, "x.y": {"a\u00e4": 1, "b": 2, "\udcff": 1}}]
    for js in (None, "json", "jsonl"):
        for n, case in enumerate(cases):
            for coded in (False, True):
                sub = f"count {n} json={js}{' unencodable' if coded else ''}"
                with r.guard("R9", sub):
                    def prepare(ip, s, c):
                        items = []
                        for k, v in case.items():
                            if isinstance(v, dict):
                                s, d = s.new(DictObj(tuple((C(a), C(b)) for a, b in v.items())))
                                items.append((C(k), d))
                            else:
                                items.append((C(k), C(v)))
                        s, d = s.new(DictObj(tuple(items)))
                        return [(s, d)]
                    hk = output.hooks(encode=coded)
                    hk[p.find_method(p.cls(q), "prepare_count").qual] = prepare
                    ip = r.interp(hooks=hk, max_loop=8, max_elems=8)
                    st = settings(new_state(), json=C(js))
                    res = ip.call_func(fi, [obj(p, q)], {}, st, None)
                    r.account(ip, len(res))
                    for s, v in res:
                        if isinstance(v, T) and v.op == "cut":
                            continue
                        if isinstance(v, Raised):
                            r.bad("R9", sub, f"printing the counts fails with {v.exc.name}", fi.loc, describe(s))
                            continue
                        count_text(r, s, output.written(s), js, case, sub, fi, coded)


def count_text(r, s, got, js, case, sub, fi, coded):
    if js is not None:
        ok = len(got) == 2 and isinstance(got[0], T) and got[0].op == "json" and got[1] == "\n"
        if not ok and any(not isinstance(x, str) and not (isinstance(x, T) and x.op == "json") for x in got):
            r.skip("R9", sub, show(got))
            return
        r.check(ok, "R9", sub, f"the counts are printed as {show(got)}", fi.loc, describe(s))
        if ok:
            o = s.heap.get(got[0].args[0].id) if isinstance(got[0].args[0], Ref) else None
            keys = {k.v for k, _ in o.items} if isinstance(o, DictObj) else None
            if keys is not None:
                r.check(keys == set(case), "R9", f"{sub}: keys", f"the counts printed are {sorted(keys)}", fi.loc)
        return
    want = []
    for k, v in case.items():
        want += [f"{k}[{a}]={b}" for a, b in v.items()] if isinstance(v, dict) else [f"{k}={v}"]
    if not all(isinstance(x, str) for x in got):
        r.skip("R9", sub, show(got))
        return
    lines = "".join(got)
    have = lines.split("\n")
    if coded and s.facts.get(("unencodable",)):
        # An escaped line is printed instead.
        have = [h for h in have]
    r.check(have[-1] == "" and sorted(have[:-1]) == sorted(want), "R9", sub, f"the counts are printed as {lines!r}",
            fi.loc, describe(s))


# ------------------------------------------------------------------ R2
def codecs(r):
    """Text is escaped for the encoding of standard output, not for that of something else."""
    p = r.p
    for s in call_sites(p):
        if s.method != "encode":
            continue
        how = s.arg(1, "errors")
        if not (isinstance(how, ast.Constant) and how.value in output.ESCAPES):
            continue
        enc = s.arg(0, "encoding")
        kinds = codec(p, s, enc)
        if kinds & {"stdout", "ascii"} and "?" not in kinds:
            r.ok("R2", f"codec at {s.where}")
        elif kinds and "?" not in kinds:
            r.bad("R2", f"codec at {s.where}", "the text is escaped for another encoding than that of standard output: "
                  + ", ".join(sorted(kinds)), s.where)
        else:
            r.skip("R2", f"codec at {s.where}", "the encoding is not known")


OTHER = {"sys.getfilesystemencoding", "sys.getdefaultencoding", "locale.getpreferredencoding", "locale.getencoding"}


def codec(p, s, e, depth=0):
    """Where an encoding comes from."""
    if e is None:
        return {"utf-8"}
    if depth > 5:
        return {"?"}
    if isinstance(e, ast.Constant):
        return {"ascii"} if str(e.value).lower().replace("-", "") in ("ascii", "usascii") else {str(e.value)}
    for n in ast.walk(e):
        if isinstance(n, (ast.Attribute, ast.Name)) and dotted(p, s.module, n) in ("sys.stdout", "sys.__stdout__"):
            return {"stdout"}
    found = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            d = dotted(p, s.module, n.func)
            if d in OTHER:
                found.add(d)
    if found:
        return found
    if isinstance(e, ast.Name):
        vals = [x.value for m in (s.module,) for sc, node in scopes(m) if sc == s.scope or sc.endswith(":")
                for x in own_nodes(node) if isinstance(x, ast.Assign) and
                any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
    elif isinstance(e, ast.Attribute):
        vals = [x.value for m in p.modules.values() for c in m.classes.values() for x in ast.walk(c.node)
                if isinstance(x, ast.Assign) for t in x.targets
                if isinstance(t, ast.Name) and t.id == e.attr and x in c.node.body or
                isinstance(t, ast.Attribute) and t.attr == e.attr]
    else:
        return {"?"}
    out = set()
    for v in vals:
        out |= codec(p, s, v, depth + 1)
    return out or {"?"}
