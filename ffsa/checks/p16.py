"""P16: the metadata cache is transparent."""
import ast
import re

from ..inventory import call_sites
from ..lib import *
from ..report import Undecided, new_state
from ..schema import plugins
from ..values import C, DictObj, Exc, Fn, ListObj, Raised, Ref, Splice, T, Tup
from .p06 import initial
from .p08 import stop_hooks
from .p11 import kind_hooks

EXPLANATION = (
    "The methods of the cache are interpreted symbolically: the statements they execute are parsed, and "
    "the values bound to the columns for storing and for looking up must be the same injective encodings "
    "of path and tag. Storing is followed through flushing and closing with several rows, plugins and a "
    "locked database; every row must be inserted and committed before the connection is closed. The use "
    "of the cache by the registry is decided for every outcome of the lookup and of the plugin; tables of "
    "old plugin versions, cleaning and the end of the processes are decided in the same way.")

Q = "libff.cache:Cache"
NULL = "libff.cache:NullCache"
PATH, TAG, OBJ = T("sym", "path"), T("sym", "tag"), T("sym", "object")
PL = T("sym", "plugin")
LOSSY = {"ignore", "replace", "backslashreplace", "xmlcharrefreplace", "namereplace"}


def run(r):
    r.rule("R1", "a value is looked up in the table of the plugin and its version, by path and tag, and "
                 "found under exactly the key it was stored with")
    r.rule("R2", "keys of different files are different")
    r.rule("R3", "the registry uses a cached value only if there is one, and stores what the plugin "
                 "delivered, including 'no data', under the same key")
    r.rule("R4", "every stored row is inserted and committed before the cache is closed")
    r.rule("R5", "only tables of older versions of the same plugin are dropped")
    r.rule("R6", "the version of a plugin changes with its source, and the tag of an entry with its "
                 "modification time")
    r.rule("R7", "cleaning removes only rows of files that no longer exist, and commits before reclaiming "
                 "space")
    r.rule("R8", "both kinds of cache have every member that is used")
    r.rule("R9", "the cache is closed when a worker or the main process ends normally")
    r.floor = 60
    for name, f in (("R1", keys), ("R3", registry), ("R4", storing), ("R5", tables), ("R6", versions),
                    ("R7", cleaning), ("R8", interface), ("R9", closing)):
        with r.guard(name, f.__name__):
            f(r)


# ------------------------------------------------------------------ statements
def text_of(v):
    """A statement as text, with every computed part written as {n}; the parts."""
    parts = []

    def go(x):
        if isinstance(x, C) and isinstance(x.v, str):
            return x.v
        if isinstance(x, T) and x.op in ("fstr", "concat", "+"):
            return "".join(go(y) for y in x.args)
        if isinstance(x, T) and x.op == "str" and len(x.args) == 1:
            return go(x.args[0])
        if isinstance(x, T) and x.op in ("call", "pure") and x.args[0] == ".format" and \
                isinstance(x.args[1], C) and isinstance(x.args[1].v, str):
            out, rest = x.args[1].v, [y for y in x.args[2:] if y is not None]
            for y in rest:
                if "{}" in out:
                    a, b = out.split("{}", 1)
                    parts.append(y)
                    out = f"{a}{{{len(parts) - 1}}}{b}"
            return out
        parts.append(x)
        return f"{{{len(parts) - 1}}}"
    t = " ".join(go(v).split())
    return t, parts


def parse(v):
    """dict(kind, table, cols, where) of an SQL statement; None if it is not understood."""
    t, parts = text_of(v)
    t = t.strip().rstrip(";").strip()
    name = r"([\w{}\"'\[\]]+)"

    def table(s):
        s = s.strip("\"'[]")
        m = re.fullmatch(r"\{(\d+)\}", s)
        return parts[int(m.group(1))] if m else C(s)

    def conds(s):
        out = []
        for c in re.split(r"\s+and\s+", s, flags=re.I):
            m = re.fullmatch(r"\(?\s*(\w+)\s*={1,2}\s*(\?|:\w+)\s*\)?", c)
            if not m:
                return None
            out.append((m.group(1).lower(), m.group(2)))
        return out
    m = re.fullmatch(rf"select (.+?) from {name}(?: where (.+?))?(?: limit \d+)?", t, re.I)
    if m:
        where = conds(m.group(3)) if m.group(3) else []
        return dict(kind="select", cols=[c.strip().lower() for c in m.group(1).split(",")],
                    table=table(m.group(2)), where=where, text=t)
    m = re.fullmatch(rf"(insert|replace)(?: or (\w+))? into {name}\s*(?:\((.+?)\))?\s*values\s*\((.+?)\)", t,
                     re.I)
    if m:
        cols = [c.strip().lower() for c in m.group(4).split(",")] if m.group(4) else None
        return dict(kind="insert", mode="replace" if m.group(1).lower() == "replace" else
                    (m.group(2) or "").lower(), table=table(m.group(3)), cols=cols,
                    vals=[c.strip() for c in m.group(5).split(",")], text=t)
    m = re.fullmatch(rf"create table(?: if not exists)? {name}\s*\((.+)\)(?:\s*\w+)*", t, re.I)
    if m:
        cols, key = [], None
        body = re.sub(r"\(([^)]*)\)", lambda x: "(" + x.group(1).replace(",", "|") + ")", m.group(2))
        for c in body.split(","):
            c = c.strip().lower()
            k = re.match(r"primary key\s*\(([^)]*)\)", c)
            if k:
                key = [x.strip() for x in k.group(1).split("|")]
                continue
            if re.match(r"(unique|check|foreign|constraint)\b", c):
                continue
            cols.append(c.split()[0])
            if "primary key" in c:
                key = [c.split()[0]]
        return dict(kind="create", table=table(m.group(1)), cols=cols, key=key, text=t)
    m = re.fullmatch(rf"drop table(?: if exists)? {name}", t, re.I)
    if m:
        return dict(kind="drop", table=table(m.group(1)), text=t)
    m = re.fullmatch(rf"delete from {name}(?: where (.+))?", t, re.I)
    if m:
        return dict(kind="delete", table=table(m.group(1)), where=conds(m.group(2)) if m.group(2) else [],
                    text=t)
    if re.fullmatch(r"vacuum", t, re.I):
        return dict(kind="vacuum", text=t)
    if re.match(r"(commit|end)\b", t, re.I):
        return dict(kind="commit", text=t)
    if re.match(r"create (unique )?index|pragma|begin|analyze|reindex", t, re.I):
        return dict(kind="other", text=t)
    return None


def sql_hooks(log, rows=None, raises=None, tables=()):
    """Record every statement as an event ("sql", kind) with the statement and the bound values."""
    def seq(ip, s, v):
        its = ip.seq_items(v, s) if v is not None else ()
        return None if its is None or any(isinstance(i, Splice) for i in its) else tuple(its)

    def one(many):
        def hook(ip, s, c):
            if not c.args:
                return None
            stmt = parse(c.args[0])
            binds = c.args[1] if len(c.args) > 1 else c.kw.get("parameters")
            if stmt is None:
                log.append(text_of(c.args[0])[0])
                return [(ip.event(s, "sql", "unknown", c.recv, [c.args[0]], {}, c.node), T("result", c.args[0]))]
            if many:
                its = seq(ip, s, binds)
                bound = Tup(tuple(Tup(seq(ip, s, i) or (T("unknown"),)) for i in its)) if its is not None \
                    else T("unknown")
            else:
                its = seq(ip, s, binds)
                bound = Tup(its) if its is not None else T("unknown")
            out = []
            s2 = ip.event(s, "sql", stmt["kind"], c.recv, [C(_Box(stmt)), bound, C(many)], {}, c.node)
            if raises is not None:
                for ex in raises(stmt, s):
                    out.append((s.fact(("failed", stmt["kind"]), True),
                                Raised(ex if isinstance(ex, Exc) else Exc(ex, (), c.node))))
            res = T("result", c.args[0], bound)
            if rows is not None:
                v = rows(ip, s2, stmt, bound)
                if v is not None:
                    return out + v
            return out + [(s2, res)]
        return hook

    def commit(ip, s, c):
        return [(ip.event(s, "sql", "commit", c.recv, [], {}, c.node), C(None))]

    def close(ip, s, c):
        return [(ip.event(s, "sql", "close", c.recv, [], {}, c.node), C(None))]
    return {".execute": one(False), ".executemany": one(True), ".commit": commit, ".close": close}


class _Box:
    """Makes a statement usable as a constant of an event."""

    def __init__(self, stmt):
        self.stmt = stmt

    def __hash__(self):
        return hash(self.stmt["text"])

    def __eq__(self, other):
        return isinstance(other, _Box) and self.stmt["text"] == other.stmt["text"]

    def __repr__(self):
        return self.stmt["text"]


def sqls(s):
    """The statements of a path: (kind, statement, bound, event); leaving `with conn:` commits."""
    out = []
    for e in s.events():
        if e.kind == "sql":
            out.append((e.name, e.args[0].v.stmt if e.args and isinstance(e.args[0], C) else None,
                        e.args[1] if len(e.args) > 1 else None, e))
        elif e.kind == "exit" and isinstance(e.recv, T) and "sqlite3.connect" in repr(e.recv):
            out.append(("commit", None, None, e))
    return out


def make(r, ip):
    """A cache as its constructor makes it."""
    ci = r.p.cls(Q)
    out = ip.call_value(Fn("class", ci), [CTX], {}, new_state(), None)
    good = [(s, c) for s, c in out if not isinstance(c, Raised)]
    if not good:
        raise Undecided("no cache can be made")
    return good[:2]


# ------------------------------------------------------------------ R1, R2
def columns(r):
    """Columns of a plugin table, in order, and its primary key."""
    log = []
    ip = r.interp(hooks=sql_hooks(log, rows=lambda ip, s, st, b: [(s.new(ListObj(())))]
                                  if st["kind"] == "select" else None), inst={Q}, max_loop=4)
    found = None
    fi = r.p.find_method(r.p.cls(Q), "register_plugin")
    for s, c in make(r, ip):
        for s2, v in ip.call_func(fi, [c, PL], {}, s, None):
            for k, st, b, e in sqls(s2):
                if k == "create":
                    found = st
                    r.check(mentions(st["table"], T("attr", PL, "sql_table_name")), "R1", "created table",
                            f"the table made for a plugin is named {short(st['table'])}", fi.loc)
    return found


def lossy(v, what):
    """Why different values of `what` may have the same encoding v; "" if not; None if unknown."""
    if v == what:
        return ""
    if isinstance(v, T) and v.op in ("call", "pure"):
        n = v.args[0]
        rest = [x for x in v.args[1:] if x is not None]
        inner = [x for x in rest if mentions(x, what)]
        if len(inner) != 1:
            return None
        sub = lossy(inner[0], what)
        if sub != "":
            return sub
        if n in ("os.fsencode", "pickle.dumps", "os.fsdecode", "sqlite3.Binary", "bytes", "memoryview", "repr",
                 "json.dumps", "base64.b64encode", "builtins.repr"):
            return ""
        if n == ".encode":
            errs = [x.v for x in rest if isinstance(x, C) and isinstance(x.v, str)]
            if set(errs) & LOSSY:
                return f"it is encoded with {sorted(set(errs) & LOSSY)[0]!r}"
            return "" if "surrogateescape" in errs or "surrogatepass" in errs else None
        if n in (".lower", ".casefold", ".upper", "hash", "os.path.basename", "os.path.dirname", ".strip",
                 "len", "int", "os.path.normpath", ".rstrip", ".lstrip", "os.path.realpath", "bool",
                 "builtins.hash", "os.path.splitext"):
            return f"it is reduced by {n.lstrip('.')}()"
    if isinstance(v, T) and v.op == "slice":
        return "only a part of it is used"
    return None


def lookup(r):
    """Bound columns of the lookup."""
    log = []
    p = r.p
    fi = p.find_method(p.cls(Q), "get")
    ip = r.interp(hooks=sql_hooks(log), inst={Q}, max_loop=2, max_elems=2)
    out = []
    for s, c in make(r, ip):
        for s2, v in ip.call_func(fi, [c, PL, PATH, TAG], {}, s, None):
            out.append((s2, v))
    r.account(ip, len(out))
    return fi, out


def keys(r):
    p = r.p
    create = columns(r)
    if create is None:
        r.skip("R1", "columns", "no table definition found")
        return
    fi, outs = lookup(r)
    want = {}
    notset = Fn("class", p.cls("libff.cache:NOTSET"))
    hits = misses = 0
    for s, v in outs:
        sel = [(st, b) for k, st, b, e in sqls(s) if k == "select"]
        if isinstance(v, Raised):
            r.bad("R1", "lookup", f"the lookup fails with {v.exc.name}", fi.loc, describe(s))
            continue
        if len(sel) != 1 or sel[0][0]["where"] is None or not isinstance(sel[0][1], Tup):
            r.skip("R1", "lookup", "the query is not understood")
            continue
        st, b = sel[0]
        r.check(mentions(st["table"], T("attr", PL, "sql_table_name")), "R1", "lookup: table",
                f"the table looked up is {short(st['table'])}", fi.loc, describe(s))
        cols = [c for c, _ in st["where"]]
        if len(cols) != len(b.items):
            r.bad("R1", "lookup: parameters", f"{len(cols)} conditions for {len(b.items)} values", fi.loc)
            continue
        bound = dict(zip(cols, b.items))
        for what, sym in (("path", PATH), ("tag", TAG)):
            mine = [c for c, x in bound.items() if mentions(x, sym)]
            r.check(bool(mine), "R1", f"lookup: {what}", f"the lookup does not depend on the {what}",
                    fi.loc, describe(s))
            for c in mine:
                want[c] = bound[c]
        if isinstance(v, T) and mentions_op(v, "result"):
            hits += 1
            idx = None
            for x in walk_terms(v):
                if isinstance(x, T) and x.op == "item" and isinstance(x.args[1], C) and \
                        isinstance(x.args[1].v, int):
                    idx = x.args[1].v
            if idx is not None and 0 <= idx < len(st["cols"]):
                col = st["cols"][idx]
                others = [c for c in create["cols"] if c not in want]
                r.check(col in others, "R1", "lookup: value", f"the value is read from column {col!r}",
                        fi.loc, describe(s))
        else:
            misses += 1
            r.check(v == notset, "R1", "lookup: nothing found", f"a missing row yields {short(v)}", fi.loc,
                    describe(s))
    r.check(hits > 0 and misses > 0, "R1", "lookup: both outcomes", "a lookup cannot "
            f"{'find anything' if not hits else 'miss'}", fi.loc)
    # storing
    stored = {}
    sfi, res = store(r, 1)
    for s, v, rows in res:
        for plug, stt, row in rows:
            cols = stt["cols"] or create["cols"]
            if len(cols) != len(row):
                r.bad("R1", "stored row", f"{len(row)} values for {len(cols)} columns", sfi.loc, describe(s))
                continue
            for c, x in zip(cols, row):
                stored.setdefault(c, set()).add(x)
    if not stored:
        r.skip("R1", "stored row", "no insertion found")
        return
    for c, x in want.items():
        have = stored.get(c, set())
        r.check(have == {x}, "R1", f"column {c}",
                f"looked up as {short(x)} but stored as {[short(h) for h in have]}", fi.loc)
    if create["key"]:
        r.check(set(create["key"]) <= set(want), "R1", "primary key", f"the primary key {create['key']} is not "
                "part of what is looked up", sfi.loc)
    for what, sym in (("path", PATH), ("tag", TAG)):
        for c, x in want.items():
            if not mentions(x, sym):
                continue
            why = lossy(x, sym)
            if what == "path" and x == PATH:
                why = "a path that is no valid text cannot be stored as it is"
            if why is None:
                r.skip("R2", what, f"encoding {short(x)} is not known")
            else:
                r.check(why == "", "R2", what, f"two values of the {what} share a key: {why}", fi.loc)
    data = [x for c, xs in stored.items() if c not in want for x in xs]
    r.check(any(mentions(x, OBJ) for x in data), "R1", "stored value", "the value of the plugin is not stored",
            sfi.loc)
    for x in data:
        if mentions(x, OBJ):
            why = lossy(x, OBJ)
            if why is None:
                r.skip("R2", "value", f"encoding {short(x)} is not known")
            else:
                r.check(why == "", "R2", "value", f"the value does not survive: {why}", sfi.loc)


def mentions_op(v, op):
    return any(isinstance(x, T) and x.op == op for x in walk_terms(v))


# ------------------------------------------------------------------ R4
def store(r, n, locked=False, nplug=1, count=None):
    """Store n rows and close: (state, value, [(plugin, statement, row)])."""
    p = r.p
    log = []

    def raises(stmt, s):
        if stmt["kind"] == "insert" and locked and s.facts.get(("fails",), 0) < 1:
            return [Exc("sqlite3.OperationalError", (), None)]
        return []
    hk = sql_hooks(log, raises=raises if locked else None)
    if locked:
        base = hk[".executemany"]

        def once(inner):
            def hook(ip, s, c):
                out = []
                for x, v in inner(ip, s, c) or []:
                    if isinstance(v, Raised):
                        x = x.fact(("fails",), s.facts.get(("fails",), 0) + 1)
                    out.append((x, v))
                return out
            return hook
        hk[".executemany"], hk[".execute"] = once(base), once(hk[".execute"])
    ip = r.interp(hooks=hk, inst={Q}, max_loop=4, max_elems=4)
    ci = p.cls(Q)
    fset, fclose = p.find_method(ci, "set"), p.find_method(ci, "close")
    cur = make(r, ip)[:1]
    if count is not None:
        cur = [(s.setfield(c, "num_cached_rows", C(count)), c) for s, c in cur]
    others = [T("sym", f"plugin{i}") for i in range(n)]
    pairs_ = [(a, b) for i, a in enumerate([PL] + others) for b in others[i:]]
    for a, b in pairs_:
        cur = [(s.fact(("eq",) + tuple(sorted((a, b), key=repr)), False), c) for s, c in cur]
    for i in range(n):
        nxt = []
        for s, c in cur:
            sym = {0: ("path", "tag", "object")}.get(i, (f"path{i}", f"tag{i}", f"object{i}"))
            pl = PL if i < n - nplug + 1 or nplug == 1 else T("sym", f"plugin{i}")
            for s2, v in ip.call_func(fset, [c, pl] + [T("sym", x) for x in sym], {}, s, None):
                if not isinstance(v, Raised):
                    nxt.append((s2, c))
        cur = nxt[:40]
    out = []
    for s, c in cur:
        ip.steps = 0
        for s2, v in ip.call_func(fclose, [c], {}, s, None):
            if isinstance(v, T) and v.op == "cut":
                continue
            out.append((s2, v, inserted(s2)))
    r.account(ip, len(out))
    return fset, out


def inserted(s):
    rows = []
    for k, st, b, e in sqls(s):
        if k == "close":
            break
        if k != "insert" or not isinstance(b, Tup):
            continue
        many = e.args[2].v
        for row in (b.items if many else (b,)):
            if isinstance(row, Tup):
                rows.append((st["table"], st, row.items))
    return rows


def storing(r):
    fclose = r.p.find_method(r.p.cls(Q), "close")
    for n, locked, nplug in ((0, False, 1), (1, False, 1), (2, False, 1), (2, False, 2), (1, True, 1),
                             (2, True, 2)) + (((3, False, 2), (3, True, 2)) if r.thorough else ()):
        sub = f"{n} rows, {nplug} plugins{', locked database' if locked else ''}"
        with r.guard("R4", sub):
            fi, res = store(r, n, locked, nplug)
            ended = 0
            for s, v, rows in res:
                if isinstance(v, Raised):
                    if locked and v.exc.name == "sqlite3.OperationalError":
                        continue
                    r.bad("R4", sub, f"closing fails with {v.exc.name}", fclose.loc, describe(s))
                    continue
                ended += 1
                seq = [k for k, st, b, e in sqls(s)]
                for i in range(n):
                    sym = T("sym", "object" if i == 0 else f"object{i}")
                    mine = [(t, row) for t, st, row in rows if any(mentions(x, sym) for x in row)]
                    if not mine:
                        if any(k == "unknown" for k in seq):
                            r.skip("R4", sub, "a statement is not understood")
                        else:
                            r.bad("R4", sub, f"row {i + 1} is never written", fi.loc, describe(s))
                        continue
                    pl = PL if i < n - nplug + 1 or nplug == 1 else T("sym", f"plugin{i}")
                    r.check(all(mentions(t, pl) for t, row in mine), "R4", f"{sub}: table of row {i + 1}",
                            f"row {i + 1} is written to {short(mine[0][0])}", fi.loc, describe(s))
                pending = False
                for k in seq:
                    if k in ("insert", "delete"):
                        pending = True
                    elif k == "commit":
                        pending = False
                    elif k == "close":
                        r.check(not pending, "R4", f"{sub}: committed", "the connection is closed before the "
                                "rows are committed", fclose.loc, describe(s))
                        break
                else:
                    r.check(not pending, "R4", f"{sub}: committed", "rows are never committed", fclose.loc,
                            describe(s))
                if locked and s.facts.get(("fails",)):
                    r.ok("R4", f"{sub}: retried")
            if not ended:
                r.skip("R4", sub, "no path ends")
    # the modes of insertion
    fi, res = store(r, 1)
    for s, v, rows in res:
        for t, st, row in rows:
            r.check(st["mode"] == "replace", "R4", "newer rows win", f"the statement {st['text']!r} keeps or "
                    "refuses a row when the file was modified", fi.loc)


# ------------------------------------------------------------------ R3
def registry(r):
    p = r.p
    notset, nodata = Fn("class", p.cls("libff.cache:NOTSET")), Fn("class", p.cls("libff.cache:NODATA"))
    nd = p.cls("libff:NoData")
    ent = T("sym", "entry")
    cached, made = T("sym", "cached"), T("sym", "made")
    reg = obj(p, "libff.registry:Registry")
    top = p.func("libff.registry:Registry.get_data_from_plugin") if \
        "libff.registry:Registry.get_data_from_plugin" in p.funcs else p.func("libff.registry:Registry.get_data")

    def never(s, v):
        for k in (notset, nodata):
            s = s.fact(("eq",) + tuple(sorted((v, k), key=repr)), False)
        return s.fact(("truth", v), True)
    for handled in (True, False):
        for use in (True, False):
            for look in ("nothing", "no data", "value"):
                if (not use or not handled) and look != "nothing":
                    continue
                for out in ("value", "NoData", "error"):
                    if (look != "nothing" or not use or not handled) and out != "value":
                        continue
                    sub = f"{'' if handled else 'un'}handled, {'cache' if use else 'no cache'}, found {look}, " \
                          f"plugin: {out}"
                    st = new_state().setfield(PL, "use_cache", C(use))
                    st = never(never(st, cached), made)

                    def get(ip, s, c, look=look):
                        s = ip.event(s, "cache", "get", c.recv, c.args[-3:], {}, c.node)
                        return [(s, {"nothing": notset, "no data": nodata, "value": cached}[look])]

                    def put(ip, s, c):
                        return [(ip.event(s, "cache", "set", c.recv, c.args[-4:], {}, c.node), C(None))]

                    def extract(ip, s, c, out=out):
                        s = ip.event(s, "plugin", "cache", c.recv, c.args, {}, c.node)
                        return [(s, made if out == "value" else
                                 Raised(Exc(nd if out == "NoData" else "RuntimeError", (), c.node)))]

                    def process(ip, s, c):
                        s = ip.event(s, "plugin", "process", c.recv, c.args, {}, c.node)
                        return [(s, T("sym", "produced"))]
                    hk = {NULL + ".get": get, Q + ".get": get, NULL + ".set": put, Q + ".set": put,
                          ".cache": extract, ".process": process,
                          ".can_handle": lambda ip, s, c, h=handled: [(s, C(h))]}
                    ip = r.interp(hooks=hk, max_loop=1)
                    with r.guard("R3", sub):
                        one(r, ip, top, reg, ent, st, sub, handled, use, look, out, (cached, made, nodata))


def one(r, ip, top, reg, ent, st, sub, handled, use, look, out, vals):
    cached, made, nodata = vals
    res = ip.call_func(top, [reg, ent, PL], {}, st, None)
    r.account(ip, len(res))
    for s, v in res:
        ev = [e for e in s.events() if e.kind in ("cache", "plugin")]
        gets, sets = [e for e in ev if e.name == "get"], [e for e in ev if e.name == "set"]
        made_, proc = [e for e in ev if e.name == "cache"], [e for e in ev if e.name == "process"]
        if out == "error":
            r.check(isinstance(v, Raised) and not sets, "R3", sub, "the failure of a plugin is stored or hidden",
                    top.loc, describe(s))
            continue
        if isinstance(v, Raised):
            nodata_ok = v.exc.name == "NoData"
            r.check(nodata_ok and (look == "no data" or out == "NoData" or not handled), "R3", sub,
                    f"fails with {v.exc.name}", top.loc, describe(s))
        if not handled:
            r.check(not sets and not proc and not made_, "R3", sub, "an entry the plugin does not handle is "
                    "processed", top.loc, describe(s))
            continue
        if not use:
            r.check(not gets and not sets, "R3", f"{sub}: unused", "the cache is used for a plugin that does not "
                    "want it", top.loc, describe(s))
            r.check(len(proc) == 1, "R3", sub, "the plugin is not asked", top.loc, describe(s))
            continue
        r.check(len(gets) == 1, "R3", f"{sub}: lookup", f"{len(gets)} lookups", top.loc, describe(s))
        if look != "nothing":
            r.check(not made_ and not sets, "R3", f"{sub}: no extraction", "the data is extracted or stored "
                    "again although it was found", top.loc, describe(s))
        else:
            r.check(len(made_) == 1 and len(sets) == 1, "R3", f"{sub}: extraction", f"the data is extracted "
                    f"{len(made_)} times and stored {len(sets)} times", top.loc, describe(s))
            if gets and sets:
                r.check(tuple(gets[0].args) == tuple(sets[0].args[:-1]), "R3", f"{sub}: key",
                        f"looked up under {[short(x) for x in gets[0].args]} but stored under "
                        f"{[short(x) for x in sets[0].args[:-1]]}", top.loc, describe(s))
                want = nodata if out == "NoData" else made
                r.check(sets[0].args[-1] == want, "R3", f"{sub}: stored value", f"{short(sets[0].args[-1])} is "
                        f"stored instead of {short(want)}", top.loc, describe(s))
        for e in gets:
            pl, path, tag = e.args
            r.check(pl == PL, "R3", f"{sub}: plugin of the key", f"{short(pl)}", top.loc, describe(s))
            r.check(path == T("attr", ent, "abspath"), "R3", f"{sub}: path of the key", f"the key is {short(path)}, "
                    "which is not the same in every directory", top.loc, describe(s)) \
                if isinstance(path, T) and path.op == "attr" else \
                r.skip("R3", f"{sub}: path of the key", short(path))
            r.check(mentions(tag, T("call", ".get_entry_cache_tag", PL, ent, C(None))) or
                    "get_entry_cache_tag" in repr(tag), "R3", f"{sub}: tag of the key",
                    f"the tag is {short(tag)}", top.loc, describe(s))
        nothing = look == "no data" or out == "NoData"
        if nothing:
            r.check(not proc, "R3", f"{sub}: no data", "a plugin without data is asked to process it", top.loc,
                    describe(s))
        else:
            want = cached if look == "value" else made
            r.check(len(proc) == 1 and want in proc[0].args, "R3", f"{sub}: processed value",
                    f"process() gets {[short(a) for e in proc for a in e.args]} instead of {short(want)}", top.loc,
                    describe(s))


# ------------------------------------------------------------------ R5
def tables(r):
    p = r.p
    fi = p.find_method(p.cls(Q), "register_plugin")
    case = [("plugin_tar_100", "tar", {"plugin_tar_99"}, {"plugin_tarx_99", "plugin_tar_x_99", "plugin_ta_99",
                                                           "sqlite_sequence"}, False),
            ("plugin_tar_100", "tar", {"plugin_tar_99", "plugin_tar_100"}, {"plugin_tarx_100"}, True),
            ("plugin_sha3_256_7", "sha3_256", {"plugin_sha3_256_8"}, {"plugin_sha3_512_8", "plugin_sha3_2_8"},
             True),
            ("plugin_md5_70", "md5", set(), {"plugin_md_70", "plugin_md55_7"}, False)]
    for table, name, mine, others, exists in case:
        sub = f"{table} among {sorted(mine | others)}"
        with r.guard("R5", sub):
            have = sorted(mine | others | ({table} if exists else set()))

            def rows(ip, s, st, b, have=have):
                if st["kind"] == "select" and st["table"] in (C("sqlite_master"), C("sqlite_schema")):
                    return [s.new(ListObj(tuple(Tup((C(t),)) for t in have)))]
                return None
            log = []
            hk = sql_hooks(log, rows=rows)
            base = hk[".execute"]

            def execute(ip, s, c, have=have):
                t, _ = text_of(c.args[0])
                m = re.fullmatch(r"select name from sqlite_(?:master|schema) where type ?= ?'table' and "
                                 r"name like \?", t, re.I)
                if m and len(c.args) > 1:
                    its = ip.seq_items(c.args[1], s)
                    if its and isinstance(its[0], C):
                        pat = re.escape(its[0].v).replace("%", ".*").replace("_", ".")
                        got = [x for x in have if re.fullmatch(pat, x, re.I)]
                        s, ref = s.new(ListObj(tuple(Tup((C(x),)) for x in got)))
                        return [(s, ref)]
                return base(ip, s, c)
            hk[".execute"] = execute
            ip = r.interp(hooks=hk, inst={Q}, max_loop=12, max_elems=12, fold_re=True)
            res = []
            for s, c in make(r, ip):
                s = s.setfield(PL, "sql_table_name", C(table)).setfield(PL, "name", C(name))
                s = s.setfield(PL, "cache_tag", C(int(table.rsplit("_", 1)[1])))
                res += ip.call_func(fi, [c, PL], {}, s, None)
            r.account(ip, len(res))
            for s, v in res:
                if isinstance(v, Raised):
                    if v.exc.name != "AssertionError":
                        r.bad("R5", sub, f"fails with {v.exc.name}", fi.loc, describe(s))
                    continue
                if log:
                    r.skip("R5", sub, f"statement not understood: {log[0]}")
                    continue
                drops = [st["table"] for k, st, b, e in sqls(s) if k == "drop"]
                if any(not isinstance(d, C) for d in drops):
                    r.skip("R5", sub, "a dropped table is not known")
                    continue
                dropped = {d.v for d in drops}
                wrong = dropped - (mine - {table})
                r.check(not wrong, "R5", sub, f"the tables {sorted(wrong)} are dropped for {table}", fi.loc,
                        describe(s))
                made = [st["table"] for k, st, b, e in sqls(s) if k == "create"]
                r.check(exists or C(table) in made, "R5", f"{sub}: created", f"the table {table} is not created",
                        fi.loc, describe(s))


# ------------------------------------------------------------------ R6
def versions(r):
    p = r.p
    base = p.cls("libff.plugin:Plugin")
    cls = T("sym", "plugin class")
    fi = p.find_method(base, "initialize")
    ip = r.interp(max_loop=2, opaque=lambda f: f.name == "get_plugin_cache_tag")
    found = 0
    args = [cls] + [T("sym", a.arg) for a in fi.node.args.args[1:]]
    for s, v in ip.call_value(Fn("func", fi), args, {}, new_state(), None):
        if isinstance(v, Raised):
            continue
        t = s.fields.get((cls, "sql_table_name"))
        if t is None:
            continue
        found += 1
        for need, text in (("name", "the name"), ("cache_tag", "the version")):
            have = mentions(t, T("attr", cls, need), s) or \
                need == "cache_tag" and any(x is not None and mentions(t, x, s)
                                            for x in (s.fields.get((cls, "cache_tag")),))
            r.check(have, "R6", f"table name depends on {need}", f"{short(t)} does not contain {text} of the "
                    "plugin", fi.loc, describe(s))
    if not found:
        r.skip("R6", "table name", "the name of the table is not known")
    r.account(ip, found)
    tagf = p.find_method(base, "get_plugin_cache_tag")
    ip = r.interp(max_loop=2)
    for s, v in ip.call_value(Fn("func", tagf), [cls, T("sym", "source path")], {}, new_state(), None):
        if isinstance(v, Raised):
            continue
        text = repr(v)
        r.check(mentions(v, T("sym", "source path"), s) and ("read" in text or "digest" in text or
                                                             "getsource" in text),
                "R6", "plugin version", f"{short(v)} does not depend on the source of the plugin", tagf.loc,
                describe(s))
    # tags of entries
    done = set()
    for ci in [base] + list(plugins(p)):
        m = p.find_method(ci, "get_entry_cache_tag")
        if m is None or m.qual in done:
            continue
        done.add(m.qual)
        with r.guard("R6", m.qual):
            ip = r.interp(hooks=kind_hooks("file"), max_loop=2, depth=8)
            ent = obj(p, "libff.entry:Entry")
            for s, v in ip.call_func(m, [T("new", ci, C(0)), ent], {}, new_state(), None):
                if isinstance(v, Raised):
                    r.bad("R6", m.qual, f"fails with {v.exc.name}", m.loc, describe(s))
                    continue
                have = [x for y in [v] + list(items(s, v) or ()) for x in precise(y)]
                r.check(bool(have), "R6", m.qual, f"the tag {short(v)} does not change when a file is modified "
                        "within the same second", m.loc, describe(s))


TIMES = {"st_mtime", "st_ctime", "st_mtime_ns", "st_ctime_ns"}


def precise(v):
    """The modification times in v that are not truncated to seconds."""
    if isinstance(v, T):
        if v.op == "attr" and v.args[-1] in TIMES:
            return [v]
        if v.op in ("call", "pure") and str(v.args[0]) in ("int", "round", "builtins.int", "builtins.round",
                                                          "math.floor", "math.trunc", "math.ceil"):
            return []
        if v.op in ("//", "floordiv", "binop") and "//" in repr(v)[:40]:
            return []
        if v.op in ("call", "pure") and str(v.args[0]) in ("os.path.getmtime", "os.path.getctime", "os.stat",
                                                          "os.lstat"):
            return [v]
        return [x for a in v.args for x in precise(a)]
    if isinstance(v, Tup):
        return [x for a in v.items for x in precise(a)]
    return []


# ------------------------------------------------------------------ R7
def cleaning(r):
    p = r.p
    fi = p.find_method(p.cls(Q), "clean")
    log = []
    paths = [T("sym", "path1"), T("sym", "path2")]

    def rows(ip, s, st, b):
        if st["kind"] != "select":
            return None
        if st["table"] in (C("sqlite_master"), C("sqlite_schema")):
            return [s.new(ListObj((Tup((C("plugin_a_1"),)), Tup((C("plugin_b_1"),)))))]
        if "path" in st["cols"]:
            its = []
            for x in paths:
                its.append(Tup(tuple(x if c == "path" else T("sym", c) for c in st["cols"])))
            return [s.new(ListObj(tuple(its)))]
        return None
    ip = r.interp(hooks=sql_hooks(log, rows=rows), inst={Q}, max_loop=6, max_elems=6)
    n = 0
    removed = kept = 0
    for s, c in make(r, ip):
        for s2, v in ip.call_func(fi, [c], {}, s, None):
            n += 1
            if isinstance(v, Raised):
                continue
            pending = None
            for k, st, b, e in sqls(s2):
                if k == "delete":
                    pending = e
                    for row in (b.items if e.args[2].v and isinstance(b, Tup) else (b,)):
                        gone(r, s2, st, row, paths, fi)
                        removed += 1
                elif k in ("insert",):
                    pending = e
                elif k == "commit":
                    pending = None
                elif k == "vacuum":
                    r.check(pending is None, "R7", "space is reclaimed outside a transaction", "the database is "
                            "vacuumed while rows are not committed", fi.loc, describe(s2))
                elif k == "drop":
                    r.bad("R7", "cleaning", f"a table is dropped: {st['text']}", fi.loc, describe(s2))
                elif k == "unknown":
                    r.skip("R7", "cleaning", "a statement is not understood")
            if pending is not None:
                r.bad("R7", "cleaning is committed", "removed rows are not committed", fi.loc, describe(s2))
            else:
                r.ok("R7", "cleaning is committed")
    r.account(ip, n)
    r.check(removed > 0 or bool(log), "R7", "stale rows", "rows of files that no longer exist are never removed",
            fi.loc)


EXISTS = ("os.path.exists", "os.path.lexists")


def gone(r, s, st, b, paths, fi):
    if st["where"] is None or not isinstance(b, (Tup, T)):
        r.skip("R7", "removed row", "the statement is not understood")
        return
    if not st["where"]:
        r.bad("R7", "removed row", f"all rows are removed: {st['text']}", fi.loc, describe(s))
        return
    vals = dict(zip([c for c, _ in st["where"]], b.items)) if isinstance(b, Tup) else {}
    path = vals.get("path")
    if path is None:
        r.skip("R7", "removed row", "the row is not identified by its path")
        return
    proof = False
    for f, x in s.facts.items():
        if f[0] in ("truth", "val") and isinstance(f[1], T) and f[1].op in ("call", "pure"):
            t = f[1]
            v = x.v if isinstance(x, C) else x
            if t.args[0] in EXISTS and mentions(t, path) and v is False:
                proof = True
        if f[0] == "caught":
            proof = True
    if not proof and any(e.kind == "caught" and e.name in ("FileNotFoundError", "OSError") for e in s.events()):
        proof = True
    r.check(proof, "R7", "removed row", f"the row of {short(path)} is removed although it was not established "
            "that the file is gone", fi.loc, describe(s))


# ------------------------------------------------------------------ R8
def interface(r):
    p = r.p
    kinds = [p.cls(Q), p.cls(NULL)]
    seen = {}
    for m in p.modules.values():
        if m.name == "libff.cache":
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and \
                    isinstance(n.value, ast.Attribute) and n.value.attr == "cache" and \
                    isinstance(n.value.value, (ast.Name, ast.Attribute)):
                owner = ast.unparse(n.value.value)
                if owner in ("self", "self.context", "context") and m.name != "libff.plugin":
                    seen.setdefault(n.attr, f"{m.rel}:{n.lineno}")
    for name, where in sorted(seen.items()):
        for ci in kinds:
            ok = p.find_method(ci, name) is not None or p.find_attr(ci, name) is not None or \
                any(isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store) and
                    isinstance(x.value, ast.Name) and x.value.id == "self"
                    for c in p.mro(ci) if hasattr(c, "node") for x in ast.walk(c.node))
            r.check(ok, "R8", f"{ci.name}.{name}", f"{ci.name} has no member {name!r}, which is used", where)
    # the empty cache never has a value
    notset = Fn("class", p.cls("libff.cache:NOTSET"))
    fi = p.find_method(p.cls(NULL), "get")
    for s, v in r.run(fi, [obj(p, NULL), PL, PATH, TAG]):
        r.check(v == notset, "R8", "NullCache.get", f"yields {short(v)}", fi.loc, describe(s))


# ------------------------------------------------------------------ R9
def closing(r):
    p = r.p
    close = lambda ip, s, c: [(ip.event(s, "cache", "close", c.recv, [], {}, c.node), C(None))]  # noqa: E731
    hk = {NULL + ".close": close, Q + ".close": close}
    # workers
    fi = p.func("libff.walk:FilesystemWalker.loop")
    h = stop_hooks()
    h.update(hk)
    h["multiprocessing.Queue.get"] = lambda ip, s, c: [(s, Raised(Exc("queue.Empty", (), c.node)))]
    h["libff.context:Context.barrier_wait"] = lambda ip, s, c: [(s, C(True))]
    for s, v in r.run(fi, [obj(p, "libff.walk:FilesystemWalker"), C(0)], st=initial(), hooks=h):
        if isinstance(v, T) and v.op == "cut":
            continue
        n = len([e for e in s.events() if e.kind == "cache" and e.name == "close"])
        r.check(n == 1, "R9", "worker", f"the cache of a worker is closed {n} times", fi.loc, describe(s))
    # main process
    for qual, me, what in (("libff.main:Main.walk", obj(p, "libff.main:Main"), "command line"),
                           ("libff.find:Find.__iter__", obj(p, "libff.find:Find"), "API")):
        with r.guard("R9", what):
            fi = p.func(qual)
            st = initial().setfield(ARGS, "profile", C(None))
            ip = r.interp(hooks=hk, opaque=lambda f, fi=fi: f.name in ("start_processes", "loop", "finalize",
                                                                     "close", "__iter__") and f is not fi)
            for s, v in r.run(fi, [me], st=st, ip=ip):
                if isinstance(v, T) and v.op == "cut" or isinstance(v, Raised):
                    continue
                cl = [i for i, e in enumerate(s.events()) if e.kind == "cache" and e.name == "close"]
                use = [i for i, e in enumerate(s.events()) if e.kind == "call" and
                       str(e.name).endswith((".finalize", "processing.close", "Processing.close"))]
                r.check(bool(cl), "R9", what, "the cache of the main process is not closed", fi.loc, describe(s))
                if cl and use:
                    r.check(cl[-1] > max(use), "R9", f"{what}: order", "the cache is closed before the results "
                            "are processed", fi.loc, describe(s))
