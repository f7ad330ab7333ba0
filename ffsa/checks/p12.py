"""P12: unreadable or damaged files never abort a search."""
import ast

from ..excflow import Flow
from ..inventory import dotted
from ..lib import *
from ..project import ClassInfo
from ..report import new_state
from ..schema import plugins
from ..values import C, DictObj, Exc, Fn, Raised, T

EXPLANATION = (
    "Exception-flow analysis of every plugin method, entry property and type method the search calls "
    "for an entry: explicit raises plus a may-raise model of file system, decoding, parsing, "
    "decompression and process calls, minus the handlers on the way, over the resolved call graph. Only "
    "the 'no data' signal may leave a plugin, nothing may leave an entry property or the output of a "
    "type, and no I/O or decoding error may leave the entry loop of a worker. The translation of the "
    "'no data' signal into missing attributes is interpreted for every point where it can be raised.")

# the working directory or the program itself is missing: no property of an inspected file
ENVIRONMENT = {"os.path.abspath()", "os.getcwd()", "subprocess.run()", "subprocess.Popen()",
               "subprocess.check_output()", "subprocess.call()", "subprocess.check_call()"}
FAULTS = ("OSError", "UnicodeError", "EOFError", "RecursionError", "MemoryError", "re.error",
          "SyntaxError", "KeyError", "LookupError", "OverflowError", "StopIteration", "struct.error",
          "zlib.error", "lzma.LZMAError", "ValueError", "RuntimeError",
          "subprocess.SubprocessError")


def run(r):
    r.rule("R1", "nothing but NoData leaves the methods of a plugin that inspect an entry")
    r.rule("R2", "nothing leaves an attribute of an entry")
    r.rule("R3", "nothing leaves the comparison, conversion and output of an attribute value")
    r.rule("R4", "no I/O, decoding or 'no data' error leaves the entry loop of a worker")
    r.rule("R5", "'no data' of a plugin means that the entry has none of its attributes")
    r.rule("R6", "what is read from a file is not assumed to have a minimum length")
    r.floor = 60
    p = r.p
    ip = r.interp()
    fl = Flow(p, ip)
    plugin_methods(r, fl)
    entry_attributes(r, fl)
    values(r, fl)
    worker(r, fl)
    nodata(r)
    for f, c in fl.sets:
        r.funcs.add(f.qual)


def sub_of(ip, exc, names):
    return any(ip.issub_exc(exc, n) for n in names)


def func_at(p, site):
    """The innermost function around a source position."""
    path, _, line = site.rpartition(":")
    line = int(line)
    best = None
    for fi in p.all_funcs():
        if fi.module.rel == path and fi.node.lineno <= line <= fi.node.end_lineno:
            if best is None or fi.node.lineno > best.node.lineno:
                best = fi
    return best


def textual(p, fi, name_or_site):
    """Is the text converted here read from a file by this very function?"""
    line = int(name_or_site.rpartition(":")[2])
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and n.lineno == line and n.args and \
                dotted(p, fi.module, n.func) in ("builtins.int", "builtins.float"):
            if from_file(p, fi, n.args[0]):
                return True
    return False


TEXT = {"split", "strip", "rstrip", "lstrip", "partition", "rpartition", "rsplit", "decode", "read",
        "readline", "readlines", "splitlines", "group", "groups", "replace", "lower", "upper"}


def from_file(p, fi, e, depth=0, seen=None):
    """Does the expression derive from the content of a file opened in this function?"""
    seen = set() if seen is None else seen
    for x in ast.walk(e):
        if isinstance(x, ast.Call) and dotted(p, fi.module, x.func) in ("builtins.open", "io.open"):
            return True
        if isinstance(x, ast.Name) and x.id not in seen and depth < 6:
            seen.add(x.id)
            for v in bindings(fi, x.id):
                if from_file(p, fi, v, depth + 1, seen):
                    return True
    return False


def bindings(fi, name):
    out = []

    def has(t):
        return any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(t))
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Assign) and any(has(t) for t in n.targets):
            out.append(n.value)
        elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and has(n.target) and n.value:
            out.append(n.value)
        elif isinstance(n, (ast.For, ast.comprehension)) and has(n.target):
            out.append(n.iter)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None and has(i.optional_vars):
                    out.append(i.context_expr)
    return out


def validated(fi):
    """The function tries its patterns one by one before it joins them."""
    for n in ast.walk(fi.node):
        if isinstance(n, ast.ExceptHandler) and n.type is not None and \
                "error" in ast.unparse(n.type).lower():
            return True
    return False


def judge(r, fl, rule, sub, fi, cls, allowed=(), only=None):
    """One obligation per possible exception of a function."""
    p, ip = r.p, fl.ip
    items = fl.escapes(fi, cls)
    bad = False
    for i in sorted(items, key=lambda i: i.key()):
        if i.name in allowed or i.text in ENVIRONMENT and i.name == "OSError":
            continue
        if only is not None and not sub_of(ip, i.exc, only):
            continue
        at = func_at(p, i.site)
        if i.name in ("ValueError",) and i.text in ("builtins.int()", "builtins.float()"):
            if at is None or not textual(p, at, i.site):
                continue        # a number delivered by a library, not a text of the file
        if i.name in ("re.error", "OverflowError", "RecursionError") and i.text.startswith("re.") and \
                at is not None and validated(at):
            continue
        bad = True
        r.bad(rule, f"{sub}: {i.name} in {at.qual if at else i.site}",
              f"{i.text} may fail with {i.name}, which leaves {sub}", i.site, fl.path(fi, cls, i))
    if not bad:
        r.ok(rule, sub)


# ------------------------------------------------------------------ R1, R6
def plugin_methods(r, fl):
    p = r.p
    seen = set()
    for ci in plugins(p):
        for name in ("can_handle", "get_entry_cache_tag", "cache", "process"):
            with r.guard("R1", f"{ci.qual}.{name}"):
                fi = p.find_method(ci, name)
                if fi is None or fi.cls.name == "Plugin":
                    continue
                judge(r, fl, "R1", f"{ci.qual}.{name}", fi, ci,
                      ("NoData", "NotImplementedError", "BadPluginError"))
                seen.add(fi)
    for f, c in list(fl.sets):
        if f.module.name.startswith(("plugins", "libff.builtin")):
            seen.add(f)
    for fi in sorted(seen, key=lambda f: f.qual):
        with r.guard("R6", fi.qual):
            n = lengths(r, fi)
            if not n:
                r.ok("R6", fi.qual)


def lengths(r, fi):
    """Subscripts and unpacking of sequences read from a file, without a look at their length."""
    p = r.p
    par = p.parent_map(fi.module)
    found = 0
    for n in ast.walk(fi.node):
        what = None
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and \
                isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) or \
                isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and \
                isinstance(n.slice, ast.UnaryOp) and isinstance(n.slice.operand, ast.Constant):
            if short_sequence(p, fi, n.value, n.slice):
                what = "an element"
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Tuple, ast.List)) and \
                isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and \
                n.value.func.attr in ("split", "rsplit", "splitlines", "readlines") and \
                not any(isinstance(t, ast.Starred) for t in n.targets[0].elts) and \
                from_file(p, fi, n.value):
            what = "a fixed number of parts"
        if what is None or protected(p, par, fi, n):
            continue
        found += 1
        r.bad("R6", f"{fi.qual}: {ast.unparse(n)[:60]}",
              f"{what} of something read from a file is taken without checking that it is there",
              f"{fi.module.rel}:{n.lineno}")
    return found


def short_sequence(p, fi, e, index):
    """May the sequence be too short for this index, depending on the content of a file?"""
    if not from_file(p, fi, e):
        return False
    vs = [e]
    if isinstance(e, ast.Name):
        vs = bindings(fi, e.id)
    for v in vs:
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
            a = v.func.attr
            if a in ("read", "readlines", "splitlines", "readline"):
                return True
            if a in ("split", "rsplit"):
                zero = isinstance(index, ast.Constant) and index.value == 0 or \
                    isinstance(index, ast.UnaryOp) and index.operand.value == 1
                # text.split(sep) has at least one part, text.split() may have none
                if not zero or not v.args or isinstance(v.args[0], ast.Constant) and \
                        v.args[0].value is None:
                    return True
        elif isinstance(v, ast.Call) and dotted(p, fi.module, v.func) in (
                "builtins.list", "builtins.tuple", "builtins.sorted"):
            return True
    return False


def protected(p, par, fi, node):
    """Inside a try that handles it, or under a condition that looks at the sequence."""
    names = {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}
    x = node
    while x is not None and x is not fi.node:
        up = par.get(x)
        if isinstance(up, ast.Try) and x in up.body:
            for h in up.handlers:
                t = ast.unparse(h.type) if h.type is not None else "Exception"
                if any(k in t for k in ("IndexError", "LookupError", "ValueError", "Exception")):
                    return True
        if isinstance(up, (ast.If, ast.IfExp, ast.While)) and x is not up.test and \
                names & {y.id for y in ast.walk(up.test) if isinstance(y, ast.Name)}:
            return True
        if isinstance(up, ast.BoolOp) and x is not up.values[0]:
            return True
        # an earlier statement of the block left the function for a short sequence
        for blk in ("body", "orelse", "finalbody"):
            stmts = getattr(up, blk, None)
            if isinstance(stmts, list) and x in stmts:
                for s in stmts[:stmts.index(x)]:
                    if isinstance(s, ast.If) and names & {
                            y.id for y in ast.walk(s.test) if isinstance(y, ast.Name)}:
                        return True
        x = up
    return False


# ------------------------------------------------------------------ R2
def entry_attributes(r, fl):
    p = r.p
    ci = p.cls("libff.entry:Entry")
    for name, fi in sorted(ci.methods.items()):
        if fi.kind in ("classmethod", "staticmethod") or name.startswith("__") or \
                name == "get_attribute":
            continue
        with r.guard("R2", f"Entry.{name}"):
            judge(r, fl, "R2", f"Entry.{name}", fi, ci)
    with r.guard("R2", "Entry.get_attribute"):
        fi = p.func("libff.entry:Entry.get_attribute")
        judge(r, fl, "R2", "Entry.get_attribute", fi, ci, ("KeyError", "AttributeError"))


# ------------------------------------------------------------------ R3
def values(r, fl):
    p = r.p
    base = p.cls("libff.type:Type")
    for ci in p.subclasses(base, strict=True):
        user = {"input"}
        todo = ["input"]
        meths = {}
        for k in p.mro(ci):
            if isinstance(k, ClassInfo):
                for n, m in k.methods.items():
                    meths.setdefault(n, m)
        while todo:
            m = meths.get(todo.pop())
            if m is None:
                continue
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
                        n.value.id in ("self", "cls") and n.attr in meths and n.attr not in user:
                    user.add(n.attr)
                    todo.append(n.attr)
        for name, fi in sorted(meths.items()):
            if name in user and name not in ("output", "test") or name.startswith("__"):
                continue
            with r.guard("R3", f"{ci.name}.{name}"):
                judge(r, fl, "R3", f"{ci.name}.{name}", fi, ci, ("NotImplementedError",))


# ------------------------------------------------------------------ R4
def worker(r, fl):
    p = r.p
    ci = p.cls("libff.walk:FilesystemWalker")
    for name in ("scan_directory", "process_entries", "process_directory"):
        with r.guard("R4", f"FilesystemWalker.{name}"):
            fi = p.find_method(ci, name)
            if fi is None:
                r.skip("R4", f"FilesystemWalker.{name}", "method not found")
                continue
            judge(r, fl, "R4", f"FilesystemWalker.{name}", fi, ci, ("NotImplementedError",),
                  only=FAULTS + (p.cls("libff:NoData"),))
    with r.guard("R4", "Registry.get_data"):
        fi = p.func("libff.registry:Registry.get_data")
        judge(r, fl, "R4", "Registry.get_data", fi, fi.cls, only=(p.cls("libff:NoData"),))


# ------------------------------------------------------------------ R5
def nodata(r):
    p = r.p
    ci = p.cls("libff:NoData")
    fi = p.func("libff.registry:Registry.get_data")
    entry = T("sym", "entry")
    for cached in (True, False):
        for point in (None, "can_handle", "cache", "process", "stored"):
            if point in ("cache", "stored") and not cached:
                continue
            sub = f"no data raised by {point}, cache {'used' if cached else 'unused'}" \
                if point != "stored" else "no data stored in the cache"
            if point is None:
                sub = f"data, cache {'used' if cached else 'unused'}"
            with r.guard("R5", sub):
                nodata_case(r, p, ci, fi, entry, cached, point, sub)


def nodata_case(r, p, ci, fi, entry, cached, point, sub):
    nodata_, notset = (Fn("class", p.cls("libff.cache:" + n)) for n in ("NODATA", "NOTSET"))
    data = T("sym", "data of the plugin")

    def hook(name, result):
        def h(ip, s, c):
            s = ip.event(s, "hook", name, c.recv, tuple(c.args), {}, c.node)
            if name == point:
                return [(s, Raised(Exc(ci, (), c.node)))]
            return [(s, result)]
        return h
    hooks = {".can_handle": hook("can_handle", C(True)), ".cache": hook("cache", C("fresh")),
             ".process": hook("process", data), ".get_entry_cache_tag": hook("tag", T("sym", "tag"))}
    for c in ("Cache", "NullCache"):
        hooks[f"libff.cache:{c}.get"] = hook("get", nodata_ if point == "stored" else notset)
        hooks[f"libff.cache:{c}.set"] = hook("set", C(None))
    reg = obj(p, "libff.registry:Registry")
    plug, name = T("sym", "plugin"), C("p")
    st, d = new_state().new(DictObj(((name, plug),)))
    st = st.setfield(reg, "plugins", d).setfield(plug, "use_cache", C(cached))
    n = 0
    for s, v in r.run(fi, [reg, entry, name], st=st, hooks=hooks):
        n += 1
        if point is None:
            r.check(not isinstance(v, Raised) and mentions(v, data, s), "R5", sub,
                    f"the data of the plugin is not what is returned: {short(v)}", fi.loc, describe(s))
            continue
        if isinstance(v, Raised):
            r.bad("R5", sub, f"ends with {raised_name(v)}", fi.loc, describe(s))
            continue
        evs = [e for e in s.events() if e.kind == "hook"]
        names = [e.name for e in evs]
        if point in ("cache", "stored"):
            if not r.check("process" not in names, "R5", sub + ", process()", "process() is called without "
                           "data", fi.loc, describe(s)):
                continue
        its = items(s, v)
        if its is None and isinstance(v, T):
            r.skip("R5", sub, f"result of an unknown form: {short(v)}")
            continue
        r.check(its == (), "R5", sub, f"the entry gets attributes all the same: {short(v)}", fi.loc,
                describe(s))
    if not n:
        r.skip("R5", sub, "no path")
