"""P20: the Python API provides every setting the engine reads."""
import ast

from ..inventory import dotted
from ..lib import *
from ..reach import Reach
from ..report import new_state
from ..values import C, DictObj, Fn, ListObj, Raised, Ref, Splice, T, Tup
from . import p09

EXPLANATION = (
    "Rapid type analysis from the constructor and the iterator of the API (all plugins loaded, branches "
    "whose condition is a constant setting of the API pruned) yields the functions the API can reach; every "
    "setting read there must be among those the API provides. The constructor is interpreted with a "
    "symbolic value for every parameter, with defaults, and next to the parsed command line without any "
    "option. The option table is compared with the settings read anywhere in the program.")

FIND = "libff.find:Find"
POST = "libff.arguments:ArgumentsPostProcessor"
# commands to be executed reach a worker only from the processing classes of --exec
STOP = ("libff.walk:FilesystemWalker.process_arguments",)
# parameters that do not name a setting
NAMES = {"query": "tests"}
# what the API returns is chosen by its own kind of output
OWN = {"output"}


def run(r):
    r.rule("R1", "every setting that code reachable from the API reads is provided by the API")
    r.rule("R2", "every parameter of the API reaches the setting it names, and lists are not shared with the caller")
    r.rule("R3", "settings have the same default in the API and on the command line")
    r.rule("R4", "every option stores under a name that is read, every setting that is read is stored")
    r.rule("R5", "searches do not share mutable state")
    r.floor = 80
    r.assumptions.append("a worker of the API never receives commands, these are only queued by the processing "
                         "classes of --exec")
    for rule, f in (("R1", provided), ("R2", parameters), ("R3", defaults), ("R4", options), ("R5", isolated)):
        with r.guard(rule, f.__name__):
            f(r)


# ------------------------------------------------------------------ settings
def setting(n):
    """The name of the setting an attribute node denotes."""
    if not isinstance(n, ast.Attribute):
        return None
    b = n.value
    if isinstance(b, ast.Name) and b.id in ("args", "namespace") or \
            isinstance(b, ast.Attribute) and b.attr in ("args",) and \
            not (isinstance(b.value, ast.Name) and b.value.id in ("exc", "e", "err", "error")):
        return n.attr
    if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "vars":
        return None
    return None


def accesses(nodes):
    """[(name, node, stored)] of settings, getattr() with a constant name included."""
    for n in nodes:
        s = setting(n)
        if s is not None:
            yield s, n, isinstance(n.ctx, (ast.Store, ast.Del))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "setattr") and \
                len(n.args) >= 2 and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
            b = n.args[0]
            if isinstance(b, ast.Name) and b.id == "args" or isinstance(b, ast.Attribute) and b.attr == "args":
                if n.func.id == "setattr":
                    yield n.args[1].value, n, True
                elif len(n.args) == 2:
                    yield n.args[1].value, n, False


def namespace_class(r):
    """The class of the namespace that the API builds."""
    m = r.p.cls(FIND).module
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call):
            d = dotted(r.p, m, n.func)
            ci = r.p.classes.get(d) if d else None
            if ci is not None and any(isinstance(c, str) and c.endswith("Namespace") or
                                      getattr(c, "name", "").endswith("Namespace") for c in r.p.mro(ci)):
                return ci
    return None


def class_constants(r, ci):
    out = {}
    for c in r.p.mro(ci):
        if not hasattr(c, "attrs"):
            continue
        for n in c.node.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                out.setdefault(n.targets[0].id, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                out.setdefault(n.target.id, n.value)
    return out


def truth(test, consts):
    """The truth of a condition over constant settings, or None."""
    if isinstance(test, ast.BoolOp):
        vs = [truth(v, consts) for v in test.values]
        if isinstance(test.op, ast.And):
            return False if False in vs else True if all(v is True for v in vs) else None
        return True if True in vs else False if all(v is False for v in vs) else None
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        v = truth(test.operand, consts)
        return None if v is None else not v
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant):
        s = setting(test.left)
        if s in consts:
            a, b = consts[s], test.comparators[0].value
            if isinstance(test.ops[0], (ast.Is, ast.Eq)):
                return a == b
            if isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
                return a != b
        return None
    s = setting(test)
    if s in consts:
        return bool(consts[s])
    return None


def reachable(r):
    p = r.p
    cls = p.cls(FIND)
    roots = [f for f in (p.find_method(cls, n) for n in ("__init__", "__iter__", "__next__")) if f is not None]
    plugin = p.cls("libff.plugin:Plugin")
    classes = [cls] + [c for c in p.classes.values() if p.issub(c, plugin)]
    ns = namespace_class(r)
    consts = {}
    if ns is not None:
        consts = {k: v.value for k, v in class_constants(r, ns).items() if isinstance(v, ast.Constant)}
    while True:
        cur = dict(consts)
        reach = Reach(p, roots, classes, STOP, lambda t: truth(t, cur))
        nodes = {q: reach.live(f.node) for q, f in reach.funcs.items()}
        stored = {s for ns_ in nodes.values() for s, _, w in accesses(ns_) if w}
        if not stored & set(consts):
            return reach, nodes, ns, consts
        consts = {k: v for k, v in consts.items() if k not in stored}


def provided(r):
    reach, nodes, ns, consts = reachable(r)
    r.funcs |= set(reach.funcs)
    if ns is None:
        r.skip("R1", "namespace", "the API does not build a namespace of a class of its own")
        return
    have = set(class_constants(r, ns))
    init = r.p.find_method(r.p.cls(FIND), "__init__")
    for q, ns_ in nodes.items():
        have |= {s for s, _, w in accesses(ns_) if w}
    fields = None                            # what the constructor stores on every path
    for s, obj_ in built(r, post=True)[1]:
        mine = {k for b, k in s.fields if b == obj_}
        fields = mine if fields is None else fields & mine
    have |= fields or set()
    for n in ast.walk(init.module.tree):     # Namespace(**...)
        if isinstance(n, ast.Call):
            if dotted(r.p, init.module, n.func) == ns.qual and any(k.arg is None for k in n.keywords):
                r.skip("R1", "namespace", "settings of unknown names")
                return
    methods = {m for c in r.p.mro(ns) if hasattr(c, "methods") for m in c.methods}
    n = 0
    for q, ns_ in sorted(nodes.items()):
        fi = reach.funcs[q]
        for s, node, w in accesses(ns_):
            if w or s in methods or s.startswith("__"):
                continue
            n += 1
            r.sites.add(f"{fi.module.rel}:{node.lineno}:{node.col_offset}")
            r.check(s in have, "R1", f"{q} reads {s}", f"the setting {s} does not exist for the API",
                    f"{fi.module.rel}:{node.lineno}")
    if n < 20:
        r.skip("R1", "settings", f"only {n} reads found")


# ------------------------------------------------------------------ parameters
def constructed(r, args, kw, st, ip, keep):
    """Interpret the constructor up to the setup: namespaces are appended to keep."""
    def process(ip, st, call):
        keep.append((st, call.recv))
        return [(st, T("sym", "warnings"))]

    def setup(ip, st, call):
        a = call.args[1:] if call.args and call.args[0] == call.recv else call.args
        keep.append((st, a[0] if a else call.kw.get("args")))
        return [(st, C(None))]
    return setup


def built(r, args=(), kw=None, st=None, post=False, extra=None):
    """[(state, namespace)] when the engine is set up."""
    keep = []

    def setup(ip, st, call):
        a = [x for x in call.args if x != call.recv]
        keep.append((st, a[0] if a else call.kw.get("args")))
        return [(st, C(None))]
    ns = namespace_class(r)
    cls = r.p.cls(FIND)
    target = r.p.find_method(cls, "setup")
    hk = {target.qual: setup, **(extra or {})}
    if not post:
        hk[POST + ".process"] = lambda ip, st, call: [(st, T("sym", "warnings"))]
    ip = r.interp(hooks=hk, inst={ns.qual, POST} if ns else set(), max_loop=8, max_elems=8)
    fi = r.p.find_method(cls, "__init__")
    res = r.run(fi, [obj(r.p, FIND), *args], kw, st=st, ip=ip)
    return ip, keep, res


def parameters(r):
    p = r.p
    fi = p.find_method(p.cls(FIND), "__init__")
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
    st = new_state()
    kw = {n: T("sym", f"param_{n}") for n in names}
    # lists are lists of the caller
    dflt = dict(zip([x.arg for x in a.args][::-1], a.defaults[::-1]))
    lists = set()
    for n in names:
        if isinstance(dflt.get(n), ast.List):
            st, kw[n] = st.new(ListObj((T("sym", f"item_{n}"),)))
            lists.add(n)
    variants = {"text": T("sym", "query"), "list": None}
    for how in variants:
        k = dict(kw)
        s0 = st
        s0, k["query"] = s0.new(ListObj((T("sym", "test0"), T("sym", "test1"))))
        if how == "text":
            k["query"] = T("sym", "query")
            s0 = s0.fact(("isinstance", k["query"], "str"), True)

        def split(ip, st, call):
            return [(st, T("sym", "words", call.args[0]))]

        def isinst(ip, st, call):
            if call.args and call.args[0] == T("sym", "query"):
                return [(st, C("str" in repr(call.args[1])))]
        ip, keep, res = built(r, kw=k, st=s0, extra={"shlex.split": split, "builtins.isinstance": isinst})
        if not keep:
            r.skip("R2", f"query as {how}", "the engine is not set up")
            continue
        for s, ns in keep:
            if how == "text" and val(s, k["query"]) == C(None):
                continue
            for n in names:
                if n == "query" and n not in k:
                    continue
                got = [val(s, v) for _, v in ip.getattr_(ns, NAMES.get(n, n), s)]
                sub = f"parameter {n}" + (f" as {how}" if n == "query" else "")
                for v in got:
                    if isinstance(v, Raised):
                        r.bad("R2", sub, f"there is no setting {NAMES.get(n, n)}", fi.loc, describe(s))
                        continue
                    if n == "query" and how == "text":
                        r.check(mentions(v, T("sym", "words", k["query"]), s), "R2", sub,
                                f"the setting is {v!r} {items(s, v)!r}", fi.loc, describe(s))
                        continue
                    if isinstance(k[n], Ref):
                        its = items(s, v)
                        ok = its == items(s, k[n]) or its is not None and len(its) == 1 and \
                            isinstance(its[0], Splice) and its[0].term == k[n]
                        r.check(ok, "R2", sub, f"the setting is {v!r} {its!r}", fi.loc, describe(s))
                        r.check(v != k[n], "R2", sub + ": copy", "the list of the caller itself is used and may be changed",
                                fi.loc, describe(s))
                    else:
                        its = items(s, v) if isinstance(v, Ref) else None
                        copy = its is not None and len(its) == 1 and isinstance(its[0], Splice) and its[0].term == k[n]
                        r.check(copy or v == k[n] or v == val(s, k[n]), "R2", sub, f"the setting is {v!r}", fi.loc,
                                describe(s))


# ------------------------------------------------------------------ defaults
def defaults(r):
    p = r.p
    ns = namespace_class(r)
    ip0, res = p09.build_parser(r)
    if not res or ns is None:
        r.skip("R3", "defaults", "no parser or no namespace")
        return
    st0, parser = res[-1]
    cli = {}
    for s, v in p09.parse(r, ip0, st0, parser, []):
        n = p09.namespace(s, v)
        if n is not None:
            cli = {k: plain(s, x) for k, x in n.items()}
    ip, keep, _ = built(r)
    if not cli or not keep:
        r.skip("R3", "defaults", "no namespace")
        return
    reach, nodes, _, _ = reachable(r)
    read = {s for x in nodes.values() for s, _, w in accesses(x) if not w}
    n = 0
    for s, obj_ in keep:
        for name in sorted(set(cli) & read - OWN):
            for x, v in ip.getattr_(obj_, name, s):
                if isinstance(v, Raised):
                    continue                 # R1
                a, b = plain(x, val(x, v)), cli[name]
                if name == "directories":    # none given means the current directory
                    b = b or ["."]
                    a = a or ["."]
                sub = f"default of {name}"
                if a is UNKNOWN and b in (None, False, [], "") and {t for _, t in ip.truth(v, x)} == {True}:
                    r.bad("R3", sub, f"is {v!r} in the API and {b!r} on the command line",
                          p.find_method(p.cls(FIND), "__init__").loc)
                elif a is UNKNOWN or b is UNKNOWN:
                    r.skip("R3", sub, f"{v!r} {items(x, v)!r}")
                if a is UNKNOWN or b is UNKNOWN:
                    continue
                n += 1
                if isinstance(a, (set, frozenset)) != isinstance(b, (set, frozenset)) and \
                        all(isinstance(y, (set, frozenset, list, tuple)) for y in (a, b)):
                    a, b = set(a), set(b)
                r.check(a == b or not a and not b and a != 0 and b != 0 or a in (None, False, [], "") and
                        b in (None, False, [], ""), "R3", sub, f"is {a!r} in the API and {b!r} on the command line",
                        p.find_method(p.cls(FIND), "__init__").loc)
    if n < 10:
        r.skip("R3", "defaults", f"only {n} settings compared")


UNKNOWN = object()


def plain(s, v):
    if isinstance(v, C):
        return v.v
    if isinstance(v, Tup):
        x = [plain(s, i) for i in v.items]
        return UNKNOWN if UNKNOWN in x else tuple(x)
    o = s.heap.get(v.id) if isinstance(v, Ref) else None
    if isinstance(o, ListObj):
        x = [plain(s, i) for i in o.items]
        if any(i is UNKNOWN for i in x):
            return UNKNOWN
        return set(x) if o.kind == "set" else x
    if isinstance(v, T):
        return repr(v)
    return UNKNOWN


# ------------------------------------------------------------------ options
def options(r):
    p = r.p
    ip, res = p09.build_parser(r, debug=True)
    st, parser = res[-1]
    opts = p09.option_list(r, st, parser)
    dests = {}
    for o in opts:
        d = o.get("dest")
        if isinstance(d, C) and isinstance(d.v, str):
            dests.setdefault(d.v, o["names"])
        else:
            r.skip("R4", f"option {o['names']}", f"stores under {d!r}")
    read, stored = {}, set()
    for m in p.modules.values():
        for s, node, w in accesses(ast.walk(m.tree)):
            if w:
                stored.add(s)
            else:
                read.setdefault(s, f"{m.rel}:{node.lineno}")
    for d, names in sorted(dests.items()):
        r.check(d in read, "R4", f"option {names[0]}", f"the setting {d} is never consulted", "libff.arguments:create_parser")
    ns = namespace_class(r)
    skip = {m for c in (r.p.mro(ns) if ns else ()) if hasattr(c, "methods") for m in c.methods}
    # modules that have namespaces of their own are none of the program
    for s, where_ in sorted(read.items()):
        if s in skip or s.startswith("__"):
            continue
        r.check(s in dests, "R4", f"setting {s}", f"no option stores the setting {s}", where_)
    if len(dests) < 20:
        r.skip("R4", "options", f"only {len(dests)} settings found")


# ------------------------------------------------------------------ isolation
MUTATORS = {"append", "extend", "insert", "add", "update", "setdefault", "pop", "clear", "remove", "discard",
            "sort", "reverse", "popitem"}


def isolated(r):
    """Mutable objects of classes are not changed by instances."""
    p = r.p
    reach, nodes, _, _ = reachable(r)
    shared = {}                              # name -> classes whose class object has such an object
    for ci in p.classes.values():
        for k, v in own_constants(ci).items():
            if mutable(v):
                shared.setdefault(k, []).append(ci)
    once = loaded_once(r, reach, nodes, shared)
    for name in sorted(shared):
        for ci in shared[name]:
            hits, readers = [], []
            for q, ns_ in nodes.items():
                fi = reach.funcs[q]
                for x, owner in touched(p, fi, ns_, name, ci):
                    if fi.name == "__init__" and owner == "self" and rebinds(p, fi.cls, name):
                        continue
                    if x is None:
                        readers.append(fi)
                    elif not system_fact(x) and q not in once:
                        hits.append((fi, x))
            if hits and all(only_prints(p, f) for f in readers + [h[0] for h in hits]):
                hits = []
            r.check(not hits, "R5", f"{ci.qual}.{name}", "an object of the class is changed by "
                    f"{sorted({h[0].qual for h in hits})}: it is shared by all searches",
                    hits and f"{hits[0][0].module.rel}:{hits[0][1].lineno}")
    # defaults of parameters live as long as the program
    for q, fi in sorted(reach.funcs.items()):
        a = fi.node.args if hasattr(fi.node, "args") else None
        if a is None:
            continue
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[::-1], a.defaults[::-1])) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]
        for x, d in pairs:
            if mutable(d):
                bad = [n for n in nodes[q] if (t := changed(n)) is not None and isinstance(t, ast.Name) and
                       t.id == x.arg]
                r.check(not bad, "R5", f"{q}: default of {x.arg}", "the default is changed, it is shared by all "
                        "searches", fi.loc)
    # settings that are objects of the caller, or of the defaults
    for name in sorted(lent(r)):
        bad = [(reach.funcs[q], n) for q, ns_ in sorted(nodes.items()) for n in changes_of(p, reach.funcs[q], ns_, name)]
        r.check(not bad, "R5", f"setting {name}", "the object given, or the default, is changed by "
                f"{sorted({h[0].qual for h in bad})}: later searches use it as well",
                bad and f"{bad[0][0].module.rel}:{bad[0][1].lineno}")
    # objects of modules
    for m in p.modules.values():
        glob = {n.targets[0].id: n for n in m.tree.body if isinstance(n, ast.Assign) and len(n.targets) == 1 and
                isinstance(n.targets[0], ast.Name) and mutable(n.value)}
        for name in sorted(glob):
            bad = []
            for q, ns_ in nodes.items():
                fi = reach.funcs[q]
                if fi.module is not m or q in once or bound(fi, name):
                    continue
                bad += [(fi, x) for x in ns_ if (t := changed(x)) is not None and isinstance(t, ast.Name) and
                        t.id == name and not system_fact(x)]
            r.check(not bad, "R5", f"{m.name}.{name}", "an object of the module is changed by "
                    f"{sorted({h[0].qual for h in bad})}: it is shared by all searches",
                    bad and f"{m.rel}:{bad[0][1].lineno}")


def lent(r):
    """Settings that are the very object given as the parameter."""
    fi = r.p.find_method(r.p.cls(FIND), "__init__")
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
    dflt = dict(zip([x.arg for x in a.args][::-1], a.defaults[::-1]))
    dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    st, kw = new_state(), {n: T("sym", f"param_{n}") for n in names}
    for n in names:
        if isinstance(dflt.get(n), ast.List):
            st, kw[n] = st.new(ListObj((T("sym", f"item_{n}"),)))
    st, kw["query"] = st.new(ListObj((T("sym", "test0"),)))
    out = set()
    ip, keep, res = built(r, kw=kw, st=st)
    for s, ns in keep:
        for (b, field), v in s.fields.items():
            out |= {field for n in names if b == ns and v == kw[n] and not isinstance(dflt.get(n), ast.Constant)}
    return out


def changes_of(p, fi, nodes, name):
    """Nodes that change the object a setting holds, or hand it to a function that does."""
    local = {t.id for x in nodes if isinstance(x, ast.Assign) and setting(x.value) == name for t in x.targets
             if isinstance(t, ast.Name)}
    if fi.qual == p.find_method(p.cls(FIND), "__init__").qual:
        local.add(name)
    mine = lambda x: setting(x) == name or isinstance(x, ast.Name) and x.id in local       # noqa: E731
    for x in nodes:
        t = changed(x)
        if t is not None and mine(t) or isinstance(x, ast.AugAssign) and mine(x.target):
            yield x
        if not isinstance(x, ast.Call):
            continue
        called = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", None)
        for f in p.funcs.values():
            if f.name != called or not hasattr(f.node, "args"):
                continue
            pos = [y.arg for y in f.node.args.posonlyargs + f.node.args.args]
            if isinstance(x.func, ast.Attribute) and f.cls is not None and pos[:1] in (["self"], ["cls"]):
                pos = pos[1:]
            given = [n for n, v in zip(pos, x.args) if mine(v)] + [k.arg for k in x.keywords if mine(k.value)]
            if any((t := changed(n)) is not None and isinstance(t, ast.Name) and t.id in given or
                   isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in given
                   for n in ast.walk(f.node)):
                yield x


def bound(fi, name):
    """Is the name local to the function?"""
    if any(isinstance(n, ast.Global) and name in n.names for n in ast.walk(fi.node)):
        return False
    a = fi.node.args
    if name in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}:
        return True
    return any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name for n in ast.walk(fi.node))


def touched(p, fi, nodes, name, ci):
    """[(changing node or None for a read, self|cls|class name)] of the object of class ci."""
    changes = {}
    for x in nodes:
        t = changed(x)
        if t is not None:
            changes[id(t)] = x
    mine = fi.cls is not None and (p.issub(fi.cls, ci) or p.issub(ci, fi.cls))
    local = set()                            # names bound to the object
    for x in nodes:
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute) and x.value.attr == name:
            if mine and dot(x.value.value) in ("self", "cls"):
                local |= {t.id for t in x.targets if isinstance(t, ast.Name)}
    for x in nodes:
        if isinstance(x, ast.Name) and x.id in local and id(x) in changes and mine and \
                not rebinds(p, fi.cls, name):
            yield changes[id(x)], "self"
        if not (isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Load)):
            continue
        o = dot(x.value)
        if o == ci.name or mine and o == "cls" or mine and o in ("type(self)", "self.__class__") or \
                mine and o == "self" and not rebinds(p, fi.cls, name):
            yield changes.get(id(x)), "self" if o == "self" else o


def dot(n):
    return ast.unparse(n)


def loaded_once(r, reach, nodes, shared):
    """Functions that are called once in the life of the program: only where a shared container is
    found to be empty, or by such functions."""
    calls = {}                               # method name -> [(function, call)]
    for q, ns_ in nodes.items():
        for x in ns_:
            if isinstance(x, ast.Call):
                n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) \
                    else None
                calls.setdefault(n, []).append((q, x))

    def guarded(q, call):
        fi = reach.funcs[q]
        pm = r.p.parent_map(fi.module)
        n = call
        while n is not fi.node and n in pm:
            par = pm[n]
            if isinstance(par, ast.If) and n in par.body and empty_test(par.test, True, shared):
                return True
            body = getattr(par, "body", None)
            if isinstance(body, list) and n in body:
                for b in body[:body.index(n)]:
                    if isinstance(b, ast.If) and empty_test(b.test, False, shared) and \
                            isinstance(b.body[-1], (ast.Return, ast.Raise)):
                        return True
            n = par
        return False
    once = set()
    while True:
        new = {q for q, fi in reach.funcs.items() if q not in once and calls.get(fi.name) and
               all(c in once or guarded(c, x) for c, x in calls[fi.name] if fits(fi, x))}
        if not new:
            return once
        once |= new


def fits(fi, call):
    """Can the call be one of this function, from the number of its arguments?"""
    a = fi.node.args
    if a.vararg or a.kwarg or any(isinstance(x, ast.Starred) for x in call.args) or \
            any(k.arg is None for k in call.keywords):
        return True
    names = [x.arg for x in a.posonlyargs + a.args]
    n = len(call.args) + (isinstance(call.func, ast.Attribute) and fi.cls is not None)
    required = len(names) - len(a.defaults)
    return n <= len(names) and n + len(call.keywords) >= required


def empty_test(test, empty, shared):
    """Does the condition say that a container of a class is empty (or, not empty)?"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return empty_test(test.operand, not empty, shared)
    if isinstance(test, ast.Attribute):
        return not empty and test.attr in shared
    if isinstance(test, ast.Call) and dot(test.func) in ("len", "bool") and len(test.args) == 1:
        return empty_test(test.args[0], empty, shared)
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and \
            test.comparators[0].value == 0 and isinstance(test.left, ast.Call) and dot(test.left.func) == "len":
        return empty_test(test.left.args[0], False, shared) and \
            isinstance(test.ops[0], ast.Eq if empty else (ast.NotEq, ast.Gt))
    return False


def only_prints(p, fi):
    """Nothing but a message depends on what the function does."""
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Return) and n.value is not None or isinstance(n, (ast.Yield, ast.YieldFrom, ast.Raise)):
            return False
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            return False
    return any(isinstance(n, ast.Call) and dot(n.func) in ("print", "sys.stderr.write") for n in ast.walk(fi.node))


def own_constants(ci):
    out = {}
    for n in ci.node.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            out[n.targets[0].id] = n.value
        elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
            out[n.target.id] = n.value
    return out


def mutable(v):
    return isinstance(v, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp)) or \
        isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list", "set")


def changed(n):
    """The expression of the container a node changes."""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
        return n.func.value
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
        ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
        for t in ts:
            if isinstance(t, ast.Subscript):
                return t.value
    return None


def rebinds(p, ci, name):
    """Does the constructor give instances their own object?"""
    fi = p.find_method(ci, "__init__")
    return fi is not None and any(
        isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name and
        isinstance(n.value, ast.Name) and n.value.id == "self" for n in ast.walk(fi.node))


def system_fact(n):
    """A cache of something that is the same for every search: keys and values do not depend on settings."""
    return not any(isinstance(x, ast.Attribute) and x.attr in ("context", "args", "registry", "logger") or
                   isinstance(x, ast.Name) and x.id in ("args", "context") for x in ast.walk(n)) and \
        isinstance(n, ast.Assign) and all(stable(x) for x in ast.walk(n.value) if isinstance(x, ast.Call)) and \
        not any(isinstance(x, ast.Name) and x.id not in ("uid", "gid", "pwd", "grp") for x in ast.walk(n.value)) \
        if isinstance(n, ast.Assign) else False


def stable(call):
    return isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and \
        call.func.value.id in ("pwd", "grp", "os", "socket", "time", "locale")
