"""P14: plugins deliver what they declare."""
import ast

from ..inventory import call_sites, dotted
from ..lib import *
from ..report import Undecided, new_state
from ..schema import declared, plugins
from ..typing_ import Types, terms
from ..values import C, DictObj, Fn, ListObj, Raised, Ref, Splice, T, Tup
from .p10 import argv, scope_node
from .p11 import KINDS, kind_hooks

EXPLANATION = (
    "The extraction methods of every plugin class (including those made by type()) are interpreted for an "
    "arbitrary entry, with the value of cache() handed to process() as the registry does; every produced "
    "key must be declared, every declared key must be produced on some path, and the inferred Python type "
    "of every produced value must be the one of the declared type. The attributes declared by the file "
    "plugin are looked up in an entry constructed for every kind of file: each must exist, with the "
    "declared type, and the type names must be the documented choices.")

WANT = {"String": {"str"}, "Path": {"str"}, "FileType": {"str"}, "Number": {"int", "bool"},
        "Size": {"int", "bool"}, "Time": {"int", "bool"}, "Duration": {"int", "bool"},
        "Mode": {"int", "bool"}, "Boolean": {"bool"}, "ListOfStrings": {"list"}}
LINKS = {"link", "target"}          # documented as specific to symbolic links


def run(r):
    r.rule("R1", "every attribute a plugin produces is one it declares")
    r.rule("R2", "every produced value has the declared type")
    r.rule("R3", "every declared attribute can be produced")
    r.rule("R4", "attributes of the file plugin exist for entries of every type, with the declared type")
    r.rule("R5", "the names of file types are the documented choices, one per kind of file")
    r.rule("R6", "documented meaning: a shebang is the first line of the file")
    r.rule("R7", "declarations name existing types and every attribute only once")
    r.rule("R8", "every hash plugin yields a digest, whatever the digest size of the algorithm")
    r.rule("R9", "file names listed by git are requested unquoted (-z)")
    r.floor = 120
    p = r.p
    types = {c.name for c in p.subclasses(p.cls("libff.type:Type"))}
    for ci in plugins(p):
        if ci.qual == "libff.builtin.file:File":
            continue
        for sub, decl, sym in declarations(r, ci):
            for n, t in decl.items():
                r.check(t in types, "R7", f"{sub}.{n if isinstance(n, str) else 'name'}",
                        f"declared with unknown type {t}", ci.loc)
            with r.guard("R1", sub):
                plugin(r, ci, sub, decl, sym)
    with r.guard("R4", "file attributes"):
        entry(r)
    shebang(r)
    with r.guard("R8", "digests"):
        digests(r)
    with r.guard("R9", "git"):
        gitnames(r)


# ------------------------------------------------------------------ declarations
def declarations(r, ci):
    """(subject, name -> type, symbol for a computed name) of a plugin class."""
    p = r.p
    dyn = dynamic(p, ci)
    if dyn:
        out = []
        for i, (call, attrs, name) in enumerate(dyn):
            sym = T("sym", "plugin name")
            decl = {}
            for el in attrs.elts:
                if not isinstance(el, (ast.Tuple, ast.List)) or len(el.elts) < 2:
                    raise Undecided("attribute declaration")
                n, t = el.elts[0], el.elts[1]
                key = n.value if isinstance(n, ast.Constant) else sym \
                    if name is not None and ast.dump(n) == ast.dump(name) else None
                if key is not None:
                    decl[key] = t.id if isinstance(t, ast.Name) else t.attr \
                        if isinstance(t, ast.Attribute) else ast.unparse(t)
            out.append((f"{ci.qual} subclasses", decl, sym))
        return out
    if not own_attributes(p, ci):
        return []
    try:
        node = p.find_attr(ci, "attributes")
        seen = [e.elts[0].value for e in ast.walk(node[1]) if isinstance(e, ast.Tuple) and e.elts and
                isinstance(e.elts[0], ast.Constant)]
        r.check(len(seen) == len(set(seen)), "R7", ci.qual, "an attribute is declared twice", ci.loc)
        return [(ci.qual, declared(p, ci), None)]
    except (Undecided, AttributeError) as exc:
        r.skip("R7", ci.qual, exc)
        return []


def own_attributes(p, ci):
    a = p.find_attr(ci, "attributes")
    return a is not None and a[0].name != "Plugin"


def dynamic(p, ci):
    """Classes made by type(name, (ci,), {...}) : (call, attributes list, name expression)."""
    out = []
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and len(n.args) == 3 and dotted(p, m, n.func) == "builtins.type" and \
                    isinstance(n.args[1], ast.Tuple) and isinstance(n.args[2], ast.Dict) and \
                    any(dotted(p, m, b) == ci.qual for b in n.args[1].elts):
                d = {k.value: v for k, v in zip(n.args[2].keys, n.args[2].values)
                     if isinstance(k, ast.Constant)}
                if isinstance(d.get("attributes"), (ast.List, ast.Tuple)):
                    out.append((n, d["attributes"], d.get("name", n.args[0])))
    return out


# ------------------------------------------------------------------ production
def ends(r, ci, sub, loop, helpers=True):
    """All results of process(): (state, value), for a plausible entry and cached value."""
    p = r.p
    own = {c.module.name for c in p.mro(ci) if hasattr(c, "module")} | {"libff.entry"}
    tree = p.find_attr(ci, "use_cache")
    use_cache = not (tree is not None and isinstance(tree[1], ast.Constant) and not tree[1].value)
    out = []
    for kind in ("file", "directory"):
        ip = r.interp(hooks=kind_hooks(kind), max_loop=loop, depth=10,
                      opaque=lambda fi: fi.module.name not in own or not helpers and
                      fi.name not in ("can_handle", "cache", "process") and not fi.is_gen and
                      fi.module.name != "libff.entry")
        ent = obj(p, "libff.entry:Entry")
        plug = T("new", ci, C(1))
        st = new_state().setfield(ent, "type", C(kind))
        st = st.setfield(plug, "name", T("sym", "plugin name"))
        yes = []
        for s, v in ip.call_func(p.find_method(ci, "can_handle"), [plug, ent], {}, st, None):
            if isinstance(v, Raised):
                continue
            if any(t for _, t in ip.truth(v, s)):
                yes.append(s)
        yes = yes[:4]
        for s0 in yes:
            ip.steps = 0
            if use_cache:
                res = ip.call_func(p.find_method(ci, "cache"), [plug, ent], {}, s0, None)
                caches = [(s, v) for s, v in res if not isinstance(v, Raised)]
            else:
                caches = [(s0, C(None))]
            for s, c in caches[:60]:
                ip.steps = 0
                for s2, v in ip.call_func(p.find_method(ci, "process"), [plug, ent, c], {}, s, None):
                    out.append((kind, s2, v))
        r.account(ip, len(out))
    return out


def pairs(st, v):
    """(key, value) pairs of a result of process(), and whether all are known."""
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, DictObj):
            return list(o.items), not o.open
        if isinstance(o, ListObj):
            out, full = [], True
            for i in o.items:
                if isinstance(i, Ref) and isinstance(st.heap.get(i.id), ListObj):
                    i = Tup(st.heap[i.id].items)
                if isinstance(i, Tup) and len(i.items) == 2:
                    out.append(tuple(i.items))
                else:
                    full = False
            return out, full
    if isinstance(v, Tup):
        return [tuple(i.items) for i in v.items if isinstance(i, Tup) and len(i.items) == 2], True
    return [], False


def plugin(r, ci, sub, decl, sym):
    try:
        results = ends(r, ci, sub, 2 if r.thorough else 1)
    except Undecided:
        try:
            results = ends(r, ci, sub, 1)
        except Undecided:
            results = ends(r, ci, sub, 1, False)
    ty = Types(project=r.p)
    produced, unknown, ok = set(), False, set()
    where = ci.loc
    for kind, s, v in results:
        if isinstance(v, Raised):
            continue
        ps, full = pairs(s, v)
        unknown |= not full
        for k, x in ps:
            key = k.v if isinstance(k, C) else k
            if isinstance(k, T):
                f = s.facts.get(("val", k))
                if sym is not None and (k == sym or f is not None and f == val(s, sym)):
                    key = sym
                elif f is not None:
                    key = f.v
            elif sym is not None and val(s, sym) == k:
                key = sym
            if isinstance(key, T) and key != sym:
                unknown = True
                continue
            name = key if isinstance(key, str) else "name"
            if key not in decl:
                r.bad("R1", f"{sub}.{name}", f"the attribute {name!r} is produced but not declared", where,
                      describe(s))
                continue
            produced.add(key)
            r.oblig.append(("R1", f"{sub}.{name}", "discharged"))
            judge(r, ty, s, f"{sub}.{name}", decl[key], x, where, ok)
    for name in decl:
        n = name if isinstance(name, str) else "name"
        if name in produced:
            r.ok("R3", f"{sub}.{n}")
        elif unknown or not results:
            r.skip("R3", f"{sub}.{n}", "some results are not known")
        else:
            r.bad("R3", f"{sub}.{n}", f"no path of process() produces the declared attribute {n!r}", where)
    for o in sorted(ok):
        r.ok("R2", o)


def judge(r, ty, s, sub, want, v, where, ok):
    """One produced value against the declared type."""
    t = ty.of(v, s)
    allowed = WANT.get(want)
    if allowed is None:
        return
    if t is None:
        for o in sorted(ty.lookup(v, s) - allowed):
            what = {"none": "None"}.get(o, f"a value of type {o}")
            r.bad("R2", sub, f"{what} may be produced for an attribute of type {want}: {short(v)}", where,
                  describe(s))
            return
        if isinstance(v, T) and v.op == "cut":
            return
        ok.add(sub)             # a value of a foreign library: trusted (see assumptions)
        return
    if t not in allowed:
        what = {"none": "None"}.get(t, f"a value of type {t}")
        r.bad("R2", sub, f"{what} is produced for an attribute of type {want}: {short(v)}", where,
              describe(s))
        return
    if want == "ListOfStrings":
        bad = [x for x in ty.elements(v, s) if x not in (None, "str")]
        if bad:
            r.bad("R2", sub, f"the list contains a value of type {bad[0]}: {short(v)}", where, describe(s))
            return
    ok.add(sub)


# ------------------------------------------------------------------ R4, R5
def entry(r):
    p = r.p
    r.assumptions.append("values obtained from pymediainfo, magic and elftools have the types their "
                         "documentation states")
    ci = p.cls("libff.entry:Entry")
    decl = declared(p, p.cls("libff.builtin.file:File"))
    get = p.find_method(ci, "get_attribute")
    ft = p.cls("libff.type:FileType")
    choices = const_set(p, ft, "choices")
    names = {}
    ty = Types(known={T("sym", "relpath"): "str"}, project=p)
    absent = {}
    ok = set()
    for kind in KINDS:
        def raises(name, recv, st, call):
            return ("KeyError",) if name in ("pwd.getpwuid", "grp.getgrgid") else ()

        def item_raises(b, k, st):
            return ("KeyError",) if isinstance(b, T) and b.op in ("clsattr", "attr") and \
                not isinstance(k, C) else ()
        ip = r.interp(hooks=kind_hooks(kind), inst={ci.qual}, max_loop=1, raises=raises, shared=True,
                      item_raises=item_raises, opaque=lambda fi: fi.module.name == "libff.path")
        start = obj(p, "libff.entry:StartDirectory")
        n = 0
        states = ip.call_value(Fn("class", ci), [start, T("sym", "relpath"), T("sym", "status")], {},
                               new_state(), None)
        made = [(s, v) for s, v in states if not isinstance(v, Raised)]
        if not made:
            r.bad("R4", f"entry of a {kind}", "no entry can be constructed", ci.loc)
            continue
        for name, want in decl.items():
            sub = f"{name} of a {kind}"
            missing = isinstance_missing = None
            got = 0
            for s, v in made[:8]:
                ip.steps = 0
                try:
                    res = ip.call_func(get, [v, C(name)], {}, s, None)
                except Undecided as exc:
                    r.skip("R4", sub, exc)
                    continue
                for s2, w in res:
                    n += 1
                    if isinstance(w, Raised):
                        if name in LINKS and kind != "symlink":
                            continue
                        r.bad("R4", sub, f"the attribute is not available: {w.exc!r}", get.loc,
                              describe(s2))
                        continue
                    if isinstance(w, T) and w.op == "attr" and w.args[0] == v and w.args[1] == name:
                        missing = s2
                        continue
                    got += 1
                    if isinstance(w, Fn):
                        r.bad("R4", sub, f"the attribute is a function: {w!r}", get.loc, describe(s2))
                        continue
                    judge(r, ty, s2, f"file.{name} of a {kind}", want, w, ci.loc, ok)
                    if name == "type":
                        w = val(s2, w)
                        if isinstance(w, C):
                            names.setdefault(kind, set()).add(w.v)
            if missing is not None and not (name in LINKS and kind != "symlink"):
                r.bad("R4", sub, f"the attribute {name!r} is not set for a {kind}", ci.loc, describe(missing))
            elif got:
                r.ok("R4", sub)
        r.account(ip, n)
    for o in sorted(ok):
        r.ok("R2", o)
    doc = {"file": "file"}
    for kind, ns in sorted(names.items()):
        sub = f"type name of a {kind}"
        r.check(ns == {doc.get(kind, kind)}, "R5", sub, f"the type of a {kind} is {sorted(ns)}", ci.loc)
        if choices is not None:
            r.check(ns <= choices, "R5", sub + " is a choice", f"{sorted(ns)} cannot be given as a value "
                    "of the type attribute", ft.loc)


def const_set(p, ci, name):
    a = p.find_attr(ci, name)
    if a is None:
        return None
    e = a[1]
    if isinstance(e, ast.Call) and e.args:
        e = e.args[0]
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(x, ast.Constant) for x in e.elts):
        return {x.value for x in e.elts}
    return None


# ------------------------------------------------------------------ R6
def shebang(r):
    p = r.p
    try:
        ci = p.cls("plugins.introspect:Shebang")
    except Exception as exc:                # the plugin may be gone
        r.skip("R6", "shebang", exc)
        return
    with r.guard("R6", "shebang.shebang"):
        bad = good = False
        for loop in (2,):
            for kind, s, v in ends(r, ci, "shebang", loop):
                if isinstance(v, Raised):
                    continue
                for k, x in pairs(s, v)[0]:
                    late = later_line(x)
                    if late:
                        bad = True
                        r.bad("R6", "shebang.shebang", f"the value may stem from a later line: {short(late)}",
                              ci.loc, describe(s))
                    else:
                        good = True
        if good and not bad:
            r.ok("R6", "shebang.shebang")


def later_line(x):
    """A subterm that denotes a line after the first."""
    for t in terms(x):
        if isinstance(t, T) and t.op == "elem" and len(t.args) > 1:
            i = t.args[1]
            i = i.v if isinstance(i, C) else i
            if isinstance(i, int) and i > 0:
                return t
    return None


# ------------------------------------------------------------------ R8
def digests(r):
    """Plugins made for all of hashlib.algorithms_*: some algorithms have no fixed digest size."""
    p = r.p
    for ci in plugins(p):
        if not dynamic(p, ci) or not any(s.name in ("hashlib.new", "hashlib.file_digest") and
                                         s.module is ci.module for s in call_sites(p)):
            continue
        where = p.find_method(ci, "cache")
        for name in ("sha256", "blake2b", "shake_128", "shake_256"):
            sub = f"digest {name}"
            with r.guard("R8", sub):
                def raises(n, recv, st, call):
                    return ("TypeError",) if n in (".digest", ".hexdigest") and not call.args and \
                        not call.kw and name.startswith("shake") else ()
                ip = r.interp(hooks=kind_hooks("file"), max_loop=1, raises=raises, shared=True)
                plug, ent = T("new", ci, C(1)), obj(p, "libff.entry:Entry")
                st = new_state().setfield(ent, "type", C("file")).setfield(plug, "name", C(name))
                out = ip.call_func(where, [plug, ent], {}, st, None)
                r.account(ip, len(out))
                bad = [(s, v) for s, v in out if isinstance(v, Raised) and "TypeError" in repr(v.exc)]
                r.check(not bad, "R8", sub, f"the digest of {name} is requested without its size, which "
                        "fails with TypeError", where.loc, describe(bad[0][0]) if bad else None)


# ------------------------------------------------------------------ R9
def gitnames(r):
    p = r.p
    for s in call_sites(p):
        if not (s.name or "").startswith("subprocess.") or s.arg(0, "args") is None:
            continue
        for words in argv(p, s.module, scope_node(p, s), s.arg(0, "args")) or []:
            ws = [w for w in words if isinstance(w, str)]
            cmd = {"ls-files", "status", "diff", "ls-tree"} & set(ws)
            if not ws or ws[0] != "git" or not cmd:
                continue
            if Ellipsis in words:
                r.skip("R9", f"git {min(cmd)}", "unknown words")
                continue
            r.check("-z" in ws, "R9", f"git {min(cmd)}", f"git {min(cmd)} is run without -z, so it quotes "
                    "unusual file names", s.where)
