"""P23: attribute names are resolved the same way everywhere."""
import ast
import itertools
import re

from ..inventory import dotted
from ..lib import *
from ..report import new_state
from ..schema import declared, plugins
from ..values import C, DictObj, Exc, Fn, ListObj, Raised, Ref, T, Tup
from . import p09

EXPLANATION = (
    "The resolution of names is interpreted for every way an attribute can be declared by three plugins and "
    "compared with the decision table; every place that takes the value of an attribute is interpreted with "
    "two different attributes whose values and types are told apart; the name patterns are compared with all "
    "names that are declared by the plugins.")

REG = "libff.registry:Registry"
ATTR = "libff.attribute:_Attribute"
PLUGINS = ("file", "aplug", "zplug")
ENTRY = T("sym", "entry")


def run(r):
    r.rule("R1", "a name alone means the file attribute, else the only attribute of that name, else it is refused; "
                 "a qualified name means that plugin")
    r.rule("R2", "unknown plugins and unknown attributes of a plugin are refused; a plugin is set up before use, "
                 "once, and keeps its name")
    r.rule("R3", "the value and the type of an attribute come from the plugin and the name of the attribute")
    r.rule("R4", "tests, references, sort, output, count and commands use value and type of one attribute")
    r.rule("R5", "the table of attributes has exactly what the plugins declare")
    r.rule("R6", "every declared name can be written, alone and qualified, in tests and in fields")
    r.floor = 300
    with r.guard("R1", "names"):
        names(r)
    with r.guard("R2", "setup"):
        setup_(r)
    with r.guard("R2", "registration"):
        registration(r)
    with r.guard("R2", "types"):
        types_(r)
    with r.guard("R3", "values"):
        values_(r)
    with r.guard("R4", "fields"):
        fields(r)
    with r.guard("R4", "tests"):
        tests(r)
    with r.guard("R4", "filters"):
        filters(r)
    with r.guard("R4", "records"):
        records(r)
    with r.guard("R5", "table"):
        table(r)
    with r.guard("R6", "patterns"):
        patterns(r)


def attr(p, plugin, name):
    return Tup((C(plugin), C(name)), cls=p.cls(ATTR))


def attribute_hook(p):
    """Attribute(plugin, name, alias=None), with Python's check of the number of arguments."""
    def make(ip, s, c):
        args = list(c.args)
        for k in ("plugin", "name", "alias"):
            if k in c.kw:
                args.append(c.kw[k])
        if any(isinstance(a, T) and a.op in ("splice", "star") for a in args):
            return None
        if not 2 <= len(args) <= 3:
            return [(s, Raised(Exc("TypeError", (), c.node)))]
        return [(s, Tup(tuple(args[:2]), cls=p.cls(ATTR)))]
    return {"libff.attribute:Attribute": make}


def pair(v):
    """(plugin, name) of an attribute value."""
    if isinstance(v, Tup) and len(v.items) >= 2 and all(isinstance(x, C) for x in v.items[:2]):
        return v.items[0].v, v.items[1].v
    return None


def configuration(p, reg, pairs, st, up=()):
    """A registry whose plugins declare the given pairs."""
    for x in [T("sym", f"type.{a}.{b}") for a, b in pairs] + [T("sym", f"{k}.{a}") for a in PLUGINS
                                                              for k in ("class", "plugin")]:
        st = st.fact(("truth", x), True).fact(("neq", x, C(None)), True)
    st, attrs = st.new(DictObj(tuple((attr(p, a, b), T("sym", f"type.{a}.{b}")) for a, b in pairs)))
    st, plugs = st.new(DictObj(tuple((C(a), T("sym", f"class.{a}")) for a in PLUGINS)))
    st, done = st.new(DictObj(tuple((C(a), T("sym", f"plugin.{a}")) for a in up)))
    return st.setfield(reg, "attributes", attrs).setfield(reg, "registered_plugins", plugs) \
        .setfield(reg, "plugins", done)


def subsets(xs):
    return [c for n in range(len(xs) + 1) for c in itertools.combinations(xs, n)]


# ------------------------------------------------------------------ R1
def names(r):
    p = r.p
    reg = obj(p, REG)
    qual = REG + ".parse_attribute"
    fi = p.func(qual)
    hooks = attribute_hook(p)

    def outcome(sub, pairs, text, want):
        # what a name means does not depend on the plugins that are in use already
        for up in ((), ("file",), ("aplug",), ("zplug",), ("file", "aplug", "zplug")):
            one(sub + (f" with {'+'.join(up)} set up" if up else ""), pairs, text, want, up)

    def one(sub, pairs, text, want, up):
        with r.guard("R1", sub):
            n = 0
            for s, v in r.run(fi, [reg, C(text)], hooks=hooks, max_loop=9, max_elems=9, fold_re=True,
                              setup=lambda st: configuration(p, reg, pairs, st, up)):
                n += 1
                got = v.exc.name if isinstance(v, Raised) else pair(v)
                if got is None:
                    r.skip("R1", sub, f"the result is {short(v)}")
                    continue
                r.check(got == want, "R1", sub, f"{text} is taken for {got}, should be {want}", fi.loc, describe(s))
            if not n:
                r.skip("R1", sub, "no outcome")
    bad = "BadAttributeError"
    for owners in subsets(PLUGINS):
        want = ("file", "attr") if "file" in owners else (owners[0], "attr") if len(owners) == 1 else bad
        rest = [(x, "other") for x in PLUGINS]
        orders = [list(owners), list(owners)[::-1]] if len(owners) > 1 else [list(owners)]
        for i, order in enumerate(orders):
            mine = [(x, "attr") for x in order]
            for j, pairs in enumerate((mine + rest, rest + mine)):
                outcome(f"attr of {'+'.join(order) or 'nobody'} {j}", pairs, "attr", want)
    pairs = [(x, y) for x in PLUGINS for y in ("attr", "other")]
    for x in PLUGINS:
        outcome(f"{x}.attr", pairs, f"{x}.attr", (x, "attr"))
        # a plugin that does not have the attribute does not get it from another one
        outcome(f"{x}.attr of others", [q for q in pairs if q != (x, "attr")], f"{x}.attr", (x, "attr"))
        outcome(f"{x}.attr alone", [(x, "attr")], f"{x}.attr", (x, "attr"))
    outcome("case of a name", pairs, "ATTR", bad)
    outcome("prefix of a name", pairs, "att", bad)
    outcome("name of a plugin", pairs, "aplug", bad)
    outcome("file in the name of a plugin", [("profile", "attr"), ("aplug", "attr")], "attr", bad)
    outcome("only one plugin has it", [("profile", "attr"), ("aplug", "other")], "attr", ("profile", "attr"))


# ------------------------------------------------------------------ R2
def setup_(r):
    p = r.p
    reg = obj(p, REG)
    qual = REG + ".setup_attribute"
    fi = p.func(qual)
    pairs = [("file", "size"), ("aplug", "attr")]

    cases = [(t, up) for t in ("aplug.attr", "attr", "size", "file.size") for up in ((), ("file",), ("aplug",),
                                                                                      ("file", "aplug"))]
    for text, up in cases:
        sub = f"{text} with {'+'.join(up) or 'nothing'} set up"
        want = "file" if "size" in text else "aplug"
        with r.guard("R2", sub):
            for s, v in r.run(fi, [reg, C(text)], hooks=attribute_hook(p), max_loop=9, max_elems=9, fold_re=True,
                              opaque=lambda f: f.name == "init_plugin",
                              setup=lambda st: configuration(p, reg, pairs, st, up)):
                if isinstance(v, Raised):
                    r.bad("R2", sub, f"is refused with {v.exc.name}", fi.loc, describe(s))
                    continue
                got = pair(v)
                if got is None:
                    r.skip("R2", sub, f"the result is {short(v)}")
                    continue
                r.check(got == (want, text.split(".")[-1]), "R2", sub, f"the attribute is {got}", fi.loc, describe(s))
                n = [e for e in s.events() if last(e) == "init_plugin"]
                ours = [e for e in n if e.args and e.args[-1] == C(want)]
                need = 0 if want in up else 1
                r.check(len(ours) == need, "R2", sub + ": set up", f"the plugin is set up {len(ours)} times",
                        fi.loc, describe(s))
                r.check(len(n) == len(ours), "R2", sub + ": others", "another plugin is set up", fi.loc, describe(s))
    for text in ("nope.size", "nope.attr", ".size", "FILE.size"):
        for up in ((), ("file",)):
            sub = f"{text} with {'+'.join(up) or 'nothing'} set up"
            with r.guard("R2", sub):
                for s, v in r.run(fi, [reg, C(text)], hooks=attribute_hook(p), max_loop=9, max_elems=9,
                                  fold_re=True, opaque=lambda f: f.name == "init_plugin",
                                  setup=lambda st: configuration(p, reg, pairs, st, up)):
                    r.check(raised_name(v) == "BadAttributeError", "R2", sub, p09.outcome_text(v), fi.loc,
                            describe(s))
    # a plugin set up becomes the plugin of that name
    qual = REG + ".init_plugin"
    fi = p.func(qual)
    for name in ("aplug", "file"):
        sub = f"set up of {name}"
        with r.guard("R2", sub):
            done = 0
            for s, v in r.run(fi, [reg, C(name)], hooks={}, max_elems=9,
                              setup=lambda st: configuration(p, reg, pairs, st)):
                if isinstance(v, Raised):
                    r.check(v.exc.name in ("BadPluginError", "UsageError"), "R2", sub, f"fails with {v.exc.name}",
                            fi.loc, describe(s))
                    continue
                ref = s.fields.get((reg, "plugins"))
                o = s.heap.get(ref.id) if isinstance(ref, Ref) else None
                if not isinstance(o, DictObj):
                    r.skip("R2", sub, f"the plugins are {short(ref)}")
                    continue
                done += 1
                got = {k.v: x for k, x in o.items if isinstance(k, C)}
                r.check(set(got) == {name} and mentions(got[name], T("sym", f"class.{name}")), "R2", sub,
                        f"the plugins are {[(k, short(x)) for k, x in got.items()]}", fi.loc, describe(s))
            if not done:
                r.skip("R2", sub, "never succeeds")


def last(e):
    return e.name.split(".")[-1].split(":")[-1]


def registration(r):
    p = r.p
    reg = obj(p, REG)
    fi = p.func(REG + ".register_plugin")
    cls = T("sym", "new class")

    def setup(names):
        def do(st):
            st = configuration(p, reg, [], st)
            st, plugs = st.new(DictObj(tuple((C(a), T("sym", f"class.{a}")) for a in names)))
            st, attrs = st.new(ListObj(()))
            return st.setfield(reg, "registered_plugins", plugs).setfield(cls, "attributes", attrs) \
                .setfield(cls, "name", C("aplug"))
        return do
    for names in ((), ("file",), ("aplug",), ("file", "aplug", "zplug")):
        sub = f"register aplug besides {'+'.join(names) or 'nothing'}"
        with r.guard("R2", sub):
            done = 0
            for s, v in r.run(fi, [reg, T("sym", "source"), T("sym", "path"), cls], setup=setup(names), max_elems=9):
                if isinstance(v, Raised):
                    continue
                ref = s.fields.get((reg, "registered_plugins"))
                o = s.heap.get(ref.id) if isinstance(ref, Ref) else None
                if not isinstance(o, DictObj):
                    r.skip("R2", sub, f"the plugins are {short(ref)}")
                    continue
                done += 1
                got = dict(o.items)
                want = {C(a): T("sym", f"class.{a}") for a in names}
                want.setdefault(C("aplug"), cls)
                r.check(got == want, "R2", sub, f"the plugins are {[(short(k), short(x)) for k, x in got.items()]}",
                        fi.loc, describe(s))
            if not done:
                r.skip("R2", sub, "never succeeds")
    sub = "type of a declared attribute"
    with r.guard("R2", sub):
        def setup3(st):
            st = setup(("file",))(st)
            st, attrs = st.new(ListObj((Tup((C("attr"), T("sym", "strange"), C("help"))),)))
            return st.setfield(cls, "attributes", attrs)
        for known in (True, False):
            for s, v in r.run(fi, [reg, T("sym", "source"), T("sym", "path"), cls], setup=setup3,
                              hooks={"builtins.issubclass": lambda ip, s, c, k=known: [(s, C(k))]}):
                if known:
                    r.check(not isinstance(v, Raised), "R2", sub, f"a known type is refused: {p09.outcome_text(v)}",
                            fi.loc, describe(s))
                else:
                    r.check(raised_name(v) == "BadPluginError", "R2", sub,
                            f"an unknown type: {p09.outcome_text(v)}", fi.loc, describe(s))


def types_(r):
    p = r.p
    reg = obj(p, REG)
    pairs = [("file", "attr"), ("file", "alone"), ("aplug", "attr"), ("aplug", "other"), ("zplug", "attr")]
    fi = p.func(REG + ".get_attribute_type")
    for a, up in itertools.product(itertools.product(("file", "aplug", "zplug"), ("attr", "other", "alone", "nope")),
                                   ((), ("file", "aplug", "zplug"))):
        sub = f"type of {'.'.join(a)}, {len(up)} plugins in use"
        with r.guard("R2", sub):
            for s, v in r.run(fi, [reg, attr(p, *a)], setup=lambda st: configuration(p, reg, pairs, st, up),
                              max_elems=9):
                if a in pairs:
                    r.check(v == T("sym", f"type.{a[0]}.{a[1]}"), "R2", sub, p09.outcome_text(v), fi.loc, describe(s))
                else:
                    r.check(raised_name(v) == "BadAttributeError", "R2", sub, p09.outcome_text(v), fi.loc,
                            describe(s))


# ------------------------------------------------------------------ R3
def values_(r):
    p = r.p
    reg = obj(p, REG)
    pairs = [("file", "attr"), ("aplug", "attr"), ("aplug", "other"), ("zplug", "attr")]
    for form in ("get_attribute", "get_attribute_and_type"):
        fi = p.func(f"{REG}.{form}")
        for a in pairs:
            for have in ((), ("attr",), ("other",), ("attr", "other")):
                sub = f"{form} of {'.'.join(a)} with {'+'.join(have) or 'nothing'}"
                if a[0] == "file" and have != ("attr",):
                    continue
                with r.guard("R3", sub):
                    def data(ip, s, c):
                        plug = next((x for x in c.args + list(c.kw.values()) if isinstance(x, C)), None)
                        if plug is None or not any(x == ENTRY for x in c.args + list(c.kw.values())):
                            return [(s, T("sym", "other data"))]
                        s, d = s.new(DictObj(tuple((C(x), T("sym", f"value.{plug.v}.{x}")) for x in have)))
                        return [(s, d)]

                    def own(ip, s, c):
                        if c.recv != ENTRY:
                            return None
                        return [(s, T("value of entry", c.args[-1]))]
                    n = 0
                    for s, v in r.run(fi, [reg, ENTRY, attr(p, *a)], max_elems=9,
                                      hooks={REG + ".get_data": data, ".get_attribute": own,
                                             "libff.entry:Entry.get_attribute": own},
                                      setup=lambda st: configuration(p, reg, pairs, st, PLUGINS)):
                        n += 1
                        if a[0] == "file":
                            value = T("value of entry", C("attr"))
                        elif a[1] in have:
                            value = T("sym", f"value.{a[0]}.{a[1]}")
                        else:
                            r.check(raised_name(v) == "KeyError", "R3", sub, f"a missing value is "
                                    f"{p09.outcome_text(v)}", fi.loc, describe(s))
                            continue
                        want = value if form == "get_attribute" else \
                            Tup((value, T("sym", f"type.{a[0]}.{a[1]}")))
                        if isinstance(v, Tup) and isinstance(want, Tup):
                            ok = v.items == want.items
                        else:
                            ok = v == want
                        r.check(ok, "R3", sub, f"is {p09.outcome_text(v)}, should be {short(want)}", fi.loc,
                                describe(s))
                    if not n:
                        r.skip("R3", sub, "no outcome")
    # the data of a plugin comes from the plugin of that name
    fi = p.func(REG + ".get_data")
    for name in ("aplug", "zplug"):
        sub = f"data of {name}"
        with r.guard("R3", sub):
            seen = []

            def work(ip, s, c):
                seen.append(list(c.args) + list(c.kw.values()))
                return [(s, T("sym", "data"))]
            for s, v in r.run(fi, [reg, ENTRY, C(name)], max_elems=9,
                              hooks={REG + ".get_data_from_plugin": work},
                              setup=lambda st: configuration(p, reg, pairs, st, PLUGINS)):
                if not isinstance(v, Raised):
                    r.check(v == T("sym", "data"), "R3", sub, f"is {short(v)}", fi.loc, describe(s))
            for args in seen:
                r.check(T("sym", f"plugin.{name}") in args and ENTRY in args, "R3", sub + ": source",
                        f"is computed from {[short(x) for x in args]}", fi.loc)
            if not seen:
                r.skip("R3", sub, "no plugin is asked")


# ------------------------------------------------------------------ R4
def resolved(text):
    """The attribute, its type and its value stand for the name they were made from."""
    return T("resolved", text)


def reg_hooks():
    def one(c):
        return c.args[-1] if c.args else next(iter(c.kw.values()))

    def by_entry(c):
        a = c.kw.get("attribute", c.args[-1] if c.args else None)
        e = c.kw.get("entry", c.args[-2] if len(c.args) >= 2 else None)
        return e, a
    return {
        REG + ".setup_attribute": lambda ip, s, c: [
            (s.setfield(resolved(one(c)), "plugin", C("aplug")), resolved(one(c)))],
        REG + ".get_attribute_type": lambda ip, s, c: [(s, T("typeof", one(c)))],
        REG + ".get_attribute": lambda ip, s, c: [(s, T("valueof", *by_entry(c)))],
        REG + ".get_attribute_and_type": lambda ip, s, c: [
            (s, Tup((T("valueof", *by_entry(c)), T("typeof", by_entry(c)[1]))))],
    }


def types_of(v):
    return {x.args[0] for x in walk_terms(v) if isinstance(x, T) and x.op == "typeof"}


def values_of(v):
    return {x.args[1] for x in walk_terms(v) if isinstance(x, T) and x.op == "valueof"}


def fields(r):
    p = r.p
    fi = p.find_method(p.cls("libff.field:Fields"), "make_field")
    for ci in p.subclasses(p.cls("libff.field:Fields")):
        me = obj(p, ci.qual)
        for text, name in (("size", "size"), ("file.size", "file.size"), (" size ", "size"), ("aplug.attr:5", "aplug.attr"),
                           ("attr:h", "attr"), ("attr:-5h", "attr")):
            sub = f"{ci.name} {text!r}"
            with r.guard("R4", sub):
                n = 0
                for s, v in r.run(p.find_method(ci, "make_field"), [me, C(text)], hooks=reg_hooks(), fold_re=True):
                    n += 1
                    if isinstance(v, Raised):
                        r.bad("R4", sub, f"is refused with {v.exc.name}", fi.loc, describe(s))
                        continue
                    if not isinstance(v, Tup) or len(v.items) != 4:
                        r.skip("R4", sub, f"the field is {short(v)}")
                        continue
                    r.check(v.items[0] == resolved(C(name)), "R4", sub, f"the attribute is {short(v.items[0])}",
                            fi.loc, describe(s))
                    r.check(v.items[1] == T("typeof", resolved(C(name))), "R4", sub + ": type",
                            f"the type is {short(v.items[1])}", fi.loc, describe(s))
                if not n:
                    r.skip("R4", sub, "no outcome")


def tests(r):
    p = r.p
    parser = obj(p, "libff.parser:Parser")
    fi = p.func("libff.parser:Parser.parse_test")
    made = {}

    def create(ip, s, c):
        args = c.args[1:] if c.args and c.args[0] == parser else list(c.args)
        for k in ("attribute", "operator", "reference", "value")[len(args):]:
            args.append(c.kw.get(k))
        made.setdefault(ip.text, []).append(tuple(args))
        return [(s, T("sym", "test"))]
    for text, name, ref in (("attr=5", "attr", None), ("aplug.attr+5", "aplug.attr", None),
                            ("attr={}path", "attr", ""), ("attr={other}path", "attr", "other"),
                            ("aplug.attr-{zplug.attr}path", "aplug.attr", "zplug.attr"),
                            ("attr={file.size}path", "attr", "file.size")):
        sub = f"test {text}"
        with r.guard("R4", sub):
            ip = r.interp(hooks=dict(reg_hooks(), **{"libff.parser:Parser.create_test": create}), fold_re=True)
            ip.text = text
            for s, v in r.run(fi, [parser, C(text)], ip=ip):
                if isinstance(v, Raised):
                    r.bad("R4", sub, f"is refused with {v.exc.name}", fi.loc, describe(s))
            for a, op, reference, value in made.get(text, ()):
                r.check(a == resolved(C(name)), "R4", sub, f"the attribute is {short(a)}", fi.loc)
                r.check(reference == C(ref), "R4", sub + ": reference", f"the reference is {short(reference)}",
                        fi.loc)
                want = "5" if ref is None else "path"
                r.check(value == C(want), "R4", sub + ": value", f"the value is {short(value)}", fi.loc)
            if not made.get(text):
                r.skip("R4", sub, "no test is created")
    # create_test: type of the attribute, value of the reference
    fi = p.func("libff.parser:Parser.create_test")
    A, B = resolved(C("attr")), resolved(C("other"))
    value = T("sym", "given value")
    for ref, src in ((None, None), ("", A), ("other", B)):
        sub = {None: "value of a test", "": "reference to itself", "other": "reference to another attribute"}[ref]
        with r.guard("R4", sub):
            n = 0

            def as_reference(ip, s, c):
                return [(s, T("reference", c.args[-1]))]
            for s, v in r.run(fi, [parser, A, T("sym", "op"), C(ref), value],
                              hooks=dict(reg_hooks(), **{"libff.entry:Entry.as_reference": as_reference,
                                                         "libff.parser:Parser.get_common_super_type":
                                                         lambda ip, s, c: [(compared(ip, s, c), T("sym", "super"))]})):
                if isinstance(v, Raised):
                    continue
                test = parts(s, v)
                if test is None:
                    r.skip("R4", sub, f"the test is {short(v)}")
                    continue
                n += 1
                a, op, typ, got, ic = test
                r.check(a == A, "R4", sub + ": attribute", f"the attribute is {short(a)}", fi.loc, describe(s))
                r.check(typ == T("typeof", A), "R4", sub + ": type", f"the type is {short(typ)}", fi.loc, describe(s))
                if ref is None:
                    r.check(not values_of(got) and mentions(got, value, s), "R4", sub,
                            f"the value is {short(got)}", fi.loc, describe(s))
                else:
                    vals = values_of_deep(got, s)
                    r.check(vals == {src}, "R4", sub, f"the value is {short(got)}", fi.loc, describe(s))
                    ents = {x.args[0] for x in deep(got, s) if isinstance(x, T) and x.op == "valueof"}
                    r.check(ents == {T("reference", value)}, "R4", sub + ": file",
                            f"the value is taken from {[short(x) for x in ents]}", fi.loc, describe(s))
                    for e in s.events():
                        if e.name == "comparable?":
                            r.check({t for x in e.args for t in types_of(x)} == {A, src}, "R4", sub + ": comparable",
                                    f"the types {[short(x) for x in e.args]} are compared", fi.loc, describe(s))
                others = {t for e in s.events() for t in types_of(e.recv) if e.name.endswith(".input")}
                r.check(others <= {A}, "R4", sub + ": input", f"the value is read with the type of "
                        f"{[short(x) for x in others]}", fi.loc, describe(s))
            if not n:
                r.skip("R4", sub, "no test is created")


def compared(ip, s, c):
    s2 = ip.event(s, "call", "comparable?", c.recv, list(c.args[-2:]), {}, c.node)
    return s2 or s


def deep(v, s):
    seen, todo, out = set(), [v], []
    while todo:
        x = todo.pop()
        for y in walk_terms(x):
            out.append(y)
            if isinstance(y, Ref) and y.id not in seen:
                seen.add(y.id)
                o = s.heap.get(y.id)
                if isinstance(o, ListObj):
                    todo += list(o.items)
                elif isinstance(o, DictObj):
                    todo += [q for kv in o.items for q in kv]
                elif o is not None and hasattr(o, "fields"):
                    pass
        if isinstance(x, T) and ("val", x) in s.facts:
            todo.append(s.facts[("val", x)])
    return out


def values_of_deep(v, s):
    return {x.args[1] for x in deep(v, s) if isinstance(x, T) and x.op == "valueof"}


def parts(s, v):
    if isinstance(v, Tup) and len(v.items) == 5:
        return v.items
    if isinstance(v, T) and v.op == "new" and len(v.args) >= 7:
        return v.args[2:7]
    return None


def filters(r):
    """Every test of a filter gets the value and the type of its own attribute."""
    p = r.p
    A, B = resolved(C("attr")), resolved(C("other"))
    tc = p.cls("libff.parser:Test")

    def test(a):
        return Tup((a, C("="), T("typeof", a), T("sym", f"want{a.args[0].v}"), C(False)), cls=tc)

    def group(st, qual, xs):
        return st.new(ListObj(tuple(xs), cls=p.cls(qual)))

    def asked(ip, s, c):
        s2 = ip.event(s, "call", "asked", c.recv, list(c.args), dict(c.kw), c.node)
        s = s2 or s
        t = T("outcome", c.recv, *c.args)
        return [(s.fact(("truth", t), True), C(True)), (s.fact(("truth", t), False), C(False))]
    for qual in ("libff.filter:Matcher", "libff.filter:Excluder"):
        fi = p.find_method(p.cls(qual), "test")
        sub = f"{p.cls(qual).name}: tests"
        with r.guard("R4", sub):
            me = obj(p, qual)

            def setup(st):
                st, seq = group(st, "libff.parser:AND", (test(A), test(B)))
                st, top = group(st, "libff.parser:OR", (seq,))
                return st.setfield(me, "parser", top)
            n = 0
            for s, v in r.run(fi, [me, ENTRY], setup=setup, hooks=dict(reg_hooks(), **{".test": asked}), max_loop=6,
                              max_elems=6):
                for e in s.events():
                    if e.name != "asked":
                        continue
                    n += 1
                    x = next((a for a in e.args if isinstance(a, Tup) and a.cls is tc), None)
                    if x is None:
                        continue
                    mine = x.items[0]
                    r.check(types_of(e.recv) == {mine}, "R4", sub + ": type", f"the test of {short(mine)} is done by "
                            f"{short(e.recv)}", fi.loc, describe(s))
                    got = {q for a in e.args if a is not x for q in values_of(a)}
                    r.check(got == {mine}, "R4", sub + ": value", f"the test of {short(mine)} is done with the value "
                            f"of {[short(q) for q in got]}", fi.loc, describe(s))
            if not n:
                r.skip("R4", sub, "no test is done")


RECORDS = ("libff.field:OutputFields.to_dict", "libff.field:SortFields.render", "libff.field:ExecFields.render_field",
           "libff.console:Console.render_field", "libff.console:ColorConsole.render_field")


def records(r):
    """Values are rendered by the type of their attribute."""
    p = r.p
    A, B = resolved(C("attr")), resolved(C("other"))
    fc = p.cls("libff.field:Field")

    def field(a, mod):
        return Tup((a, T("typeof", a), C(None), C(mod)), cls=fc)
    users = {}
    for fi in p.all_funcs():
        for node in own_calls(fi):
            if node in ("get_attribute", "get_attribute_and_type"):
                users.setdefault(fi.qual, fi)
    skip = {"libff.registry", "libff.parser", "libff.filter"}
    done = 0
    for qual, fi in sorted(users.items()):
        if fi.module.name in skip or fi.cls is None:
            continue
        for mod in (None, "h", "n", "v"):
            sub = f"{fi.name} of {fi.cls.name} {mod or ''}"
            with r.guard("R4", sub):
                me = obj(p, fi.cls.qual)
                params = [a.arg for a in fi.node.args.args][1:]
                fs = [field(A, mod), field(B, mod)]
                st = new_state()
                st, both = st.new(ListObj(tuple(fs)))
                if "field" in params:
                    variants = [[f] for f in fs]
                else:
                    variants = [fs]
                for chosen in variants:
                    args = []
                    for name in params:
                        if name == "field":
                            args.append(chosen[0])
                        elif name == "fields":
                            args.append(both)
                        elif name == "entries":
                            st, es = st.new(ListObj((ENTRY,)))
                            args.append(es)
                        elif name == "entry":
                            args.append(ENTRY)
                        else:
                            args.append(T("sym", name))
                    recv = me
                    if p.issub(fi.cls, p.cls("libff.field:Fields")):
                        st, recv = st.new(ListObj(tuple(fs), cls=fi.cls))
                        st = st.setfield(recv, "registry", comp("registry")).setfield(recv, "context", CTX) \
                            .setfield(recv, "args", ARGS)
                    if recv is me:
                        st = st.setfield(me, "args", ARGS)
                    st2 = st.setfield(ARGS, "count", both).setfield(ARGS, "sort", both)
                    n = 0
                    for s, v in r.run(fi, [recv] + args, st=st2, hooks=reg_hooks(), max_loop=4, max_elems=4,
                                      opaque=lambda f: f.name.startswith("prepare")):
                        asked = set()
                        for k in s.facts:
                            asked |= {q for x in k[1:] for q in types_of(x)}
                        for e in s.events():
                            asked |= types_of(e.recv)
                        if not isinstance(v, Raised) and len(chosen) == 2 and asked:
                            n += 1
                            r.check(asked == {A, B}, "R4", sub + ": types", "consults only the type of "
                                    f"{[short(q) for q in asked]}", fi.loc, describe(s))
                        if len(chosen) == 1:
                            n += 1
                            r.check(asked <= {chosen[0].items[0]}, "R4", sub + ": type", "consults the type of "
                                    f"{[short(q) for q in asked]}", fi.loc, describe(s))
                        for e in s.events():
                            ts = types_of(e.recv)
                            if not ts:
                                continue
                            got = {q for a in list(e.args) + list(e.kw.values()) for q in values_of(a)}
                            if got:
                                n += 1
                                r.check(got == ts, "R4", sub, f"the value of {[short(q) for q in got]} is rendered by the "
                                        f"type of {[short(q) for q in ts]}", fi.loc, describe(s))
                        for k, x in pairs_of(s, v):
                            vs, ks = values_of(x), {q for q in walk_terms(k) if q in (A, B)}
                            if vs and ks:
                                n += 1
                                r.check(vs == ks, "R4", sub + ": key", f"the value of {[short(q) for q in vs]} is stored "
                                        f"as {[short(q) for q in ks]}", fi.loc, describe(s))
                        if len(chosen) == 1 and not isinstance(v, Raised):
                            got = values_of(v)
                            if got:
                                n += 1
                                r.check(got == {chosen[0].items[0]}, "R4", sub + ": result", "is the value of "
                                        f"{[short(q) for q in got]}", fi.loc, describe(s))
                        if isinstance(v, (Tup, Ref)) and len(chosen) == 2:
                            xs = items(s, v)
                            if xs is not None and len(xs) == 2 and not pairs_of(s, v):
                                order = [values_of(x) | {q for q in types_of(x)} for x in xs]
                                for want, g in zip((A, B), order):
                                    if g:
                                        n += 1
                                        r.check(g == {want}, "R4", sub + ": order", f"the value of "
                                                f"{[short(q) for q in g]} stands for {short(want)}", fi.loc, describe(s))
                    done += n
    if not done:
        r.skip("R4", "records", "no function that renders values")


def own_calls(fi):
    return {n.func.attr for n in ast.walk(fi.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}


def pairs_of(s, v):
    o = s.heap.get(v.id) if isinstance(v, Ref) else None
    return o.items if isinstance(o, DictObj) else ()


# ------------------------------------------------------------------ R5
def table(r):
    p = r.p
    reg = obj(p, REG)
    fi = p.func(REG + ".load_plugins")
    decl = {"file": ("path", "attr"), "aplug": ("attr", "other"), "zplug": ()}
    for order in itertools.permutations(decl):
        sub = f"plugins loaded as {'+'.join(order)}"
        with r.guard("R5", sub):
            def setup(st):
                st, attrs = st.new(DictObj(()))
                st, plugs = st.new(DictObj(tuple((C(x), T("sym", f"class.{x}")) for x in order)))
                for x in decl:
                    st, lst = st.new(ListObj(tuple(Tup((C(a), T("sym", f"type.{x}.{a}"), C("help"))) for a in decl[x])))
                    st = st.setfield(T("sym", f"class.{x}"), "attributes", lst).setfield(
                        T("sym", f"class.{x}"), "name", C(x))
                return st.setfield(reg, "attributes", attrs).setfield(reg, "registered_plugins", plugs)
            n = 0
            for s, v in r.run(fi, [reg], setup=setup, max_loop=6, max_elems=8,
                              hooks=dict(attribute_hook(p), **{
                                  REG + ".iter_plugin_dirs": lambda ip, s, c: one_list(s),
                                  "builtins.sorted": lambda ip, s, c: [(s, c.args[0])]})):
                if isinstance(v, Raised):
                    continue
                ref = s.fields.get((reg, "attributes"))
                o = s.heap.get(ref.id) if isinstance(ref, Ref) else None
                if not isinstance(o, DictObj) or any(pair(k) is None for k, _ in o.items):
                    r.skip("R5", sub, f"the table is {short(ref)}")
                    continue
                n += 1
                got = {pair(k): x for k, x in o.items}
                want = {(x, a): T("sym", f"type.{x}.{a}") for x in decl for a in decl[x]}
                r.check(got == want, "R5", sub, f"the table is {[(k, short(x)) for k, x in got.items()]}", fi.loc,
                        describe(s))
            if not n:
                r.skip("R5", sub, "no table")
    fi = p.func(REG + ".get_file_attributes")
    for pairs in ([("file", "a"), ("aplug", "a"), ("file", "b")], [("aplug", "a"), ("profile", "b"), ("file", "c")]):
        sub = f"file attributes of {pairs}"
        with r.guard("R5", sub):
            for s, v in r.run(fi, [reg], setup=lambda st: configuration(p, reg, pairs, st), max_loop=6, max_elems=8):
                xs = items(s, v)
                if xs is None or not all(isinstance(x, C) for x in xs):
                    r.skip("R5", sub, f"is {short(v)}")
                    continue
                want = sorted(b for a, b in pairs if a == "file")
                r.check(sorted(x.v for x in xs) == want, "R5", sub, f"are {[x.v for x in xs]}", fi.loc, describe(s))


def one_list(s):
    s, x = s.new(ListObj(()))
    return [(s, x)]


# ------------------------------------------------------------------ R6
def patterns(r):
    p = r.p
    names_ = sorted({(pl, a) for pl, a in declared_names(p)})
    if len(names_) < 20:
        r.skip("R6", "names", f"only {len(names_)} attributes are found")
    # plugins of users
    names_ += [("my_plugin", "md5"), ("plugin2", "long_name_2"), ("Plugin", "ID3"), ("a1b", "x86_64")]
    for what, ci, name, forms in (
            ("field", "libff.field:Fields", "regex",
             (("{}", None, None), ("{}:5", "5", None), ("{}:-10h", "-10", "h"), ("{}:h", None, "h"), ("{}:n", None, "n"),
              ("{}:x", None, "x"), ("{}:v", None, "v"), ("{}:o", None, "o"))),):
        with r.guard("R6", what):
            rx = pattern(p, ci, name)
            if rx is None:
                r.skip("R6", what, "the pattern is not constant")
                continue
            for pl, a in names_:
                for full in (a, f"{pl}.{a}"):
                    bad = []
                    for form, width, mod in forms:
                        m = rx.match(form.format(full))
                        if m is None or m.groups()[:3] != (full, width, mod):
                            bad.append(form.format(full))
                    r.check(not bad, "R6", f"{what} {full}", f"{bad[:3]} cannot be written", f"{ci}.{name}")
    with r.guard("R6", "test"):
        ci, name = "libff.parser:Parser", "expression_regex"
        rx = pattern(p, ci, name)
        if rx is None:
            r.skip("R6", "test", "the pattern is not constant")
            return
        for pl, a in names_:
            for full in (a, f"{pl}.{a}"):
                bad = []
                for op in ("=", ":", "~", "%", ">=", ">", "<=", "<", "+=", "+", "-=", "-"):
                    for ref in (None, "{}", "{" + full + "}"):
                        m = rx.match(full + op + (ref or "") + "x/y z")
                        if m is None or m.groups()[:4] != (full, op, ref, "x/y z"):
                            bad.append(full + op + (ref or ""))
                r.check(not bad, "R6", f"test {full}", f"{bad[:3]} cannot be written", f"{ci}.{name}")


def pattern(p, qual, name):
    """The compiled pattern of a class attribute."""
    a = p.find_attr(p.cls(qual), name)
    node = a[1] if a else None
    if isinstance(node, ast.Call) and dotted(p, a[0].module, node.func) == "re.compile" and len(node.args) == 1:
        text = p09.const_str(p, a[0].module, None, node.args[0])
        return re.compile(text) if isinstance(text, str) else None
    return None


def declared_names(p):
    for ci in plugins(p):
        name = plugin_name(p, ci)
        for a in declared(p, ci) or ():
            yield name, a[0] if isinstance(a, tuple) else a


def plugin_name(p, ci):
    for n in ci.node.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "name" for t in n.targets) and \
                isinstance(n.value, ast.Constant):
            return n.value.value
    return ci.name.lower()
