"""P09: user errors end in a message and the documented exit status."""
import ast
import re
import warnings

from ..excflow import Flow
from ..inventory import dotted
from ..lib import *
from ..project import ClassInfo
from ..report import new_state
from ..values import C, DictObj, Exc, Fn, ListObj, Raised, Ref, T, Tup
from . import p06

EXPLANATION = (
    "Interprocedural exception-flow analysis from the command line entry point: explicit raises, a "
    "may-raise model of the library (number conversion, pattern compilation, file system, database, "
    "shell splitting, processes), handlers and the resolved call graph; nothing but SystemExit may "
    "leave Main.__init__. On top of it the option table is built by abstract interpretation and every "
    "option string is interpreted without argument, with an arbitrary argument and attached; every "
    "operator of every type, attribute lookups, attribute lists and conflicting options are "
    "interpreted with symbolic text and their outcomes compared with the allowed ones. Constant "
    "patterns that validate user text are parsed and must be anchored at their end.")

ARGPARSE = "libff.argparse"
PARSER = {ARGPARSE + ":ArgumentParser", ARGPARSE + ":Option", ARGPARSE + ":Namespace"}
WITH_ARG = ("store", "store_optional", "append", "store_remainder")
OPS = ("=", ":", "~", "%", "+", "-", "+=", "-=")


def run(r):
    r.rule("R1", "no exception but SystemExit leaves the construction of Main, i.e. the handling of "
                 "options, tests, attributes, directories and the cache")
    r.rule("R2", "every error class ends ff with its documented status and a message")
    r.rule("R3", "every option string parses or ends in a usage error; an argument outside the "
                 "choices of its option, a missing or a superfluous one is refused")
    r.rule("R4", "a test is built only for an operator the type supports and an allowed value; what "
                 "cannot be converted or compiled is a usage or expression error")
    r.rule("R5", "unknown plugins and attributes are attribute errors")
    r.rule("R6", "malformed tests, attribute lists and command templates are refused")
    r.rule("R7", "conflicting options are refused, others are not")
    r.rule("R8", "a constant pattern that decides the validity of user text covers all of the text")
    r.floor = 150
    flow(r)
    statuses(r)
    options(r)
    tests(r)
    attributes(r)
    malformed(r)
    conflicts(r)
    anchors(r)


# ------------------------------------------------------------------ R1
def flow(r):
    p = r.p
    with r.guard("R1", "Main.__init__"):
        ip = r.interp()
        fl = Flow(p, ip)
        fi = p.func("libff.main:Main.__init__")
        items = fl.escapes(fi, fi.cls)
        for f, c in fl.sets:
            r.funcs.add(f.qual)
        leak = {}
        for i in items:
            if ip.issub_exc(i.exc, "SystemExit") or i.name == "SystemExit":
                continue
            chain_ = fl.path(fi, fi.cls, i)
            leak.setdefault((i.name, chain_[-1].split()[-1]), (i, chain_))
        for (name, q), (i, chain_) in sorted(leak.items()):
            r.bad("R1", f"{name} from {q}", f"{i.text} may fail with {name}, which leaves "
                  "Main.__init__ as an unhandled exception", i.site, chain_)
        for f, c in sorted(fl.sets, key=lambda k: (k[0].qual, k[1].qual if k[1] else "")):
            if fl.sets[(f, c)]:
                r.ok("R1", f.qual + (f" of {c.name}" if c and c != f.cls else ""))


# ------------------------------------------------------------------ R2
def statuses(r):
    p = r.p
    for name, want in (("NoResultError", 1), ("UsageError", 2), ("SubprocessError", 3),
                       ("ProcessError", 4), ("BadPluginError", 10), ("BadAttributeError", 11),
                       ("ExpressionError", 12)):
        p06.status_of(r, "R2", name, want)
        sub = f"{name} while setting up"
        with r.guard("R2", sub):
            ci = p.cls("libff.exceptions:" + name)

            def boom(ip, s, c, ci=ci):
                return [(s, Raised(Exc(ci, (T("sym", "message"),), c.node)))]
            hooks = {"libff.main:_Base.setup": boom,
                     "libff.arguments:parse_arguments": lambda ip, s, c: [
                         (s, Tup((ARGS, C(None), C(None))))]}
            for s, v in r.run("libff.main:Main.__init__", [obj(p, "libff.main:Main")], hooks=hooks):
                code = v.exc.args[0] if isinstance(v, Raised) and v.exc.args else None
                r.check(raised_name(v) == "SystemExit" and code == C(want), "R2", sub,
                        f"ends with {raised_name(v) or 'no error'} {code!r}, documented is {want}",
                        "libff.main:Main.__init__", describe(s))
                if name != "NoResultError":
                    shown = [e for e in calls(s, "print", "write") if any(
                        mentions(a, T("sym", "message"), s) for a in e.args)]
                    if not shown and not [e for e in calls(s, "print", "write")]:
                        r.bad("R2", sub, "no message is shown", "libff.main:Main.handle_exception",
                              describe(s))
    # errors found while processing the options
    sub = "usage error in the options"
    with r.guard("R2", sub):
        ci = p.cls("libff.exceptions:UsageError")

        def boom2(ip, s, c):
            return [(s, Raised(Exc(ci, (C("message"),), c.node)))]
        hooks = {"libff.arguments:create_parser": lambda ip, s, c: [(s, T("sym", "parser"))],
                 "libff.arguments:collect_arguments": lambda ip, s, c: [(s, T("sym", "argv"))],
                 ".parse_args": lambda ip, s, c: [(s, ARGS)],
                 "libff.arguments:ArgumentsPostProcessor.process": boom2,
                 "libff.main:_Base.setup_components": lambda ip, s, c: [
                     (s.fact(("components",), True), C(None))],
                 "libff.main:_Base.show_debug_info": lambda ip, s, c: [(s, C(None))],
                 "libff.main:Main.setup_processing": lambda ip, s, c: [(s, C(None))],
                 "libff.context:Context.setup": lambda ip, s, c: [(s, C(None))],
                 "libff.main:_Base.setup_walker": lambda ip, s, c: [(s, C(None))]}
        st = new_state().setfield(ARGS, "help", C(None))
        for s, v in r.run("libff.main:Main.__init__", [obj(p, "libff.main:Main")], hooks=hooks,
                          st=st):
            code = v.exc.args[0] if isinstance(v, Raised) and v.exc.args else None
            r.check(raised_name(v) == "SystemExit" and code == C(2) and ("components",) not in s.facts,
                    "R2", sub, f"ends with {raised_name(v) or 'no error'} {code!r}",
                    "libff.main:_Base.setup_context", describe(s))


# ------------------------------------------------------------------ the option table
def build_parser(r, **kw):
    """Interpret create_parser: (interpreter, [(state, parser)])."""
    ip = r.interp(inst=PARSER, max_loop=12, fold_re=True, depth=20, **kw)
    out = []
    for s, v in r.run("libff.arguments:create_parser", [], ip=ip):
        if isinstance(v, Ref):
            out.append((s, v))
    return ip, out


def option_list(r, st, parser):
    """[dict of the fields of each Option]."""
    opts = items(st, st.fields.get((parser, "options")))
    if opts is None:
        return []
    out = []
    for o in opts:
        d = {k[1]: v for k, v in st.fields.items() if k[0] == o}
        strings = items(st, d.get("strings"))
        if strings is None or not all(isinstance(x, C) for x in strings):
            r.skip("R3", "option table", "option strings of an unknown form")
            continue
        d["names"] = [x.v for x in strings]
        d["ref"] = o
        out.append(d)
    return out


def parse(r, ip, st, parser, tokens):
    """Interpret parse_args on a list of tokens (constants, or terms that are no options)."""
    for t in tokens:
        if isinstance(t, T):
            st = st.fact(("truth", T("pure", ".startswith", t, C("-"))), False)
    ip.steps = 0
    st, argv = st.new(ListObj(tuple(C(t) if isinstance(t, str) else t for t in tokens)))
    fi = r.p.func(ARGPARSE + ":ArgumentParser.parse_args")
    out = ip.call_func(fi, [parser, argv], {}, st, None)
    r.account(ip, len(out))
    return out


def namespace(st, v):
    """The options of an interpreted Namespace, or None."""
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), DictObj):
        return {k.v: x for k, x in st.heap[v.id].items if isinstance(k, C)}
    return None


def refused(v):
    return raised_name(v) == "SystemExit" and v.exc.args and v.exc.args[0] == C(2)


def outcome_text(v):
    if isinstance(v, Raised):
        return f"{v.exc.name} {', '.join(short(a, 40) for a in v.exc.args)}"
    return "is accepted"


def options(r):
    where_ = ARGPARSE + ":ArgumentParser.parse_args"
    with r.guard("R3", "option table"):
        ip, res = build_parser(r)
        if not res:
            r.skip("R3", "option table", "create_parser has no normal outcome")
            return
        st, parser = res[-1]
        opts = option_list(r, st, parser)
        if not opts:
            r.skip("R3", "option table", "no options found")
    seen = 0
    val_ = T("sym", "argument")

    def expect(sub, tokens, ok):
        """ok: 'refused', 'accepted' or 'either'"""
        nonlocal seen
        with r.guard("R3", sub):
            for s, v in parse(r, ip, st, parser, tokens):
                if isinstance(v, T) and v.op == "cut":
                    continue
                seen += 1
                if isinstance(v, Raised) and not refused(v):
                    r.bad("R3", sub, f"ends with {outcome_text(v)}", where_, describe(s))
                elif ok == "refused":
                    r.check(isinstance(v, Raised), "R3", sub, "is accepted", where_, describe(s))
                elif ok == "accepted":
                    r.check(not isinstance(v, Raised), "R3", sub, "is refused", where_, describe(s))
                else:
                    r.ok("R3", sub)
                if not isinstance(v, Raised):
                    yield s, v
    for o in opts:
        action = o.get("action")
        action = action.v if isinstance(action, C) else None
        if action is None or action == "arguments":
            continue
        choices = items(st, o.get("choices")) if isinstance(o.get("choices"), (Ref, Tup)) else None
        for name in o["names"]:
            takes = action in WITH_ARG
            need = takes and action != "store_optional"
            for _ in expect(f"{name} alone", [name], "refused" if need else "accepted"):
                pass
            if takes:
                for s, v in expect(f"{name} with an argument",
                                   [name, C("word") if action == "store_remainder" else val_],
                                   "either"):
                    if choices is None:
                        continue
                    ns = namespace(s, v)
                    if ns is None or not isinstance(o.get("dest"), C):
                        r.skip("R3", f"choices of {name}", "namespace of an unknown form")
                        continue
                    got = ns.get(o["dest"].v)
                    good = val(s, got) in choices or \
                        any(k[0] == "in" and f and k[1] == got for k, f in s.facts.items()) or \
                        any(k[0] == "eq" and f and got in k[1:] and set(k[1:]) & set(choices)
                            for k, f in s.facts.items())
                    r.check(good, "R3", f"choices of {name}", "an argument that is not among the "
                            "choices is accepted", where_, describe(s))
                if choices is not None:
                    for _ in expect(f"{name} with a wrong choice", [name, "\x01nochoice"], "refused"):
                        pass
            if name.startswith("--") and not takes:
                for _ in expect(f"{name}=value", [name + "=x"], "refused"):
                    pass
            elif not name.startswith("--") and not takes and name != "-1":
                for _ in expect(f"{name} bundled with an unknown option", [name + "\x01"], "refused"):
                    pass
    for o in opts:
        for name in o["names"]:
            if name.startswith("--") and not any(name[:-1] in q["names"] for q in opts):
                for _ in expect(f"abbreviation {name[:-1]}", [name[:-1]], "refused"):
                    pass
    for tok in ("--no-such-option", "-\x01", "--no-such-option=1", "-\x01\x02"):
        for _ in expect(f"unknown option {tok!a}", [tok], "refused"):
            pass
    for bad in (["x", "-H", "y"],):
        for _ in expect("tests on both sides of an option", bad, "refused"):
            pass
    # malformed arguments of the converters
    for opt, texts in (("--depth", ("x", "1-2x", "1--2", "", "0,x", "x,0", "1,2-x,3", "0,,1")), ("--limit", ("x", "1", "1,", "1:2:3", "")),
                       ("--jobs", ("x", "-1", "1.5", ""))):
        if not any(opt in o["names"] for o in opts):
            continue
        for text in texts:
            # an empty depth range is no range, too
            for _ in expect(f"{opt}={text}", [f"{opt}={text}"], "refused"):
                pass
    if not seen:
        r.skip("R3", "option table", "nothing interpreted")


# ------------------------------------------------------------------ R4
def tests(r):
    p = r.p
    base = p.cls("libff.type:Type")
    where_ = "libff.parser:Parser.create_test"
    known = [p.cls("libff.exceptions:ExpressionError"), p.cls("libff.exceptions:UsageError")]
    for ci in sorted(p.subclasses(base), key=lambda c: c.qual):
        if ci == base:
            continue
        for op in OPS:
            sub = f"{ci.name} {op}"
            with r.guard("R4", sub):
                hooks = {"libff.registry:Registry.get_attribute_type":
                         lambda ip, s, c, ci=ci: [(s, Fn("class", ci))],
                         # the notation of modes is covered by R1 and P26
                         "libff.type:Mode.parse_mode": lambda ip, s, c: [
                             (s, T("sym", "bits")), (s, Raised(Exc("ValueError", (), c.node)))]}
                sup = class_set(r, ci, "operators")
                ip = r.interp(hooks=hooks, opaque=lambda f: f.cls is not None and
                              f.cls.name == "Glob" and f.name == "__init__")
                n = 0
                for s, v in r.run(where_, [obj(p, "libff.parser:Parser"), T("sym", "attribute"), C(op),
                                           C(None), T("sym", "text")], ip=ip):
                    n += 1
                    if isinstance(v, Raised):
                        good = any(v.exc.name == k.name for k in known)
                        r.check(good, "R4", sub, f"a text leads to {v.exc.name}", where_, describe(s))
                        continue
                    if sup is not None:
                        r.check(op in sup, "R4", sub, f"the operator {op} is accepted although "
                                f"{ci.name} does not support it", where_, describe(s))
                if not n:
                    r.skip("R4", sub, "no outcome")
        # a value outside of the choices
        with r.guard("R4", f"choices of {ci.name}"):
            choices = class_set(r, ci, "choices")
            if choices:
                hooks = {"libff.registry:Registry.get_attribute_type":
                         lambda ip, s, c, ci=ci: [(s, Fn("class", ci))]}
                for s, v in r.run(where_, [obj(p, "libff.parser:Parser"), T("sym", "attribute"), C("="),
                                           C(None), C("\x01nochoice")], hooks=hooks):
                    r.check(isinstance(v, Raised), "R4", f"choices of {ci.name}",
                            "a value outside of the choices is accepted", where_, describe(s))
    # patterns that do not compile
    for ci in sorted(p.subclasses(p.cls("libff.type:Type")), key=lambda c: c.qual):
        for op in ("~", "%"):
            sub = f"broken pattern: {ci.name} {op}"
            with r.guard("R4", sub):
                sup = class_set(r, ci, "operators")
                strs = r.interp().getattr_(Fn("class", ci), "string_type", new_state())
                if not sup or op not in sup or strs[0][1] != C(True):
                    continue
                hooks = {"libff.registry:Registry.get_attribute_type":
                         lambda ip, s, c, ci=ci: [(s, Fn("class", ci))],
                         "re.compile": lambda ip, s, c: [(s, Raised(Exc("re.error", (), c.node)))]}
                # the translation of a glob text is opaque, what is done with its result is not
                ip = r.interp(hooks=hooks, inst={"libff.ignore:Glob"}, opaque=lambda f: any(
                    isinstance(n, (ast.For, ast.While)) for n in ast.walk(f.node)) and
                    f.module.name == "libff.ignore")
                for s, v in r.run(where_, [obj(p, "libff.parser:Parser"), T("sym", "attribute"), C(op),
                                           C(None), T("sym", "text")], ip=ip):
                    if isinstance(v, T) and v.op == "cut":
                        continue
                    r.check(raised_name(v) in ("ExpressionError", "UsageError"), "R4", sub,
                            f"a pattern that does not compile {outcome_text(v)} when the test is built "
                            "and fails in the worker processes", where_, describe(s))
    # conversion failing in an unforeseen way
    with r.guard("R4", "failing conversion"):
        ci = p.cls("libff.type:Number")
        for err in ("ValueError", "KeyError", "TypeError", "OverflowError", "OSError",
                    "AttributeError", "IndexError"):
            hooks = {"libff.registry:Registry.get_attribute_type":
                     lambda ip, s, c: [(s, Fn("class", ci))],
                     "libff.parser:Parser.get_reference_value":
                     lambda ip, s, c, err=err: [(s, Raised(Exc(err, (), c.node)))]}
            for s, v in r.run(where_, [obj(p, "libff.parser:Parser"), T("sym", "attribute"), C("="),
                                       C("size"), T("sym", "text")], hooks=hooks):
                r.check(raised_name(v) in ("ExpressionError", "UsageError"), "R4",
                        f"reference failing with {err}", f"leads to {outcome_text(v)}", where_,
                        describe(s))
    # a reference that does not yield a text for a text attribute
    with r.guard("R4", "reference to a list attribute"):
        ci = p.cls("libff.type:ListOfStrings")
        hooks = {"libff.registry:Registry.get_attribute_type": lambda ip, s, c: [(s, Fn("class", ci))],
                 "libff.parser:Parser.get_reference_value": lambda ip, s, c: list_value(s)}
        for op in ("=", ":", "~", "%"):
            for s, v in r.run(where_, [obj(p, "libff.parser:Parser"), T("sym", "attribute"), C(op),
                                       C("lines"), T("sym", "text")], hooks=hooks):
                r.check(raised_name(v) in ("ExpressionError", "UsageError"), "R4",
                        f"reference to a list attribute with {op}", f"leads to {outcome_text(v)}",
                        where_, describe(s))


def list_value(s):
    s, v = s.new(ListObj((T("sym", "line"),)))
    return [(s, v)]


def class_set(r, ci, name):
    """The constant strings of a class attribute."""
    ip = r.interp()
    out = ip.getattr_(Fn("class", ci), name, new_state())
    got = None
    for s, v in out:
        xs = items(s, v)
        if xs is None and isinstance(v, C) and isinstance(v.v, (tuple, frozenset)):
            xs = tuple(C(x) for x in v.v)
        if xs is None or not all(isinstance(x, C) for x in xs):
            return None
        got = {x.v for x in xs}
    return got


# ------------------------------------------------------------------ R5
def attributes(r):
    p = r.p
    where_ = "libff.registry:Registry.setup_attribute"
    reg = obj(p, "libff.registry:Registry")
    allowed = {"BadAttributeError", "BadPluginError", "UsageError"}
    A_ = {"libff.attribute:Attribute": lambda ip, s, c: [
        (s, Tup(tuple(c.args[:2]), cls=p.cls("libff.attribute:_Attribute")))]}
    for text, name in ((C("noplugin.size"), "an unknown plugin"), (C("noattribute"), "an unknown name")):
        with r.guard("R5", name):
            # the registries hold some other plugins and attributes
            A = p.cls("libff.attribute:_Attribute")

            def setup(st, reg=reg):
                st, plug = st.new(DictObj(((C("file"), T("sym", "FilePlugin")),)))
                st, attrs = st.new(DictObj(((Tup((C("file"), C("size")), cls=A), T("sym", "Size")),)))
                st, pl = st.new(DictObj(()))
                return st.setfield(reg, "registered_plugins", plug).setfield(
                    reg, "attributes", attrs).setfield(reg, "plugins", pl)
            for s, v in r.run(where_, [reg, text], setup=setup, hooks=A_):
                r.check(raised_name(v) == "BadAttributeError", "R5", name,
                        f"{outcome_text(v)} instead of an attribute error", where_, describe(s))
    with r.guard("R5", "type of an unknown attribute"):
        A = p.cls("libff.attribute:_Attribute")

        def setup2(st):
            st, attrs = st.new(DictObj(((Tup((C("file"), C("size")), cls=A), T("sym", "Size")),)))
            return st.setfield(reg, "attributes", attrs)
        for s, v in r.run("libff.registry:Registry.get_attribute_type",
                          [reg, Tup((C("file"), C("noattribute")), cls=A)], setup=setup2):
            r.check(raised_name(v) == "BadAttributeError", "R5", "type of an unknown attribute",
                    f"{outcome_text(v)} instead of an attribute error",
                    "libff.registry:Registry.get_attribute_type", describe(s))
    with r.guard("R5", "any name"):
        for s, v in r.run(where_, [reg, T("sym", "name")]):
            if isinstance(v, Raised):
                r.check(v.exc.name in allowed, "R5", f"any name: {v.exc.name}",
                        f"a name leads to {v.exc.name}", where_, describe(s))
            else:
                r.ok("R5", "any name")


# ------------------------------------------------------------------ R6
def malformed(r):
    p = r.p
    E = {"libff.registry:Registry.setup_attribute": lambda ip, s, c: [(s, T("sym", "attribute"))],
         "libff.registry:Registry.get_attribute_type": lambda ip, s, c: [(s, T("sym", "type"))]}
    usage = ("UsageError", "ExpressionError")

    def refuse(sub, qual, args, setup=None, **kw):
        with r.guard("R6", sub):
            n = 0
            for s, v in r.run(qual, args, setup=setup, hooks=dict(E, **kw.pop("hooks", {})),
                              fold_re=True, **kw):
                n += 1
                r.check(raised_name(v) in usage, "R6", sub, outcome_text(v), qual, describe(s))
            if not n:
                r.skip("R6", sub, "no outcome")
    parser = obj(p, "libff.parser:Parser")
    T_ = {"libff.parser:Parser.create_test": lambda ip, s, c: [(s, T("sym", "test"))]}
    for text in ("", "size", "=3", "size=", "size!3", "/tmp", "size 3", "a.b.c=3"):
        refuse(f"test {text!r}", "libff.parser:Parser.parse_test", [parser, C(text)], hooks=T_)
    out = obj(p, "libff.field:OutputFields")
    for text in ("", "!", "size:", "size:zz", "size:99999999999999999999", "a.b.c", "size path", ":5",
                 "size:5hh", "size\nx",
                 "size:" + "9" * 5000):
        if text == "size:":
            continue             # an empty width and modifier are allowed by the grammar
        refuse(f"attribute {text[:30]!r}", "libff.field:Fields.make_field", [out, C(text)])
    for text in ("size:5h", "file.size", "size", "path:-20"):
        sub = f"attribute {text!r}"
        with r.guard("R6", sub):
            for s, v in r.run("libff.field:Fields.make_field", [out, C(text)], hooks=E, fold_re=True):
                if raised_name(v) == "BadAttributeError":
                    continue
                r.check(not isinstance(v, Raised), "R6", sub, f"{outcome_text(v)}",
                        "libff.field:Fields.make_field", describe(s))
    # an attribute that cannot be counted
    with r.guard("R6", "--count of an attribute that cannot be counted"):
        def field(count):
            def hook(ip, s, c):
                ty = T("sym", "type")
                if c.args[-1] == T("sym", "countable"):
                    ty = T("sym", "countable type")
                    s = s.setfield(ty, "count", enum_value(r, cls, "COUNT")[0][1])
                    return [(s, Tup((T("sym", "other attribute"), ty, C(None), C(None)),
                                    cls=p.cls("libff.field:Field")))]
                s = s.setfield(ty, "count", count)
                return [(s, Tup((T("sym", "attribute"), ty, C(None), C(None)),
                                cls=p.cls("libff.field:Field")))]
            return hook
        cls = p.cls("libff.type:Count")
        for s, v in enum_value(r, cls, "UNCOUNTABLE"):
            cf = obj(p, "libff.field:CountFields")
            ip = r.interp(hooks={"libff.field:Fields.make_field": field(v)}, inst={cf.args[0].qual})
            for names in (("name",), ("countable", "name"), ("name", "countable")):
                st, lst = new_state().new(ListObj([T("sym", n) for n in names]))
                for s2, v2 in ip.call_value(Fn("class", cf.args[0]), [CTX, lst], {}, st, None):
                    r.check(raised_name(v2) in usage, "R6", "--count of an attribute that cannot be counted",
                            outcome_text(v2), "libff.field:CountFields.store", describe(s2))
            r.account(ip, 1)
    # -X with a placeholder in the name of the command
    with r.guard("R6", "-X with a placeholder as the command"):
        cf = p.cls("libff.field:ExecBatchFields")
        ip = r.interp(inst={cf.qual}, hooks=E, fold_re=True)
        for cmd, bad in ((("{}", "x"), True), (("a{/}", "x"), True), (("echo", "{}"), False),
                         (("echo",), False), (("{nosuch!}", "x"), True), (("echo", "{a!}"), True)):
            st, lst = new_state().new(ListObj(tuple(C(x) for x in cmd)))
            sub = f"-X {' '.join(cmd)}"
            for s2, v2 in ip.call_value(Fn("class", cf), [CTX, lst], {}, st, None):
                if bad:
                    r.check(raised_name(v2) in usage, "R6", sub, outcome_text(v2),
                            "libff.field:ExecBatchFields.store", describe(s2))
                else:
                    r.check(not isinstance(v2, Raised), "R6", sub, outcome_text(v2),
                            "libff.field:ExecBatchFields.store", describe(s2))
            r.account(ip, 1)


def enum_value(r, cls, name):
    return [(None, C(("enum", cls.qual, name)))]


# ------------------------------------------------------------------ R7
def conflicts(r):
    p = r.p
    fi = p.func("libff.arguments:ArgumentsPostProcessor.check_for_errors")
    words = Tup((C("cmd"),))
    for count in (None, "c"):
        for ex in (None, "x"):
            for batch in (None, "X"):
                for limit in (None, 0, 1):
                    for profile in (False, True):
                        bad = bool((profile or count) and (ex or batch) or
                                   count and limit is not None)
                        sub = f"count={count} exec={ex} exec-batch={batch} limit={limit} profile={profile}"
                        with r.guard("R7", sub):
                            st = new_state()
                            for k, v in (("count", count), ("exec", ex), ("exec_batch", batch)):
                                st = st.setfield(ARGS, k, Tup((C("w"),)) if v else C(None))
                            st = st.setfield(ARGS, "limit", C(None) if limit is None else
                                             Tup((C(0), C(limit))))
                            st = st.setfield(ARGS, "profile", C(profile))
                            pp = obj(p, "libff.arguments:ArgumentsPostProcessor")
                            st = st.setfield(pp, "args", ARGS)
                            for s, v in r.run(fi, [pp], st=st, debug=True):
                                if bad:
                                    r.check(raised_name(v) == "UsageError", "R7", sub, "the conflict "
                                            f"is not refused: {outcome_text(v)}", fi.loc, describe(s))
                                else:
                                    r.check(not isinstance(v, Raised), "R7", sub,
                                            f"is refused: {outcome_text(v)}", fi.loc, describe(s))


# ------------------------------------------------------------------ R8
def anchors(r):
    """Constant patterns whose failing match() leads to an error."""
    p = r.p
    found = 0
    for fi in p.all_funcs():
        if fi.module.name.startswith("plugins"):
            continue
        for n in ast.walk(fi.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
                    n.func.attr in ("match", "fullmatch", "search")):
                continue
            pat, flags = pattern_of(p, fi, n)
            if pat is None or not validates(p, fi, n):
                continue
            found += 1
            sub = f"{fi.qual}: {pat[:40]}"
            if n.func.attr == "fullmatch":
                r.ok("R8", sub)
                continue
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = re._parser.parse(pat, flags)
            except re.error as exc:
                r.bad("R8", sub, f"the pattern does not compile: {exc}", fi.loc)
                continue
            r.check(ends(tree), "R8", sub, "the pattern is not anchored at its end: a valid prefix "
                    "followed by anything is accepted", f"{fi.module.rel}:{n.lineno}")
    if not found:
        r.skip("R8", "patterns", "no validating pattern found")


def pattern_of(p, fi, call):
    """The constant pattern text of the receiver of a match call."""
    f = call.func.value
    m = fi.module
    node = None
    if isinstance(f, ast.Name):
        if f.id == "re":
            node = call.args[0] if call.args else None
            return const_str(p, m, fi, node), 0
        g = p.resolve_global(m, f.id)
        if g and g[0] == "var":
            vals = g[1].assigns.get(g[2], ())
            if len(vals) == 1:
                node, m = vals[0], g[1]
    elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") \
            and fi.cls is not None:
        for c in p.mro(fi.cls):
            if isinstance(c, ClassInfo) and f.attr in c.attrs:
                v = c.attrs[f.attr]
                v = v[-1] if isinstance(v, (list, tuple)) else v
                node, m = getattr(v, "value", v), c.module
                break
    if isinstance(node, ast.Call) and dotted(p, m, node.func) == "re.compile" and node.args:
        return const_str(p, m, fi, node.args[0]), 0
    return None, 0


def const_str(p, m, fi, e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = const_str(p, m, fi, e.left), const_str(p, m, fi, e.right)
        if a is not None and b is not None:
            return a + b
        if a is None and b is None:
            return None
        # a computed part: an opaque alternative of its own
        return (a if a is not None else "X") + (b if b is not None else "X")
    if isinstance(e, ast.JoinedStr):
        return "".join(v.value if isinstance(v, ast.Constant) else "X" for v in e.values)
    return None


def validates(p, fi, call):
    """Does the function raise when this match fails?"""
    par = p.parent_map(fi.module)
    x = par.get(call)
    name = None
    if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(
            x.targets[0] if isinstance(x, ast.Assign) else x.target, ast.Name):
        name = (x.targets[0] if isinstance(x, ast.Assign) else x.target).id
    elif isinstance(x, ast.NamedExpr):
        name = x.target.id
    for n in ast.walk(fi.node):
        if not isinstance(n, ast.If):
            continue
        neg = negative(n.test, name, call)
        if neg is None:
            continue
        branch = n.body if neg else n.orelse
        if any(isinstance(b, ast.Raise) for b in branch):
            return True
        if not neg and not n.orelse:
            # "if match: return ..." followed by a raise
            body = par.get(n)
            for blk in (getattr(body, "body", ()), getattr(body, "orelse", ())):
                if isinstance(blk, list) and n in blk and any(
                        isinstance(b, ast.Raise) for b in blk[blk.index(n) + 1:]):
                    return True
    return False


def negative(test, name, call):
    """True: the test holds when the match failed; False: when it succeeded; None: unrelated."""
    def about(e):
        return e is call or isinstance(e, ast.Name) and e.id == name or \
            isinstance(e, ast.NamedExpr) and e.value is call
    if about(test):
        return False
    if isinstance(test, ast.BoolOp):
        parts = [negative(v, name, call) for v in test.values]
        if isinstance(test.op, ast.Or) and True in parts:
            return True
        if isinstance(test.op, ast.And) and False in parts:
            return False
        return None
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not) and about(test.operand):
        return True
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and about(test.left) and \
            isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
        return isinstance(test.ops[0], (ast.Is, ast.Eq))
    return None


def ends(tree):
    """Is every way through the pattern anchored at the end?"""
    seq = list(tree)
    for op, av in reversed(seq):
        name = str(op)
        if name == "AT":
            return str(av) in ("AT_END", "AT_END_STRING", "AT_END_LINE")
        if name == "BRANCH":
            return all(ends(b) for b in av[1])
        if name == "SUBPATTERN":
            return ends(av[-1])
        if name in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            lo, hi, item = av
            # `(.+)\\s*` style ends that swallow everything
            if hi == re._constants.MAXREPEAT and everything(item):
                return True
            return False
        return False
    return False


def everything(item):
    seq = list(item)
    return len(seq) == 1 and str(seq[0][0]) in ("ANY", "ANY_ALL")
