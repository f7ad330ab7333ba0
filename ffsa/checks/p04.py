"""P04: every operator has its documented meaning for every type."""
import ast
import itertools
import re
try:
    from re import _parser as sre
except ImportError:                       # pragma: no cover
    import sre_parse as sre

from ..lib import *
from ..report import new_state
from ..values import C, Fn, ListObj, Raised, Ref, T, Tup
from .p01 import decided

EXPLANATION = (
    "Truth tables: the comparison of every type class is interpreted once per supported operator "
    "with a symbolic attribute value and a symbolic test value; every path is labelled with the "
    "outcomes of the comparisons it depends on (order, equality, containment, search, match, sets "
    "of bits) and its verdict must be the documented function of them. Support and normalization "
    "of operators are tables over all operators times all types.")

TYPE = "libff.type:Type"
NUM, STR, MODE, EQ = ("=", "+=", "-=", "+", "-"), ("=", ":", "~", "%"), ("=", ":", "~"), ("=",)
FAMILY = (("libff.type:Number", NUM), ("libff.type:String", STR), ("libff.type:ListOfStrings", STR),
          ("libff.type:Mode", MODE), ("libff.type:FileType", EQ), ("libff.type:Boolean", EQ))
ALLOPS = ("=", ":", "~", "%", "+=", "-=", "+", "-")
SPELLED = {"=": "=", ":": ":", "~": "~", "%": "%", "+=": "+=", "-=": "-=", "+": "+", "-": "-",
           ">=": "+=", "<=": "-=", ">": "+", "<": "-"}
RELS = {"=": {"eq"}, "+=": {"eq", "gt"}, "-=": {"eq", "lt"}, "+": {"gt"}, "-": {"lt"}}
FILETYPES = {"d": "directory", "directory": "directory", "f": "file", "file": "file",
             "l": "symlink", "symlink": "symlink", "s": "socket", "socket": "socket", "p": "fifo",
             "pipe": "fifo", "fifo": "fifo", "char": "char", "block": "block", "door": "door",
             "port": "port", "whiteout": "whiteout", "other": "other"}
TRUE = ("true", "t", "1", "yes", "y", "on")
FALSE = ("false", "f", "0", "no", "n", "off")
V, X, ENTRY = T("sym", "value"), T("sym", "test value"), T("sym", "entry")
BITS = 0o7777


def run(r):
    r.rule("R1", "the verdict is the documented function of the comparison outcome")
    r.rule("R2", "a glob test compares the documented operands and ! inverts it")
    r.rule("R3", "every type supports exactly its documented operators, others are rejected")
    r.rule("R4", "every spelling of an operator is recognized and normalized")
    r.rule("R5", "every documented spelling of a Boolean or file type value is accepted")
    r.floor = 150
    for ci, ops in families(r.p):
        for op in ops:
            table(r, ci, op)
        support(r, ci, ops)
    spelling(r)
    regex(r)
    booleans(r)
    filetypes(r)
    entry_type(r)


def families(p):
    out = []
    for qual, ops in FAMILY:
        for ci in p.subclasses(p.cls(qual)):
            if p.find_method(ci, "test") is not None:
                out.append((ci, ops))
    return out


# ------------------------------------------------------------------ what a path knows
def unfold(t):
    while isinstance(t, T) and t.op == "pure" and t.args[0] in (".lower", ".casefold"):
        t = t.args[1]
    return t


def atoms(s):
    """(kind, operands, outcome) of every comparison a path depends on."""
    out = []
    for k, f in s.facts.items():
        if k[0] == "eq":
            out.append(("eq", tuple(unfold(a) for a in k[1:]), f))
        elif k[0] == "in":
            out.append(("in", (unfold(k[1]), unfold(k[2])), f))
        elif k[0] in ("truth", "val", "neq") and isinstance(k[1], T):
            t = unfold(k[1])
            if k[0] == "truth":
                b = f
            elif k[0] == "val" and f == C(None):
                b = False
            elif k[0] == "neq" and k[2] == C(None):
                b = True
            else:
                continue
            if t.op == "pure" and t.args[0].startswith("."):
                name, ops = t.args[0][1:], t.args[1:]
            elif t.op == "pure" and t.args[0].startswith("re."):
                name, ops = t.args[0][3:], t.args[2:]
            elif t.op in ("call",) and isinstance(t.args[0], str):
                name = t.args[0].split(".")[-1].split(":")[-1]
                ops = tuple(a for a in t.args[1:] if a is not None)
            else:
                name, ops = "truth", (t,)
            out.append((name, tuple(unfold(a) for a in ops), b))
    return out


OTHER = {"startswith", "endswith", "fullmatch", "match", "search", "eq", "in"}


def lookup(s, kind, ops):
    """Outcome of a comparison, None if the path does not decide it; second: decided by another one."""
    wrong = False
    for k, o, b in atoms(s):
        if k == kind and (o[:len(ops)] == ops or kind == "eq" and o == ops[::-1]):
            return b, False
        if k in OTHER and V in o or k in OTHER and X in o:
            wrong = True
    return None, wrong


# ------------------------------------------------------------------ verdict tables
def make_test(p, ci, op, value, ic):
    return Tup([T("sym", "attribute"), C(op), Fn("class", ci), value, C(ic)],
               cls=p.cls("libff.parser:Test"))


def evaluate(r, ci, op, value, test_value, ic=False, st=None, glob=None):
    ip = r.interp(types={ENTRY: r.p.cls("libff.entry:Entry"), **({X: glob} if glob else {})},
                  opaque=lambda f: f.name == "is_dir" or f.cls is not None and f.cls.name == "Glob")
    res = r.run(r.p.find_method(ci, "test"),
                [Fn("class", ci), ENTRY, make_test(r.p, ci, op, test_value, ic), value], st=st, ip=ip)
    return ip, res


def table(r, ci, op):
    rule, sub = ("R2" if op == "%" else "R1"), f"{ci.name} {op}"
    p = r.p
    islist = p.issub(ci, p.cls("libff.type:ListOfStrings"))
    isstr = islist or p.issub(ci, p.cls("libff.type:String"))
    where = p.find_method(ci, "test").loc
    with r.guard(rule, sub):
        st, value = new_state(), V
        elems = [V]
        if islist:
            elems = [T("sym", "element0"), T("sym", "element1")]
            st, value = st.new(ListObj(tuple(elems)))
        test_value = X
        if ci.name == "Boolean" or p.issub(ci, p.cls("libff.type:Boolean")):
            for a, b in itertools.product((True, False), repeat=2):
                ip, res = evaluate(r, ci, op, C(a), C(b), None)
                for s, v in decided(ip, res):
                    r.check(not isinstance(v, Raised) and v.v is (a == b), rule, f"{sub} {a} {b}",
                            f"the verdict for {a}={b} is {v!r}", where, describe(s))
            return
        if p.issub(ci, p.cls("libff.type:FileType")):
            filetype_table(r, ci, op, rule, sub, where)
            return
        ip, res = evaluate(r, ci, op, value, test_value, False if isstr else None, st,
                           p.cls("libff.ignore:Glob") if op == "%" else None)
        for s, v in decided(ip, res):
            if isinstance(v, Raised):
                r.bad(rule, sub, f"the comparison fails with {v.exc.name}", where, describe(s))
                continue
            if isstr:
                string_case(r, ci, op, rule, sub, where, s, v, elems, islist)
            elif p.issub(ci, p.cls("libff.type:Mode")):
                mode_case(r, op, rule, sub, where, s, v)
            else:
                for rel in sorted(order_rels(s, V, X)):
                    r.check(v.v == (rel in RELS[op]), rule, f"{sub} if {rel}",
                            f"the verdict is {v.v} if the value is {rel} the given one", where,
                            describe(s))


def string_case(r, ci, op, rule, sub, where, s, v, elems, islist):
    outcomes = []
    for e in elems:
        if op == "=":
            outcomes.append(lookup(s, "eq", (e, X)))
        elif op == ":":
            outcomes.append(lookup(s, "in", (X, e)))
        elif op == "~":
            outcomes.append(lookup(s, "search", (X, e)))
        else:
            outcomes.append(glob_case(r, ci, rule, sub, where, s, e, islist))
    vals = [o[0] for o in outcomes]
    want = True if True in vals else None if None in vals else False
    if want is None:
        if any(o[1] for o in outcomes):
            r.bad(rule, sub, f"the verdict {v.v} does not follow from the documented comparison",
                  where, describe(s))
        else:
            r.skip(rule, sub, "comparison of an unknown form")
        return
    r.check(v.v == want, rule, f"{sub} {vals}", f"the verdict is {v.v} if the comparison with "
            f"{len(elems)} strings gives {vals}", where, describe(s))


def glob_case(r, ci, rule, sub, where, s, e, islist):
    include = None
    for k, f in s.facts.items():
        if k[0] in ("truth", "val") and k[1] == T("attr", X, "include"):
            include = f if k[0] == "truth" else f.v
    if include is None:
        # match == include
        for k, f in s.facts.items():
            if k[0] == "eq" and T("attr", X, "include") in k[1:]:
                m = k[1] if k[2] == T("attr", X, "include") else k[2]
                s = s.fact(("truth", m), f)
                include = True
    for k, o, b in atoms(s):
        if k == "match" and o and o[0] == X and e in o:
            name, is_dir = (o[2:4] + (None, None))[:2]
            if r.p.issub(ci, r.p.cls("libff.type:Path")):
                good = o[1] == e and name == T("attr", ENTRY, "name") and isinstance(is_dir, T) \
                    and "is_dir" in repr(is_dir)
            else:
                good = o[1] == e and name == e and is_dir == C(False)
            r.check(good, rule, f"{sub} operands",
                    f"the pattern is applied to {[short(a) for a in o[1:]]}", where, describe(s))
            return (None if include is None else b == include), True
    return None, False


# ------------------------------------------------------------------ sets of bits
def bits(t, env):
    """Value of a term of bitwise operations at one bit position: env maps V, X; None if unknown."""
    if t in env:
        return env[t]
    if isinstance(t, C) and isinstance(t.v, int):
        return (t.v >> env["bit"]) & 1
    if isinstance(t, T) and t.op == "bin" and len(t.args) == 3:
        a, b = bits(t.args[1], env), bits(t.args[2], env)
        if a is None or b is None:
            return None
        return {"&": a & b, "|": a | b, "^": a ^ b}.get(t.args[0])
    if isinstance(t, T) and t.op in ("&", "|", "^") and len(t.args) == 2:
        a, b = bits(t.args[0], env), bits(t.args[1], env)
        if a is None or b is None:
            return None
        return {"&": a & b, "|": a | b, "^": a ^ b}[t.op]
    if isinstance(t, T) and t.op in ("~", "un~", "invert") and len(t.args) == 1:
        a = bits(t.args[0], env)
        return None if a is None else 1 - a
    return None


def bit_table(f):
    out = []
    for bit in (0, 4, 8, 9, 11, 12, 15, 17):
        for a, b in itertools.product((0, 1), repeat=2):
            out.append(f({V: a, X: b, "bit": bit}))
    return tuple(out)


def mode_case(r, op, rule, sub, where, s, v):
    m = [1 if (BITS >> b) & 1 else 0 for b in range(20)]
    spec = {"=": lambda e: (e[V] ^ e[X]) & m[e["bit"]],          # no differing bit
            ":": lambda e: (e[X] & ~e[V]) & m[e["bit"]],         # no given bit that is missing
            "~": lambda e: e[V] & e[X] & m[e["bit"]]}[op]        # some common bit
    spec_table = bit_table(spec)
    found = None
    for k, f in s.facts.items():
        if k[0] == "eq":
            tab = bit_table(lambda e: None if None in (bits(k[1], e), bits(k[2], e))
                            else bits(k[1], e) ^ bits(k[2], e))
            empty = f
        elif k[0] in ("val", "neq"):
            c = f if k[0] == "val" else k[2]
            if c not in (C(0), C(False)):
                continue
            tab = bit_table(lambda e: bits(k[1], e))
            empty = k[0] == "val"
        elif k[0] == "truth":
            tab = bit_table(lambda e: bits(k[1], e))
            empty = not f
        else:
            continue
        if None in tab:
            continue
        found = found or False
        if tab == spec_table:
            want = empty if op in ("=", ":") else not empty
            r.check(v.v == want, rule, f"{sub} {'none' if empty else 'some'}",
                    f"the verdict is {v.v} although the set of bits is "
                    f"{'empty' if empty else 'not empty'}", where, describe(s))
            return
    if found is False:
        r.bad(rule, sub, f"the verdict {v.v} does not follow from the documented comparison of "
              f"the permission bits", where, describe(s))
    else:
        r.skip(rule, sub, "comparison of an unknown form")


# ------------------------------------------------------------------ file types, Booleans
def filetype_table(r, ci, op, rule, sub, where):
    values = sorted(set(FILETYPES.values()))
    for given, canon in FILETYPES.items():
        for actual in values:
            ip, res = evaluate(r, ci, op, C(actual), C(given), None)
            for s, v in decided(ip, res):
                r.check(not isinstance(v, Raised) and v.v == (actual == canon), rule,
                        f"{sub} {given} on {actual}", f"the verdict for a {actual} is {v!r}", where)


def filetypes(r):
    ci = r.p.cls("libff.type:FileType")
    with r.guard("R5", "choices of FileType"):
        ip = r.interp()
        res = ip.getattr_(Fn("class", ci), "choices", new_state(), None)
        for s, v in res:
            its = items(s, v)
            if its is None:
                r.skip("R5", "choices of FileType", "not a constant set")
                continue
            got = {c.v for c in its if isinstance(c, C)}
            for name in FILETYPES:
                r.check(name in got, "R5", f"file type {name}", f"{name!r} is not accepted", ci.loc)
    with r.guard("R5", "type of an entry"):
        ci = r.p.cls("libff.entry:Entry")
        for fi in ci.methods.values():
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and any(
                        isinstance(t, ast.Attribute) and t.attr == "type" for t in n.targets):
                    r.check(n.value.value in FILETYPES.values(), "R5",
                            f"entry type {n.value.value}", f"entries have type {n.value.value!r}, "
                            f"which no test can select", fi.loc)


KINDS = {"S_ISDIR": "directory", "S_ISREG": "file", "S_ISLNK": "symlink", "S_ISSOCK": "socket",
         "S_ISFIFO": "fifo", "S_ISCHR": "char", "S_ISBLK": "block", "S_ISDOOR": "door",
         "S_ISPORT": "port", "S_ISWHT": "whiteout"}


def entry_type(r):
    """An entry's type is the one its status says."""
    with r.guard("R5", "type of an entry"):
        p = r.p
        ent = obj(p, "libff.entry:Entry")
        fi = p.find_method(p.cls("libff.entry:Entry"), "__init__")
        args = [T("sym", n) for n in ("start", "relpath", "status")]
        seen = 0
        for which, want in list(KINDS.items()) + [(None, "other")]:
            hooks = {f"stat.{n}": (lambda ip, s, c, n=n: [(s, C(n == which))]) for n in KINDS}
            for s, v in r.run(fi, [ent] + args, hooks=hooks):
                kind = s.fields.get((ent, "type"))
                if isinstance(v, Raised) or not isinstance(kind, C):
                    continue
                seen += 1
                r.check(kind.v == want, "R5", f"status {want}", f"an entry with the status of a "
                        f"{want} gets the type {kind.v}", fi.loc, describe(s))
        if not seen:
            r.skip("R5", "type of an entry", "no type is stored")


def booleans(r):
    ci = r.p.cls("libff.type:Boolean")
    fi = r.p.find_method(ci, "input")
    with r.guard("R5", "Boolean input"):
        for want, words in ((True, TRUE), (False, FALSE)):
            for w in words:
                for form in (w, w.upper(), w.capitalize()):
                    for s, v in r.run(fi, [Fn("class", ci), C(form)]):
                        r.check(v == C(want), "R5", f"Boolean {form}",
                                f"{form!r} is converted to {v!r}", fi.loc)


# ------------------------------------------------------------------ operator support
def creator(r, ci, op, st=None, value=None):
    """Outcomes of creating a test of a type."""
    p = r.p
    parser = obj(p, "libff.parser:Parser")

    def attr_type(ip, s, call):
        return [(s, Fn("class", ci))]
    hooks = {"libff.registry:Registry.get_attribute_type": attr_type}
    for c in p.subclasses(p.cls(TYPE)):
        m = c.methods.get("input")
        if m is not None:
            hooks[m.qual] = lambda ip, s, call: [(s, T("pure", "input", call.args[-1]))]
    ip = r.interp(hooks=hooks, opaque=lambda f: f.name in ("__str__",))
    st = (st or new_state()).fact(("in", T("pure", "input", T("sym", "text")),
                                   T("sym", "choices")), True)
    return ip, r.run("libff.parser:Parser.create_test",
                     [parser, T("sym", "attribute"), C(op), C(None), T("sym", "text")], st=st, ip=ip)


def support(r, ci, ops):
    for op in ALLOPS:
        sub = f"{ci.name} {op}"
        with r.guard("R3", sub):
            ip, res = creator(r, ci, op)
            good = False
            for s, v in res:
                if op not in ops:
                    r.check(isinstance(v, Raised) and v.exc.name in ("ExpressionError", "UsageError"),
                            "R3", sub, f"{ci.name} accepts the operator {op} ({raised_name(v)})",
                            "libff.parser", describe(s))
                elif not isinstance(v, Raised):
                    good = True
                    if is_cls(v, "libff.parser:Test"):
                        r.check(v.items[1] == C(op), "R3", f"{sub} kept",
                                f"the operator {op} becomes {v.items[1]!r}", "libff.parser",
                                describe(s))
                        r.check(isinstance(v.items[2], Fn) and v.items[2].target is ci, "R3",
                                f"{sub} type", f"the type becomes {v.items[2]!r}", "libff.parser",
                                describe(s))
            if op in ops:
                r.check(good, "R3", sub, f"{ci.name} does not accept the operator {op}",
                        "libff.parser")


# ------------------------------------------------------------------ spelling
def spelling(r):
    p = r.p
    for op, norm in SPELLED.items():
        sub = f"operator {op}"
        with r.guard("R4", sub):
            groups = [T("sym", "attribute"), C(op), C(None), T("sym", "text")]
            seen = []

            def create(ip, s, call):
                seen.append(call)
                return [(s, T("sym", "the test"))]

            def groups_hook(ip, s, call):
                return [(s, Tup(groups))]

            def group_hook(ip, s, call):
                idx = [a.v for a in call.args if isinstance(a, C)]
                if len(idx) != len(call.args) or not idx:
                    return None
                got = [groups[i - 1] for i in idx]
                return [(s, got[0] if len(got) == 1 else Tup(got))]
            hooks = {"libff.parser:Parser.create_test": create, ".groups": groups_hook,
                     ".group": group_hook,
                     "libff.registry:Registry.setup_attribute":
                         lambda ip, s, c: [(s, Tup([C("file"), T("sym", "name")],
                                                   cls=p.cls("libff.attribute:_Attribute")))]}
            ip = r.interp(hooks=hooks)
            parser = obj(p, "libff.parser:Parser")
            r.run("libff.parser:Parser.parse_test", [parser, T("sym", "expression")], ip=ip)
            for call in seen:
                args = call.args[1:] if call.args and call.args[0] == parser else call.args
                got = args[1] if len(args) > 1 else call.kw.get("operator")
                if not isinstance(got, C):
                    r.skip("R4", sub, f"operator becomes {short(got)}")
                    continue
                r.check(got.v == norm, "R4", sub, f"the operator {op} is taken for {got.v}",
                        "libff.parser:Parser.parse_test")
            if not seen:
                r.skip("R4", sub, "no test is created")


def alternatives(tree, limit=200):
    """All strings a sub pattern of the expression syntax matches, in order of preference."""
    outs = [""]
    for op, av in tree:
        name = str(op)
        if name == "LITERAL":
            part = [chr(av)]
        elif name == "BRANCH":
            part = [a for b in av[1] for a in alternatives(b, limit)]
        elif name == "IN":
            part = []
            for o, x in av:
                if str(o) == "LITERAL":
                    part.append(chr(x))
                else:
                    raise ValueError("set")
        elif name == "SUBPATTERN":
            part = alternatives(av[-1], limit)
        elif name in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            if (int(lo), int(hi)) != (0, 1):
                raise ValueError("repeat")
            part = alternatives(sub, limit)
            part = part + [""] if name == "MAX_REPEAT" else [""] + part
        else:
            raise ValueError(name)
        outs = [a + b for a in outs for b in part]
        if len(outs) > limit:
            raise ValueError("too many")
    return outs


def group_of(tree, n):
    for op, av in tree:
        if str(op) == "SUBPATTERN":
            if av[0] == n:
                return av[-1]
            g = group_of(av[-1], n)
            if g is not None:
                return g
        elif str(op) == "BRANCH":
            for b in av[1]:
                g = group_of(b, n)
                if g is not None:
                    return g
        elif str(op) in ("MAX_REPEAT", "MIN_REPEAT"):
            g = group_of(av[2], n)
            if g is not None:
                return g
    return None


def regex(r):
    """The operator group of the expression syntax prefers the longest operator."""
    with r.guard("R4", "operator syntax"):
        pat = None
        m = r.p.module("libff.parser")
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and \
                    node.func.attr == "compile" and node.args:
                try:
                    text = ast.literal_eval(node.args[0])
                except ValueError:
                    continue
                if isinstance(text, str) and re.search(r"\\w", text) and "=" in text:
                    pat, where = text, f"{m.rel}:{node.lineno}"
        if pat is None:
            r.skip("R4", "operator syntax", "no constant pattern")
            return
        group = group_of(sre.parse(pat), 2)
        try:
            alts = alternatives(group or [])
        except ValueError as exc:
            r.skip("R4", "operator syntax", f"unknown construct {exc}")
            return
        for op in SPELLED:
            first = next((a for a in alts if op.startswith(a)), None)
            r.check(first == op, "R4", f"syntax of {op}",
                    f"in an expression with {op} the operator {first!r} is recognized", where)
        extra = [a for a in alts if a not in SPELLED]
        r.check(not extra, "R4", "syntax", f"undocumented operators {extra} are recognized", where)
