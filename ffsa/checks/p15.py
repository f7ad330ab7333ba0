"""P15: sorting and counting cope with every mix of values."""
import ast
import re

try:
    from re import _parser as sre_parse
except ImportError:                                     # pragma: no cover
    import sre_parse

from ..lib import *
from ..report import Undecided, new_state
from ..typing_ import Types
from ..values import C, DictObj, Exc, Fn, ListObj, Raised, Ref, Splice, T, Tup
from .p07 import REG
from .p14 import WANT

EXPLANATION = (
    "The sort key of every attribute type is derived symbolically for an arbitrary value, for a missing "
    "value and for every modifier; the shapes of all keys one field can have are compared with each other "
    "position by position, taking into account that a natural sort splits a name into alternating text "
    "and digits. Counting is interpreted for entries with and without a value, and the listing of counts "
    "for arbitrary texts, where the sort keys of all lines must be comparable as well.")

VAL = T("sym", "value")
NUM = {"int", "float", "bool"}
PLACE = {"libff.type:Number": "int"}


def run(r):
    r.rule("R1", "all sort keys a field can have are comparable with each other")
    r.rule("R2", "a missing value sorts like one constant value of the type")
    r.rule("R3", "a sort key has one element per field, in the order of the fields")
    r.rule("R4", "counting adds up totals, counts other values one by one and ignores missing values")
    r.rule("R5", "counts are displayed under text labels and values with the same label are added up")
    r.rule("R6", "the lines of a count are sorted by comparable keys")
    r.floor = 60
    p = r.p
    types = sorted((c for c in p.subclasses(p.cls("libff.type:Type")) if c.name in WANT),
                   key=lambda c: c.name)
    for ci in types:
        for mod in ("", "v", "h", "n", "x", "o") if r.thorough else ("", "v", "h"):
            sub = f"{ci.name}{':' + mod if mod else ''}"
            with r.guard("R1", sub):
                keys(r, ci, mod, sub)
    with r.guard("R3", "two fields"):
        order(r)
    with r.guard("R4", "several fields"):
        several(r)
    for ci in types:
        for same in (False, True):
            with r.guard("R4", f"count {ci.name}"):
                counting(r, ci, same)
        with r.guard("R5", f"label {ci.name}"):
            labels(r, ci)
    with r.guard("R4", "repeated field"):
        repeated(r)
    with r.guard("R5", "equal labels"):
        merging(r)
    with r.guard("R6", "lines"):
        lines(r)


# ------------------------------------------------------------------ shapes
class Shapes:
    """Shapes of values: ("str",) | ("num",) | ("none",) | ("seq", kind, items) | ("const", v) | None."""

    def __init__(self, ty, distinct=()):
        self.ty = ty
        self.distinct = set(distinct)

    def of(self, v, st, depth=8):
        if isinstance(v, T):
            v = val(st, v)
        if depth == 0:
            return None
        if isinstance(v, C):
            if v.v is None:
                return ("none",)
            if isinstance(v.v, (list, tuple)):
                return ("seq", type(v.v).__name__, tuple(self.of(C(x), st, depth - 1) for x in v.v), True)
            return ("const", v.v) if isinstance(v.v, (str, int, float, bool, bytes)) else None
        if isinstance(v, Tup) and v.kind not in ("set", "frozenset"):
            if any(isinstance(i, Splice) for i in v.items):
                return ("seq", "tuple", self.spliced(v.items, st, depth), False)
            return ("seq", "tuple", tuple(self.of(i, st, depth - 1) for i in v.items), True)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, ListObj) and o.kind in ("list", "tuple"):
                if any(isinstance(i, Splice) for i in o.items):
                    return ("seq", o.kind, self.spliced(o.items, st, depth), False)
                return ("seq", o.kind, tuple(self.of(i, st, depth - 1) for i in o.items), True)
            if isinstance(o, DictObj):
                return ("dict",)
            return None
        if v in self.distinct:
            return ("sym", v, self.ty.of(v, st))
        t = self.ty.of(v, st)
        if t in NUM:
            return ("num",)
        if t in ("str", "none", "bytes"):
            return (t,)
        if t == "list":
            return ("rep", "list", self.ty.element(v, st, 6))
        if t == "tuple":
            return None
        return ("?", t) if t is None else ("other", t)

    def spliced(self, items, st, depth):
        return tuple(self.of(i, st, depth - 1) if not isinstance(i, Splice) else None for i in items)


def kind(a):
    if a[0] == "const":
        return "str" if isinstance(a[1], str) else "bytes" if isinstance(a[1], bytes) else "num"
    if a[0] == "sym":
        return "num" if a[2] in NUM else a[2]
    if a[0] == "rep":
        return a[1]
    if a[0] == "seq":
        return a[1]
    return a[0]


def clash(a, b):
    """(verdict, text): "maybe" equal, "diff" when they always differ, "bad", or "?"."""
    if a is None or b is None or "?" in (a[0], b[0]):
        return "?", ""
    ka, kb = kind(a), kind(b)
    if ka == "none" and kb == "none":
        return "maybe", ""
    if ka != kb or ka in ("none", "dict", "other"):
        return "bad", f"{show(a)} against {show(b)}"
    if a[0] == b[0] == "const":
        return ("maybe" if a[1] == b[1] else "diff"), ""
    if a[0] == b[0] == "sym" and a[1] != b[1]:
        return "diff", ""
    if a[0] == "rep" or b[0] == "rep":
        if a[0] == b[0]:
            return ("maybe", "") if a[2] == b[2] and a[2] in ("str", "int") else ("?", "")
        s, rp = (a, b) if a[0] == "seq" else (b, a)
        if not s[2]:
            return "maybe", ""
        return "?", ""
    if a[0] == "seq":
        for x, y in zip(a[2], b[2]):
            v, why = clash(x, y)
            if v != "maybe":
                return v, why
        return "maybe", ""
    return "maybe", ""


def show(a):
    if a is None:
        return "?"
    if a[0] == "const":
        return repr(a[1])
    if a[0] == "seq":
        return f"{a[1]} of " + ", ".join(show(x) for x in a[2]) if a[2] else f"empty {a[1]}"
    return {"num": "a number", "str": "a text", "none": "None", "dict": "a mapping",
            "rep": "a list"}.get(a[0], str(a[-1]))


# ------------------------------------------------------------------ regular expressions that split
def splitter(pat):
    """(group is exactly runs of digits, class) for a pattern with one capturing group."""
    try:
        tree = sre_parse.parse(pat)
    except Exception:
        return None
    if tree.state.groups != 2 or len(tree) != 1 or str(tree[0][0]) != "SUBPATTERN":
        return None
    inner = tree[0][1][-1]
    if len(inner) != 1 or str(inner[0][0]) != "MAX_REPEAT":
        return None
    lo, hi, body = inner[0][1]
    if lo != 1 or len(body) != 1:
        return None
    op, av = body[0]
    if str(op) == "IN" and len(av) == 1 and str(av[0][1]) == "CATEGORY_DIGIT":
        return "unicode"
    if str(op) == "IN" and len(av) == 1 and str(av[0][0]) == "RANGE" and tuple(av[0][1]) == (48, 57):
        return "ascii"
    return None


def pattern_text(v):
    if isinstance(v, C):
        v = v.v
        if isinstance(v, re.Pattern):
            return v.pattern if not v.flags & re.ASCII else None
        return v if isinstance(v, str) else None
    if isinstance(v, T) and v.op in ("call", "pure") and v.args[0] == "re.compile":
        return pattern_text(v.args[2])
    return None


class Texts:
    """Hooks for the texts a natural sort works on."""

    def __init__(self, sizes=(1, 3), known=None, unlimited=False):
        self.sizes = sizes
        self.known = known or {}
        self.unlimited = unlimited
        self.cls = {}

    def parts(self, ip, s, text, cls):
        out = []
        for n in self.sizes:
            its = []
            for i in range(n):
                t = T("digits" if i % 2 else "text", text, C(i), C(cls))
                its.append(t)
            s2, ref = s.new(ListObj(tuple(its)))
            out.append((s2, ref))
        return out

    def resplit(self, ip, s, c):
        """re.split(pattern, text)"""
        pat = pattern_text(c.args[0]) if len(c.args) == 2 and not c.kw else None
        cls = splitter(pat) if pat is not None else None
        if cls is None or isinstance(c.args[1], C):
            return None
        return self.parts(ip, s, c.args[1], cls)

    def split(self, ip, s, c):
        pat = pattern_text(c.recv)
        if pat is not None and not isinstance(c.recv, C) or isinstance(c.recv, C) and \
                isinstance(c.recv.v, re.Pattern):
            cls = splitter(pat) if pat is not None else None
            if cls is None or len(c.args) != 1 or c.kw or isinstance(c.args[0], C):
                return None
            return self.parts(ip, s, c.args[0], cls)
        if isinstance(c.recv, C) or c.kw or len(c.args) != 1 or Types().of(c.args[0], s) != "str" and \
                not isinstance(c.args[0], T):
            return None
        out = []
        for n in (1, 2):
            s2, ref = s.new(ListObj(tuple(T("component", c.recv, C(i)) for i in range(n))))
            out.append((s2, ref))
        return out

    def predicate(self, name):
        def hook(ip, s, c):
            t = c.recv
            if isinstance(t, T) and t.op == "slice" and t.args[1] in (None, C(None), C(0)) and \
                    isinstance(t.args[2], C) and isinstance(t.args[2].v, int) and t.args[2].v > 0:
                t = t.args[0]
            if isinstance(t, T) and t.op == "digits":
                return [(s, C(True))]
            if isinstance(t, T) and t.op == "text" and t.args[2] == C("unicode") and name == ".isdecimal":
                return [(s, C(False))]
            return None
        return hook

    def number(self, ip, s, c):
        t = c.args[0] if len(c.args) == 1 else None
        if isinstance(t, T) and t.op == "text" and t.args[2] == C("unicode"):
            return [(s, Raised(Exc("ValueError", (), c.node)))]
        return None

    def exact(self, ip, s, c):
        """decimal.Decimal(text), fractions.Fraction(text), float(text): numbers of any length."""
        t = c.args[0] if len(c.args) == 1 else None
        if t is None or isinstance(t, C):
            return None
        if numeric(t, s):
            return [(s, T("number", t))]
        if isinstance(t, T) and (t.op in ("text", "digits") or SortTypes(known=self.known).of(t, s) == "str"):
            exc = "decimal.InvalidOperation" if "Decimal" in str(getattr(c, "name", "")) else "ValueError"
            out = [(s, Raised(Exc(exc, (), c.node)))]
            return out if t.op == "text" and t.args[2] == C("unicode") else [(s, T("number", t))] + out
        return None

    def hooks(self):
        h = {"builtins.int": self.number, "decimal.Decimal": self.exact, "fractions.Fraction": self.exact,
             "builtins.float": self.exact, ".split": self.split, "re.split": self.resplit}
        for n in (".isdecimal", ".isdigit", ".isnumeric", ".isalnum"):
            h[n] = self.predicate(n)
        return h

    def raises(self, name, recv, st, call):
        if name in ("int", "builtins.int") and call.args:
            return () if integral(call.args[0], st, self.unlimited) else ("ValueError",)
        return ()


def unlimited(p):
    """The program lifts the limit on the digits int() takes."""
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr == "set_int_max_str_digits":
                return True
    return False


def integral(x, st, anylen):
    """int(x) cannot fail on this path: x has digits only, and not too many of them."""
    return isinstance(x, C) or numeric(x, st) and (anylen or any(
        f[0] == "ord" and any(isinstance(a, T) and a.op == "len" and a.args[0] == x for a in f[1:])
        for f in st.facts))


def numeric(x, st):
    """The text is a decimal number."""
    if isinstance(x, T) and x.op == "digits":
        return True
    for f, v in st.facts.items():
        if f[0] == "truth" and v is True and isinstance(f[1], T) and f[1].op in ("pure", "call") and \
                f[1].args[0] == ".isdecimal" and f[1].args[1] == x:
            return True
    return False


class SortTypes(Types):
    def of(self, v, st, depth=8):
        if isinstance(v, T):
            if v.op in ("digits", "text", "component"):
                return "str"
            if v.op == "number":
                return "int"
            if v.op in ("elem", "item") and isinstance(v.args[0], T) and \
                    v.args[0].op in ("call", "pure") and v.args[0].args[0] == "os.path.splitext":
                return "str"
            if v.op in ("elem", "item") and self.of(v.args[0], st, depth - 1) == "str":
                return "str"
        return super().of(v, st, depth)

    def element(self, coll, st, depth, key=None):
        if coll in self.known and self.known[coll] == "list":
            return "str"
        return super().element(coll, st, depth, key)


# ------------------------------------------------------------------ fields
def registry(typ, name="value"):
    def sym(c):
        a = c.args[-1]
        return T("sym", f"attr<{a.v}>" if isinstance(a, C) else "attr")

    def setup(ip, s, c):
        return [(s, sym(c))]

    def value(c):
        a = c.args[-1]
        return VAL if name == "value" else T("value", c.args[-2], a)

    def get(ip, s, c):
        return [(s.fact(("has", c.args[-1]), True), value(c)),
                (s.fact(("has", c.args[-1]), False), Raised(Exc("KeyError", (), c.node)))]

    def both(ip, s, c):
        return [(x, v if isinstance(v, Raised) else Tup((v, Fn("class", typ)))) for x, v in get(ip, s, c)]
    return {REG + ".setup_attribute": setup, REG + ".parse_attribute": setup,
            REG + ".get_attribute_type": lambda ip, s, c: [(s, Fn("class", typ))],
            REG + ".get_attribute": get, REG + ".get_attribute_and_type": both}


def fields(r, ip, cls, specs):
    st, argv = new_state().new(ListObj(tuple(C(x) for x in specs)))
    out = ip.call_value(Fn("class", r.p.cls(cls)), [CTX, argv], {}, st, None)
    good = [(s, f) for s, f in out if not isinstance(f, Raised)]
    return good, [f for s, f in out if isinstance(f, Raised)]


def keys(r, ci, mod, sub):
    p = r.p
    cls = "libff.field:SortFields"
    texts = Texts((1, 3, 5) if r.thorough else (1, 3), unlimited=unlimited(p))
    hk = registry(ci)
    hk.update(texts.hooks())
    want = WANT[ci.name]
    ty = SortTypes(known={VAL: "int" if "int" in want else min(want)})
    hk["builtins.isinstance"] = typed(ty)
    ip = r.interp(hooks=hk, inst={cls}, fold_re=True, max_loop=2, max_elems=8,
                  raises=texts.raises)
    made, refused = fields(r, ip, cls, [f"aa.bb:{mod}" if mod else "aa.bb"])
    render = p.find_method(p.cls(cls), "render")
    if not made:
        r.bad("R1", sub, "no sort field can be made for this type", render.loc)
        return
    sh = Shapes(ty)
    present, absent = [], []
    for s, f in made:
        ip.steps = 0
        for s2, v in ip.call_func(render, [f, T("sym", "entry")], {}, s, None):
            if isinstance(v, Raised):
                r.bad("R1", sub, f"the sort key cannot be made: {v.exc.name}", render.loc, describe(s2))
                continue
            shape = sh.of(v, s2)
            (absent if ("has", T("sym", "attr<aa.bb>")) in s2.facts and
             s2.facts[("has", T("sym", "attr<aa.bb>"))] is False else present).append((shape, s2, v))
    r.account(ip, len(present) + len(absent))
    uniq = {}
    for shape, s2, v in present + absent:
        uniq.setdefault(repr(shape), (shape, s2))
    allk = list(uniq.values())
    unknown = False
    for i, (a, sa) in enumerate(allk):
        for b, sb in allk[i:]:
            v, why = clash(a, b)
            if v == "bad":
                r.bad("R1", sub, f"two keys of this field cannot be compared: {why}", render.loc,
                      describe(sa) + ["against"] + describe(sb))
            elif v == "?":
                unknown = True
            else:
                r.oblig.append(("R1", sub, "discharged"))
    if unknown or not allk:
        r.skip("R1", sub, "the shape of a key is not known")
    else:
        r.ok("R1", sub)
    miss = {repr(x[0]): x for x in absent}
    for shape, s2, v in absent:
        r.check(not mentions(v, VAL, s2) and not mentions(v, T("sym", "entry"), s2), "R2", sub,
                "the key of a missing value depends on the entry", render.loc, describe(s2))
    if absent:
        r.check(len(miss) == 1, "R2", f"{sub} constant", "a missing value has several different keys",
                render.loc, describe(absent[0][1]))
    else:
        r.bad("R2", sub, "a missing value is not handled", render.loc)


def typed(ty):
    """isinstance() of values whose type is known."""
    def hook(ip, s, c):
        t = ty.of(c.args[0], s)
        if t is None or len(c.args) != 2:
            return None
        k = c.args[1]
        k = k.items if isinstance(k, Tup) else (k,)
        names = [getattr(x, "target", None) for x in k]
        if not all(isinstance(n, str) for n in names):
            return None
        return [(s, C(t in names or t == "bool" and "int" in names))]
    return hook


def order(r):
    p = r.p
    cls = "libff.field:SortFields"
    ci = p.cls("libff.type:Number")
    for specs in (("aa.bb", "cc.dd"), ("cc.dd", "aa.bb"), ("aa.bb", "cc.dd", "ee.ff")):
        ip = r.interp(hooks=registry(ci, "each"), inst={cls}, fold_re=True, max_loop=6, max_elems=6)
        made, _ = fields(r, ip, cls, specs)
        render = p.find_method(p.cls(cls), "render")
        n = 0
        for s, f in made:
            for s2, v in ip.call_func(render, [f, T("sym", "entry")], {}, s, None):
                n += 1
                its = items(s2, v)
                sub = f"key of {','.join(specs)}"
                if isinstance(v, Raised) or its is None or any(isinstance(i, Splice) for i in its):
                    r.skip("R3", sub, "the key is not known")
                    continue
                ok = len(its) == len(specs)
                for x, name in zip(its, specs):
                    a = T("sym", f"attr<{name}>")
                    other = [T("sym", f"attr<{o}>") for o in specs if o != name]
                    has = s2.facts.get(("has", a))
                    if any(mentions(x, o, s2) for o in other) or has and not mentions(x, a, s2):
                        ok = False
                r.check(ok, "R3", sub, f"the key is {short(v)} {[short(i) for i in its]}", render.loc,
                        describe(s2))
        r.account(ip, n)


# ------------------------------------------------------------------ counting
PROC = "libff.processing:CollectiveMixin"


def counter(r, specs, ci, ip):
    made, refused = fields(r, ip, "libff.field:CountFields", specs)
    return made, refused


def count_class(r, ci):
    a = r.p.find_attr(ci, "count")
    return a[1].attr if a is not None and hasattr(a[1], "attr") else None


def collected(r, ci, specs, n, same=False, plain=False):
    """States after collecting n entries (all with the same value): (state, count mapping, field items)."""
    p = r.p
    hk = registry(ci, "each")
    if plain:                                    # attributes are known constants
        for name in ("setup_attribute", "parse_attribute"):
            hk[f"{REG}.{name}"] = lambda ip, s, c: [(s, c.args[-1])]

    def get(ip, s, c):
        e, a = c.args[-2], c.args[-1]
        v = T("value", T("sym", "any entry") if same else e, a)
        known = s.facts.get(("has", e, a))
        out = []
        if known is not False:
            out.append((s.fact(("has", e, a), True).fact(("neq", v, C(None)), True), v))
        if known is not True:
            out.append((s.fact(("has", e, a), False), Raised(Exc("KeyError", (), c.node))))
        return out
    hk[REG + ".get_attribute"] = get
    hk[REG + ".get_attribute_and_type"] = lambda ip, s, c: [
        (x, v if isinstance(v, Raised) else Tup((v, Fn("class", ci)))) for x, v in get(ip, s, c)]
    ip = r.interp(hooks=hk, inst={"libff.field:CountFields"}, fold_re=True, max_loop=6, max_elems=6)
    made, refused = fields(r, ip, "libff.field:CountFields", specs)
    fi = p.find_method(p.cls(PROC), "collect_count")
    me = obj(p, PROC)
    out = []
    for s, f in made:
        s, d = s.new(DictObj((), default=C(0)))
        s = s.setfield(ARGS, "count", f).setfield(me, "count", d)
        s, ents = s.new(ListObj(tuple(T("sym", f"entry{i}") for i in range(n))))
        ip.steps = 0
        for s2, v in ip.call_func(fi, [me, ents], {}, s, None):
            out.append((s2, v, s2.fields.get((me, "count")), items(s, f)))
    r.account(ip, len(out))
    return out, refused, fi


def counting(r, ci, same):
    how = count_class(r, ci)
    sub = f"count of {'equal ' if same else ''}{ci.name}"
    n = 2
    res, refused, fi = collected(r, ci, ["aa.bb"], n, same)
    if how == "UNCOUNTABLE":
        r.check(not res and refused and all(getattr(x.exc, "name", "") == "UsageError" for x in refused),
                "R4", sub, "an uncountable attribute is accepted", fi.loc)
        return
    if not res:
        r.bad("R4", sub, "an attribute of this type cannot be counted", fi.loc)
        return
    a = T("sym", "attr<aa.bb>")
    for s, v, d, flds in res:
        if isinstance(v, Raised):
            r.bad("R4", sub, f"counting fails with {v.exc.name}", fi.loc, describe(s))
            continue
        o = s.heap.get(d.id) if isinstance(d, Ref) else None
        if not isinstance(o, DictObj) or o.open:
            r.skip("R4", sub, "the mapping of counts is not known")
            continue
        got = dict_of(s, o)
        have = [T("value", T("sym", "any entry" if same else f"entry{i}"), a) for i in range(n)
                if s.facts.get(("has", T("sym", f"entry{i}"), a))]
        total = [x for k, x in got if k == C("_total")]
        r.check(total == [C(n)], "R4", f"{sub}: total", f"{n} entries are counted as "
                f"{[short(x) for x in total]}", fi.loc, describe(s))
        mine = [x for k, x in got if not isinstance(k, C)]
        if not have:
            bad = [x for x in mine if not empty(s, x)]
            r.check(not bad, "R4", sub, "a missing value is counted", fi.loc, describe(s))
            continue
        if len(mine) != 1:
            r.bad("R4", sub, f"{len(mine)} counts are kept for one field", fi.loc, describe(s))
            continue
        x = mine[0]
        if how == "TOTAL":
            r.check(sum_of(x) == sorted(map(repr, have)), "R4", sub, f"the total of {len(have)} values is "
                    f"{short(x)}", fi.loc, describe(s))
        else:
            o2 = s.heap.get(x.id) if isinstance(x, Ref) else None
            if not isinstance(o2, DictObj):
                r.bad("R4", sub, f"values are not counted individually: {short(x)}", fi.loc, describe(s))
                continue
            n1 = sum(y.v for k, y in o2.items if isinstance(y, C) and isinstance(y.v, int))
            known = all(isinstance(y, C) and isinstance(y.v, int) for k, y in o2.items)
            ks = {repr(k) for k, y in o2.items}
            r.check(known and n1 == len(have) and ks <= {repr(h) for h in have}, "R4", sub,
                    f"{len(have)} values are counted as {[(short(k), short(y)) for k, y in o2.items]}",
                    fi.loc, describe(s))


def empty(s, x):
    o = s.heap.get(x.id) if isinstance(x, Ref) else None
    return isinstance(o, DictObj) and not o.items or x == C(0)


def dict_of(s, o):
    return [(val(s, k) if isinstance(k, T) else k, v) for k, v in o.items]


def sum_of(x):
    """The summands of a sum term, as sorted texts."""
    out = []
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, T) and y.op == "+" and len(y.args) == 2:
            todo.extend(y.args)
        elif y != C(0):
            out.append(repr(y))
    return sorted(out)


def several(r):
    """Several fields of one entry are counted independently."""
    for name in ("Size", "String"):
        ci = r.p.cls("libff.type:" + name)
        specs = ["aa.bb", "cc.dd", "ee.ff"]
        res, _, fi = collected(r, ci, specs, 1, plain=True)
        e, sub, n = T("sym", "entry0"), f"several {name} fields", 0
        for s, v, d, flds in res:
            o = s.heap.get(d.id) if isinstance(d, Ref) else None
            if isinstance(v, Raised) or not isinstance(o, DictObj) or o.open:
                r.skip("R4", sub, "the mapping of counts is not known")
                continue
            n += 1
            got = ""
            for k, x in dict_of(s, o):
                inner = s.heap.get(x.id) if isinstance(x, Ref) else None
                got += repr([k for k, y in inner.items if y != C(0)] if isinstance(inner, DictObj) else x)
            for spec in specs:
                a = C(spec)
                has = s.facts.get(("has", e, a))
                r.check(has is not None and (repr(T("value", e, a)) in got) == has, "R4", sub, f"the value of {spec}, which is "
                        f"{'present' if has else 'missing' if has is False else 'not asked for'}, is "
                        f"{'' if repr(T('value', e, a)) in got else 'not '}counted", fi.loc, describe(s))
        if not n:
            r.skip("R4", sub, "no outcome")


def repeated(r):
    p = r.p
    for name, how in (("Size", "TOTAL"), ("String", "COUNT")):
        ci = p.cls("libff.type:" + name)
        res, refused, fi = collected(r, ci, ["aa.bb", "aa.bb"], 1)
        sub = f"repeated {name} field"
        a = T("sym", "attr<aa.bb>")
        for s, v, d, flds in res:
            o = s.heap.get(d.id) if isinstance(d, Ref) else None
            if isinstance(v, Raised) or not isinstance(o, DictObj) or o.open:
                r.skip("R4", sub, "the mapping of counts is not known")
                continue
            if not s.facts.get(("has", T("sym", "entry0"), a)):
                continue
            mine = [x for k, x in dict_of(s, o) if not isinstance(k, C)]
            val_ = T("value", T("sym", "entry0"), a)
            for x in mine:
                if how == "TOTAL":
                    r.check(sum_of(x) == [repr(val_)], "R4", sub, "the value of an entry is added more than "
                            f"once: {short(x)}", fi.loc, describe(s))
                else:
                    o2 = s.heap.get(x.id) if isinstance(x, Ref) else None
                    r.check(isinstance(o2, DictObj) and [y for k, y in o2.items] == [C(1)], "R4", sub,
                            "an entry is counted more than once", fi.loc, describe(s))


# ------------------------------------------------------------------ display
def labels(r, ci):
    """Type.output() yields a text for every modifier."""
    p = r.p
    fi = p.find_method(ci, "output")
    want = WANT[ci.name]
    ty = SortTypes(known={VAL: "int" if "int" in want else min(want)})
    for mod in (None, "h", "x", "o", "n", "v"):
        sub = f"label of {ci.name}{':' + mod if mod else ''}"
        ip = r.interp(max_loop=2, opaque=lambda f: f.module.name == "libff.convert")
        n = 0
        for s, v in ip.call_value(Fn("bound", fi, Fn("class", ci)) if False else
                                  Fn("func", fi), [Fn("class", ci), ARGS, C(mod), VAL], {}, new_state(), None):
            n += 1
            if isinstance(v, Raised):
                if v.exc.name in ("OverflowError", "ValueError", "OSError"):
                    continue
                r.bad("R5", sub, f"fails with {v.exc.name}", fi.loc, describe(s))
                continue
            t = ty.of(v, s)
            if t is None:
                r.skip("R5", sub, f"the type of {short(v)} is not known") if not convert(v) else r.ok("R5", sub)
            else:
                r.check(t == "str", "R5", sub, f"the label is of type {t}: {short(v)}", fi.loc, describe(s))
        r.account(ip, n)


def convert(v):
    """A value made by one of the format functions, which are checked on their own."""
    return isinstance(v, T) and v.op in ("call", "pure") and "format_" in str(v.args[0])


def prepared(r, ip, hk, content):
    p = r.p
    fi = p.find_method(p.cls(PROC), "prepare_count")
    me = obj(p, PROC)
    st = new_state()
    outer = []
    for k, v in content:
        if isinstance(v, list):
            st, v = st.new(DictObj(tuple(v), default=C(0)))
        outer.append((k, v))
    st, d = st.new(DictObj(tuple(outer), default=C(0)))
    st = st.setfield(me, "count", d)
    return fi, ip.call_func(fi, [me], {}, st, None)


def field_value(r, name, ci, mod=None):
    f = r.p.cls("libff.field:Field") if "libff.field:Field" in getattr(r.p, "classes", {}) else None
    return f


def merging(r):
    p = r.p
    ci = p.cls("libff.type:String")
    for same in (True, False):
        def output(ip, s, c):
            k = c.args[-1]
            return [(s, C("same" if same else "label of " + k.args[0]))]
        hk = registry(ci, "each")
        hk[ci.qual + ".output"] = output
        hk["libff.type:Type.output"] = output
        hk[".output"] = output
        ip = r.interp(hooks=hk, inst={"libff.field:CountFields"}, fold_re=True, max_loop=6, max_elems=6)
        made, _ = fields(r, ip, "libff.field:CountFields", ["aa.bb:h"])
        fi = p.find_method(p.cls(PROC), "prepare_count")
        me = obj(p, PROC)
        n = 0
        for s, f in made:
            its = items(s, f)
            k1, k2, n1, n2 = (T("sym", x) for x in ("value1", "value2", "count1", "count2"))
            s, inner = s.new(DictObj(((k1, n1), (k2, n2)), default=C(0)))
            s, d = s.new(DictObj(((C("_total"), T("sym", "total")), (its[0], inner)), default=C(0)))
            s = s.setfield(me, "count", d)
            for s2, v in ip.call_func(fi, [me], {}, s, None):
                n += 1
                sub = f"{'equal' if same else 'different'} labels"
                o = s2.heap.get(v.id) if isinstance(v, Ref) else None
                if isinstance(v, Raised) or not isinstance(o, DictObj):
                    if isinstance(v, Raised):
                        r.bad("R5", sub, f"fails with {v.exc.name}", fi.loc, describe(s2))
                    else:
                        r.skip("R5", sub, "the result is not known")
                    continue
                rest = dict(dict_of(s2, o))
                tot = rest.pop(C("_total"), None)
                r.check(tot == T("sym", "total"), "R5", sub + ": total", f"the total is shown as {short(tot)}",
                        fi.loc, describe(s2))
                sums = []
                for x in rest.values():
                    o2 = s2.heap.get(x.id) if isinstance(x, Ref) else None
                    if isinstance(o2, DictObj):
                        sums += [y for _, y in o2.items]
                got = sorted(z for y in sums for z in sum_of(y))
                want = sorted(map(repr, (n1, n2)))
                r.check(got == want and len(sums) == (1 if same else 2), "R5", sub,
                        f"the counts {short(n1)} and {short(n2)} are shown as {[short(y) for y in sums]}",
                        fi.loc, describe(s2))
        r.account(ip, n)


def lines(r):
    """print_count(): every call of sorted() compares comparable keys."""
    p = r.p
    fi = p.find_method(p.cls(PROC), "print_count")
    me = obj(p, PROC)
    k1, k2, k3 = (T("sym", f"label{i}") for i in (1, 2, 3))
    ty = SortTypes(known={k1: "str", k2: "str", k3: "str", T("sym", "n1"): "int", T("sym", "n2"): "int",
                          T("sym", "total"): "int", T("sym", "sum"): "int"})
    sh = Shapes(ty, {k1, k2, k3})
    seen = []

    def prepare(ip, s, c):
        s, inner = s.new(DictObj(((k1, T("sym", "n1")), (k2, T("sym", "n2")))))
        s, d = s.new(DictObj(((C("_total"), T("sym", "total")), (C("file.type"), inner),
                              (C("file.size"), T("sym", "sum")))))
        return [(s, d)]

    def check(ip, s, c):
        seq = c.args[0] if c.args else c.recv
        its = ip.seq_items(seq, s)
        if its is None or any(isinstance(i, Splice) for i in its):
            return None
        key = c.kw.get("key")
        outs = []
        for i in its:
            if key is None or key == C(None):
                outs.append([(s, i)])
            else:
                outs.append(ip.call_value(key, [i], {}, s, c.node))
        seen.append((s, outs, c))
        s2, ref = s.new(ListObj(tuple(its)))
        return [(s2, ref)]

    def sort(ip, s, c):
        check(ip, s, c)
        return [(s, C(None))]
    texts = Texts(known=ty.known, unlimited=unlimited(p))
    hk = texts.hooks()
    hk.pop(".split")
    hk.update({PROC + ".prepare_count": prepare, "sorted": check, "builtins.sorted": check, ".sort": sort})
    ip = r.interp(hooks=hk, max_loop=6, max_elems=8, raises=texts.raises)
    st = new_state().setfield(ARGS, "json", C(None))
    res = ip.call_func(fi, [me], {}, st, None)
    for s, v in res:
        if isinstance(v, Raised) and v.exc.name in ("TypeError", "ValueError", "KeyError"):
            r.bad("R6", "lines", f"printing the counts fails with {v.exc.name}", fi.loc, describe(s))
    r.account(ip, len(res))
    done = set()
    for s, outs, c in seen:
        where = f"{fi.module.rel}:{getattr(c.node, 'lineno', 0)}"
        for i, a in enumerate(outs):
            for b in outs[i + 1:]:
                for sa, va in a:
                    for sb, vb in b:
                        if isinstance(va, Raised) or isinstance(vb, Raised):
                            exc = (va if isinstance(va, Raised) else vb).exc
                            r.bad("R6", "lines", f"a line cannot be ordered: {exc.name}", where, describe(sa))
                            continue
                        v, why = clash(sh.of(va, sa), sh.of(vb, sb))
                        sub = f"lines at {fi.name} line"
                        if v == "bad":
                            r.bad("R6", "lines", f"two lines cannot be ordered: {why}", where, describe(sa))
                        elif v == "?":
                            r.skip("R6", "lines", f"the key {short(va)} is not known")
                        else:
                            done.add((short(va), short(vb)))
    for d in sorted(done):
        r.ok("R6", f"{d[0]} against {d[1]}")
    if not seen:
        r.ok("R6", "lines are not sorted")
