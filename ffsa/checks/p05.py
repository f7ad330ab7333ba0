"""P05: the case mode decides case sensitivity uniformly."""
from ..lib import *
from ..report import new_state
from ..values import C, Fn, InstObj, ListObj, Raised, Ref, T, Tup
from .p01 import decided
from . import p04

EXPLANATION = (
    "For every text type, operator and case mode the creation of a test and its evaluation are "
    "interpreted together with a symbolic given text and attribute value. On every path the "
    "operands of the comparison must be folded both (case disregarded) or neither (case respected), "
    "as the mode and, for smart, the comparison of the given text with its lower case form demand; "
    "the text of a regular expression must reach the compiler unfolded.")

TEXT, V = T("sym", "text"), T("sym", "value")
MODES = ("ignore", "sensitive", "smart")


def run(r):
    r.rule("R1", "both operands of a text comparison are folded if case is disregarded, none otherwise")
    r.rule("R2", "regular expressions are compiled unfolded with the flag of the mode")
    r.rule("R3", "smart decides by the absence of uppercase letters in the given text")
    r.floor = 40
    for ci, ops in p04.families(r.p):
        if ops is p04.STR:
            for op in ops:
                for mode in MODES:
                    case(r, ci, op, mode)
                words(r, ci, op)


def folds(t, base):
    """Fold methods applied to the base term, None if it is not derived from it that way."""
    out = []
    while isinstance(t, T) and t != base:
        if t.op == "pure" and t.args[0] in (".lower", ".casefold", ".upper", ".strip"):
            out.append(t.args[0])
            t = t.args[1]
        elif t.op == "str":
            t = t.args[0]
        else:
            return None
    return tuple(sorted(set(out))) if t == base else None


# texts by the presence of uppercase letters
PLAIN = ("abc", "", "a1_.", "\xe4\xf6\xfc", "\u65e5\u672c", "a b", "\u03c3", "7")
UPPER = ("aBc", "ABC", "\xc4b", "b\xc4", "\u03a3", "a\nB", "\u042f1", "abcdefghijklmnopqrstuvwxyZ")


def shape(s, v, depth=8):
    """What a value consists of, comparable between states."""
    if depth == 0:
        return "..."
    if isinstance(v, Tup):
        return ("tuple",) + tuple(shape(s, x, depth - 1) for x in v.items)
    if isinstance(v, Ref):
        o = s.heap.get(v.id)
        if isinstance(o, ListObj):
            return (o.kind,) + tuple(shape(s, x, depth - 1) for x in o.items)
        if isinstance(o, InstObj):
            return ("instance", o.cls.qual if hasattr(o.cls, "qual") else repr(o.cls)) + tuple(sorted(
                (n, shape(s, x, depth - 1)) for (b, n), x in s.fields.items() if b == v))
        return repr(o)
    return repr(v)


def words(r, ci, op):
    """Smart with a given text is the mode that the text asks for."""
    p = r.p
    fi = p.func("libff.parser:Parser.create_test")
    for text, mode in [(t, "ignore") for t in PLAIN] + [(t, "sensitive") for t in UPPER]:
        sub = f"{ci.name} {op} {text!r}"
        with r.guard("R3", sub):
            outs = []
            for m in ("smart", mode):
                ip = r.interp(hooks={"libff.registry:Registry.get_attribute_type":
                                     lambda ip, s, c: [(s, Fn("class", ci))]}, fold_re=True,
                              opaque=lambda f: f.cls is not None and f.cls.name == "Glob" and f.name != "__init__")
                outs.append({repr(v) if isinstance(v, Raised) else shape(s, v) for s, v in r.run(
                    fi, [obj(p, "libff.parser:Parser"), T("sym", "attribute"), C(op), C(None), C(text)],
                    st=new_state().setfield(ARGS, "case", C(m)), ip=ip)})
            if len(outs[1]) != 1:
                r.skip("R3", sub, f"{len(outs[1])} outcomes")
                continue
            r.check(outs[0] == outs[1], "R3", sub, f"smart case does not treat the text as --case={mode} does",
                    fi.loc, f"{sorted(outs[0], key=repr)} instead of {sorted(outs[1], key=repr)}")


# classes of texts: (has uppercase letters, has lowercase letters)
CLASSES = [(u, low) for u in (True, False) for low in (True, False)]
PREDICATES = {".islower": lambda u, low: low and not u, ".isupper": lambda u, low: u and not low}
EQUALS = {(".lower",): lambda u, low: not u, (".casefold",): lambda u, low: not u,
          (".upper",): lambda u, low: not low}


def text_classes(s):
    """Classes of the given text that are consistent with the path; None if a fact is unknown."""
    out = list(CLASSES)
    for k, f in s.facts.items():
        terms = [x for x in k[1:] if isinstance(x, (T, C))]
        if not any(mentions(x, TEXT) for x in terms) or any(mentions(x, V) for x in terms) or \
                any(mentions(x, T("attr", p04.ENTRY, "name")) for x in terms):
            continue
        pred = None
        if k[0] == "eq" and len(k) == 3 and TEXT in k[1:]:
            pred = EQUALS.get(folds(k[1] if k[2] == TEXT else k[2], TEXT))
        elif k[0] == "truth" and isinstance(k[1], T) and k[1].op in ("pure", "call") and \
                k[1].args[1:2] == (TEXT,):
            pred = PREDICATES.get(k[1].args[0])
        elif k[0] in ("truth", "val", "neq", "isinstance") and (k[1] == TEXT or "re.compile" in
                                                                repr(k[1]) or "Glob" in repr(k[1])):
            continue
        elif k[0] in ("truth", "val", "neq") and folds(k[1], TEXT) is not None:
            continue
        if pred is None:
            return None
        out = [c for c in out if pred(*c) == f]
    return out


def case(r, ci, op, mode):
    p = r.p
    sub = f"{ci.name} {op} --case={mode}"
    rule = "R2" if op == "~" else "R1"
    where = "libff.parser:Parser.create_test"
    with r.guard(rule, sub):
        islist = p.issub(ci, p.cls("libff.type:ListOfStrings"))
        ispath = p.issub(ci, p.cls("libff.type:Path"))
        hooks = {"libff.registry:Registry.get_attribute_type": lambda ip, s, c: [(s, Fn("class", ci))],
                 "re.error": lambda ip, s, c: None}
        ip = r.interp(hooks=hooks, types={p04.ENTRY: p.cls("libff.entry:Entry")},
                      opaque=lambda f: f.name == "is_dir" or f.cls is not None and f.cls.name == "Glob")
        st = new_state().setfield(ARGS, "case", C(mode))
        parser = obj(p, "libff.parser:Parser")
        res = r.run("libff.parser:Parser.create_test",
                    [parser, T("sym", "attribute"), C(op), C(None), TEXT], st=st, ip=ip)
        seen = 0
        for s0, test in res:
            if isinstance(test, Raised):
                continue
            s1, value = s0, V
            if islist:
                s1, value = s0.new(ListObj((V,)))
            out = ip.call_func(p.find_method(ci, "test"), [Fn("class", ci), p04.ENTRY, test, value],
                               {}, s1, None)
            for s, v in decided(ip, out):
                if isinstance(v, Raised):
                    r.bad("R1", sub, f"the comparison fails with {v.exc.name}", where, describe(s))
                    continue
                if mode == "smart":
                    classes = text_classes(s)
                    if classes is None:
                        r.skip("R3", sub, "smart case is decided in an unknown way")
                        continue
                    if not classes:
                        continue                     # infeasible
                    wants = {not u for u, _ in classes}
                    r.check(len(wants) == 1, "R3", sub, "smart case does not distinguish texts "
                            "with uppercase letters from texts without", where, describe(s))
                    if len(wants) != 1:
                        continue
                    want = wants.pop()
                else:
                    want = mode == "ignore"
                got = consistent(r, sub, op, s, ispath)
                if got is None:
                    r.skip(rule, sub, "comparison of an unknown form")
                    continue
                seen += 1
                good, text = got[want]
                r.check(good, rule, sub, f"{'case is to be disregarded' if want else 'case counts'}"
                        f" but {text}", where, describe(s))
        if not seen:
            r.skip(rule, sub, "no comparison found")


def compiled(t):
    """(pattern term, flags) of a compiled regular expression."""
    if isinstance(t, T) and any(isinstance(a, str) and a.endswith("re.compile") for a in t.args):
        rest = [a for a in t.args if isinstance(a, (T, C)) and a != C(None)]
        return (rest[0], rest[1:]) if rest else None
    return None


def consistent(r, sub, op, s, ispath):
    """{want folded: (good, explanation)} for the comparison on this path, None if not found."""
    for k, f in s.facts.items():
        terms = [x for x in k[1:] if isinstance(x, T)]
        if k[0] == "eq" and op == "=" or k[0] == "in" and op == ":":
            if len(k) != 3:
                continue
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                fa, fb = folds(a, TEXT), folds(b, V)
                if fa is not None and fb is not None:
                    return both(fa, fb)
        elif k[0] in ("truth", "val", "neq") and op in ("~", "%") and terms:
            t = terms[0]
            if op == "~":
                for sub_ in walk_terms(t):
                    c = compiled(sub_)
                    if c is None or not mentions(c[0], TEXT):
                        continue
                    fa = folds(c[0], TEXT)
                    if fa is None:
                        return {w: (False, f"the text of the pattern is altered: {short(c[0])}")
                                for w in (True, False)}
                    fv = value_fold(t, V)
                    return regex_case(fa, c[1], fv)
            elif "match" in str(t.args[0] if t.args else "") or t.op == "call":
                ops = [a for a in walk_terms(t)]
                glob = [a for a in ops if isinstance(a, T) and a.op == "new" and "Glob" in repr(a)]
                if not glob:
                    continue
                fa = [folds(a, TEXT) for a in glob[0].args if isinstance(a, T)]
                fa = [x for x in fa if x is not None]
                rest = [a for a in t.args if isinstance(a, T) and a not in glob]
                fv = [folds(a, V) for a in rest]
                fn = [folds(a, T("attr", p04.ENTRY, "name")) for a in rest]
                fv = [x for x in fv + fn if x is not None]
                if not fa or not fv:
                    continue
                if len(set(fv)) > 1:
                    return {w: (False, f"the path is folded with {fv[0]} but the name with {fv[-1]}")
                            for w in (True, False)}
                return both(fa[0], fv[0])
    return None


def value_fold(t, base):
    for a in walk_terms(t):
        f = folds(a, base) if isinstance(a, T) else None
        if f:
            return f
    return ()


def both(fa, fb):
    text = f"the given text is folded with {fa or 'nothing'} and the value with {fb or 'nothing'}"
    return {True: (bool(fa) and fa == fb, text), False: (not fa and not fb, text)}


def regex_case(fa, flags, fv):
    flagged = None
    for x in flags:
        if isinstance(x, C) and x.v == 0:
            flagged = False
        elif "IGNORECASE" in repr(x) or repr(x).endswith("re.I") or isinstance(x, C) and x.v == 2:
            flagged = True
    if flagged is None:
        flagged = False
    text = f"the pattern is folded with {fa or 'nothing'}, the value with {fv or 'nothing'} and " \
           f"IGNORECASE is {'set' if flagged else 'not set'}"
    return {True: (not fa and flagged, text), False: (not fa and not fv and not flagged, text)}
