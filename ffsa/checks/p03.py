"""P03: test expressions have their documented Boolean meaning."""
import itertools
import re

from ..lib import *
from ..report import new_state
from ..values import C, Exc, ListObj, Raised, T, Tup
from .p01 import decided

EXPLANATION = (
    "Abstract interpretation of the expression parser and the evaluator over token classes: test words "
    "are generic symbols (any text that is not a keyword), keywords and brackets are token classes; "
    "every sequence of token classes up to the bound is pushed through parser, optimizer and "
    "evaluator, and the resulting verdict is compared with the documented grammar on every path, i.e. "
    "for every combination of outcome true / false / attribute missing of the tests.")

PARSER = "libff.parser:Parser"
KEY = ("AND", "OR", "NOT", "(", ")", "{{", "}}")
REJECT, UNSPEC = "reject", "unspecified"


def run(r):
    r.rule("R1", "every well-formed token sequence is accepted and evaluates as documented")
    r.rule("R2", "a malformed token sequence is rejected with an error of the parser")
    r.rule("R3", "no tests at all match every entry")
    r.rule("R4", "optimizing a sequence only permutes it")
    r.rule("R5", "a rejected expression ends in a usage error")
    r.rule("R6", "depth ranges are an additional condition for every result of the tests, malformed tests stay so")
    r.floor = 400
    n = 5 if r.thorough else 4
    alphabet = ("w", "AND", "OR", "NOT", "(", ")")
    for k in range(n + 1):
        for seq in itertools.product(alphabet, repeat=k):
            judge(r, seq)
    # longer sequences: interesting shapes
    for text in SHAPES + (DEEP if r.thorough else ()):
        judge(r, tuple(text.split()))
    optimize(r)
    errors(r)
    for ranges in RANGES:
        for k in range(n):
            for seq in itertools.product(alphabet, repeat=k):
                if len(seq) < 3 or ranges == RANGES[0]:
                    embedded(r, ranges, seq)
        for text in SHAPES + CLOSERS:
            embedded(r, ranges, tuple(text.split()))


RANGES = (((1, 1),), ((0, 2), (4, 4)), ((3, None),))
CLOSERS = ("w ) OR ( w", "w }} OR {{ w", "w }} {{ w", "w ) w ( w", "w ) ) OR ( ( w", "( w ) ) OR ( w",
           "w }} OR ( w", "w ) OR {{ w", "w ) NOT ( w", "NOT w }} OR NOT {{ w", "w ) ( w OR w", "w OR w ) ( w")
SHAPES = (
    "w OR w AND w", "w AND w OR w", "NOT w OR w w", "w OR NOT w w", "( w OR w ) w", "w ( w OR w )",
    "NOT ( w OR w )", "NOT ( w w )", "NOT ( w OR w ) w", "( w OR w ) OR w", "w w OR w w",
    "( ( w ) )", "( w ) ( w )", "( w OR w ) ( w OR w )", "NOT ( NOT w )", "NOT ( NOT w OR w )",
    "( NOT ( w ) ) w", "{{ w OR w }} w", "NOT {{ w OR w }}", "w or w and w", "not w", "not ( w or w )",
    "{{ w }}", "( w OR ( w w ) ) w", "NOT ( w ( w OR w ) )", "w NOT ( w ) w", "NOT ( w ) OR w",
    "( OR w )", "( w OR OR w )", "( w OR )", "w OR OR w", "( w OR w ) )", "( ( w OR w )", "{{ }}",
    "NOT ( )", "w NOT", "NOT OR w", "( NOT )", "NOT ( w", "w OR ( )", "( ( OR w ) )", "NOT ( OR w )",
    "{{ OR w }}", "w OR ( OR w )", "( w ) )", "w OR", "OR w", "NOT )", "NOT }}",
)
DEEP = (
    "( ( ( w OR w ) w ) OR w )", "NOT ( ( w OR w ) ( w OR w ) )", "( w ( w OR ( w w ) ) )",
    "w OR w OR w OR w", "NOT w NOT w OR NOT w", "( NOT w OR NOT w ) NOT ( w w )",
    "( w OR w OR OR w )", "( ( w OR w ) OR )", "w OR ( w w OR ( w OR NOT ( w OR w ) ) )",
)


# ------------------------------------------------------------------ the documented grammar
def reference(seq, alike=False):
    """A nested ('or'|'and'|'not'|'w', ...) tree, REJECT or UNSPEC; `alike`: both kinds of brackets are the same."""
    toks = [t.upper() for t in seq]
    pos = 0
    words = itertools.count()
    misplaced = False

    class Bad(Exception):
        pass

    def expr(close):
        nonlocal pos, misplaced
        alts, cur, last = [], [], None
        while True:
            t = toks[pos] if pos < len(toks) else None
            if t is None or t in (")", "}}"):
                break
            pos += 1
            if t == "AND":
                if last != "unit":
                    misplaced = True
                last = "and"
            elif t == "OR":
                if last == "and":
                    misplaced = True
                if not cur:
                    raise Bad()
                alts.append(cur)
                cur, last = [], "or"
            elif t == "NOT":
                cur.append(("not", operand()))
                last = "unit"
            elif t in ("(", "{{"):
                cur.append(group(t))
                last = "unit"
            else:
                cur.append(("w", next(words)))
                last = "unit"
        if last == "and":
            misplaced = True
        if not cur and (alts or close):
            raise Bad()
        alts.append(cur)
        return ("or",) + tuple(("and",) + tuple(a) for a in alts)

    def operand():
        nonlocal pos, misplaced
        if pos >= len(toks):
            raise Bad()
        t = toks[pos]
        if t in ("AND", "NOT"):
            misplaced = True
            raise Bad()
        if t in ("OR", ")", "}}"):
            raise Bad()
        pos += 1
        if t in ("(", "{{"):
            return group(t)
        return ("w", next(words))

    def group(opening):
        nonlocal pos, misplaced
        e = expr(True)
        if pos >= len(toks):
            raise Bad()
        if not alike and (opening == "(") != (toks[pos] == ")"):
            misplaced = True                 # mixed brackets: not specified
        pos += 1
        return e
    try:
        tree = expr(False)
        if pos < len(toks):
            raise Bad()
    except Bad:
        return UNSPEC if misplaced else REJECT
    return UNSPEC if misplaced else tree


def value(tree, outcome):
    """Three-valued evaluation: None if the outcome of a needed test is unknown."""
    if tree[0] == "w":
        return outcome[tree[1]]
    if tree[0] == "not":
        v = value(tree[1], outcome)
        return None if v is None else not v
    vals = [value(t, outcome) for t in tree[1:]]
    if tree[0] == "or":
        return True if True in vals else None if None in vals else False
    return False if False in vals else None if None in vals else True


# ------------------------------------------------------------------ the code
def word(i):
    return T("sym", f"word{i}")


def facts_for(st, n):
    for i in range(n):
        w = word(i)
        for f in (w, T("pure", ".upper", w), T("pure", ".lower", w), T("pure", ".strip", w),
                  T("pure", ".casefold", w)):
            for k in KEY:
                for form in {k, k.lower()}:
                    st = st.fact(("neq", f, C(form)), True)
            st = st.fact(("truth", f), True)
    return st


def parsers(p):
    return {c.qual for b in (PARSER, "libff.filter:Filter") for c in p.subclasses(p.cls(b))}


def judge(r, seq):
    sub = " ".join(seq) or "(no tests)"
    tree = reference(seq)
    n = seq.count("w")
    toks, i = [], 0
    for t in seq:
        if t == "w":
            toks.append(word(i))
            i += 1
        else:
            toks.append(C(t))
    rule = "R2" if tree == REJECT else "R3" if not seq else "R1"
    with r.guard(rule, sub):
        st = facts_for(new_state(), n)
        st, lst = st.new(ListObj(tuple(toks)))
        tcls = r.p.cls("libff.parser:Test")
        tests = [T("sym", f"test<word{i}>") for i in range(n)]

        def parse_test(ip, s, call):
            w = call.args[-1]
            if w not in [word(i) for i in range(n)]:
                return [(s, Raised(Exc("ExpressionError", (), call.node)))]
            return [(s, tests[int(w.args[0][4:])])]
        hooks = {PARSER + ".parse_test": parse_test,
                 "libff.parser:Parser.get_speed_score": lambda ip, s, c: [(s, T("call", "speed", *c.args, C(0)))],
                 "libff.registry:Registry.get_attribute_and_type": attribute_hook(tests)}
        ip = r.interp(hooks=hooks, types={t: tcls for t in tests}, max_loop=40, inst=parsers(r.p),
                      recursion=30, depth=80)
        m = obj(r.p, "libff.filter:Matcher")
        outs = r.run("libff.filter:Matcher.__init__", [m, CTX, lst], st=st, ip=ip)
        for s, v in outs:
            if isinstance(v, Raised):
                name = v.exc.name
                if tree == REJECT:
                    r.check(name in ("ParserError", "ExpressionError", "UsageError"), "R2", sub,
                            f"rejected with {name}", PARSER, describe(s))
                elif tree == UNSPEC:
                    r.check(name in ("ParserError", "ExpressionError", "UsageError"), "R2", sub,
                            f"fails with {name}", PARSER, describe(s))
                else:
                    r.bad(rule, sub, f"a well-formed expression is rejected with {name}", PARSER,
                          describe(s))
                continue
            if tree == REJECT:
                r.bad("R2", sub, "a malformed expression is accepted", PARSER, describe(s))
                continue
            if tree == UNSPEC:
                r.ok("R2", sub)
                continue
            # the constructor may have installed the test for the empty list of tests
            f = s.fields.get((m, "test"))
            if f is not None:
                res = ip.call_value(f, [T("sym", "entry")], {}, s, None)
            else:
                res = ip.call_func(r.p.func("libff.filter:Matcher.test"), [m, T("sym", "entry")], {},
                                   s, None)
            got_any = False
            for x, v in decided(ip, res):
                got_any = True
                if isinstance(v, Raised):
                    r.bad(rule, sub, f"the evaluation fails with {v.exc.name}", "libff.filter",
                          describe(x))
                    continue
                outcome = [verdict(x, t) for t in tests]
                want = value(tree, outcome)
                if want is None:
                    r.bad(rule, f"{sub} with {outcome}", f"the verdict {v.v} is given although it "
                          f"depends on tests that were not evaluated", "libff.filter", describe(x))
                else:
                    r.check(v.v == want, rule, f"{sub} with {outcome}",
                            f"'{sub}' with outcomes {outcome} gives {v.v}", "libff.filter",
                            describe(x))
            r.account(ip, len(res))
            if not got_any:
                r.bad(rule, sub, "the evaluation does not return", "libff.filter")


def attribute_hook(tests):
    def hook(ip, st, call):
        a = call.args[-1]
        t = [t for t in tests if a == T("attr", t, "attribute")]
        if not t:
            return None
        out = []
        for avail in ([st.facts[("avail", t[0])]] if ("avail", t[0]) in st.facts else (True, False)):
            x = st.fact(("avail", t[0]), avail)
            if avail:
                out.append((x, Tup((T("sym", f"value<{t[0]!r}>"), T("sym", f"type<{t[0]!r}>")))))
            else:
                out.append((x, Raised(Exc("KeyError", (), call.node))))
        return out
    return hook


def verdict(st, t):
    a = st.facts.get(("avail", t))
    if a is False:
        return False
    for k, f in st.facts.items():
        if k[0] == "truth" and isinstance(k[1], T) and k[1].op == "call" and t in k[1].args:
            return f
    return None


# ------------------------------------------------------------------ depth ranges
POST = "libff.arguments:ArgumentsPostProcessor"


def depth_token(t):
    """(low, high) of a test of the depth, or None."""
    if not isinstance(t, C) or not isinstance(t.v, str):
        return None
    m = re.fullmatch(r"(?:file\.)?depth(=|\+=|-=|>=|<=|\+|-|>|<)(\d+)", t.v)
    if m is None:
        return None
    n = int(m[2])
    return {"=": (n, n), "+=": (n, None), ">=": (n, None), "-=": (0, n), "<=": (0, n), "+": (n + 1, None),
            ">": (n + 1, None), "-": (0, n - 1), "<": (0, n - 1)}[m[1]]


def inside(depth, low, high):
    return low <= depth and (high is None or depth <= high)


def embedded(r, ranges, seq):
    """The tests with the depth ranges are the conjunction of both."""
    text = ",".join(f"{a}-{'' if b is None else b}" for a, b in ranges)
    sub = f"-d {text} {' '.join(seq)}".rstrip()
    own = reference(seq, True)
    if own == UNSPEC:
        return
    with r.guard("R6", sub):
        n = seq.count("w")
        toks, i = [], 0
        for t in seq:
            toks.append(word(i) if t == "w" else C(t))
            i += t == "w"
        st = facts_for(new_state(), n)
        st, lst = st.new(ListObj(tuple(toks)))
        st, d = st.new(ListObj(tuple(Tup((C(a), C(b))) for a, b in ranges)))
        st, ex = st.new(ListObj(()))
        me = obj(r.p, POST)
        st = st.setfield(me, "args", ARGS)
        for k, v in (("depth", d), ("exclude", ex), ("tests", lst)):
            st = st.setfield(ARGS, k, v)
        seen = 0
        fi = r.p.func(POST + ".process_depth_argument")
        for s, v in r.run(fi, [me], st=st, ip=r.interp(max_loop=40, max_elems=40, fold_re=True)):
            if isinstance(v, T) and v.op == "cut":
                continue
            seen += 1
            if isinstance(v, Raised):
                r.check(own == REJECT and v.exc.name in ("UsageError", "ParserError", "ExpressionError"), "R6", sub,
                        f"well-formed tests end with {v.exc.name}", fi.loc, describe(s))
                continue
            its = items(s, s.fields.get((ARGS, "tests")))
            if its is None:
                r.skip("R6", sub, "the tests are not a list")
                continue
            kinds, what = [], []
            for t in its:
                if isinstance(t, T) and t in [word(i) for i in range(n)]:
                    kinds.append("w")
                    what.append(t)
                elif depth_token(t) is not None:
                    kinds.append("w")
                    what.append(depth_token(t))
                elif isinstance(t, C) and isinstance(t.v, str) and t.v.upper() in KEY:
                    kinds.append(t.v)
                else:
                    kinds = None
                    break
            if kinds is None:
                r.skip("R6", sub, f"the tests become {its!r}")
                continue
            tree = reference(tuple(kinds), True)
            if own == REJECT:
                r.check(tree == REJECT, "R6", sub, f"malformed tests become the valid '{' '.join(kinds)}'", fi.loc,
                        describe(s))
                continue
            if tree in (REJECT, UNSPEC):
                r.bad("R6", sub, f"well-formed tests become '{' '.join(kinds)}'", fi.loc, describe(s))
                continue
            wrong = None
            for depth in range(6):
                for outs in itertools.product((True, False), repeat=n):
                    look = [inside(depth, *w) if isinstance(w, tuple) else outs[int(w.args[0][4:])] for w in what]
                    good = any(inside(depth, *x) for x in ranges) and (value(own, outs) if n else True)
                    if value(tree, look) != good:
                        wrong = (depth, outs)
            r.check(wrong is None, "R6", sub, f"the tests become '{' '.join(kinds)}', which is wrong for (depth, "
                    f"outcomes) {wrong}", fi.loc, describe(s))
        if not seen:
            r.skip("R6", sub, "no outcome")


# ------------------------------------------------------------------ optimizer, errors
def optimize(r):
    """The optimizer may reorder a sequence, nothing else."""
    with r.guard("R4", "optimizer"):
        fi = r.p.func(PARSER + ".optimize")
        tcls = r.p.cls("libff.parser:Test")
        tests = [T("sym", f"t{i}") for i in range(3)]
        for kind, score in (("any scores", lambda c: T("call", "speed", *c.args, C(0))),
                            ("equal scores", lambda c: C(1))):
            st, inner = new_state().new(ListObj(tuple(tests[:2])))
            st, outer = st.new(ListObj((inner, tests[2])))
            ip = r.interp(types={t: tcls for t in tests}, inst=parsers(r.p),
                          hooks={"libff.parser:Parser.get_speed_score":
                                 lambda ip, s, c, score=score: [(s, score(c))]})
            for s, v in r.run(fi, [obj(r.p, PARSER), outer], st=st, ip=ip):
                sub = f"optimizer, {kind}"
                if isinstance(v, Raised):
                    r.bad("R4", sub, f"the optimizer fails with {v.exc.name}", fi.loc)
                    continue
                for ref, want in ((outer, [inner, tests[2]]), (inner, tests[:2])):
                    got = flat(s, ref)
                    r.check(sorted(map(repr, got)) == sorted(map(repr, want)), "R4", sub,
                            f"optimizing turns {want} into {got}", fi.loc, describe(s))


def flat(s, ref):
    its = items(s, ref)
    out = []
    for x in its or ():
        t = getattr(x, "term", None)
        while isinstance(t, T) and t.op == "pure":
            t = t.args[2]
        if isinstance(t, T) and t.op == "list":
            out += list(t.args)
        else:
            out.append(x)
    return out


def errors(r):
    """ParserError is turned into a usage error where the filters are set up."""
    base = T("new", r.p.cls("libff.main:_Base"), C(0))
    perr = r.p.cls("libff.parser:ParserError")
    for cls, name in (("libff.filter:Matcher", "tests"), ("libff.filter:Excluder", "exclude")):
        with r.guard("R5", name):
            st = new_state()
            for k in ("action", "help", "count", "exec", "exec_batch", "sort", "cache"):
                st = st.setfield(ARGS, k, C(None))

            def fail(ip, s, call):
                return [(s.fact(("failed", cls), True), Raised(Exc(perr, (C("x"),), call.node)))]
            seen = 0
            for s, v in r.run("libff.main:_Base.setup_components", [base], st=st, hooks={cls: fail},
                              opaque=lambda fi: fi.name in ("get_file_attributes",)):
                if ("failed", cls) not in s.facts:
                    continue
                seen += 1
                r.check(isinstance(v, Raised) and v.exc.name == "UsageError", "R5", name,
                        f"a rejected expression in {name} ends in {raised_name(v) or v}", "libff.main", describe(s))
            r.check(seen > 0, "R5", f"{name} parsed", "the filter is never set up", "libff.main")
