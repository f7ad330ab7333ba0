"""P01: exclusion prunes whole subtrees."""
import re

from .. import walkcore
from ..lib import *
from ..report import new_state
from ..values import C, DictObj, Fn, ListObj, Raised, Ref, Splice, T, Tup

EXPLANATION = (
    "Path-sensitive abstract interpretation of the entry loop of a worker for generic entries: for "
    "every combination of exclusion verdict, match verdict and entry kind each abstract path is "
    "classified by what reaches the result and what is queued for descending. The exclusion test "
    "itself is decided as a truth table over 0..2 generic exclusion expressions with missing "
    "attributes, and every command line switch that excludes entries is traced to the exclusion "
    "expression it must contribute and to the consumer of that list.")

POST = "libff.arguments:ArgumentsPostProcessor"


def run(r):
    r.rule("R1", "an excluded entry is neither put out nor descended into")
    r.rule("R2", "an entry is only put out or descended into after the exclusion test said no")
    r.rule("R3", "the exclusion test is true iff one of the expressions matches; a missing attribute "
                 "never excludes")
    r.rule("R4", "every excluding switch contributes its exclusion expression, and only then")
    r.rule("R5", "the exclusion list reaches the exclusion filter, which every worker consults")
    r.rule("R6", "exclusion attributes are computed from the entry's own data")
    r.floor = 30
    entry_loop(r)
    excluder(r)
    options(r)
    wiring(r)
    attributes(r)


def entry_loop(r):
    for share in (False, True):
        with r.guard("R1", f"entry loop share={share}"):
            for s in walkcore.summaries(r, 3 if share or r.thorough else 2, share):
                sub = walkcore.subject(s)
                for ev in s.unknown:
                    r.skip("R1", sub, f"unclassified message at {ev.where}")
                for i, e in enumerate(s.entries):
                    out = [ev for x, ev in s.processed if x == e]
                    down = [ev for d, ev in s.dirs_of(e)] + \
                        [ev for d, ev in s.searched if d.items[1] != T("attr", e, "relpath") and
                         mentions(d, e)]
                    name = f"entry{i} {sub}" if len(sub) < 250 else f"entry{i}"
                    if s.excluded[e]:
                        r.check(not out, "R1", name + " output", "an excluded entry is put out",
                                out and out[0].where, describe(s.st))
                        r.check(not down, "R1", name + " descend", "an excluded directory is "
                                "descended into", down and down[0].where, describe(s.st))
                    elif s.excluded[e] is None:
                        r.check(not out and not down, "R2", name, "an entry is processed without "
                                "consulting the exclusion filter",
                                (out + down) and (out + down)[0].where, describe(s.st))
                    else:
                        r.ok("R2", name)


def get_value_hook(ip, st, call):
    """Fetching an attribute value: available or missing."""
    test_attr = call.args[2] if len(call.args) > 2 else call.kw.get("attribute")
    k = ("avail", test_attr)
    out = []
    for avail in ([st.facts[k]] if k in st.facts else [True, False]):
        x = st.fact(k, avail)
        if avail:
            out.append((x, Tup((T("sym", f"value<{test_attr!r}>"), T("sym", f"type<{test_attr!r}>")))))
        else:
            from ..values import Exc
            out.append((x, Raised(Exc("KeyError", (), call.node))))
    return out


def excluder(r):
    q = "libff.filter:Excluder"
    cls = r.p.cls(q)
    tests = [T("sym", f"test{i}") for i in range(3 if r.thorough else 2)]
    for n in range(len(tests) + 1):
        sub = f"exclusion filter, {n} expressions"
        with r.guard("R3", sub):
            st = new_state()
            st, lst = st.new(ListObj(tuple(tests[:n])))
            st, outer = st.new(ListObj((lst,)))
            ex = obj(r.p, q)
            st = st.setfield(ex, "parser", outer)
            ip = r.interp(hooks={"libff.registry:Registry.get_attribute_and_type": get_value_hook})
            for s, v in decided(ip, r.run(q + ".test", [ex, T("sym", "entry")], st=st, ip=ip)):
                if isinstance(v, Raised):
                    r.bad("R3", sub, f"the exclusion test raises {v.exc.name}", path=describe(s))
                    continue
                verdicts = []
                for t in tests[:n]:
                    avail = s.facts.get(("avail", T("attr", t, "attribute")))
                    tt = None
                    for k, f in s.facts.items():
                        if k[0] == "truth" and isinstance(k[1], T) and k[1].op == "call" and \
                                t in k[1].args:
                            tt = f
                    verdicts.append(False if avail is False else tt)
                want = True if True in verdicts else (None if None in verdicts else False)
                got = truth_fact(s, v)
                if got is None or want is None:
                    # a definite True needs a definite witness
                    if got is True or want is None and got is False:
                        r.bad("R3", f"{sub} {verdicts}", "the verdict does not follow from the "
                              f"expressions: {verdicts} gives {got}", path=describe(s))
                    else:
                        r.skip("R3", f"{sub} {verdicts}", f"verdict {v!r}")
                    continue
                r.check(got == want, "R3", f"{sub} {verdicts}",
                        f"expressions {verdicts} give {got}", q + ".test", describe(s))
    # an empty list of expressions excludes nothing; a non-empty list is never short-cut
    with r.guard("R3", "empty exclusion list"):
        short = cls and r.p.find_method(cls, "test_empty")
        if short is not None:
            for s, v in r.run(short, [obj(r.p, q), T("sym", "entry")]):
                r.check(truth_fact(s, v) is False, "R3", "empty exclusion list",
                        "an empty exclusion list excludes entries", short.loc, describe(s))
        init = r.p.func(q + ".__init__")
        for n in (0, 1):
            st = new_state()
            st, seq = st.new(ListObj(tuple(T("sym", f"test{i}") for i in range(n))))
            st, outer = st.new(ListObj((seq,)))
            hook = {"libff.parser:Parser": lambda ip, s, c, o=outer: [(s, o)]}
            for s, v in r.run(init, [obj(r.p, q), CTX, T("sym", "tokens")], st=st, hooks=hook):
                if isinstance(v, Raised):
                    continue
                stores = [e for e in s.events() if e.kind == "store" and e.name == "test"]
                if n:
                    r.check(not stores, "R3", f"filter set up with {n} expressions",
                            "a non-empty exclusion list is replaced by the empty test",
                            stores and stores[0].where, describe(s))
                else:
                    r.ok("R3", "filter set up without expressions")


SWITCHES = {"ignore": "ignored=yes", "one_file_system": "samedev=no", "hide": "hide=yes"}


def post_process(r, flags, depth=None, exclude=()):
    """Interpret the argument post processing with the given switch values."""
    st = new_state()
    st, ex = st.new(ListObj(tuple(exclude)))
    st, tests = st.new(ListObj((T("sym", "user_test"),)))
    st, dirs = st.new(ListObj((T("sym", "dir0"),)))
    for k, v in flags.items():
        st = st.setfield(ARGS, k, C(v))
    st = st.setfield(ARGS, "exclude", ex)
    st = st.setfield(ARGS, "tests", tests)
    st = st.setfield(ARGS, "directories", dirs)
    if depth is None:
        st = st.setfield(ARGS, "depth", C(None))
    else:
        st, d = st.new(ListObj(tuple(Tup(x) for x in depth)))
        st = st.setfield(ARGS, "depth", d)
    for k in ("count", "exec", "exec_batch", "limit", "sort", "json", "profile"):
        st = st.setfield(ARGS, k, C(None))
    st, outp = st.new(ListObj((C("path"),)))
    st = st.setfield(ARGS, "output", outp)
    cls = r.p.cls(POST)
    post = T("new", cls, C(0))
    st = st.setfield(post, "args", ARGS)
    out = []
    for s, v in r.run(POST + ".process", [post], st=st):
        lst = s.fields.get((ARGS, "exclude"))
        out.append((s, v, items(s, lst) if lst is not None else None, s.fields.get((ARGS, "tests"))))
    return out


def options(r):
    import itertools
    user = T("sym", "user_exclude")
    for combo in itertools.product([False, True], repeat=3):
        flags = dict(zip(SWITCHES, combo))
        sub = " ".join(f"{k}={v}" for k, v in flags.items())
        with r.guard("R4", sub):
            for s, v, ex, _ in post_process(r, flags, exclude=(user,)):
                if isinstance(v, Raised):
                    continue
                if ex is None:
                    r.skip("R4", sub, "the exclusion list has an unknown shape")
                    continue
                r.check(user in ex, "R4", sub + " user expression",
                        "the user's own exclusion expressions are lost", POST, describe(s))
                for k, expr in SWITCHES.items():
                    norm = [normal(x.v) for x in ex if isinstance(x, C) and isinstance(x.v, str)]
                    has = any(equivalent(x, expr) for x in norm)
                    if flags[k]:
                        r.check(has, "R4", f"{sub} -> {expr}",
                                f"switch {k} does not add an exclusion for {expr} (list: {ex})",
                                POST, describe(s))
                    else:
                        r.check(not has, "R4", f"{sub} -> no {expr}",
                                f"{expr} is excluded without switch {k}", POST, describe(s))
    s0, e0, s1, e1 = (T("sym", n) for n in ("start0", "stop0", "start1", "stop1"))
    base = {k: False for k in SWITCHES}
    for name, ranges, bounded in (
            ("one bounded range", [(s0, e0)], True), ("one open range", [(s0, C(None))], False),
            ("two bounded ranges", [(s0, e0), (s1, e1)], True),
            ("bounded and open range", [(s0, e0), (s1, C(None))], False),
            ("open and bounded range", [(s0, C(None)), (s1, e1)], False)):
        sub = f"depth {name}"
        with r.guard("R4", sub):
            stops = [b for _, b in ranges if b != C(None)]
            for s, v, ex, _ in post_process(r, base, depth=ranges):
                if isinstance(v, Raised):
                    if v.exc.name == "UsageError":
                        continue
                    r.bad("R4", sub, f"raises {v.exc.name}", POST, describe(s))
                    continue
                if any(("val", b) in s.facts and s.facts[("val", b)] == C(None) for b in stops):
                    continue
                depth_ex = [x for x in ex or () if "depth" in repr(x)]
                if not bounded:
                    r.check(not depth_ex, "R4", sub, "an open range excludes deep entries: "
                            f"{depth_ex}", POST, describe(s))
                    continue
                m = re.fullmatch(r"(\D+)(\d+)", normal(depth_ex[0].v)) if len(depth_ex) == 1 and \
                    isinstance(depth_ex[0], C) else None
                if m:
                    r.check(m[1] in ("depth+", "depth>"), "R4", sub,
                            f"exclusion {depth_ex[0]!r} does not mean 'deeper than'", POST)
                    largest(r, s, sub, C(int(m[2])), stops)
                    continue
                if len(depth_ex) != 1 or not isinstance(depth_ex[0], T) or \
                        depth_ex[0].op != "fstr" or not isinstance(depth_ex[0].args[0], C):
                    if not depth_ex:
                        r.bad("R4", sub, "no exclusion of entries below the deepest level", POST,
                              describe(s))
                    else:
                        r.skip("R4", sub, f"depth exclusion {depth_ex}")
                    continue
                head, bound = normal(depth_ex[0].args[0].v), depth_ex[0].args[1:]
                if len(bound) != 1:
                    r.skip("R4", sub, f"depth exclusion {depth_ex}")
                    continue
                r.check(head in ("depth+", "depth>"), "R4", sub,
                        f"exclusion {depth_ex[0]!r} does not mean 'deeper than'", POST, describe(s))
                largest(r, s, sub, bound[0], stops)


def largest(r, s, sub, bound, stops):
    """Is the bound the largest of the stop levels on this path?"""
    while isinstance(bound, T) and bound.op == "str":
        bound = bound.args[0]
    if isinstance(bound, T) and bound.op == "pure" and bound.args[0] in ("max", "min"):
        used = {y for x in bound.args[1:] for y in walk_terms(x) if y in stops}
        r.check(bound.args[0] == "max" and used == set(stops), "R4", sub,
                f"the depth bound {bound!r} is not the largest stop level", POST, describe(s))
        return
    if bound not in stops and not (isinstance(bound, C) and isinstance(bound.v, int)):
        r.skip("R4", sub, f"depth bound {bound!r}")
        return
    rels = [order_rels(s, bound, o, stops) for o in stops]
    if not all(rels):
        return                              # levels are not negative: infeasible path
    r.check(all("lt" not in x for x in rels), "R4", sub,
            f"the depth bound {bound!r} may be below another stop level", POST, describe(s))


def decided(ip, outcomes):
    """Split outcomes on the truth of the returned value."""
    for s, v in outcomes:
        if isinstance(v, Raised):
            yield s, v
            continue
        for x, t in ip.truth(v, s):
            yield x, C(t)


def normal(x):
    return x.replace("file.", "").replace("ignore.", "").replace(" ", "").lower()


TRUE_WORDS, FALSE_WORDS = ("yes", "true", "on", "1"), ("no", "false", "off", "0")


def equivalent(x, expr):
    """hide=yes == hide=true == hide=1."""
    if "=" not in x:
        return False
    a, _, b = x.partition("=")
    c, _, d = expr.partition("=")
    if a != c:
        return False
    for words in (TRUE_WORDS, FALSE_WORDS):
        if d in words:
            return b in words
    return b == d


def wiring(r):
    with r.guard("R5", "component setup"):
        st = new_state()
        for k in ("action", "help", "count", "exec", "exec_batch", "sort", "cache"):
            st = st.setfield(ARGS, k, C(None))
        base = T("new", r.p.cls("libff.main:_Base"), C(0))
        seen = 0
        for s, v in r.run("libff.main:_Base.setup_components", [base], st=st,
                          opaque=lambda fi: fi.name in ("get_file_attributes",)):
            if isinstance(v, Raised):
                continue
            seen += 1
            for qual, want, comp in (("libff.filter:Excluder", "exclude", "excluder"),
                                     ("libff.filter:Matcher", "tests", "matcher")):
                evs = [e for e in s.events() if e.kind == "new" and e.name == qual]
                good = [e for e in evs if any(a == arg(want) for a in
                                              list(e.args) + list(e.kw.values()))]
                r.check(bool(good), "R5", f"{comp} gets --{want}",
                        f"{comp} is not built from the {want} expressions",
                        evs[0].where if evs else "libff.main", describe(s))
                got = s.fields.get((CTX, comp))
                r.check(good and got is not None and got == good[-1].res, "R5", f"{comp} installed",
                        f"the {comp} component is not the one built from {want}", "libff.main",
                        describe(s))
        r.check(seen > 0, "R5", "component setup terminates", "no normal path", "libff.main")


def attributes(r):
    """hide / samedev / depth are functions of the entry and its start directory."""
    ent = obj(r.p, "libff.entry:Entry")
    table = {
        "samedev": {"self.status.st_dev", "self.start_directory.device"},
        "depth": {"self.relpath"},
    }
    for name, want in table.items():
        with r.guard("R6", name):
            fi = r.p.find_method(r.p.cls("libff.entry:Entry"), name)
            if fi is None:
                r.skip("R6", name, "not a property of Entry")
                continue
            for s, v in r.run(fi, [ent]):
                if isinstance(v, Raised):
                    r.bad("R6", name, f"raises {v.exc.name}", fi.loc)
                    continue
                used = deps(v, s)
                eqs = []
                for k, f in s.facts.items():
                    used |= deps(Tup(tuple(x for x in k[1:] if not isinstance(x, str))), s)
                    if k[0] == "eq" and len(k) == 3:
                        eqs.append(f)
                used = {u for u in used if not u.startswith("var.") and not u.startswith("os")}
                r.check(used == want, "R6", f"{name} sources",
                        f"computed from {sorted(used)} instead of {sorted(want)}", fi.loc)
                if name == "samedev" and len(eqs) == 1:
                    r.check(truth_fact(s, v) == eqs[0], "R6", "samedev polarity",
                            "samedev is true for a different device", fi.loc, describe(s))
    # declared attributes the switches refer to
    for plugin, name, typ in (("libff.builtin.file:File", "hide", "Boolean"),
                              ("libff.builtin.file:File", "samedev", "Boolean"),
                              ("libff.builtin.file:File", "depth", "Number"),
                              ("libff.builtin.ignore:Ignore", "ignored", "Boolean")):
        with r.guard("R6", f"declaration of {name}"):
            from ..schema import declared
            d = declared(r.p, r.p.cls(plugin))
            r.check(d.get(name) == typ, "R6", f"declaration of {name}",
                    f"{name} is declared as {d.get(name)}", plugin)
    with r.guard("R6", "hide"):
        init = r.p.func("libff.entry:Entry.__init__")
        hooks = {"libff.path:split": lambda ip, s, c: [(s, Tup((T("sym", "dirname"),
                                                                T("sym", "basename"))))]}
        doms = {}
        vals = set()
        for s, v in r.run(init, [ent, T("sym", "sd"), T("sym", "rel"), T("sym", "status")],
                          hooks=hooks, depth=3):
            if isinstance(v, Raised):
                continue
            h = s.fields.get((ent, "hide"))
            if h is None:
                continue
            used = deps(h, s)
            for k, f in s.facts.items():
                if "basename" in repr(k) and k[0] in ("eq", "val", "truth"):
                    used |= {"basename"}
                    if k[0] == "truth" and "startswith" not in repr(k[1]):
                        continue
                    pos = f is True or f == C(".")
                    vals.add((pos, truth_fact(s, h)))
        with r.guard("R6", "hide polarity"):
            if (True, False) in vals and (True, True) not in vals:
                r.bad("R6", "hide polarity", "dot files are not hidden", init.loc)
            else:
                r.ok("R6", "hide polarity")
