"""P28: glob patterns denote the names and paths gitignore(5) describes."""
import itertools
import re

from ..lib import *
from ..report import new_state
from ..sreauto import Nfa, Paths, Unsupported, differ
from ..values import C, Fn, Raised, T

EXPLANATION = (
    "Patterns are enumerated as sequences of pattern elements up to a length. The translation of each is "
    "computed by abstract interpretation with the pattern as a constant; the resulting regular expression is "
    "taken apart into a finite automaton and compared, as a language over all names or all relative paths, "
    "with the automaton of what gitignore(5) says about the elements. The use of the expression by "
    "Glob.match is interpreted with a symbolic path.")

GLOB = "libff.ignore:Glob"
# element -> regular expression for a part of one component
ELEMENTS = {"a": "a", ".": r"\.", "*": "[^/]*", "?": "[^/]", "[ab]": "[ab]", "[!a]": "[^/a]", "+": r"\+"}
MORE = {"[b-d]": "[b-d]", "[!b-d]": "[^/b-d]", "[.+]": "[.+]", "\xe9": "\xe9", "(": r"\(", "|": r"\|", "^": r"\^", "$": r"\$",
        " ": " ", "{a,b}": r"\{a,b\}", "]": r"\]", "!": "!", "#": "#", "-": "-", "[!!]": "[^/!]", "[!.]": "[^/.]",
        "[*]": "[*]", "[?]": "[?]", "[a-]": "[a\\-]", "~": "~", "A": "A", "\n": "\n",
        "[a!]": "[a!]", "[+-0]": "[+\\-.0]", "[!+-0]": "[^+-0]", "[-a]": "[\\-a]", "[a-b!-#]": "[ab!\"#]"}
OPEN = [("[",), ("a", "["), ("[", "a"), ("[", "a", "*"), ("[", "a", "?", "a"), ("[", "!", "a"), ("[", "!", "*"),
        ("*", "[", "a"), ("?", "[", "b-d"), ("[ab]", "[", "a"), ("[!a]", "[", "*"), ("a", "/", "[", "a", "b", "*"),
        ("a", "/", "**", "/", "[", "a", "*"), ("[", ".", "*"), ("/", "[", "a", "b"), ("[", "a", "/"), ("a", "[", "[", "*")]
NOTHING = "[^\\x00-\U0010ffff]"
OTHERS = "abcdzA0./\n\\-\xe9\udc80"              # besides the characters of the pattern


def run(r):
    r.rule("R1", "the expression a pattern is translated to accepts exactly the names, or relative paths, that "
                 "gitignore(5) describes")
    r.rule("R2", "a leading exclamation mark inverts, a trailing slash asks for a directory, a slash at the beginning or "
                 "in the middle ties the pattern to the path")
    r.rule("R3", "the whole path without leading slashes is matched if the pattern is tied to it, otherwise the whole name, "
                 "and a pattern for directories matches nothing else")
    r.floor = 500
    pats = list(patterns(4 if r.thorough else 3))
    for pattern, spec in pats:
        for paths in (True, False):
            if not paths and "/" in pattern:
                continue                     # names have no slashes
            with r.guard("R1", repr(pattern)):
                judge(r, pattern, spec, paths)
    with r.guard("R3", "match"):
        matching(r)


# ------------------------------------------------------------------ what the manual says
def sequences(n):
    for k in range(1, n + 1):
        yield from itertools.product(list(ELEMENTS) + ["/", "**"], repeat=k)
    for e in MORE:
        yield (e,)
        for f in ("a", "*", "/"):
            yield (e, f)
            yield (f, e)
            yield (f, e, f)
        yield ("/", "a", e, "a")
        yield ("a", "/", "a", e, "b")
    for t in (("a", "/", "**", "/", "b"), ("**", "/", "a", "/", "**"), ("a", "/", "**", "/", "**", "/", "b"),
              ("/", "**", "/", "a"), ("a", "/", "**", "/", "b", "/"), ("*", "/", "**", "/", "?"), ("/", "a", "/", "b", "/"),
              ("a", "/", "*", "/", "b"), ("**", "/", "**", "/", "a"), ("a", "/", "**", "/", "*", "b"), ("/", "*", "/", "a"),
              ("a", "/", "**", "/", "b", "/", "**"), ("a", "b", "/", "b", "a", "/", "**"), ("/", "a", "[!a]", "a"),
              ("a", "/", "a", "[!a]", "b"), ("/", "a", "[!b-d]", "a"), ("a", "/", "a", "?", "b"), ("a", "/", "a", "*", "b")):
        yield t


def patterns(n):
    """[(pattern, (regular expression, include, anchored, directory))]"""
    seen = set()
    for t in sequences(n):
        text = "".join(t)
        if text in seen or not well_formed(t):
            continue
        seen.add(text)
        yield text, meaning(t, True)
        if len(t) < 3 and t[0] not in ("!", "#"):
            yield "!" + text, meaning(t, False)
    for t in OPEN:                           # a bracket that is never closed
        yield "".join(t), meaning(t, True)
    yield r"\#a", meaning(("#", "a"), True)
    yield r"\!a", meaning(("!", "a"), True)
    yield "!!a", meaning(("!", "a"), False)
    yield r"!\!a", meaning(("!", "a"), False)


def well_formed(t):
    """Elements that mean the same next to each other, and nothing the manual leaves open."""
    text = "".join(t)
    if "//" in text or not text.strip("/") or t[0] in ("!", "#") or text.strip("/") == "**" and "/" in text[:-1]:
        return False
    for i, e in enumerate(t):
        if e == "**":                        # only as a whole component
            if i and t[i - 1] != "/" or i + 1 < len(t) and t[i + 1] != "/":
                return False
            if i + 1 < len(t) and i + 2 == len(t):
                return False                 # **/ at the end
        elif e == "*" and i + 1 < len(t) and t[i + 1].startswith("*"):
            return False
    return True


def meaning(t, include):
    t = list(t)
    directory = t[-1] == "/"
    if directory:
        t.pop()
    anchored = "/" in t
    if t[0] == "/":
        t.pop(0)
    comps, cur = [], []
    for e in t + ["/"]:
        if e == "/":
            comps.append(cur)
            cur = []
        else:
            cur.append(e)
    if not anchored:
        return part([x if x != "**" else "*" for x in comps[0]]), include, anchored, directory
    return joined(comps, False), include, anchored, directory


def part(es):
    return "".join(ELEMENTS.get(e) or MORE.get(e) or re.escape(e) for e in es)


def joined(comps, started):
    """Components in order, ** stands for any number of them."""
    if not comps:
        return "" if started else "[^/]+(?:/[^/]+)*"
    if comps[0] == ["**"]:
        if started:
            return "(?:/[^/]+)*" + joined(comps[1:], True)
        return f"(?:{joined(comps[1:], False)}|[^/]+(?:/[^/]+)*{joined(comps[1:], True)})"
    return ("/" if started else "") + part(comps[0]) + joined(comps[1:], True)


# ------------------------------------------------------------------ R1, R2
def made(r, pattern, paths, ip):
    out = []
    for s, g in ip.call_value(Fn("class", r.p.cls(GLOB)), [C(pattern), C(paths)], {}, new_state(), None):
        if isinstance(g, Raised):
            out.append((s, g, None))
            continue
        got = {}
        for name in ("include", "anchored", "directory", "regex"):
            for x, v in ip.getattr_(g, name, s):
                got[name] = v
        out.append((s, g, got))
    r.account(ip, len(out))
    return out


def judge(r, pattern, spec, paths):
    ref, include, anchored, directory = spec
    where_ = r.p.cls(GLOB).methods["__init__"].loc
    sub = f"{pattern!r}" + ("" if paths else " as a name")
    for s, g, got in made(r, pattern, paths, r.interp(inst={GLOB}, fold_re=True, sizes=False, max_loop=40, max_elems=40)):
        if isinstance(g, Raised):
            r.bad("R1", sub, f"the pattern is refused with {g.exc.name}", where_, describe(s))
            continue
        for name, want in (("include", include), ("anchored", anchored), ("directory", directory)):
            v = got[name]
            if isinstance(v, C):
                r.check(bool(v.v) == want, "R2", f"{sub}: {name}", f"{name} is {v!r}", where_, describe(s))
            else:
                r.skip("R2", f"{sub}: {name}", f"{v!r}")
        rx = got["regex"]
        unclosed = pattern in {"".join(t) for t in OPEN}
        if isinstance(rx, Raised) and unclosed:
            r.ok("R1", sub, "the pattern matches nothing, as in git")
            continue
        if isinstance(rx, Raised):
            r.bad("R1", sub, f"the expression is not valid: {rx.exc.name}", where_, describe(s))
            continue
        if not (isinstance(rx, C) and isinstance(rx.v, re.Pattern)):
            r.skip("R1", sub, f"the expression is {rx!r}")
            continue
        how = method(r)
        if how is None:
            r.skip("R1", sub, "it is not known how the expression is used")
            return
        try:
            accepted = Nfa(rx.v.pattern, rx.v.flags, how)
            words = Paths(not anchored), [c for c in sorted({*OTHERS, *pattern}) if anchored or c != "/"]
            word = differ(accepted, Nfa(ref, 0, "fullmatch"), *words)
            if word is not None and unclosed and differ(accepted, Nfa(NOTHING, 0, "fullmatch"), *words) is None:
                word = None                  # git takes it for a pattern that matches nothing
        except (Unsupported, RecursionError) as exc:
            r.skip("R1", sub, f"expression {rx.v.pattern!r}: {exc}")
            continue
        r.check(word is None, "R1", sub, f"the pattern is translated to {rx.v.pattern!r}, which is wrong for {word!r}",
                where_, describe(s))


# ------------------------------------------------------------------ R3
RX = T("sym", "regex")


def uses(r):
    """[(anchored, directory, is_dir, method, argument, verdict of the expression, result)] of Glob.match."""
    if hasattr(r, "_glob_uses"):
        return r._glob_uses
    p = r.p
    fi = p.find_method(p.cls(GLOB), "match")
    out = []
    for anchored, directory, is_dir in itertools.product((False, True), repeat=3):
        me = obj(p, GLOB)
        st = new_state().setfield(me, "anchored", C(anchored)).setfield(me, "directory", C(directory)) \
            .setfield(me, "regex", RX).setfield(me, "_regex", RX)
        calls_ = []

        def hook(name):
            def call(ip, s, c):
                if c.recv != RX:
                    return None
                a = [x for x in c.args if x != c.recv]
                s = ip.event(s, "asked", name, None, a, {}, c.node)
                return [(s.fact(("verdict",), True), T("sym", "found")), (s.fact(("verdict",), False), C(None))]
            return call
        ip = r.interp(hooks={"." + n: hook(n) for n in ("match", "fullmatch", "search")}, sizes=False)
        st = st.fact(("truth", T("sym", "found")), True).fact(("neq", T("sym", "found"), C(None)), True) \
            .fact(("neq", T("sym", "basename"), C(None)), True)
        for path, base in ((T("sym", "path"), T("sym", "basename")), (C("//d/f"), C("f"))):
            for s, v in r.run(fi, [me, path, base, C(is_dir)], st=st, ip=ip):
                for x, t in ip.truth(v, s) if not isinstance(v, Raised) else [(s, None)]:
                    out.append((anchored, directory, is_dir, path, [e for e in x.events() if e.kind == "asked"],
                                x.facts.get(("verdict",)), t, x))
    r._glob_uses = out
    return out


def method(r):
    names = {e.name for u in uses(r) for e in u[4]}
    return names.pop() if len(names) == 1 else None


def matching(r):
    p = r.p
    fi = p.find_method(p.cls(GLOB), "match")
    n = 0
    for anchored, directory, is_dir, path, asked, verdict, t, s in uses(r):
        sub = f"anchored={anchored} directory={directory} is_dir={is_dir} {path!r}"
        if t is None:
            r.bad("R3", sub, "fails", fi.loc, describe(s))
            continue
        if directory and not is_dir:
            r.check(t is False, "R3", sub, "a pattern for directories matches something else", fi.loc, describe(s))
            continue
        if len(asked) != 1:
            r.skip("R3", sub, f"the expression is asked {len(asked)} times")
            continue
        n += 1
        r.check(t == verdict, "R3", sub, f"the result is {t} if the expression says {verdict}", fi.loc, describe(s))
        a = asked[0].args[0]
        if isinstance(path, C):
            want = "d/f" if anchored else "f"
            r.check(a == C(want), "R3", sub + ": text", f"{a!r} is matched instead of {want!r}", fi.loc, describe(s))
        else:
            good, other = (path, T("sym", "basename"))[::1 if anchored else -1]
            r.check(mentions(a, good) and not mentions(a, other), "R3", sub + ": text", f"{a!r} is matched", fi.loc,
                    describe(s))
    if not n:
        r.skip("R3", "match", "the expression is never asked")
