"""P22: command lines are taken apart without loss."""
import posixpath
import shlex

from ..lib import *
from ..report import new_state
from ..values import C, DictObj, ListObj, Raised, Ref, Splice, T, Tup
from . import p09

EXPLANATION = (
    "The option table is built by abstract interpretation of create_parser; the parser is then interpreted "
    "on every option string spelled out, attached, bundled behind a flag, repeated and together with every "
    "other option that stores under the same name, with symbolic arguments where they are not taken apart, "
    "and the resulting namespaces are compared. Joining with FF_OPTIONS and the selection of directory "
    "arguments are interpreted with symbolic words.")

ARGS_MOD = "libff.arguments"
PARSE = p09.ARGPARSE + ":ArgumentParser.parse_args"


def run(r):
    r.rule("R1", "the words of FF_OPTIONS come before those of the command line, both complete and in order")
    r.rule("R2", "an option stores its argument, or its constant, under its own name and nothing else")
    r.rule("R3", "attached values and bundled options mean the same as spelled out")
    r.rule("R4", "the last one of several options that store under the same name counts, lists accumulate")
    r.rule("R5", "everything after -x and -X belongs to the command, tests are kept as they are")
    r.rule("R6", "directories at both ends of the arguments are searched, all others are tests")
    r.rule("R7", "lists, sets, ranges and slices are taken apart completely")
    r.floor = 300
    with r.guard("R1", "collect_arguments"):
        joined(r)
        parsed(r)
    with r.guard("R2", "option table"):
        table = Table(r)
        table.check()
    with r.guard("R6", "directories"):
        directories(r)
        nested(r)
    with r.guard("R7", "converters"):
        converters(r)


# ------------------------------------------------------------------ R1
def joined(r):
    where_ = ARGS_MOD + ":collect_arguments"
    env, words = T("sym", "FF_OPTIONS"), [T("sym", f"word{i}") for i in range(2)]
    argv = [T("sym", "program"), T("sym", "arg0"), T("sym", "arg1")]
    for how in ("set", "unset", "empty"):
        v = {"set": env, "unset": C(None), "empty": C("")}[how]

        def get(ip, st, c, v=v):
            if c.args and c.args[0] == C("FF_OPTIONS"):
                if v == C(None) and len(c.args) > 1:
                    return [(st, c.args[1])]
                return [(st, v)]

        def split(ip, st, c):
            if c.args and c.args[0] == env:
                s, ref = st.new(ListObj(tuple(words)))
                return [(s, ref)]
            if c.args and c.args[0] == C(""):
                s, ref = st.new(ListObj(()))
                return [(s, ref)]
        st = new_state()
        if how == "set":
            st = st.fact(("truth", env), True)
        st, ref = st.new(ListObj(tuple(argv)))
        hk = {".get": get, "os.getenv": get, "shlex.split": split}
        n = 0
        ip = r.interp(hooks=hk, domains={})
        ip.globals_ = None
        st = st.fact(("sysargv",), True)

        def attr(ip, st, c, ref=ref):
            return None
        st = st.fact(("val", T("var", "sys", "argv")), ref)
        for s, res in r.run(where_, [], st=st, ip=ip):
            if isinstance(res, T) and res.op == "cut":
                continue
            got = items(s, res)
            n += 1
            want = (words if how == "set" else []) + argv[1:]
            if got is None:
                r.skip("R1", f"FF_OPTIONS {how}", f"result is {res!r}")
                continue
            r.check(list(got) == want, "R1", f"FF_OPTIONS {how}", f"the arguments are {list(got)!r}, "
                    f"should be {want!r}", where_, describe(s))
            r.check(items(s, ref) == tuple(argv), "R1", f"sys.argv with FF_OPTIONS {how}",
                    "sys.argv is changed", where_)
        if not n:
            r.skip("R1", f"FF_OPTIONS {how}", "no outcome")


# what a shell does with quotes, backslashes, white space and number signs
GIVEN = {"two": "-a -b", "quotes": "--sep '# ' -x", "double": '-d "a b" c', "backslash": "a\\\\ b\\'c", "number": "--sep=# -x",
         "comment": "-a # b\n-c", "space": "  -a\t\n -b ", "empty word": "-a '' -b", "dollar": "-a $HOME ~ *", "blank": " ",
         "umlaut": "-a \xe4 'b\xa0c'", "joined": "a'b'\"c\"", "semicolon": "a;b|c&d<e>f (g)"}


def parsed(r):
    """The words of FF_OPTIONS are those of a POSIX shell, expansions and comments aside."""
    where_ = ARGS_MOD + ":collect_arguments"
    for how, text in GIVEN.items():
        sub = f"FF_OPTIONS {how}"
        with r.guard("R1", sub):
            def get(ip, st, c):
                return [(st, C(text))] if c.args and c.args[0] == C("FF_OPTIONS") else None

            def split(ip, st, c):
                if not all(isinstance(x, C) for x in list(c.args) + list(c.kw.values())):
                    return None
                got = shlex.split(*[x.v for x in c.args], **{k: x.v for k, x in c.kw.items()})
                return [st.new(ListObj(tuple(C(x) for x in got)))]
            st, ref = new_state().new(ListObj((T("sym", "program"), T("sym", "arg"))))
            st = st.fact(("sysargv",), True).fact(("val", T("var", "sys", "argv")), ref)
            ip = r.interp(hooks={".get": get, "os.getenv": get, "shlex.split": split}, domains={}, fold_re=True)
            want = [C(x) for x in shlex.split(text)] + [T("sym", "arg")]
            for s, res in r.run(where_, [], st=st, ip=ip):
                got = items(s, res)
                if got is None or any(isinstance(x, T) and x != want[-1] for x in got):
                    r.skip("R1", sub, f"result is {res!r}")
                    continue
                r.check(list(got) == want, "R1", sub, f"the arguments of {text!r} are {list(got)!r}, should be {want!r}",
                        where_, describe(s))


# ------------------------------------------------------------------ options
class Table:
    def __init__(self, r):
        self.r = r
        self.ip, res = p09.build_parser(r)
        self.st, self.parser = res[-1]
        self.opts = p09.option_list(r, self.st, self.parser)
        for o in self.opts:
            o["act"] = o["action"].v if isinstance(o.get("action"), C) else None
            o["key"] = o["dest"].v if isinstance(o.get("dest"), C) else None
            o["kind"] = getattr(o.get("type"), "target", None)
        self.opts = [o for o in self.opts if o["act"] and o["key"]]

    def parse(self, tokens, sub, rule):
        """[(state, {name: value})], None if a command line that has a meaning is refused."""
        out = []
        for s, v in p09.parse(self.r, self.ip, self.st, self.parser, tokens):
            if isinstance(v, T) and v.op == "cut":
                continue
            if isinstance(v, Raised):
                out.append((s, None))
                continue
            ns = p09.namespace(s, v)
            if ns is None:
                self.r.skip(rule, sub, "namespace of an unknown form")
                continue
            out.append((s, {k: deep(s, x) for k, x in ns.items()}))
        if not out:
            self.r.skip(rule, sub, "no outcome")
        return out

    def values(self, o):
        """Constant arguments the option accepts."""
        ch = items(self.st, o.get("choices")) if isinstance(o.get("choices"), (Ref, Tup)) else None
        if ch:
            return [c.v for c in ch if isinstance(c, C)][:2]
        k = str(getattr(o["kind"], "qual", o["kind"]))
        if "ranges" in k:
            return ["1-2", "3"]
        if "slice" in k:
            return ["1:2", "3,1"]
        if "jobs" in k:
            return ["1", "1"]
        if "list" in k or "set" in k:
            return ["a,b:5h", "c=d"]
        return ["a=b -c", "--x y,z", " ", "=", ""]

    def check(self):
        r = self.r
        base = self.parse([], "no arguments", "R2")
        base = [ns for s, ns in base if ns is not None]
        if len(base) != 1:
            r.skip("R2", "no arguments", f"{len(base)} outcomes")
            return
        self.base = base[0]
        for o in self.opts:
            if o["act"] == "arguments":
                self.arguments(o)
                continue
            for name in o["names"]:
                with r.guard("R2", f"option {name}"):
                    self.single(o, name)
        self.repeated()
        self.documented()

    # options that override one another, with the same meaning where given
    GROUPS = ((("-1", "-l", "--limit"), (["-1"], ["-l", ":1"])), (("-l", "--limit"), ()),
              (("--json", "--jsonl", "--ndjson"), (["--jsonl"], ["--ndjson"])),
              (("-v", "--verbose", "-o", "--output"), ()), (("--cache", "--no-cache"), ()),
              (("-H", "--hide"), ()), (("-I", "--ignore"), ()), (("-d", "--depth"), ()), (("-c", "--case"), ()),
              (("-L", "--follow"), ()), (("--one-file-system", "--mount", "--xdev"), ()), (("-x", "--exec"), ()),
              (("-X", "--exec-batch"), ()), (("--halt", "--halt-on-error"), ()), (("-C", "--color"), ()),
              (("-a", "--absolute-path"), ()), (("-0", "--print0"), ()), (("-S", "--sort"), ()),
              (("-R", "--reverse"), ()), (("-D", "--directory"), ()), (("-e", "--exclude"), ()),
              (("-j", "--jobs"), ()), (("--version", "--clean-cache", "--help-full"), ()), (("--count",), ()),
              (("--fail",), ()), (("--sep",), ()), (("--all",), ()), (("--si",), ()), (("-h", "--help"), ()))

    def documented(self):
        r = self.r
        keys = {n: o["key"] for o in self.opts for n in o["names"]}
        seen = {}
        for names, same in self.GROUPS:
            have = {n: keys[n] for n in names if n in keys}
            sub = " ".join(names)
            r.check(len(set(have.values())) <= 1, "R4", sub, f"store under different names: {have}", PARSE)
            for k in set(have.values()):
                other = seen.setdefault(k, names)
                r.check(set(other) & set(names), "R4", sub, f"store under the same name as {' '.join(other)}", PARSE)
            res = []
            for f in same:
                if f[0] in keys:
                    res += [(f, ns) for _, ns in self.parse(f, sub, "R4")]
            for f, ns in res[1:]:
                r.check(ns == res[0][1], "R4", sub, f"{f} does not mean the same as {res[0][0]}", PARSE)

    def only(self, s, ns, o, sub, rule="R2", more=()):
        """Nothing else is stored."""
        for k in sorted(set(ns) | set(self.base)):
            if k != o["key"] and k not in more:
                self.r.check(ns.get(k) == self.base.get(k), rule, sub, f"the setting {k} becomes {ns.get(k)!r}",
                             PARSE, describe(s))

    def stored(self, o, value):
        """What the option stores for a constant argument (None: unknown)."""
        res = [deep(s, v) for s, v in self.ip.call_value(o["type"], [C(value)], {}, self.st, None)
               if not isinstance(v, Raised)]
        return res[0] if len(res) == 1 else None

    def single(self, o, name):
        r, act, key = self.r, o["act"], o["key"]
        flag = next((n for q in self.opts if q["act"] == "store_true" and q is not o for n in q["names"]
                     if len(n) == 2), None)
        fkey = next((q["key"] for q in self.opts if flag in q["names"]), None)
        long = name.startswith("--")
        if act in ("store_true", "store_const"):
            want = True if act == "store_true" else deep(self.st, o.get("const"))
            forms = [[name]]
            if not long and flag:
                forms += [[flag + name[1:]], [name + flag[1:]], [flag, name]]
            for f in forms:
                sub = " ".join(f)
                for s, ns in self.parse(f, sub, "R2"):
                    if ns is None:
                        r.bad("R2", sub, "is refused", PARSE, describe(s))
                        continue
                    r.check(ns.get(key) == want, "R2" if len(f) == 1 and f[0] == name else "R3", sub,
                            f"{key} becomes {ns.get(key)!r}", PARSE, describe(s))
                    both = f != [name]
                    self.only(s, ns, o, sub, more=(fkey,) if both else ())
                    if both:
                        r.check(ns.get(fkey) is True, "R3", sub, f"{fkey} becomes {ns.get(fkey)!r}", PARSE,
                                describe(s))
        elif act in ("store", "store_optional", "append"):
            word = T("sym", "argument")
            if str(o["kind"]).endswith("str"):
                sub = f"{name} with any argument"
                conv = [v for _, v in self.ip.call_value(o["type"], [word], {}, self.st, None)]
                made = conv[0] if len(conv) == 1 else word
                for s, ns in self.parse([name, word], sub, "R2"):
                    if ns is None:
                        if not isinstance(o.get("choices"), (Ref, Tup)):
                            r.bad("R2", sub, "is refused", PARSE, describe(s))
                        continue
                    got = ns.get(key)
                    want = deep(s, word)
                    if got == deep(s, made) or act == "append" and made is not word and \
                            flat(got)[-1:] == [deep(s, made)]:
                        want = deep(s, made)
                    if act == "append":
                        got, want = flat(got), [*flat(self.base.get(key)), want]
                    r.check(got == want, "R2", sub, f"{key} becomes {got!r}", PARSE, describe(s))
                    self.only(s, ns, o, sub)
            for value in self.values(o):
                want = self.stored(o, value)
                if want is None:
                    r.skip("R3", f"{name} {value!r}", "argument of unknown meaning")
                    continue
                if act == "append":
                    want = [*flat(self.base.get(key)), want]
                opt = act == "store_optional"
                if value.startswith("-") and opt:
                    continue
                forms = [[name, value]]
                if long:
                    forms.append([f"{name}={value}"])
                else:
                    if value:
                        forms.append([name + value])
                    if flag:
                        forms += [[flag + name[1:], value], [flag, name, value]]
                        if value:
                            forms.append([flag + name[1:] + value])
                for f in forms:
                    sub = " ".join(map(repr, f))
                    for s, ns in self.parse(f, sub, "R3"):
                        if ns is None:
                            r.bad("R3", sub, "is refused", PARSE, describe(s))
                            continue
                        r.check(ns.get(key) == want, "R3", sub, f"{key} becomes {ns.get(key)!r}, should be {want!r}",
                                PARSE, describe(s))
                        both = f[0] not in (name, f"{name}={value}", name + value)
                        self.only(s, ns, o, sub, "R3", (fkey,) if both else ())
                        if both:
                            r.check(ns.get(fkey) is True, "R3", sub, f"{fkey} becomes {ns.get(fkey)!r}", PARSE,
                                    describe(s))
            if act == "store_optional":
                c = o.get("const")
                want = self.stored(o, c.v) if isinstance(c, C) else None
                for f in ([name], [name, flag]) if flag else ([name],):
                    sub = " ".join(f)
                    for s, ns in self.parse(f, sub, "R2"):
                        r.check(ns is not None and ns.get(key) == want, "R2", sub,
                                f"{key} becomes {ns and ns.get(key)!r}", PARSE, describe(s))
        elif act == "store_remainder":
            words = ["cmd", "-v", "--json", "-x", "", "a=b", "{}", "-Hx"]
            forms = [([name, *words], words, ())]
            if not long:
                if flag:
                    forms.append(([flag + name[1:], *words], words, (fkey,)))
                    forms.append(([flag, name, *words], words, (fkey,)))
                forms.append(([name + "ls", *words], ["ls", *words], ()))
                if flag:
                    forms.append(([flag + name[1:] + "ls", *words], ["ls", *words], (fkey,)))
            for f, want, more in forms:
                sub = " ".join(f[:2])
                for s, ns in self.parse(f, sub, "R5"):
                    got = ns and flat(ns.get(key))
                    r.check(got == want, "R5", f"{sub} ...", f"{key} becomes {got!r}, should be {want!r}", PARSE,
                            describe(s))
                    if ns is not None:
                        self.only(s, ns, o, sub, "R5", more)
            syms = [T("sym", f"w{i}") for i in range(3)]
            sub = f"{name} with any words"
            for s, v in self.raw([name, *syms]):
                ns = p09.namespace(s, v) if not isinstance(v, Raised) else None
                got = ns and flat(deep(s, ns.get(key)))
                want = [deep(s, x) for x in syms]
                r.check(got == want, "R5", sub, f"{key} becomes {got!r}", PARSE, describe(s))

    def raw(self, tokens):
        """Words of any kind, those that look like options included."""
        ip, st = self.ip, self.st
        ip.steps = 0
        st, argv = st.new(ListObj(tuple(C(t) if isinstance(t, str) else t for t in tokens)))
        out = ip.call_func(self.r.p.func(PARSE), [self.parser, argv], {}, st, None)
        self.r.account(ip, len(out))
        return [(s, v) for s, v in out if not (isinstance(v, T) and v.op == "cut")]

    def arguments(self, o):
        r = self.r
        key = o["key"]
        tests = [T("sym", f"test{i}") for i in range(3)]
        flags = [n for q in self.opts if q["act"] == "store_true" for n in q["names"]][:2]
        if len(flags) < 2:
            return
        for f in (tests, [flags[0], *tests], [*tests, flags[0]], [flags[0], *tests, flags[1]]):
            sub = "tests and " + " ".join(x if isinstance(x, str) else "test" for x in f)
            for s, ns in self.parse(f, sub, "R5"):
                got = ns and flat(ns.get(key))
                want = [deep(s, t) for t in tests]
                r.check(got == want, "R5", sub, f"{key} become {got!r}", PARSE, describe(s))
        word = "name=-x=--y "
        for s, ns in self.parse([word, "("], "special characters", "R5"):
            got = ns and flat(ns.get(key))
            r.check(got == [word, "("], "R5", "special characters", f"{key} become {got!r}", PARSE, describe(s))

    def forms(self, o):
        """Option strings with what they store."""
        name = o["names"][0]
        if o["act"] == "store_true":
            return [([name], True)]
        if o["act"] == "store_const":
            return [([name], deep(self.st, o.get("const")))]
        if o["act"] in ("store", "store_optional", "append"):
            return [([name, v], self.stored(o, v)) for v in self.values(o)[:2]
                    if not (v.startswith("-") and o["act"] == "store_optional")]
        return []

    def repeated(self):
        r = self.r
        byname = {}
        for o in self.opts:
            byname.setdefault(o["key"], []).append(o)
        for key, opts in sorted(byname.items()):
            fs = [(o, f, v) for o in opts for f, v in self.forms(o)]
            for o1, f1, v1 in fs:
                for o2, f2, v2 in fs:
                    if o1["act"] == "append" != o2["act"] or None in (v1, v2) and "store_const" not in \
                            (o1["act"], o2["act"]):
                        continue
                    sub = " ".join(f1 + f2)
                    with r.guard("R4", sub):
                        for s, ns in self.parse(f1 + f2, sub, "R4"):
                            want = [*flat(self.base.get(key)), v1, v2] if o1["act"] == "append" else v2
                            r.check(ns is not None and ns.get(key) == want, "R4", sub,
                                    f"{key} becomes {ns and ns.get(key)!r}, should be {want!r}", PARSE, describe(s))


def flat(v):
    return list(v) if isinstance(v, (list, tuple)) else [] if v is None else [v]


def deep(s, v):
    """A comparable form of a value."""
    v = val(s, v)
    if isinstance(v, C):
        return v.v
    if isinstance(v, Tup):
        return tuple(deep(s, i) for i in v.items)
    o = s.heap.get(v.id) if isinstance(v, Ref) else None
    if isinstance(o, ListObj):
        x = [deep(s, i) for i in o.items]
        return frozenset(map(repr, x)) if o.kind == "set" else x
    if isinstance(o, DictObj):
        return {repr(k): deep(s, x) for k, x in o.items}
    return repr(v)


# ------------------------------------------------------------------ R6
def directories(r):
    p = r.p
    fi = p.func(ARGS_MOD + ":ArgumentsPostProcessor.process_directories")
    N = 4 if r.thorough else 3
    tests = [T("sym", f"test{i}") for i in range(N)]
    norm = lambda t: T("sym", "norm", t)   # noqa: E731
    for given in (False, True):
        for bits in range(2 ** N):
            kinds = [bool(bits >> i & 1) for i in range(N)]
            text = "".join("D" if k else "t" for k in kinds) + (" with -D" if given else "")
            st = new_state()
            st, tl = st.new(ListObj(tuple(tests)))
            st, dl = st.new(ListObj((T("sym", "given"),) if given else ()))
            for i, a in enumerate(tests):
                st = st.fact(("in", C("/"), a), True)
                for b in tests[:i]:
                    st = st.fact(("eq", a, b), False).fact(("eq", b, a), False)
            st = st.setfield(ARGS, "tests", tl).setfield(ARGS, "directories", dl)

            def isdir(ip, s, c):
                t = c.args[0]
                if t in tests:
                    return [(s, C(kinds[tests.index(t)]))]

            def nrm(ip, s, c):
                return [(s, norm(c.args[0]))]
            # the comparison of directories among one another is another matter
            hk = {"os.path.isdir": isdir, "os.path.normpath": nrm,
                  "os.path.commonpath": lambda ip, s, c: [(s, C("/"))],
                  "os.path.abspath": lambda ip, s, c: [(s, C("/abs/" + repr(base_of(s, c.args[0]))))]}
            ip = r.interp(hooks=hk, domains={}, max_loop=12, max_elems=12)
            me = obj(p, ARGS_MOD + ":ArgumentsPostProcessor")
            st = st.setfield(me, "args", ARGS)
            first = 0
            while first < N and kinds[first]:
                first += 1
            last = N
            while last > first and kinds[last - 1]:
                last -= 1
            if given:
                first, last = 0, N
            want_t = tests[first:last]
            want_d = tests[:first] + tests[last:]
            n = 0
            for s, v in r.run(fi, [me], st=st, ip=ip):
                if isinstance(v, T) and v.op == "cut":
                    continue
                n += 1
                sub = f"arguments {text}"
                if isinstance(v, Raised):
                    r.bad("R6", sub, f"ends with {p09.outcome_text(v)}", fi.loc, describe(s))
                    continue
                got_t = items(s, s.fields.get((ARGS, "tests")))
                got_d = items(s, s.fields.get((ARGS, "directories")))
                if got_t is None or got_d is None:
                    r.skip("R6", sub, "lists of an unknown form")
                    continue
                r.check(list(got_t) == want_t, "R6", sub, f"the tests are {list(got_t)!r}", fi.loc, describe(s))
                if given:
                    r.check(list(got_d) == [T("sym", "given")], "R6", sub,
                            f"the directories are {list(got_d)!r}", fi.loc, describe(s))
                elif not want_d:
                    r.check([val(s, d) for d in got_d] == [C(".")], "R6", sub,
                            f"the directories are {list(got_d)!r}", fi.loc, describe(s))
                else:
                    r.check(sorted(map(repr, (base_of(s, d) for d in got_d))) == sorted(map(repr, want_d)), "R6",
                            sub, f"the directories are {list(got_d)!r}", fi.loc, describe(s))
            if not n:
                r.skip("R6", f"arguments {text}", "no outcome")
    # a word without a separator is a test
    t = T("sym", "word")
    st = new_state().fact(("in", C("/"), t), False)
    st, tl = st.new(ListObj((t,)))
    st, dl = st.new(ListObj(()))
    st = st.setfield(ARGS, "tests", tl).setfield(ARGS, "directories", dl)
    me = obj(p, ARGS_MOD + ":ArgumentsPostProcessor")
    st = st.setfield(me, "args", ARGS)
    for s, v in r.run(fi, [me], st=st, hooks={"os.path.isdir": lambda ip, s, c: [(s, C(True))]}):
        if isinstance(v, Raised):
            continue
        got = items(s, s.fields.get((ARGS, "tests")))
        r.check(got == (t,), "R6", "a word without a slash", f"the tests are {got!r}", fi.loc, describe(s))


def base_of(s, d):
    """The argument a directory is made of."""
    for x in walk_terms(val(s, d)):
        if isinstance(x, T) and x.op == "sym" and str(x.args[0]).startswith("test"):
            return x
    return d


def nested(r):
    """Directories that contain one another are refused, others are not."""
    p = r.p
    fi = p.func(ARGS_MOD + ":ArgumentsPostProcessor.process_directories")
    cases = (("/x", "/x/y", True), ("/x/y", "/x", True), ("/x", "/x/y/z", True), ("/", "/x", True),
             ("/x", "/xy", False), ("/xy", "/x", False), ("/x/y", "/x/z", False), ("/x/y", "/z/x/y", False))
    for a, b, bad in cases:
        for three in (False, True):
            dirs = [a, b] if not three else ["/other", a, b]
            st = new_state()
            st, tl = st.new(ListObj(()))
            st, dl = st.new(ListObj(tuple(C("rel" + d) for d in dirs)))
            st = st.setfield(ARGS, "tests", tl).setfield(ARGS, "directories", dl)
            me = obj(p, ARGS_MOD + ":ArgumentsPostProcessor")
            st = st.setfield(me, "args", ARGS)

            def absolute(ip, s, c):
                if isinstance(c.args[0], C):
                    return [(s, C(c.args[0].v[3:]))]

            def common(ip, s, c):
                x = items(s, c.args[0])
                if x is not None and all(isinstance(i, C) for i in x):
                    return [(s, C(posixpath.commonpath([i.v for i in x])))]
            hk = {"os.path.abspath": absolute, "os.path.realpath": absolute, "os.path.commonpath": common}
            ip = r.interp(hooks=hk, max_loop=12, max_elems=12)
            sub = f"directories {' '.join(dirs)}"
            n = 0
            for s, v in r.run(fi, [me], st=st, ip=ip):
                if isinstance(v, T) and v.op == "cut":
                    continue
                n += 1
                if bad:
                    r.check(raised_name(v) == "UsageError", "R6", sub, "are accepted", fi.loc, describe(s))
                else:
                    r.check(not isinstance(v, Raised), "R6", sub, f"ends with {p09.outcome_text(v)}", fi.loc,
                            describe(s))
            if not n:
                r.skip("R6", sub, "no outcome")


# ------------------------------------------------------------------ R7
def converters(r, rule="R7", only=()):
    """Every production of the notations."""
    ranges = {"3": [(3, 3)], "0": [(0, 0)], "1-2": [(1, 2)], "2-1": [(1, 2)], "-4": [(0, 4)], "4-": [(4, None)],
              "-": [(0, None)], "5-5": [(5, 5)], "0-12": [(0, 12)], "1,3-4": [(1, 1), (3, 4)], "-1,7-": [(0, 1), (7, None)],
              "1, 2 ,10-9": [(1, 1), (2, 2), (9, 10)], "0-0,-": [(0, 0), (0, None)]}
    slices = {"1:2": (1, 2), ":2": (0, 2), "3:": (3, None), ":": (0, None), "-3:": (-3, None), ":-2": (0, -2),
              "-4:-1": (-4, -1), "0:0": (0, 0), "10:20": (10, 20), "2:-1": (2, -1), "10,0": (0, 10), "10,2": (20, 30),
              "1,1": (1, 2), "7,3": (21, 28), "0:10": (0, 10)}
    lists = {"a": ["a"], "a,b": ["a", "b"], " a , b:5h ": ["a", "b:5h"], "a.b,c,d": ["a.b", "c", "d"],
             "b,a,b": ["b", "a", "b"], "": [""]}
    numbers = {"0": 0, "1": 1, "12": 12}
    q = p09.ARGPARSE + ":"
    for fn, table in (("type_ranges", ranges), ("type_slice", slices), ("type_list", lists),
                      ("type_set", {k: frozenset(repr(i) for i in v) for k, v in lists.items()}),
                      ("type_number", numbers), ("type_positive_number", numbers)):
        if only and fn not in only:
            continue
        fi = r.p.funcs.get(q + fn)
        if fi is None:
            r.skip(rule, fn, "is missing")
            continue
        for text, want in table.items():
            sub = f"{fn}({text!r})"
            with r.guard(rule, sub):
                for s, v in r.run(fi, [C(text)], ip=r.interp(fold_re=True, max_loop=8, max_elems=8)):
                    if isinstance(v, T) and v.op == "cut":
                        continue
                    if isinstance(v, Raised):
                        r.bad(rule, sub, f"ends with {p09.outcome_text(v)}", fi.loc, describe(s))
                        continue
                    got = deep(s, v)
                    if "$" in repr(got) or isinstance(v, T):
                        r.skip(rule, sub, f"result is {v!r}")
                        continue
                    r.check(got == want, rule, sub, f"is {got!r}, should be {want!r}", fi.loc, describe(s))
