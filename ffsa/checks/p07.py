"""P07: command templates are filled in faithfully and never re-interpreted."""
import ast

from .. import inventory
from ..lib import *
from ..report import new_state
from ..values import C, Exc, Fn, ListObj, Raised, T, Tup
from .p06 import CONTEXT

EXPLANATION = (
    "Templates made of every kind of word (plain, placeholder, several placeholders, escaped braces, "
    "empty, with blanks and shell characters) are followed symbolically from the stored fields to the "
    "rendered argument list: each argument is a term that must be the concatenation of the literal "
    "parts and of the rendered attribute of the entry, in template order, with every combination of "
    "available and missing attributes. The division of over-long command lines is interpreted for "
    "every outcome of every attempt and up to four entries. Every call site of the program that "
    "starts a process is audited for a shell and for the provenance of its arguments.")

REG = "libff.registry:Registry"
FIELD = "libff.field"

ALIAS = {"{}": "file.path", "{/}": "file.name", "{//}": "file.dir", "{.}": "file.pathx",
         "{/.}": "file.namex", "{..}": "file.ext"}


def run(r):
    r.rule("R1", "every argument of a command is its template word with each placeholder replaced by "
                 "the rendered attribute, in order")
    r.rule("R2", "a missing attribute prevents the -x command, drops the -X argument, or is the empty "
                 "string with --all or :n")
    r.rule("R3", "over-long command lines are divided so that each entry is passed exactly once, in "
                 "order")
    r.rule("R4", "commands are started from the argument list as it was rendered, never through a "
                 "shell")
    r.rule("R5", "the rendered arguments of an entry reach the process unchanged")
    r.floor = 60
    templates(r)
    division(r)
    audit(r)
    delivery(r)


# ------------------------------------------------------------------ rendering
def attr_key(name):
    return name if "." in name else "?." + name


def hooks(entries, missing=True):
    def setup(ip, s, c):
        a = c.args[-1]
        return [(s, T("sym", f"attr<{a.v}>" if isinstance(a, C) else f"attr<{a!r}>"))]

    def typ(ip, s, c):
        return [(s, T("sym", "type" + repr(c.args[-1])[1:]))]

    def get(ip, s, c):
        e, a = c.args[-2], c.args[-1]
        v = T("value", e, a)
        known = s.facts.get(("has", e, a))
        out = []
        if known is not False:
            out.append((s.fact(("has", e, a), True), v))
        if missing and known is not True:
            out.append((s.fact(("has", e, a), False), Raised(Exc("KeyError", (), c.node))))
        return out

    def get_both(ip, s, c):
        return [(x, v if isinstance(v, Raised) else Tup((v, typ(ip, s, c)[0][1])))
                for x, v in get(ip, s, c)]

    def output(ip, s, c):
        mod = c.args[-2] if len(c.args) >= 2 else c.kw.get("modifier")
        return [(s, T("out", c.recv, mod, c.args[-1]))]
    return {REG + ".setup_attribute": setup, REG + ".parse_attribute": setup,
            REG + ".get_attribute_type": typ, REG + ".get_attribute": get,
            REG + ".get_attribute_and_type": get_both, ".output": output}


WORDS = {
    "plain": ("plain", ["plain"]),
    "empty": ("", [""]),
    "blank and shell characters": ("a b;$(c) *'", ["a b;$(c) *'"]),
    "path": ("{}", [("file.path", None)]),
    "name": ("{/}", [("file.name", None)]),
    "dir": ("{//}", [("file.dir", None)]),
    "pathx": ("{.}", [("file.pathx", None)]),
    "namex": ("{/.}", [("file.namex", None)]),
    "ext": ("{..}", [("file.ext", None)]),
    "qualified": ("{medium.artist}", [("medium.artist", None)]),
    "modifier": ("{size:h}", [("size", "h")]),
    "null modifier": ("{tag:n}", [("tag", "n")]),
    "inside a word": ("x{}y", ["x", ("file.path", None), "y"]),
    "two placeholders": ("{//}/new-{.}.jpg", [("file.dir", None), "/new-", ("file.pathx", None), ".jpg"]),
    "same placeholder twice": ("{}{}", [("file.path", None), ("file.path", None)]),
    "escaped braces": ("{{x}}", ["{x}"]),
    "escaped and placeholder": ("{{{}}}", ["{", ("file.path", None), "}"]),
    "escaped braces in text": ("a{{b{/}c}}d", ["a{b", ("file.name", None), "c}d"]),
}


def template_list(r):
    w = WORDS
    base = [["plain", k] for k in w]
    base += [["plain"], ["plain", "plain", "blank and shell characters", "path"],
             ["plain", "name", "plain", "path"], ["plain", "path", "empty", "size modifier"][:3],
             ["plain", "qualified", "path"], ["plain", "null modifier", "modifier"],
             ["plain", "escaped braces"], ["plain", "two placeholders", "inside a word", "plain"]]
    if r.thorough:
        base += [["plain", a, b] for a in w for b in w]
    return base


ALTER = {"." + n for n in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "title", "capitalize",
                           "casefold", "split", "swapcase")}


def flat(v):
    """The pieces of a concatenation term."""
    if isinstance(v, C):
        return [v.v] if v.v != "" else []
    if isinstance(v, T) and v.op in ("concat", "+", "fstr"):
        out = []
        for a in v.args:
            for x in flat(a):
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                else:
                    out.append(x)
        return out
    if isinstance(v, T) and v.op == "str" and len(v.args) == 1:
        return flat(v.args[0])
    return [v]


def want_word(pieces, e, s, lenient):
    """The pieces of the expected argument for an entry; None if an attribute is missing."""
    out = []
    for p in pieces:
        if isinstance(p, str):
            x = p
        else:
            name, mod = p
            a = T("sym", f"attr<{name}>")
            has = s.facts.get(("has", e, a))
            if has is False:
                if mod == "n" or lenient:
                    continue
                return None
            if has is None:
                return "unasked"
            x = T("out", T("sym", f"type" + repr(a)[1:]), C(mod), T("value", e, a))
        if isinstance(x, str) and x == "":
            continue
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def templates(r):
    for batch in (False, True):
        cls = f"{FIELD}:ExecBatchFields" if batch else f"{FIELD}:ExecFields"
        for words in template_list(r):
            for lenient in (False, True):
                n = 2 if batch else 1
                sub = f"{'-X' if batch else '-x'} {' '.join(WORDS[w][0] or repr('') for w in words)}" \
                      f"{' --all' if lenient else ''}"
                with r.guard("R1", sub):
                    template(r, cls, batch, words, lenient, n, sub)


def template(r, cls, batch, words, lenient, n, sub):
    p = r.p
    ci = p.cls(cls)
    ents = [T("sym", f"entry{i}") for i in range(n)]
    st = new_state().setfield(ARGS, "all", C(lenient))
    ip = r.interp(hooks=hooks(ents), inst={cls}, fold_re=True, max_loop=12, max_elems=4)
    st, argv = st.new(ListObj(tuple(C(WORDS[w][0]) for w in words)))
    made = ip.call_value(Fn("class", ci), [CTX, argv], {}, st, None)
    render = p.find_method(ci, "render")
    pieces = [WORDS[w][1] for w in words]
    if not any(isinstance(x, tuple) for w in pieces[1:] for x in w):
        pieces = pieces + [[("file.path", None)]]
    where_ = render.loc
    total = 0
    for s0, fields in made:
        if isinstance(fields, Raised):
            r.bad("R1", sub, f"the template is rejected with {fields.exc.name}", p.find_method(
                ci, "store").loc, describe(s0))
            continue
        if batch:
            s0, a = s0.new(ListObj(tuple(ents)))
        else:
            a = ents[0]
        for s, v in ip.call_func(render, [fields, a], {}, s0, None):
            total += 1
            judge(r, s, v, pieces, ents, batch, lenient, sub, where_)
    r.account(ip, total)
    if not total:
        r.skip("R1", sub, "not interpreted")


def judge(r, s, v, pieces, ents, batch, lenient, sub, at):
    want, missing, unasked = [], False, False
    for w in pieces:
        if any(isinstance(x, tuple) for x in w):
            for e in ents:
                x = want_word(w, e, s, lenient)
                if x == "unasked":
                    unasked = True
                elif x is None:
                    missing = True
                else:
                    want.append(x)
        else:
            want.append(flat(C("".join(w))))
    if isinstance(v, Raised):
        if batch or v.exc.name != "KeyError":
            r.bad("R2" if batch else "R1", sub, f"rendering fails with {v.exc.name}", at, describe(s))
        else:
            r.check(missing, "R2", sub + ", missing attribute", "the command is not run although every "
                    "attribute is available or has a substitute", at, describe(s))
        return
    if missing and not batch:
        r.bad("R2", sub + ", missing attribute", "the command is run although an attribute is missing",
              at, describe(s))
        return
    got = items(s, v)
    if got is None:
        r.skip("R1", sub, f"arguments {v!r}")
        return
    got = [flat(val(s, g)) for g in got]
    if any(isinstance(x, T) and x.op == "pure" and x.args[0] in ALTER for g in got for x in g):
        r.bad("R1", sub, f"an argument is altered after it was rendered: {got}"[:300], at, describe(s))
        return
    direct = False
    for g in got:
        for i, x in enumerate(g):
            if isinstance(x, T) and x.op == "attr" and x.args[0] in ents and isinstance(x.args[1], str):
                # taken from the entry itself instead of the registry
                a = T("sym", f"attr<file.{x.args[1]}>")
                g[i] = T("out", T("sym", f"type" + repr(a)[1:]), C(None), T("value", x.args[0], a))
                direct = True
    if direct and unasked:
        r.skip("R1", sub, f"an attribute is taken from the entry: {got!r}"[:200])
        return
    if any(isinstance(x, T) and x.op not in ("out", "value", "sym") for g in got for x in g):
        r.skip("R1", sub, f"argument terms {got!r}"[:200])
        return
    if unasked:
        r.bad("R1", sub, f"an attribute of the template is never looked up (arguments {got})", at,
              describe(s))
        return
    r.check(got == want, "R2" if any(s.facts.get(k) is False for k in s.facts if k[0] == "has") else
            "R1", sub, f"renders {got} instead of {want}", at, describe(s))


# ------------------------------------------------------------------ division of long command lines
def division(r):
    fi = r.p.func("libff.processing:CollectiveExecProcessing.finalize")
    me = obj(r.p, "libff.processing:CollectiveExecProcessing")
    import errno as _errno
    for k in (1, 2, 3, 4) if not r.thorough else (1, 2, 3, 4, 5, 6):
        sub = f"{k} entries"
        with r.guard("R3", sub):
            ents = [T("sym", f"entry{i}") for i in range(k)]

            def render(ip, s, c):
                return [(s, T("cmd", Tup(items(s, c.args[-1]) or ())))]

            def popen(ip, s, c):
                cmd = c.args[0] if c.args else c.kw.get("args")
                if not (isinstance(cmd, T) and cmd.op == "cmd"):
                    return [(s.fact(("foreign",), cmd), T("sym", "process"))]
                ran = s.facts.get(("ran",), ())
                done = s.fact(("ran",), ran + cmd.args[0].items)
                p = T("sym", "process")
                out = [(done.setfield(p, "returncode", C(0)), p)]
                if len(cmd.args[0].items) > 1 or k == 1:
                    exc = Exc("OSError", (), c.node)
                    tag = T("exc", C(s.facts.get(("fails",), 0)))
                    s2 = s.fact(("fails",), s.facts.get(("fails",), 0) + 1)
                    s2 = s2.setfield(exc, "errno", C(_errno.E2BIG))
                    out.append((s2, Raised(exc)))
                return out

            def check_call(ip, s, c):
                return [(x, v if isinstance(v, Raised) else C(0)) for x, v in popen(ip, s, c)]
            st = new_state().setfield(ARGS, "exec", C(None))
            for key in (("neq", arg("exec_batch"), C(None)), ("truth", arg("exec_batch"))):
                st = st.fact(key, True)
            st, lst = st.new(ListObj(tuple(ents)))
            h = {"subprocess.run": popen, "subprocess.call": check_call, "subprocess.Popen": popen,
                 "libff.processing:CollectiveMixin.entries_range": lambda ip, s, c: [(s, lst)],
                 fi.qual: lambda ip, s, c: None,
                 "libff.processing:CollectiveMixin.finalize": lambda ip, s, c: [(s, C(None))],
                 f"{FIELD}:ExecBatchFields.render": render, ".render": render,
                 CONTEXT + ".set_exitcode": lambda ip, s, c: [(s, C(None))]}
            ip = r.interp(hooks=h, max_loop=4 * k + 2)
            n = 0
            for s, v in r.run(fi, [me], st=st, ip=ip):
                fails = s.facts.get(("fails",), 0)
                if isinstance(v, T) and v.op == "cut":
                    if k == 1:
                        r.bad("R3", sub, "a single entry that is too long is tried again and again",
                              fi.loc, describe(s))
                    continue
                n += 1
                if ("foreign",) in s.facts:
                    r.skip("R3", sub, f"command {s.facts[('foreign',)]!r}")
                    continue
                ran = s.facts.get(("ran",), ())
                if isinstance(v, Raised):
                    r.check(k == 1 and fails and v.exc.name == "SubprocessError", "R3", sub,
                            f"ends with {v.exc.name} after {fails} command lines that were too long",
                            fi.loc, describe(s))
                    continue
                r.check(list(ran) == ents, "R3", f"{sub}, {fails} too long",
                        f"passes {list(ran)} instead of {ents}", fi.loc, describe(s))
            r.check(n > 0, "R3", sub, "no outcome", fi.loc)


# ------------------------------------------------------------------ call sites
SPAWN = {"subprocess.Popen", "subprocess.run", "subprocess.call", "subprocess.check_call",
         "subprocess.check_output", "subprocess.getoutput", "subprocess.getstatusoutput", "os.system",
         "os.popen", "os.spawnl", "os.spawnv", "os.spawnvp", "os.spawnlp", "os.execv", "os.execvp",
         "os.execl", "os.execlp", "os.execve", "os.execvpe", "os.posix_spawn", "os.posix_spawnp",
         "pty.spawn", "asyncio.create_subprocess_exec", "asyncio.create_subprocess_shell",
         "os.spawnve", "os.spawnvpe", "os.spawnle", "os.spawnlpe", "os.execle", "os.execlpe"}
SHELL = {"os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput",
         "asyncio.create_subprocess_shell"}


def audit(r):
    n = 0
    for site in inventory.call_sites(r.p):
        if site.name not in SPAWN:
            continue
        n += 1
        node, name = site.node, site.name
        sub = f"{site.scope}: {name}"
        shell = next((k.value for k in node.keywords if k.arg == "shell"), None)
        bad = name in SHELL or (shell is not None and not (isinstance(shell, ast.Constant) and
                                                           not shell.value))
        r.check(not bad, "R4", sub, "a process is started through a shell", site.where)
        exe = next((k for k in node.keywords if k.arg in ("executable", "preexec_fn")), None)
        r.check(exe is None, "R4", sub + " executable", "the program that is run is not the one named "
                "in the arguments", site.where)
        if any(k.arg is None for k in node.keywords):
            r.skip("R4", sub, "keyword arguments are not spelled out")
    for name, node, scope, m in inventory.name_uses(r.p):
        if name in SHELL:
            r.bad("R4", f"{scope}: {name}", "a shell is used", f"{m.rel}:{node.lineno}")
    if not n:
        r.skip("R4", "call sites", "no process is started anywhere")


# ------------------------------------------------------------------ from rendering to the process
def delivery(r):
    p = r.p
    cmd = T("sym", "rendered")
    e = T("sym", "entry")
    with r.guard("R5", "Context.run_exec_process"):
        got = []

        def popen(ip, s, c):
            got.append((s, c.args[0] if c.args else c.kw.get("args"), c))
            return [(s, Raised(Exc("OSError", (), c.node)))]
        st = new_state()
        h = {"subprocess.Popen": popen, "subprocess.run": popen, "subprocess.call": popen,
             CONTEXT + ".set_exitcode": lambda ip, s, c: [(s, C(None))],
             "libff.logger:Logger.error": lambda ip, s, c: [(s, C(None))]}
        r.run(CONTEXT + ".run_exec_process", [CTX, cmd], st=st, hooks=h, max_loop=3)
        for s, a, c in got:
            r.check(a == cmd, "R5", "arguments of the process", f"the process is started with {a!r} "
                    "instead of the rendered arguments", where(s) or c.name, describe(s))
        if not got:
            r.skip("R5", "arguments of the process", "no process is started")
    for q, what in (("libff.processing:ImmediateExecProcessing", "process"),):
        with r.guard("R5", q):
            st, chunk = new_state().new(ListObj((e,)))
            sent = []

            def render(ip, s, c):
                if c.args[-1] != e:
                    return None
                return [(s.fact(("ok",), True), cmd),
                        (s.fact(("ok",), False), Raised(Exc("KeyError", (), c.node)))]

            def put(ip, s, c):
                return [(s.fact(("sent",), s.facts.get(("sent",), ()) +
                                (tuple(items(s, c.args[-1]) or ("?",)),)), C(None))]
            h = {f"{FIELD}:ExecFields.render": render, ".render": render,
                 "multiprocessing.Queue.put": put, "libff.walk:FilesystemWalker.put": put}
            for s, v in r.run(p.find_method(p.cls(q), what), [obj(p, q), chunk], st=st, hooks=h):
                if isinstance(v, Raised):
                    r.bad("R5", q, f"fails with {v.exc.name}", q, describe(s))
                    continue
                want = ((cmd,),) if s.facts.get(("ok",)) else ()
                r.check(s.facts.get(("sent",), ()) == want, "R5", f"{q} rendered="
                        f"{s.facts.get(('ok',))}", f"sends {s.facts.get(('sent',), ())} to the workers",
                        q, describe(s))
    with r.guard("R5", "Parallel.add_job"):
        q = "libff.processing:Parallel"
        me = obj(p, q)

        def render(ip, s, c):
            return [(s.fact(("ok",), True), cmd),
                    (s.fact(("ok",), False), Raised(Exc("KeyError", (), c.node)))]

        def put(ip, s, c):
            return [(s.fact(("sent",), s.facts.get(("sent",), ()) + (c.args[-1],)), C(None))]
        h = {f"{FIELD}:ExecFields.render": render, ".render": render, "queue.Queue.put": put,
             ".put": put}
        for s, v in r.run(q + ".add_job", [me, e], hooks=h):
            if isinstance(v, Raised):
                r.bad("R5", q, f"fails with {v.exc.name}", q, describe(s))
                continue
            want = (cmd,) if s.facts.get(("ok",)) else ()
            r.check(s.facts.get(("sent",), ()) == want, "R5", f"{q}.add_job rendered="
                    f"{s.facts.get(('ok',))}", f"passes {s.facts.get(('sent',), ())} to the threads", q,
                    describe(s))
