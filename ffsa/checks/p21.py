"""P21: results are collected, then sorted, then limited, then output."""
import errno
import itertools

from ..lib import *
from ..report import new_state
from ..values import C, Exc, Fn, ListObj, Raised, Ref, Splice, T, Tup
from . import p09, p22

EXPLANATION = (
    "The selection of the processing class is interpreted for every combination of the options; the chosen "
    "classes are interpreted with symbolic entries: what process() does with a chunk, what is collected from "
    "the chunks of the workers, and what finalize() sorts, cuts out and hands on, where sorting is modelled "
    "as an arbitrary fixed permutation so that every step that comes before it is seen.")

PROC = "libff.processing"
MAIN = "libff.main:Main"
FIND = "libff.find:Find"
E = [T("sym", f"entry{i}") for i in range(5)]
PERM = (3, 0, 4, 1, 2)
SETTINGS = ("sort", "count", "limit", "exec_batch", "exec")


def run(r):
    r.rule("R1", "everything is collected if the results are sorted, counted, limited, passed to one command or "
                 "printed as an array, otherwise they are processed as they come")
    r.rule("R2", "all entries of all chunks are collected, and all of them are counted")
    r.rule("R3", "the slice is cut out of the completely sorted list, and all of it is handed on in order")
    r.rule("R4", "the API sorts if asked to and yields everything in order")
    r.rule("R5", "nothing is finalized before everything is collected, and nothing is closed before that")
    r.rule("R6", "start:stop and pagesize,page denote the documented slice")
    r.floor = 150
    modes, classes = {}, {}
    with r.guard("R1", "mode"):
        modes = decision(r)
    for ci in {c.qual: c for c in modes.values()}.values():
        with r.guard("R1", ci.qual):
            classes[ci.qual] = behaviour(r, ci)
    with r.guard("R1", "modes"):
        judge(r, modes, classes)
    for ci in sorted({c.qual: c for c in modes.values()}.values(), key=lambda c: c.qual):
        b = classes.get(ci.qual)
        if b == "collects":
            with r.guard("R2", ci.qual):
                collects(r, ci)
            with r.guard("R3", ci.qual):
                finalizes(r, ci, executes=None)
    with r.guard("R3", "exec-batch"):
        batches(r, modes)
    with r.guard("R4", "API"):
        api(r)
    with r.guard("R5", "phases"):
        phases(r)
    with r.guard("R6", "slices"):
        p22.converters(r, "R6", ("type_slice",))


# ------------------------------------------------------------------ R1
def given(name):
    return T("sym", f"given_{name}")


CUTS = ((0, 1), (3, None), (-1, None), (0, 0), (2, 5), (0, -2), (-3, -1))


def configured(st, on, json=None, limit=CUTS[0]):
    for n in SETTINGS:
        if n in on:
            v = given(n) if n != "limit" else Tup(tuple(C(x) for x in limit))
            if n != "limit":
                st = st.fact(("truth", v), True).fact(("neq", v, C(None)), True)
            st = st.setfield(ARGS, n, v)
        else:
            st = st.setfield(ARGS, n, C(None))
    return st.setfield(ARGS, "json", C(json))


def decision(r):
    """{(options, json): class} chosen by the command line program."""
    p = r.p
    fi = p.find_method(p.cls(MAIN), "setup_processing")
    out = {}
    for k in range(len(SETTINGS) + 1):
        for on in itertools.combinations(SETTINGS, k):
            if "count" in on and ("limit" in on or "exec" in on or "exec_batch" in on or "sort" in on) or \
                    "exec" in on and "exec_batch" in on:
                continue                     # refused, or switched off
            for js, limit in itertools.product((None, "json", "jsonl"), CUTS if "limit" in on else CUTS[:1]):
                st = configured(new_state(), on, js, limit)
                sub = " ".join(on + ((js,) if js else ())) or "no options"
                if limit != CUTS[0]:
                    sub += f" {limit}"
                got = set()
                for s, v in r.run(fi, [obj(p, MAIN)], st=st):
                    if isinstance(v, Raised):
                        r.bad("R1", sub, f"ends with {p09.outcome_text(v)}", fi.loc, describe(s))
                        continue
                    x = s.fields.get((CTX, "processing"))
                    if isinstance(x, T) and x.op == "new":
                        got.add(x.args[0])
                    else:
                        r.skip("R1", sub, f"processing is {x!r}")
                if len(got) == 1:
                    out[(on, js, limit)] = got.pop()
                else:
                    r.skip("R1", sub, f"{len(got)} classes")
    return out


def receiver(r, ci, st, collected=()):
    me = obj(r.p, ci.qual)
    st, ref = st.new(ListObj(tuple(collected)))
    st = st.setfield(me, "entries", ref)
    st = st.setfield(me, "console", T("sym", "console"))
    return st, me


def last(e):
    """The last part of the name of a called function."""
    return e.name.split(":")[-1].split(".")[-1] if e.kind in ("call", "new", "append") else None


def behaviour(r, ci):
    """What process() does with a chunk: collects, prints or executes."""
    p = r.p
    fi = p.find_method(ci, "process")
    st = configured(new_state(), ("exec",))
    st, me = receiver(r, ci, st)
    st, chunk = st.new(ListObj(tuple(E[:2])))
    kinds = set()
    for s, v in r.run(fi, [me, chunk], st=st, hooks=render_hooks()):
        if isinstance(v, Raised):
            r.bad("R1", ci.qual, f"ends with {p09.outcome_text(v)}", fi.loc, describe(s))
            continue
        puts = [e for e in s.events() if last(e) == "put"]
        prints = [e for e in s.events() if last(e) == "process" and e.recv == T("sym", "console")]
        if prints:
            kinds.add("prints")
            got = [x for e in prints for x in e.args]
            r.check(got == E[:2], "R1", f"{ci.qual}.process", f"prints {got!r} of {E[:2]!r}", fi.loc, describe(s))
        elif puts:
            whole = [e for e in puts if any(a == chunk or items(s, a) == tuple(E[:2]) for a in e.args)]
            if whole:
                kinds.add("collects")
                r.check(len(puts) == 1, "R1", f"{ci.qual}.process", "puts a chunk more than once", fi.loc, describe(s))
            else:
                kinds.add("executes")
                got = [x for e in puts for a in e.args for i in (items(s, a) or (a,)) for x in walk_terms(i) if x in E]
                r.check(got == E[:2], "R1", f"{ci.qual}.process", f"executes {got!r} of {E[:2]!r}", fi.loc,
                        describe(s))
        else:
            kinds.add("nothing")
    if len(kinds) != 1:
        r.skip("R1", ci.qual, f"process() {sorted(kinds)}")
        return None
    return kinds.pop()


def judge(r, modes, classes):
    p = r.p
    fi = p.find_method(p.cls(MAIN), "setup_processing")
    for (on, js, limit), ci in sorted(modes.items(), key=lambda t: str(t[0])):
        sub = " ".join(on + ((js,) if js else ())) or "no options"
        if limit != CUTS[0]:
            sub += f" {limit}"
        b = classes.get(ci.qual)
        if b is None:
            r.skip("R1", sub, f"unknown behaviour of {ci.qual}")
            continue
        if on and set(on) != {"exec"} or js == "json" and "exec" not in on:
            r.check(b == "collects", "R1", sub, f"results are not collected, {ci.qual} {b} them at once", fi.loc)
        else:
            want = "executes" if "exec" in on else "prints"
            if js == "json" and "exec" in on:
                r.check(b in ("collects", want), "R1", sub, f"{ci.qual} {b} the results", fi.loc)
            else:
                r.check(b in ("collects", want), "R1", sub, f"{ci.qual} {b} the results", fi.loc)


# ------------------------------------------------------------------ R2
def chunked(r, ci):
    """[(count, state, list of entries, counted chunks)] after loop() over three chunks."""
    p = r.p
    fi = p.find_method(ci, "loop")
    gen = p.find_method(ci, "iter_chunks")
    out = []
    for on in (("count",), ("sort",), ("sort", "limit"), ("sort", "limit", "exec"), ("exec_batch",)):
        count = on == ("count",)
        st = configured(new_state(), on)
        if "limit" in on:
            st = st.setfield(ARGS, "limit", Tup((C(0), C(2))))
        st, me = receiver(r, ci, st)
        refs = []
        for part in (E[:2], [], E[2:3], E[3:]):
            st, x = st.new(ListObj(tuple(part)))
            refs.append(x)

        def chunks(ip, s, c):
            s, x = s.new(ListObj(tuple(refs)))
            return [(s, x)]
        counted = p.find_method(ci, "collect_count")
        hk = {gen.qual: chunks} if gen else {}
        if counted:
            hk[counted.qual] = lambda ip, s, c: [(ip.event(s, "counted", "count", None, [tuple_of(s, c)], {}, c.node),
                                                  C(None))]
        for s, v in r.run(fi, [me], st=st, hooks=hk, max_loop=8, max_elems=8):
            if isinstance(v, T) and v.op == "cut":
                continue
            out.append((count, s, v, items(s, s.fields.get((me, "entries")))))
    return fi, out


def tuple_of(s, c):
    a = [x for x in c.args if items(s, x) is not None]
    return Tup(items(s, a[0])) if a else C(None)


def collects(r, ci):
    fi, res = chunked(r, ci)
    for count, s, v, got in res:
        sub = f"{ci.qual}.loop" + (" with --count" if count else "")
        if isinstance(v, Raised):
            r.bad("R2", sub, f"ends with {p09.outcome_text(v)}", fi.loc, describe(s))
            continue
        if got is None or any(isinstance(x, Splice) for x in got):
            r.skip("R2", sub, f"the collected list is {got!r}")
            continue
        r.check(sorted(map(repr, got)) == sorted(map(repr, E)), "R2", sub, f"collects {list(got)!r} of {E!r}", fi.loc,
                describe(s))
        if count and r.p.find_method(ci, "collect_count"):
            n = [x for e in s.events() if e.name == "count" for a in e.args for x in walk_terms(a) if x in E]
            r.check(sorted(map(repr, n)) == sorted(map(repr, E)), "R2", sub + ": count", f"counts {n!r} of {E!r}",
                    fi.loc, describe(s))


# ------------------------------------------------------------------ R3
def render_hooks():
    def render(ip, s, c):
        a = [x for x in c.args if x != c.recv]
        its = items(s, a[0]) if a else None
        return [(s, T("sym", "rendered", c.recv, *(its if its is not None else a)))]
    return {f"libff.field:{n}.render": render for n in ("Fields", "SortFields", "ExecFields", "ExecBatchFields",
                                                        "OutputFields", "CountFields")} | {".render": render}


def sort_hooks(r, keys):
    """Sorting applies one fixed permutation; the keys are recorded."""
    def permuted(ip, s, its, kw):
        key = kw.get("key")
        if key is not None:
            for x, v in ip.call_value(key, [T("sym", "probe")], {}, s, None):
                keys.append(v)
        else:
            keys.append(None)
        rev = kw.get("reverse", C(False))
        rev = val(s, rev)
        if not isinstance(rev, C):
            raise ValueError("reverse")
        p = [its[i] for i in PERM if i < len(its)]
        return p[::-1] if rev.v else p

    def sort(ip, s, c):
        its = items(s, c.recv)
        if its is None:
            return None
        s = ip.event(s, "sorted", "sorted", c.recv, [], {}, c.node)
        return [(s.put(c.recv, s.heap[c.recv.id].with_items(tuple(permuted(ip, s, its, c.kw)))), C(None))]

    def srt(ip, s, c):
        its = items(s, c.args[0])
        if its is None:
            return None
        s = ip.event(s, "sorted", "sorted", c.args[0], [], {}, c.node)
        s, x = s.new(ListObj(tuple(permuted(ip, s, its, c.kw))))
        return [(s, x)]
    return {".sort": sort, "builtins.sorted": srt}


LIMITS = (None, (0, 1), (0, 3), (1, 3), (2, None), (-2, None), (0, -1), (1, -1), (7, 9), (0, 0), (3, 8))


def finalizes(r, ci, executes):
    """Everything in the slice of the sorted list is handed on, in order."""
    p = r.p
    fi = p.find_method(ci, "finalize")
    kinds = ("exec",) if "Exec" in ci.name else ("print",)
    # a class that runs commands does not know the console
    for sort in (True, False):
        for rev in (False, True):
            for lim in LIMITS:
                on = (("sort",) if sort else ()) + (("limit",) if lim else ()) + \
                    (("exec",) if kinds == ("exec",) else ())
                st = configured(new_state(), on)
                if lim:
                    st = st.setfield(ARGS, "limit", Tup((C(lim[0]), C(lim[1]))))
                st = st.setfield(ARGS, "reverse", C(rev))
                st, me = receiver(r, ci, st, E)
                keys = []
                hk = {**render_hooks(), **sort_hooks(r, keys)}
                order = [E[i] for i in PERM] if sort else list(E)
                if sort and rev:
                    order = order[::-1]
                want = order[lim[0]:lim[1]] if lim else order
                sub = f"{ci.name}: " + " ".join((["sort"] if sort else []) + (["reverse"] if rev else []) +
                                                ([f"limit {lim}"] if lim else ["no limit"]))
                n = 0
                for s, v in r.run(fi, [me], st=st, hooks=hk, max_loop=12, max_elems=12):
                    if isinstance(v, T) and v.op == "cut":
                        continue
                    n += 1
                    if isinstance(v, Raised):
                        r.bad("R3", sub, f"ends with {p09.outcome_text(v)}", fi.loc, describe(s))
                        continue
                    got = handed(s)
                    r.check(got == want, "R3", sub, f"hands on {got!r}, should be {want!r}", fi.loc, describe(s))
                if sort:
                    good = [k for k in keys if mentions_key(k)]
                    r.check(keys and len(good) == len(keys), "R3", sub + ": key", f"the sort key is {keys!r}", fi.loc)
                if not n:
                    r.skip("R3", sub, "no outcome")


def mentions_key(k):
    return isinstance(k, T) and T("sym", "probe") in set(walk_terms(k)) and given("sort") in set(walk_terms(k))


def handed(s):
    """The entries printed or given to a command, in order."""
    out = []
    for e in s.events():
        if last(e) == "process" and e.recv == T("sym", "console") or \
                last(e) in ("put", "put_nowait", "add_job", "submit") and \
                not any(isinstance(a, C) for a in e.args):
            if last(e) == "add_job" and any(last(x) == "put" for x in s.events()):
                continue
            out += [x for a in e.args for x in walk_terms(a) if x in E]
    return out


# ------------------------------------------------------------------ R3, one command
def batches(r, modes):
    p = r.p
    ci = modes.get((("exec_batch",), None, CUTS[0]))
    if ci is None:
        r.skip("R3", "exec-batch", "unknown class")
        return
    fi = p.find_method(ci, "finalize")
    limits = (None, (1, 4), (0, 0)) if not r.thorough else LIMITS
    for size in (1, 2, 3, 5):
        for lim in limits:
            for sort in (False, True):
                on = ("exec_batch",) + (("sort",) if sort else ()) + (("limit",) if lim else ())
                st = configured(new_state(), on).setfield(ARGS, "reverse", C(False))
                if lim:
                    st = st.setfield(ARGS, "limit", Tup((C(lim[0]), C(lim[1]))))
                st, me = receiver(r, ci, st, E)

                def execute(ip, s, c, size=size):
                    a = c.args[0]
                    ents = [x for x in a.args[2:]] if isinstance(a, T) and a.op == "sym" and a.args[0] == "rendered" \
                        else None
                    if ents is None:
                        raise ValueError("command of an unknown form")
                    if len(ents) > size:
                        exc = Exc("OSError", (), c.node)
                        return [(s.setfield(exc, "errno", C(errno.E2BIG)), Raised(exc))]
                    s = ip.event(s, "executed", "executed", None, ents, {}, c.node)
                    proc = T("sym", "process")
                    return [(s.setfield(proc, "returncode", C(0)), proc)]

                def call(ip, s, c):
                    return [(x, v if isinstance(v, Raised) else C(0)) for x, v in execute(ip, s, c)]
                hk = {**render_hooks(), **sort_hooks(r, []), "subprocess.run": execute,
                      "subprocess.Popen": execute, "subprocess.call": call,
                      "libff.context:Context.set_exitcode": lambda ip, s, c: [(s, C(None))]}
                order = [E[i] for i in PERM] if sort else list(E)
                want = order[lim[0]:lim[1]] if lim else order
                sub = f"exec-batch of {size} at once" + (" sorted" if sort else "") + (f" limit {lim}" if lim else "")
                n = 0
                for s, v in r.run(fi, [me], st=st, hooks=hk, max_loop=16, max_elems=16):
                    if isinstance(v, T) and v.op == "cut":
                        continue
                    n += 1
                    if isinstance(v, Raised):
                        r.bad("R3", sub, f"ends with {p09.outcome_text(v)}", fi.loc, describe(s))
                        continue
                    got = [x for e in s.events() if e.name == "executed" for x in e.args]
                    r.check(got == want, "R3", sub, f"executed with {got!r}, should be {want!r}", fi.loc, describe(s))
                if not n:
                    r.skip("R3", sub, "no outcome")


# ------------------------------------------------------------------ R4
def api(r):
    p = r.p
    fi = p.find_method(p.cls(FIND), "setup_processing")
    for sort, rev in itertools.product((False, True), repeat=2):
        st = configured(new_state(), ("sort",) if sort else ()).setfield(ARGS, "reverse", C(rev))
        if not sort:
            st, x = st.new(ListObj(()))
            st = st.setfield(ARGS, "sort", x)
        got = set()
        for s, v in r.run(fi, [obj(p, FIND)], st=st):
            x = s.fields.get((CTX, "processing"))
            if isinstance(x, T) and x.op == "new":
                got.add(x.args[0])
        if len(got) != 1:
            r.skip("R4", f"API {'with' if sort else 'without'} sort", f"{len(got)} classes")
            continue
        ci = got.pop()
        b = behaviour(r, ci)
        r.check(b == "collects", "R4", ci.qual, f"process() {b} the results", fi.loc)
        yields(r, ci, sort, rev, f"API {'with' if sort else 'without'} sort" + (", reverse" if rev else ""))


def yields(r, ci, sort, rev, sub):
    """loop(), finalize() and iteration of the API."""
    p = r.p
    gen = p.find_method(ci, "iter_chunks")
    st = configured(new_state(), ("sort",) if sort else ())
    if not sort:
        st, x = st.new(ListObj(()))
        st = st.setfield(ARGS, "sort", x)
    st = st.setfield(ARGS, "reverse", C(rev)).setfield(ARGS, "output", T("sym", "output"))
    st, me = receiver(r, ci, st)
    refs = []
    for part in (E[:2], [], E[2:3], E[3:]):
        st, x = st.new(ListObj(tuple(part)))
        refs.append(x)
    taken = T("sym", "taken")

    def chunks(ip, s, c):
        if s.facts.get(("taken",)):
            return [s.new(ListObj(()))]
        return [s.fact(("taken",), True).new(ListObj(tuple(refs)))]

    def to_dict(ip, s, c):
        a = [x for x in c.args if x != c.recv]
        return [(s, T("sym", "dict", *a))]
    keys = []
    hk = {**render_hooks(), **sort_hooks(r, keys), ".to_dict": to_dict, "libff.field:OutputFields.to_dict": to_dict}
    if gen is not None:
        hk[gen.qual] = chunks
    ip = r.interp(hooks=hk, max_loop=12, max_elems=12)
    cur = [st]
    for name in ("loop", "finalize"):
        f = p.find_method(ci, name)
        nxt = []
        for s in cur:
            for x, v in ip.call_func(f, [me], {}, s, None):
                if isinstance(v, Raised):
                    r.bad("R4", f"{sub}: {name}", f"ends with {p09.outcome_text(v)}", f.loc, describe(x))
                elif not (isinstance(v, T) and v.op == "cut"):
                    nxt.append(x)
        cur = nxt
    f = p.find_method(ci, "__iter__")
    n = 0
    order = [E[i] for i in PERM] if sort else list(E)
    if sort and rev:
        order = order[::-1]
    for s in cur:
        for x, v in ip.call_func(f, [me], {}, s, None):
            n += 1
            its = items(x, v)
            if its is None:
                r.skip("R4", sub, f"iteration yields {v!r}")
                continue
            got = [y for i in its for y in walk_terms(i) if y in E]
            r.check(got == order and len(its) == len(order), "R4", sub, f"yields {got!r}, should be {order!r}", f.loc,
                    describe(x))
    if sort:
        r.check(keys and all(mentions_key(k) for k in keys), "R4", sub + ": key", f"the sort key is {keys!r}", f.loc)
    r.account(ip, n)
    if not n:
        r.skip("R4", sub, "no outcome")


# ------------------------------------------------------------------ R5
def phases(r):
    p = r.p
    for q, name in ((MAIN, "walk"), (FIND, "__iter__")):
        fi = p.find_method(p.cls(q), name)
        st = configured(new_state(), ()).setfield(ARGS, "profile", C(None)).setfield(ARGS, "fail", C(False))
        proc = T("sym", "processing")
        st = st.setfield(CTX, "processing", proc)
        n = 0
        for s, v in r.run(fi, [obj(p, q)], st=st, max_loop=4, opaque=lambda f: f.cls is not None and f.cls.name in (
                "FilesystemWalker", "Context", "Cache", "NullCache")):
            if isinstance(v, T) and v.op == "cut":
                continue
            seq = [last(e) for e in s.events() if e.recv == proc and last(e) in ("loop", "finalize", "close")]
            n += 1
            sub = f"{q}.{name}"
            want = ["loop", "finalize", "close"]
            if isinstance(v, Raised) and raised_name(v) not in ("ProcessError", "NoResultError", "SubprocessError"):
                r.check(seq == want[:len(seq)], "R5", sub + " with an error", f"the order is {seq}", fi.loc,
                        describe(s))
                continue
            r.check(seq == want, "R5", sub, f"the order is {seq}", fi.loc, describe(s))
        if not n:
            r.skip("R5", f"{q}.{name}", "no outcome")
