"""P02: no entry is lost or duplicated between directory scan and output."""
from .. import walkcore
from ..lib import *
from ..report import new_state
from ..values import C, Exc, ListObj, Raised, Splice, T, Tup

EXPLANATION = (
    "Exactly-once delivery obligations, decided by path-sensitive abstract interpretation with lists "
    "of generic entries of abstract length: the directory scan (with every library error at every "
    "access), the entry loop (all verdicts, all load-sharing decisions, all chunk boundaries), the "
    "dispatch of every kind of message in a worker, the processing classes and the collecting loops "
    "of the main process. On every path each entry must end in exactly one place.")

PROC = "libff.processing"


def run(r):
    r.rule("R1", "after the entry loop every entry was judged here exactly once or passed on to other "
                 "workers exactly once; a matching entry is put out exactly once, a directory that is "
                 "not excluded is queued for searching exactly once")
    r.rule("R2", "a worker handles every item of every message it received exactly once")
    r.rule("R3", "the scan yields one entry per directory entry; an error concerns only the entry it "
                 "occurred for")
    r.rule("R4", "processing classes pass on every entry of a chunk exactly once")
    r.rule("R5", "the collecting loops keep every entry of every chunk, in order, exactly once")
    r.rule("R6", "every start directory is queued exactly once")
    r.floor = 60
    entry_loop(r)
    directory(r)
    scan(r)
    dispatch(r)
    processing(r)
    collect(r)
    start(r)


# ------------------------------------------------------------------ entry loop
def entry_loop(r):
    for share, n in ((False, 1), (False, 2), (False, 3), (True, 2), (True, 3)):
        if n == 3 and not share and not r.thorough:
            continue
        with r.guard("R1", f"entry loop, {n} entries, share={share}"):
            for s in walkcore.summaries(r, n, share):
                judge(r, s, f"{n} entries share={share}")


def judge(r, s, ctx, complete=True):
    sub = walkcore.subject(s)
    if isinstance(s.value, Raised):
        r.bad("R1", ctx, f"the entry loop fails with {s.value.exc.name}", where(s.st), describe(s.st))
        return
    for ev in s.unknown:
        r.skip("R1", f"{ctx} {sub}", f"message of unknown shape at {ev.where}")
    if s.unknown:
        return
    shared = []
    for parent, its, ev in s.shared:
        shared += its
        r.check(parent == walkcore.PARENT, "R1", f"{ctx} shared parent",
                "shared entries are passed on with a different directory", ev.where, describe(s.st))
    if any(isinstance(x, Splice) for x in shared):
        r.skip("R1", f"{ctx} {sub}", "shared list of unknown extent")
        return
    extra = [x for x, ev in s.processed if x not in s.entries]
    r.check(not extra, "R1", f"{ctx} foreign", f"something that is not an entry is put out: {extra}",
            where(s.st), describe(s.st))
    for i, e in enumerate(s.entries):
        name = f"{ctx}: entry {i} [{flags(s, e)}]"
        n_shared = shared.count(e)
        outs = [ev for x, ev in s.processed if x == e]
        downs = [(d, ev) for d, ev in s.searched if mentions(d, e)]
        at = (outs[0].where if outs else downs[0][1].where if downs else where(s.st))
        if n_shared:
            r.check(n_shared == 1, "R1", name + " shared once", "an entry is shared twice", at,
                    describe(s.st))
            r.check(not outs and not downs, "R1", name + " shared and handled",
                    "an entry is passed to another worker and handled here as well", at,
                    describe(s.st))
            continue
        if s.excluded[e] is None:
            r.bad("R1", name + " judged", "an entry is neither judged here nor passed on: it is lost",
                  at, describe(s.st))
            continue
        if s.excluded[e]:
            continue                        # P01
        want = 1 if s.matched[e] else 0
        if s.matched[e] is None:
            r.bad("R1", name + " tested", "an entry that is not excluded is never tested", at,
                  describe(s.st))
        else:
            r.check(len(outs) == want, "R1", name + " put out",
                    f"put out {len(outs)} times instead of {want}", at, describe(s.st))
        if s.isdir[e] is None:
            r.bad("R1", name + " descend", "whether the entry is a directory is never asked", at,
                  describe(s.st))
            continue
        want = 1 if s.isdir[e] else 0
        r.check(len(downs) == want, "R1", name + " descend",
                f"queued for searching {len(downs)} times instead of {want}", at, describe(s.st))
        for d, ev in downs:
            r.check(d.items[1] == T("attr", e, "relpath") and
                    d.items[0] == T("attr", walkcore.PARENT, "start"), "R1", name + " queued path",
                    f"queued as {d!r}", ev.where, describe(s.st))


def flags(s, e):
    return f"excluded={s.excluded[e]} matches={s.matched[e]} dir={s.isdir[e]}"


# ------------------------------------------------------------------ scan -> loop
def directory(r):
    w = walkcore.WALK
    for n in (0, 1, 2):
        with r.guard("R1", f"directory with {n} entries"):
            es, types = walkcore.entry_syms(r, n)

            def scanned(ip, st, call):
                st, lst = st.new(ListObj(tuple(es)))
                return [(st, lst)]
            st = new_state()
            slow = T("attr", comp("registry"), "optimize_for_slow_plugins")
            hk = {w + ".scan_directory": scanned,
                  "libff.filter:Excluder.test": walkcore.verdict("libff.filter:Excluder.test", False),
                  "libff.filter:Matcher.test": walkcore.verdict("libff.filter:Matcher.test", True)}
            domains = {slow: [C(False)]}
            for e in es:
                domains[T("attr", e, "type")] = [C("directory")]
            ip = r.interp(types=types, abs_lists=True, widen=True, domains=domains, hooks=hk,
                          opaque=walkcore.opaque)
            for s, v in r.run(w + ".process_directory", [obj(r.p, w), walkcore.PARENT], st=st, ip=ip):
                judge(r, walkcore.Summary(s, v, es), f"directory with {n} entries")


def scan(r):
    w = walkcore.WALK
    fi = r.p.func(w + ".scan_directory")
    ents = [T("sym", f"direntry{i}") for i in range(2)]
    errors = ("FileNotFoundError", "PermissionError", "OSError")

    def scandir(ip, st, call):
        st = ip.event(st, "call", "os.scandir", None, call.args, {}, call.node)
        st, lst = st.new(ListObj(tuple(ents)))
        return [(st, lst)] + [(st, Raised(Exc(x, (), call.node))) for x in errors]

    def stat(ip, st, call):
        res = T("sym", f"status<{call.recv!r}>")
        st = st.fact(("statted", call.recv), True)
        return [(st, res)] + [(st.fact(("failed", call.recv), True), Raised(Exc(x, (), call.node)))
                              for x in errors]

    def entry(ip, st, call):
        who = [e for e in ents if any(mentions(a, e) for a in call.args)]
        res = T("sym", f"entry<{who[0] if who else '?'!r}>")
        fail = st.fact(("failed", who[0]), True) if who else st
        return [(st.fact(("entry", res), who[0] if who else None), res)] + \
            [(fail, Raised(Exc(x, (), call.node))) for x in errors]
    with r.guard("R3", "directory scan"):
        ip = r.interp(abs_lists=True, widen=True, hooks={"os.scandir": scandir, ".stat": stat, "libff.entry:Entry": entry},
                      types={T("sym", f"entry<{e!r}>"): r.p.cls("libff.entry:Entry") for e in ents})
        n = 0
        st = new_state()
        for e in ents:                       # names are never empty
            st = st.fact(("truth", T("attr", e, "name")), True)
        for s, v in r.run(fi, [obj(r.p, w), walkcore.PARENT], st=st, ip=ip):
            if isinstance(v, Raised):
                r.bad("R3", f"scan raises {v.exc.name}", "an error of the scan escapes", fi.loc,
                      describe(s))
                continue
            its = items(s, v)
            if its is None:
                r.skip("R3", "scan result", f"{v!r}")
                continue
            opened = any(k[0] in ("statted", "failed") for k in s.facts)
            if not opened and not its:
                r.ok("R3", "directory cannot be read")
                continue
            n += 1
            owners = [s.facts.get(("entry", x)) for x in its]
            for i, e in enumerate(ents):
                failed = ("failed", e) in s.facts
                want = 0 if failed else 1
                other = "other fails" if any(("failed", x) in s.facts for x in ents if x != e) else ""
                r.check(owners.count(e) == want, "R3",
                        f"entry {i} {'fails' if failed else 'readable'} {other}".strip(),
                        f"the scan yields {owners.count(e)} entries instead of {want}", fi.loc,
                        describe(s))
        r.check(n > 0, "R3", "scan reaches the entries", "no path lists the directory", fi.loc)

# ------------------------------------------------------------------ worker dispatch
def nth_get(messages, final):
    """queue.get(): the n-th call returns the n-th message, later calls `final`."""
    def hook(ip, st, call):
        n = st.facts.get(("gets",), 0)
        st = st.fact(("gets",), n + 1)
        st = ip.event(st, "call", "queue.get", call.recv, call.args, call.kw, call.node)
        if n < len(messages):
            v = messages[n]
            st, v = v(st) if callable(v) else (st, v)
            return [(st, v)]
        return final(ip, st, call)
    return hook


def empty(ip, st, call):
    return [(st, Raised(Exc("queue.Empty", (), call.node)))]


def lst(*its):
    return lambda st: st.new(ListObj(tuple(its)))


def words(*cmds):
    """A message with commands: lists of words."""
    def make(st):
        its = []
        for c in cmds:
            st, one = st.new(ListObj((c,)))
            its.append(one)
        return st.new(ListObj(tuple(its)))
    return make


def command(s, x):
    its = items(s, x) if not isinstance(x, Tup) else None
    return its[0] if its else x


def dispatch(r):
    w = walkcore.WALK
    fi = r.p.func(w + ".loop")
    dcls, ecls = r.p.cls("libff:Directory"), r.p.cls("libff:Entries")
    dirs = [Tup((T("sym", f"start{i}"), T("sym", f"rel{i}"), T("sym", f"ign{i}")), cls=dcls)
            for i in range(2)]
    ents = T("sym", "entries")
    shared = Tup((walkcore.PARENT, ents), cls=ecls)
    cmds = [T("sym", f"command{i}") for i in range(2)]
    cases = {
        "directories": ([lst(*dirs)], {"process_directory": [(d,) for d in dirs]}),
        "shared entries": ([shared], {"process_entries": [(walkcore.PARENT, ents)]}),
        "commands": ([words(*cmds)], {"run_exec_process": [(c,) for c in cmds]}),
        "mixed messages": ([lst(dirs[0]), shared, words(cmds[0])],
                           {"process_directory": [(dirs[0],)],
                            "process_entries": [(walkcore.PARENT, ents)],
                            "run_exec_process": [(cmds[0],)]}),
    }
    names = ("process_directory", "process_entries", "run_exec_process")
    for name, (msgs, want) in cases.items():
        with r.guard("R2", name):
            def stopping(ip, st, call):
                return [(st, C(False))]

            def done(ip, st, call):
                return [(st, C(True))]
            ip = r.interp(abs_lists=True, widen=True, hooks={"multiprocessing.Queue.get": nth_get(msgs, empty),
                                 "libff.context:Context.is_stopping": stopping,
                                 "libff.context:Context.barrier_wait": done},
                          opaque=lambda f: f.name in names, max_loop=5)
            ended = 0
            for s, v in r.run(fi, [obj(r.p, w), C(0)], ip=ip):
                if isinstance(v, Raised):
                    r.bad("R2", name, f"the worker fails with {v.exc.name}", fi.loc, describe(s))
                    continue
                if s.facts.get(("gets",), 0) < len(msgs):
                    # the last message may belong to a path where an error was raised
                    r.bad("R2", name, "the worker ends before all messages were fetched", fi.loc,
                          describe(s))
                    continue
                ended += 1
                for what in names:
                    evs = [e for e in s.events() if e.kind == "call" and
                           e.name.endswith("." + what)]
                    got = [tuple(command(s, x) for x in e.args if x != e.recv) for e in evs]
                    exp = want.get(what, [])
                    r.check(sorted(map(repr, got)) == sorted(map(repr, exp)), "R2",
                            f"{name}: {what}",
                            f"{what} is called for {got} instead of {exp}",
                            evs[0].where if evs else fi.loc, describe(s))
            r.check(ended > 0, "R2", f"{name} handled", "no path handles the message", fi.loc)


# ------------------------------------------------------------------ processing classes
def processing(r):
    es, types = walkcore.entry_syms(r, 2)
    for cls, kind in (("ImmediateConsoleProcessing", "console"), ("ImmediateExecProcessing", "exec"),
                      ("CollectiveConsoleProcessing", "queue"), ("CollectiveExecProcessing", "queue"),
                      ("ImmediateGenerator", "queue"), ("CollectiveGenerator", "queue")):
        q = f"{PROC}:{cls}"
        with r.guard("R4", cls):
            o = obj(r.p, q)
            fi = r.p.find_method(r.p.cls(q), "process")
            st, chunk = new_state().new(ListObj(tuple(es)))

            def render(ip, st, call):
                e = call.args[-1]
                return [(st, T("sym", f"cmd<{e!r}>")),
                        (st.fact(("norender", e), True), Raised(Exc("KeyError", (), call.node)))]
            ip = r.interp(types=types, abs_lists=True, widen=True, hooks={"libff.field:ExecFields.render": render, ".render": render},
                          opaque=lambda f: "Console" in (f.cls.name if f.cls else "") and
                          "Processing" not in f.cls.name)
            for s, v in r.run(fi, [o, chunk], st=st, ip=ip):
                if isinstance(v, Raised):
                    r.bad("R4", cls, f"fails with {v.exc.name}", fi.loc, describe(s))
                    continue
                if kind == "console":
                    got = [e.args[-1] for e in s.events() if e.kind == "call" and
                           e.name.endswith(".process") and e.args]
                    r.check(got == es, "R4", f"{cls} output", f"prints {got} for a chunk of {es}",
                            fi.loc, describe(s))
                elif kind == "exec":
                    got = []
                    for e in calls(s, "put"):
                        its = items(s, e.args[-1])
                        got += its if its is not None else [e.args[-1]]
                    want = [T("sym", f"cmd<{e!r}>") for e in es if ("norender", e) not in s.facts]
                    r.check(got == want, "R4", f"{cls} commands {len(want)}",
                            f"queues {got} instead of {want}", fi.loc, describe(s))
                else:
                    got = []
                    for e in calls(s, "put"):
                        its = items(s, e.args[-1])
                        got += its if its is not None else [e.args[-1]]
                    r.check(got == es, "R4", f"{cls} queued", f"queues {got} instead of {es}",
                            fi.loc, describe(s))


def collect(r):
    es, types = walkcore.entry_syms(r, 3)
    msgs = [lst(es[0], es[1]), lst(es[2])]

    def after(ip, st, call):
        """One empty poll may precede the last chunk."""
        return empty(ip, st, call)

    def polls(seq):
        """get(): messages with an interposed empty queue."""
        def hook(ip, st, call):
            n = st.facts.get(("gets",), 0)
            st = st.fact(("gets",), n + 1)
            if n < len(seq) and seq[n] is not None:
                st, v = seq[n](st)
                return [(st, v)]
            return [(st.fact(("last_empty",), n), Raised(Exc("queue.Empty", (), call.node)))]
        return hook

    def done_after(k):
        """Processing is done only after the k-th poll."""
        def hook(ip, st, call):
            n = st.facts.get(("gets",), 0)
            return [(st, C(n > k))]
        return hook
    plans = {"chunks then end": [msgs[0], msgs[1]], "pause between chunks": [msgs[0], None, msgs[1]],
             "pause first": [None, msgs[0], msgs[1]]}
    for cls, how in (("CollectiveConsoleProcessing", "loop"), ("CollectiveExecProcessing", "loop"),
                     ("CollectiveGenerator", "loop"), ("ImmediateGenerator", "iter")):
        q = f"{PROC}:{cls}"
        for plan, seq in plans.items():
            for count in ((None, "x") if cls == "CollectiveConsoleProcessing" else (None,)):
                sub = f"{cls} {plan}" + (" counting" if count else "")
                with r.guard("R5", sub):
                    o = obj(r.p, q)
                    st, el = new_state().new(ListObj(()))
                    st = st.setfield(o, "entries", el)
                    st, fl = st.new(ListObj((T("sym", "field"),)))
                    st = st.setfield(ARGS, "count", C(None) if count is None else fl)
                    fi = r.p.find_method(r.p.cls(q), "__iter__" if how == "iter" else "loop")
                    ip = r.interp(types=types, max_loop=6, abs_lists=True, widen=True, hooks={
                        "multiprocessing.Queue.get": polls(seq),
                        "libff.context:Context.barrier_wait": done_after(len(seq)),
                        f"{PROC}:BaseProcessing.check_for_failed_processes":
                            lambda ip, st, call: [(st, C(False))]},
                        opaque=lambda f: f.name in ("collect_count", "to_dict"))
                    ended = 0
                    for s, v in r.run(fi, [o], st=st, ip=ip):
                        if isinstance(v, Raised):
                            r.bad("R5", sub, f"fails with {v.exc.name}", fi.loc, describe(s))
                            continue
                        ended += 1
                        if how == "iter":
                            got = yielded(s, v, es)
                        else:
                            got = items(s, s.fields.get((o, "entries")))
                        if got is None:
                            r.skip("R5", sub, f"result {v!r}")
                            continue
                        r.check(list(got) == es, "R5", sub,
                                f"collects {list(got)} instead of {es}", fi.loc, describe(s))
                        if count:
                            cnt = []
                            for e in calls(s, "collect_count"):
                                cnt += items(s, e.args[-1]) or [e.args[-1]]
                            r.check(cnt == es, "R5", sub + " counted",
                                    f"counts {cnt} instead of {es}", fi.loc, describe(s))
                    r.check(ended > 0, "R5", sub + " ends", "the loop does not end on any path "
                            "after processing is done", fi.loc)


def yielded(s, v, es):
    its = items(s, v)
    if its is None:
        return None
    out = []
    for x in its:
        who = [e for e in es if mentions(x, e, s)]
        out.append(who[0] if len(who) == 1 else x)
    return out


# ------------------------------------------------------------------ start directories
def start(r):
    base = T("new", r.p.cls("libff.main:_Base"), C(0))
    fi = r.p.func("libff.main:_Base.setup_walker")
    dirs = [T("sym", f"dir{i}") for i in range(2)]
    with r.guard("R6", "start directories"):
        st, dl = new_state().new(ListObj(tuple(dirs)))
        st = st.setfield(ARGS, "directories", dl)
        st = st.setfield(ARGS, "absolute_path", C(False))

        def sd(ip, st, call):
            return [(st, T("sym", f"start<{call.args[-1]!r}>"))]
        ip = r.interp(hooks={"libff.entry:StartDirectory": sd},
                      opaque=lambda f: f.name == "from_parent_directories")
        n = 0
        for s, v in r.run(fi, [base], st=st, ip=ip):
            if isinstance(v, Raised):
                r.bad("R6", f"raises {v.exc.name}", "start directories are not queued", fi.loc)
                continue
            n += 1
            got = []
            for e in calls(s, "put"):
                for i in items(s, e.args[-1]) or ():
                    got.append(i.items[0] if is_cls(i, "libff:Directory") else i)
                    if is_cls(i, "libff:Directory"):
                        r.check(i.items[1] == C(""), "R6", "relative path of start directories",
                                f"starts at {i.items[1]!r}", e.where)
            want = [T("sym", f"start<{d!r}>") for d in dirs]
            r.check(got == want, "R6", "start directories queued",
                    f"queues {got} instead of {want}", fi.loc, describe(s))
        r.check(n > 0, "R6", "start directories reached", "no path queues them", fi.loc)
