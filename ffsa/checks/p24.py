"""P24: workers end exactly when all work is done or a stop was requested."""
import ast
import itertools

from ..lib import *
from ..report import Undecided, new_state
from ..shared import BARRIER, Shared, barriers, counters
from ..values import C, Exc, Fn, ListObj, Raised, T, Tup

EXPLANATION = (
    "The shared objects of the processes (counters, queues, barrier) are modelled from the constructors "
    "of the program. The worker loop, the loops of the main process and the producers of work are "
    "interpreted on this model for every order of deliveries, empty polls, timeouts and agreements: a "
    "loop may end without a stop only when every chunk that was put has been processed, and must end "
    "once all agreed. Chunks counted and chunks queued are compared on every path. The releases of the main process "
    "are followed on every path.")

CONTEXT = "libff.context:Context"
WALK = "libff.walk:FilesystemWalker"
PROC = "libff.processing:"
EMPTY = "queue.Empty"


def run(r):
    r.rule("R1", "every chunk put into the queue of the workers is counted exactly once by the one who puts it, and nothing else is")
    r.rule("R2", "a worker ends without a stop only if nothing is left, and does end then")
    r.rule("R3", "the number of parties that have to agree is the number of workers plus the main process")
    r.rule("R4", "the main process ends collecting only when every chunk of results has arrived")
    r.rule("R5", "a stop ends every loop, and an interrupted search requests a stop")
    r.rule("R6", "the main process releases everything exactly once after the end")
    r.floor = 100
    for rule, f in (("R1", barrier), ("R1", put), ("R1", producers), ("R2", worker), ("R3", parties),
                    ("R4", collecting), ("R4", waiting), ("R2", patience), ("R5", requests), ("R5", interrupted), ("R6", released)):
        with r.guard(rule, f.__name__):
            f(r)


def settings(jobs=2, profile=None, **kw):
    st = new_state()
    base = dict(jobs=C(jobs), profile=C(profile), count=C(None), json=C(None), limit=C(None), sort=C(None),
                color=C("never"), halt=C("never"))
    base.update(kw)
    for k, v in base.items():
        st = st.setfield(ARGS, k, v)
    return st


def started(r, ip, st):
    """(state, walker) after the context and the walker were set up."""
    p = r.p
    out = []
    for s, v in ip.call_func(p.func(CONTEXT + ".setup"), [CTX], {}, st, None):
        if isinstance(v, Raised):
            continue
        for s2, w in ip.call_value(Fn("class", p.cls(WALK)), [CTX], {}, s, None):
            if not isinstance(w, Raised):
                # The walker is known to the other components as the one of the context.
                for (base, name), x in list(s2.fields.items()):
                    if base == w:
                        s2 = s2.setfield(comp("walker"), name, x)
                out.append((s2, comp("walker")))
    if len(out) != 1:
        raise Undecided(f"{len(out)} paths through the setup")
    return out[0]


def interp(r, shared, hooks=None, inst=(), max_loop=6, **kw):
    h = shared.hooks()
    h.update(hooks or {})
    return r.interp(hooks=h, inst={WALK} | set(inst), max_loop=max_loop, **kw)


def walker_queue(s, w):
    q = [v for (b, n), v in s.fields.items() if b == w and isinstance(v, T) and v.op == "mp queue"]
    if len(q) != 1:
        raise Undecided(f"the walker has {len(q)} queues")
    return q[0]


def total(s):
    return {k: v.v for k, v in counters(s).items() if isinstance(v, C)}


# ------------------------------------------------------------------ R1
def barrier(r):
    """Passing the barrier before and after chunks are put."""
    p = r.p
    fi = p.func(CONTEXT + ".barrier_wait")
    fp = p.find_method(p.cls(WALK), "put")
    for n in (0, 1, 2, 5):
        sub = f"{n} chunks are left"
        with r.guard("R1", sub):
            ip = interp(r, Shared())
            s, w = started(r, ip, settings())
            for i in range(n):
                s, _ = one(ip.call_func(fp, [w, T("sym", f"chunk{i}")], {}, s, None))
            passed = 0
            res = ip.call_func(fi, [CTX], {}, s, None)
            r.account(ip, len(res))
            for s2, v in res:
                if isinstance(v, Raised):
                    r.bad("R1", sub, f"waiting for the others fails with {v.exc.name}", fi.loc, describe(s2))
                    continue
                t = truth_fact(s2, v)
                if s2.facts.get(("passed",)):
                    passed += 1
                    r.check(n == 0, "R1", sub, "all processes agree on the end although chunks are left", fi.loc,
                            describe(s2))
                    r.check(t is True, "R1", f"{sub}: passed", "the agreement is not noticed", fi.loc, describe(s2))
                else:
                    r.check(t is False, "R1", f"{sub}: not passed", "the end is assumed although not all agreed",
                            fi.loc, describe(s2))
            if n == 0:
                r.check(passed > 0, "R1", sub, "the processes never agree on the end", fi.loc)
    with r.guard("R1", "stop"):
        ip = interp(r, Shared(stop=lambda s: True))
        s, w = started(r, ip, settings())
        s, _ = one(ip.call_func(fp, [w, T("sym", "chunk")], {}, s, None))
        for s2, v in ip.call_func(fi, [CTX], {}, s, None):
            r.check(truth_fact(s2, v) is True, "R5", "stop while waiting", "a worker that waits for the others "
                    "does not notice the stop", fi.loc, describe(s2))


def one(res):
    good = [(s, v) for s, v in res if not isinstance(v, Raised)]
    if len(good) != 1:
        raise Undecided(f"{len(good)} paths")
    return good[0]


def counted(r, s, q, before, sub, fi, want=None):
    """Counts and puts along a path: as many chunks are counted as are put."""
    puts = [e for e in s.events() if e.kind == "queued" and e.recv == q]
    start = before
    end = total(s)
    changed = [k for k in end if end[k] != start.get(k)]
    n = len(puts)
    if want is not None and n != want:
        r.bad("R1", f"{sub}: chunks", f"{n} chunks are put instead of {want}", fi.loc, describe(s))
    if n == 0:
        r.check(not changed, "R1", sub, "a chunk is counted that is never put", fi.loc, describe(s))
        return
    fit = [k for k in changed if end[k] - start.get(k, 0) == n]
    if not fit:
        r.bad("R1", sub, f"{n} chunks are put but {[end[k] - start.get(k, 0) for k in changed] or 0} are counted",
              puts[0].where, describe(s))
        return


def put(r):
    p = r.p
    fp = p.find_method(p.cls(WALK), "put")
    ip = interp(r, Shared())
    s, w = started(r, ip, settings())
    before = total(s)
    for s2, v in ip.call_func(fp, [w, T("sym", "chunk")], {}, s, None):
        counted(r, s2, walker_queue(s, w), before, "put", fp, 1)
        e = [e for e in s2.events() if e.kind == "queued"]
        r.check(len(e) == 1 and e[0].args[0] == T("sym", "chunk"), "R1", "put: chunk", "another chunk is put", fp.loc)


def producers(r):
    p = r.p
    # Directories found by a worker.
    for jobs, n in ((1, 3), (4, 25), (2, 11)):
        sub = f"{n} directories, {jobs} jobs"
        with r.guard("R1", sub):
            es = [T("sym", f"entry{i}") for i in range(n)]
            hk = {"libff.filter:Matcher.test": lambda ip, s, c: [(s, C(False))],
                  "libff.filter:Excluder.test": lambda ip, s, c: [(s, C(False))],
                  ".is_dir": lambda ip, s, c: [(s, C(True))], "libff.entry:Entry.is_dir": lambda ip, s, c: [(s, C(True))],
                  CONTEXT + ".idle_processes": lambda ip, s, c: [(s, C(0))]}
            fi = p.find_method(p.cls(WALK), "process_entries")
            ip = interp(r, Shared(), hk, max_loop=n + 3, max_elems=n + 3, types={e: p.cls("libff.entry:Entry") for e in es})
            s, w = started(r, ip, settings(jobs))
            s = s.setfield(comp("registry"), "optimize_for_slow_plugins", C(False))
            s, l = s.new(ListObj(tuple(es)))
            before = total(s)
            res = ip.call_func(fi, [w, T("sym", "parent"), l], {}, s, None)
            r.account(ip, len(res))
            for s2, v in res:
                if isinstance(v, Raised) or isinstance(v, T) and v.op == "cut":
                    continue
                counted(r, s2, walker_queue(s, w), before, sub, fi)
    # Entries handed over to idle workers.
    with r.guard("R1", "shared entries"):
        n = 14
        es = [T("sym", f"entry{i}") for i in range(n)]
        hk = {"libff.filter:Matcher.test": lambda ip, s, c: [(s, C(False))],
              "libff.filter:Excluder.test": lambda ip, s, c: [(s, C(False))],
              ".is_dir": lambda ip, s, c: [(s, C(False))], "libff.entry:Entry.is_dir": lambda ip, s, c: [(s, C(False))],
              CONTEXT + ".idle_processes": lambda ip, s, c: [(s, C(4))]}
        fi = p.find_method(p.cls(WALK), "process_entries")
        ip = interp(r, Shared(), hk, max_loop=n + 3, max_elems=n + 3, types={e: p.cls("libff.entry:Entry") for e in es})
        s, w = started(r, ip, settings(4))
        s = s.setfield(comp("registry"), "optimize_for_slow_plugins", C(True))
        s, l = s.new(ListObj(tuple(es)))
        before = total(s)
        res = ip.call_func(fi, [w, T("sym", "parent"), l], {}, s, None)
        r.account(ip, len(res))
        for s2, v in res:
            if not isinstance(v, Raised) and not (isinstance(v, T) and v.op == "cut"):
                counted(r, s2, walker_queue(s, w), before, "shared entries", fi)
    # Commands of -x.
    for n in (1, 3):
        sub = f"commands of {n} entries"
        with r.guard("R1", sub):
            q = PROC + "ImmediateExecProcessing"
            fi = p.find_method(p.cls(q), "process")

            def render(ip, s, c):
                return [(s, T("sym", "command")), (s, Raised(Exc("KeyError", (), c.node)))]
            ip = interp(r, Shared(), {".render": render, "libff.field:ExecFields.render": render}, inst={q})
            s, w = started(r, ip, settings())
            s = s.setfield(ARGS, "exec", T("sym", "exec"))
            s, me = one(ip.call_value(Fn("class", p.cls(q)), [CTX], {}, s, None))
            s, l = s.new(ListObj(tuple(T("sym", f"entry{i}") for i in range(n))))
            before = total(s)
            res = ip.call_func(fi, [me, l], {}, s, None)
            r.account(ip, len(res))
            for s2, v in res:
                if not isinstance(v, Raised):
                    flags = {k: x for k, x in before.items()}
                    counted_exec(r, s2, walker_queue(s, w), flags, sub, fi)
    # Start directories.
    with r.guard("R1", "start directories"):
        base = T("new", p.cls("libff.main:_Base"), C(0))
        fi = p.func("libff.main:_Base.setup_walker")
        hk = {"libff.entry:StartDirectory": lambda ip, s, c: [(s, T("sym", "start"))]}
        ip = interp(r, Shared(), hk, opaque=lambda f: f.name == "from_parent_directories")
        st = settings(absolute_path=C(False), no_parent_ignore=C(True))
        st, dl = st.new(ListObj((T("sym", "d0"), T("sym", "d1"), T("sym", "d2"))))
        st = st.setfield(ARGS, "directories", dl)
        s, v = one(ip.call_func(p.func(CONTEXT + ".setup"), [CTX], {}, st, None))
        before = total(s)
        res = ip.call_func(fi, [base], {}, s, None)
        r.account(ip, len(res))
        for s2, v in res:
            if isinstance(v, Raised):
                continue
            w = s2.fields.get((CTX, "walker"))
            if w is None:
                raise Undecided("the walker is not known")
            counted(r, s2, walker_queue(s2, w), before, "start directories", fi)


def counted_exec(r, s, q, before, sub, fi):
    """As counted(), but the flag for results is set as well."""
    puts = [e for e in s.events() if e.kind == "queued" and e.recv == q]
    counters_ = {k: v for k, v in before.items()}
    end = total(s)
    # A flag that went from 0 to 1 is no count unless exactly one chunk was put.
    if len(puts) == 0:
        moved = [k for k in end if end[k] - counters_.get(k, 0) > 1]
        r.check(not moved, "R1", sub, "a command is counted that is never put", fi.loc, describe(s))
        return
    counted(r, s, q, before, sub, fi)


# ------------------------------------------------------------------ R2
def messages(r, s, k):
    """k messages of different kinds."""
    p = r.p
    out = []
    for i in range(k):
        if i % 3 == 0:
            d = Tup((T("sym", f"start{i}"), T("sym", f"rel{i}"), T("sym", f"ign{i}")), cls=p.cls("libff:Directory"))
            s, v = s.new(ListObj((d,)))
        elif i % 3 == 1:
            v = Tup((T("sym", f"parent{i}"), T("sym", f"entries{i}")), cls=p.cls("libff:Entries"))
        else:
            s, a = s.new(ListObj((C("cmd"), C(str(i)))))
            s, v = s.new(ListObj((a,)))
        out.append(v)
    return s, out


WORK = ("process_directory", "process_entries", "process_arguments")


def scripts(k, thorough):
    """Orders of deliveries and empty polls."""
    yield tuple(range(k))
    for gaps in itertools.product((0, 1), repeat=k):
        if any(gaps):
            seq = []
            for i in range(k):
                seq += ["E"] * gaps[i] + [i]
            yield tuple(seq)
    if thorough:
        for gaps in itertools.product((0, 1, 2), repeat=k):
            if 2 in gaps:
                seq = []
                for i in range(k):
                    seq += ["E"] * gaps[i] + [i]
                yield tuple(seq)


def worker(r):
    p = r.p
    fi = p.func(WALK + ".loop")
    fp = p.find_method(p.cls(WALK), "put")
    for k in (0, 1, 2, 3):
        for lost in (0, 1):
            for script in scripts(k, r.thorough):
                for stop in (None, 1) if k in (1, 3) else (None,):
                    sub = f"{k} chunks delivered as {script}" + (", one on its way to another worker" if lost else "") + \
                          (f", stop after {stop} polls" if stop is not None else "")
                    with r.guard("R2", sub):
                        loop_of_worker(r, fi, fp, k, lost, script, stop, sub)


def loop_of_worker(r, fi, fp, k, lost, script, stop, sub):
    p = r.p
    msgs = []

    def get(ip, s, q, c):
        n = s.facts.get(("polls",), 0)
        s = s.fact(("polls",), n + 1)
        if s.facts.get(("passed",)):
            s = s.fact(("polled after the end",), True)
        s = snapshot(s, "poll")
        if n < len(script) and script[n] != "E":
            return [(s.fact(("delivered",), s.facts.get(("delivered",), 0) + 1), msgs[script[n]])]
        return [(s, Raised(Exc(EMPTY, (), c.node)))]

    def snapshot(s, what):
        return s.fact(("left",), tuple(sorted(total(s).items(), key=repr)))

    def work(ip, s, c):
        s = ip.event(s, "work", "work", None, list(c.args), {}, c.node)
        return [(s.fact(("worked",), s.facts.get(("worked",), 0) + 1), C(None))]
    hk = {f"{WALK}.{n}": work for n in WORK}
    hk[CONTEXT + ".run_exec_process"] = work
    sh = Shared(get=get, limit=max(4, script.count("E") + 2), stop=(lambda s: s.facts.get(("polls",), 0) >= stop) if stop is not None else None)
    ip = interp(r, sh, hk, max_loop=len(script) + 5)
    s, w = started(r, ip, settings())
    s, ms = messages(r, s, k)
    msgs.extend(ms)
    empty = total(s)
    for m in ms + [T("sym", "another chunk")] * lost:
        s, _ = one(ip.call_func(fp, [w, m], {}, s, None))
    full = total(s)
    ip.steps = 0
    res = ip.call_func(fi, [w, C(0)], {}, s, None)
    r.account(ip, len(res))
    ended = passed = 0
    for s2, v in res:
        if isinstance(v, Raised):
            if not v.exc.name.startswith("SystemExit"):
                r.bad("R2", sub, f"the worker fails with {v.exc.name}", fi.loc, describe(s2))
            continue
        done = s2.facts.get(("worked",), 0)
        got = s2.facts.get(("delivered",), 0)
        r.check(not s2.facts.get(("polled after the end",)), "R2", f"{sub}: after the end",
                "a worker goes on after all agreed on the end", fi.loc, describe(s2))
        if isinstance(v, T) and v.op == "cut":
            if stop is not None:
                r.bad("R5", sub, "a worker goes on although a stop was requested", fi.loc, describe(s2))
            continue
        ended += 1
        if s2.facts.get(("passed",)):
            passed += 1
        if stop is not None:
            r.check(got <= stop + 1, "R5", f"{sub}: chunks", f"a worker takes {got} chunks although a stop was requested",
                    fi.loc, describe(s2))
            continue
        r.check(bool(s2.facts.get(("passed",))), "R2", f"{sub}: agreement", "a worker ends although the others did "
                "not agree", fi.loc, describe(s2))
        r.check(got == k and done == k and not lost, "R2", sub, f"a worker ends after {done} of {k + lost} chunks",
                fi.loc, describe(s2))
        left = total(s2)
        r.check(left == empty, "R2", f"{sub}: count", "the count is not zero after everything is processed", fi.loc,
                describe(s2))
    if stop is not None:
        r.check(ended > 0, "R5", sub, "a worker never ends after a stop", fi.loc)
    elif not lost:
        r.check(passed > 0, "R2", f"{sub}: end", "a worker never ends although nothing is left", fi.loc)


# ------------------------------------------------------------------ R3
def parties(r):
    p = r.p
    fi = p.func(WALK + ".start_processes")
    for jobs in (1, 2, 5) + ((8,) if r.thorough else ()):
        sub = f"{jobs} jobs"
        with r.guard("R3", sub):
            def new(ip, s, c):
                n = s.facts.get(("made",), 0)
                return [(s.fact(("made",), n + 1), T("sym", f"process{n}"))]

            def start(ip, s, c):
                if isinstance(c.recv, T) and str(c.recv.args[0]).startswith("process"):
                    return [(s.fact(("started", c.recv), s.facts.get(("started", c.recv), 0) + 1), C(None))]
                return None
            ip = interp(r, Shared(), {"multiprocessing.Process": new, ".start": start}, max_loop=jobs + 3)
            s, w = started(r, ip, settings(jobs))
            bs = barriers(s)
            if len(bs) != 1:
                raise Undecided(f"{len(bs)} barriers")
            n = list(bs.values())[0][0]
            res = ip.call_func(fi, [w], {}, s, None)
            r.account(ip, len(res))
            for s2, v in res:
                if isinstance(v, Raised) or isinstance(v, T) and v.op == "cut":
                    continue
                up = sum(x for k, x in s2.facts.items() if k[0] == "started")
                r.check(up == jobs, "R3", f"{sub}: started", f"{up} workers are started for {jobs} jobs", fi.loc,
                        describe(s2))
                if not isinstance(n, C):
                    r.skip("R3", sub, f"parties {n!r}")
                else:
                    r.check(n.v == up + 1, "R3", sub, f"{n.v} processes have to agree, but {up} workers and the main "
                            "process take part", p.func(CONTEXT + ".setup").loc, describe(s2))
    with r.guard("R3", "profile"):
        for debug, want in ((True, 1), (False, 3)):
            ip = interp(r, Shared(), debug=debug)
            s, w = started(r, ip, settings(2, profile="x"))
            bs = barriers(s)
            n = list(bs.values())[0][0] if len(bs) == 1 else None
            if isinstance(n, C):
                r.check(n.v == want, "R3", f"profiling, debug={debug}", f"{n.v} processes have to agree",
                        p.func(CONTEXT + ".setup").loc)


# ------------------------------------------------------------------ R4
def collecting(r):
    p = r.p
    for cls, how in (("CollectiveConsoleProcessing", "loop"), ("CollectiveExecProcessing", "loop"),
                     ("CollectiveGenerator", "loop"), ("ImmediateGenerator", "__iter__")):
        for k in (0, 1, 2):
            for script in scripts_late(k, r.thorough):
                sub = f"{cls}, {k} chunks arriving as {script}"
                with r.guard("R4", sub):
                    collect(r, cls, how, k, script, sub)
            with r.guard("R4", f"{cls}, a chunk is lost after {k}"):
                collect(r, cls, how, k, tuple(range(k)), f"{cls}, a chunk is lost after {k}", lost=True)


def scripts_late(k, thorough):
    """Deliveries with empty polls in between, also after the agreement ('P': the next agreement passes)."""
    most = 3 if thorough else 2
    seen = set()
    for gaps in itertools.product(range(most + 1), repeat=k):
        seq = []
        for i in range(k):
            seq += ["E"] * gaps[i] + [i]
        if tuple(seq) not in seen:
            seen.add(tuple(seq))
            yield tuple(seq)


def collect(r, cls, how, k, script, sub, lost=False):
    p = r.p
    q = PROC + cls
    es = [T("sym", f"entry{i}") for i in range(2 * k)]
    chunks = []

    def get(ip, s, qu, c):
        n = s.facts.get(("polls",), 0)
        s = s.fact(("polls",), n + 1)
        if n < len(script) and script[n] != "E":
            return [(s.fact(("delivered",), s.facts.get(("delivered",), 0) + 1), chunks[script[n]])]
        return [(s, Raised(Exc(EMPTY, (), c.node)))]

    def alive(ip, s, c):
        # After the agreement a worker ends as soon as what it put has been delivered.
        if not s.facts.get(("passed",)):
            return [(s, C(True))]
        if s.facts.get(("gone", c.recv)):
            return [(s, C(False))]
        if lost:
            return [(s, C(False))]
        if c.recv == T("sym", "process1") and s.facts.get(("delivered",), 0) < k:
            return [(s, C(True))]
        return [(s, C(True)), (s.fact(("gone", c.recv), True), C(False))]
    con = {ci.qual: (lambda ip, s, c: [(s, T("sym", "console"))])
           for ci in [p.cls("libff.console:BaseConsole")] + list(p.subclasses(p.cls("libff.console:BaseConsole")))}
    hk = dict(con)
    hk["libff.field:OutputFields.to_dict"] = hk[".to_dict"] = \
        lambda ip, s, c: [(s, T("record", c.args[-1]))]
    hk[".is_alive"] = alive
    hk[".isatty"] = lambda ip, s, c: [(s, C(False))]
    ip = interp(r, Shared(get=get, patience=2), hk, inst={q}, max_loop=len(script) + 8)
    s, w = started(r, ip, settings())
    s, procs = s.new(ListObj((T("sym", "process0"), T("sym", "process1"))))
    s = s.setfield(w, "processes", procs)
    for i in (0, 1):
        s = s.setfield(T("sym", f"process{i}"), "exitcode", C(0))
    s, me = one(ip.call_value(Fn("class", p.cls(q)), [CTX], {}, s, None))
    fp = p.find_method(p.cls(q), "process")
    for i in range(k):
        s, c = s.new(ListObj(tuple(es[2 * i:2 * i + 2])))
        chunks.append(c)
        s, _ = one(ip.call_func(fp, [me, c], {}, s, None))
    if lost:
        s, c = s.new(ListObj((T("sym", "lost entry"),)))
        s, _ = one(ip.call_func(fp, [me, c], {}, s, None))
    fi = p.find_method(p.cls(q), how)
    ip.steps = 0
    res = ip.call_func(fi, [me], {}, s, None)
    r.account(ip, len(res))
    ended = 0
    for s2, v in res:
        if isinstance(v, Raised):
            r.bad("R4", sub, f"collecting fails with {v.exc.name}", fi.loc, describe(s2))
            continue
        if isinstance(v, T) and v.op == "cut":
            continue
        ended += 1
        if not s2.facts.get(("passed",)):
            r.bad("R4", f"{sub}: agreement", "collecting ends although the workers did not agree on the end", fi.loc,
                  describe(s2))
            continue
        if how == "__iter__":
            its = items(s2, v)
            got = [e for x in its or () for e in es if mentions(x, e, s2)]
        else:
            its = items(s2, s2.fields.get((me, "entries")))
            got = list(its or ())
        if its is None:
            r.skip("R4", sub, "the collected entries are not known")
            continue
        code = val(s2, s2.fields.get((s2.fields.get((CTX, "exitcode_object")), "value")))
        if lost:
            r.check(code == C(4), "R4", sub, f"the search ends with status {code}", fi.loc, describe(s2))
            continue
        r.check(code in (None, C(0)), "R4", f"{sub}: status", f"a worker that ended regularly is taken for a failure, "
                f"the status is {code}", fi.loc, describe(s2))
        r.check(sorted(map(repr, got)) == sorted(map(repr, es)), "R4", sub, f"{len(got)} of {2 * k} entries are collected",
                fi.loc, describe(s2))
    r.check(ended > 0, "R4", f"{sub}: end", "collecting never ends although everything has arrived", fi.loc)


def waiting(r):
    """Processing objects that do not collect: loop() ends on the agreement, not before."""
    p = r.p
    for cls in ("ImmediateConsoleProcessing", "ImmediateExecProcessing"):
        q = PROC + cls
        fi = p.find_method(p.cls(q), "loop")
        for pending in (0, 1):
            sub = f"{cls}, {pending} chunks left"
            with r.guard("R4", sub):
                hk = {PROC + "BaseProcessing.check_for_failed_processes": lambda ip, s, c: [(s, C(False))]}
                ip = interp(r, Shared(limit=4), hk, max_loop=6)
                s, w = started(r, ip, settings())
                fp = p.find_method(p.cls(WALK), "put")
                for _ in range(pending):
                    s, _v = one(ip.call_func(fp, [w, T("sym", "chunk")], {}, s, None))
                me = obj(p, q)
                res = ip.call_func(fi, [me], {}, s, None)
                r.account(ip, len(res))
                ended = 0
                for s2, v in res:
                    if isinstance(v, T) and v.op == "cut":
                        if s2.facts.get(("passed",)):
                            r.bad("R4", sub, "the main process goes on after all agreed on the end", fi.loc, describe(s2))
                        continue
                    if isinstance(v, Raised):
                        r.bad("R4", sub, f"waiting fails with {v.exc.name}", fi.loc, describe(s2))
                        continue
                    ended += 1
                    r.check(bool(s2.facts.get(("passed",))) and not pending, "R4", sub, "the main process ends "
                            "although work is left", fi.loc, describe(s2))
                if not pending:
                    r.check(ended > 0, "R4", f"{sub}: end", "the main process never ends", fi.loc)


def patience(r):
    """However often a loop has gone round, as long as somebody still works it does not end: what the
    loops count is taken for any number."""
    p = r.p
    fp = p.find_method(p.cls(WALK), "put")

    def get(ip, s, q, c):
        return [(s, Raised(Exc(EMPTY, (), c.node)))]
    loops = [(p.find_method(p.cls(WALK), "loop"), WALK, [C(0)])]
    for cls, how in (("CollectiveConsoleProcessing", "loop"), ("CollectiveExecProcessing", "loop"),
                     ("CollectiveGenerator", "loop"), ("ImmediateGenerator", "__iter__"),
                     ("ImmediateConsoleProcessing", "loop"), ("ImmediateExecProcessing", "loop")):
        loops.append((p.find_method(p.cls(PROC + cls), how), PROC + cls, []))
    con = {ci.qual: (lambda ip, s, c: [(s, T("sym", "console"))])
           for ci in [p.cls("libff.console:BaseConsole")] + list(p.subclasses(p.cls("libff.console:BaseConsole")))}
    for fi, q, args in loops:
        sub = f"{q.split(':')[1]} goes round any number of times"
        with r.guard("R2", sub):
            hk = {".is_alive": lambda ip, s, c: [(s, C(True))], ".isatty": lambda ip, s, c: [(s, C(False))], **con}
            if q != WALK:
                hk[PROC + "BaseProcessing.check_for_failed_processes"] = lambda ip, s, c: [(s, C(False))]
            ip = interp(r, Shared(get=get, limit=4, patience=2), hk, inst={q}, max_loop=4, widen=True)
            s, w = started(r, ip, settings())
            s, procs = s.new(ListObj((T("sym", "process0"), T("sym", "process1"))))
            s = s.setfield(w, "processes", procs)
            for i in (0, 1):
                s = s.setfield(T("sym", f"process{i}"), "exitcode", C(None))
            me = w
            if q != WALK:
                s, me = one(ip.call_value(Fn("class", p.cls(q)), [CTX], {}, s, None))
            s, _ = one(ip.call_func(fp, [w, T("sym", "chunk of another worker")], {}, s, None))
            ip.steps = 0
            res = ip.call_func(fi, [me] + args, {}, s, None)
            r.account(ip, len(res))
            r.check(True, "R2", sub, "", fi.loc)
            for s2, v in res:
                if isinstance(v, Raised) and v.exc.name.startswith("SystemExit"):
                    continue
                if isinstance(v, T) and v.op == "cut" or "cut" in s2.notes:
                    continue
                r.bad("R2", sub, "the loop ends although another worker still has work to do", fi.loc, describe(s2))


# ------------------------------------------------------------------ R5
def requests(r):
    """A stop that was requested stays visible to every process, however often it is looked at."""
    p = r.p
    fs, fi = p.func(CONTEXT + ".stop"), p.func(CONTEXT + ".is_stopping")
    for n in (0, 1, 2):
        sub = f"{n} requests"

        def get(ip, s, q, c):
            left = s.facts.get(("queued", q), 0)
            if left:
                return [(s.fact(("queued", q), left - 1), C(None))]
            return [(s, Raised(Exc(EMPTY, (), c.node)))]
        with r.guard("R5", sub):
            ip = interp(r, Shared(get=get))
            s, w = started(r, ip, settings())
            for _ in range(n):
                s, v = one(ip.call_func(fs, [CTX], {}, s, None))
            for i in range(4):
                s, v = one(ip.call_func(fi, [CTX], {}, s, None))
                t = truth_fact(s, v)
                if t is None:
                    r.skip("R5", sub, f"answer {short(v)}")
                    break
                r.check(t is (n > 0), "R5", f"{sub}, question {i}", "a requested stop is not seen" if n else
                        "a stop is seen that nobody requested", fi.loc, describe(s))


def interrupted(r):
    p = r.p
    for qual, excs in (("libff.main:Main.walk", ("KeyboardInterrupt", "BrokenPipeError")),
                       ("libff.find:Find.__iter__", ("KeyboardInterrupt", "GeneratorExit"))):
        fi = p.func(qual)
        me = obj(p, qual.rsplit(".", 1)[0])
        for exc in excs:
            for site in ("loop", "finalize"):
                sub = f"{exc} in {site} of {qual.split(':')[1]}"
                with r.guard("R5", sub):
                    def boom(ip, s, c):
                        return [(s.fact(("boom",), True), Raised(Exc(exc, (), c.node)))]
                    hk = {}
                    for ci in p.classes.values():
                        if ci.qual.startswith(PROC) and site in ci.methods:
                            hk[f"{ci.qual}.{site}"] = boom

                    def stop(ip, s, c):
                        return [(s.fact(("stopped",), True), C(None))]
                    hk[CONTEXT + ".stop"] = stop
                    from .p06 import initial
                    ip = r.interp(hooks=hk, opaque=lambda f: f is not fi and f.name in (
                        "start_processes", "loop", "finalize", "close", "__iter__"))
                    st = initial().setfield(ARGS, "profile", C(None)).setfield(ARGS, "fail", C(False))
                    n = 0
                    for s, v in r.run(fi, [me], st=st, ip=ip):
                        if not s.facts.get(("boom",)):
                            continue
                        n += 1
                        r.check(bool(s.facts.get(("stopped",))), "R5", sub, "the workers are not told to stop", fi.loc,
                                describe(s))
                    if not n:
                        r.skip("R5", sub, "is not reached")
    fi = p.func("libff.find:Find.__iter__")
    with r.guard("R5", "yields"):
        tree = p.parent_map(fi.module)
        for n in ast.walk(fi.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r.check(stops(tree, n, fi.node), "R5", "iteration left early", "a search whose results are not wanted "
                        "any more is not stopped", f"{fi.module.rel}:{n.lineno}")
    # Every worker is joined, and the queue of the stop request is large enough never to block.
    fc = p.find_method(p.cls(WALK), "close")
    for k in (1, 3):
        sub = f"closing {k} workers"
        with r.guard("R6", sub):
            def join(ip, s, c):
                return [(s.fact(("joined", c.recv), True), C(None))]
            ip = interp(r, Shared(), {".join": join}, max_loop=k + 2)
            s, w = started(r, ip, settings(k))
            procs = [T("sym", f"process{i}") for i in range(k)]
            s, pl = s.new(ListObj(tuple(procs)))
            s = s.setfield(w, "processes", pl)
            res = ip.call_func(fc, [w], {}, s, None)
            r.account(ip, len(res))
            for s2, v in res:
                if isinstance(v, Raised):
                    r.bad("R6", sub, f"fails with {v.exc.name}", fc.loc, describe(s2))
                    continue
                miss = [x for x in procs if not s2.facts.get(("joined", x))]
                r.check(not miss, "R6", sub, f"{miss} are not waited for", fc.loc, describe(s2))


def stops(tree, n, top):
    """Is a yield inside of a try statement that requests a stop if the generator is closed?"""
    while n is not top:
        up = tree.get(n)
        if isinstance(up, ast.Try) and n in up.body:
            for h in up.handlers:
                names = [x for x in ast.walk(h.type)] if h.type is not None else []
                if (h.type is None or any(isinstance(x, ast.Name) and x.id in ("GeneratorExit", "BaseException")
                                          for x in names)) and calls_stop(h.body):
                    return True
            if calls_stop(up.finalbody):
                return True
        n = up
        if n is None:
            return False
    return False


def calls_stop(body):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and "stop" in x.func.attr
               for b in body for x in ast.walk(b))


# ------------------------------------------------------------------ R6
PARTS = ("context", "walker", "processing", "cache")


def released(r):
    p = r.p
    from .p06 import walk_outcomes
    fi = p.func("libff.main:Main.walk")
    for code in (0, 3, 4):
        for result in (True, False):
            sub = f"walk, status {code}, {'' if result else 'no '}results"
            with r.guard("R6", sub):
                for s, v in walk_outcomes(r, code, fail=True, result=result):
                    if isinstance(v, Raised) and v.exc.name in ("KeyboardInterrupt",):
                        continue
                    closes(r, s, sub, fi)
    fi = p.func("libff.find:Find.__iter__")
    me = obj(p, "libff.find:Find")
    from .p06 import initial
    for code in (0, 4):
        sub = f"API, status {code}"
        with r.guard("R6", sub):
            ip = r.interp(opaque=lambda f: f is not fi and f.name in ("start_processes", "loop", "finalize", "close",
                                                                     "__iter__"))
            for s, v in r.run(fi, [me], st=initial(exitcode=code), ip=ip):
                if isinstance(v, T) and v.op == "cut" or isinstance(v, Raised) and \
                        v.exc.name in ("KeyboardInterrupt", "GeneratorExit"):
                    continue
                closes(r, s, sub, fi)


def closes(r, s, sub, fi):
    for part in PARTS:
        who = CTX if part == "context" else comp(part)
        n = sum(e.kind == "call" and e.name.split(".")[-1] == "close" and e.recv == who for e in s.events())
        r.check(n == 1, "R6", f"{sub}: {part}", f"{part} is closed {n} times", fi.loc, describe(s))
    order = [part for e in s.events() for part in PARTS if e.kind == "call" and e.name.split(".")[-1] == "close" and
             e.recv == (CTX if part == "context" else comp(part))]
    if "walker" in order and "processing" in order:
        ends = [i for i, e in enumerate(s.events()) if e.kind == "call" and e.name.split(".")[-1] == "finalize"]
        walks = [i for i, e in enumerate(s.events()) if e.kind == "call" and e.name.split(".")[-1] == "close" and
                 e.recv == comp("walker")]
        if ends and walks:
            r.check(ends[-1] < walks[0], "R6", f"{sub}: order", "the workers are released before the results are "
                    "complete", fi.loc, describe(s))
