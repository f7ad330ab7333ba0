"""P06: every executed command is accounted for and failures decide the exit status."""
from ..lib import *
from ..report import new_state
from ..values import C, Exc, ListObj, Raised, T, Tup

EXPLANATION = (
    "Every path through the functions that run a command is interpreted: start failure, every number "
    "of waits that time out, zero and nonzero status, stop request seen or not, times the three halt "
    "modes. On each path the two counters and the exit status start from 0 and their final values "
    "are read off the abstract state; they must account for the command exactly once. The mapping of "
    "the recorded status to the status of ff is followed through Main.walk and the error handler.")

CONTEXT = "libff.context:Context"
STATUS = T("sym", "status")
SHARED = ("exitcode_object", "process_succeeded", "process_failed")


def shared(name):
    return T("attr", CTX, name)


def initial(st=None, exitcode=0):
    st = st or new_state()
    for n in SHARED:
        st = st.setfield(shared(n), "value", C(exitcode if n == "exitcode_object" else 0))
    return st


def final(s, name):
    return val(s, s.fields.get((shared(name), "value")))


def run(r):
    r.rule("R1", "every command counts exactly once, as a failure unless it ended with status 0")
    r.rule("R2", "a failure and only a failure records the exit status for failed commands")
    r.rule("R3", "the halt mode decides whether a failure stops the search and ends running commands")
    r.rule("R4", "a failing batch records the exit status, one that cannot be run ends in an error")
    r.rule("R5", "the recorded status becomes the exit status of ff")
    r.rule("R6", "the thread pool runs every job exactly once and waits for all of them")
    r.floor = 30
    for halt in ("never", "soon", "now"):
        single(r, halt)
    batch(r)
    mapping(r)
    priority(r)
    pool(r)


def process_hooks(timeouts=True):
    def popen(ip, s, c):
        return [(s.fact(("started",), True), T("sym", "process")),
                (s.fact(("started",), False), Raised(Exc("OSError", (), c.node)))]

    def wait(ip, s, c):
        out = [(s.fact(("waited",), True), STATUS)]
        t = c.args[0] if c.args else c.kw.get("timeout")
        if t is not None and t != C(None):
            if not s.facts.get(("late",)):
                out.append((s.fact(("late",), True), Raised(Exc("subprocess.TimeoutExpired", (), c.node))))
        else:
            out[0] = (out[0][0].fact(("blocking",), True), STATUS)
        return out

    def poll(ip, s, c):
        return [(s.fact(("waited",), True), STATUS), (s, C(None))]

    def kill(ip, s, c):
        return [(s.fact(("killed",), True), C(None))]

    def stopping(ip, s, c):
        if ("stop",) in s.facts:
            return [(s, C(True))]
        return [(s.fact(("saw stop",), b), C(b)) for b in (False, True)]

    def stop(ip, s, c):
        return [(s.fact(("stop",), True), C(None))]
    return {"subprocess.Popen": popen, ".wait": wait, ".poll": poll, ".terminate": kill, ".kill": kill,
            CONTEXT + ".is_stopping": stopping, CONTEXT + ".stop": stop,
            "libff.logger:Logger.error": lambda ip, s, c: exits(s, c)}


def exits(s, c):
    """Logger.error(message, exitcode) ends the process if a status is given."""
    code = c.args[2] if len(c.args) > 2 else c.kw.get("exitcode", C("default"))
    if code == C(None):
        return [(s, C(None))]
    return [(s, Raised(Exc("SystemExit", (code,), c.node)))]


def status_zero(s):
    f = s.facts
    if f.get(("val", STATUS)) == C(0) or f.get(("truth", STATUS)) is False:
        return True
    if ("neq", STATUS, C(0)) in f or f.get(("truth", STATUS)) is True:
        return False
    for k, v in f.items():
        if k[0] == "ord" and STATUS in k and C(0) in k:
            if v != "eq":
                return False
    return None


def single(r, halt):
    fi = r.p.func(CONTEXT + ".run_exec_process")
    sub = f"--halt={halt}"
    with r.guard("R1", sub):
        st = initial().setfield(ARGS, "halt", C(halt))
        ip = r.interp(hooks=process_hooks(), max_loop=4)
        n = 0
        for s, v in r.run(fi, [CTX, T("sym", "command")], st=st, ip=ip):
            if isinstance(v, T) and v.op == "cut":
                continue
            n += 1
            f = s.facts
            started, waited = f.get(("started",)), f.get(("waited",), False)
            killed = f.get(("killed",), False)
            if isinstance(v, Raised):
                r.bad("R1", f"{sub} {'start failure' if started is False else ''}",
                      f"running a command fails with {v.exc.name}", fi.loc, describe(s))
                continue
            if started is None:
                r.skip("R1", sub, "no process is started")
                continue
            if started is False:
                kind, ok = "cannot be started", False
            elif waited:
                z = status_zero(s)
                kind, ok = f"ends with status {'0' if z else 'nonzero' if z is False else 'any'}", z
            else:
                kind, ok = "is not waited for", False
            if killed and started:
                kind, ok = "was terminated", False if not status_zero(s) else None
            case = f"{sub}, command {kind}"
            got = tuple(final(s, n) for n in ("process_succeeded", "process_failed"))
            if any(not isinstance(g, C) for g in got):
                r.skip("R1", case, f"counters {got}")
            elif ok is None and not killed:
                r.bad("R1", case, f"success or failure does not depend on the exit status "
                      f"(counted {got})", fi.loc, describe(s))
            elif ok is not None:
                r.check(got == ((C(1), C(0)) if ok else (C(0), C(1))), "R1", case,
                        f"a command that {kind} is counted as (successes, failures) = {got}",
                        fi.loc, describe(s))
            code = final(s, "exitcode_object")
            if isinstance(code, C) and ok is not None:
                r.check(code == C(0 if ok else 3), "R2", case, f"a command that {kind} records the "
                        f"exit status {code}", fi.loc, describe(s))
            stopped = ("stop",) in f or any(
                e.kind == "call" and e.name.endswith("Queue.put") and e.recv == shared("stop_queue")
                for e in s.events())
            saw = f.get(("saw stop",))
            if ok is False:
                if halt == "never":
                    r.check(not stopped, "R3", case, "the search is stopped", fi.loc, describe(s))
                else:
                    r.check(stopped or saw is True, "R3", case, "the search is not stopped", fi.loc,
                            describe(s))
            elif ok:
                r.check(not stopped, "R3", case, "the search is stopped although the command "
                        "succeeded", fi.loc, describe(s))
            if halt in ("never", "soon"):
                r.check(not killed, "R3", case, "a running command is terminated", fi.loc, describe(s))
                if started:
                    r.check(waited, "R1", case, "the command is not waited for", fi.loc, describe(s))
            elif started:
                r.check(not f.get(("blocking",)) or killed, "R3", case,
                        "the command is waited for without regard to a stop", fi.loc, describe(s))
                if not waited:
                    r.check(killed, "R3", case, "a running command is not terminated on a stop",
                            fi.loc, describe(s))
        if not n:
            r.bad("R1", sub, "no command ever ends", fi.loc)


# ------------------------------------------------------------------ batches
def batch(r):
    fi = r.p.func("libff.processing:CollectiveExecProcessing.finalize")
    proc = obj(r.p, "libff.processing:CollectiveExecProcessing")
    code = T("sym", "errno")

    def popen(ip, s, c):
        n = s.facts.get(("runs",), 0)
        s = s.fact(("runs",), n + 1)
        st = T("sym", f"status{n}")
        done = T("sym", f"process{n}")
        out = [(s.fact(("outcome", n), "status").setfield(done, "returncode", st), done)]
        if n < 2:
            err = Exc("OSError", (), c.node)
            out.append((s.fact(("outcome", n), "oserror"), Raised(err)))
        return out

    def call(ip, s, c):
        out = []
        for x, v in popen(ip, s, c):
            out.append((x, v if isinstance(v, Raised) else x.fields[(v, "returncode")]))
        return out
    for k in (1, 3):
        sub = f"batch of {k}"
        with r.guard("R4", sub):
            st = initial().setfield(ARGS, "exec", C(None))
            for k_ in (("neq", arg("exec_batch"), C(None)), ("truth", arg("exec_batch"))):
                st = st.fact(k_, True)
            st, entries = st.new(ListObj(tuple(T("sym", f"entry{i}") for i in range(k))))
            hooks = {"subprocess.run": popen, "subprocess.call": call,
                     "libff.processing:CollectiveMixin.entries_range": lambda ip, s, c: [(s, entries)],
                     fi.qual: lambda ip, s, c: None,
                     "libff.processing:CollectiveMixin.finalize": lambda ip, s, c: [(s, C(None))],
                     "libff.field:ExecBatchFields.render": lambda ip, s, c: [(s, T("sym", "command"))],
                     ".render": lambda ip, s, c: [(s, T("sym", "command"))]}
            seen = 0
            ip = r.interp(hooks=hooks, max_loop=8)
            for s, v in r.run(fi, [proc], st=st, ip=ip):
                if isinstance(v, T) and v.op == "cut":
                    continue
                runs = s.facts.get(("runs",), 0)
                if not runs:
                    r.skip("R4", sub, "no command is run")
                    continue
                seen += 1
                fails = [i for i in range(runs) if s.facts.get(("outcome", i)) == "status" and
                         not zero(s, T("sym", f"status{i}"))]
                loose = [i for i in range(runs) if s.facts.get(("outcome", i)) == "status" and
                         zero(s, T("sym", f"status{i}")) is None]
                last = s.facts.get(("outcome", runs - 1))
                out = final(s, "exitcode_object")
                if isinstance(v, Raised):
                    r.check(last == "oserror" and v.exc.name == "SubprocessError", "R4", sub,
                            f"running a batch ends in {v.exc.name}", fi.loc, describe(s))
                    continue
                r.check(last != "oserror", "R4", f"{sub} start failure", "a batch that cannot be run "
                        "is silently dropped", fi.loc, describe(s))
                if last == "oserror":
                    continue
                for i in loose:
                    r.bad("R4", f"{sub} status", "the exit status of a batch is not looked at",
                          fi.loc, describe(s))
                if not loose and isinstance(out, C):
                    r.check(out == C(3 if fails else 0), "R4", f"{sub} failures {bool(fails)}",
                            f"batches with failures {fails} record {out}", fi.loc, describe(s))
            if not seen:
                r.skip("R4", sub, "nothing was interpreted")


def zero(s, t):
    f = s.facts
    if f.get(("val", t)) == C(0) or f.get(("truth", t)) is False:
        return True
    if ("neq", t, C(0)) in f or f.get(("truth", t)) is True:
        return False
    for k, v in f.items():
        if k[0] == "ord" and t in k and C(0) in k and v != "eq":
            return False
    return None


# ------------------------------------------------------------------ exit status
ERRORS = {"NoResultError": 1, "UsageError": 2, "SubprocessError": 3, "ProcessError": 4,
          "BadPluginError": 10, "BadAttributeError": 11, "ExpressionError": 12}


def walk_outcomes(r, exitcode, fail=None, result=True, exec_=True, **hooks):
    p = r.p
    main = T("new", p.cls("libff.main:Main"), C(0))
    st = initial(exitcode=exitcode).setfield(ARGS, "profile", C(None))
    st = st.setfield(ARGS, "fail", C(fail)).setfield(ARGS, "exec", T("sym", "exec") if exec_ else C(None))
    st = st.fact(("truth", T("sym", "exec")), True)
    h = {CONTEXT + ".has_result": lambda ip, s, c: [(s, C(result))]}
    h.update(hooks)
    ip = r.interp(hooks=h, opaque=lambda f: f.name in ("start_processes", "loop", "finalize", "close"))
    return r.run("libff.main:Main.walk", [main], st=st, ip=ip)


def mapping(r):
    p = r.p
    for exec_ in (True, False):
        sub = f"walk after failed {'-x' if exec_ else '-X'}"
        with r.guard("R5", sub):
            for s, v in walk_outcomes(r, 3, exec_=exec_):
                r.check(raised_name(v) == "SubprocessError", "R5", sub,
                        f"failed commands end the search with {raised_name(v) or 'status 0'}",
                        "libff.main:Main.walk", describe(s))
    with r.guard("R5", "walk without failure"):
        for s, v in walk_outcomes(r, 0):
            r.check(not isinstance(v, Raised), "R5", "walk without failure",
                    f"a search without failures ends with {raised_name(v)}", "libff.main:Main.walk",
                    describe(s))
    for name, want in (("SubprocessError", 3),):
        status_of(r, "R5", name, want)


def status_of(r, rule, name, want):
    """The exit status an error class leads to."""
    p = r.p
    ci = p.cls("libff.exceptions:" + name)
    with r.guard(rule, f"exit status of {name}"):
        main = T("new", p.cls("libff.main:Main"), C(0))

        def walk(ip, s, c):
            return [(s, Raised(Exc(ci, (T("sym", "message"),), c.node)))]
        hooks = {"libff.main:Main.walk": walk}
        n = 0
        for s, v in r.run("libff.main:Main.loop", [main], hooks=hooks):
            n += 1
            code = v.exc.args[0] if isinstance(v, Raised) and v.exc.args else None
            r.check(isinstance(v, Raised) and v.exc.name == "SystemExit" and code == C(want), rule,
                    f"exit status of {name}", f"{name} ends ff with "
                    f"{raised_name(v) or 'status 0'} {code!r}", "libff.main:Main.loop", describe(s))
        if not n:
            r.skip(rule, f"exit status of {name}", "no outcome")


def priority(r):
    """Recording a failed command keeps the status of an internal error."""
    with r.guard("R2", "recorded status"):
        for old, new, want in ((0, 3, 3), (0, 4, 4), (3, 3, 3), (4, 4, 4), (3, 4, 4), (4, 3, 4)):
            for s, v in r.run(CONTEXT + ".set_exitcode", [CTX, C(new)], st=initial(exitcode=old)):
                got = final(s, "exitcode_object")
                if not isinstance(got, C):
                    r.skip("R2", f"status {new} after {old}", f"becomes {got!r}")
                    continue
                r.check(got == C(want), "R2", f"status {new} after {old}", f"recording status {new} "
                        f"after {old} gives {got}", CONTEXT + ".set_exitcode", describe(s))
        for s, v in r.run(r.p.find_method(r.p.cls(CONTEXT), "exitcode"), [CTX],
                          st=initial(exitcode=3)):
            r.check(val(s, v) == C(3), "R5", "reading the status", f"status 3 is read as {v!r}",
                    CONTEXT + ".exitcode")


# ------------------------------------------------------------------ thread pool
def pool(r):
    p = r.p
    pool_ = obj(p, "libff.processing:Parallel")
    jobs = [T("sym", "job0"), T("sym", "job1")]
    fi = p.func("libff.processing:Parallel.thread")
    with r.guard("R6", "pool thread"):
        def get(ip, s, c):
            n = s.facts.get(("got",), 0)
            out = []
            if n < 2:
                out.append((s.fact(("got",), n + 1), jobs[n]))
            if not s.facts.get(("end",)):
                out.append((s.fact(("end",), True), C(None)))
            if not s.facts.get(("late",)):
                out.append((s.fact(("late",), True), Raised(Exc("queue.Empty", (), c.node))))
            return out

        def execute(ip, s, c):
            a = c.args[-1]
            return [(s.fact(("ran", a), s.facts.get(("ran", a), 0) + 1), C(None))]
        hooks = {"queue.Queue.get": get, "queue.Queue.get_nowait": get, ".get": get,
                 CONTEXT + ".run_exec_process": execute,
                 CONTEXT + ".is_stopping": lambda ip, s, c: [(s.fact(("saw stop",), b), C(b))
                                                             for b in (False, True)]}
        ip = r.interp(hooks=hooks, max_loop=6)
        for j in jobs:
            ip.types[j] = None
        st = new_state()
        for j in jobs:
            st = st.fact(("neq", j, C(None)), True).fact(("truth", j), True)
        for s, v in r.run(fi, [pool_], st=st, ip=ip):
            if isinstance(v, T) and v.op == "cut":
                continue
            if isinstance(v, Raised):
                r.bad("R6", "pool thread", f"fails with {v.exc.name}", fi.loc, describe(s))
                continue
            got = s.facts.get(("got",), 0)
            for i in range(got):
                n = s.facts.get(("ran", jobs[i]), 0)
                r.check(n == 1 or n == 0 and s.facts.get(("saw stop",)), "R6", "job taken from the queue",
                        f"a job is run {n} times", fi.loc,
                        describe(s))
            r.check(s.facts.get(("end",)) or s.facts.get(("saw stop",)), "R6", "end of pool thread",
                    "a thread ends although there may be jobs left", fi.loc, describe(s))
    with r.guard("R6", "pool thread after a failure"):
        fi = p.func("libff.processing:Parallel.thread")

        def execute(ip, s, c):                   # the command fails and --halt=soon requests a stop
            return [(s.fact(("ran",), s.facts.get(("ran",), 0) + 1), C(None))]
        hooks = {"queue.Queue.get": get, "queue.Queue.get_nowait": get, ".get": get,
                 CONTEXT + ".run_exec_process": execute,
                 CONTEXT + ".is_stopping": lambda ip, s, c: [(s, C(s.facts.get(("ran",), 0) > 0))]}
        ip = r.interp(hooks=hooks, max_loop=6)
        for j in jobs:
            ip.types[j] = None
        st = new_state()
        for j in jobs:
            st = st.fact(("neq", j, C(None)), True).fact(("truth", j), True)
        for s, v in r.run(fi, [pool_], st=st, ip=ip):
            n = s.facts.get(("ran",), 0)
            r.check(n <= 1, "R6", "stop of a pool thread", "a thread starts another command after a failed one has "
                    "requested a stop", fi.loc, describe(s))
    with r.guard("R6", "end of the pool"):
        fi = p.func("libff.processing:Parallel.__exit__")
        threads = [T("sym", f"thread{i}") for i in range(3)]
        st, lst = new_state().new(ListObj(tuple(threads)))
        st = st.setfield(pool_, "threads", lst)
        def join(ip, s, c):
            return [(s.fact(("joined", c.recv), True), C(None))]
        for s, v in r.run(fi, [pool_, C(None), C(None), C(None)], st=st, hooks={".join": join}):
            if isinstance(v, Raised):
                r.bad("R6", "end of the pool", f"fails with {v.exc.name}", fi.loc, describe(s))
                continue
            puts = [e for e in s.events() if e.kind == "call" and e.name.endswith("put") and
                    e.args and e.args[0] == C(None)]
            joins = [t for t in threads if s.facts.get(("joined", t))]
            r.check(len(puts) >= 3, "R6", "end marks", f"{len(puts)} end marks for 3 threads",
                    fi.loc, describe(s))
            r.check(set(joins) == set(threads), "R6", "joined threads",
                    f"{len(set(joins))} of 3 threads are waited for", fi.loc, describe(s))
    with r.guard("R6", "jobs of the pool"):
        fi = p.func("libff.processing:CollectiveExecProcessing.finalize")
        proc = obj(p, "libff.processing:CollectiveExecProcessing")
        ents = [T("sym", f"entry{i}") for i in range(2)]
        st, lst = new_state().new(ListObj(tuple(ents)))
        st = st.setfield(ARGS, "exec", T("sym", "fields")).fact(("truth", T("sym", "fields")), True)
        st = st.fact(("neq", T("sym", "fields"), C(None)), True)
        n = 0

        def add(ip, s, c):
            a = c.args[-1]
            return [(s.fact(("job", a), s.facts.get(("job", a), 0) + 1), C(None))]
        hooks = {"libff.processing:CollectiveMixin.entries_range": lambda ip, s, c: [(s, lst)],
                 fi.qual: lambda ip, s, c: None,
                     "libff.processing:CollectiveMixin.finalize": lambda ip, s, c: [(s, C(None))],
                 "libff.processing:Parallel.add_job": add}
        for s, v in r.run(fi, [proc], st=st, hooks=hooks):
            n += 1
            for e in ents:
                k = s.facts.get(("job", e), 0)
                r.check(k == 1, "R6", "jobs of the pool", f"an entry becomes {k} jobs", fi.loc,
                        describe(s))
            r.check(any(e.kind == "exit" and "Parallel" in repr(e.recv) + e.name for e in s.events()),
                    "R6", "pool is waited for", "the pool is not waited for", fi.loc, describe(s))
        if not n:
            r.skip("R6", "jobs of the pool", "not interpreted")
