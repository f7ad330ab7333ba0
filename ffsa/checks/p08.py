"""P08: an internal failure of a worker process never goes unnoticed."""
import ast
import builtins

from ..lib import *
from ..report import new_state
from ..values import C, Exc, ListObj, Raised, T, Tup
from .p06 import CONTEXT, final, initial, shared, status_of, walk_outcomes

EXPLANATION = (
    "Exceptional control flow of the worker loop: an error of each kind is injected into every "
    "operation of the loop (fetching work, each kind of work, the agreement on the end, closing the "
    "cache) and the abstract state at the moment the other processes are told to stop and at the end "
    "must carry the status for internal errors. The liveness check is interpreted for every "
    "combination of live and dead processes, the loops of the main process for a check that reports a "
    "dead process, and Main.walk and Find.__iter__ for every recorded status, also one that is "
    "recorded only while the workers are being waited for.")

WALK = "libff.walk:FilesystemWalker"
PROC = "libff.processing"
KINDS = ("OSError", "FileNotFoundError", "KeyError", "ValueError", "TypeError", "AttributeError",
         "sqlite3.Error", "UnicodeEncodeError", "RuntimeError", "EOFError", "MemoryError",
         "AssertionError", "RecursionError", "<any>")


def run(r):
    r.rule("R1", "an unexpected error anywhere in the worker loop records the status for internal "
                 "errors and then tells the other processes to stop; a closed pipe only stops")
    r.rule("R2", "the liveness check notices every dead process, records the status and stops")
    r.rule("R3", "every loop of the main process performs the liveness check and ends on it")
    r.rule("R4", "a recorded internal error becomes an error of the run, also if it is recorded while "
                 "the workers are waited for")
    r.rule("R5", "the recorded status of an internal error is never replaced")
    r.floor = 60
    worker(r)
    liveness(r)
    loops(r)
    outcome(r)
    priority(r)


def stop_hooks():
    """Record with which exit status the other processes were told to stop."""
    def put(ip, s, c):
        if c.recv == shared("stop_queue"):
            return [(s.fact(("stopped",), final(s, "exitcode_object")), C(None))]
        return None

    def stopping(ip, s, c):
        return [(s, C(("stopped",) in s.facts))]
    return {"multiprocessing.Queue.put": put, "multiprocessing.Queue.put_nowait": put, ".put": put,
            CONTEXT + ".is_stopping": stopping}


def message(r, kind):
    if kind == "process_directory":
        d = Tup((T("sym", "start"), T("sym", "rel"), T("sym", "ign")), cls=r.p.cls("libff:Directory"))
        return lambda st: st.new(ListObj((d,)))
    if kind == "process_entries":
        t = Tup((T("sym", "parent"), T("sym", "entries")), cls=r.p.cls("libff:Entries"))
        return lambda st: (st, t)

    def words(st):
        st, w = st.new(ListObj((C("cmd"),)))
        return st.new(ListObj((w,)))
    return words


def handled(r, fi):
    """Errors of the standard library that some handler of the module mentions by name."""
    names = set()
    for n in ast.walk(fi.module.tree):
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            names |= {x.id for x in ast.walk(n.type) if isinstance(x, ast.Name)}
    return {x for x in names if isinstance(getattr(builtins, x, None), type) and
            issubclass(getattr(builtins, x), Exception) and x not in ("Exception", "BrokenPipeError")}


def worker(r):
    fi = r.p.func(WALK + ".loop")
    work = ("process_directory", "process_entries", "run_exec_process")
    cache = ("libff.cache:NullCache.close", "libff.cache:Cache.close")
    sites = [("fetching work", "multiprocessing.Queue.get", None)]
    sites += [(f"{w}", None, w) for w in work]
    sites += [("agreement on the end", CONTEXT + ".barrier_wait", None), ("closing the cache", "cache", None)]
    for site, hook, kind in sites:
        kinds = KINDS + (("BrokenPipeError",) if kind in work[:2] else ())
        kinds += tuple(sorted(handled(r, fi) - set(kinds)))
        for err in kinds:
            sub = f"{err} while {site}"
            with r.guard("R1", sub):
                def boom(ip, s, c, err=err):
                    if s.facts.get(("boom",)):
                        return [(s, C(None))]
                    return [(s.fact(("boom",), True), Raised(Exc(err, (), c.node)))]

                def get(ip, s, c, kind=kind):
                    n = s.facts.get(("gets",), 0)
                    s = s.fact(("gets",), n + 1)
                    if n == 0 and kind is not None:
                        s, v = message(r, kind)(s)
                        return [(s, v)]
                    return [(s, Raised(Exc("queue.Empty", (), c.node)))]
                h = stop_hooks()
                h["multiprocessing.Queue.get"] = get
                h[CONTEXT + ".barrier_wait"] = lambda ip, s, c: [(s, C(True))]
                if kind == "run_exec_process":
                    h[CONTEXT + ".run_exec_process"] = boom
                elif kind is not None:
                    h[WALK + "." + kind] = boom
                elif hook == "cache":
                    for x in cache:
                        h[x] = boom
                else:
                    h[hook] = boom
                ip = r.interp(hooks=h, max_loop=5)
                n = 0
                for s, v in r.run(fi, [obj(r.p, WALK), C(0)], st=initial(), ip=ip):
                    if isinstance(v, T) and v.op == "cut":
                        continue
                    if not s.facts.get(("boom",)):
                        continue
                    n += 1
                    told, code = s.facts.get(("stopped",)), final(s, "exitcode_object")
                    if told is None:
                        r.bad("R1", sub, f"after {err} the other processes are not told to stop",
                              fi.loc, describe(s))
                    elif err == "BrokenPipeError":
                        r.check(code == C(0), "R1", sub, f"a closed pipe records status {code}",
                                fi.loc, describe(s))
                    elif not isinstance(code, C) or not isinstance(told, C):
                        r.skip("R1", sub, f"status {code} {told}")
                    else:
                        r.check(told == C(4), "R1", sub + ", told to stop",
                                f"the other processes are told to stop while the status is {told}",
                                fi.loc, describe(s))
                        r.check(code == C(4), "R1", sub + ", status",
                                f"the status after {err} is {code}", fi.loc, describe(s))
                if not n:
                    r.skip("R1", sub, "the operation is not part of the loop")
    with r.guard("R1", "no error"):
        h = stop_hooks()
        h["multiprocessing.Queue.get"] = lambda ip, s, c: [(s, Raised(Exc("queue.Empty", (), c.node)))]
        h[CONTEXT + ".barrier_wait"] = lambda ip, s, c: [(s, C(True))]
        for s, v in r.run(fi, [obj(r.p, WALK), C(0)], st=initial(), hooks=h):
            r.check(not isinstance(v, Raised) and final(s, "exitcode_object") == C(0) and
                    ("stopped",) not in s.facts, "R1", "no error",
                    "a worker that ends normally records an error or a stop", fi.loc, describe(s))


# ------------------------------------------------------------------ liveness
def liveness(r):
    fi = r.p.func(PROC + ":BaseProcessing.check_for_failed_processes")
    me = obj(r.p, PROC + ":ImmediateConsoleProcessing")
    for k in (1, 2, 3):
        sub = f"{k} processes"
        with r.guard("R2", sub):
            procs = [T("sym", f"process{i}") for i in range(k)]
            st, pl = initial().new(ListObj(tuple(procs)))
            st = st.setfield(comp("walker"), "processes", pl)

            def alive(ip, s, c):
                return [(s.fact(("alive", c.recv), b), C(b)) for b in (True, False)]
            h = stop_hooks()
            h[".is_alive"] = alive
            asked = 0
            for s, v in r.run(fi, [me], st=st, hooks=h):
                if isinstance(v, Raised):
                    r.bad("R2", sub, f"fails with {v.exc.name}", fi.loc, describe(s))
                    continue
                known = {p: s.facts[("alive", p)] for p in procs if ("alive", p) in s.facts}
                t = truth_fact(s, v)
                if not known:
                    if not any("next_processes_check" in repr(key) or "time" in repr(key)
                               for key in s.facts):
                        r.bad("R2", sub + " asked", "no process is looked at", fi.loc, describe(s))
                    elif t is not False:
                        r.bad("R2", sub + " idle", f"{v!r} is returned without a look at the processes",
                              fi.loc, describe(s))
                    continue
                asked += 1
                if all(known.values()):
                    r.check(len(known) == k, "R2", sub + " all asked",
                            f"only {len(known)} of {k} processes are looked at", fi.loc, describe(s))
                    r.check(t is False and ("stopped",) not in s.facts and
                            final(s, "exitcode_object") == C(0), "R2", sub + " alive",
                            "live processes are taken for a failure", fi.loc, describe(s))
                else:
                    r.check(final(s, "exitcode_object") == C(4), "R2", sub + " status",
                            f"a dead process records status {final(s, 'exitcode_object')}", fi.loc,
                            describe(s))
                    r.check(s.facts.get(("stopped",)) == C(4), "R2", sub + " stop",
                            "after a dead process the others are not told to stop, or before the "
                            "status is recorded", fi.loc, describe(s))
                    r.check(t is True, "R2", sub + " result", f"a dead process gives {v!r}", fi.loc,
                            describe(s))
            r.check(asked > 0, "R2", sub, "the processes are never looked at", fi.loc)
    for k in (1, 3):
        sub = f"{k} jobs"
        with r.guard("R2", "started " + sub):
            me_ = obj(r.p, WALK)
            st, pl = new_state().new(ListObj(()))
            st = st.setfield(me_, "processes", pl).setfield(ARGS, "jobs", C(k))

            def new(ip, s, c):
                n = s.facts.get(("made",), 0)
                return [(s.fact(("made",), n + 1), T("sym", f"process{n}"))]
            fi_ = r.p.func(WALK + ".start_processes")
            for s, v in r.run(fi_, [me_], st=st, hooks={"multiprocessing.Process": new}, max_loop=8):
                got = items(s, s.fields.get((me_, "processes")))
                r.check(got is not None and set(got) == {T("sym", f"process{i}") for i in range(k)} and
                        len(got) == k, "R2", "started " + sub,
                        f"of {k} processes {got} are known to the liveness check", fi_.loc, describe(s))


# ------------------------------------------------------------------ loops of the main process
def loops(r):
    for cls, how in (("ImmediateConsoleProcessing", "loop"), ("ImmediateExecProcessing", "loop"),
                     ("CollectiveConsoleProcessing", "loop"), ("CollectiveExecProcessing", "loop"),
                     ("CollectiveGenerator", "loop"), ("ImmediateGenerator", "__iter__")):
        sub = f"{cls}.{how}"
        with r.guard("R3", sub):
            q = f"{PROC}:{cls}"
            fi = r.p.find_method(r.p.cls(q), how)
            me = obj(r.p, q)

            def check(ip, s, c):
                n = s.facts.get(("checks",), 0)
                if n == 1:
                    s = s.fact(("stopped",), C(4))
                return [(s.fact(("checks",), n + 1), C(n == 1))]
            st, el = new_state().new(ListObj(()))
            st = st.setfield(me, "entries", el)
            h = {"multiprocessing.Queue.get": lambda ip, s, c: [(s, Raised(Exc("queue.Empty", (), c.node)))],
                 CONTEXT + ".barrier_wait": lambda ip, s, c: [(s, C(False))],
                 CONTEXT + ".is_stopping": lambda ip, s, c: [(s, C(("stopped",) in s.facts))],
                 f"{PROC}:BaseProcessing.check_for_failed_processes": check}
            ended = 0
            for s, v in r.run(fi, [me], st=st, hooks=h, max_loop=6):
                if isinstance(v, T) and v.op == "cut":
                    if s.facts.get(("checks",), 0) > 2:
                        r.bad("R3", sub, "goes on after a dead process was noticed", fi.loc, describe(s))
                    continue
                if isinstance(v, Raised):
                    r.bad("R3", sub, f"fails with {v.exc.name}", fi.loc, describe(s))
                    continue
                ended += 1
                n = s.facts.get(("checks",), 0)
                r.check(n == 2, "R3", sub, f"ends after {n} liveness checks although work remains",
                        fi.loc, describe(s))
            if not ended:
                r.bad("R3", sub, "never ends although a process is dead", fi.loc)


# ------------------------------------------------------------------ outcome of the run
def late(code):
    def hook(ip, s, c):
        s = s.setfield(shared("exitcode_object"), "value", C(code))
        return [(s, C(None))]
    return hook


def outcome(r):
    main = "libff.main:Main.walk"
    for exec_ in (True, False):
        for fail in (True, False):
            sub = f"walk exec={exec_} fail={fail}"
            for when, code, hooks in (("", 4, {}), (" late", 0, {WALK + ".close": late(4)})):
                with r.guard("R4", sub + when):
                    n = 0
                    for s, v in walk_outcomes(r, code, fail=fail, result=False, exec_=exec_, **hooks):
                        n += 1
                        r.check(raised_name(v) == "ProcessError", "R4", sub + when,
                                "an internal error of a worker" + (" recorded while it is waited for"
                                if when else "") + f" ends the search with {raised_name(v) or 'status 0'}",
                                main, describe(s))
                    if not n:
                        r.skip("R4", sub + when, "no outcome")
    stop = stop_hooks()
    for site in ("loop", "finalize"):
        for err in ("BrokenPipeError", "OSError", "KeyError", "sqlite3.Error", "<any>"):
            sub = f"{err} in {site}"
            with r.guard("R4", sub):
                def boom(ip, s, c, err=err):
                    return [(s, Raised(Exc(err, (), c.node)))]
                h = dict(stop)
                for cls in r.p.classes.values():
                    if cls.qual.startswith(PROC) and site in cls.methods:
                        h[cls.qual + "." + site] = boom
                for s, v in walk_outcomes(r, 0, **h):
                    if err == "BrokenPipeError":
                        r.check(not isinstance(v, Raised) and ("stopped",) in s.facts, "R4", sub,
                                f"a closed pipe ends in {raised_name(v) or 'status 0 without a stop'}",
                                main, describe(s))
                    else:
                        r.check(isinstance(v, Raised), "R4", sub,
                                f"{err} while collecting results is swallowed", main, describe(s))
    fi = r.p.func("libff.find:Find.__iter__")
    me = obj(r.p, "libff.find:Find")
    for code, hooks, want in ((4, {}, "ProcessError"), (0, {}, None),
                              (0, {WALK + ".close": late(4)}, "ProcessError")):
        sub = f"API status {code}{' late' if hooks else ''}"
        with r.guard("R4", sub):
            n = 0
            ip = r.interp(hooks=hooks, opaque=lambda f: f.name in ("start_processes", "loop", "finalize",
                                                                   "close", "__iter__") and
                          f is not fi)
            for s, v in r.run(fi, [me], st=initial(exitcode=code), ip=ip):
                if isinstance(v, T) and v.op == "cut":
                    continue
                if isinstance(v, Raised) and v.exc.name in ("GeneratorExit", "KeyboardInterrupt"):
                    continue
                n += 1
                r.check(raised_name(v) == want, "R4", sub, "the iteration ends "
                        f"{'with ' + raised_name(v) if isinstance(v, Raised) else 'normally'}", fi.loc,
                        describe(s))
            if not n:
                r.skip("R4", sub, "no outcome")
    status_of(r, "R4", "ProcessError", 4)


def priority(r):
    for new in (3, 4, 1, 2):
        sub = f"status {new} after an internal error"
        with r.guard("R5", sub):
            for s, v in r.run(CONTEXT + ".set_exitcode", [CTX, C(new)], st=initial(exitcode=4)):
                got = final(s, "exitcode_object")
                if not isinstance(got, C):
                    r.skip("R5", sub, f"becomes {got!r}")
                else:
                    r.check(got == C(4), "R5", sub, f"becomes {got}", CONTEXT + ".set_exitcode",
                            describe(s))
    with r.guard("R5", "first status"):
        for s, v in r.run(CONTEXT + ".set_exitcode", [CTX, C(4)], st=initial(exitcode=0)):
            r.check(final(s, "exitcode_object") == C(4), "R5", "first status", "is not recorded",
                    CONTEXT + ".set_exitcode", describe(s))
    with r.guard("R5", "reading"):
        for s, v in r.run(r.p.find_method(r.p.cls(CONTEXT), "exitcode"), [CTX], st=initial(exitcode=4)):
            r.check(val(s, v) == C(4), "R5", "reading", f"status 4 is read as {v!r}",
                    CONTEXT + ".exitcode")
