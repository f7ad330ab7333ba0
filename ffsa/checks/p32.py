"""P32: the exit status tells how a search ended."""
import itertools

from ..lib import *
from ..report import new_state
from ..values import C, Exc, ListObj, Raised, T, Tup
from . import p06, p21

EXPLANATION = (
    "The path of the information that there was a result is followed through all the code it takes: the set-up of "
    "the shared state, the processing class that is chosen for every combination of options, what it does with "
    "chunks (in a worker, of which only shared memory survives, and in the main process), and the end of the "
    "search. The outcome is compared with a table of results, options and recorded failures.")

CONTEXT = "libff.context:Context"
MAIN = "libff.main:Main"
E = p21.E
SHARED = "sharedvalue"


def run(r):
    r.rule("R1", "any result of any chunk in any process makes the search one with results, and nothing else does")
    r.rule("R2", "only with --fail a search without results ends with status 1, failures of commands and processes "
                 "take precedence")
    r.rule("R3", "every kind of error ends with its documented status, a search without results without a message")
    r.rule("R4", "whether there were results is asked after all of them were processed")
    r.floor = 120
    with r.guard("R1", "modes"):
        results(r)
    with r.guard("R2", "end"):
        ends(r)
    for name, want in p06.ERRORS.items():
        p06.status_of(r, "R3", name, want)
    with r.guard("R3", "messages"):
        silent(r)


# ------------------------------------------------------------------ the shared state
def value_hook(ip, s, c):
    n = s.facts.get(("values",), 0)
    s = s.fact(("values",), n + 1)
    cell = T("sym", SHARED, C(n))
    a = list(c.args)
    if "multiprocessing" in str(a[0]):
        a = a[1:]
    return [(s.setfield(cell, "value", a[1] if len(a) > 1 else C(0)), cell)]


def prepared(r):
    """The state after the set-up of the context."""
    hooks = {"multiprocessing.Value": value_hook, "multiprocessing.RawValue": value_hook,
             "multiprocessing.sharedctypes.Value": value_hook}
    out = []
    st = new_state().setfield(ARGS, "profile", C(None)).setfield(ARGS, "jobs", C(2))
    for s, v in r.run(CONTEXT + ".setup", [CTX], st=st, hooks=hooks):
        if not isinstance(v, Raised) and s.facts.get(("values",)):
            out.append(s)
    return out


def surviving(before, after):
    """What the main process sees of the work of a worker process: shared memory only."""
    s = before
    for (o, name), v in list(after.fields.items()):
        if isinstance(o, T) and o.op == "sym" and o.args[0] == SHARED:
            s = s.setfield(o, name, v)
    return s


def status(r, st, fail, **more):
    """The outcomes of Main.walk in this state: None or the name of the error."""
    p = r.p
    st = st.setfield(ARGS, "fail", C(fail)).setfield(ARGS, "profile", C(None))
    ip = r.interp(opaque=lambda f: f.name in ("start_processes", "loop", "finalize", "close"), **more)
    out = set()
    for s, v in r.run(MAIN + ".walk", [T("new", p.cls(MAIN), C(0))], st=st, ip=ip):
        if isinstance(v, T) and v.op == "cut":
            continue
        out.add((v.exc.name if isinstance(v, Raised) else None, s))
    return out


# ------------------------------------------------------------------ R1
CHUNKS = {"no chunk": (), "an empty chunk": (0,), "one result": (1,), "an empty chunk first": (0, 1),
          "an empty chunk last": (2, 0), "many results": (2, 1, 2)}


def results(r):
    modes = p21.decision(r)
    bases = prepared(r)
    if not bases:
        r.skip("R1", "set-up", "the set-up of the context was not interpreted")
        return
    done = set()
    for (on, js, limit), ci in sorted(modes.items(), key=lambda t: str(t[0])):
        if limit not in ((0, 1), (3, None)):
            continue
        b = tuple(x for x in on)
        key = (ci.qual, b, limit if "limit" in on else None)
        if key in done:
            continue
        done.add(key)
        for base in bases:
            for name, sizes in CHUNKS.items():
                sub = f"{ci.name} with {' '.join(on) or 'no options'}" + (f" {limit}" if "limit" in on else "") + \
                    f": {name}"
                with r.guard("R1", sub):
                    one(r, ci, on, js, limit, base, sizes, sub)


def one(r, ci, on, js, limit, base, sizes, sub):
    p = r.p
    st = p21.configured(base, on, js, limit).setfield(ARGS, "reverse", C(False))
    st, me = p21.receiver(r, ci, st)
    st = st.setfield(CTX, "processing", me)
    es, chunks, todo = iter(E), [], st
    for k in sizes:
        todo, ref = todo.new(ListObj(tuple(next(es) for _ in range(k))))
        chunks.append(ref)
    keys = []
    counted = p.find_method(ci, "collect_count")
    hooks = {**p21.render_hooks(), **p21.sort_hooks(r, keys)}
    if counted:
        hooks[counted.qual] = lambda ip, s, c: [(s, C(None))]

    def gen(ip, s, c):
        return [s.new(ListObj(tuple(chunks)))]
    it = p.find_method(ci, "iter_chunks")
    if it:
        hooks[it.qual] = gen
    # the console and the queues do not matter here
    states = [todo]
    # a worker for every chunk
    for ref in chunks:
        nxt = []
        for s in states:
            for x, v in r.run(p.find_method(ci, "process"), [me, ref], st=s, hooks=hooks, max_loop=6, max_elems=6):
                if isinstance(v, Raised):
                    r.bad("R1", sub, f"processing ends with {v.exc.name}", ci.qual, describe(x))
                elif not (isinstance(v, T) and v.op == "cut"):
                    nxt.append(surviving(s, x))
        states = nxt
    # the main process
    for step in ("loop", "finalize"):
        f = p.find_method(ci, step)
        if f is None or step == "loop" and it is None:
            continue
        nxt = []
        for s in states:
            for x, v in r.run(f, [me], st=s, hooks=hooks, max_loop=12, max_elems=12):
                if isinstance(v, Raised):
                    if v.exc.name == "SubprocessError":
                        continue
                    r.bad("R1", sub, f"{step} ends with {v.exc.name}", ci.qual, describe(x))
                elif not (isinstance(v, T) and v.op == "cut"):
                    nxt.append(x)
        states = nxt
    want = None if sum(sizes) else "NoResultError"
    n = 0
    seen = set()
    for s in states:
        if p06_code(s) not in (None, 0):
            continue
        # the result of the commands is another matter
        for got, x in status(r, s, True):
            if got in ("SubprocessError", "ProcessError"):
                continue
            n += 1
            if got in seen:
                continue
            seen.add(got)
            r.check(got == want, "R1", sub, f"with --fail the search ends with {got or 'status 0'}",
                    f"{ci.qual}", describe(x))
    if not n:
        r.skip("R1", sub, "no outcome")


def p06_code(s):
    cell = s.fields.get((CTX, "exitcode_object"))
    v = val(s, s.fields.get((cell, "value"))) if cell is not None else None
    return v.v if isinstance(v, C) else None


# ------------------------------------------------------------------ R2
def ends(r):
    fi = MAIN + ".walk"
    for code, fail, result, exec_ in itertools.product((0, 3, 4), (True, False), (True, False), (True, False)):
        sub = f"status {code}, {'--fail, ' if fail else ''}{'' if result else 'no '}results, {'-x' if exec_ else '-X'}"
        want = "SubprocessError" if code == 3 else "ProcessError" if code == 4 else \
            "NoResultError" if fail and not result else None
        with r.guard("R2", sub):
            n = 0
            for s, v in p06.walk_outcomes(r, code, fail=fail, result=result, exec_=exec_):
                if isinstance(v, T) and v.op == "cut":
                    continue
                n += 1
                got = raised_name(v)
                r.check(got == want, "R2", sub, f"the search ends with {got or 'status 0'}", fi, describe(s))
            if not n:
                r.skip("R2", sub, "no outcome")
    with r.guard("R4", "order"):
        asked = CONTEXT + ".has_result"
        n = 0

        def ask(ip, s, c):
            return [(ip.event(s, "asked", "asked", None, [], {}, c.node), C(True))]
        for s, v in p06.walk_outcomes(r, 0, fail=True, **{asked: ask}):
            seq = [e.kind if e.kind == "asked" else e.name.split(".")[-1] for e in s.events()
                   if e.kind == "asked" or e.kind == "call" and e.name.split(".")[-1] in ("loop", "finalize")]
            if "asked" not in seq:
                continue
            n += 1
            first = seq.index("asked")
            r.check("loop" in seq[:first] and "finalize" in seq[:first], "R4", "end of the search",
                    f"whether there are results is asked before they are complete: {seq}", fi, describe(s))
        if not n:
            r.skip("R4", "end of the search", "nobody asks")


# ------------------------------------------------------------------ R3
def silent(r):
    """A search without results prints no message, every other error does."""
    p = r.p
    for name in p06.ERRORS:
        ci = p.cls("libff.exceptions:" + name)
        sub = f"message of {name}"

        def walk(ip, s, c, ci=ci):
            return [(s, Raised(Exc(ci, (T("sym", "message"),), c.node)))]
        text = T("sym", "message")
        n = 0
        for s, v in r.run(MAIN + ".loop", [T("new", p.cls(MAIN), C(0))], hooks={MAIN + ".walk": walk}):
            said = [e for e in s.events() if e.kind == "call" and (
                e.name.split(".")[-1] in ("print", "write", "writelines") or e.name.endswith("print_message"))]
            n += 1
            if name == "NoResultError":
                r.check(not said, "R3", sub, "a search without results prints a message", MAIN + ".loop", describe(s))
            elif said:
                r.ok("R3", sub)
            else:
                r.skip("R3", sub, "no message found")
        if not n:
            r.skip("R3", sub, "no outcome")
