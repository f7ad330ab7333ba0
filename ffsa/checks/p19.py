"""P19: shared state of parallel workers is never updated unsafely."""
import ast

from ..inventory import dotted, own_nodes, scopes
from ..lib import *
from ..project import ClassInfo, FuncInfo
from ..reach import Reach
from ..report import new_state
from ..values import C, Raised, T

EXPLANATION = (
    "Every assignment to a value shared between processes is found and its function interpreted "
    "symbolically; every load of the value gets a symbol of its own that remembers the critical section "
    "it was made in. A new value that depends on an old one must be computed and stored in one critical "
    "section of a lock that all processes share, the same one for every such site (lock sets). Locks: the "
    "code that can run while a lock is held (call graph by rapid type analysis) may neither take the same "
    "lock again nor wait for other processes, explicit acquisitions are released on every path including "
    "exceptions, and the order of nested locks has no cycle. Functions that run in several threads may "
    "not update what the threads share outside a lock.")

CONTEXT = "libff.context:Context"
VALUES = {"multiprocessing.Value", "multiprocessing.RawValue", "multiprocessing.sharedctypes.Value",
          "multiprocessing.sharedctypes.RawValue"}
RAW = {"multiprocessing.RawValue", "multiprocessing.sharedctypes.RawValue"}
PROCESS_LOCKS = {"multiprocessing.Lock": False, "multiprocessing.RLock": True,
                 "multiprocessing.Semaphore": None, "multiprocessing.BoundedSemaphore": None}
THREAD_LOCKS = {"threading.Lock": False, "threading.RLock": True, "_thread.allocate_lock": False}
WAITING = ("wait", "barrier_wait")


def run(r):
    r.rule("R1", "a value shared between processes that is changed depending on its old value is read and "
                 "stored in one critical section, of one lock for all processes and all such places")
    r.rule("R2", "shared values are set to nothing but constants otherwise")
    r.rule("R3", "no lock is taken by code that already holds it, locks are nested in one order, and nothing "
                 "waits for other processes while holding one")
    r.rule("R4", "a lock that is acquired is released on every path")
    r.rule("R5", "code that runs in several threads updates what the threads share only under a lock")
    r.rule("R6", "what worker processes count for the main process is stored in shared memory")
    r.floor = 20
    locks = Locks(r.p)
    for rule, f in (("R1", updates), ("R3", regions), ("R4", acquired), ("R5", threads), ("R6", plain)):
        with r.guard(rule, f.__name__):
            f(r, locks)


class Locks:
    """The shared values and locks of the program: attribute name -> constructors."""

    def __init__(self, p):
        self.p = p
        self.values, self.locks = {}, {}
        for m in p.modules.values():
            for n in ast.walk(m.tree):
                if not isinstance(n, (ast.Assign, ast.AnnAssign)) or n.value is None:
                    continue
                tgts = n.targets if isinstance(n, ast.Assign) else [n.target]
                names = [t.attr if isinstance(t, ast.Attribute) else t.id for t in tgts
                         if isinstance(t, (ast.Attribute, ast.Name))]
                for c in ast.walk(n.value):
                    if not isinstance(c, ast.Call):
                        continue
                    d = dotted(p, m, c.func)
                    if d is None:
                        continue
                    for name in names:
                        if d in VALUES:
                            self.values.setdefault(name, []).append((m, c, d))
                        elif d in PROCESS_LOCKS or d in THREAD_LOCKS:
                            self.locks.setdefault(name, []).append((m, c, d))

    def reentrant(self, key):
        if key[0] == "own":
            return True                      # the lock of a Value is an RLock
        kinds = {PROCESS_LOCKS.get(d, THREAD_LOCKS.get(d)) for _, _, d in self.locks.get(key[1], ())}
        return not kinds or kinds != {False}

    def shared(self, key):
        """Is the lock one for all processes?"""
        return key[0] == "own" or any(d in PROCESS_LOCKS for _, _, d in self.locks.get(key[1], ()))

    def shared_value(self, ip, v, s):
        if not isinstance(v, T):
            return False
        t = ip.typ(v, s)
        if isinstance(t, str) and t in VALUES:
            return True
        return v.op in ("attr", "ctx", "sym", "param") and str(v.args[-1]) in self.values

    def key(self, v):
        """("own", value) or ("lock", name) of a context manager or the receiver of acquire()."""
        if not isinstance(v, T):
            return None
        if v.op == "call" and str(v.args[0]).rsplit(".", 1)[-1] == "get_lock":
            return ("own", v.args[1])
        if v.op in ("attr", "ctx") and str(v.args[-1]) in self.locks:
            return ("lock", str(v.args[-1]))
        if v.op in ("attr", "ctx") and str(v.args[-1]) in self.values:
            return ("own", v)
        if v.op == "var" and v.args and str(v.args[-1]) in self.locks:
            return ("lock", str(v.args[-1]))
        return None


def held(locks, events):
    """(lock key -> number of its critical section, unknown context managers)"""
    have, unknown = [], []
    for i, e in enumerate(events):
        if e.kind == "enter":
            k = locks.key(e.recv)
            (have if k else unknown).append((k, i, e.recv))
        elif e.kind == "exit":
            for lst in (have, unknown):
                for x in reversed(lst):
                    if x[2] == e.recv:
                        lst.remove(x)
                        break
        elif e.kind == "call" and e.name.rsplit(".", 1)[-1] in ("acquire", "__enter__"):
            k = locks.key(e.recv)
            if k:
                have.append((k, i, e.recv))
        elif e.kind == "call" and e.name.rsplit(".", 1)[-1] in ("release", "__exit__"):
            k = locks.key(e.recv)
            for x in reversed(have):
                if x[0] == k:
                    have.remove(x)
                    break
    return {k: i for k, i, _ in have}, [x[2] for x in unknown]


# ------------------------------------------------------------------ R1, R2
def storing(p):
    """Functions with an assignment to an attribute `value`."""
    out = []
    for fi in p.all_funcs():
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Attribute) and n.attr == "value" and isinstance(n.ctx, ast.Store) or \
                    isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and \
                    len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == "value":
                out.append(fi)
                break
    return out


def arguments(p, fi):
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = [T("sym", n) for n in names]
    if fi.cls is not None and names and fi.kind not in ("staticmethod",):
        out[0] = CTX if fi.cls.qual == CONTEXT else obj(p, fi.cls.qual)
    kw = {x.arg: T("sym", x.arg) for x in a.kwonlyargs}
    return out, kw


def initial(p, fi, args):
    """Mutable attributes of the class may hold anything."""
    st = new_state()
    if fi.cls is not None and args:
        for c in p.mro(fi.cls):
            for name, value in (c.attrs.items() if isinstance(c, ClassInfo) else ()):
                if isinstance(value, (ast.Dict, ast.List, ast.Set)) or \
                        isinstance(value, ast.Call) and ast.unparse(value.func) in ("set", "dict", "list"):
                    st = st.setfield(args[0], name, T("sym", name))
    return st


class Run:
    """The store events of shared values on all paths of a function."""

    def __init__(self, r, locks, fi, helpers):
        self.r, self.locks, self.fi = r, locks, fi
        ip = r.interp(hooks={"@value": self.load}, opaque=lambda f: f.qual not in helpers and f is not fi,
                      max_loop=2, recursion=1)
        args, kw = arguments(r.p, fi)
        self.stores = []                 # (event, base, verdict, locks, state)
        for s, v in r.run(fi, args, kw, st=initial(r.p, fi, args), ip=ip):
            ev = s.events()
            for i, e in enumerate(ev):
                if e.kind == "store" and e.name == "value" and locks.shared_value(ip, e.recv, s):
                    self.judge(s, ev[:i], e)

    def load(self, ip, s, b, node):
        if not self.locks.shared_value(ip, b, s):
            return None
        n = s.facts.get(("loads",), 0)
        sym = T("sym", f"value read #{n}")
        have, unknown = held(self.locks, s.events())
        s = s.fact(("loads",), n + 1).fact(("load", sym), (b, have, unknown))
        return [(s, sym)]

    def judge(self, s, before, e):
        have, unknown = held(self.locks, before)
        new = e.args[0]
        loads = [(k[1], v) for k, v in s.facts.items() if isinstance(k, tuple) and k[0] == "load" and v[0] == e.recv]
        used = [(sym, v) for sym, v in loads if mentions(new, sym)]
        tested = [(sym, v) for sym, v in loads
                  if any(isinstance(k, tuple) and k[0] != "load" and any(mentions(x, sym) for x in k[1:]
                                                                        if isinstance(x, T))
                         for k in e.facts)]
        const = isinstance(new, C)
        if not used and (const or not tested):
            verdict = "const" if const else "blind"
            self.stores.append((e, verdict, self.names(have, e.recv), unknown, s))
            return
        common = None
        for sym, (b, h, u) in used or tested:
            c = {k for k, i in h.items() if have.get(k) == i}
            common = c if common is None else common & c
        common = {k for k in common if self.locks.shared(k)}
        self.stores.append((e, "update", self.names(common, e.recv), unknown, s))

    @staticmethod
    def names(keys, base):
        return {("own",) if k[0] == "own" and k[1] == base else k for k in keys}


def helpers(p, locks):
    """Functions to be followed: those that touch shared values or locks."""
    out = set()
    for fi in p.all_funcs():
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Attribute) and (n.attr in locks.values or n.attr in locks.locks or
                                                 n.attr in ("get_lock", "acquire", "release", "value")):
                out.add(fi.qual)
                break
    return out


def callers(p, fi):
    out = []
    for g in p.all_funcs():
        for n in own_nodes(g.node):
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == fi.name or
                                            isinstance(n.func, ast.Name) and n.func.id == fi.name):
                out.append(g)
                break
    return out


def where(e):
    return f"{e.fn.module.rel}:{getattr(e.node, 'lineno', '?')}" if e.fn is not None and \
        hasattr(e.fn, "module") else None


def updates(r, locks):
    p = r.p
    follow = helpers(p, locks)
    stores = {f.qual for f in storing(p)}
    follow |= stores
    groups = {}                          # place of the assignment -> [(root, store)]
    done = set()

    def collect(quals):
        for q in sorted(quals - done):
            done.add(q)
            fi = p.funcs.get(q)
            if fi is None:
                continue
            with r.guard("R1", q):
                for x in Run(r, locks, fi, follow).stores:
                    e = x[0]
                    if e.node is not None:
                        home = e.fn.qual if hasattr(e.fn, "qual") else str(e.fn)
                        groups.setdefault((home, e.node.lineno, e.node.col_offset), []).append((fi, x))

    def good(x):
        return x[1] == "const" or x[1] == "update" and x[2]

    collect(set(follow))
    # Code that changes a value without a lock may be called with the lock held.
    more = set()
    for (home, _, _), xs in groups.items():
        if not all(good(x) for fi, x in xs if fi.qual == home):
            more |= {g.qual for g in callers(p, p.funcs[home]) if p.funcs[home].name != "__init__"} \
                if home in p.funcs else set()
    collect(more)
    sites = {}
    for (home, line, col), xs in groups.items():
        own = [(fi, x) for fi, x in xs if fi.qual == home]
        up = [(fi, x) for fi, x in xs if fi.qual != home]
        take = own or up
        if own and not all(good(x) for _, x in own) and \
                any(x[1] == "update" and x[2] for _, x in up):
            take = up
        for fi, x in take:
            sites.setdefault(owner(p, r, x[0].recv), []).append((p.funcs.get(home, fi), x))
    for key, found in sorted(sites.items(), key=str):
        ups = [(fi, x) for fi, x in found if x[1] == "update"]
        for fi, x in found:
            e, kind, keys, unknown, s = x
            sub = f"{key}: {fi.qual}:{e.node.lineno if e.node is not None else ''}"
            loc = fi.loc
            if kind == "const":
                r.ok("R2", sub)
                continue
            if not keys and unknown:
                r.skip("R1", sub, f"unknown context manager {short(unknown[0])}")
                continue
            if kind == "blind":
                r.bad("R2", sub, f"the shared value {key} is overwritten with {short(e.args[0])} whatever other "
                      "processes stored", loc, describe(s))
                continue
            r.check(bool(keys), "R1", sub, f"the shared value {key} is read and stored again without holding one "
                    "lock of all processes in between, an update of another process is lost", loc, describe(s))
        lists = [set(x[2]) for fi, x in ups if x[2]]
        if len(lists) > 1:
            common = set.intersection(*lists)
            r.check(bool(common), "R1", f"{key}: one lock", f"the updates of {key} in "
                    f"{', '.join(sorted({fi.qual for fi, x in ups}))} are protected by different locks")
        if ups:
            for m, c, d in locks.values.get(key.rsplit(".", 1)[-1], ()):
                raw = d in RAW or any(k.arg == "lock" and isinstance(k.value, ast.Constant) and k.value.value is False
                                      for k in c.keywords)
                own = any(("own",) in x[2] for fi, x in ups)
                r.check(not (raw and own), "R1", f"{key}: has a lock", "the shared value has no lock",
                        f"{m.rel}:{c.lineno}")
    n = sum(1 for found in sites.values() for fi, x in found if x[1] == "update")
    if n < 3:
        r.skip("R1", "updates", f"only {n} updates of shared values found")


def owner(p, r, base):
    if isinstance(base, T) and base.op == "attr":
        b = base.args[0]
        if isinstance(b, T) and b.op == "new" and isinstance(b.args[0], ClassInfo):
            return f"{b.args[0].name}.{base.args[-1]}"
        return f"{short(b)}.{base.args[-1]}"
    if isinstance(base, T):
        return str(base.args[-1])
    return short(base)


# ------------------------------------------------------------------ R3
def lock_of(locks, e):
    """The name of the lock an expression denotes."""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get_lock":
        x = e.func.value
        return ("own", x.attr if isinstance(x, ast.Attribute) else ast.unparse(x))
    if isinstance(e, ast.Attribute) and e.attr in locks.locks or isinstance(e, ast.Name) and e.id in locks.locks:
        return ("lock", e.attr if isinstance(e, ast.Attribute) else e.id)
    return None


def taken(locks, nodes):
    """(lock, node, body) of every critical section among the nodes."""
    for n in nodes:
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i, it in enumerate(n.items):
                k = lock_of(locks, it.context_expr)
                if k:
                    rest = [ast.Expr(value=x.context_expr) for x in n.items[i + 1:]]
                    yield k, n, rest + n.body
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "acquire":
            k = lock_of(locks, n.func.value)
            if k:
                yield k, n, []


class Region(Reach):
    """What runs in a critical section: objects exist already, their constructors do not run there."""

    def __init__(self, p, part, exist):
        self.part, self.inside = part, False
        super().__init__(p, [part], ([part.cls] if part.cls is not None else []) + exist)

    def func(self, fi):
        if fi is self.part:
            self.inside = True
        super().func(fi)

    def instance(self, ci):
        if self.inside or ci.qual in self.classes:
            super().instance(ci)
            return
        self.classes[ci.qual] = ci


def regions(r, locks):
    p = r.p
    order = {}
    # Objects that any code of a process can reach by name.
    exist = [p.classes[q] for q in (CONTEXT, "libff.logger:Logger", "libff.cache:Cache", "libff.registry:Registry",
                                    "libff.walk:FilesystemWalker") if q in p.classes]
    for fi in p.all_funcs():
        for k, node, body in taken(locks, own_nodes(fi.node)):
            sub = f"{fi.qual}:{node.lineno} holds {k[1]}"
            loc = f"{fi.module.rel}:{node.lineno}"
            with r.guard("R3", sub):
                inner = ast.FunctionDef(name=fi.name, args=fi.node.args, body=body or [ast.Pass()], decorator_list=[],
                                        lineno=node.lineno, col_offset=0)
                part = FuncInfo(fi.name, f"{fi.qual}#{node.lineno}", inner, fi.module, fi.cls, fi.outer)
                reach = Region(p, part, exist)
                again, waits = None, None
                for g in reach.funcs.values():
                    for k2, n2, _ in taken(locks, own_nodes(g.node)):
                        if k2 == k and not locks.reentrant(k):
                            again = again or f"{g.qual.split('#')[0]}:{n2.lineno}"
                        elif k2 != k:
                            order.setdefault(k, {})[k2] = f"{loc} -> {g.qual}"
                r.check(again is None, "R3", sub, f"the lock {k[1]} is taken again by {again} while it is held, the "
                        "process waits for itself", loc)
                for g in reach.funcs.values():
                    for n2 in own_nodes(g.node):
                        if isinstance(n2, ast.Call) and isinstance(n2.func, ast.Attribute) and \
                                n2.func.attr in WAITING and barrier(n2):
                            waits = f"{g.qual}:{n2.lineno}"
                r.check(waits is None, "R3", f"{sub}: waits for nothing",
                        f"the processes wait for each other at {waits} while one holds {k[1]}", loc)
    for a in order:
        for b in order[a]:
            r.check(a not in order.get(b, {}), "R3", f"order of {a[1]} and {b[1]}", "the locks are taken in both "
                    f"orders: {order[a][b]} and {order.get(b, {}).get(a)}")


def barrier(call):
    x = call.func.value
    name = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else ""
    return call.func.attr == "barrier_wait" or "barrier" in name


# ------------------------------------------------------------------ R4
def acquired(r, locks):
    p = r.p
    n = 0
    for fi in p.all_funcs():
        sites = [x for x in own_nodes(fi.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
                 x.func.attr == "acquire" and lock_of(locks, x.func.value)]
        if not sites:
            continue
        n += 1
        with r.guard("R4", fi.qual):
            if any(x.args or x.keywords for x in sites):
                r.skip("R4", fi.qual, "conditional acquisition")
                continue
            if not any(isinstance(x, ast.Attribute) and x.attr == "release" for x in own_nodes(fi.node)):
                r.skip("R4", fi.qual, "released elsewhere")
                continue
            ip = r.interp(opaque=lambda f: f is not fi, max_loop=2,
                          raises=lambda name, recv, st, call: None
                          if str(name).rsplit(".", 1)[-1] in ("acquire", "release", "get_lock") else ["RuntimeError"])
            args, kw = arguments(p, fi)
            for s, v in r.run(fi, args, kw, st=initial(r.p, fi, args), ip=ip):
                have, _ = held(locks, s.events())
                r.check(not have, "R4", f"{fi.qual}: released", "the lock "
                        f"{', '.join(str(k[1]) for k in have)} is still held "
                        f"{'when the function fails with ' + v.exc.name if isinstance(v, Raised) else 'at the end'}",
                        fi.loc, describe(s))
    # Critical sections that are blocks are released by the statement itself.
    for fi in p.all_funcs():
        for k, node, body in taken(locks, own_nodes(fi.node)):
            if body:
                r.ok("R4", f"{fi.qual}:{node.lineno} {k[1]}")


# ------------------------------------------------------------------ R5
def threads(r, locks):
    p = r.p
    n = 0
    for m in p.modules.values():
        for scope, node in scopes(m):
            for c in own_nodes(node):
                if not isinstance(c, ast.Call):
                    continue
                d = dotted(p, m, c.func)
                if d not in ("threading.Thread", "concurrent.futures.ThreadPoolExecutor", "threading.Timer"):
                    continue
                tgt = next((k.value for k in c.keywords if k.arg in ("target", "function")), None)
                if tgt is None:
                    r.skip("R5", scope, "the function of the thread is unknown")
                    continue
                n += 1
                with r.guard("R5", ast.unparse(tgt)):
                    judge_thread(r, locks, m, scope, tgt)


def judge_thread(r, locks, m, scope, tgt):
    p = r.p
    cls = p.classes.get(scope.rsplit(".", 1)[0])
    name = tgt.attr if isinstance(tgt, ast.Attribute) else tgt.id if isinstance(tgt, ast.Name) else None
    fi = p.find_method(cls, name) if cls is not None and isinstance(tgt, ast.Attribute) else None
    if fi is None:
        cands = [f for f in p.all_funcs() if f.name == name]
        fi = cands[0] if len(cands) == 1 else None
    if fi is None:
        r.skip("R5", ast.unparse(tgt), "the function of the thread is unknown")
        return
    known = [cls] if cls is not None else []
    known += [p.cls(CONTEXT), p.cls("libff.logger:Logger")]
    reach = Reach(p, [fi], known)
    for g in reach.funcs.values():
        if g.name in ("__init__", "__new__"):
            continue
        local = {n.id for n in own_nodes(g.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        glob = {x for n in own_nodes(g.node) if isinstance(n, ast.Global) for x in n.names}
        pm = p.parent_map(g.module)
        for n in own_nodes(g.node):
            t, what = None, None
            if isinstance(n, ast.AugAssign):
                t = n.target
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                t = n.targets[0]
                text = ast.unparse(t)
                if not any(isinstance(x, (ast.Attribute, ast.Subscript)) and ast.unparse(x) == text
                           for x in ast.walk(n.value)):
                    t = None
            if t is None:
                continue
            root = t
            while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
                root = root.func if isinstance(root, ast.Call) else root.value
            if not isinstance(root, ast.Name):
                continue
            if isinstance(t, ast.Name) and t.id not in glob:
                continue
            if root.id in local and root.id not in glob:
                continue
            under, x = False, n
            while x in pm and x is not g.node:
                x = pm[x]
                if isinstance(x, (ast.With, ast.AsyncWith)) and any(lock_of(locks, it.context_expr) or
                                                                   unknown_lock(it.context_expr) for it in x.items):
                    under = True
            what = ast.unparse(t)
            acq = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "acquire"
                      for x in own_nodes(g.node))
            if not under and (acq or all_under(p, locks, reach, g)):
                under = True
            r.check(under, "R5", f"{g.qual}: {what}", f"{what} is updated by several threads at once "
                    f"({fi.qual}) without a lock, updates are lost", f"{g.module.rel}:{n.lineno}")
    r.ok("R5", f"{fi.qual}: {len(reach.funcs)} functions")


def unknown_lock(e):
    t = ast.unparse(e)
    return "lock" in t.lower() or "mutex" in t.lower()


def all_under(p, locks, reach, g, depth=0):
    """Is every call of g made in a critical section?"""
    found = False
    for h in reach.funcs.values():
        pm = p.parent_map(h.module)
        for n in own_nodes(h.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == g.name or \
                    isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == g.name:
                found = True
                x, ok = n, False
                while x in pm and x is not h.node:
                    x = pm[x]
                    if isinstance(x, ast.With) and any(lock_of(locks, it.context_expr) or
                                                       unknown_lock(it.context_expr) for it in x.items):
                        ok = True
                if not ok and not (depth < 3 and h is not g and all_under(p, locks, reach, h, depth + 1)):
                    return False
    return found


# ------------------------------------------------------------------ R6
def plain(r, locks):
    """Attributes of the context that workers change: the main process does not see them."""
    p = r.p
    walker = p.cls("libff.walk:FilesystemWalker")
    loop = p.find_method(walker, "loop")
    known = [c for c in p.classes.values() if c.module.name.startswith("libff.") and
             ".builtin" not in c.module.name and c.module.name not in ("libff.main", "libff.find", "libff.argparse",
                                                                       "libff.help", "libff.arguments")]
    reach = Reach(p, [loop], known)
    ctx = p.cls(CONTEXT)
    main = [p.func("libff.main:Main.process")] if "libff.main:Main.process" in p.funcs else \
        [f for f in p.all_funcs() if f.module.name == "libff.main"]
    n = 0
    for name, fi in sorted(all_methods(p, ctx).items()):
        if name in ("__init__", "setup") or fi.qual not in reach.funcs:
            continue
        n += 1
        for x in own_nodes(fi.node):
            if not (isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and
                    isinstance(x.value, ast.Name) and x.value.id == "self"):
                continue
            readers = [f for f in main if any(isinstance(y, ast.Attribute) and y.attr == x.attr and
                                              isinstance(y.ctx, ast.Load) for y in own_nodes(f.node))]
            props = [f for f in all_methods(p, ctx).values() if f is not fi and f.name not in ("setup", "__init__") and
                     any(isinstance(y, ast.Attribute) and y.attr == x.attr and isinstance(y.ctx, ast.Load)
                         for y in own_nodes(f.node)) and
                     any(isinstance(y, ast.Attribute) and y.attr == f.name for g in main for y in own_nodes(g.node))]
            r.check(not readers and not props, "R6", f"{fi.qual}: {x.attr}", f"{x.attr} is changed in a worker "
                    f"process only, {(readers + props)[0].qual if readers + props else ''} of the main process "
                    "never sees it", f"{fi.module.rel}:{x.lineno}")
        r.ok("R6", fi.qual)
    if n < 3:
        r.skip("R6", "workers", f"only {n} functions of the context are used by workers")


def all_methods(p, ci):
    out = {}
    for f in p.all_funcs():
        if f.cls is ci:
            out[f.name] = f
    return out
