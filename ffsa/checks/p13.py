"""P13: debug-only code and assertions do not influence results."""
import ast
import builtins

from ..inventory import aliases, dotted, own_nodes, scopes
from ..report import new_state     # noqa: F401

EXPLANATION = (
    "Non-interference analysis of code that only runs in one interpreter mode. Every region guarded by "
    "__debug__ (also through boolean combinations, conditional expressions, aliases and early returns) "
    "is found in the syntax tree; its statements may only have effects on standard error and on names "
    "that are read in such regions alone, where the effects of called project functions are inferred "
    "recursively. Names, methods and command-line options that exist in debug mode only must not be "
    "read elsewhere. Assertions must be free of effects, and code that validates user input must not "
    "validate with them.")

PURE_NAMES = {"len", "str", "repr", "sorted", "isinstance", "issubclass", "type", "min", "max", "sum", "any",
              "all", "list", "dict", "set", "frozenset", "tuple", "getattr", "hasattr", "enumerate", "zip",
              "range", "int", "float", "hex", "oct", "format", "id", "abs", "round", "callable", "bool",
              "ascii", "super", "reversed", "map", "filter", "vars", "bytes", "ord", "chr", "dir", "hash"}
PURE_EXT = ("os.path.", "time.", "textwrap.", "math.", "collections.", "string.", "re.", "pprint.pformat",
            "pprint.saferepr", "os.getpid", "os.getcwd", "os.fsdecode", "os.fsencode", "threading.current_thread",
            "multiprocessing.current_process", "sys.getsizeof", "sys._getframe", "traceback.format_",
            "inspect.get", "shlex.quote", "shlex.join", "os.environ.get", "os.stat", "os.lstat", "json.dumps",
            "traceback.print_exc", "traceback.print_stack", "faulthandler.", "logging.", "warnings.warn",
            "functools.partial", "operator.", "itertools.", "traceback.extract_stack")
IMPURE_EXT = ("os.remove", "os.unlink", "os.chdir", "os.kill", "os._exit", "sys.exit", "os.rename", "os.umask",
              "signal.", "sys.setrecursionlimit", "random.seed", "shutil.", "subprocess.", "os.putenv",
              "time.sleep_", "builtins.setattr", "builtins.delattr", "builtins.next", "builtins.exit",
              "builtins.quit", "builtins.exec", "os.environ.update", "os.write")
PURE_METHODS = {"format", "join", "split", "rsplit", "strip", "lstrip", "rstrip", "lower", "upper", "replace",
                "startswith", "endswith", "items", "keys", "values", "copy", "count", "index", "find", "rfind",
                "title", "encode", "decode", "ljust", "rjust", "center", "zfill", "splitlines", "is_alive",
                "qsize", "empty", "full", "total_seconds", "isoformat", "strftime", "hexdigest", "group",
                "groups", "match", "search", "fullmatch", "partition", "rpartition", "union", "difference",
                "intersection", "issubset", "issuperset", "isdecimal", "isdigit", "isalpha", "expandtabs",
                "casefold", "capitalize", "as_posix", "__repr__", "__str__", "fileno", "isatty", "bit_length"}
MUTATORS = {"append", "extend", "insert", "pop", "popleft", "remove", "clear", "update", "add", "discard",
            "sort", "reverse", "setdefault", "put", "put_nowait", "get_nowait", "popitem", "appendleft",
            "acquire", "release", "send", "recv", "start", "join_thread", "terminate", "kill", "execute",
            "executemany", "commit", "rollback", "writelines", "truncate", "seek", "wait", "abort", "reset",
            "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__",
            "__next__", "read", "readline", "readlines", "close", "flush_all", "unlink", "run", "communicate"}
INPUT_MODULES = {"libff.argparse", "libff.arguments", "libff.parser", "libff.field", "libff.convert",
                 "libff.find", "libff.ignore", "libff.attribute"}


def run(r):
    r.rule("R1", "code that runs in one interpreter mode only has no effect outside such code")
    r.rule("R2", "what exists in debug mode only is not used outside debug code")
    r.rule("R3", "assertions are free of effects, and input is not validated by them")
    r.floor = 30
    a = Analysis(r)
    a.find()
    a.bodies()
    a.names()
    a.options()
    a.asserts()
    a.control_flow()


class Region:
    """A piece of code that runs in one mode only."""
    def __init__(self, m, scope, fn, node, body, mode, profile, other=()):
        self.m, self.scope, self.fn, self.node, self.body = m, scope, fn, node, body
        self.mode, self.profile, self.other = mode, profile, other

    @property
    def where(self):
        return f"{self.m.rel}:{self.node.lineno} ({self.scope})"


class Analysis:
    def __init__(self, r):
        self.r, self.p = r, r.p
        self.regions = []
        self.inside = {}        # id(node) -> Region, for every node of a region
        self.exprs = []
        self.memo = {}
        self.defs = {}
        for m in self.p.modules.values():
            for q, n in scopes(m):
                if not q.endswith(":"):
                    self.defs.setdefault(n.name, []).append((m, q, n))

    # ------------------------------------------------------------------ regions
    def find(self):
        for m in self.p.modules.values():
            if "__debug__" not in m.source if hasattr(m, "source") else False:
                continue
            for q, n in scopes(m):
                self.flags = {}
                for x in own_nodes(n):
                    if isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                            isinstance(x.targets[0], ast.Name) and mode(x.value, {})[:2] == ("debug", "opt"):
                        self.flags[x.targets[0].id] = True
                body = n.body
                self.block(m, q, n, body, None)
                for x in own_nodes(n):
                    if isinstance(x, ast.IfExp) and id(x) not in self.inside:
                        a, b, prof = mode(x.test, self.flags)
                        if (a or b) and not prof:
                            self.exprs.append((m, q, n, x))
                    elif isinstance(x, ast.BoolOp) and mode(x, self.flags) and id(x) not in self.inside:
                        self.boolop(m, q, n, x)

    def boolop(self, m, q, fn, x):
        """`__debug__ and f()`: f runs in one mode only."""
        for i, v in enumerate(x.values):
            a, b, prof = mode(v, self.flags)
            if a or b:
                rest = x.values[i + 1:]
                if rest:
                    self.add(Region(m, q, fn, x, [ast.copy_location(ast.Expr(e), e) for e in rest],
                                    "debug", True if any(is_profile(e) for e in rest) else prof))
                return

    def block(self, m, q, fn, body, inside):
        for i, st in enumerate(body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(st, ast.If):
                a, b, prof = mode(st.test, self.flags)
                if a or b:
                    if a:
                        self.add(Region(m, q, fn, st, st.body, a, prof, st.orelse))
                    else:
                        self.block(m, q, fn, st.body, inside)
                    rest = st.orelse
                    if b and rest:
                        self.add(Region(m, q, fn, st, rest, b, prof, st.body))
                    else:
                        self.block(m, q, fn, rest, inside)
                    # an early exit in one mode makes the remainder run in the other one only
                    tail = body[i + 1:]
                    if a and not prof and ends(st.body) and not st.orelse and tail and \
                            not isinstance(st.body[-1], ast.Raise):
                        self.inside.pop(id(st.body[-1]), None)
                        self.early(m, q, fn, st, tail, "opt" if a == "debug" else "debug")
                        return
                    continue
            for name in ("body", "orelse", "finalbody"):
                sub = getattr(st, name, None)
                if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt):
                    self.block(m, q, fn, sub, inside)
            for h in getattr(st, "handlers", ()):
                self.block(m, q, fn, h.body, inside)
            for c in getattr(st, "cases", ()):
                self.block(m, q, fn, c.body, inside)

    def early(self, m, q, fn, st, tail, mode_):
        first = st.body[-1]
        # the return itself: harmless if nothing but the remainder follows
        reg = [x for x in self.regions if x.node is st]
        for x in reg:
            x.body = [s for s in x.body if s is not first]
        self.add(Region(m, q, fn, st, tail, mode_, False))

    def add(self, reg):
        self.regions.append(reg)
        for s in reg.body:
            for n in ast.walk(s):
                self.inside.setdefault(id(n), reg)

    # ------------------------------------------------------------------ R1
    def bodies(self):
        r = self.r
        for reg in self.regions:
            r.funcs.add(reg.scope)
            r.sites.add(reg.where)
            subject = f"{reg.scope}#{self.ordinal(reg)}"
            if reg.profile:
                r.ok("R1", subject + " (profiling)")
                continue
            if isinstance(reg.node, ast.If) and self.development(reg):
                r.ok("R1", subject + " (development tree)")
                continue
            other = {ast.dump(s) for s in reg.other}
            bad = []
            for s in reg.body:
                if reg.other and ast.dump(s) in other:
                    continue
                bad.extend(self.statement(reg, s))
            hard = [b for b in bad if b[0]]
            soft = [b for b in bad if not b[0]]
            if hard:
                for _, n, what in hard:
                    r.bad("R1", subject, what, f"{reg.m.rel}:{getattr(n, 'lineno', 0)} ({reg.scope})")
            elif soft:
                r.skip("R1", subject, soft[0][2])
            else:
                r.ok("R1", subject)
        for m, q, fn, x in self.exprs:
            if mode(x, {})[0] is None:
                self.ifexp(m, q, fn, x)

    def development(self, reg):
        """Is the region additionally guarded by the presence of a git working tree of ff itself?"""
        if not (isinstance(reg.node.test, ast.BoolOp) and isinstance(reg.node.test.op, ast.And)):
            return False
        for v in reg.node.test.values:
            for x in ast.walk(v):
                if isinstance(x, ast.Constant) and isinstance(x.value, str) and ".git" in x.value:
                    return True
                if isinstance(x, ast.Name):
                    for n in own_nodes(reg.fn):
                        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id
                                                             for t in n.targets) and \
                                any(isinstance(c, ast.Constant) and isinstance(c.value, str) and
                                    ".git" in c.value for c in ast.walk(n.value)):
                            return True
        return False

    def ordinal(self, reg):
        return [x for x in self.regions if x.scope == reg.scope].index(reg) + 1

    def ifexp(self, m, q, fn, x):
        pm = self.p.parent_map(m)
        par = pm.get(x)
        subject = f"{q}#expr{x.lineno - getattr(fn, 'lineno', 0)}"
        if ast.dump(x.body) == ast.dump(x.orelse):
            self.r.ok("R1", subject)
            return
        if isinstance(par, ast.Assign) and all(isinstance(t, ast.Name) for t in par.targets) and \
                not q.endswith(":"):
            names = {t.id for t in par.targets}
            outside = [n for n in own_nodes(fn) if isinstance(n, ast.Name) and n.id in names and
                       isinstance(n.ctx, ast.Load) and id(n) not in self.inside]
            if not outside:
                self.r.ok("R1", subject)
                return
        if isinstance(par, ast.Call) and self.logging(par):
            self.r.ok("R1", subject)
            return
        self.r.bad("R1", subject, f"the value of {ast.unparse(x)} differs between the interpreter modes "
                   "and is used outside debug code", f"{m.rel}:{x.lineno} ({q})")

    def local_names(self, reg):
        """Names assigned in the region that no other code of the function reads."""
        stored = set()
        for s in reg.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    stored.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    stored |= {(x.asname or x.name).split(".")[0] for x in n.names}
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    stored.add(n.name)
        comp = set()
        for s in reg.body:
            for n in ast.walk(s):
                if isinstance(n, ast.comprehension):
                    comp |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        return stored, comp

    def read_outside(self, reg, name):
        """Is a name bound by the region read by code that may see the binding?"""
        for n in own_nodes_deep(reg.fn):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Load, ast.Del)):
                other = self.inside.get(id(n))
                if other is None or other.profile != reg.profile:
                    if other is not None:
                        continue
                    if self.rebound(reg, n, name):
                        continue
                    return n
        if reg.scope.endswith(":"):
            return None
        for n in own_nodes(reg.fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names:
                return n
        return None

    def rebound(self, reg, use, name):
        """Is `name` surely bound again, by other code, on every way to the use? Approximation: the
        innermost block around the use that does not contain the region binds it before the use."""
        pm = self.p.parent_map(reg.m)
        n = use
        while n is not None and n is not reg.fn:
            par = pm.get(n)
            if isinstance(par, (ast.For, ast.comprehension)) and \
                    any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(par.target)) and \
                    n is not getattr(par, "iter", None):
                return True
            if isinstance(par, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in par.generators:
                    if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(g.target)):
                        return True
            if isinstance(par, ast.Lambda) and any(a.arg == name for a in par.args.args):
                return True
            for f in ("body", "orelse", "finalbody"):
                blk = getattr(par, f, None)
                if isinstance(blk, list) and n in blk:
                    for s in reversed(blk[:blk.index(n)]):
                        if any(x is reg.node for x in ast.walk(s)) or s is reg.node:
                            return False
                        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name
                                                             for t in s.targets):
                            return True
                        if isinstance(s, ast.With) and any(
                                isinstance(i.optional_vars, ast.Name) and i.optional_vars.id == name
                                for i in s.items):
                            return True
            n = par
        # a use before the region, not in a common loop, never sees the binding
        if getattr(use, "lineno", 0) < reg.node.lineno:
            n = reg.node
            while n is not None and n is not reg.fn:
                par = pm.get(n)
                if isinstance(par, (ast.For, ast.While)):
                    return False
                n = par
            return True
        return False

    def statement(self, reg, s, loops=0, local=None):
        """Effects of a statement of a region: [(definite?, node, what)]."""
        if local is None:
            stored, comp = self.local_names(reg)
            local = stored | comp
        out = []

        def go(stmts, loops):
            for x in stmts:
                out.extend(self.statement(reg, x, loops, local))
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return out
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for x in s.names:
                n = (x.asname or x.name).split(".")[0]
                u = self.read_outside(reg, n)
                if u is not None:
                    out.append((True, s, f"{n} is imported in {reg.mode} code only but used at line "
                                f"{u.lineno}"))
            return out
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for m, q, node in self.defs.get(s.name, []):        # R2: only called from debug code
                if node is s:
                    out.extend(e for e in self.effects(m, q, s) if e[0])
            return out
        if isinstance(s, ast.ClassDef):
            return out
        if isinstance(s, ast.Expr):
            if isinstance(s.value, (ast.Yield, ast.YieldFrom, ast.Await)):
                return [(True, s, f"{reg.mode}-only code yields a value")]
            return self.expr(reg, s.value, local)
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
            targets = s.targets if isinstance(s, (ast.Assign, ast.Delete)) else [s.target]
            for t in targets:
                out.extend(self.target(reg, t, s, local))
            if getattr(s, "value", None) is not None:
                out.extend(self.expr(reg, s.value, local))
            return out
        if isinstance(s, ast.If):
            out.extend(self.expr(reg, s.test, local))
            prof = is_profile(s.test) or (isinstance(s.test, ast.BoolOp) and
                                          isinstance(s.test.op, ast.And) and
                                          any(is_profile(v) for v in s.test.values))
            if not prof:
                go(s.body, loops)
            go(s.orelse, loops)
            return out
        if isinstance(s, (ast.For, ast.AsyncFor)):
            out.extend(self.expr(reg, s.iter, local))
            out.extend(self.consumes(reg, s.iter, local))
            for n in ast.walk(s.target):
                if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)) and \
                        isinstance(n.ctx, ast.Store):
                    out.extend(self.target(reg, n, s, local))
            go(s.body, loops + 1)
            go(s.orelse, loops)
            return out
        if isinstance(s, ast.While):
            out.extend(self.expr(reg, s.test, local))
            go(s.body, loops + 1)
            go(s.orelse, loops)
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                e = i.context_expr
                if isinstance(e, ast.Call) and dotted(self.p, reg.m, e.func) == "contextlib.suppress" or \
                        isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                        e.func.attr == "get_lock":
                    continue
                if isinstance(e, ast.Attribute) and "lock" in e.attr:
                    continue
                out.append((False, s, f"with {ast.unparse(e)} in {reg.mode} code"))
            go(s.body, loops)
            return out
        if isinstance(s, ast.Try):
            go(s.body, loops)
            for h in s.handlers:
                go(h.body, loops)
            go(s.orelse, loops)
            go(s.finalbody, loops)
            return out
        if isinstance(s, ast.Raise):
            return self.raises(reg, s)
        if isinstance(s, ast.Return):
            if self.debug_only(reg):
                return out
            return [(True, s, f"{reg.mode}-only code returns from the function")]
        if isinstance(s, (ast.Break, ast.Continue)):
            if loops:
                return out
            return [(True, s, f"{reg.mode}-only code leaves a loop iteration of the function")]
        if isinstance(s, ast.Assert):
            return self.expr(reg, s.test, local)
        return [(False, s, f"{type(s).__name__} in {reg.mode} code")]

    def debug_only(self, reg):
        name = getattr(reg.fn, "name", None)
        return name is not None and self.only_debug_calls(name)

    def only_debug_calls(self, name, seen=()):
        """Is the function with this name only referenced from debug code?"""
        uses = self.uses(name)
        if not uses or name in seen:
            return False
        for m, q, n in uses:
            if id(n) in self.inside:
                continue
            fn = q.rsplit(".", 1)[-1].rsplit(":", 1)[-1]
            if not fn or not self.only_debug_calls(fn, seen + (name,)):
                return False
        return True

    def uses(self, name):
        if not hasattr(self, "_uses"):
            self._uses = {}
            for m in self.p.modules.values():
                for q, node in scopes(m):
                    for n in own_nodes(node):
                        k = n.attr if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) else \
                            n.id if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) else None
                        if k is not None:
                            self._uses.setdefault(k, []).append((m, q, n))
        return self._uses.get(name, [])

    def raises(self, reg, s):
        pm = self.p.parent_map(reg.m)
        if self.interrupt(pm, s):
            return []
        e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        d = dotted(self.p, reg.m, e) if e is not None else None
        if d and d.rsplit(".", 1)[-1].rsplit(":", 1)[-1] == "BadPluginError":
            # a defective plugin (P14), not valid or invalid input
            return []
        # caught again within the region?
        n = s
        while n is not None and n is not reg.node:
            par = pm.get(n)
            if isinstance(par, ast.Try) and n in par.body and par.handlers:
                return []
            n = par
        return [(True, s, f"{reg.mode}-only code raises {ast.unparse(s.exc) if s.exc else 'again'}")]

    def interrupt(self, pm, s):
        n = s
        while n is not None:
            n = pm.get(n)
            if isinstance(n, ast.ExceptHandler):
                t = n.type
                return isinstance(t, ast.Name) and t.id in ("KeyboardInterrupt",)
        return False

    def target(self, reg, t, s, local):
        if isinstance(t, (ast.Tuple, ast.List)):
            return [x for e in t.elts for x in self.target(reg, e, s, local)]
        if isinstance(t, ast.Starred):
            return self.target(reg, t.value, s, local)
        if isinstance(t, ast.Name):
            if reg.scope.endswith(":"):
                return []                   # R2
            u = self.read_outside(reg, t.id)
            if u is not None:
                return [(True, s, f"{t.id} is assigned in {reg.mode} code only and read at line {u.lineno}")]
            return []
        if isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id in local and not self.outer(reg, t.value.id):
                return []
            others = self.attr_reads(reg, t)
            if others:
                return [(True, s, f"{ast.unparse(t)} is set in {reg.mode} code only and read outside, "
                         f"e.g. at {others[0][0].rel}:{others[0][2].lineno}")]
            return []
        if isinstance(t, ast.Subscript):
            b = t.value
            if isinstance(b, ast.Name) and b.id in local and not self.outer(reg, b.id):
                return []
            return [(True, s, f"{ast.unparse(t)} is changed in {reg.mode} code only")]
        return [(False, s, f"assignment to {ast.unparse(t)}")]

    def attr_reads(self, reg, t):
        """Reads outside of debug code that may see the attribute stored to `t`."""
        pm = self.p.parent_map(reg.m)
        own = isinstance(t.value, ast.Name) and t.value.id in ("self", "cls")
        mine = self.class_of(pm, reg.fn)
        out = []
        for m, q, n in self.uses(t.attr):
            if id(n) in self.inside or not isinstance(n, ast.Attribute):
                continue
            fn = q.rsplit(".", 1)[-1].rsplit(":", 1)[-1]
            if fn and self.only_debug_calls(fn):
                continue
            if isinstance(n.value, ast.Name) and n.value.id in ("self", "cls") and own:
                ci = self.p.classes.get(q.rsplit(".", 1)[0])
                if ci is not None and mine is not None and mine not in self.p.mro(ci) and \
                        ci not in self.p.mro(mine):
                    continue
            elif dotted(self.p, m, n) is not None:
                continue
            par = self.p.parent_map(m).get(n)
            if isinstance(par, ast.Call) and par.func is n and n.attr not in self.defs and \
                    (n.attr in PURE_METHODS or n.attr in MUTATORS):
                continue
            out.append((m, q, n))
        return out

    def class_of(self, pm, fn):
        n = fn
        while n is not None:
            n = pm.get(n)
            if isinstance(n, ast.ClassDef):
                for ci in self.p.classes.values():
                    if ci.node is n:
                        return ci
        return None

    def outer(self, reg, name):
        """Is a name of the region also bound outside of it (to an object shared with it)?"""
        for n in own_nodes_deep(reg.fn):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) and \
                    id(n) not in self.inside:
                return True
        a = getattr(reg.fn, "args", None)
        return a is not None and any(x.arg == name for x in a.posonlyargs + a.args + a.kwonlyargs)

    def consumes(self, reg, it, local):
        """Iterating over a generator made by other code takes its items away."""
        if not isinstance(it, ast.Name) or it.id in local and not self.outer(reg, it.id):
            return []
        for n in own_nodes(reg.fn):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == it.id
                                                 for t in n.targets) and id(n) not in self.inside:
                v = n.value
                if isinstance(v, ast.GeneratorExp):
                    return [(True, it, f"{reg.mode} code consumes the generator {it.id}")]
                if isinstance(v, ast.Call):
                    d = dotted(self.p, reg.m, v.func)
                    if d in ("builtins.map", "builtins.filter", "builtins.zip", "builtins.iter",
                             "builtins.enumerate", "builtins.reversed", "os.scandir", "builtins.open") or \
                            d and self.generator(d) or \
                            isinstance(v.func, ast.Attribute) and d is None and \
                            self.generator_method(v.func.attr):
                        return [(True, it, f"{reg.mode} code consumes the generator {it.id}")]
        return []

    def generator(self, qual):
        fi = self.p.funcs.get(qual) if hasattr(self.p, "funcs") else None
        return fi is not None and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(fi.node))

    def generator_method(self, name):
        ds = self.defs.get(name, [])
        return bool(ds) and all(any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(n0))
                                for _, _, n0 in ds)

    # ------------------------------------------------------------------ expressions
    def logging(self, call):
        f = call.func
        return isinstance(f, ast.Attribute) and f.attr in ("debug", "debug_proc", "set_debug") and \
            any(id(d[2]) in self.inside for d in self.defs.get(f.attr, [])) or \
            isinstance(f, ast.Attribute) and f.attr == "set_debug"

    def expr(self, reg, e, local):
        out = []
        for n in ast.walk(e):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                out.append((True, n, f"{reg.mode}-only code yields"))
            elif isinstance(n, ast.NamedExpr):
                u = self.read_outside(reg, n.target.id)
                if u is not None:
                    out.append((True, n, f"{n.target.id} is assigned in {reg.mode} code only"))
            elif isinstance(n, ast.Call):
                out.extend(self.call(reg.m, reg.scope, reg.fn, n, reg, local))
            elif isinstance(n, ast.comprehension):
                out.extend(self.consumes(reg, n.iter, local))
        return out

    def call(self, m, scope, fn, n, reg, local):
        """Effects of one call."""
        mode_ = reg.mode if reg is not None else "debug"
        if self.logging(n):
            return []
        d = dotted(self.p, m, n.func, aliases(self.p, m, fn))
        if d is not None:
            short = d[len("builtins."):] if d.startswith("builtins.") else None
            if short == "print":
                for k in n.keywords:
                    if k.arg == "file" and dotted(self.p, m, k.value) in ("sys.stderr", "sys.__stderr__"):
                        return []
                if any(k.arg == "file" for k in n.keywords):
                    return [(False, n, f"{ast.unparse(n)[:60]}")]
                return [(True, n, f"{mode_}-only code prints to standard output")]
            if d.startswith("sys.stderr."):
                return []
            if d.startswith("sys.stdout.write") or d.startswith("sys.stdout.buffer"):
                return [(True, n, f"{mode_}-only code prints to standard output")]
            if d.startswith(IMPURE_EXT):
                return [(True, n, f"{mode_}-only code calls {d}")]
            if short in PURE_NAMES:
                if short in ("list", "tuple", "sorted", "set", "dict", "sum", "any", "all", "max", "min") \
                        and n.args and reg is not None:
                    return self.consumes(reg, n.args[0], local)
                return []
            if d.startswith(PURE_EXT):
                return []
            if hasattr(builtins, short or "") and isinstance(getattr(builtins, short), type) and \
                    issubclass(getattr(builtins, short), BaseException):
                return []
            ds = self.project(d)
            if ds is not None:
                return self.closure(n, ds, mode_)
            return [(False, n, f"call of {d} in {mode_} code")]
        if isinstance(n.func, ast.Attribute):
            name = n.func.attr
            b = n.func.value
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super" and \
                    name == "__init__":
                return []
            if isinstance(b, ast.Name) and b.id in local and reg is not None and not self.outer(reg, b.id):
                if name not in self.defs:
                    return []
            if name == "add_option":
                return []                   # R2: the option exists in one mode only
            if name in self.defs:
                return self.closure(n, self.defs[name], mode_, name in MUTATORS)
            if name in PURE_METHODS or name.startswith(("is_", "has_")):
                return []
            if name in ("get",):
                # of a dictionary, unless the receiver is a queue
                if "queue" in ast.unparse(b).lower():
                    return [(True, n, f"{mode_}-only code takes {ast.unparse(n)[:60]} from a queue")]
                return []
            if name in MUTATORS:
                if isinstance(b, ast.Attribute) and dotted(self.p, m, b) in ("sys.stderr",):
                    return []
                return [(True, n, f"{mode_}-only code changes state: {ast.unparse(n)[:70]}")]
            return [(False, n, f"call of method {name}")]
        if isinstance(n.func, ast.Call) and isinstance(n.func.func, ast.Name) and n.func.func.id == "super":
            return []
        return [(False, n, f"call of {ast.unparse(n.func)[:50]}")]

    def project(self, d):
        for m in self.p.modules.values():
            for q, node in scopes(m):
                if q == d:
                    return [(m, q, node)]
        ci = self.p.classes.get(d) if hasattr(self.p, "classes") else None
        if ci is not None:
            f = self.p.find_method(ci, "__init__")
            if f is None:
                return []
            return [(f.module, f.qual, f.node)]
        return None

    def closure(self, call, ds, mode_, mutator=False):
        out = []
        hard, soft, pure = [], [], 0
        for m, q, node in ds:
            if id(node) in self.inside:
                pure += 1
                continue
            eff = self.effects(m, q, node)
            if any(e[0] for e in eff):
                hard.append((q, [e for e in eff if e[0]][0][2]))
            elif eff:
                soft.append((q, eff[0][2]))
            else:
                pure += 1
        if hard and (mutator or not soft and not pure):
            out.append((True, call, f"{mode_}-only code calls {hard[0][0]}: {hard[0][1]}"))
        elif hard or soft:
            q, w = (hard or soft)[0]
            out.append((False, call, f"{mode_} code may call {q}: {w}"))
        return out

    def effects(self, m, q, node):
        """Effects of a project function on anything but its own locals and standard error."""
        if q in self.memo:
            return self.memo[q]
        self.memo[q] = []
        out = []
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
        init = q.endswith(".__init__")
        local = {n.id for n in own_nodes(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        fresh = {n.targets[0].id for n in own_nodes(node) if isinstance(n, ast.Assign) and
                 len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and
                 isinstance(n.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp,
                                      ast.Call))}
        for n in own_nodes(node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                        n.func.value.id in fresh:
                    continue
                out.extend(self.call(m, q, node, n, None, local))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if init and isinstance(n.value, ast.Name) and n.value.id == "self":
                    continue
                if isinstance(n.value, ast.Name) and n.value.id in fresh:
                    continue
                outside = [u for u in self.uses(n.attr) if id(u[2]) not in self.inside]
                if outside:
                    out.append((True, n, f"sets {ast.unparse(n)}"))
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if isinstance(n.value, ast.Name) and n.value.id in fresh:
                    continue
                out.append((True, n, f"changes {ast.unparse(n)}"))
            elif isinstance(n, ast.Global):
                out.append((True, n, "changes global variables"))
            elif isinstance(n, ast.Raise) and not gen:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                nm = ast.unparse(e) if e is not None else "again"
                if nm in ("NotImplementedError", "BadAttributeError", "BadPluginError", "KeyError",
                          "AttributeError"):
                    continue
                out.append((False, n, f"raises {nm}"))
        self.memo[q] = out
        return out

    # ------------------------------------------------------------------ R2
    def names(self):
        """Names bound in one mode only: module and class level definitions and self attributes."""
        r, p = self.r, self.p
        bound = {}          # name -> (region, kind)
        for reg in self.regions:
            if reg.profile:
                continue
            pm = p.parent_map(reg.m)
            for s in reg.body:
                for n in ast.walk(s):
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and (
                            reg.scope.endswith(":") or isinstance(pm.get(reg.node), ast.ClassDef)):
                        bound.setdefault(n.name, (reg, "defined"))
                    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and reg.scope.endswith(":"):
                        bound.setdefault(n.id, (reg, "assigned"))
        for name, (reg, kind) in sorted(bound.items()):
            if self.bound_elsewhere(name, reg, kind):
                # a method with a fallback for the other mode, or attributes of other objects: R1
                continue
            bad = []
            for m, q, n in self.uses(name):
                if id(n) in self.inside or not self.refers(n, name, kind, reg, m):
                    continue
                fn = q.rsplit(".", 1)[-1].rsplit(":", 1)[-1]
                if fn and self.only_debug_calls(fn):
                    continue
                bad.append((m, q, n))
            r.check(not bad, "R2", f"{reg.scope}.{name}",
                    f"{name} is {kind} in {reg.mode} code only but used at " +
                    ", ".join(f"{m.rel}:{n.lineno}" for m, q, n in bad[:4]),
                    reg.where)
        # functions that only exist as debug code's helpers: their uses of debug names are fine
        return bound

    def refers(self, n, name, kind, reg, m):
        if isinstance(n, ast.Name):
            return m is reg.m
        if kind == "assigned":
            return True
        par = self.p.parent_map(m).get(n)
        if kind == "defined" and not (isinstance(par, ast.Call) and par.func is n):
            return False
        # module functions of external modules with the same name
        d = dotted(self.p, m, n)
        return d is None or not d.split(".")[0] in ("os", "sys", "logging", "multiprocessing")

    def bound_elsewhere(self, name, reg, kind):
        if kind == "defined":
            return any(id(d[2]) not in self.inside for d in self.defs.get(name, []))
        for m in self.p.modules.values():
            for q, node in scopes(m):
                for n in own_nodes(node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) and \
                            id(n) not in self.inside:
                        return True
                    if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) and \
                            q.endswith(":") and id(n) not in self.inside and reg.scope.endswith(":"):
                        return True
        return any(id(d[2]) not in self.inside for d in self.defs.get(name, []))

    def options(self):
        """Options that are registered in one mode only."""
        r, p = self.r, self.p
        reg_all, only = set(), {}
        for m in p.modules.values():
            for q, node in scopes(m):
                for n in own_nodes(node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                            n.func.attr in ("add_option", "add_argument"):
                        dest = dest_of(n)
                        if dest is None:
                            continue
                        if id(n) in self.inside:
                            only.setdefault(dest, (m, q, n, self.inside[id(n)]))
                        else:
                            reg_all.add(dest)
        for dest, (m, q, n, reg) in sorted(only.items()):
            if dest in reg_all:
                continue
            bad = []
            for m2, q2, u in self.uses(dest):
                if not isinstance(u, ast.Attribute) or id(u) in self.inside:
                    continue
                b = u.value
                last = b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else ""
                if last not in ("args", "namespace", "options"):
                    continue
                if self.guarded(m2, u):
                    continue
                fn = q2.rsplit(".", 1)[-1].rsplit(":", 1)[-1]
                if fn and self.only_debug_calls(fn):
                    continue
                bad.append((m2, u))
            r.check(not bad, "R2", f"option {dest}",
                    f"the option --{dest} only exists in {reg.mode} mode but is read at " +
                    ", ".join(f"{a.rel}:{b.lineno}" for a, b in bad[:4]), f"{m.rel}:{n.lineno} ({q})")

    def guarded(self, m, u):
        """Within a condition whose evaluation order puts __debug__ first."""
        pm = self.p.parent_map(m)
        n = u
        while n is not None and not isinstance(n, ast.stmt):
            par = pm.get(n)
            if isinstance(par, ast.BoolOp):
                before = par.values[:par.values.index(n)] if n in par.values else []
                for v in before:
                    a, b, _ = mode(v, {})
                    if isinstance(par.op, ast.And) and a == "debug" or \
                            isinstance(par.op, ast.Or) and b == "debug":
                        return True
            if isinstance(par, ast.IfExp) and n is par.body and mode(par.test, {})[0] == "debug":
                return True
            n = par
        return False

    # ------------------------------------------------------------------ R3
    def asserts(self):
        r, p = self.r, self.p
        for m in p.modules.values():
            for q, node in scopes(m):
                k = 0
                for n in own_nodes(node):
                    if not isinstance(n, ast.Assert):
                        continue
                    k += 1
                    subject = f"{q}#assert {ast.unparse(n.test)[:60]}"
                    where = f"{m.rel}:{n.lineno} ({q})"
                    r.funcs.add(q)
                    r.sites.add(where)
                    reg = Region(m, q, node, n, [ast.copy_location(ast.Expr(n.test), n)], "debug", False)
                    bad = []
                    for x in ast.walk(n.test):
                        if isinstance(x, ast.NamedExpr):
                            bad.append((True, x, f"the assertion binds {x.target.id}"))
                    bad += [b for b in self.expr(reg, n.test, set())]
                    hard = [b for b in bad if b[0]]
                    if hard:
                        r.bad("R3", subject, "the assertion has an effect that is lost with -O: " +
                              hard[0][2], where)
                        continue
                    verdict = self.validates(m, q, node, n)
                    if verdict is True:
                        r.bad("R3", subject, "input is validated by an assertion, which -O removes: "
                              f"{ast.unparse(n)[:80]}", where)
                    elif verdict is None or bad:
                        r.skip("R3", subject, f"assertion {ast.unparse(n)[:60]} in {q}")
                    else:
                        r.ok("R3", subject)

    def control_flow(self):
        """Failing assertions must not be caught and turned into a result: -O takes another way."""
        for m in self.p.modules.values():
            for q, node in scopes(m):
                for n in own_nodes(node):
                    if not isinstance(n, ast.Try):
                        continue
                    for h in n.handlers:
                        names = {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} if h.type else set()
                        always = not h.type or names & {"Exception", "BaseException"}
                        if "AssertionError" not in names and not (always and self.input_code(m, q)):
                            continue
                        hit = self.reaches_assert(n.body, m, "AssertionError" not in names)
                        where = f"{m.rel}:{h.lineno} ({q})"
                        self.r.sites.add(where)
                        self.r.check(hit is None, "R3", f"{q}#except {ast.unparse(h.type) if h.type else ''}",
                                     f"the failure of the assertion at {hit} is caught and handled, with -O it "
                                     "does not happen", where)

    def reaches_assert(self, body, m, never):
        """The place of an assertion (only of one that always fails, with `never`) within the statements
        or the functions they call."""
        todo, seen = [(m, s) for s in body], set()
        while todo:
            mod, root = todo.pop()
            for x in ast.walk(root):
                if isinstance(x, ast.Assert) and (not never or isinstance(x.test, ast.Constant) and not x.test.value):
                    return f"{mod.rel}:{x.lineno}"
                if isinstance(x, ast.Call):
                    name = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", None)
                    found = self.defs.get(name, ())
                    if name not in seen and len(found) <= 24:
                        seen.add(name)
                        todo.extend((d[0], d[2]) for d in found if not isinstance(d[2], ast.ClassDef))
        return None

    def validates(self, m, q, fn, n):
        """True: checks a user's value; False: an internal consistency check; None: unknown."""
        parts = []

        def flat(e):
            if isinstance(e, ast.BoolOp):
                for v in e.values:
                    flat(v)
            elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                flat(e.operand)
            else:
                parts.append(e)
        flat(n.test)
        loose = [e for e in parts if not self.internal(m, e)]
        if not loose:
            return False
        if not self.input_code(m, q):
            # plugin declarations and internal structures are not user input
            names = {x.id for e in loose for x in ast.walk(e) if isinstance(x, ast.Name)}
            if names & {"cls", "plugin_cls"} and not (names & {"value", "args", "word"}):
                return False
            return None
        params = {a.arg for a in getattr(fn, "args", ast.arguments(
            posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])).args} - {"self", "cls"}
        taint = set(params)
        if m.name in ("libff.parser", "libff.argparse"):
            # what these classes read (tokens, words) is input, too
            taint.add("self")
        for _ in range(4):
            for x in own_nodes(fn):
                if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id in taint
                                                     for y in ast.walk(x.value)):
                    for t in x.targets:
                        taint |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name)}
                elif isinstance(x, (ast.For, ast.comprehension)) and any(
                        isinstance(y, ast.Name) and y.id in taint for y in ast.walk(x.iter)):
                    taint |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        taint.discard("self")
        for e in loose:
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and x.id in taint:
                    return True
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and \
                        x.value.attr == "args":
                    return True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                        isinstance(x.func.value, ast.Name) and x.func.value.id == "self":
                    return True
        return None

    def input_code(self, m, q):
        if m.name in INPUT_MODULES:
            return True
        cls = q.rsplit(".", 1)[0]
        base = self.p.classes.get("libff.type:Type") if hasattr(self.p, "classes") else None
        ci = self.p.classes.get(cls) if hasattr(self.p, "classes") else None
        return ci is not None and base is not None and base in self.p.mro(ci) and \
            not q.endswith((".check_type", ".output", ".sort_key"))

    def internal(self, m, e):
        if isinstance(e, ast.Constant):
            return True
        if isinstance(e, ast.Call):
            d = dotted(self.p, m, e.func)
            if d in ("builtins.isinstance", "builtins.issubclass", "builtins.callable", "os.path.isabs",
                     "builtins.hasattr"):
                return True
            if d in ("builtins.all", "builtins.any") and e.args and isinstance(e.args[0], ast.GeneratorExp):
                return self.internal(m, e.args[0].elt)
            return False
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            if isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.comparators[0], ast.Constant):
                return True
            if isinstance(e.ops[0], (ast.In, ast.NotIn)) and isinstance(e.comparators[0], ast.Attribute) \
                    and isinstance(e.comparators[0].value, ast.Name) and \
                    e.comparators[0].value.id == "self" and m.name not in INPUT_MODULES:
                return True
        return False


def own_nodes_deep(fn):
    """All nodes of a function including nested functions (closures)."""
    return ast.walk(fn)


def is_profile(e):
    return isinstance(e, ast.Attribute) and e.attr == "profile"


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def mode(e, flags):
    """(mode in which the then branch runs, mode of the else branch, gated by profiling?)"""
    if isinstance(e, ast.Name) and (e.id == "__debug__" or e.id in flags):
        return "debug", "opt", False
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        a, b, prof = mode(e.operand, flags)
        return b, a, prof
    if isinstance(e, ast.BoolOp):
        ms = [mode(v, flags) for v in e.values]
        prof = any(is_profile(v) for v in e.values) or any(x[2] for x in ms)
        if isinstance(e.op, ast.And):
            a = next((x[0] for x in ms if x[0]), None)
            return a, None, prof and a is not None
        b = next((x[1] for x in ms if x[1]), None)
        return None, b, prof and b is not None
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.Eq)) and \
            isinstance(e.comparators[0], ast.Constant) and isinstance(e.comparators[0].value, bool):
        a, b, prof = mode(e.left, flags)
        return (a, b, prof) if e.comparators[0].value else (b, a, prof)
    return None, None, False


def dest_of(n):
    for k in n.keywords:
        if k.arg == "dest" and isinstance(k.value, ast.Constant):
            return k.value.value
    names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
    for x in names:
        if x.startswith("--"):
            return x[2:].replace("-", "_")
    return names[0].lstrip("-").replace("-", "_") if names else None
