"""Functions reachable from given roots: rapid type analysis by method name."""
import ast

from .inventory import aliases, dotted, own_nodes, scopes
from .project import ClassInfo, FuncInfo


def imported(p, names):
    """The modules that are loaded with the named ones."""
    out, todo = {}, [p.modules[n] for n in names]
    while todo:
        m = todo.pop()
        if m.name in out:
            continue
        out[m.name] = m
        for n in ast.walk(m.tree):
            cand = []
            if isinstance(n, ast.ImportFrom):
                base = p._abs(m, n.level, n.module)
                cand = [base] + [f"{base}.{a.name}" for a in n.names]
            elif isinstance(n, ast.Import):
                cand = [a.name for a in n.names]
            for c in cand:
                parts = (c or "").split(".")
                for i in range(len(parts)):
                    x = ".".join(parts[:i + 1])
                    if x in p.modules:
                        todo.append(p.modules[x])
    return list(out.values())


class Reach:
    """roots: functions; classes: classes that have instances from the start."""

    def __init__(self, p, roots, classes=(), stop=(), known=None):
        """stop: functions that are not entered; known(test): truth of a condition that is constant for
        these roots, or None."""
        self.p, self.stop, self.known = p, set(stop), known
        self.funcs, self.classes = {}, {}
        self.names = {}                      # method name -> classes whose subclasses are meant (None: any)
        self.todo = []
        mods = imported(p, {f.module.name for f in roots} | {c.module.name for c in classes})
        for m in mods:                       # instances and class objects of module level code
            for scope, node in scopes(m):
                if node is m.tree:
                    self.module_level(m, node)
        for ci in classes:
            self.instance(ci)
        for fi in roots:
            self.func(fi)
        while self.todo:
            self.scan(self.todo.pop())

    def module_level(self, m, tree):
        pm = self.p.parent_map(m)
        for n in own_nodes(tree):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                d = dotted(self.p, m, n)
                ci = self.p.classes.get(d) if d else None
                par = pm.get(n)
                if ci is not None and not (isinstance(par, ast.ClassDef) and n in par.bases) and \
                        not isinstance(par, (ast.arg, ast.AnnAssign)):
                    self.instance(ci)

    def func(self, fi):
        if fi.qual not in self.funcs and fi.qual not in self.stop:
            self.funcs[fi.qual] = fi
            self.todo.append(fi)

    def instance(self, ci):
        if ci.qual in self.classes:
            return
        self.classes[ci.qual] = ci
        for c in self.p.mro(ci):
            if isinstance(c, ClassInfo):
                for n in ("__init__", "__new__", "__enter__", "__exit__", "__iter__", "__next__", "__len__",
                          "__str__", "__repr__", "__eq__", "__lt__", "__hash__", "__contains__", "__getitem__",
                          "__call__", "__bool__", "__setstate__", "__getstate__", "__getattr__"):
                    f = self.p.find_method(ci, n)
                    if f is not None:
                        self.func(f)
                break
        for name, recvs in list(self.names.items()):
            self.resolve(name, recvs, ci)

    def resolve(self, name, recvs, ci):
        if None not in recvs and not any(self.p.issub(ci, r) for r in recvs):
            return
        f = self.p.find_method(ci, name)
        if f is not None:
            self.func(f)

    def name(self, name, recv=None):
        have = self.names.setdefault(name, set())
        if recv in have or None in have:
            return
        have.add(recv)
        for ci in list(self.classes.values()):
            self.resolve(name, {recv}, ci)

    def scan(self, fi):
        m = fi.module
        loc = aliases(self.p, m, fi.node)
        for n in self.live(fi.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.ref(dotted(self.p, m, n, loc))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                d = dotted(self.p, m, n, loc)
                if d is not None and (d in self.p.funcs or d in self.p.classes):
                    self.ref(d)
                    continue
                if d is not None and d.rsplit(".", 1)[0] in self.p.classes:     # Class.method
                    f = self.p.find_method(self.p.classes[d.rsplit(".", 1)[0]], n.attr)
                    if f is not None:
                        self.func(f)
                        continue
                if isinstance(n.value, ast.Name) and n.value.id in ("self", "cls") and fi.cls is not None:
                    f = self.p.find_method(fi.cls, n.attr)
                    if f is not None and fi.cls.qual not in self.classes and \
                            not any(self.p.issub(c, fi.cls) for c in self.classes.values()):
                        self.func(f)
                    self.name(n.attr, fi.cls)
                elif isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and \
                        n.value.func.id == "super" and fi.cls is not None:
                    for c in self.classes.values():
                        if self.p.issub(c, fi.cls):
                            f = self.p.find_method(c, n.attr, after=fi.cls)
                            if f is not None:
                                self.func(f)
                else:
                    self.name(n.attr)

    def live(self, node):
        """The nodes below that are not in branches with a constant condition."""
        if self.known is None:
            return list(ast.walk(node))
        out, todo = [], [node]
        while todo:
            n = todo.pop()
            out.append(n)
            if isinstance(n, (ast.If, ast.IfExp)):
                k = self.known(n.test)
                todo.append(n.test)
                body = n.body if isinstance(n.body, list) else [n.body]
                other = n.orelse if isinstance(n.orelse, list) else [n.orelse]
                if k is not False:
                    todo.extend(body)
                if k is not True:
                    todo.extend(other)
            elif isinstance(n, ast.BoolOp):
                # operands after one that decides are not evaluated
                for v in n.values:
                    todo.append(v)
                    k = self.known(v)
                    if k is (isinstance(n.op, ast.Or)):
                        break
            else:
                todo.extend(ast.iter_child_nodes(n))
        return out

    def ref(self, d):
        if d is None:
            return
        if d in self.p.classes:
            self.instance(self.p.classes[d])
        elif d in self.p.funcs:
            self.func(self.p.funcs[d])
