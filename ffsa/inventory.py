"""Whole-program inventory of call sites and name uses, resolved over imports and aliases."""
import ast


def dotted(p, m, e, local=None):
    """The dotted external name, or project qual, an expression denotes; None if it is a value."""
    if isinstance(e, ast.Name):
        if local and e.id in local:
            return local[e.id]
        r = p.resolve_global(m, e.id)
        if r is None:
            import builtins
            return "builtins." + e.id if hasattr(builtins, e.id) else None
        if r[0] == "ext":
            return r[1]
        if r[0] == "mod":
            return r[1]
        if r[0] in ("func", "class"):
            return r[1].qual
        if r[0] == "var":
            mod, name = r[1], r[2]
            vals = mod.assigns.get(name) or ()
            if len(vals) == 1 and isinstance(vals[0], (ast.Attribute, ast.Name)):
                d = dotted(p, mod, vals[0])
                if d is not None:
                    return d
            return f"{mod.name}:{name}"
        return None
    if isinstance(e, ast.Attribute):
        b = dotted(p, m, e.value, local)
        if b is None:
            return None
        if ":" in b:
            return f"{b}.{e.attr}"
        if b in p.modules:
            r = p.resolve_global(p.modules[b], e.attr)
            if r is not None:
                if r[0] in ("func", "class"):
                    return r[1].qual
                if r[0] == "ext" or r[0] == "mod":
                    return r[1]
        return f"{b}.{e.attr}"
    return None


def scopes(m):
    """(scope name, node, statements) of every function, class body and the module itself."""
    if getattr(m, "_scopes", None) is not None:
        return m._scopes
    out = []

    def visit(node, name):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                q = f"{name}.{ch.name}" if not name.endswith(":") else name + ch.name
                if not isinstance(ch, ast.ClassDef):
                    out.append((q, ch))
                visit(ch, q)
            else:
                visit(ch, name)
    out.append((m.name + ":", m.tree))
    visit(m.tree, m.name + ":")
    try:
        m._scopes = out
    except AttributeError:
        pass
    return out


def own_nodes(node):
    """The nodes of a scope without those of nested functions (class bodies count for the module)."""
    todo = [node]
    first = True
    while todo:
        n = todo.pop()
        if not first and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # decorators and defaults belong to the enclosing scope
            todo.extend(n.decorator_list)
            todo.extend(n.args.defaults)
            todo.extend(d for d in n.args.kw_defaults if d is not None)
            continue
        first = False
        yield n
        todo.extend(ast.iter_child_nodes(n))


def aliases(p, m, node):
    """Local names of a function that are bound once, to a dotted name."""
    out, seen = {}, {}
    for n in own_nodes(node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            seen.setdefault(n.targets[0].id, []).append(n.value)
        elif isinstance(n, (ast.NamedExpr,)) and isinstance(n.target, ast.Name):
            seen.setdefault(n.target.id, []).append(n.value)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            seen.setdefault(n.id, [])
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            seen[x.arg] = [None, None]
    for k, vs in seen.items():
        if len(vs) == 1 and isinstance(vs[0], (ast.Attribute, ast.Name)):
            d = dotted(p, m, vs[0])
            if d is not None and not d.startswith("builtins."):
                out[k] = d
                continue
        out.setdefault(k, None)
    return out


class Site:
    __slots__ = ("name", "node", "scope", "module", "method")

    def __init__(self, name, node, scope, module, method):
        self.name, self.node, self.scope, self.module, self.method = name, node, scope, module, method

    @property
    def where(self):
        return f"{self.module.rel}:{self.node.lineno} ({self.scope})"

    def arg(self, i, name=None):
        if i is not None and i < len(self.node.args) and \
                not any(isinstance(a, ast.Starred) for a in self.node.args[:i + 1]):
            return self.node.args[i]
        for k in self.node.keywords:
            if k.arg == name:
                return k.value
        return None


def call_sites(p):
    """Every call of the program: name is the dotted external name / project qual if the callee is a
    name, and method the attribute name otherwise."""
    out = []
    for m in p.modules.values():
        for scope, node in scopes(m):
            loc = aliases(p, m, node)
            for n in own_nodes(node):
                if not isinstance(n, ast.Call):
                    continue
                name = dotted(p, m, n.func, loc)
                method = n.func.attr if isinstance(n.func, ast.Attribute) else None
                out.append(Site(name, n, scope, m, method))
    return out


def name_uses(p):
    """Every loaded dotted name (outermost attribute chains), called or not."""
    out = []
    for m in p.modules.values():
        pm = p.parent_map(m)
        for scope, node in scopes(m):
            loc = aliases(p, m, node)
            for n in own_nodes(node):
                if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
                    par = pm.get(n)
                    if isinstance(par, ast.Attribute):
                        continue
                    d = dotted(p, m, n, loc)
                    if d is not None:
                        out.append((d, n, scope, m))
    return out
