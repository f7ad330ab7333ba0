"""Declared schema of plugins: attribute names and types, from the source."""
import ast

from .project import ClassInfo
from .report import Undecided


def declared(p, ci):
    """name -> simple type class name of a plugin's `attributes` list."""
    a = p.find_attr(ci, "attributes")
    if a is None:
        return {}
    node = a[1]
    out = {}
    for el in flatten(p, a[0].module, node):
        if not isinstance(el, (ast.Tuple, ast.List)) or len(el.elts) < 2:
            raise Undecided(f"attribute declaration in {ci.qual}")
        n, t = el.elts[0], el.elts[1]
        if not isinstance(n, ast.Constant):
            raise Undecided(f"attribute name in {ci.qual}")
        out[n.value] = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) \
            else ast.unparse(t)
    return out


def flatten(p, module, node):
    if isinstance(node, (ast.List, ast.Tuple)):
        out = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                out.extend(flatten(p, module, e.value))
            else:
                out.append(e)
        return out
    if isinstance(node, ast.Dict) and not node.keys:
        return []
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        return flatten(p, module, node.left) + flatten(p, module, node.right)
    if isinstance(node, ast.Name):
        v = module.assigns.get(node.id)
        if v and len(v) == 1:
            return flatten(p, module, v[0])
    raise Undecided(f"attribute declarations {ast.unparse(node)[:60]}")


def plugins(p):
    base = p.cls("libff.plugin:Plugin")
    return [c for c in p.subclasses(base, strict=True)]
