"""Languages of regular expressions: equivalence of two parsed expressions on a set of words.

The expressions are taken apart with the parser of the library; nothing is matched.  Positions are
configurations (node, whether the beginning is passed, what must follow)."""
import re
import re._constants as K
import re._parser as P

FREE, END, DOLLAR = 0, 1, 2                  # anything may follow, nothing, at most one newline


class Unsupported(Exception):
    pass


CATS = {K.CATEGORY_DIGIT: str.isdigit, K.CATEGORY_SPACE: str.isspace,
        K.CATEGORY_WORD: lambda c: c.isalnum() or c == "_"}
NOTS = {K.CATEGORY_NOT_DIGIT: K.CATEGORY_DIGIT, K.CATEGORY_NOT_SPACE: K.CATEGORY_SPACE,
        K.CATEGORY_NOT_WORD: K.CATEGORY_WORD}


def fold(c):
    return {c, c.lower(), c.upper()}


def member(items, c, flags):
    cs = {ord(x) for x in (fold(c) if flags & re.IGNORECASE else {c}) if len(x) == 1}
    neg, hit = False, False
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            hit |= av in cs
        elif op is K.RANGE:
            hit |= any(av[0] <= x <= av[1] for x in cs)
        elif op is K.CATEGORY:
            hit |= CATS[av](c) if av in CATS else not CATS[NOTS[av]](c)
        else:
            raise Unsupported(str(op))
    return hit != neg


class Nfa:
    """edges[state]: (kind, data, target) with kind eps, char, begin, end, dollar, not."""

    def __init__(self, pattern, flags, how):
        self.edges = []
        tree = P.parse(pattern, flags)
        flags = tree.state.flags
        self.start = self.state()
        last = self.seq(list(tree), self.start, flags)
        self.final = self.state()
        if how == "fullmatch":
            self.edge(last, "end", None, self.final)
        else:
            self.edge(last, "eps", None, self.final)
        if how == "search":
            self.edge(self.start, "char", lambda c: True, self.start)
        self.how = how

    def state(self):
        self.edges.append([])
        return len(self.edges) - 1

    def edge(self, a, kind, data, b):
        self.edges[a].append((kind, data, b))

    def seq(self, items, at, flags):
        for op, av in items:
            at = self.node(op, av, at, flags)
        return at

    def node(self, op, av, at, flags):
        to = self.state()
        if op is K.LITERAL:
            self.edge(at, "char", lambda c: member([(K.LITERAL, av)], c, flags), to)
        elif op is K.NOT_LITERAL:
            self.edge(at, "char", lambda c: not member([(K.LITERAL, av)], c, flags), to)
        elif op is K.ANY:
            self.edge(at, "char", (lambda c: True) if flags & re.DOTALL else (lambda c: c != "\n"), to)
        elif op is K.IN:
            self.edge(at, "char", lambda c: member(av, c, flags), to)
        elif op is K.BRANCH:
            for alt in av[1]:
                self.edge(self.seq(list(alt), at, flags), "eps", None, to)
        elif op is K.SUBPATTERN:
            _, add, rem, sub = av
            self.edge(self.seq(list(sub), at, (flags | add) & ~rem), "eps", None, to)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            for _ in range(lo):
                at = self.seq(list(sub), at, flags)
            if hi is K.MAXREPEAT:
                loop = self.state()
                self.edge(at, "eps", None, loop)
                self.edge(self.seq(list(sub), loop, flags), "eps", None, loop)
                self.edge(loop, "eps", None, to)
            else:
                if hi > 20:
                    raise Unsupported("long repetition")
                self.edge(at, "eps", None, to)
                for _ in range(hi - lo):
                    at = self.seq(list(sub), at, flags)
                    self.edge(at, "eps", None, to)
        elif op is K.AT:
            kind = {K.AT_BEGINNING: "begin", K.AT_BEGINNING_STRING: "begin", K.AT_END: "dollar",
                    K.AT_END_STRING: "end"}.get(av)
            if kind is None or flags & re.MULTILINE:
                raise Unsupported(str(av))
            self.edge(at, kind, None, to)
        elif op is K.ASSERT_NOT and av[0] == 1 and len(av[1]) == 1 and av[1][0][0] in (K.LITERAL, K.IN):
            o, a = av[1][0]
            chars = [(K.LITERAL, a)] if o is K.LITERAL else a
            self.edge(at, "not", (tuple(chars), flags), to)
        else:
            raise Unsupported(str(op))
        return to

    def closure(self, confs):
        todo, seen = list(confs), set(confs)
        while todo:
            q, begun, rest, ban = todo.pop()
            for kind, data, to in self.edges[q]:
                if kind == "eps":
                    new = (to, begun, rest, ban)
                elif kind == "begin" and not begun:
                    new = (to, begun, rest, ban)
                elif kind == "end":
                    new = (to, begun, END, ban)
                elif kind == "dollar":
                    new = (to, begun, rest or DOLLAR, ban)
                elif kind == "not":
                    new = (to, begun, rest, ban | {data})
                else:
                    continue
                if new not in seen:
                    seen.add(new)
                    todo.append(new)
        return frozenset(seen)

    def first(self):
        return self.closure([(self.start, False, FREE, frozenset())])

    def step(self, confs, c):
        out = set()
        for q, begun, rest, ban in confs:
            if any(member(list(items), c, flags) for items, flags in ban):
                continue
            if q == self.final:              # what follows the match
                if rest == FREE:
                    out.add((q, True, FREE, frozenset()))
                elif rest == DOLLAR and c == "\n":
                    out.add((q, True, END, frozenset()))
                continue
            if rest != FREE:
                continue
            for kind, data, to in self.edges[q]:
                if kind == "char" and data(c):
                    out.add((to, True, FREE, frozenset()))
        return self.closure(out)

    def accepts(self, confs):
        return any(q == self.final for q, _, _, _ in confs)


class Paths:
    """Relative paths without empty components; only=True: names."""

    def __init__(self, only):
        self.only = only

    first = 0                                # nothing or a slash before, a name before

    def step(self, q, c):
        if c == "/":
            return None if self.only or q == 0 else 0
        return 1

    def accepts(self, q):
        return q == 1


def differ(a, b, words, alphabet, most=4000):
    """A shortest word among `words` that one of the two accepts and the other does not, or None."""
    start = (a.first(), b.first(), words.first)
    todo, seen = [(start, "")], {start}
    for (x, y, w), text in todo:
        if words.accepts(w) and a.accepts(x) != b.accepts(y):
            return text
        for c in alphabet:
            w2 = words.step(w, c)
            if w2 is None:
                continue
            new = (a.step(x, c), b.step(y, c), w2)
            if not new[0] and not new[1] or new in seen:
                continue
            seen.add(new)
            todo.append((new, text + c))
            if len(seen) > most:
                raise Unsupported("too many states")
    return None
