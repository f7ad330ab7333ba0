"""What a worker does with the entries of one directory: one summary per abstract path."""
from .lib import arg, calls, comp, describe, is_cls, items, mentions, obj, truth_fact, val
from .report import Undecided, new_state
from .values import C, ListObj, Raised, T, Tup

WALK = "libff.walk:FilesystemWalker"
PARENT = T("sym", "parent")


class Summary:
    """One path through the handling of a list of entries."""

    def __init__(self, st, v, entries):
        self.st, self.value = st, v
        self.entries = entries
        self.excluded, self.matched, self.isdir = {}, {}, {}
        self.processed, self.searched, self.shared = [], [], []
        self.unknown = []
        for e in entries:
            self.excluded[e] = self.call_truth("libff.filter:Excluder.test", e)
            self.matched[e] = self.call_truth("libff.filter:Matcher.test", e)
            self.isdir[e] = self.dir_truth(e)
        for ev in st.events():
            if ev.kind != "call":
                continue
            n = ev.name
            if n.endswith(".put") and ev.args:
                self.put(ev)
            elif n.endswith("Processing.process") and ev.args:
                its = items(st, ev.args[0])
                if its is None:
                    self.unknown.append(ev)
                else:
                    self.processed.extend((i, ev) for i in its)

    def put(self, ev):
        a = ev.args[0]
        if is_cls(a, "libff:Entries"):
            its = items(self.st, a.items[1])
            if its is None:
                self.unknown.append(ev)
            else:
                self.shared.append((a.items[0], its, ev))
            return
        its = items(self.st, a)
        if its is None:
            self.unknown.append(ev)
            return
        for i in its:
            if is_cls(i, "libff:Directory"):
                self.searched.append((i, ev))
            else:
                self.unknown.append(ev)

    def call_truth(self, name, e):
        for k, v in self.st.facts.items():
            if k[0] == "truth" and isinstance(k[1], T) and k[1].op == "call" and \
                    k[1].args[0] == name and len(k[1].args) > 2 and k[1].args[2] == e:
                return v
        return None

    def dir_truth(self, e):
        t = T("attr", e, "type")
        v = self.st.facts.get(("val", t))
        if v is not None:
            return v == C("directory")
        if ("neq", t, C("directory")) in self.st.facts:
            return False
        for k, v in self.st.facts.items():
            if k[0] == "truth" and isinstance(k[1], T) and "ISDIR" in repr(k[1]) and \
                    mentions(k[1], e):
                return v
        return None

    def dirs_of(self, e):
        return [(d, ev) for d, ev in self.searched if d.items[1] == T("attr", e, "relpath")]


def entry_syms(r, n):
    cls = r.p.cls("libff.entry:Entry")
    es = [T("sym", f"entry{i}") for i in range(n)]
    return es, {e: cls for e in es}


def summaries(r, n=2, share=False, hooks=None, raises=None):
    """Interpret process_entries() for n generic entries.

    share=False: all verdict combinations without load sharing; share=True: all load sharing
    decisions for entries that are directories, not excluded and matching."""
    es, types = entry_syms(r, n)
    st = new_state()
    st, lst = st.new(ListObj(tuple(es)))
    slow = T("attr", comp("registry"), "optimize_for_slow_plugins")
    domains = {slow: [C(bool(share))]}
    hk = dict(hooks or {})
    if share:
        hk["libff.filter:Excluder.test"] = verdict("libff.filter:Excluder.test", False)
        hk["libff.filter:Matcher.test"] = verdict("libff.filter:Matcher.test", True)
        for e in es:
            domains[T("attr", e, "type")] = [C("directory")]
    ip = r.interp(types=types, abs_lists=True, domains=domains, hooks=hk, raises=raises,
                  opaque=opaque)
    res = r.run(WALK + ".process_entries", [obj(r.p, WALK), PARENT, lst], st=st, ip=ip)
    return [Summary(s, v, es) for s, v in res]


def opaque(fi):
    return fi.qual in ("libff.filter:Excluder.test", "libff.filter:Matcher.test") or \
        fi.name == "process" and fi.cls is not None and "Processing" in fi.cls.name


def verdict(name, value):
    def hook(ip, st, call):
        t = T("call", name, call.args[0], call.args[1], None)
        st = ip.event(st, "call", name, call.args[0], call.args[1:], {}, call.node, t)
        st = st.fact(("truth", t), value)
        return [(st, C(value))]
    return hook


def subject(s):
    f = []
    for i, e in enumerate(s.entries):
        f.append(f"entry{i}[excluded={s.excluded[e]},matches={s.matched[e]},dir={s.isdir[e]}]")
    return " ".join(f)
