"""The objects processes share, as abstract objects: counters, queues, the barrier.

`Shared().hooks()` are hooks of the interpreter that make every multiprocessing object a term of its
own whose state is kept on the path, so that the protocol between the processes can be followed from
the constructors of the program to the end of a loop."""
from .values import C, Exc, Raised, T

QUEUE, VALUE, BARRIER = "mp queue", "mp value", "mp barrier"


def counters(s):
    """The current values of all shared counters."""
    return {base: v for (base, name), v in s.fields.items()
            if name == "value" and isinstance(base, T) and base.op == VALUE}


def barriers(s):
    return {base: (s.fields.get((base, "parties")), s.fields.get((base, "action")))
            for (base, name) in s.fields if name == "parties" and isinstance(base, T) and base.op == BARRIER}


def is_queue(v):
    return isinstance(v, T) and v.op == QUEUE


class Shared:
    def __init__(self, get=None, timeouts=True, limit=6, stop=None, patience=None):
        self.get = get                  # get(ip, state, queue, call): results or None
        self.timeouts, self.limit = timeouts, limit
        self.patience = patience        # how many timeouts there may be before all agree
        self.stop = stop                # stop(state): is a stop requested from outside?

    def hooks(self):
        hk = {}
        for n in ("multiprocessing.Value", "multiprocessing.RawValue"):
            hk[n] = self.value
        for n in ("multiprocessing.Queue", "multiprocessing.SimpleQueue", "multiprocessing.JoinableQueue",
                  "queue.Queue"):
            hk[n] = self.queue
        hk["multiprocessing.Barrier"] = hk["threading.Barrier"] = self.barrier
        for q in (".", "multiprocessing.Queue.", "queue.Queue."):
            hk[q + "put"] = hk[q + "put_nowait"] = self.put
            hk[q + "get"] = hk[q + "get_nowait"] = self.fetch
            hk[q + "qsize"] = self.qsize
            hk[q + "empty"] = self.empty
        hk[".wait"] = self.wait
        hk[".reset"] = self.reset
        hk[".abort"] = self.abort
        return hk

    def make(self, s, op):
        n = s.facts.get(("mp objects",), 0)
        return s.fact(("mp objects",), n + 1), T(op, C(n))

    def value(self, ip, s, c):
        s, o = self.make(s, VALUE)
        init = c.args[1] if len(c.args) > 1 else C(0)
        return [(s.setfield(o, "value", init), o)]

    def queue(self, ip, s, c):
        s, o = self.make(s, QUEUE)
        return [(s, o)]

    def barrier(self, ip, s, c):
        s, o = self.make(s, BARRIER)
        parties = c.args[0] if c.args else c.kw.get("parties")
        action = c.args[1] if len(c.args) > 1 else c.kw.get("action", C(None))
        return [(s.setfield(o, "parties", parties).setfield(o, "action", action), o)]

    def put(self, ip, s, c):
        if not is_queue(c.recv):
            return None
        n = s.facts.get(("queued", c.recv), 0)
        snap = tuple(sorted((repr(k), v.v) for k, v in counters(s).items() if isinstance(v, C)))
        s = ip.event(s, "queued", "put", c.recv, [c.args[0], C(snap)], {}, c.node)
        return [(s.fact(("queued", c.recv), n + 1), C(None))]

    def fetch(self, ip, s, c):
        if not is_queue(c.recv):
            return None
        if self.get is not None:
            return self.get(ip, s, c.recv, c)
        return [(s, Raised(Exc("queue.Empty", (), c.node)))]

    def qsize(self, ip, s, c):
        if not is_queue(c.recv):
            return None
        n = s.facts.get(("queued", c.recv), 0)
        if n == 0 and self.stop is not None and self.stop(s):
            n = 1
        return [(s, C(n))]

    def empty(self, ip, s, c):
        r = self.qsize(ip, s, c)
        return r and [(x, C(v.v == 0)) for x, v in r]

    def wait(self, ip, s, c):
        if not (isinstance(c.recv, T) and c.recv.op == BARRIER):
            return None
        n = s.facts.get(("waits",), 0)
        s = s.fact(("waits",), n + 1)
        broken = Raised(Exc("threading.BrokenBarrierError", (), c.node))
        out = []
        if s.facts.get(("passed",)) or n >= self.limit:
            # Nobody else is left to wait for.
            return [(s, broken)]
        if self.timeouts and (self.patience is None or n < self.patience):
            out.append((s.fact(("timeout", n), True), broken))
        action = s.fields.get((c.recv, "action"), C(None))
        if action == C(None):
            out.append((s.fact(("passed",), True), C(0)))
        else:
            for x, v in ip.call_value(action, [], {}, s, c.node):
                if isinstance(v, Raised):
                    if "BrokenBarrierError" not in v.exc.name:
                        out.append((x.fact(("refused", n), True), v))
                    out.append((x.fact(("refused", n), True), broken))
                else:
                    out.append((x.fact(("passed",), True), C(0)))
        return out

    def reset(self, ip, s, c):
        if isinstance(c.recv, T) and c.recv.op == BARRIER:
            return [(s, C(None))]
        return None

    def abort(self, ip, s, c):
        return self.reset(ip, s, c)
