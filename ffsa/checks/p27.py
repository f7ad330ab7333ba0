"""P27: values with units are understood and displayed as documented."""
import datetime
import itertools

from ..lib import *
from ..project import ClassInfo
from ..report import Undecided, new_state
from ..values import C, Exc, Fn, Raised, T

EXPLANATION = (
    "The conversion functions of the attribute types are decision tables over unit letters and formats; "
    "they are decided by constant propagation for every documented unit in every spelling and number "
    "form, for combinations of units, and for malformed neighbours of each, where the result has to be the "
    "documented multiple or a refusal. Dates are followed symbolically: the clock and the calendar are "
    "symbols, so that which pattern is taken for which text, and the shift of a time of day to its last "
    "occurrence, are decided on every path. What is displayed in human readable form is fed to the input "
    "conversion again by the same propagation.")

TYPE = "libff.type:"
PREFIXES = "KMGTPEZY"
SECONDS = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 7 * 86400, "M": 30 * 86400, "y": 365 * 86400}


def run(r):
    r.rule("R1", "every documented unit of sizes stands for its power of 1024 or 1000, whatever its case and the "
                 "form of the number")
    r.rule("R2", "every documented unit of durations stands for its number of seconds, parts are summed up, a "
                 "number alone denotes minutes")
    r.rule("R3", "every documented form of a date and time is taken for that date, an hour of the day for its last "
                 "occurrence, other numbers for seconds since 1970, durations for that long ago")
    r.rule("R4", "what is no number of the type is refused with ValueError")
    r.rule("R5", "human readable output names the same quantity as the input of that text, to its precision, and "
                 "the modifiers of numbers choose their base")
    r.floor = 300
    for rule, f in (("R1", sizes), ("R2", durations), ("R3", times), ("R5", output), ("R5", numbers)):
        with r.guard(rule, f.__name__):
            f(r)


def method(r, cls, name):
    ci = r.p.cls(TYPE + cls)
    fi = r.p.find_method(ci, name)
    if fi is None:
        raise Undecided(f"{cls} has no {name}()")
    return ci, fi


def convert(r, cls, text, hooks=None):
    """The outcomes of the input conversion of a text: [(state, value or Raised)]"""
    ci, fi = method(r, cls, "input")
    args = [C(text)] if fi.kind == "staticmethod" else [Fn("class", ci), C(text)]
    ip = r.interp(hooks=hooks or {}, fold_re=True, max_loop=12)
    return r.run(fi, args, ip=ip)


def judge(r, rule, cls, text, want, hooks=None):
    """The only outcome is the number, or a ValueError for None."""
    sub = f"{cls} {text!r}"
    with r.guard(rule, sub):
        ci, fi = method(r, cls, "input")
        for s, v in convert(r, cls, text, hooks):
            if isinstance(v, Raised):
                if want is None:
                    r.check(v.exc.name == "ValueError" or "ValueError" in v.exc.name, "R4", sub,
                            f"{text!r} is refused with {v.exc.name}, which is not handled as a wrong value", fi.loc,
                            describe(s))
                else:
                    r.bad(rule, sub, f"{text!r} is refused with {v.exc.name} instead of being taken for {want}",
                          fi.loc, describe(s))
                continue
            if want is None:
                r.bad("R4", sub, f"{text!r} is accepted and taken for {v.v if isinstance(v, C) else short(v)}", fi.loc,
                      describe(s))
            elif not isinstance(v, C):
                r.skip(rule, sub, f"result {short(v)}")
            else:
                r.check(v.v == want and not isinstance(v.v, bool), rule, sub,
                        f"{text!r} is taken for {v.v} instead of {want}", fi.loc, describe(s))


# ------------------------------------------------------------------ R1
def sizes(r):
    numbers = [("1", 1), ("12", 12), ("1.5", 1.5), ("0.25", .25), ("0", 0)]
    if r.thorough:
        numbers += [("3", 3), ("1023", 1023), ("7.75", 7.75), ("100.5", 100.5), ("007", 7)]
    for t, n in numbers:
        if isinstance(n, int):
            for u in ("", "b", "B"):
                judge(r, "R1", "Size", t + u, n)
        for i, k in enumerate(PREFIXES):
            for u, base in ((k, 1024), (k + "iB", 1024), (k + "B", 1000)):
                want = n * base ** (i + 1)
                if want != int(want) or float(n) * base ** (i + 1) != want:
                    continue             # not exact in floating point
                for spelling in sorted({u, u.lower(), u.upper()} | ({u.swapcase()} if r.thorough else set())):
                    judge(r, "R1", "Size", t + spelling, int(want))
    wrong = ["", "K", "B", "kb", "1X", "1KX", "1Ki", "1iB", "1 K", "-1K", "-1", "K1", "1K1", "1,5K", "1.5.5K", "1.5",
             "1KBB", "1KK", "0x10", "ten", "1e3", "1BK", "1K ", " 1K", "1MiBs"]
    for t in wrong:
        judge(r, "R4", "Size", t, None)


# ------------------------------------------------------------------ R2
def durations(r):
    numbers = [("0", 0), ("1", 1), ("90", 90)] + ([("3", 3), ("1000", 1000), ("007", 7)] if r.thorough else [])
    for t, n in numbers:
        judge(r, "R2", "Duration", t, n * 60)
        for u, f in SECONDS.items():
            judge(r, "R2", "Duration", t + u, n * f)
    units = list(SECONDS)
    for k in (2, 3) if r.thorough else (2,):
        for i, us in enumerate(itertools.product(units, repeat=k)):
            if k == 3 and i % 5:
                continue
            text, want = "", 0
            for j, u in enumerate(us):
                text += f"{j + 2}{u}"
                want += (j + 2) * SECONDS[u]
            judge(r, "R2", "Duration", text, want)
    judge(r, "R2", "Duration", "1h30m25s", 5425)
    judge(r, "R2", "Duration", "1y2M3w4d5h6m7s", 31536000 + 2 * 2592000 + 3 * 604800 + 4 * 86400 + 5 * 3600 + 367)
    for t in ("x", "h", "1x", "1S", "1H", "1D", "1W", "1Y", "1 h", "1h 30m", "1hx", "x1h", "1h-30m", "1hh", "1.5h", "h1",
              "1h5x", "12:", "1h?", "m5", "1min", "5sec", "1,5h", "-", "1h30z"):
        judge(r, "R4", "Duration", t, None)


# ------------------------------------------------------------------ R3
MOMENT = "moment "


class Clock:
    """The calendar as symbols: parsed moments, now and today."""

    def hooks(self):
        return {"datetime.datetime.strptime": self.strptime, "time.strptime": self.unknown,
                "datetime.datetime.now": self.now, "datetime.datetime.today": self.now,
                "datetime.date.today": self.today, ".replace": self.replace, "datetime.datetime.combine": self.combine,
                "time.time": lambda ip, s, c: [(s, T("sym", "the present"))],
                "time.strftime": self.strftime, "datetime.timedelta": self.delta, ".time": self.timeofday, ".date": self.dateof}

    @staticmethod
    def unknown(ip, s, c):
        raise Undecided("time.strptime")

    @staticmethod
    def strptime(ip, s, c):
        a = [ip.resolve(x, s) for x in c.args]
        if len(a) != 2 or not all(isinstance(x, C) and isinstance(x.v, str) for x in a):
            raise Undecided("strptime() of an unknown text")
        try:
            d = datetime.datetime.strptime(a[0].v, a[1].v)
        except ValueError:
            return [(s, Raised(Exc("ValueError", (), c.node)))]
        return [(s, T("sym", f"{MOMENT}{d:%Y-%m-%d %H:%M:%S}"))]

    @staticmethod
    def strftime(ip, s, c):
        a = [ip.resolve(x, s) for x in c.args]
        if len(a) == 1 and isinstance(a[0], C):
            # Of the present: the digits are unknown, their number is not.
            return [(s, C(datetime.datetime(2020, 12, 28, 23, 59, 58).strftime(a[0].v)))]
        return None

    @staticmethod
    def delta(ip, s, c):
        a = [ip.resolve(x, s) for x in c.args]
        kw = {k: ip.resolve(x, s) for k, x in c.kw.items()}
        if not all(isinstance(x, C) for x in a + list(kw.values())):
            return None
        d = datetime.timedelta(*[x.v for x in a], **{k: x.v for k, x in kw.items()})
        return [(s, T("delta", d.total_seconds() / 86400))]

    @staticmethod
    def now(ip, s, c):
        return [(s, T("sym", "now"))]

    @staticmethod
    def today(ip, s, c):
        return [(s, T("sym", "today"))]

    @staticmethod
    def moment(v):
        return isinstance(v, T) and v.op == "sym" and str(v.args[0]).startswith(MOMENT)

    def replace(self, ip, s, c):
        if not self.moment(c.recv):
            if isinstance(c.recv, T) and c.recv == T("sym", "now"):
                raise Undecided("the present is changed")
            return None
        kw = {k: ip.resolve(v, s) for k, v in c.kw.items()}
        for k, v in kw.items():
            if k not in ("year", "month", "day") or not (
                    isinstance(v, T) and v.op == "attr" and v.args[0] in (T("sym", "now"), T("sym", "today")) and
                    v.args[1] == k):
                raise Undecided(f"the {k} of a moment is replaced")
        if set(kw) != {"year", "month", "day"} or c.args:
            return [(s, T("sym", f"partly today {c.recv.args[0][-8:]}"))]
        return [(s, T("sym", f"today at {c.recv.args[0][-8:]}"))]

    def timeofday(self, ip, s, c):
        return [(s, T("sym", f"time {c.recv.args[0][-8:]}"))] if self.moment(c.recv) else None

    @staticmethod
    def dateof(ip, s, c):
        return [(s, T("sym", "today"))] if c.recv == T("sym", "now") else None

    @staticmethod
    def combine(ip, s, c):
        a = [ip.resolve(x, s) for x in c.args]
        if len(a) == 2 and a[0] == T("sym", "today") and isinstance(a[1], T) and str(a[1].args[0]).startswith("time "):
            return [(s, T("sym", f"today at {a[1].args[0][-8:]}"))]
        raise Undecided("combine()")


def times(r):
    clock = Clock()
    hk = clock.hooks()
    ci, fi = method(r, "Time", "input")
    dates = [("2020-05-12 13:14:15", "2020-05-12 13:14:15"), ("2020-05-12 13:14", "2020-05-12 13:14:00"),
             ("202005121314", "2020-05-12 13:14:00"), ("2020-05-12", "2020-05-12 00:00:00"),
             ("20200512", "2020-05-12 00:00:00"), ("1999-12-31 23:59:59", "1999-12-31 23:59:59"),
             ("199912312359", "1999-12-31 23:59:00"), ("19991231", "1999-12-31 00:00:00"),
             ("2000-02-29", "2000-02-29 00:00:00"), ("20201112", "2020-11-12 00:00:00"),
             ("202011121101", "2020-11-12 11:01:00"), ("1970-01-01", "1970-01-01 00:00:00")]
    for text, want in dates:
        sub = f"Time {text!r}"
        with r.guard("R3", sub):
            n = 0
            for s, v in convert(r, "Time", text, hk):
                n += 1
                got = sorted(str(x.args[0]) for x in walk_terms(v) if isinstance(x, T) and x.op == "sym") \
                    if not isinstance(v, Raised) else []
                if isinstance(v, Raised) or isinstance(v, C):
                    r.bad("R3", sub, f"{text!r} is " + (f"refused with {v.exc.name}" if isinstance(v, Raised) else
                          f"taken for the number {v.v}") + f" instead of {want}", fi.loc, describe(s))
                    continue
                ok = got == [MOMENT + want] and not shifted(v)
                r.check(ok, "R3", sub, f"{text!r} is taken for {', '.join(got)}{' shifted' if shifted(v) else ''} "
                        f"instead of {want}", fi.loc, describe(s))
            if n == 0:
                r.skip("R3", sub, "no outcome")
    for text, want in (("13:14:15", "13:14:15"), ("13:14", "13:14:00"), ("1314", "13:14:00"), ("00:00", "00:00:00"),
                       ("2359", "23:59:00"), ("09:05", "09:05:00")):
        sub = f"Time {text!r}"
        with r.guard("R3", sub):
            for s, v in convert(r, "Time", text, hk):
                if isinstance(v, (Raised, C)):
                    r.bad("R3", sub, f"{text!r} is " + (f"refused with {v.exc.name}" if isinstance(v, Raised) else
                          f"taken for the number {v.v}") + f" instead of the time of day {want}", fi.loc, describe(s))
                    continue
                got = [x for x in walk_terms(v) if isinstance(x, T) and x.op == "sym"]
                at = T("sym", f"today at {want}")
                if at not in got:
                    r.bad("R3", sub, f"{text!r} is taken for {', '.join(str(x.args[0]) for x in got)} instead of "
                          f"{want} of today or yesterday", fi.loc, describe(s))
                    continue
                rel = later(s, at)
                days = shifted(v)
                if rel is None:
                    r.bad("R3", sub, f"{text!r} is taken for a time of today that may still be to come"
                          if not days else f"{text!r} is shifted although it may have been today", fi.loc, describe(s))
                elif rel == "later":
                    r.check(days == -1, "R3", sub, f"{text!r} is taken for a moment of the future"
                            if not days else f"{text!r} is shifted by {days} days", fi.loc, describe(s))
                elif rel == "past":
                    r.check(not days, "R3", sub, f"{text!r} was today, but is shifted by {days} days", fi.loc, describe(s))
    for text, want in (("0", 0), ("5", 5), ("123", 123), ("1589234400", 1589234400), ("1602111559", 1602111559),
                       ("1589234400.75", 1589234400), ("99999", 99999), ("1234567", 1234567), ("9999", 9999),
                       ("1000000000", 1000000000), ("1111111111", 1111111111)):
        judge(r, "R3", "Time", text, want, hk)
    present = T("sym", "the present")
    for text, n in (("1h", 3600), ("1h30m", 5400), ("7d", 604800), ("2w", 1209600), ("1M", 2592000), ("1y", 31536000),
                    ("45s", 45), ("10m", 600), ("1d12h", 129600)):
        sub = f"Time {text!r}"
        with r.guard("R3", sub):
            for s, v in convert(r, "Time", text, hk):
                if isinstance(v, (Raised, C)):
                    r.bad("R3", sub, f"{text!r} is not taken for a time in the past", fi.loc, describe(s))
                    continue
                ago = difference(v, present)
                if ago is None:
                    r.skip("R3", sub, f"result {short(v)}")
                else:
                    r.check(ago == n, "R3", sub, f"{text!r} is taken for {ago} seconds ago instead of {n}", fi.loc,
                            describe(s))
    for t in ("x", "yesterday", "2020-13-01", "2020-02-30", "25:00", "12:60", "2020-05-12 25:00:00", "1x", "1D", "7S",
              "12:", "2020-05", "2020/05/12", "1h?", "--", "2020-05-12T", "12:30 pm", "5:"):
        judge(r, "R4", "Time", t, None, hk)


def shifted(v):
    """The number of days a moment is moved by."""
    for x in walk_terms(v):
        if isinstance(x, T) and x.op in ("+", "-"):
            for y in x.args:
                if isinstance(y, T) and y.op == "delta":
                    return y.args[0] if x.op == "+" else -y.args[0]
    return 0


def later(s, at):
    """How the path relates a time of today to now."""
    now = T("sym", "now")
    rel = s.facts.get(("ord", at, now))
    if rel is None:
        rel = {"lt": "gt", "gt": "lt"}.get(s.facts.get(("ord", now, at)), s.facts.get(("ord", now, at)))
    return {"gt": "later", "lt": "past", "eq": "same"}.get(rel)


def difference(v, present):
    for x in walk_terms(v):
        if isinstance(x, T) and x.op == "-" and len(x.args) == 2 and isinstance(x.args[1], C) and \
                (x.args[0] == present or x.args[0] == T("pure", "int", None, present)):
            return x.args[1].v
        if isinstance(x, T) and x.op == "+" and len(x.args) == 2 and isinstance(x.args[1], C) and x.args[0] == present:
            return -x.args[1].v
    return 0 if v == T("pure", "int", None, present) else None


# ------------------------------------------------------------------ R5
def shown(r, cls, value, modifier, si=False):
    ci, fi = method(r, cls, "output")
    ip = r.interp(fold_re=True, max_loop=12)
    st = new_state().setfield(ARGS, "si", C(si))
    args = [ARGS, C(modifier), C(value)]
    if fi.kind != "staticmethod":
        args = [Fn("class", ci)] + args
    return fi, r.run(fi, args, st=st, ip=ip)


def output(r):
    for si in (False, True):
        base = 1000 if si else 1024
        values = {0, 1, 9, 10, 999, 1000, 1001, 1023, 1024, 1025, 1536, 2047, 10239, 10240, 999949, 999999, 1000000,
                  1048575, 1048576, 5 * 10 ** 9, 3 * 2 ** 40, 10 ** 15, 7 * 2 ** 60}
        values |= {base ** k for k in range(1, 7)} | {base ** k * 15 for k in range(1, 6)}
        units = {base ** k * i for k in range(1, 6) for i in (1, 15)}
        for n in sorted(values):
            sub = f"Size {n} as {'--si ' if si else ''}h"
            with r.guard("R5", sub):
                fi, res = shown(r, "Size", n, "h", si)
                for s, v in res:
                    if isinstance(v, Raised):
                        r.bad("R5", sub, f"fails with {v.exc.name}", fi.loc, describe(s))
                        continue
                    if not (isinstance(v, C) and isinstance(v.v, str)):
                        r.skip("R5", sub, f"result {short(v)}")
                        continue
                    back = convert(r, "Size", v.v)
                    if len(back) != 1 or not isinstance(back[0][1], C):
                        r.bad("R5", sub, f"it is displayed as {v.v!r}, which is no size", fi.loc, describe(s))
                        continue
                    got = back[0][1].v
                    exact = n < base
                    exact = exact or n in units
                    r.check(got == n if exact else abs(got - n) <= .11 * n, "R5", sub,
                            f"{n} is displayed as {v.v!r}, which denotes {got}", fi.loc, describe(s))
                    if not exact:
                        r.check(got <= n * 1.06 and len(v.v) <= 6, "R5", f"{sub}: short", f"{n} is displayed as {v.v!r}",
                                fi.loc, describe(s))
    for n in (0, 1, 59, 60, 61, 3599, 3600, 3601, 3661, 7325, 86399, 86400, 100000, 360000):
        sub = f"Duration {n} as h"
        with r.guard("R5", sub):
            fi, res = shown(r, "Duration", n, "h")
            for s, v in res:
                if isinstance(v, Raised):
                    r.bad("R5", sub, f"fails with {v.exc.name}", fi.loc, describe(s))
                    continue
                if not (isinstance(v, C) and isinstance(v.v, str)):
                    r.skip("R5", sub, f"result {short(v)}")
                    continue
                back = convert(r, "Duration", v.v)
                got = back[0][1].v if len(back) == 1 and isinstance(back[0][1], C) else None
                r.check(got == n, "R5", sub, f"{n} seconds are displayed as {v.v!r}, which denotes {got}", fi.loc,
                        describe(s))


def numbers(r):
    for cls in ("Number", "Size", "Time", "Duration"):
        for n in (0, 5, 10, 255, 4096, 1589234400):
            for mod, want in ((None, str(n)), ("n", str(n)), ("x", f"{n:x}"), ("o", f"{n:o}")):
                sub = f"{cls} {n} as {mod}"
                with r.guard("R5", sub):
                    fi, res = shown(r, cls, n, mod)
                    for s, v in res:
                        if isinstance(v, Raised):
                            r.bad("R5", sub, f"fails with {v.exc.name}", fi.loc, describe(s))
                        elif isinstance(v, T) and v.op == "str" and isinstance(v.args[0], C):
                            r.check(str(v.args[0].v) == want, "R5", sub, f"displayed as {v.args[0].v}", fi.loc)
                        elif not isinstance(v, C):
                            r.skip("R5", sub, f"result {short(v)}")
                        else:
                            r.check(v.v == want, "R5", sub, f"{n} is displayed as {v.v!r} instead of {want!r}", fi.loc,
                                    describe(s))
    for t, n in (("0", 0), ("5", 5), ("1000", 1000), ("007", 7)):
        judge(r, "R1", "Number", t, n)
    for t in ("", "x", "-1", "1.5", "0x10", "1K", "one", "-"):
        judge(r, "R4", "Number", t, None)
