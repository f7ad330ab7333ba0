W, F, PA, TY, CT, PR, AR = ("libff/walk.py", "libff/filter.py", "libff/parser.py", "libff/type.py",
                            "libff/context.py", "libff/processing.py", "libff/arguments.py")
S = [
 dict(id="s01-depth-gap", property="P01", needs="-d with two ranges of which a later one is open (e.g. -d 0,2-)",
  breaks="the depth limit is taken from the closed ranges only, everything below is excluded although an open range allows it",
  edits=[(AR, "        if not [stop for start, stop in self.args.depth if stop is None]:\n            stop = max(stop for start, stop in self.args.depth)\n            self.args",
              "        stops = [stop for start, stop in self.args.depth if stop is not None]\n        if stops:\n            stop = max(stops)\n            self.args")],
  demo='''
put("a/b/c/f"); put("g")
expect(names("-d", "2-", "-C", "never"), ["a/b/c", "a/b/c/f"], "-d 2-")
expect(names("-d", "0,2-"), ["a", "a/b/c", "a/b/c/f", "g"], "-d 0,2-")
'''),
 dict(id="s02-share-loses", property="P02", needs="a plugin marked slow, idle workers and more than ten entries left in a directory",
  breaks="when entries are passed to an idle worker the entry at the split position is lost",
  edits=[(W, "entries = entries[:split]\n", "entries = entries[:split - 1]\n")],
  demo='''
from libff import walk, Entries
class Entry:
    def __init__(self, n): self.n = n
    def is_dir(self): return False
class Any:
    def __init__(self, **kw): self.__dict__.update(kw)
seen = []
class Walker(walk.FilesystemWalker):
    def __init__(self): pass
    args = Any(jobs=4)
    context = Any(idle_processes=lambda: 3, add_pending=lambda n: None)
    excluder = Any(test=lambda e: False)
    matcher = Any(test=lambda e: True)
    registry = Any(optimize_for_slow_plugins=True)
    processing = Any(process=lambda es: seen.extend(e.n for e in es))
    queue = Any(put=lambda es: seen.extend(e.n for e in es.entries))
Walker().process_entries(None, [Entry(n) for n in range(50)])
expect(sorted(seen), list(range(50)), "entries")
'''),
 dict(id="s03-signal-success", property="P06", needs="an executed command that is killed by a signal",
  breaks="a command that dies from a signal is counted as a success and ff exits with 0",
  edits=[(CT, "        if exitcode != 0:\n", "        if exitcode > 0:\n")],
  demo='''
put("a")
expect(ff("-x", "sh", "-c", "exit 5")[0], 3, "status")
expect(ff("-x", "sh", "-c", "kill -9 $$")[0], 3, "killed by a signal")
'''),
 dict(id="s04-mode-any", property="P04", needs="a permission test with : and a mode of several bits of which a file has only some",
  breaks="perm:660 matches files that have only one of the bits",
  edits=[(TY, "test.operator == \":\" and value & test_value == test_value or", "test.operator == \":\" and bool(value & test_value) or")],
  demo='''
put("all", mode=0o664); put("some", mode=0o604); put("none", mode=0o111)
expect(names("perm:220"), ["all"], "perm:220")
expect(names("perm~220"), ["all", "some"], "perm~220")
'''),
 dict(id="s05-smart-regex", property="P05", needs="--case=smart with a value without any letters, such as a character range",
  breaks="a value without any letters is compared with respect to case in smart mode although it contains no uppercase letter",
  edits=[(PA, "ignore_case = value == value.lower()", "ignore_case = value.islower()")],
  demo='''
put("abc"); put("def1")
expect(names("name~^[!-`]+$"), ["abc", "def1"], "no uppercase letter in the value")
expect(names("name~^[A-Z]+$"), [], "uppercase letters in the value")
'''),
 dict(id="s06-or-after-group", property="P03", needs="an OR after a negated test or group",
  breaks="the alternative after a negated test is joined with it by AND",
  edits=[(PA, "            elif utoken == \"OR\":\n                sequences.append(AND())\n", "            elif utoken == \"OR\":\n                if not (sequences[-1] and isinstance(sequences[-1][-1], NOT)):\n                    sequences.append(AND())\n")],
  demo='''
put("a"); put("b"); put("c")
expect(names("name=a", "or", "name=b"), ["a", "b"], "a OR b")
expect(names("not", "(", "name=a", "or", "name=b", ")", "or", "name=b"), ["b", "c"], "NOT ( a OR b ) OR b")
'''),
 dict(id="s07-excluder-order", property="P01", needs="two -e tests of which the entry lacks the attribute of the first",
  breaks="an entry without the attribute of one exclusion is no longer checked against the remaining exclusions",
  edits=[(F, "                # Ignore entries that don't provide this attribute.\n                continue", "                # Ignore entries that don't provide this attribute.\n                return False")],
  demo='''
put("x"); put("y")
expect(names("-e", "name=x"), ["y"], "-e name=x")
expect(names("-e", "file.target=a", "-e", "name=x"), ["y"], "attribute of symbolic links")
'''),
]
