W, F, PA, TY, CT, PR, AR = ("libff/walk.py", "libff/filter.py", "libff/parser.py", "libff/type.py",
                            "libff/context.py", "libff/processing.py", "libff/arguments.py")
FI, MA, CO, CA, IG, EN, RE, AP, CV, PL = (
    "libff/field.py", "libff/main.py", "libff/console.py", "libff/cache.py", "libff/ignore.py", "libff/entry.py",
    "libff/registry.py", "libff/argparse.py", "libff/convert.py", "libff/plugin.py")
S = [
 dict(id="s08-chunk-end", property="P02", needs="a directory whose number of subdirectories is one more than a multiple of the chunk size",
  breaks="the last subdirectory is not searched if it would be alone in its chunk",
  edits=[(W, "            for i in range(0, len(search), chunk_size):\n", "            for i in range(0, max(1, len(search) - 1), chunk_size):\n")],
  demo='''
for n in range(11):
    put(f"d{n:02}/f")
for jobs in "1", "2", "4":
    expect(names("-j", jobs, "name=f"), [f"d{n:02}/f" for n in range(11)], "files with " + jobs)
'''),
 dict(id="s09-stop-first", property="P08", needs="the main process gets to its end between the stop and the recording of the exit status",
  breaks="the other processes are told to stop before the failure is recorded, ff may end with status 0",
  edits=[(W, "            self.context.set_exitcode(EX_PROCESS)\n            self.context.stop()\n\n            # It proves",
             "            self.context.stop()\n            self.context.set_exitcode(EX_PROCESS)\n\n            # It proves")],
  demo='''
import signal
from libff import walk
from libff.context import Context
class Any:
    def __init__(self, **kw): self.__dict__.update(kw)
args = Any(jobs=1, profile=None, debug=["none"], follow_symlinks=False)
context = Context()
context.args = args
context.setup()
context.logger = Any(debug_proc=lambda *a: None, debug=lambda *a: None, warning=lambda *a, **k: None)
context.cache = Any(close=lambda: None)
seen = []
real = context.stop
def stop():
    seen.append(context.exitcode)
    real()
context.stop = stop
walker = walk.FilesystemWalker(context)
context.walker = walker
def fail(*args): raise ValueError("unexpected")
walker.process_arguments = fail
walker.put([["x"]])
sys.stderr = io.StringIO()
walker.loop(0)
expect(seen, [4], "status recorded when the stop is requested")
'''),
 dict(id="s10-mmap-text", property="P10", needs="the text or lines of a file are looked at",
  breaks="files are opened for writing to search their content",
  edits=[("libff/builtin/grep.py", "            with open(entry.path) as fobj:", "            with open(entry.path, \"r+\" if entry.size else \"r\") as fobj:")],
  demo='''
put("a.txt", "hello\\nworld\\n")
import libff.builtin.grep as g
modes = []
def hook(event, args):
    if event == "open" and str(args[0]).endswith("a.txt"):
        modes.append(args[1] if args[1] is not None else args[2] & 3)
put("b.txt", "")
from libff import entry
class Any:
    def __init__(self, **kw): self.__dict__.update(kw)
os.chdir(TREE)
e = entry.Entry(Any(root=".", absroot=TREE, device=0), "a.txt", os.stat("a.txt"))
sys.addaudithook(hook)
data = dict(g.Grep().process(e, None))
expect(data.get("linecount"), 2, "linecount")
expect([m for m in modes if m not in ("r", "rb", "rt", 0)], [], "modes other than reading")
'''),
 dict(id="s11-fifo-shebang", property="P11", needs="a named pipe with execute permission",
  breaks="the shebang plugin opens named pipes with execute permission",
  edits=[("plugins/introspect.py", "    def can_handle(self, entry):\n        return entry.is_file()\n", "    def can_handle(self, entry):\n        return entry.is_file() or entry.is_executable()\n")],
  demo='''
import importlib.util
spec = importlib.util.spec_from_file_location("introspect", os.path.join(REPO, "plugins/introspect.py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
from libff import entry
class Any:
    def __init__(self, **kw): self.__dict__.update(kw)
os.chdir(TREE)
os.mkfifo("x", 0o700); put("y", "#!/bin/sh")
def e(name): return entry.Entry(Any(root=".", absroot=TREE, device=0), name, os.lstat(name))
expect(m.Shebang().can_handle(e("y")), True, "regular file")
expect(m.Shebang().can_handle(e("x")), False, "named pipe")
'''),
 dict(id="s12-ignore-dir", property="P12", needs="an ignore file that cannot be read because it is a directory",
  breaks="an ignore file that is no regular file aborts the search",
  edits=[("libff/builtin/ignore.py", "                    except OSError as exc:", "                    except (FileNotFoundError, PermissionError) as exc:")],
  demo='''
put("a"); os.makedirs(os.path.join(TREE, "sub/.gitignore")); put("sub/b")
rc, out, err = ff("-I", "--no-parent-ignore")
expect((rc, sorted(out.split())), (0, ["a", "sub", "sub/.gitignore", "sub/b"]), "result")
'''),
 dict(id="s13-assert-type", property="P13", needs="the interpreter runs with -O and a reference of another type is given",
  breaks="comparing attributes of different types is only refused without -O",
  edits=[(PA, "        raise ValueError(\"no common Type subclass found\")", "        assert False, \"no common Type subclass found\""),
         (PA, "            self.get_common_super_type(type_cls, ref_type_cls)\n        except ValueError as exc:", "            self.get_common_super_type(type_cls, ref_type_cls)\n        except AssertionError as exc:")],
  demo='''
put("a", "xx"); put("b")
for opts in (), ("-O",):
    expect(ff("size={file.mode}a", opts=opts)[0], 2, f"status with {opts}")
    expect(ff("size={}a", opts=opts)[:2], (0, "a\\n"), f"result with {opts}")
'''),
 dict(id="s14-unknown-remote", property="P14", needs="a filesystem that is not in the table of the fs plugin",
  breaks="whether an unknown filesystem is remote is None instead of a Boolean value",
  edits=[("plugins/fs.py", "        return fs_types.get(f_type, (\"unknown\", False))", "        return fs_types.get(f_type, (\"unknown\", None))")],
  demo='''
import importlib.util
spec = importlib.util.spec_from_file_location("fs", os.path.join(REPO, "plugins/fs.py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
m.fs_types.clear()
class Any:
    def __init__(self, **kw): self.__dict__.update(kw)
data = dict(m.Fs().process(Any(path=TREE, dir=TMP, is_dir=lambda: True), None))
expect(data, {"type": "unknown", "remote": False}, "unknown filesystem")
'''),
 dict(id="s15-list-none", property="P15", needs="sorting by a list attribute that some of the entries do not have",
  breaks="missing values of list attributes cannot be compared with lists",
  edits=[(TY, "    operators = String.operators\n    sort_none = []\n", "    operators = String.operators\n    sort_none = String.sort_none\n")],
  demo='''
put("a", "one"); put("b", "two"); put("c", b"\\xff\\xfe"); os.makedirs(os.path.join(TREE, "d"))
rc, out, err = ff("-S", "grep.lines,name", "type=f", "grep.text=yes")
expect((rc, out.split()), (0, ["a", "b"]), "texts")
rc, out, err = ff("-S", "grep.lines,name")
expect((rc, out.split()), (0, ["c", "d", "a", "b"]), "all")
'''),
 dict(id="s16-relative-key", property="P16", needs="two directories with files of the same relative path and modification time",
  breaks="cached values are stored under the path relative to the current directory",
  edits=[(RE, "cached = self.cache.get(plugin, entry.abspath, tag)", "cached = self.cache.get(plugin, entry.path, tag)"),
         (RE, "self.cache.set(plugin, entry.abspath, tag, cached)", "self.cache.set(plugin, entry.path, tag, cached)")],
  demo='''
import hashlib
env = {"FF_PLUGIN_DIRS": os.path.join(REPO, "plugins")}
for d in "one", "two":
    os.utime(put(d + "/a", d), ns=(10**18, 10**18))
for d in "one", "two", "one":
    rc, out, err = ff("-o", "md5", cwd=os.path.join(TREE, d), env=env)
    expect(out.strip(), hashlib.md5(d.encode()).hexdigest(), d)
'''),
 dict(id="s19-hits-outside", property="P19", needs="two worker processes closing their caches at the same time",
  breaks="the old value of the shared counter is read before the lock is taken",
  edits=[(CA, "        with self.context.cache_hits.get_lock():\n            self.context.cache_hits.value += self.hits\n", "        hits = self.context.cache_hits.value + self.hits\n        with self.context.cache_hits.get_lock():\n            self.context.cache_hits.value = hits\n")],
  demo='''
from libff.cache import Cache
class Lock:
    def __init__(self, v): self.v = v
    def __enter__(self): self.v.value += 100
    acquire = __enter__
    def __exit__(self, *a): pass
    release = __exit__
class Value:
    def __init__(self): self.value = 0
    def get_lock(self): return Lock(self)
class Any:
    def __init__(self, **kw): self.__dict__.update(kw)
context = Any(cache_hits=Value(), cache_misses=Value(), logger=None, args=Any(cache=os.path.join(TMP, "db")))
c = Cache(context)
c.hits, c.misses = 3, 5
c.close()
expect((context.cache_hits.value, context.cache_misses.value), (103, 105), "counters")
'''),
 dict(id="s20-shared-exclude", property="P20", needs="two searches of one program of which the first hides hidden files",
  breaks="the default list of exclusions is changed by a search, later searches exclude hidden files as well",
  edits=[("libff/find.py", "        args.sort = sort.copy()\n", "        args.sort = sort\n"),
         ("libff/find.py", "        args.output = output.copy()\n", "        args.output = output\n")],
  demo='''
from ff import Find
put("a")
out = ["file", "name"]
first = [dict(e) for e in Find(directories=[TREE], output=out, cache=None, jobs=1)]
expect(out, ["file", "name"], "list of the caller")
expect(len(first), 1, "entries")
expect([sorted(dict(e)) for e in Find(directories=[TREE], output=["name"], cache=None, jobs=1)], [["name"]], "output")
'''),
 dict(id="s21-open-limit", property="P21", needs="--limit with a start and no stop and nothing else that collects the results",
  breaks="a slice without end is ignored, all results are printed immediately",
  edits=[(MA, "        if args.sort or args.count or args.limit or args.exec_batch or args.json == \"json\":", "        if args.sort or args.count or (args.limit and args.limit[1] is not None) or \\\n                args.exec_batch or args.json == \"json\":")],
  demo='''
for n in range(5): put(f"f{n}")
expect(len(names("-l", ":2")), 2, ":2")
expect(len(names("-l", "3:")), 2, "3:")
expect(len(names("-l", "-1:")), 1, "-1:")
'''),
 dict(id="s22-value-equals", property="P22", needs="a short option whose attached value begins with an equals sign",
  breaks="equals signs at the start of the attached value of a short option are removed",
  edits=[(AP, "                if len(arg) > 1:\n", "                arg = arg[0] + arg[1:].lstrip(\"=\")\n                if len(arg) > 1:\n")],
  demo='''
put("=d/f"); put("d/g")
expect(names("-D=d"), ["=d/f"], "-D=d")
expect(names("-Dd"), ["d/g"], "-Dd")
'''),
 dict(id="s23-ambiguous-loaded", property="P23", needs="an ambiguous attribute name after a qualified one of the same plugin",
  breaks="an ambiguous attribute is resolved to the plugin that happens to be in use already",
  edits=[(RE, "            elif not plugin_names:\n                # We could not find", "            elif len(plugin_names & set(self.plugins)) == 1:\n                attribute = Attribute((plugin_names & set(self.plugins)).pop(), name, name)\n\n            elif not plugin_names:\n                # We could not find")],
  demo='''
d = os.path.join(TMP, "plugins"); os.makedirs(d)
for n in "Alpha", "Beta":
    with open(os.path.join(d, n.lower() + ".py"), "w") as f:
        f.write(f"""from libff.plugin import *
class {n}(Plugin):
    "Test plugin."
    attributes = [("both", Number, "n"), ("{n.lower()}", Number, "n")]
    def can_handle(self, entry): return True
    def process(self, entry, cached): return dict(both=1, {n.lower()}=2)
""")
put("a")
env = {"FF_PLUGIN_DIRS": d}
expect(ff("-o", "both", env=env)[0], 11, "ambiguous")
expect(ff("-o", "alpha.both,beta.beta", env=env)[:2], (0, "1 2\\n"), "qualified")
expect(ff("-o", "alpha.alpha,both", env=env)[0], 11, "ambiguous after a qualified name")
'''),
 dict(id="s25-dot-slash", property="P25", needs="a start directory given with -D and a leading ./",
  breaks="the path of an entry lacks the leading ./ of its start directory",
  edits=[(EN, "        self.path = join(self.root, self.relpath) if self.root != \".\" else self.relpath\n", "        path = join(self.root, self.relpath)\n        self.path = path[2:] if path.startswith(\"./\") else path\n")],
  demo='''
put("x/.a.txt"); put("b")
expect(names("type=f"), ["b", "x/.a.txt"], "no directory")
expect(names("-D", "x"), ["x/.a.txt"], "-D x")
expect(names("-D", "./x"), ["./x/.a.txt"], "-D ./x")
expect(names("-D", "./x", "-o", "root,path"), ["./x ./x/.a.txt"], "-D ./x")
'''),
 dict(id="s26-loop-link", property="P26", needs="a symbolic link that points to itself",
  breaks="symbolic links in a loop are not reported as broken",
  edits=[(EN, "            self.broken = not os.path.exists(self.target)", "            self.broken = not os.path.lexists(self.target)")],
  demo='''
put("f")
for n, t in ("ok", "f"), ("gone", "nothing"), ("loop", "loop"), ("a", "b"), ("b", "a"):
    os.symlink(t, os.path.join(TREE, n))
expect(names("broken=yes"), ["a", "b", "gone", "loop"], "broken")
'''),
 dict(id="s27-first-of-month", property="P27", needs="a time of day later than now on the first day of a month",
  breaks="the last occurrence of a time of day is refused or wrong on the first of a month",
  edits=[(CV, "                        time_obj -= datetime.timedelta(days=1)", "                        time_obj = time_obj.replace(day=max(1, today.day - 1))")],
  demo='''
import datetime as real
from libff import convert
class DT(real.datetime):
    @classmethod
    def now(cls, tz=None): return cls(2026, 3, 1, 0, 30)
class D(real.date):
    @classmethod
    def today(cls): return cls(2026, 3, 1)
class Any: pass
fake = Any(); fake.datetime = DT; fake.date = D; fake.timedelta = real.timedelta
os.environ["TZ"] = "UTC"; import time; time.tzset()
convert.datetime = fake
utc = real.timezone.utc
expect(convert.parse_time("00:15"), int(real.datetime(2026, 3, 1, 0, 15, tzinfo=utc).timestamp()), "00:15")
expect(convert.parse_time("23:00"), int(real.datetime(2026, 2, 28, 23, 0, tzinfo=utc).timestamp()), "23:00")
'''),
 dict(id="s28-glob-base-case", property="P05", needs="a glob without slash on a path attribute and a name with uppercase letters",
  breaks="a glob pattern respects case on the names of paths although case is to be ignored",
  edits=[(TY, "            basename = entry.name.lower() if test.ignore_case else entry.name", "            basename = entry.name if os.sep in test.value.pattern else entry.name")],
  demo='''
put("x/A.TXT"); put("x/b.txt")
expect(names("path%*.txt"), ["x/A.TXT", "x/b.txt"], "smart")
expect(names("-c", "ignore", "path%*.TXT"), ["x/A.TXT", "x/b.txt"], "ignore")
expect(names("-c", "sensitive", "path%*.txt"), ["x/b.txt"], "sensitive")
'''),
 dict(id="s30-lazy-bracket", property="P17", needs="--json and no result at all",
  breaks="JSON output is empty instead of an empty array if there are no results",
  edits=[(CO, "        print(\"[\", end=\"\")\n        self.print_comma = False\n", "        self.print_comma = False\n"),
         (CO, "        if self.print_comma:\n            print(\",\", end=\"\")\n", "        print(\",\" if self.print_comma else \"[\", end=\"\")\n"),
         (CO, "        print(\"]\")", "        if self.print_comma:\n            print(\"]\")")],
  demo='''
put("a"); put("b")
for t, n in ("name=x", 0), ("name=a", 1), ("type=f", 2):
    expect(len(json.loads(ff("--json", t)[1] or "null") or []), n, t)
expect(ff("--json", "name=x")[1].strip(), "[]", "no results")
'''),
 dict(id="s31-halt-now", property="P06", needs="--halt=now and a running command while another one fails",
  breaks="a command that is terminated because of --halt=now is counted as a success",
  edits=[(CT, "                        exitcode = process.wait(0.1)\n                        break\n", "                        exitcode = process.wait(0.1)\n                        if exitcode is not None:\n                            break\n"),
         (CT, "                else:\n                    process.terminate()\n", "                else:\n                    process.terminate()\n                    exitcode = process.poll() or 0\n")],
  demo='''
from libff.context import Context
class Any:
    def __init__(self, **kw): self.__dict__.update(kw)
c = Context()
c.args = Any(jobs=2, profile=None, halt="now")
c.setup()
c.logger = Any(error=lambda *a: None)
c.stop()
import time; time.sleep(0.2)
c.run_exec_process(["sleep", "30"])
expect((c.process_succeeded.value, c.process_failed.value, c.exitcode), (0, 1, 3), "terminated command")
'''),
 dict(id="s32-batch-partial", property="P07", needs="-X with a word of two placeholders of which the second is missing for an entry",
  breaks="an argument that is cut off before the missing attribute is passed to the command",
  edits=[(FI, "                    try:\n                        argument = []\n                        for field in subfields:\n                            argument.append(self.render_field(entry, field))\n                        output.append(\"\".join(argument))\n",
              "                    argument = []\n                    output.append(argument)\n                    try:\n                        for field in subfields:\n                            argument.append(self.render_field(entry, field))\n"),
         (FI, "                        if not batch:\n                            raise\n", "                        if not batch:\n                            raise\n                        if not argument:\n                            output.pop()\n"),
         (FI, "                output.append(\"\".join(subfields))\n\n        return output\n", "                output.append(subfields)\n\n        return [\"\".join(argument) for argument in output]\n")],
  demo='''
put("f"); os.symlink("f", os.path.join(TREE, "l"))
rc, out, err = ff("-S", "-X", "echo", "{link}")
expect((rc, out), (0, "f\\n"), "link")
rc, out, err = ff("-S", "-X", "echo", "{name}={link}")
expect((rc, out), (0, "l=f\\n"), "name and link")
'''),
]
