W, F, PA, TY, CT, PR, AR = ("libff/walk.py", "libff/filter.py", "libff/parser.py", "libff/type.py",
                            "libff/context.py", "libff/processing.py", "libff/arguments.py")
FI, MA, CO, CA, IG, EN, RE, AP, CV, PL, FD = (
    "libff/field.py", "libff/main.py", "libff/console.py", "libff/cache.py", "libff/ignore.py", "libff/entry.py",
    "libff/registry.py", "libff/argparse.py", "libff/convert.py", "libff/plugin.py", "libff/find.py")
STUB = '''
class Any:
    def __init__(self, **kw): self.__dict__.update(kw)
LOGGER = Any(debug_proc=lambda *a: None, debug=lambda *a: None, warning=lambda *a, **k: None,
             error=lambda *a: None)
'''
S = [
 dict(id="s33-shared-list", property="P18", needs="two sibling directories, the first one with an ignore file, searched by the same worker",
  breaks="the ignore files of a directory are also applied in its siblings",
  edits=[(W, "        ignore_paths = parent.ignore_paths.copy()\n", "        ignore_paths = parent.ignore_paths\n")],
  demo='''
for d in "abcdefghijkl":
    put(d + "/name.log")
put("a/.gitignore", "*.log\\n")
for jobs in "1", "2":
    expect(names("-I", "-j", jobs, "name=name.log"), [d + "/name.log" for d in "bcdefghijkl"], "siblings")
'''),
 dict(id="s34-idle-limit", property="P24", needs="a worker that is idle for a minute while others are busy",
  breaks="a worker that was idle for long ends although others may still produce work",
  edits=[(W, "        try:\n            while not self.context.is_stopping():\n", "        idle = 0\n\n        try:\n            while not self.context.is_stopping():\n"),
         (W, "                    if self.context.barrier_wait():\n                        break\n", "                    idle += 1\n                    if self.context.barrier_wait() or idle > 3000:\n                        break\n")],
  demo=STUB + '''
import queue
from libff import walk
class Q:
    calls = 0
    def get(self, timeout=None):
        Q.calls += 1
        raise queue.Empty
    get_nowait = lambda self: self.get()
waits = []
def wait(*a):
    waits.append(1)
    return len(waits) == 20000
context = Any(args=Any(jobs=1, profile=True, debug=["none"], follow_symlinks=False), logger=LOGGER,
              cache=Any(close=lambda: None), is_stopping=lambda: False, barrier_wait=wait,
              add_pending=lambda n: None, set_exitcode=lambda n: None, stop=lambda: None)
walker = walk.FilesystemWalker(context)
walker.queue = Q()
walker.loop(0)
expect(len(waits), 20000, "the worker ends when all agree")
'''),
 dict(id="s35-minus-jobs", property="P09", needs="a negative number for a positive numeric option",
  breaks="a negative number of jobs is silently taken for something else",
  edits=[(AP, "    num = type_positive_number(string)\n    if num == 0:\n        num = MAX_CPU\n", "    num = type_number(string)\n    if num <= 0:\n        num = MAX_CPU\n")],
  demo='''
put("a")
for v in "-1", "-3", "x", "1.5":
    rc, out, err = ff("-j" + v)
    expect((rc, out), (2, ""), "-j" + v)
expect(names("-j0"), ["a"], "-j0")
'''),
 dict(id="s36-strip-argument", property="P07", needs="a file name that begins or ends with whitespace",
  breaks="whitespace at the ends of an argument is lost",
  edits=[(FI, "                        output.append(\"\".join(argument))\n", "                        argument = \"\".join(argument).strip()\n                        output.append(argument)\n")],
  demo='''
for name in "a", "b ", " c":
    put(name)
for opt in "-x", "-X":
    rc, out, err = ff("type=f", opt, sys.executable, "-c", "import sys; print([a for a in sys.argv[1:]])", "{/}")
    for name in "a", "b ", " c":
        expect(repr(name) in out, True, f"{opt} {name!r} in {out!r}")
'''),
 dict(id="s37-exit-zero", property="P08", needs="a worker process that ends early without a failure status",
  breaks="a worker that disappeared with exit status 0 is taken for one that works",
  edits=[(PR, "                if not process.is_alive():\n", "                if process.exitcode:\n")],
  demo=STUB + '''
from libff.processing import BaseProcessing
for code in 0, 1, -9:
    seen = []
    context = Any(args=Any(), logger=LOGGER, walker=Any(processes=[
                      Any(is_alive=lambda: True, exitcode=None), Any(is_alive=lambda: False, exitcode=code)]),
                  set_exitcode=lambda n: seen.append(n), stop=lambda: seen.append("stop"))
    p = BaseProcessing(context)
    p.next_processes_check = 0
    expect((p.check_for_failed_processes(), seen), (True, [4, "stop"]), f"exit code {code}")
'''),
 dict(id="s38-keep-atime", property="P10", needs="a plugin that reads the content of files",
  breaks="reading a file for its hash changes its status (ctime)",
  edits=[("plugins/hash.py", "import hashlib\n", "import os\nimport hashlib\n"),
         ("plugins/hash.py", "                    h.update(buf)\n", "                    h.update(buf)\n            # Leave no traces.\n            os.utime(entry.path, ns=(entry.status.st_atime_ns, entry.status.st_mtime_ns))\n")],
  demo='''
import time
path = put("a", "data")
before = os.stat(path)
time.sleep(0.05)
rc, out, err = ff("--cache", os.path.join(TMP, "c"), "-o", "md5.md5,path", "type=f")
expect(rc, 0, err)
after = os.stat(path)
expect(after.st_ctime_ns, before.st_ctime_ns, "ctime")
'''),
 dict(id="s39-link-content", property="P11", needs="a symbolic link to a named pipe with --mime or grep attributes",
  breaks="the content of whatever a symbolic link points to is opened",
  edits=[("libff/builtin/grep.py", "        return entry.is_file()\n", "        return entry.is_file() or entry.is_symlink() and not entry.broken\n")],
  demo='''
put("a", "one\\ntwo\\n")
os.mkfifo(os.path.join(TREE, "p"))
os.symlink("p", os.path.join(TREE, "l"))
try:
    rc, out, err = ff("-S", "path", "-o", "path,grep.linecount", "name~.", timeout=20)
except subprocess.TimeoutExpired:
    rc, out, err = None, "", "hangs"
expect((rc, out.split()), (0, ["a", "2"]), err)
'''),
 dict(id="s40-decode-errors", property="P12", needs="a text file that is not valid in the encoding of the locale",
  breaks="a file that is not UTF-8 ends the search",
  edits=[("libff/builtin/grep.py", "                except UnicodeDecodeError:\n", "                except OSError:\n")],
  demo='''
put("a", "one\\n"); put("b", b"\\xff\\xfe\\x00\\n")
rc, out, err = ff("-S", "path", "-o", "path,grep.text:n")
expect((rc, out.split()), (0, ["a", "true", "b", "false"]), err)
'''),
 dict(id="s41-debug-index", property="P13", needs="-O and an entry whose status cannot be read (other than missing or no permission)",
  breaks="with -O a warning about a directory entry ends the search",
  edits=[(W, "                    except OSError as exc:\n                        self.logger.warning(exc)\n                        continue\n",
             "                    except OSError as exc:\n                        self.logger.warning(f\"process #{self.index}: {exc}\")\n                        continue\n")],
  demo='''
put("a")
os.symlink("loop", os.path.join(TREE, "loop"))
for opts in (), ("-O",):
    rc, out, err = ff("-L", "-S", "path", opts=opts)
    expect((rc, out.split()), (0, ["a"]), f"{opts} {err}")
'''),
 dict(id="s43-bool-count", property="P15", needs="--count of a size or duration that some entries do not have",
  breaks="--count fails if the first entry lacks the attribute",
  edits=[(PR, "                except KeyError:\n                    continue\n\n                if field.type.count", "                except KeyError:\n                    value = field.type.sort_none\n\n                if field.type.count")],
  demo='''
put("a"); put("b")
os.symlink("a", os.path.join(TREE, "l"))
rc, out, err = ff("--count=link")
expect((rc, sorted(out.split())), (0, ["_total=3", "link[a]=1"]), err)
'''),
 dict(id="s44-stored-none", property="P16", needs="a plugin that fails on a file, with a cache, and a second search",
  breaks="the outcome 'no data' is not stored, so plugins are asked again and again with a cache",
  edits=[(RE, "                        cached = NODATA\n\n                    self.cache.set(plugin, entry.abspath, tag, cached)\n",
              "                        cached = NODATA\n\n                    if cached:\n                        self.cache.set(plugin, entry.abspath, tag, cached if cached is not NODATA else None)\n")],
  demo='''
put("a.tar", "no archive")
import tarfile
put("x", "1")
with tarfile.open(os.path.join(TREE, "b.tar"), "w") as t: t.add(os.path.join(TREE, "x"), "x")
c = os.path.join(TMP, "cache")
args = ("--cache", c, "-S", "path", "-o", "path,tar.members", "ext=tar")
one, two, three = ff(*args), ff(*args), ff("-C", *args[2:])
expect(one[:2], (0, "b.tar\\tx\\n".replace("\\t", one[1][5:6])), "first")
expect(two[:2], one[:2], "second")
'''),
 dict(id="s45-fallback-end", property="P17", needs="-0 and a name that cannot be encoded on standard output",
  breaks="records with characters that cannot be encoded are ended by a newline instead of the chosen terminator",
  edits=[(CO, "        \"\"\"Print a line of output handling encoding errors.\n        \"\"\"\n", "        \"\"\"Print a line of output handling encoding errors.\n        \"\"\"\n        line = line.encode(self.encoding, \"surrogateescape\").decode(self.encoding, \"replace\")\n")],
  demo='''
put("a"); put("b\\u20ac")
env = {"PYTHONIOENCODING": "ascii"}
for args, end in ((), "\\n"), (("-0",), "\\0"):
    rc, out, err = ff("-S", "path", *args, env=env)
    expect((rc, out), (0, "a" + end + "b\\\\u20ac" + end), err)
'''),
 dict(id="s46-thread-lock", property="P19", needs="commands of several processes that end at the same time",
  breaks="the count of successful commands is guarded by a lock that is not shared by the processes",
  edits=[(CT, "            with self.process_succeeded.get_lock():\n", "            with self.count_lock:\n"),
         (CT, "        self.process_failed = multiprocessing.Value(\"L\")\n", "        self.process_failed = multiprocessing.Value(\"L\")\n        self.count_lock = threading.Lock()\n")],
  demo=STUB + '''
from libff.context import Context
import multiprocessing
c = Context()
c.args = Any(jobs=4, profile=None, halt="never")
c.logger = LOGGER
c.setup()
class Slow:
    """A counter that takes its time between reading and writing."""
    def __init__(self, v): self.v = v
    def get_lock(self): return self.v.get_lock()
    def acquire(self): return self.v.acquire()
    def release(self): return self.v.release()
    @property
    def value(self):
        n = self.v.value
        import time; time.sleep(0.02)
        return n
    @value.setter
    def value(self, n): self.v.value = n
c.process_succeeded = Slow(c.process_succeeded)
def run():
    for _ in range(10):
        c.run_exec_process(["/bin/true"])
ps = [multiprocessing.Process(target=run) for _ in range(4)]
for p in ps: p.start()
for p in ps: p.join()
expect(c.process_succeeded.value, 40, "commands")
'''),
 dict(id="s47-api-case", property="P20", needs="a search with the Python API after one with other ignore files",
  breaks="the default set of ignore files is changed by a search",
  edits=[(FD, "        args.ignore_files = ignore_files\n", "        args.ignore_files = ignore_files\n        if not ignore:\n            args.ignore_files.clear()\n")],
  demo='''
put("sub/.gitignore", "*.log\\n"); put("sub/a.log"); put("b")
from libff.find import Find
from libff.ignore import IGNORE_FILES
before = set(IGNORE_FILES)
list(Find(directories=[TREE], output=["path"], jobs=1, cache=None))
expect(set(IGNORE_FILES), before, "ignore files")
'''),
 dict(id="s48-range-first", property="P21", needs="-x or -X together with --sort and --limit",
  breaks="the slice is taken before the results are sorted when commands are executed",
  edits=[(PR, "        super().finalize()\n\n        entries = self.entries_range()\n\n        if not entries:\n", "        entries = self.entries_range()\n\n        super().finalize()\n\n        if not entries:\n")],
  demo='''
for n in range(40):
    put(f"f{(n * 17) % 40:02}")
rc, out, err = ff("-j1", "-S", "name", "-l", ":3", "-X", "echo", "{/}")
expect((rc, out.split()), (0, ["f00", "f01", "f02"]), err)
rc, out, err = ff("-j1", "-S", "name", "-R", "-l", ":2", "-X", "echo", "{/}")
expect((rc, out.split()), (0, ["f39", "f38"]), err)
'''),
 dict(id="s49-options-comment", property="P22", needs="a # inside a value in FF_OPTIONS",
  breaks="everything from a # on is dropped from FF_OPTIONS",
  edits=[(AR, "        argv = shlex.split(ff_options)\n", "        argv = shlex.split(ff_options, comments=True)\n")],
  demo='''
put("a", "1"); put("b", "22")
rc, out, err = ff("-S", "name", env={"FF_OPTIONS": "-o name,size --sep=#"})
expect((rc, out.split()), (0, ["a#1", "b#2"]), "separator")
rc, out, err = ff("-S", "name", env={"FF_OPTIONS": "-e name=a#b -R"})
expect((rc, out.split()), (0, ["b", "a"]), "exclude")
'''),
 dict(id="s50-fallback-file", property="P23", needs="a qualified name whose plugin lacks the attribute but the file plugin has it",
  breaks="an unknown attribute of a plugin is taken for that of the file plugin",
  edits=[(RE, "        try:\n            return self.attributes[attribute]\n        except KeyError as exc:\n", "        try:\n            if attribute not in self.attributes and attribute.plugin in self.plugins:\n                return self.attributes[Attribute(\"file\", attribute.name)]\n            return self.attributes[attribute]\n        except KeyError as exc:\n")],
  demo='''
put("a", "1")
for args in ("grep.size+0",), ("-o", "grep.size"), ("-S", "ignore.name"), ("grep.foo=1",):
    rc, out, err = ff(*args)
    expect((rc, out), (11, ""), f"{args} {err}")
'''),
 dict(id="s51-root-split", property="P25", needs="a path directly below the root directory",
  breaks="the directory of an entry of the root directory is empty",
  edits=[("libff/path.py", "        return separator, path[1:]\n", "        return \"\", path[1:]\n")],
  demo='''
from libff.path import join, split
for path in "/a", "/a/b", "a", "a/b", "/.x", "a//b":
    expect(join(*split(path)), path, "join and split")
expect(split("/a"), ("/", "a"), "root")
'''),
 dict(id="s52-exec-any", property="P26", needs="a directory or link and the exec attribute",
  breaks="a file that only others may execute is not executable",
  edits=[(EN, "        return ((self.perm & stat.S_IXUSR) | (self.perm & stat.S_IXGRP) |\n                (self.perm & stat.S_IXOTH)) > 0\n", "        return self.perm & (stat.S_IXUSR | stat.S_IXGRP) > 0\n")],
  demo='''
put("a", "", 0o644); put("b", "", 0o645); put("c", "", 0o610); put("d", "", 0o100)
expect(names("exec=yes"), ["b", "c", "d"], "executable")
expect(names("exec=no"), ["a"], "not executable")
'''),
 dict(id="s53-week", property="P27", needs="a duration with hours and a following smaller unit",
  breaks="human readable durations of more than a day lose the days",
  edits=[(CV, "    hours = seconds // 3600\n", "    hours = seconds // 3600 % 24\n")],
  demo='''
sys.path.insert(0, REPO)
from libff.convert import format_duration, parse_duration
for n in 0, 59, 60, 3599, 3600, 86399, 86400, 86401, 1000000:
    expect(parse_duration(format_duration(n)), n, str(n))
'''),
 dict(id="s54-collapse-groups", property="P03", needs="NOT before a bracketed group that consists of nothing but another group or negation",
  breaks="NOT before a group that consists of a single group is dropped",
  edits=[(PA, "            if isinstance(seq, list):\n                self.optimize(seq)\n", "            if isinstance(seq, list):\n                self.optimize(seq)\n                # A group inside of a group needs no brackets.\n                while len(seq) == 1 and len(seq[0]) == 1 and isinstance(seq[0], list) and \\\n                        isinstance(seq[0][0], list):\n                    seq[:] = seq[0][0]\n")],
  demo='''
for n in "abc": put(n)
expect(names("NOT", "name=a"), ["b", "c"], "not")
expect(names("NOT", "(", "NOT", "name=a", ")"), ["a"], "double negation")
expect(names("NOT", "(", "(", "name=a", "OR", "name=b", ")", ")"), ["c"], "group")
expect(names("(", "(", "name=a", ")", "OR", "name=b", ")"), ["a", "b"], "nested")
'''),
 dict(id="s55-mount-start", property="P01", needs="-e with an attribute of a plugin that has no data for some entries",
  breaks="after an exclusion whose attribute an entry lacks, the other exclusions are not considered",
  edits=[(F, "                # Ignore entries that don't provide this attribute.\n                continue\n", "                # Ignore entries that don't provide this attribute.\n                return False\n")],
  demo='''
put("a.txt"); put("b.log"); os.makedirs(os.path.join(TREE, "d/e")); put("d/e/x.log"); put("d/y.txt")
os.symlink("b.log", os.path.join(TREE, "l.log"))
expect(names("-e", "link=b.log", "-e", "ext=log"), ["a.txt", "d", "d/e", "d/y.txt"], "two exclusions")
expect(names("-e", "grep.text=no", "-e", "name=d"), ["a.txt", "b.log", "l.log"], "directories")
'''),
 dict(id="s56-scan-break", property="P02", needs="a directory entry that vanishes or cannot be inspected during the search",
  breaks="an entry that has vanished ends the scan of its directory",
  edits=[(W, "                        # Do not warn about files that have vanished.\n                        continue\n", "                        # Do not warn about files that have vanished.\n                        break\n")],
  demo='''
for n in range(30): put(f"f{n:02}")
for n in range(30): os.symlink("missing", os.path.join(TREE, f"l{n:02}"))
expect(names("-L", "type=f"), [f"f{n:02}" for n in range(30)], "files")
'''),
 dict(id="s57-mode-sticky", property="P04", needs="a mode test with the setuid, setgid or sticky bit",
  breaks="the special bits are ignored when modes are compared",
  edits=[(TY, "        value = value & cls.MODE_ALL\n", "        value = value & 0o777\n")],
  demo='''
put("a", "", 0o644); put("b", "", 0o4644); put("c", "", 0o1644)
expect(names("type=f", "perm=644"), ["a"], "644")
expect(names("type=f", "perm=4644"), ["b"], "4644")
expect(names("type=f", "perm:1000"), ["c"], "sticky")
'''),
 dict(id="s58-smart-ascii", property="P05", needs="smart case and a pattern with an uppercase letter that is not ASCII",
  breaks="an uppercase letter that is not ASCII does not make smart case respect the case",
  edits=[(PA, "                ignore_case = value == value.lower()\n", "                ignore_case = re.search(\"[A-Z]\", value) is None\n")],
  demo='''
put("\u00e4"); put("\u00c4"); put("a"); put("A")
expect(names("-c", "smart", "name=a"), ["A", "a"], "lower")
expect(names("-c", "smart", "name=A"), ["A"], "upper")
expect(names("-c", "smart", "name=\u00e4"), ["\u00c4", "\u00e4"], "lower")
for t in "name=\u00c4", "name:\u00c4", "name~\u00c4", "name%\u00c4*":
    expect(names("-c", "smart", t), ["\u00c4"], "upper " + t)
'''),
]
