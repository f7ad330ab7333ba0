W, F, PA, TY, CT, PR, AR = ("libff/walk.py", "libff/filter.py", "libff/parser.py", "libff/type.py",
                            "libff/context.py", "libff/processing.py", "libff/arguments.py")
FI, MA, CO, CA, IG, EN, RE, AP, CV, PL, FD = (
    "libff/field.py", "libff/main.py", "libff/console.py", "libff/cache.py", "libff/ignore.py", "libff/entry.py",
    "libff/registry.py", "libff/argparse.py", "libff/convert.py", "libff/plugin.py", "libff/find.py")
STUB = '''
class Any:
    def __init__(self, **kw): self.__dict__.update(kw)
'''
S = [
 dict(id="s59-question-slash", property="P28", needs="a pattern with a question mark that is tied to the path, and a name that matches with a slash in its place",
  breaks="a question mark in an ignore pattern also matches a slash",
  edits=[(IG, '                part = "[^/]"\n', '                part = "."\n')],
  demo='''
for f in "a/b", "axb", "c/a/b":
    put(f)
put(".gitignore", "/a?b\\n")
expect(names("-I", "type=f", "name=b", "OR", "name=axb"), ["a/b", "c/a/b"], "question mark")
'''),
 dict(id="s61-hash-start", property="P31", needs="a file of more than a mebibyte",
  breaks="only the first mebibyte of a file is hashed",
  edits=[("plugins/hash.py", "                while buf := fobj.read(8192):\n                    h.update(buf)\n", "                h.update(fobj.read(1 << 20))\n")],
  demo='''
import hashlib
data = bytes(range(256)) * 6000
put("large", data)
put("small", data[:1000])
ENV["FF_PLUGIN_DIRS"] = os.path.join(REPO, "plugins")
expect(names("--no-cache", "type=f", "-o", "name,sha256", "--sort"),
       ["large " + hashlib.sha256(data).hexdigest(), "small " + hashlib.sha256(data[:1000]).hexdigest()], "hash")
'''),
 dict(id="s62-git-prefix", property="P31", needs="a directory without tracked files whose name is the beginning of the name of one with tracked files",
  breaks="a directory is taken for tracked if its name is the beginning of a tracked path",
  edits=[("plugins/git.py", "                    abspath = entry.abspath + os.sep\n", "                    abspath = entry.abspath\n")],
  demo='''
put("doc/x")
put("docs/y")
ENV.update(GIT_CONFIG_NOSYSTEM="1", GIT_CEILING_DIRECTORIES=TMP)
for c in ["init", "-q"], ["add", "docs/y"]:
    subprocess.run(["git", *c], cwd=TREE, env=ENV, check=True, capture_output=True)
ENV["FF_PLUGIN_DIRS"] = os.path.join(REPO, "plugins")
expect(names("git.tracked=yes", "hidden=no"), ["docs", "docs/y"], "tracked")
'''),
 dict(id="s63-py-toplevel", property="P31", needs="an import inside of a function",
  breaks="imports inside of functions are not reported",
  edits=[("plugins/introspect.py", "for node in ast.walk(ast.parse(data)):", "for node in ast.parse(data).body:")],
  demo='''
put("a.py", "import os\\ndef f():\\n    import shutil\\n")
put("b.py", "import shutil\\n")
ENV["FF_PLUGIN_DIRS"] = os.path.join(REPO, "plugins")
expect(names("imports=shutil"), ["a.py", "b.py"], "imports")
'''),
 dict(id="s64-last-line", property="P31", needs="a text file without a newline at its end",
  breaks="a last line without a newline is not counted",
  edits=[("libff/builtin/grep.py", 'yield "linecount", len(lines)', 'yield "linecount", sum(line.endswith("\\n") for line in lines)')],
  demo='''
put("a", "1\\n2\\n3")
put("b", "1\\n2\\n")
put("c", "1")
expect(names("type=f", "-o", "name,linecount"), ["a 3", "b 2", "c 1"], "linecount")
'''),
 dict(id="s65-tar-ext", property="P31", needs="an archive compressed with bzip2",
  breaks="archives with the extension .tar.bz2 are no longer looked into",
  edits=[("plugins/tar.py", '".tar.bz2"', '".tar.bz"')],
  demo='''
import tarfile
for n, mode in ("x.tar.gz", "w:gz"), ("y.tgz", "w:gz"), ("z.tar.bz2", "w:bz2"), ("w.tar", "w"):
    with tarfile.open(put(n), mode) as tar:
        tar.addfile(tarfile.TarInfo("d/f"))
ENV["FF_PLUGIN_DIRS"] = os.path.join(REPO, "plugins")
expect(names("--no-cache", "members=d/f"), ["w.tar", "x.tar.gz", "y.tgz", "z.tar.bz2"], "archives")
'''),
 dict(id="s66-range-skipped", property="P09", needs="a list of depth ranges one of which is invalid",
  breaks="invalid ranges in a list are silently left out",
  edits=[(AP, '        match = regex_range.match(range_)\n        if match is None:\n            raise ValueError("invalid range")\n', '        match = regex_range.match(range_)\n        if match is None and segments:\n            continue\n        elif match is None:\n            raise ValueError("invalid range")\n')],
  demo='''
put("a/b")
rc, out, err = ff("-d", "0,1x")
expect((rc, out, bool(err)), (2, "", True), "invalid range")
expect(ff("-d", "0,1-x")[0], 2, "invalid range")
expect(names("-d", "0,1"), ["a", "a/b"], "range")
'''),
 dict(id="s67-group-number", property="P14", needs="a file whose group has no name",
  breaks="the group of a file is a number if it has no name",
  edits=[(EN, '                self._grp_cache[gid] = ""\n', '                self._grp_cache[gid] = gid\n')],
  demo='''
path = put("a")
put("b")
os.chown(path, -1, 54321)
for opts in (), ("-O",):
    rc, out, err = ff("--json", "-o", "name,group", "--sort", opts=opts)
    expect(rc, 0, "status")
    expect([isinstance(d["group"], str) for d in json.loads(out)], [True, True], "type of the group")
'''),
 dict(id="s70-split-rest", property="P07", needs="a command line that has to be split twice in a row",
  breaks="entries are not passed to any command if the list had to be split more than once",
  edits=[(PR, "                        remainder = entries[split:] + remainder\n", "                        remainder = entries[split:]\n")],
  demo='''
for i in range(80):
    put("x" * 100 + str(i))
out = os.path.join(TMP, "out")
rc, _, err = ff("type=f", "-X", "sh", "-c", 'echo $# >> "$0"', out, "{}" * 1000)
expect((rc, err), (0, ""), "status")
with open(out) as f:
    expect(sum(map(int, f)), 80, "arguments")
'''),

 dict(id="s71-fail-count", property="P32", needs="--fail together with --count and at least one result",
  breaks="a search with results that only counts them fails with --fail",
  edits=[(PR, "        if self.entries:\n            self.context.set_has_result()", "        if self.args.count is None and self.entries:\n            self.context.set_has_result()")],
  demo='''
put("a")
put("b/c")
expect(ff("--fail", "--count", "size", "type=f")[0], 0, "status with results")
expect(ff("--fail", "--count", "size", "name=zz")[0], 1, "status without results")
expect(ff("--fail", "--sort", "name", "type=f")[0], 0, "status with results")
'''),
 dict(id="s72-fail-chunks", property="P32", needs="results in more than one chunk",
  breaks="a search that reports its results more than once counts as one without results",
  edits=[(CT, "self._has_result.value = 1", "self._has_result.value += 1")],
  demo='''
put("a")
expect(ff("--fail", "type=f")[0], 0, "one result")
for i in range(30):
    put(f"d{i}/f")
expect(ff("--fail", "type=f")[0], 0, "results in many directories")
expect(ff("--fail", "name=zz")[0], 1, "no results")
'''),
 dict(id="s73-assert-token", property="P13", needs="an empty word among the tests",
  breaks="an empty word is refused by an assertion only",
  edits=[(PA, "            if token in self.OPENING_BRACKETS:\n", "            assert self.tokens is not None and isinstance(token, str) and token.strip()\n            if token in self.OPENING_BRACKETS:\n")],
  demo='''
put("a")
one = ff("", "name=a")
two = ff("", "name=a", opts=("-O",))
expect(one[:2], two[:2], "outcome with and without -O")
'''),
 dict(id="s74-realroot", property="P25", needs="a start directory that is a symbolic link",
  breaks="absolute paths are those of the directory the start directory points to, so ignore patterns of parents do not fit",
  edits=[(EN, "self.absroot = os.path.abspath(root)", "self.absroot = os.path.realpath(root)")],
  demo='''
put("real/a")
put("real/b")
put(".gitignore", "/link/a")
os.symlink("real", os.path.join(TREE, "link"))
expect(names("-D", "link", "-I"), ["link/b"], "pattern for a path below the link")
'''),
 dict(id="s75-page", property="P21", needs="a limit given as page size and page",
  breaks="the last result of every page is left out",
  edits=[(AP, "stop = pagesize * (page + 1)", "stop = start + max(1, pagesize - page)")],
  demo='''
for n in "abcdefgh":
    put(n)
expect(names("--sort", "name", "--limit", "3,0", "type=f"), ["a", "b", "c"], "first page")
expect(names("--sort", "name", "--limit", "3,1", "type=f"), ["d", "e", "f"], "second page")
'''),

 dict(id="s76-splitlines", property="P31", needs="a text file with a line separator other than a newline, e.g. a form feed",
  breaks="lines are also split at form feeds and other separators",
  edits=[("libff/builtin/grep.py", "lines = fobj.readlines()", "lines = fobj.read().splitlines(keepends=True)")],
  demo='''
put("a", "one\\x0ctwo\\nthree\\n")
expect(names("grep.linecount=2"), ["a"], "number of lines")
expect(names("grep.lines~^one.two"), ["a"], "first line")
'''),
 dict(id="s79-count-stops", property="P15", needs="--count with several attributes, the first of which an entry does not have",
  breaks="attributes after a missing one are not counted",
  edits=[(PR, "                except KeyError:\n                    continue\n\n                if field.type.count", "                except KeyError:\n                    break\n\n                if field.type.count")],
  demo='''
put("a", "12345")
os.symlink("a", os.path.join(TREE, "l"))
rc, out, _ = ff("--count", "link,type")
expect((rc, sorted(out.split())), (0, ["_total=2", "link[a]=1", "type[file]=1", "type[symlink]=1"]), "count")
'''),
]
