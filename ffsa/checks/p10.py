"""P10: searching is read-only."""
import ast

from ..inventory import aliases, call_sites, dotted, name_uses, own_nodes, scopes
from ..lib import *
from ..report import new_state

EXPLANATION = (
    "Effect analysis over the inventory of every call and every name use of the program, resolved over "
    "imports, star imports and local aliases: each file opening is classified by its constant mode, "
    "each process start by its constant argument words (followed through helper functions) against a "
    "table of read-only invocations, each foreign function, database and file system primitive by an "
    "effect table. Commands of the user may only be started by the modules that execute -x and -X, the "
    "database is only opened by the cache.")

# (module prefix or name) primitives that change the file system
MUTATE = {
    "os": {"remove", "unlink", "rmdir", "removedirs", "rename", "renames", "replace", "mkdir",
           "makedirs", "chmod", "lchmod", "fchmod", "chown", "lchown", "fchown", "utime", "truncate",
           "ftruncate", "link", "symlink", "mkfifo", "mknod", "setxattr", "removexattr", "write",
           "pwrite", "pwritev", "writev", "chflags", "lchflags", "sendfile", "copy_file_range",
           "splice", "posix_fallocate"},
    "shutil": {"copy", "copy2", "copyfile", "copyfileobj", "copymode", "copystat", "copytree", "rmtree",
               "move", "chown", "make_archive", "unpack_archive"},
    "tempfile": {"mkstemp", "mkdtemp", "mktemp", "NamedTemporaryFile", "TemporaryFile",
                 "TemporaryDirectory", "SpooledTemporaryFile"},
    "shelve": {"open"}, "dbm": {"open"}, "py_compile": {"compile"},
    "compileall": {"compile_file", "compile_dir"},
}
RUN_ANY = {"os": {"system", "popen", "execl", "execle", "execlp", "execlpe", "execv", "execve", "execvp",
                  "execvpe", "spawnl", "spawnle", "spawnlp", "spawnlpe", "spawnv", "spawnve", "spawnvp",
                  "spawnvpe", "posix_spawn", "posix_spawnp", "startfile", "fork", "forkpty"},
           "pty": {"spawn", "fork"}, "subprocess": {"getoutput", "getstatusoutput"},
           "asyncio": {"create_subprocess_exec", "create_subprocess_shell"}}
SPAWN = {"subprocess.Popen", "subprocess.run", "subprocess.call", "subprocess.check_call",
         "subprocess.check_output"}
# method names that only make sense on paths, archives or files
METHODS = {"write_text", "write_bytes", "touch", "unlink", "rmdir", "symlink_to", "hardlink_to",
           "extractall", "lchmod", "rmtree", "removexattr", "setxattr", "dump_stats", "chmod", "mkdir",
           "truncate"}
OPENERS = {     # name -> (position of the mode, default)
    "builtins.open": (1, "r"), "io.open": (1, "r"), "codecs.open": (1, "r"), "os.fdopen": (1, "r"),
    "gzip.open": (1, "rb"), "bz2.open": (1, "rb"), "lzma.open": (1, "rb"), "tarfile.open": (1, "r"),
    "zipfile.ZipFile": (1, "r"), "tarfile.TarFile": (1, "r"), "gzip.GzipFile": (1, "rb"),
    "bz2.BZ2File": (1, "r"), "lzma.LZMAFile": (1, "r"), "io.FileIO": (1, "r"), "tarfile.TarFile.open": (1, "r"),
    "logging.FileHandler": (1, "a"), "tokenize.open": (None, "r"), "wave.open": (1, "rb"),
}
READ_MODES = {"r", "rb", "rt", "br", "tr", "r:", "r:*", "r|*", "r|", "r:gz", "r:bz2", "r:xz", "r|gz",
              "r|bz2", "r|xz", "rU", "U"}
GIT_READ = {"ls-files", "rev-parse", "cat-file", "log", "show", "ls-tree", "check-ignore", "rev-list",
            "symbolic-ref", "for-each-ref", "check-attr", "describe", "blame", "shortlog", "show-ref",
            "diff-tree", "ls-remote", "grep", "version", "name-rev", "merge-base", "var"}
GIT_LOCKS = {"status", "diff"}          # refresh the index unless told otherwise
GIT_WRITE = {"add", "commit", "checkout", "reset", "gc", "update-index", "stash", "clean", "rm", "mv",
             "merge", "fetch", "pull", "push", "init", "clone", "restore", "switch", "apply", "am",
             "rebase", "prune", "repack", "pack-refs", "update-ref", "write-tree", "read-tree",
             "checkout-index", "maintenance", "cherry-pick", "revert", "bisect", "fsck", "hash-object"}
C_READ = {"statfs64", "statfs", "statvfs", "statvfs64", "fstatfs", "fstatfs64", "stat", "lstat", "access",
          "getxattr", "listxattr", "strerror", "getpwuid", "getgrgid", "readlink", "realpath", "statx"}
C_WRITE = {"unlink", "remove", "rename", "rmdir", "mkdir", "chmod", "chown", "link", "symlink", "open",
           "open64", "creat", "write", "truncate", "system", "execv", "execve", "fopen", "utime",
           "utimensat", "setxattr", "removexattr", "sync", "fsync", "mount", "umount"}


def run(r):
    r.rule("R1", "files are only opened for reading")
    r.rule("R2", "no primitive that creates, changes, renames or deletes files is used")
    r.rule("R3", "only the executors of -x and -X and documented read-only helpers start programs")
    r.rule("R4", "only the cache opens a database, and only with the statements of the cache")
    r.rule("R5", "foreign functions are read-only")
    r.rule("R6", "effects are not hidden behind dynamic lookup or generated code")
    r.floor = 60
    p = r.p
    sites = call_sites(p)
    r.sites |= {(s.where) for s in sites}
    r.funcs |= {s.scope for s in sites}
    opens(r, p, sites)
    primitives(r, p, sites)
    spawns(r, p, sites)
    database(r, p, sites)
    foreign(r, p)
    dynamic(r, p, sites)


def short_src(n, k=70):
    return ast.unparse(n)[:k]


# ------------------------------------------------------------------ constant folding through helpers
def const_texts(p, m, fnode, e, depth=0):
    """Possible constant values of an expression (list), or None if it is not known."""
    if e is None or depth > 5:
        return None
    if isinstance(e, ast.Constant):
        return [e.value]
    if isinstance(e, ast.IfExp):
        a, b = (const_texts(p, m, fnode, x, depth + 1) for x in (e.body, e.orelse))
        return None if a is None or b is None else a + b
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = (const_texts(p, m, fnode, x, depth + 1) for x in (e.left, e.right))
        if a is None or b is None or not all(isinstance(x, str) for x in a + b):
            return None
        return [x + y for x in a for y in b]
    if isinstance(e, ast.Name):
        if isinstance(fnode, (ast.FunctionDef, ast.AsyncFunctionDef)):
            vals, param = local_values(fnode, e.id)
            if param is not None:
                out = [] if param[1] is None else const_texts(p, m, None, param[1], depth + 1)
                if out is None:
                    return None
                n = 0
                for s in callers(p, fnode):
                    a = passed(s, fnode, param[0])
                    if a is None:
                        continue
                    n += 1
                    v = const_texts(p, s.module, scope_node(p, s), a, depth + 1)
                    if v is None:
                        return None
                    out = out + v
                return out or None
            if vals:
                out = []
                for v in vals:
                    x = const_texts(p, m, fnode, v, depth + 1) if isinstance(v, ast.expr) else None
                    if x is None:
                        return None
                    out += x
                return out
        r_ = p.resolve_global(m, e.id)
        if r_ and r_[0] == "var":
            vals = r_[1].assigns.get(r_[2], ())
            if len(vals) == 1:
                return const_texts(p, r_[1], None, vals[0], depth + 1)
        return None
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ("self", "cls"):
        out = []
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                for b in n.body:
                    if isinstance(b, ast.Assign) and any(
                            isinstance(t, ast.Name) and t.id == e.attr for t in b.targets):
                        v = const_texts(p, m, None, b.value, depth + 1)
                        if v is None:
                            return None
                        out += v
            elif isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Attribute) and t.attr == e.attr for t in n.targets):
                v = const_texts(p, m, None, n.value, depth + 1)
                if v is None:
                    return None
                out += v
        return out or None
    return None


def local_values(fnode, name):
    """(assigned values, (parameter, default) or None)"""
    a = fnode.args
    pos = a.posonlyargs + a.args
    par = None
    for i, x in enumerate(pos):
        if x.arg == name:
            d = a.defaults[i - (len(pos) - len(a.defaults))] if i >= len(pos) - len(a.defaults) else None
            par = (name, d)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            par = (name, d)
    vals = []
    for n in own_nodes(fnode):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    vals.append(n.value)
                elif any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(t)) and \
                        isinstance(t, (ast.Tuple, ast.List)):
                    vals.append(None)
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and \
                n.target.id == name and n.value is not None:
            vals.append(n.value)
        elif isinstance(n, (ast.For, ast.comprehension, ast.AugAssign)) and any(
                isinstance(y, ast.Name) and y.id == name for y in ast.walk(n.target)):
            vals.append(None)
    if vals:
        return vals, None
    return [], par


_SITES = {}


def callers(p, fnode):
    if id(p) not in _SITES:
        _SITES.clear()
        _SITES[id(p)] = call_sites(p)
    cls = None
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef) and fnode in n.body:
                cls = n.name
    name = fnode.name
    out = []
    for s in _SITES[id(p)]:
        f = s.node.func
        t = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if t == name or name == "__init__" and t is not None and (t == cls):
            out.append(s)
    return out


def scope_node(p, site):
    for scope, node in scopes(site.module):
        if scope == site.scope:
            return node
    return None


def passed(site, fnode, name):
    """The expression a call passes for a parameter."""
    a = fnode.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if pos and pos[0] in ("self", "cls"):
        pos = pos[1:]
    if name in pos:
        return site.arg(pos.index(name), name)
    return site.arg(None, name)


# ------------------------------------------------------------------ R1
def opens(r, p, sites):
    for s in sites:
        sub = f"{s.scope}: {short_src(s.node)}"
        fnode = scope_node(p, s)
        if s.name in OPENERS:
            pos, default = OPENERS[s.name]
            e = s.arg(pos, "mode")
            if e is None and any(k.arg is None for k in s.node.keywords) or \
                    any(isinstance(a, ast.Starred) for a in s.node.args):
                r.skip("R1", sub, "arguments are not known")
                continue
            vals = [default] if e is None else const_texts(p, s.module, fnode, e)
            if vals is None:
                r.skip("R1", sub, "the mode is not a constant")
                continue
            wrong = [v for v in vals if v not in READ_MODES]
            r.check(not wrong, "R1", sub, f"a file is opened with mode {wrong[:1]}", s.where)
        elif s.name == "os.open":
            e = s.arg(1, "flags")
            names = {x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute)} if e is not None else set()
            write = names & {"O_WRONLY", "O_RDWR", "O_CREAT", "O_TRUNC", "O_APPEND", "O_TMPFILE"}
            if write or "O_RDONLY" in names:
                r.check(not write, "R1", sub, f"a file is opened with {sorted(write)}", s.where)
            else:
                r.skip("R1", sub, "the flags are not known")
        elif s.method == "open" and s.name is None:
            e = s.arg(0, "mode")
            if isinstance(e, ast.Constant) and isinstance(e.value, str) and set(e.value) <= set("rwaxbt+U") \
                    and set(e.value) & set("wax+"):
                r.bad("R1", sub, f"a file is opened with mode {e.value!r}", s.where)


# ------------------------------------------------------------------ R2
def effect_of(name, table):
    mod, _, fn = name.rpartition(".")
    mod = {"posix": "os", "nt": "os"}.get(mod, mod)
    return fn in table.get(mod, ())


def primitives(r, p, sites):
    called = {id(s.node.func) for s in sites}
    for name, node, scope, m in name_uses(p):
        sub = f"{scope}: {name}"
        if effect_of(name, MUTATE):
            r.bad("R2", sub, f"{name} changes the file system", f"{m.rel}:{node.lineno} ({scope})")
        elif effect_of(name, RUN_ANY):
            par = p.parent_map(m).get(node)
            if isinstance(par, ast.Call) and par.func is node and par.args and \
                    dotted(p, m, par.args[0]) == "sys.executable":
                r.ok("R3", sub)     # the interpreter starts itself
                continue
            r.bad("R3", sub, f"{name} starts a program", f"{m.rel}:{node.lineno} ({scope})")
        elif name.startswith(("os.", "shutil.", "tempfile.")):
            r.ok("R2", sub)
        elif name in SPAWN and id(node) not in called:
            par = p.parent_map(m).get(node)
            if isinstance(par, ast.Assign):
                continue        # an alias, resolved at its calls
            r.skip("R3", sub, "a function that starts programs is used as a value")
        elif name == "builtins.open" and id(node) not in called:
            par = p.parent_map(m).get(node)
            if not isinstance(par, ast.Assign):
                r.skip("R1", sub, "open is used as a value")
    own = {}
    for ci in p.classes.values() if hasattr(p, "classes") else ():
        for n in ci.methods:
            own.setdefault(n, ci)
    for s in sites:
        if s.method in METHODS and s.name is None and s.method not in own:
            r.bad("R2", f"{s.scope}: {short_src(s.node)}", f".{s.method}() changes the file system",
                  s.where)
        elif s.name and s.name.startswith("pathlib."):
            r.ok("R2", f"{s.scope}: {short_src(s.node)}")


# ------------------------------------------------------------------ R3
EXECUTORS = ("libff.context", "libff.processing")


def argv(p, m, fnode, e, depth=0):
    """Alternatives of the words of a command: each a list of str or None (unknown word); an unknown
    number of words is written as Ellipsis. None if nothing is known."""
    if depth > 5 or e is None:
        return None
    if isinstance(e, (ast.List, ast.Tuple)):
        alts = [[]]
        for x in e.elts:
            if isinstance(x, ast.Starred):
                sub = argv(p, m, fnode, x.value, depth + 1)
                if sub is None:
                    sub = [[...]]
                alts = [a + b for a in alts for b in sub]
            else:
                vals = const_texts(p, m, fnode, x)
                alts = [a + [v if isinstance(v, str) else None] for a in alts
                        for v in (vals if vals else [None])]
            if len(alts) > 64:
                return None
        return alts
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = argv(p, m, fnode, e.left, depth + 1), argv(p, m, fnode, e.right, depth + 1)
        if a is None:
            return None
        return [x + y for x in a for y in (b if b is not None else [[...]])]
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple") and e.args:
        return argv(p, m, fnode, e.args[0], depth + 1)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "split" and \
            isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str):
        return [e.func.value.value.split()]
    if isinstance(e, ast.Name) and isinstance(fnode, (ast.FunctionDef, ast.AsyncFunctionDef)):
        va = fnode.args.vararg
        if va is not None and va.arg == e.id:
            n = len([x for x in fnode.args.posonlyargs + fnode.args.args if x.arg not in ("self", "cls")])
            out = []
            for s in callers(p, fnode):
                rest = ast.List(elts=list(s.node.args[n:]), ctx=ast.Load())
                v = argv(p, s.module, scope_node(p, s), rest, depth + 1)
                if v is None:
                    return None
                out += v
            return out or None
        vals, par = local_values(fnode, e.id)
        added = [n for n in own_nodes(fnode) if isinstance(n, ast.AugAssign) and
                 isinstance(n.target, ast.Name) and n.target.id == e.id and isinstance(n.op, ast.Add)]
        for n in added:
            vals.remove(None)
        if vals and added:
            x = argv(p, m, fnode, vals[0], depth + 1) if len(vals) == 1 and \
                isinstance(vals[0], ast.expr) else None
            if x is None:
                return None
            for n in sorted(added, key=lambda n: n.lineno):
                b = argv(p, m, fnode, n.value, depth + 1) or [[...]]
                x = [i + j for i in x for j in b]
            return x
        if vals:
            out = []
            for v in vals:
                x = argv(p, m, fnode, v, depth + 1) if isinstance(v, ast.expr) else None
                if x is None:
                    return None
                out += x
            # words appended later on
            for n in own_nodes(fnode):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        isinstance(n.func.value, ast.Name) and n.func.value.id == e.id and \
                        n.func.attr in ("append", "extend", "insert"):
                    out = [a + [...] for a in out]
            return out
        if par is not None:
            out = []
            for s in callers(p, fnode):
                a = passed(s, fnode, e.id)
                v = argv(p, s.module, scope_node(p, s), a, depth + 1) if a is not None else None
                if v is None:
                    return None
                out += v
            return out or None
    if isinstance(e, ast.Name):
        r_ = p.resolve_global(m, e.id)
        if r_ and r_[0] == "var":
            vals = r_[1].assigns.get(r_[2], ())
            if len(vals) == 1:
                return argv(p, r_[1], None, vals[0], depth + 1)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ("self", "cls"):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                for b in n.body:
                    if isinstance(b, ast.Assign) and any(
                            isinstance(t, ast.Name) and t.id == e.attr for t in b.targets):
                        return argv(p, m, None, b.value, depth + 1)
    return None


def git_verdict(words, env_safe):
    """(ok | bad | None, why) of one git command line."""
    sub, i, nolock = None, 1, env_safe
    while i < len(words):
        w = words[i]
        if w is ... or w is None:
            return None, "the git command is not known"
        if w == "--no-optional-locks":
            nolock = True
        if w in ("-C", "-c", "--git-dir", "--work-tree", "--namespace", "--exec-path"):
            i += 2
            continue
        if not w.startswith("-"):
            sub = w
            break
        i += 1
    if sub is None:
        return None, "no git command"
    if sub in GIT_WRITE:
        return False, f"git {sub} changes the repository"
    if sub in GIT_LOCKS:
        return nolock, f"git {sub} without --no-optional-locks rewrites the index of the repository"
    if sub in GIT_READ:
        return True, ""
    return None, f"git {sub} is not classified"


def verdict(words, env_safe, module):
    if not words or words[0] is None or words[0] is ...:
        if module in EXECUTORS:
            return True, "the command of the user"
        return None, "the program is not known"
    prog = words[0].rsplit("/", 1)[-1]
    if prog == "git":
        return git_verdict(words, env_safe)
    if prog == "pacman":
        w = words[1] if len(words) > 1 else None
        if not isinstance(w, str):
            return None, "the pacman operation is not known"
        if w.startswith(("-Q", "--query", "-F", "-T")):
            return True, ""
        return False, f"pacman {w} is no query"
    if prog == "man":
        return True, ""
    if prog in ("sh", "bash", "env", "rm", "touch", "mv", "cp", "chmod", "chown", "ln", "mkdir", "tee",
                "dd", "sed", "find", "xargs", "python", "python3", "perl"):
        return False, f"{prog} is started"
    if module in EXECUTORS:
        return False, f"a program of its own is started: {prog}"
    return None, f"the program {prog} is not classified"


def spawns(r, p, sites):
    for s in sites:
        if s.name not in SPAWN:
            continue
        sub = f"{s.scope}: {short_src(s.node, 50)}"
        shell = s.arg(None, "shell")
        if shell is not None and not (isinstance(shell, ast.Constant) and not shell.value):
            r.bad("R3", sub, "a shell is started", s.where)
            continue
        fnode = scope_node(p, s)
        a = s.arg(0, "args")
        env = s.arg(None, "env")
        env_safe = env is not None and "GIT_OPTIONAL_LOCKS" in ast.unparse(env)
        alts = argv(p, s.module, fnode, a)
        for words in alts if alts is not None else [[None]]:
            ok, why = verdict(words, env_safe, s.module.name)
            text = " ".join("…" if w is ... else w or "?" for w in words)
            if ok is None:
                r.skip("R3", f"{sub} [{text}]", why)
            else:
                r.check(ok, "R3", f"{sub} [{text}]", why, s.where)
        for k in s.node.keywords:
            if k.arg in ("stdout", "stderr") and isinstance(k.value, ast.Call) and \
                    dotted(p, s.module, k.value.func) == "builtins.open":
                pass        # judged as an opening of a file


# ------------------------------------------------------------------ R4
READ_SQL = ("select", "pragma table_info")


def database(r, p, sites):
    for s in sites:
        if s.name in ("sqlite3.connect", "sqlite3.dbapi2.connect", "sqlite3.Connection"):
            r.check(s.module.name == "libff.cache", "R4", f"{s.scope}: {short_src(s.node)}",
                    "a database is opened outside of the cache", s.where)
        elif s.method in ("execute", "executemany", "executescript") and s.name is None:
            r.check(s.module.name == "libff.cache", "R4", f"{s.scope}: {short_src(s.node)}",
                    "a statement is executed outside of the cache", s.where)


# ------------------------------------------------------------------ R5
def foreign(r, p):
    for m in p.modules.values():
        libs = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                f = n.value.func
                last = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
                if last in ("CDLL", "PyDLL", "WinDLL", "LoadLibrary"):
                    libs |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in libs:
                sub = f"{m.name}: {n.value.id}.{n.attr}"
                where_ = f"{m.rel}:{n.lineno}"
                if n.attr in C_WRITE:
                    r.bad("R5", sub, f"the C function {n.attr} changes the file system", where_)
                elif n.attr in C_READ or n.attr.startswith("_"):
                    r.ok("R5", sub)
                else:
                    r.skip("R5", sub, "not classified")


# ------------------------------------------------------------------ R6
def dynamic(r, p, sites):
    for s in sites:
        sub = f"{s.scope}: {short_src(s.node)}"
        if s.name in ("builtins.eval", "builtins.exec", "builtins.__import__"):
            r.skip("R6", sub, "generated code")
        elif s.name in ("builtins.getattr",) and s.node.args:
            d = dotted(p, s.module, s.node.args[0], aliases(p, s.module, scope_node(p, s)))
            if d in ("os", "shutil", "subprocess", "posix", "tempfile", "pathlib"):
                vals = const_texts(p, s.module, scope_node(p, s), s.arg(1, "name"))
                if vals is None:
                    r.skip("R6", sub, f"a function of {d} is looked up by name")
                    continue
                bad = [v for v in vals if effect_of(f"{d}.{v}", MUTATE) or
                       effect_of(f"{d}.{v}", RUN_ANY)]
                r.check(not bad, "R6", sub, f"{d}.{bad[:1]} changes the file system", s.where)
        elif s.name == "importlib.import_module":
            r.ok("R6", sub)
