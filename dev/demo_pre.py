import atexit, contextlib, io, json, os, shutil, subprocess, sys, tempfile
REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
TMP = tempfile.mkdtemp(prefix="ffdemo.")
atexit.register(shutil.rmtree, TMP, True)
HOME = os.path.join(TMP, "home")
TREE = os.path.join(TMP, "tree")
os.makedirs(os.path.join(HOME, ".cache"))
os.makedirs(TREE)
ENV = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "FF_", "LS_COLORS"))}
ENV.update(HOME=HOME, PYTHONPATH=REPO, LANG="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1")


def put(path, data=b"", mode=None):
    path = os.path.join(TREE, path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    if mode is not None:
        os.chmod(path, mode)
    return path


def ff(*args, cwd=TREE, opts=(), env=None, timeout=120):
    r = subprocess.run([sys.executable, *opts, "-m", "ff", *args], cwd=cwd, env=dict(ENV, **(env or {})),
                       stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="surrogateescape",
                       timeout=timeout)
    return r.returncode, r.stdout, r.stderr


def names(*args, **kw):
    rc, out, err = ff(*args, **kw)
    return sorted(out.split("\n")[:-1])


def expect(got, want, what):
    if got != want:
        print(f"{what}: got {got!r}, expected {want!r}")
        sys.exit(1)


