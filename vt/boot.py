"""Prepare an importable, freshly built larch from /repo's current working tree.

If the compiled extensions in /repo correspond to the present content of every
Cython source (the build script records their hashes in /repo/build/vp/built),
/repo itself is imported.  Otherwise /repo is copied to a scratch directory and
the out-of-date extensions are rebuilt there; /repo is never written to.
"""
import glob, hashlib, os, shutil, subprocess, sys, tempfile, time

REPO = os.environ.get("VT_REPO", "/repo")
PY = "/opt/venv/bin/python"


def base_env():
    e = dict(os.environ)
    e["PATH"] = "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin"
    e.update(PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", MPLBACKEND="agg",
             PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2", NUMBA_NUM_THREADS="2",
             OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             PIP_NO_INDEX="1", HYPOTHESIS_NO_PLUGINS="1")
    return e


def _sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def _cython_sources(root):
    """Same selection as the build script, relative to root."""
    try:
        out = subprocess.run(
            ["git", "-c", "safe.directory=*", "ls-files", "-co", "--exclude-standard", "--",
             "*.pyx", "*.pxd", "*.pxi", "setup.py"],
            cwd=root, capture_output=True, text=True, check=True).stdout.split("\n")
        names = [n for n in out if n]
    except Exception:
        names = []
    if not names:
        names = ["setup.py"]
        for ext in ("pyx", "pxd", "pxi"):
            names += [os.path.relpath(p, root) for p in glob.glob(f"{root}/larch/**/*.{ext}", recursive=True)]
    return {n: _sha(os.path.join(root, n)) for n in sorted(set(names)) if os.path.isfile(os.path.join(root, n))}


def _recorded(root):
    p = os.path.join(root, "build/vp/built")
    if not os.path.isfile(p):
        return None
    d = {}
    for line in open(p):
        line = line.rstrip("\n")
        if line:
            d[line[66:]] = line[:64]
    return d


def _have_all_so(root):
    for pyx in glob.glob(f"{root}/larch/**/*.pyx", recursive=True):
        if not glob.glob(pyx[:-4] + ".cpython*.so"):
            return False
    return True


def prepare(scratch, log):
    """Return (root to import larch from, description)."""
    cur = _cython_sources(REPO)
    rec = _recorded(REPO)
    if rec is not None and rec == cur and _have_all_so(REPO):
        return REPO, "extensions in /repo match its sources"
    root = os.path.join(scratch, "repo")
    subprocess.run(["cp", "-a", REPO, root], check=True)
    shutil.rmtree(os.path.join(root, ".git"), ignore_errors=True)
    now = time.time()
    if rec is None or not _have_all_so(REPO):
        changed = list(cur)
        extra = ["--force"]
    else:
        changed = [n for n in cur if rec.get(n) != cur[n]]
        extra = []
    for so in glob.glob(f"{root}/larch/**/*.so", recursive=True):
        if not os.path.exists(so.split(".cpython")[0] + ".pyx"):
            os.remove(so)
    for n in changed:
        os.utime(os.path.join(root, n), (now, now))
    t = time.time()
    r = subprocess.run([PY, "setup.py", "build_ext", "--inplace", "-j8"] + extra, cwd=root, env=base_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-4000:])
        raise RuntimeError("the extensions do not build")
    return root, f"rebuilt in scratch ({len(changed)} Cython sources differ from the last build, {time.time()-t:.0f} s)"


def numba_key(root):
    h = hashlib.sha256()
    for f in sorted(glob.glob(f"{root}/larch/numba/*.py")):
        h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def _cache_subpath(root):
    d = os.path.join(root, "larch/numba")
    return "numba_" + hashlib.sha1(d.encode()).hexdigest()


def numba_seed(scratch, root, log, ready=None):
    """Directory holding a warm numba cache for `root` (one copy per worker is made from it)."""
    seed = os.path.join(scratch, "numba-seed")
    os.makedirs(seed, exist_ok=True)
    src = os.path.join(REPO, "build/vp/numba-" + numba_key(root))
    have = False
    if os.path.isdir(src):
        subs = [d for d in os.listdir(src) if d.startswith("numba_")]
        for d in subs:
            dst = _cache_subpath(root) if d == _cache_subpath(REPO) else d
            shutil.copytree(os.path.join(src, d), os.path.join(seed, dst), copy_function=shutil.copy2)
            have = True
    t = time.time()
    env = base_env()
    env["NUMBA_CACHE_DIR"] = seed
    env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    env["XDG_CACHE_HOME"] = os.path.join(scratch, "xdg")
    r = subprocess.run([PY, "-c", f"import sys; sys.path.insert(0,{root!r}); import larch.numba"],
                       env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-4000:])
        raise RuntimeError("larch.numba does not import")
    return seed, f"numba cache {'found' if have else 'compiled'}, ready after {time.time()-t:.0f} s"


def hypothesis_path(scratch):
    """A directory with only hypothesis and what it needs, to go at the end of sys.path."""
    d = os.path.join(scratch, "hyp")
    os.makedirs(d, exist_ok=True)
    sp = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    for n in os.listdir(sp):
        if n in ("hypothesis", "sortedcontainers", "attr", "attrs") or n.startswith("_hypothesis"):
            if not os.path.lexists(os.path.join(d, n)):
                os.symlink(os.path.join(sp, n), os.path.join(d, n))
    return d
