"""Build /repo's current working tree out of tree.

The source files of the package are copied into /verif/.cache/build-<hash> and
the four extensions are compiled there with the repository's own setup.py, so
/repo is never written to.  The hash covers every source file, hence a changed
tree is always compiled again and an unchanged one is compiled once.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
VENVPY = "/opt/venv/bin/python"


class BuildError(RuntimeError):
    pass


def base_env():
    """The environment of /opt/vp/lib/env.sh, without PYTHONPATH."""
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("PYTHON", "OMPI_", "CFLAGS", "LDFLAGS"))}
    e.pop("CC", None)
    e.update(
        HOME="/root", LANG="C.UTF-8",
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        NUMBA_NUM_THREADS="1", TMPDIR="/tmp",
        OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_mpi_yield_when_idle="1",
        OMPI_MCA_plm="isolated", OMPI_MCA_btl="self,vader",
        OMPI_MCA_btl_vader_single_copy_mechanism="none",
        OMPI_MCA_pml="ob1", OMPI_MCA_oob_tcp_if_include="lo",
        OMPI_MCA_hwloc_base_binding_policy="none",
    )
    return e


SRC_EXT = (".py", ".pyx", ".pxd", ".c", ".h", ".pxi", ".toml", ".cfg", ".in")


def source_files():
    """Relative paths of everything the build reads, generated files excluded."""
    out = []
    for top in ("setup.py", "pyproject.toml", "MANIFEST.in", "README.rst"):
        if os.path.exists(os.path.join(REPO, top)):
            out.append(top)
    for root, dirs, files in os.walk(os.path.join(REPO, "pmesh")):
        dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", "tests"))
        rel = os.path.relpath(root, REPO)
        names = set(files)
        for f in sorted(files):
            if not f.endswith(SRC_EXT):
                continue
            stem, ext = os.path.splitext(f)
            if ext in (".c", ".cpp") and stem + ".pyx" in names:
                continue            # generated by cython
            out.append(os.path.join(rel, f))
    return out


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def ext_key(files):
    h = hashlib.sha256()
    for f in files:
        if f.endswith((".pyx", ".pxd", ".c", ".h", ".pxi")) or f == "setup.py":
            h.update(f.encode() + b"\0")
            with open(os.path.join(REPO, f), "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def _prune(keep):
    """Keep at most six builds."""
    ds = []
    for d in os.listdir(CACHE):
        p = os.path.join(CACHE, d)
        if d.startswith(("build-", "ext-")) and os.path.isdir(p) and p not in keep:
            ds.append((os.path.getmtime(p), p))
    ds.sort()
    now = time.time()
    for t, p in ds[:-8]:
        if now - t > 3600:
            shutil.rmtree(p, ignore_errors=True)


def build():
    """Return the directory to put on PYTHONPATH."""
    os.makedirs(CACHE, exist_ok=True)
    files = source_files()
    key = tree_hash(files)
    dest = os.path.join(CACHE, "build-" + key)
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, ".done")):
            os.utime(dest)
            return dest
        shutil.rmtree(dest, ignore_errors=True)
        for f in files:
            p = os.path.join(dest, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), p)
        extdir = os.path.join(CACHE, "ext-" + ext_key(files))
        if not os.path.exists(os.path.join(extdir, ".done")):
            _compile(dest)
            shutil.rmtree(extdir, ignore_errors=True)
            os.makedirs(extdir)
            for f in os.listdir(os.path.join(dest, "pmesh")):
                if f.endswith(".so"):
                    shutil.copy2(os.path.join(dest, "pmesh", f), extdir)
            open(os.path.join(extdir, ".done"), "w").close()
            shutil.rmtree(os.path.join(dest, "build"), ignore_errors=True)
        else:
            os.utime(extdir)
            for f in os.listdir(extdir):
                if f.endswith(".so"):
                    shutil.copy2(os.path.join(extdir, f), os.path.join(dest, "pmesh"))
        open(os.path.join(dest, ".done"), "w").close()
        _prune({dest, extdir})
    return dest


def _compile(dest):
    env = base_env()
    env["PYTHONPATH"] = dest
    pyx = [f for f in os.listdir(os.path.join(dest, "pmesh")) if f.endswith(".pyx")]
    # cythonize in setup.py is serial; translating in parallel first halves the time.
    # setup.py then finds the .c files newer than the .pyx ones.
    ps = [subprocess.Popen([VENVPY, "-c",
                            "import sys; from Cython.Build import cythonize; "
                            "cythonize([sys.argv[1]], quiet=True)", "pmesh/" + f],
                           cwd=dest, env=env, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL) for f in pyx]
    for p in ps:
        p.wait()
    r = subprocess.run([VENVPY, "setup.py", "build_ext", "--inplace", "-j", "8"],
                       cwd=dest, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("the build of %s failed:\n%s" % (REPO, r.stdout[-4000:]))


if __name__ == "__main__":
    t = time.time()
    print(build(), "%.1fs" % (time.time() - t))
