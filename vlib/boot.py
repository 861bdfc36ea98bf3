"""Binds the checks to /repo's current working tree.

Python code is imported from REPO itself.  The three native extensions are used in place when
they were built from the current sources (content stamp written by the build), otherwise they
are rebuilt from the current sources into a scratch directory and loaded from there.
"""
import glob, hashlib, importlib.machinery, importlib.util, os, shutil, subprocess, sys, sysconfig, tempfile, atexit

REPO = os.environ.get("SMTVERIF_REPO", "/repo")
LIBS = {
    "idw": ["idw.cpp"],
    "rbf": ["rbf.cpp"],
    "rmts": ["utils.cpp", "rmts.cpp", "rmtb.cpp", "rmtc.cpp"],
}
SUFFIX = ".cpython-312-x86_64-linux-gnu.so"
_scratch = None
_owner = None


def scratch():
    """Scratch directory of this run, removed at exit."""
    global _scratch, _owner
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="smtverif-")
        _owner = os.getpid()
        atexit.register(_clean)
    return _scratch


def _clean():
    if _scratch and os.getpid() == _owner:
        shutil.rmtree(_scratch, ignore_errors=True)


def sources(lib):
    out = []
    root = "smt/src/" + lib
    for d, _, fs in os.walk(os.path.join(REPO, root)):
        for f in fs:
            if f == lib + "clib.cpp":
                continue
            out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out, key=lambda s: s.encode())


def stamp(lib):
    h = hashlib.sha256()
    with open(os.path.join(REPO, "setup.py"), "rb") as f:
        h.update(f.read())
    for s in sources(lib):
        h.update((s + "\n").encode())
        with open(os.path.join(REPO, s), "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def in_place(lib):
    so = os.path.join(REPO, "smt/surrogate_models", lib + "clib" + SUFFIX)
    try:
        with open(os.path.join(REPO, "build/stamps", lib)) as f:
            rec = f.read().split()[0]
    except (OSError, IndexError):
        return None
    if not os.path.exists(so) or rec != stamp(lib):
        return None
    return so


def build(lib, outdir, flags=("-O2",), cxx="g++"):
    """Build <lib>clib from REPO's current sources into outdir; returns the path of the .so."""
    import numpy as np

    w = os.path.join(outdir, "src_" + lib)
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "smt/src", lib), w)
    pyx = lib + "clib.pyx"
    name = lib + "clib"
    for f in glob.glob(os.path.join(w, name + ".cpp")):
        os.remove(f)
    code = (
        "from Cython.Compiler.Main import compile,CompilationOptions;"
        "import sys;"
        "r=compile(%r, full_module_name='smt.surrogate_models.%s', cplus=True, output_file=%r);"
        "sys.exit(r.num_errors)" % (os.path.join(w, pyx), name, os.path.join(w, name + ".cpp"))
    )
    r = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", code], cwd=w, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("cython failed for %s:\n%s%s" % (lib, r.stdout, r.stderr))
    so = os.path.join(outdir, name + SUFFIX)
    inc = ["-I" + np.get_include(), "-I" + sysconfig.get_paths()["include"], "-I" + w]
    objs = []
    procs = []
    for s in [name + ".cpp"] + LIBS[lib]:
        o = os.path.join(w, s + ".o")
        objs.append(o)
        cmd = [cxx, "-std=c++11", "-fPIC", "-w", *flags, *inc, "-c", os.path.join(w, s), "-o", o]
        procs.append((cmd, subprocess.Popen(cmd, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for cmd, pr in procs:
        out, _ = pr.communicate()
        if pr.returncode:
            raise RuntimeError("compile failed: %s\n%s" % (" ".join(cmd), out))
    r = subprocess.run([cxx, "-shared", *[f for f in flags if f.startswith("-fsan")], *objs, "-o", so], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("link failed: " + r.stderr)
    shutil.rmtree(w, ignore_errors=True)
    return so


class _Finder:
    """Serves the rebuilt extension modules under their normal names."""

    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        so = self.table.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def attach(force_dir=None):
    """Make `import smt` give REPO's current tree with fresh native code. Returns a description."""
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    table, how = {}, {}
    for lib in LIBS:
        name = "smt.surrogate_models." + lib + "clib"
        if force_dir is not None:
            table[name] = os.path.join(force_dir, lib + "clib" + SUFFIX)
            how[lib] = "prebuilt"
        elif in_place(lib):
            how[lib] = "in place (stamp matches sources)"
        else:
            table[name] = build(lib, scratch())
            how[lib] = "rebuilt from current sources"
    if table:
        sys.meta_path.insert(0, _Finder(table))
    return how
