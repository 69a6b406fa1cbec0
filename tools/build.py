"""Compile the library from the working tree and link a driver against it."""
import os, shutil, subprocess, sys, glob, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, "src", "tinymesh")
# sources whose sanitized compilation is expensive; plain unless asked for
HEAVY = ("ops/features.cpp", "restore/completion.cpp")


class BuildError(Exception):
    pass


EMU_WRAPS = ["GOMP_parallel", "omp_get_num_threads", "omp_get_thread_num", "omp_get_max_threads", "GOMP_critical_start", "GOMP_critical_end",
             "GOMP_critical_name_start", "GOMP_critical_name_end", "GOMP_atomic_start", "GOMP_atomic_end",
             "GOMP_barrier", "GOMP_loop_end_nowait"] \
    + ["GOMP_%s_%s%s" % (p, k, q) for k in ("dynamic", "guided", "nonmonotonic_dynamic", "nonmonotonic_guided")
       for p, q in (("loop", "_next"), ("parallel_loop", ""))]

PYTHON = "/usr/bin/python3"
PY_WRAPS = ["_ZN8tinymesh16remeshTriangularERNS_4MeshEdddib", "_ZN8tinymesh11simplifyQEMERNS_4MeshEiib",
            "_ZN8tinymesh22holeFillAdvancingFrontERNS_4MeshEPNS_4FaceE", "_ZN8tinymesh23holeFillContextCoherentERNS_4MeshEi"]


def flags(san=True):
    f = ["-std=c++17", "-O1", "-g0", "-fopenmp", "-fno-omit-frame-pointer", "-w",
         "-DEIGEN_MALLOC_ALREADY_ALIGNED=1",   # Eigen decides otherwise file by file, depending on the sanitizer
         "-I" + os.path.join(HERE, "harness", "shim"), "-I" + SRC,
         "-I" + os.path.join(REPO, "src"), "-I/usr/include/eigen3"]
    if san == "emu":   # accesses reported to hooks of our own, no sanitizer runtime
        f += ["-fsanitize=thread"]
    elif san:
        f += ["-fsanitize=address"]
    return f


def _cxx():
    env = dict(os.environ)
    env["CCACHE_DIR"] = os.path.join(HERE, "build", "ccache")
    env["CCACHE_BASEDIR"] = "/"
    env["CCACHE_MAXSIZE"] = "2G"
    try:
        os.makedirs(env["CCACHE_DIR"], exist_ok=True)
        use = subprocess.run(["ccache", "--version"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                             env=env).returncode == 0
    except OSError:
        use = False
    return (["ccache"] if use else []) + ["g++"], env


def _run(cmd, env):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-6000:])


def sources():
    fs = sorted(glob.glob(os.path.join(SRC, "**", "*.cpp"), recursive=True))
    return [f for f in fs if "/ext/" not in f]


def build(work, drivers, defs=(), wraps=(), san_heavy=False, emu=False, module=False):
    """drivers: {name: source}.  Returns {name: path of executable}.
    module: the library as it goes into the Python module (errors are exceptions)."""
    cxx, env = _cxx()
    objdir = os.path.join(work, "objm" if module else "obj")
    if module:
        cxx = cxx + ["-DTINYMESH_PYTHON_MODULE=1", "-I" + os.path.join(HERE, "harness", "shim_module")]
    os.makedirs(objdir, exist_ok=True)
    jobs = []
    objs = []
    for f in sources():
        rel = os.path.relpath(f, SRC)
        san = "emu" if emu else san_heavy or rel not in HEAVY
        if emu and not rel.startswith(("core/", "filters/")):
            san = False
        o = os.path.join(objdir, rel.replace("/", "_") + ".o")
        objs.append(o)
        jobs.append((os.path.getsize(f) * (3 if rel in HEAVY else 1), cxx + flags(san) + ["-c", f, "-o", o]))
    res = {}
    dobjs = {}
    for name, src in drivers.items():
        o = os.path.join(objdir, "drv_" + name + ".o")
        dobjs[name] = o
        jobs.append((10**9, cxx + flags(not emu) + list(defs) + ["-I" + os.path.join(HERE, "harness"), "-c",
                                                os.path.join(HERE, "harness", src), "-o", o]))
    jobs.sort(key=lambda j: -j[0])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: _run(j[1], env), jobs))
    for name in drivers:
        exe = os.path.join(work, name)
        _run(["g++"] + ([] if emu else ["-fsanitize=address"]) + ["-fopenmp", dobjs[name]] + objs +
             ["-Wl,--wrap=" + w for w in list(wraps) + list(EMU_WRAPS if emu else ())] + ["-o", exe, "-ldl"], env)
        res[name] = exe
    return res


def python(work):
    """The Python module (tinymesh.so) with the wrappers, the C++ interface for
    comparison (libref.so) and the stand-ins for numpy and scipy, in one directory."""
    cxx, env = _cxx()
    inc = subprocess.run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"],
                         stdout=subprocess.PIPE, universal_newlines=True, check=True).stdout.strip()
    out, objdir = os.path.join(work, "python"), os.path.join(work, "objp")
    os.makedirs(objdir, exist_ok=True)
    shutil.copytree(os.path.join(HERE, "harness", "pyshim"), out, dirs_exist_ok=True)
    fl = flags(False) + ["-fPIC", "-DTINYMESH_PYTHON_MODULE=1", "-I" + inc]
    lib, jobs, o = [], [], {}
    for f in sources():
        rel = os.path.relpath(f, SRC)
        lib.append(os.path.join(objdir, rel.replace("/", "_") + ".o"))
        jobs.append((os.path.getsize(f) * (3 if rel in HEAVY else 1), cxx + fl + ["-c", f, "-o", lib[-1]]))
    for n, f in (("module", os.path.join(REPO, "src", "pybind11.cpp")), ("wrap", os.path.join(HERE, "harness", "pywrap.cpp")),
                 ("ref", os.path.join(HERE, "harness", "pyref.cpp"))):
        o[n] = os.path.join(objdir, "py_" + n + ".o")
        jobs.append((10**9, cxx + fl + ["-c", f, "-o", o[n]]))
    jobs.sort(key=lambda j: -j[0])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: _run(j[1], env), jobs))
    _run(["g++", "-shared", "-fopenmp"] + ["-Wl,--wrap=" + w for w in PY_WRAPS] + [o["module"], o["wrap"]] + lib +
         ["-o", os.path.join(out, "tinymesh.so")], env)
    _run(["g++", "-shared", "-fopenmp", o["ref"]] + lib + ["-o", os.path.join(out, "libref.so")], env)
    _run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-I" + inc, os.path.join(HERE, "harness", "multiarray.c"),
          "-o", os.path.join(out, "numpy", "core", "multiarray.so")], env)
    return out


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1], {n: n + ".cpp" for n in sys.argv[2:]}), time.time() - t)
