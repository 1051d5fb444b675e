"""Builds the code under test from /repo's current working tree, in several flavours, outside /repo.

Everything is keyed by the content of the sources and of the flags, so an unchanged tree is not built twice within one
sandbox (a check never depends on that: with an empty cache it builds everything itself)."""
import concurrent.futures
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CODE = os.path.join(REPO, "capi/src/implementation/visibility_graphs/code")
LIBS = os.path.join(REPO, "capi/cpp_libs")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

INCLUDES = ["-I", CODE, "-I", LIBS + "/fmt/include", "-I", LIBS + "/indicators/include", "-I", LIBS + "/mio",
            "-I", os.path.join(VERIF, "pbt")]
GUARD = "-DCAPI_VERIF_HOOKS"
# variables that are not initialised hold a pattern, as fresh and freed memory does (MALLOC_PERTURB_, see check.py), so that reading them shows
INIT = "-ftrivial-auto-var-init=pattern"

FLAVOURS = {
    # compiler, flags, link flags
    "plain": ("g++", ["-std=c++17", "-O1", "-fopenmp", INIT, "-D_GLIBCXX_ASSERTIONS", GUARD], ["-fopenmp", "-Wl,--copy-dt-needed-entries", "-ls2"]),
    "bare": ("g++", ["-std=c++17", "-O0", "-g1", "-fopenmp", GUARD], ["-fopenmp", "-Wl,--copy-dt-needed-entries", "-ls2"]),  # for valgrind
    "asan": ("g++", ["-std=c++17", "-O1", "-g1", "-fopenmp", INIT, "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer",
                     "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr",
                     "-U__SANITIZE_ADDRESS__",  # absl changes the layout of its containers under it, and libs2 was built without
                     GUARD],
             ["-fopenmp", "-fsanitize=address,undefined", "-Wl,--copy-dt-needed-entries", "-ls2"]),
    # damaged files may have coordinates far off the globe, whose sums wrap around
    "asanwrap": ("g++", ["-std=c++17", "-O1", "-g1", "-fopenmp", INIT, "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer",
                         "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,signed-integer-overflow", "-fwrapv",
                         "-U__SANITIZE_ADDRESS__", GUARD],
                 ["-fopenmp", "-fsanitize=address,undefined", "-Wl,--copy-dt-needed-entries", "-ls2"]),
    "tsan": ("g++", ["-std=c++17", "-O1", "-g1", "-fopenmp", "-fsanitize=thread", GUARD], ["-fopenmp", "-fsanitize=thread", "-Wl,--copy-dt-needed-entries", "-ls2"]),
    # as above, but with an OpenMP runtime which ThreadSanitizer sees through
    "race": ("g++", ["-std=c++17", "-O1", "-g1", "-fopenmp", "-fsanitize=thread", "-DPBT_RACE", GUARD], ["-fsanitize=thread", "-Wl,--copy-dt-needed-entries", "-ls2", "-lpthread"]),
    "fuzz": ("clang++", ["-std=c++17", "-O1", "-g1", "-fsanitize=fuzzer-no-link,address", "-Wno-everything", "-I", os.path.join(VERIF, "fuzz/noomp"), GUARD],
             ["-fsanitize=fuzzer,address", "-Wl,--copy-dt-needed-entries", "-ls2"]),
}
PY = "/opt/capi/pypy/bin/python"


def sources():
    # every translation unit of the library, found in the tree as the project's own build finds them
    own = sorted(glob.glob(CODE + "/**/*.cpp", recursive=True))
    return own + [LIBS + "/fmt/src/format.cc", LIBS + "/fmt/src/os.cc"]


def _digest(files, extra):
    h = hashlib.sha256()
    h.update("\0".join(extra).encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def _headers():
    hs = []
    for root in (CODE, LIBS + "/fmt", LIBS + "/indicators", LIBS + "/mio"):
        for ext in ("hpp", "h", "ipp"):
            hs += glob.glob(root + "/**/*." + ext, recursive=True)
    return sorted(hs)


def _run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print("BUILD FAILED:", " ".join(cmd), "\n", p.stdout[-6000:], file=sys.stderr)
        raise SystemExit(6)


def _compile_all(jobs):
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for f in [ex.submit(_run, cmd, None) for cmd in jobs]:
            f.result()


def build(flavour, mains):
    """Builds the library and one program per main in `mains` (paths of .cpp files); returns {main: program}."""
    cxx, flags, link = FLAVOURS[flavour]
    srcs = sources()
    hdrs = _headers()
    own_headers = sorted(glob.glob(VERIF + "/pbt/*.hpp"))
    objdir = os.path.join(OUT, flavour)
    os.makedirs(objdir, exist_ok=True)
    jobs, objs, progs = [], [], {}
    hdr_key = _digest(hdrs, [cxx] + flags)
    own_key = _digest(own_headers, [hdr_key])
    tmp = []

    def obj_for(src, key):
        name = os.path.splitext(os.path.basename(src))[0] + "-" + _digest([src], [key])
        out = os.path.join(objdir, name + ".o")
        if not os.path.exists(out):
            part = out + "." + str(os.getpid())
            jobs.append([cxx] + flags + INCLUDES + ["-c", src, "-o", part])
            tmp.append((part, out))
        return out

    main_objs = {m: obj_for(m, own_key) for m in mains}  # the longest first
    if flavour == "race":
        srcs.append(os.path.join(VERIF, "pbt/shim/omp_shim.cpp"))
    objs = [obj_for(s, hdr_key) for s in srcs]
    _compile_all(jobs)
    for part, out in tmp:
        os.replace(part, out)
    for m, mo in main_objs.items():
        key = hashlib.sha256("\0".join([mo] + objs).encode()).hexdigest()[:16]
        prog = os.path.join(objdir, os.path.splitext(os.path.basename(m))[0] + "-" + key)
        if not os.path.exists(prog):
            part = prog + "." + str(os.getpid())
            _run([cxx] + flags + [mo] + objs + link + ["-o", part], None)
            os.replace(part, prog)
        progs[m] = prog
    return progs


def build_python_package():
    """A scratch copy of /repo's Python package with a freshly built _vis_graph module; returns its directory."""
    cxx, flags, _ = FLAVOURS["plain"]
    inc = subprocess.run([PY, "-c", "import pybind11, sysconfig; print(pybind11.get_include()); "
                                    "print(sysconfig.get_paths()['include']); print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    flags = flags + ["-fPIC", "-fvisibility=hidden", "-include", "/opt/capi/include/pypy_compat.h", "-I", inc[0], "-I", inc[1]]
    srcs = sources() + [os.path.join(os.path.dirname(CODE), "bindings.cpp")]
    hdr_key = _digest(_headers(), [cxx] + flags)
    objdir = os.path.join(OUT, "pymod")
    os.makedirs(objdir, exist_ok=True)
    jobs, objs, tmp = [], [], []
    for s in reversed(srcs):
        out = os.path.join(objdir, os.path.splitext(os.path.basename(s))[0] + "-" + _digest([s], [hdr_key]) + ".o")
        if not os.path.exists(out):
            part = out + "." + str(os.getpid())
            jobs.append([cxx] + flags + INCLUDES + ["-c", s, "-o", part])
            tmp.append((part, out))
        objs.append(out)
    _compile_all(jobs)
    for part, out in tmp:
        os.replace(part, out)
    import tempfile
    pkg = tempfile.mkdtemp(prefix="capi-pkg.")
    shutil.copytree(os.path.join(REPO, "capi"), os.path.join(pkg, "capi"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "cpp_libs", "test_files", "*.cpp", "*.hpp"))
    os.makedirs(os.path.join(pkg, "capi/test/test_files"), exist_ok=True)
    for f in glob.glob(os.path.join(REPO, "capi/test/test_files/*")):
        dst = os.path.join(pkg, "capi/test/test_files", os.path.basename(f))
        if os.path.isdir(f):
            shutil.copytree(f, dst)
        else:
            shutil.copy(f, dst)
    so = os.path.join(pkg, "capi/src/implementation/visibility_graphs", "_vis_graph" + inc[2])
    _run([cxx, "-shared", "-fopenmp"] + objs + ["-ls2", "-o", so], None)
    return pkg
