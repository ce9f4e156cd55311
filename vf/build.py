"""Builds freud from /repo's working tree into a private, git-ignored directory.

Every check builds its own copy of the sources (so /repo is never written), restricted to the
extension modules its property needs, and tests that build together with the current freud/*.py.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.environ.get("VF_CACHE", os.path.join(VERIF, ".cache"))
PY = "/opt/venv/bin/python"
ALL = ["box", "cluster", "density", "diffraction", "environment", "locality", "order", "parallel", "pmft", "util"]
BASE = ["box", "locality", "parallel", "util"]

VARIANTS = {
    # the optimised build, with libstdc++'s own precondition checks left in
    "rel": dict(cxx="/usr/bin/g++", type="Release", flags="-D_GLIBCXX_ASSERTIONS"),
    # address + undefined behaviour sanitizers
    "asan": dict(cxx="/usr/bin/g++", type="None",
                 flags="-O1 -g1 -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow "
                       "-fno-sanitize=vptr -fno-sanitize-recover=undefined,float-cast-overflow",
                 ld="-fsanitize=address,undefined -fno-sanitize=vptr"),
    # the same, reporting instead of stopping (triage only, used by no check)
    "ubsan": dict(cxx="/usr/bin/g++", type="None",
                  flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=undefined,float-cast-overflow -fno-sanitize=vptr",
                  ld="-fsanitize=undefined -fno-sanitize=vptr"),
    # data races: parallel loops run on the shim scheduler (plain threads the detector understands)
    "tsan": dict(cxx="/usr/bin/g++", type="None", flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread", ld="-fsanitize=thread",
                 shim=True),
    # schedule exploration: the optimised code on the shim scheduler
    "sched": dict(cxx="/usr/bin/g++", type="Release", flags="-D_GLIBCXX_ASSERTIONS", shim=True),
}


class BuildError(Exception):
    pass


def _run(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write(("+ " + " ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        with open(log, errors="replace") as f:
            tail = f.read()[-3000:]
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), tail))


def _copy(dst):
    for name in ("CMakeLists.txt", "CMake", "freud", "extern"):
        s = os.path.join(REPO, name)
        if os.path.isfile(s):
            _copyfile(s, os.path.join(dst, name))
            continue
        keep = set()
        for root, dirs, files in os.walk(s):
            dirs[:] = [d for d in dirs if d != "__pycache__"]
            rel = os.path.relpath(root, REPO)
            os.makedirs(os.path.join(dst, rel), exist_ok=True)
            for f in files:
                if f.endswith(".so"):
                    continue
                _copyfile(os.path.join(root, f), os.path.join(dst, rel, f))
                keep.add(os.path.join(rel, f))
        for root, dirs, files in os.walk(os.path.join(dst, name)):
            for f in files:
                rel = os.path.relpath(os.path.join(root, f), dst)
                if rel not in keep and not rel.startswith(("extern/Eigen/", "extern/fsph/", "extern/voro++/")):
                    os.unlink(os.path.join(dst, rel))


def _copyfile(s, d):
    with open(s, "rb") as f:
        data = f.read()
    try:
        with open(d, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    with open(d, "wb") as f:
        f.write(data)


EIGEN = "/usr/include/eigen3/Eigen"


def _overlay(dst):
    """The vendored dependencies the repository's checkout lacks: Eigen as installed, stand-ins for the others."""
    link = os.path.join(dst, "extern", "Eigen", "Eigen")
    if not os.path.lexists(link):
        os.makedirs(os.path.dirname(link), exist_ok=True)
        os.symlink(EIGEN, link)
    for name in ("fsph", "voro++"):
        d = os.path.join(dst, "extern", name, "src")
        os.makedirs(d, exist_ok=True)
        s = os.path.join(VERIF, "shim", "ext", name, "src")
        for f in os.listdir(s):
            _copyfile(os.path.join(s, f), os.path.join(d, f))


def build(variant="rel", dirs=None, full=False):
    """Build; returns (package parent directory, info).

    full: compile also the classes that need Eigen, fsph or voro++ (see _overlay).
    """
    t0 = time.time()
    v = VARIANTS[variant]
    dirs = sorted(set(BASE) | set(dirs)) if dirs is not None else list(ALL)
    key = variant + ("-full-" if full else "-") + ("all" if dirs == ALL else hashlib.sha1(",".join(dirs).encode()).hexdigest()[:8])
    top = os.path.join(CACHE, key)
    os.makedirs(top, exist_ok=True)
    with open(os.path.join(top, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src, bld, pkg = (os.path.join(top, n) for n in ("src", "bld", "pkg"))
        log = os.path.join(top, "build.log")
        open(log, "w").close()
        os.makedirs(src, exist_ok=True)
        _copy(src)
        if full:
            _overlay(src)
        out = os.path.join(bld, "out")
        flags = v["flags"]
        if v.get("shim"):
            flags = "-I%s/shim %s" % (VERIF, flags)
        env = dict(os.environ, PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", HOME="/root",
                   LANG="C.UTF-8", LC_ALL="C.UTF-8")
        for k in ("LD_PRELOAD", "CXXFLAGS", "CFLAGS", "LDFLAGS", "PYTHONPATH"):
            env.pop(k, None)
        def go(ds):
            _run(["/usr/bin/cmake", "-G", "Ninja", "-S", src, "-B", bld, "-DCMAKE_BUILD_TYPE=" + v["type"], "-DCMAKE_C_COMPILER=/usr/bin/gcc",
                  "-DCMAKE_CXX_COMPILER=" + v["cxx"], "-DPython_EXECUTABLE=" + PY, "-DCMAKE_PROJECT_freud_INCLUDE=%s/cmake/inc.cmake" % VERIF,
                  "-DCMAKE_LIBRARY_OUTPUT_DIRECTORY=" + out, "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=" + (v.get("ld") or ""),
                  "-DCMAKE_MODULE_LINKER_FLAGS=" + (v.get("ld") or ""), "-DVF_DIRS=" + ("" if ds == ALL else "|".join(ds)), "-DVF_FULL=" + ("1" if full else "")], log, env=env)
            _run(["ninja", "-C", bld, "-j", str(os.cpu_count() or 8)] + ["_" + d for d in ds], log, env=env)
        try:
            go(dirs)
            built = dirs
            if dirs != ALL and not _links(out, dirs, v, env):
                raise BuildError("unresolved symbols")
        except BuildError:
            if dirs == ALL:
                raise
            go(ALL)   # sources may have come to depend on each other across directories
            built = ALL
        shutil.rmtree(pkg, ignore_errors=True)
        os.makedirs(os.path.join(pkg, "freud"))
        for f in os.listdir(os.path.join(src, "freud")):
            if f.endswith(".py"):
                shutil.copy(os.path.join(src, "freud", f), os.path.join(pkg, "freud", f))
        for d in built:
            for f in os.listdir(out):
                if f.startswith("_%s." % d):
                    shutil.copy(os.path.join(out, f), os.path.join(pkg, "freud", f))
    return pkg, dict(variant=variant + ("+left-out classes" if full else ""), dirs=built, seconds=round(time.time() - t0, 1))


def _links(out, dirs, v, env):
    """Do the restricted modules resolve all of their symbols?"""
    e = dict(env)
    if "thread" in (v.get("ld") or ""):
        e["LD_PRELOAD"] = lib("libtsan.so")
    elif "address" in (v.get("ld") or ""):
        e["LD_PRELOAD"] = lib("libasan.so")
        e["ASAN_OPTIONS"] = "detect_leaks=0"
    code = "import ctypes,os,sys,glob\n" \
           "for d in %r:\n  for f in glob.glob(%r+'/_'+d+'.*'):\n    ctypes.CDLL(f, mode=os.RTLD_NOW)\n" % (dirs, out)
    return subprocess.run([PY, "-c", code], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def lib(name):
    return subprocess.run(["/usr/bin/g++", "-print-file-name=" + name], stdout=subprocess.PIPE, text=True).stdout.strip()


if __name__ == "__main__":
    p, info = build(sys.argv[1] if len(sys.argv) > 1 else "rel", sys.argv[2].split(",") if len(sys.argv) > 2 and sys.argv[2] else None,
                    full=len(sys.argv) > 3)
    print(p, info)
