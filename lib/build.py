"""Builds /repo's library sources and the drivers in several variants, outside
/repo, from the working tree."""
import concurrent.futures as cf
import hashlib
import os
import re
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
TLA = "/opt/veriftools/tla"

ARCH = ["-march=x86-64-v2", "-maes", "-mpclmul"]
CXX_COMMON = ["-std=gnu++11", "-fno-rtti", "-include", "cstdint", "-include", "stdexcept", "-include", "array"]
VARIANTS = {
    # name: (compiler pair, flags, definitions, link flags)
    "lock": (("gcc", "g++"), ["-O1", "-g"], ["-DENABLE_MEMORY_LOCK"], []),
    "nolock": (("gcc", "g++"), ["-O1", "-g"], [], []),
    "release": (("gcc", "g++"), ["-O2", "-DNDEBUG"], ["-DENABLE_MEMORY_LOCK"], []),
    "clang": (("clang", "clang++"), ["-O2"], ["-DENABLE_MEMORY_LOCK"], []),
    "asan": (("gcc", "g++"), ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                               "-fno-omit-frame-pointer"],
             ["-DENABLE_MEMORY_LOCK", "-DSANITIZED"], ["-fsanitize=address,undefined"]),
    "tsan": (("gcc", "g++"), ["-O1", "-g", "-fsanitize=thread"], ["-DENABLE_MEMORY_LOCK", "-DSANITIZED", "-DNO_INTERPOSE"], ["-fsanitize=thread"]),
}
# with puncturable encryption, against the stand-in for RELIC
for _v in ("lock", "release", "asan"):
    VARIANTS["pair-" + _v] = VARIANTS[_v]


class BuildError(Exception):
    pass


def lib_sources():
    text = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
    text = re.sub(r"#[^\n]*", "", text)
    m = re.search(r"add_library\(\s*sse_crypto\s([^)]*)\)", text)
    if not m:
        raise BuildError("no add_library(sse_crypto ...) in src/CMakeLists.txt")
    names = re.findall(r"[^\s\"]+\.(?:cpp|cc|c)\b", m.group(1))
    return names


RELIC_LINES = [
    r'^#include "ppke/relic_wrapper/relic_api\.h"\s*$',
    r'^\s*static relicxx::relicResourceHandle\* *g_relic_handle_;\s*$',
    r'^\s*g_relic_handle_ = new relicxx::relicResourceHandle\(true\);\s*$',
    r'^\s*delete g_relic_handle_;\s*$',
    r'^\s*g_relic_handle_ = nullptr;\s*$',
]


def norelic(src, dst):
    out = ['#line 1 "%s"' % src]
    for line in open(src).read().split("\n"):
        out.append("" if any(re.match(p, line) for p in RELIC_LINES) else line)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    open(dst, "w").write("\n".join(out))


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
                h.update(b"\0")
    return h.hexdigest()[:20]


def compile_to(cmd):
    """Runs a compilation whose output (the last argument) appears only when complete."""
    tmp = "%s.tmp%d" % (cmd[-1], os.getpid())
    run(cmd[:-1] + [tmp])
    os.rename(tmp, cmd[-1])


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), (r.stdout + r.stderr)[-6000:]))


_built = {}
_lock = threading.Lock()


def build(variant):
    """Returns the path of the driver built in the given variant ("memcheck": run by valgrind)."""
    variant = "nolock" if variant == "memcheck" else variant
    with _lock:
        if variant not in _built:
            _built[variant] = build_now(variant)
        return _built[variant]


def quiet(variant):
    """As build; an error is reported by whoever needs the result."""
    try:
        build(variant)
    except BuildError:
        pass


def build_now(variant, driver="drv"):
    """Returns the path of the driver built in the given variant."""
    (cc, cxx), flags, defs, link = VARIANTS[variant]
    ddir = os.path.join(VERIF, "driver")
    pairing = variant.startswith("pair-")
    sdir = os.path.join(VERIF, "standin")
    key = tree_hash(os.path.join(REPO, "src"), ddir, *([sdir] if pairing else []))
    key = hashlib.sha256((key + variant + repr(VARIANTS[variant])).encode()).hexdigest()[:16]
    bdir = os.path.join(BUILD, "%s-%s" % (variant, key))
    exe = os.path.join(bdir, driver)
    if os.path.exists(exe):
        return exe
    # forget older builds of this variant
    if os.path.isdir(BUILD):
        for d in os.listdir(BUILD):
            if d.startswith(variant + "-") and d != os.path.basename(bdir):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    os.makedirs(bdir, exist_ok=True)
    inc = ["-I", REPO + "/src/include", "-I", REPO + "/src", "-I", REPO + "/src/include/sse/crypto", "-I", ddir,
           *(["-I", sdir] if pairing else [])]
    jobs = []
    objs = []
    for name in lib_sources():
        if not pairing and (name.startswith("ppke/") or name == "puncturable_enc.cpp"):
            continue
        src = os.path.join(REPO, "src", name)
        obj = os.path.join(bdir, "lib_" + name.replace("/", "_") + ".o")
        objs.append(obj)
        if os.path.exists(obj):
            continue
        if name == "utils.cpp" and not pairing:
            gen = os.path.join(bdir, "gen_utils.cpp")
            norelic(src, gen)
            src = gen
        if name.endswith(".c"):
            jobs.append([cc, "-std=gnu99", "-w", *ARCH, *flags, *defs, *inc, "-c", src, "-o", obj])
        else:
            jobs.append([cxx, *CXX_COMMON, "-w", *ARCH, *flags, *defs, *inc, "-c", src, "-o", obj])
    dobjs = []
    for d, f in [(ddir, f) for f in sorted(os.listdir(ddir))] + ([(sdir, "relic.cpp")] if pairing else []):
        if not f.endswith(".cpp") or (f.startswith("x_") and not pairing):
            continue
        if pairing and f.startswith(("rcprf", "tdp.", "tsan")):     # not needed, and long to build
            continue
        obj = os.path.join(bdir, "drv_" + f + ".o")
        dobjs.append(obj)
        if not os.path.exists(obj):
            # drivers first: they take longest
            jobs.insert(0, [cxx, *CXX_COMMON, "-w", *ARCH, *flags, *defs, *inc, "-c", os.path.join(d, f), "-o", obj])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(compile_to, jobs))
    run([cxx, *flags, *link, "-o", exe + ".tmp", *dobjs, *objs, "-lsodium", "-lgmp", "-ldl", "-lpthread"])
    os.rename(exe + ".tmp", exe)
    return exe


_java_lock = threading.Lock()


def java():
    with _java_lock:
        return java_now()


def java_now():
    src = os.path.join(VERIF, "java", "Prims.java")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "java-" + h)
    if not os.path.exists(os.path.join(out, "ok")):
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", tmp, src])
        open(os.path.join(tmp, "ok"), "w").close()
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == "__main__":
    print(build(*sys.argv[1:]))
