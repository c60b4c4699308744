"""Out-of-tree build of the C++ simulator (rpu_base) and the C++ extension from
the *current* /repo working tree.  Objects are cached by the content they were
compiled from (every header included), so a Python-only change costs nothing, and a
C++ change costs exactly the translation units it reaches.

variants:
  rel   -O2, libstdc++ assertions on
  san   -O1, AddressSanitizer + UndefinedBehaviourSanitizer (loaded via LD_PRELOAD)
  tsan  -O1, ThreadSanitizer
In every variant src/rpucuda/*.cpp is compiled with a forced include that replaces
the wall clock the simulator seeds its generators from by a counter, so that a run
is a function of VERIF_SEED (see seed_clock.h).
"""
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
VENV = "/opt/venv"
SITE = VENV + "/lib/python3.12/site-packages"
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX") or ".cpython-312-x86_64-linux-gnu.so"

SAN_FLAGS = {
    "rel": ["-O2", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"],
    "san": ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
            "-fsanitize=address,undefined",
            "-fno-sanitize=vptr,alignment,nonnull-attribute", "-fno-sanitize-recover=undefined"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG", "-fsanitize=thread"],
}
LINK_FLAGS = {"rel": [], "san": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"]}


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def _read(path):
    with open(path, "rb") as f:
        return f.read()


INC_RE = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*["<]([^">]+)[">]', re.M)


def _closure(src, roots, cache):
    """Content hash over src and every repo header it can reach (conservative)."""
    seen, todo = {}, [src]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        if p not in cache:
            data = _read(p)
            cache[p] = (hashlib.sha256(data).hexdigest(), [m.decode() for m in INC_RE.findall(data)])
        seen[p] = cache[p][0]
        for inc in cache[p][1]:
            for r in [os.path.dirname(p)] + roots:
                q = os.path.normpath(os.path.join(r, inc))
                if os.path.isfile(q):
                    todo.append(q)
                    break
    return "".join(f"{k[len(REPO):]}:{v}\n" for k, v in sorted(seen.items()))


def _sources():
    rp = sorted(p for p in glob.glob(f"{REPO}/src/rpucuda/*.cpp") if not p.endswith("_test.cpp"))
    bind = sorted(glob.glob(f"{REPO}/src/aihwkit/simulator/rpu_base_src/*.cpp"))
    ext_root = f"{REPO}/src/aihwkit/extension/extension_src"
    ext = sorted(glob.glob(f"{ext_root}/*.cpp") + glob.glob(f"{ext_root}/ops/*.cpp"))
    return rp, bind, ext, ext_root


def build(variant="rel", jobs=None, verbose=False):
    """Returns {'rpu_base': path.so, 'aihwkit_extension': path.so}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, f"lock.{variant}"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(variant, jobs or min(16, (os.cpu_count() or 4)), verbose)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(variant, jobs, verbose):
    rp, bind, ext, ext_root = _sources()
    clock = os.path.join(VERIF, "lib", "seed_clock.h")
    base = ["/usr/bin/c++", "-std=gnu++17", "-fPIC", "-fopenmp", "-w",
            "-DRPU_USE_OPENBLAS", "-DRPU_USE_WITH_TORCH", "-D_GLIBCXX_USE_CXX11_ABI=1",
            *[f"-I{p}" for p in (VENV + "/include", "/usr/include/python3.12",
                                 SITE + "/pybind11/include", SITE + "/torch/include",
                                 SITE + "/torch/include/torch/csrc/api/include")]]
    flags = SAN_FLAGS[variant]
    jobs_list, cache = [], {}
    rp_root = f"{REPO}/src/rpucuda"
    odir = os.path.join(BUILD, "obj", variant)
    os.makedirs(odir, exist_ok=True)

    def add(src, extra, roots, mod):
        vis = ["-fvisibility=hidden", f"-DTORCH_EXTENSION_NAME={mod}", f"-D{mod}_EXPORTS"] if mod else []
        cmd = base + flags + vis + extra
        key = _sha(_closure(src, roots, cache), " ".join(cmd), _read(clock))[:32]
        obj = os.path.join(odir, f"{os.path.basename(src)}.{key}.o")
        jobs_list.append((src, cmd, obj))
        return obj

    fi = ["-include", clock]
    o_rpu = [add(s, ["-isystem", rp_root] + fi, [rp_root], None) for s in rp]
    o_bind = [add(s, ["-isystem", rp_root], [rp_root], "rpu_base") for s in bind]
    o_ext = [add(s, [f"-I{ext_root}", f"-I{ext_root}/ops", "-isystem", rp_root],
                 [ext_root, ext_root + "/ops", rp_root],
                 "aihwkit_extension") for s in ext if variant != "tsan"]

    def one(job):
        src, cmd, obj = job
        if os.path.exists(obj):
            os.utime(obj)
            return 0
        tmp = f"{obj}.{os.getpid()}.tmp.o"
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"{src}: {r.stderr[-2000:]}")
        os.replace(tmp, obj)
        return 1

    big = {os.path.basename(s): os.path.getsize(s) for s, _, _ in jobs_list}
    order = sorted(jobs_list, key=lambda j: (0 if "rpu_base" in j[0] or "extension" in j[0] else 1,
                                             -big[os.path.basename(j[0])]))
    with ThreadPoolExecutor(jobs) as ex:
        n = sum(ex.map(one, order))

    if variant == "tsan":
        shim = os.path.join(VERIF, "lib", "omp_shim.c")
        cmd = ["/usr/bin/gcc", "-O1", "-g1", "-fPIC", "-fvisibility=hidden", "-w", "-fsanitize=thread", "-c", shim]
        o_shim = os.path.join(odir, f"omp_shim.{_sha(_read(shim), ' '.join(cmd))[:32]}.o")
        if not os.path.exists(o_shim):
            tmp = f"{o_shim}.{os.getpid()}.tmp.o"
            r = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(f"{shim}: {r.stderr[-2000:]}")
            os.replace(tmp, o_shim)
        o_rpu = o_rpu + [o_shim]

    out = {}
    for name, objs, libs in (
        ("rpu_base", o_bind + o_rpu, ["/usr/lib/x86_64-linux-gnu/libopenblas.so"]),
        ("aihwkit_extension", o_ext, []),
    ):
        if not objs:
            continue
        key = _sha(*objs)[:24]
        so = os.path.join(BUILD, "so", variant, key, name + SUFFIX)
        if not os.path.exists(so):
            os.makedirs(os.path.dirname(so), exist_ok=True)
            tmp = f"{so}.{os.getpid()}.tmp"
            r = subprocess.run(
                ["/usr/bin/c++", "-fPIC", "-fopenmp", "-shared", *LINK_FLAGS[variant], "-o", tmp, *objs,
                 f"-L{VENV}/lib", f"-L{SITE}/torch/lib", f"-Wl,-rpath,{VENV}/lib:{SITE}/torch/lib",
                 "-ltorch_python", "-lc10", "-ltorch_cpu", *libs], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(f"link {name}: {r.stderr[-2000:]}")
            os.replace(tmp, so)
        out[name] = so
    if verbose:
        print(f"[vbuild] {variant}: compiled {n} of {len(jobs_list)} units", file=sys.stderr)
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["rel"]:
        print(json.dumps(build(v, verbose=True)))
