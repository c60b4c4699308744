"""run.py PID [tier] [--replay F] [--only S] [--seed N]"""
import importlib
import os
import sys

import vbuild
import vh


def load(pid):
    """The check module of pid (checks/<PID>_<name>.py)."""
    d = os.path.join(vh.VERIF, "checks")
    names = [f[:-3] for f in sorted(os.listdir(d)) if f.startswith(pid) and f.endswith(".py")]
    if not names:
        print(f"no check for {pid}")
        sys.exit(2)
    return names[0]


# the quick tier runs the quick counts of the scenarios this many times over
QUICK_SCALE = {"P01": 6, "P02": 10, "P24": 10, "P25": 8, "P05": 3, "P16": 3, "P17": 3, "P23": 3, "P08": 3,
               "P18": 3, "P28": 2, "P29": 2, "P30": 4, "P31": 2, "P09": 2, "P21": 2}


def main():
    pid, argv = sys.argv[1], sys.argv[2:]
    name = load(pid)
    meta = os.environ.get("VERIF_VARIANT")
    src = open(os.path.join(vh.VERIF, "checks", name + ".py")).read()
    variant = meta or next((v for v in ("san", "tsan") if f'\nVARIANT = "{v}"' in src), "rel")
    if "\nSTANDALONE = True" in src:
        importlib.import_module(name).run(argv)
        return
    try:
        sos = vbuild.build(variant)
    except vbuild.BuildError as e:
        print(f"INCONCLUSIVE: build failed: {e}")
        sys.exit(2)
    if variant == "san" and "libasan" not in os.environ.get("LD_PRELOAD", ""):
        import subprocess
        lib = [subprocess.check_output(["/usr/bin/gcc", f"-print-file-name={n}"], text=True).strip()
               for n in ("libasan.so", "libubsan.so", "libstdc++.so.6")]
        env = dict(os.environ, LD_PRELOAD=" ".join(lib), PYTHONMALLOC="malloc",
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"
                                "detect_odr_violation=0:handle_abort=0:handle_segv=0",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1")
        os.execve(sys.executable, [sys.executable, "-X", "faulthandler", *sys.argv], env)
    if variant == "tsan" and "libtsan" not in os.environ.get("LD_PRELOAD", ""):
        import subprocess
        lib = [subprocess.check_output(["/usr/bin/gcc", f"-print-file-name={n}"], text=True).strip()
               for n in ("libtsan.so", "libstdc++.so.6")]
        env = dict(os.environ, LD_PRELOAD=" ".join(lib), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   TSAN_OPTIONS="halt_on_error=1:abort_on_error=0:exitcode=66:handle_abort=0:handle_segv=0:die_after_fork=0:"
                                "ignore_noninstrumented_modules=1:report_thread_leaks=0:report_signal_unsafe=0")
        os.execve(sys.executable, [sys.executable, "-X", "faulthandler", *sys.argv], env)
    try:
        vh.boot(sos)
        mod = importlib.import_module(name)
    except Exception as e:
        # the package itself does not import any more: nothing could be observed
        import traceback
        traceback.print_exc()
        print(f"INCONCLUSIVE: {type(e).__name__}: {e}")
        sys.exit(2)
    vh.main(pid, mod.SCENARIOS, rule=getattr(mod, "RULE", ""), assumptions=getattr(mod, "ASSUMPTIONS", ()),
            requires=getattr(mod, "REQUIRES", ()), level=getattr(mod, "LEVEL", "exploration"), argv=argv,
            quick_scale=int(os.environ.get("VERIF_SCALE") or (QUICK_SCALE.get(name[:3], 5) if variant == "rel" else 1)))


main()
