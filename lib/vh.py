"""Harness: boots the code under test, runs monitored cases in worker processes, and
turns what the monitors saw into a verdict, an evidence file and replay files.

A check module (checks/<PID>.py) defines

    PID, TECHNIQUE-free metadata, and
    SCENARIOS = [Scenario(name, fn, quick=N, thorough=M), ...]

where fn(rng, mon) runs the real code once under a workload drawn from rng (a
random.Random) and lets the monitor `mon` judge what it observes:

    mon.check(cond, key, msg)   one oracle evaluation; a false cond is a violation
    mon.close(a, b, key, ...)   numerical comparison, one oracle evaluation
    mon.obs(name, n=1)          counts an observed event (evidence)
    mon.state(sig)              a distinct non-trivial situation the oracle decided
    mon.sample(obj)             an example for the evidence file

Verdict: exit 0 held, exit 1 VIOLATION, exit 2 inconclusive (build failure, harness
error, or a monitor that never saw the events it needs).
"""
import argparse
import ctypes
import faulthandler
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import io
import json
import mmap
import os
import random
import signal
import struct
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NSHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
CASE_TIMEOUT = 120


# ----------------------------------------------------------------------------- boot
class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        so = self.table.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


_LIB = None
_LIBC = None


def boot(sos):
    """Import aihwkit from /repo/src with freshly built extensions."""
    global _LIB, _LIBC
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    table = {}
    if "rpu_base" in sos:
        table["aihwkit.simulator.rpu_base"] = sos["rpu_base"]
    if "aihwkit_extension" in sos:
        table["aihwkit.extension.aihwkit_extension"] = sos["aihwkit_extension"]
    sys.meta_path.insert(0, _Finder(table))
    import torch

    torch.set_num_threads(1)
    import aihwkit.simulator.rpu_base as rb
    import aihwkit

    assert os.path.realpath(aihwkit.__file__).startswith(os.path.realpath(src)), aihwkit.__file__
    assert rb.__file__ == sos["rpu_base"], (rb.__file__, sos)
    _LIB = ctypes.CDLL(sos["rpu_base"])
    _LIBC = ctypes.CDLL(None)
    warnings.simplefilter("ignore")


def seed_all(seed):
    import numpy
    import torch

    seed &= 0x7FFFFFFF
    torch.manual_seed(seed)
    numpy.random.seed(seed)
    random.seed(seed)
    if _LIB is not None:
        _LIB.verif_clock_set(ctypes.c_longlong(seed))
        _LIBC.srand(ctypes.c_uint(seed))


def derive(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return struct.unpack("<Q", h[:8])[0]


# ----------------------------------------------------------------------------- monitor
class Violation(Exception):
    """Raised by mon.fatal: stop the case, the violation is recorded."""


class Skip(Exception):
    """The drawn workload has nothing to observe (not counted)."""


class Monitor:
    ctx = None    # description of the case, shown with failures

    def __init__(self):
        self.events = {}
        self.states = set()
        self.evals = 0
        self.viol = []
        self.samples = []
        self.skipped = 0

    def obs(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def state(self, *sig):
        if sig and isinstance(sig[0], str):
            self.obs(sig[0])
        self.states.add(hashlib.sha1(repr(sig).encode()).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(json.loads(json.dumps(obj, default=str)))

    def check(self, cond, key, msg=""):
        self.evals += 1
        if not bool(cond):
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def fail(self, key, msg):
        if self.ctx is not None:
            msg = f"{msg} [{self.ctx}]"
        if len(self.viol) < 20:
            self.viol.append({"key": key, "msg": str(msg)[:1500]})

    def fatal(self, key, msg):
        self.evals += 1
        self.fail(key, msg)
        raise Violation(key)

    def close(self, a, b, key, atol=1e-5, rtol=1e-5, msg=""):
        import torch

        a = torch.as_tensor(a).detach().double()
        b = torch.as_tensor(b).detach().double()
        self.evals += 1
        if a.shape != b.shape:
            self.fail(key, f"{msg}: shapes {tuple(a.shape)} vs {tuple(b.shape)}")
            return False
        if a.numel() == 0:
            return True
        err = (a - b).abs()
        lim = atol + rtol * b.abs()
        # NaN on either side is a mismatch; equal infinities are not
        same_inf = torch.isinf(a) & (a == b)
        bad = ~(err <= lim) & ~same_inf
        if bool(bad.any()):
            i = int(bad.flatten().nonzero()[0])
            self.fail(key, f"{msg}: {int(bad.sum())}/{a.numel()} differ, first at {i}: "
                           f"{a.flatten()[i].item()!r} vs {b.flatten()[i].item()!r}, "
                           f"max err {err.nan_to_num(9e99).max().item():.4g}")
            return False
        return True

    def raises(self, fn, key, msg="", exc=Exception):
        """Expect a Python exception (never a crash)."""
        self.evals += 1
        try:
            fn()
        except exc:
            return True
        self.fail(key, msg or "no exception raised")
        return False

    def dump(self):
        return {"events": self.events, "states": sorted(self.states), "evals": self.evals,
                "viol": self.viol, "samples": self.samples, "skipped": self.skipped}


class Scenario:
    def __init__(self, name, fn, quick=10, thorough=100, min_evals=1):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.min_evals = min_evals


# ----------------------------------------------------------------------------- workers
class _Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise _Timeout()


def run_case(pid, sc, seed, idx):
    """One monitored case; returns the monitor."""
    mon = Monitor()
    case_seed = derive(pid, sc.name, seed, idx)
    seed_all(case_seed)
    rng = random.Random(case_seed)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sc.fn(rng, mon)
    except Skip:
        mon.skipped += 1
    except Violation:
        pass
    except _Timeout:
        mon.fail(f"{sc.name}:timeout", f"case did not finish in {CASE_TIMEOUT} s")
    except BaseException as e:  # an exception on a valid workload is a violation
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, SystemExit):
            raise
        tb = traceback.format_exc()
        where = [f for f in traceback.extract_tb(e.__traceback__)]
        in_repo = [f for f in where if f.filename.startswith(REPO)]
        loc = in_repo[-1] if in_repo else where[-1]
        mon.fail(f"{sc.name}:exception:{type(e).__name__}:{os.path.basename(loc.filename)}:{loc.name}",
                 f"{type(e).__name__}: {e}\n{tb[-900:]}")
    finally:
        signal.alarm(0)
    return mon


def _worker(pid, scenarios, seed, cases, slot, out_path):
    faulthandler.enable()
    try:
        import torch
        torch.set_num_threads(1)
    except Exception:
        pass
    agg = {}
    with open(out_path, "w") as out:
        for si, idx in cases:
            slot.seek(0)
            slot.write(struct.pack("<iiq", si, idx, 1))
            mon = run_case(pid, scenarios[si], seed, idx)
            d = mon.dump()
            d["s"], d["i"] = si, idx
            out.write(json.dumps(d) + "\n")
            out.flush()
    slot.seek(0)
    slot.write(struct.pack("<iiq", -1, -1, 0))


def run_cases(pid, scenarios, seed, tier, work, deadline, quick_scale=1):
    """All cases over NSHARDS forked workers; a worker that dies is a violation of the
    case it was in, and its remaining cases continue in a new worker."""
    all_cases = []
    for si, sc in enumerate(scenarios):
        for i in range(min(sc.quick * quick_scale, sc.thorough) if tier == "quick" else sc.thorough):
            all_cases.append((si, i))
    # interleave so that shards have the same mix
    all_cases.sort(key=lambda c: derive(pid, "order", c[0], c[1]))
    n = max(1, min(NSHARDS, len(all_cases)))
    shards = [all_cases[k::n] for k in range(n)]
    results, crashes, unfinished = [], [], 0
    procs = {}

    def launch(k, cases, gen):
        slot = mmap.mmap(-1, 64)
        path = os.path.join(work, f"w{k}.{gen}.jsonl")
        sys.stdout.flush()
        sys.stderr.flush()
        child = os.fork()
        if child == 0:
            rc = 1
            try:
                if os.environ.get("VERIF_VERBOSE") is None:
                    err = os.open(path + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(err, 1)
                    os.dup2(err, 2)
                _worker(pid, scenarios, seed, cases, slot, path)
                rc = 0
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(rc)
        procs[child] = (k, cases, gen, slot, path)

    for k, cs in enumerate(shards):
        launch(k, cs, 0)
    stopped = False
    while procs:
        child, status = os.waitpid(-1, os.WNOHANG)
        if child == 0:
            if time.time() > deadline and not stopped:
                stopped = True
                for c in procs:
                    os.kill(c, signal.SIGKILL)
            time.sleep(0.02)
            continue
        if child not in procs:
            continue
        k, cases, gen, slot, path = procs.pop(child)
        done = set()
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    results.append(d)
                    done.add((d["s"], d["i"]))
        slot.seek(0)
        si, idx, busy = struct.unpack("<iiq", slot.read(16))
        if status != 0 and not stopped:
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
            err = ""
            try:
                with open(path + ".err", errors="replace") as f:
                    err = f.read()
            except OSError:
                pass
            if busy == 1 and (si, idx) not in done:
                crashes.append((si, idx, sig, os.WEXITSTATUS(status) if sig is None else None, err))
                rest = cases[cases.index((si, idx)) + 1:]
                if rest and gen < 25:
                    launch(k, rest, gen + 1)
                else:
                    unfinished += len(rest)
            else:
                crashes.append((-1, -1, sig, None, err))
        elif stopped:
            unfinished += len([c for c in cases if c not in done])
    return results, crashes, unfinished, len(all_cases)


# ----------------------------------------------------------------------------- main
def known_findings(pid):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == pid]


def match_known(known, key):
    for k in known:
        pat = k["key"]
        if key == pat or (pat.endswith("*") and key.startswith(pat[:-1])):
            return k
    return None


def crash_key(sc_name, sig, rc, err):
    kind = None
    for line in err.splitlines():
        if "ERROR: AddressSanitizer" in line or "runtime error:" in line or "ThreadSanitizer" in line:
            kind = line.strip()
    if kind:
        frame = ""
        for line in err.splitlines():
            s = line.strip()
            if s.startswith("#") and "/src/" in s:
                frame = s.split(" in ", 1)[-1].split("(")[0][:60]
                break
        tag = "asan" if "Address" in kind else ("ubsan" if "runtime" in kind else "tsan")
        return f"{sc_name}:{tag}:{frame}", kind
    return f"{sc_name}:crash:{signal.Signals(sig).name if sig else 'exit%s' % rc}", ""


def main(pid, scenarios, level="exploration", rule="", assumptions=(), requires=(), sos=None,
         budget=None, argv=None, extra=None, quick_scale=1):
    ap = argparse.ArgumentParser()
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args(argv)
    t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    by_name = {s.name: s for s in scenarios}
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        mon = run_case(pid, by_name[r["scenario"]], r["seed"], r["case"])
        for v in mon.viol:
            print(v["key"], v["msg"])
        sys.exit(1 if mon.viol else 0)
    if a.only:
        scenarios = [s for s in scenarios if s.name in a.only.split(",")]
        requires = ()
    if budget is None:
        budget = 780 if tier == "quick" else 6 * 3600
    work = os.path.join(VERIF, ".build", "work", f"{pid}.{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    results, crashes, unfinished, total = run_cases(pid, scenarios, a.seed, tier, work, t0 + budget, quick_scale)

    events, states, evals, samples, skipped = {}, set(), 0, [], 0
    per = {s.name: {"cases": 0, "evaluations": 0, "skipped": 0} for s in scenarios}
    viol = {}

    def add_viol(key, msg, si, idx):
        viol.setdefault(key, []).append((msg, scenarios[si].name if si >= 0 else "?", idx))

    for d in sorted(results, key=lambda d: (d["s"], d["i"])):
        name = scenarios[d["s"]].name
        per[name]["cases"] += 1
        per[name]["evaluations"] += d["evals"]
        per[name]["skipped"] += d["skipped"]
        evals += d["evals"]
        skipped += d["skipped"]
        states.update(f"{name}:{x}" for x in d["states"])
        for k, v in d["events"].items():
            events[k] = events.get(k, 0) + v
        if d["samples"] and sum(1 for s in samples if s["scenario"] == name) < 2 and len(samples) < 24:
            samples.append({"scenario": name, "case": d["i"], "observed": d["samples"][0]})
        for v in d["viol"]:
            add_viol(v["key"], v["msg"], d["s"], d["i"])
    harness_errors = []
    for si, idx, sig, rc, err in crashes:
        if si < 0:
            harness_errors.append(f"worker died outside a case: signal {sig}: {err[-300:]}")
            continue
        key, kind = crash_key(scenarios[si].name, sig, rc, err)
        add_viol(key, f"process died (signal {sig}, exit {rc}) {kind}\n{err[-1500:]}", si, idx)

    known = known_findings(pid)
    seen_known, new = {}, {}
    for key, items in viol.items():
        k = match_known(known, key)
        if k is not None:
            seen_known.setdefault(k["key"], []).extend(items)
        else:
            new[key] = items

    missing = [r for r in requires if not events.get(r)]
    for s in scenarios:
        if per[s.name]["evaluations"] < s.min_evals and not any(
                i[1] == s.name for items in viol.values() for i in items):
            missing.append(f"scenario {s.name}: no oracle evaluation")

    replay_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    vlist = []
    for n, (key, items) in enumerate(sorted(new.items())):
        msg, name, idx = items[0]
        path = os.path.join(replay_dir, f"{pid}.{n}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "scenario": name, "seed": a.seed, "case": idx, "key": key,
                       "message": msg, "occurrences": len(items)}, f, indent=1)
        vlist.append((key, msg, path, len(items)))

    ev = {
        "property": pid, "tier": tier, "seed": a.seed, "level": level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(states),
            "rule": rule or "a case counts once per distinct signature (configuration, shapes, "
                            "history class) in which the oracle had something to decide",
            "events_observed": dict(sorted(events.items())),
            "scenarios": per,
            "cases_run": len(results), "cases_planned": total, "cases_unfinished": unfinished,
            "cases_skipped": skipped,
            "samples": samples,
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": list(assumptions),
        "violations": [{"key": k, "occurrences": c, "message": m[:400], "replay": p}
                       for k, m, p, c in vlist],
        "known_findings_observed": {k: len(v) for k, v in seen_known.items()},
    }
    if extra:
        ev["coverage"].update(extra)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    tmp = os.path.join(evdir, f".{pid}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evdir, f"{pid}.json"))
    _rmtree(work)

    for k in known:
        n = len(seen_known.get(k["key"], []))
        print(f"KNOWN-FINDING: property={pid} {k['what']} [key {k['key']}, observed {n}x in this run]")
    print(f"[{pid}] {tier} seed={a.seed}: {len(results)}/{total} cases, {evals} oracle evaluations, "
          f"{len(states)} distinct situations, {time.time() - t0:.1f} s")
    if vlist:
        for key, msg, path, c in vlist:
            print(f"  {key} ({c}x): {msg[:700]}")
            print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if harness_errors or missing or (unfinished and tier == "quick"):
        print(f"INCONCLUSIVE: missing={missing} errors={harness_errors} unfinished={unfinished}")
        sys.exit(2)
    sys.exit(0)


def _rmtree(path):
    import shutil

    shutil.rmtree(path, ignore_errors=True)
