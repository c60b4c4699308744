"""P26: parallel regions are race free and give the serial result.

Monitor: ThreadSanitizer watches every access of the real compiled code while the OpenMP regions run on a
runtime made of plain threads (lib/omp_shim.c), so that every fork and join is visible to it; a report is a
violation. A second oracle runs the same calls with one thread, with several threads in random order and
with threads of other tiles at the same time, and compares every observable bit for bit.
"""
import copy
import ctypes
import faulthandler
import os
import sys
import threading

import torch
from torch import nn

import gen
import pulse
import snap
import vh
from vh import Scenario, Skip, seed_all
from aihwkit.exceptions import AihwkitException
from aihwkit.nn import AnalogLinear, AnalogConv2d, AnalogLinearMapped
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import (
    FloatingPointRPUConfig, InferenceRPUConfig, SingleRPUConfig, TorchInferenceRPUConfig, UnitCellRPUConfig, WeightClipParameter, UpdateParameters, IOParameters)
from aihwkit.simulator.configs import compounds as C, devices as D
from aihwkit.simulator.parameters.enums import PulseType, RPUDataType, VectorUnitCellUpdatePolicy, WeightClipType
from aihwkit.simulator.parameters.helpers import parameters_to_bindings

PID = "P26"
VARIANT = "tsan"
RULE = ("no access of the compiled simulator races with another one, and every output, weight, hidden parameter and extra state after a history of calls is "
        "bit-identical for one thread and for several threads of a region in any order, and for tiles used concurrently from several Python threads")
ASSUMPTIONS = ["the OpenMP runtime is replaced by an equivalent one on plain threads", "ThreadSanitizer reports every race between accesses that the execution performs",
               "torch operations may differ by rounding between thread counts"]
REQUIRES = ["detector", "region", "many_threads", "random", "threads", "torch_threads", "compound"]

LIB = None


def omp(n, mode=0, seed=1):
    global LIB
    if LIB is None:
        import aihwkit.simulator.rpu_base as rb
        LIB = ctypes.CDLL(rb.__file__)
        LIB.verif_omp.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_ulonglong]
        LIB.verif_omp_regions.restype = ctypes.c_long
    LIB.verif_omp(n, mode, seed)


def regions():
    return LIB.verif_omp_regions(1)


def cell(rng):
    """A device with several devices inside, preferably many."""
    kind = rng.choice(["Vector", "Vector", "Vector"] + list(gen.COMPOUND_KINDS))
    if kind == "Vector":
        n = rng.choice([2, 3, 5, 8])
        devs = [gen.rand_device(rng, rng.choice(list(gen.DEVICE_KINDS)), True) for _ in range(n)]
        dev = C.VectorUnitCell(unit_cell_devices=devs, update_policy=rng.choice(list(VectorUnitCellUpdatePolicy)))
    else:
        dev = gen.rand_compound(rng, kind)
        devs = getattr(dev, "unit_cell_devices", None) or [dev.device]
    for d in devs:
        d.lifetime = rng.choice([0., 50., 7.])
        d.lifetime_dtod = rng.choice([0., .2])
        d.diffusion = rng.choice([0., .01])
        d.reset_std = .01
        if gen.coin(rng, .4):
            d.drift.nu = .1
            d.drift.nu_dtod = .2
    return kind, dev


def config(rng):
    kind, dev = cell(rng)
    cfg = gen.wrap_device(dev)
    cfg.forward.is_perfect = gen.coin(rng)
    cfg.backward.is_perfect = gen.coin(rng)
    cfg.forward.out_noise = rng.choice([0., .05])
    cfg.forward.w_noise = rng.choice([0., .02])
    cfg.update.pulse_type = rng.choice([PulseType.STOCHASTIC, PulseType.STOCHASTIC_COMPRESSED, PulseType.DETERMINISTIC_IMPLICIT])
    cfg.update.desired_bl = rng.choice([3, 10, 31])
    return kind, cfg


OPS = ["forward", "backward", "update", "update", "decay", "decay", "diffuse", "drift", "clip", "clip", "reset", "weights", "hidden", "post", "cycle", "extra"]


def step(tile, op, a):
    """One call; returns what it shows."""
    t = tile.tile
    if op == "forward":
        return t.forward(a["x"], False, False, False, a["flag"], False)
    if op == "backward":
        return t.backward(a["d"], False, False, False, False)
    if op == "update":
        t.update(a["x"], a["d"], False, False, False, False)
    elif op == "decay":
        t.decay_weights(a["f"])
    elif op == "diffuse":
        t.diffuse_weights()
    elif op == "drift":
        t.drift_weights(1. + a["f"])
    elif op == "clip":
        t.clip_weights(parameters_to_bindings(a["clip"], RPUDataType.FLOAT))
    elif op == "reset":
        t.reset_columns(a["c"], a["n"], a["f"])
    elif op == "weights":
        t.set_weights(a["w"])
    elif op == "hidden":
        t.set_hidden_parameters(t.get_hidden_parameters())
    elif op == "post":
        tile.post_update_step()
    elif op == "cycle":
        tile.set_learning_rate(a["f"] * .3 + .01)
    elif op == "extra":
        t.load_extra(t.dump_extra(), False)
    return None


def args(rng, n_in, n_out):
    w = torch.randn(n_out, n_in) * .2
    g = lambda *s: torch.randn(*s)
    b = rng.choice([1, 2, 5])
    return dict(x=g(b, n_in), d=g(b, n_out) * .3, flag=gen.coin(rng), f=rng.choice([.1, .5, 1.]), w=w, c=rng.randrange(n_in), n=rng.randint(1, n_in),
                clip=WeightClipParameter(type=WeightClipType.FIXED_VALUE, fixed_value=rng.choice([.1, .3]), sigma=2.))


def show(tile):
    t = tile.tile
    out = {"w": t.get_weights().clone(), "h": t.get_hidden_parameters().clone()}
    try:
        for k, v in t.dump_extra().items():
            out["x:" + k] = torch.as_tensor(v)
    except (TypeError, ValueError):
        pass
    return out


def same(mon, key, a, b, what):
    for k in a:
        ok = k in b and a[k].shape == b[k].shape and torch.equal(torch.nan_to_num(a[k].double(), 7.), torch.nan_to_num(b[k].double(), 7.))
        mon.check(ok, f"{key}:{k.split(':')[0]}", f"{what}: {k} differs from the serial run")


def history(tile, ops, mon=None):
    outs = []
    for op, a in ops:
        try:
            r = step(tile, op, a)
        except (RuntimeError, AihwkitException) as e:
            r = None
            outs.append(torch.zeros(1))
            if "not" not in str(e):
                raise
        if r is not None:
            outs.append(r.clone())
    return outs


# ---- the detector itself
def sc_detector(rng, mon):
    """A deliberate race (of the harness) ends the process that runs it."""
    omp(1)
    pid = os.fork()
    if pid == 0:
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 2)
        os.dup2(fd, 1)
        faulthandler.disable()
        LIB.verif_race()
        os._exit(0)
    _, status = os.waitpid(pid, 0)
    if status != 0:
        mon.obs("detector")
    mon.check(True, "detector", "")
    mon.state("detector", status != 0)


# ---- regions with several threads
def sc_regions(rng, mon):
    kind, cfg = config(rng)
    n_in, n_out = rng.choice([(3, 2), (7, 5), (20, 13), (40, 30)])
    seed = rng.randrange(1 << 30)
    ops = [(op, args(rng, n_in, n_out)) for op in (rng.choice(OPS) for _ in range(rng.randint(4, 14)))]
    mon.ctx = f"{kind} {n_out}x{n_in} {[o for o, _ in ops]}"
    runs = []
    n0 = 0
    for n, mode in [(1, 0)] + rng.sample([(2, 1), (3, 1), (8, 1), (2, 2), (4, 2), (16, 0)], 2):
        omp(n, mode, rng.randrange(1, 1 << 30))
        seed_all(seed)
        tile = cfg.tile_class(n_out, n_in, copy.deepcopy(cfg))
        tile.tile.set_weights(ops[0][1]["w"])
        tile.set_learning_rate(.05)
        n0 = regions()
        outs = history(tile, ops)
        k = regions() - n0
        mon.obs("region", k)
        if k and n > 4:
            mon.obs("many_threads", k)
        runs.append((n, mode, outs, show(tile), tile.tile.forward(ops[0][1]["x"], False, False, False, False, False), k))
    omp(1)
    for n, mode, outs, st, y, k in runs[1:]:
        what = f"{n} threads{' one by one' if mode == 2 else ''}, {k} regions"
        mon.check(len(outs) == len(runs[0][2]) and all(torch.equal(torch.nan_to_num(a), torch.nan_to_num(b)) for a, b in zip(outs, runs[0][2])), "regions:output", what + ": outputs differ from the serial run")
        same(mon, "regions:state", runs[0][3], st, what)
        mon.check(torch.equal(torch.nan_to_num(y), torch.nan_to_num(runs[0][4])), "regions:after", what + ": next output (generator state) differs from the serial run")
        mon.state("regions", kind, n, mode, min(k, 3))
    if kind != "Vector":
        mon.obs("compound")
    if any(o in ("diffuse", "drift", "reset") for o, _ in ops):
        mon.obs("random")


# ---- several tiles at once
def sc_threads(rng, mon):
    """Tiles used from several Python threads do as they do alone."""
    n = rng.choice([2, 3, 4])
    made = []
    for _ in range(n):
        # (the generator of random numbers is shared between tiles: nothing random here)
        cfg, kind = gen.det_train_config(rng, rng.choice([k for k in gen.TRAIN_KINDS if ":" in k and k != "cmp:MixedPrecision"]))
        n_in, n_out = rng.choice([(3, 2), (7, 5), (20, 13)])
        ops = [(op, dict(args(rng, n_in, n_out), f=1.)) for op in (rng.choice(OPS) for _ in range(rng.randint(5, 15)))]
        made.append((kind, cfg, n_in, n_out, ops))
    mon.ctx = f"{[m[0] for m in made]}"
    seed = rng.randrange(1 << 30)
    omp(1)

    def build():
        seed_all(seed)
        out = []
        for kind, cfg, n_in, n_out, ops in made:
            t = cfg.tile_class(n_out, n_in, copy.deepcopy(cfg))
            t.tile.set_weights(ops[0][1]["w"])
            t.set_learning_rate(.05)
            out.append(t)
        return out

    def run(tiles, parallel):
        res = [None] * n
        err = []
        gate = threading.Barrier(n) if parallel else None

        def go(i):
            try:
                if gate:
                    gate.wait()
                res[i] = history(tiles[i], made[i][4])
            except BaseException as e:  # pylint: disable=broad-except
                err.append(e)
        if parallel:
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)
            th = [threading.Thread(target=go, args=(i,)) for i in range(n)]
            [t.start() for t in th]
            [t.join() for t in th]
            sys.setswitchinterval(old)
        else:
            [go(i) for i in range(n)]
        if err:
            raise err[0]
        return res
    a = build()
    ra = run(a, False)
    if gen.coin(rng):
        omp(rng.choice([2, 4]), 1, rng.randrange(1, 1 << 30))
    b = build()
    rb = run(b, True)
    omp(1)
    for i in range(n):
        mon.check(all(torch.equal(torch.nan_to_num(p), torch.nan_to_num(q)) for p, q in zip(ra[i], rb[i])), "threads:output", f"tile {i}: outputs differ from the serial run")
        same(mon, "threads:state", show(a[i]), show(b[i]), f"tile {i}")
    mon.obs("threads", n)
    mon.state("threads", n, tuple(sorted(m[0] for m in made)))


def sc_models(rng, mon):
    """Models trained at the same time in several Python threads end as when trained alone."""
    n = rng.choice([2, 3])
    rng_sizes = rng.choice([(512, 512), (4, 3)])
    specs = []
    for _ in range(n):
        mapping = gen.rand_mapping(rng)
        mapping.max_input_size, mapping.max_output_size = rng_sizes
        cfg, kind = gen.det_train_config(rng, rng.choice([k for k in gen.TRAIN_KINDS if k != "cmp:MixedPrecision"]), mapping)
        specs.append((kind, rng.choice([AnalogLinear, AnalogLinear, AnalogLinearMapped]), rng.randint(3, 9), rng.randint(2, 6), cfg))
    mon.ctx = f"{[(s[0], s[1].__name__) for s in specs]}"
    seed = rng.randrange(1 << 30)

    def build():
        seed_all(seed)
        out = []
        for kind, cls, n_in, n_out, cfg in specs:
            cfg = copy.deepcopy(cfg)
            m = nn.Sequential(cls(n_in, n_out, rpu_config=cfg), nn.Tanh(), nn.Linear(n_out, 2))
            opt = AnalogSGD(m.parameters(), lr=.1)
            opt.regroup_param_groups(m)
            out.append((m, opt, torch.randn(6, n_in), torch.randn(6, 2)))
        return out

    def train(item):
        m, opt, x, y = item
        losses = []
        for _ in range(6):
            opt.zero_grad()
            l = ((m(x) - y) ** 2).mean()
            l.backward()
            opt.step()
            losses.append(float(l))
        m.eval()
        return losses, m(x).detach()

    def run(items, parallel):
        res, err = [None] * n, []

        def go(i):
            try:
                res[i] = train(items[i])
            except BaseException as e:  # pylint: disable=broad-except
                err.append(e)
        if parallel:
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)
            th = [threading.Thread(target=go, args=(i,)) for i in range(n)]
            [t.start() for t in th]
            [t.join() for t in th]
            sys.setswitchinterval(old)
        else:
            [go(i) for i in range(n)]
        if err:
            raise err[0]
        return res
    omp(1)
    ra = run(build(), False)
    omp(rng.choice([1, 3]), 1, 5)
    rb = run(build(), True)
    omp(1)
    for i in range(n):
        mon.check(ra[i][0] == rb[i][0] and torch.equal(ra[i][1], rb[i][1]), "models:result", f"model {i} ({specs[i][0]}) trained together with others differs: {ra[i][0][-1]} vs {rb[i][0][-1]}")
    mon.obs("threads", n)
    mon.state("models", tuple(sorted(s[0] for s in specs)), rng_sizes)


# ---- torch threads
def sc_torch(rng, mon):
    """The number of torch threads does not matter beyond rounding."""
    kind = rng.choice(["single", "inference", "torch", "torch_perfect", "conv"])
    seed = rng.randrange(1 << 30)
    n_in, n_out, b = rng.choice([(64, 48, 16), (300, 200, 64), (520, 130, 40)])
    if kind == "conv":
        n_in, n_out, b = 4, 8, rng.choice([2, 16])
    mon.ctx = f"{kind} {n_in} {n_out} {b}"
    res = []
    for k in (1, rng.choice([2, 4, 8])):
        torch.set_num_threads(k)
        try:
            seed_all(seed)
            if kind == "single":
                cfg = SingleRPUConfig(device=D.ConstantStepDevice())
            elif kind in ("inference", "conv"):
                cfg = InferenceRPUConfig()
            else:
                cfg = TorchInferenceRPUConfig()
                cfg.forward.is_perfect = kind == "torch_perfect"
            cfg.forward.out_res = -1.  # (a step of the converters amplifies rounding)
            cfg.forward.inp_res = -1.
            cfg.backward.out_res = -1.
            cfg.backward.inp_res = -1.
            layer = AnalogConv2d(n_in, n_out, 3, rpu_config=cfg) if kind == "conv" else AnalogLinear(n_in, n_out, rpu_config=cfg)
            x = torch.randn(b, n_in, 12, 12) if kind == "conv" else torch.randn(b, n_in)
            x.requires_grad_()
            y = layer(x)
            y.square().mean().backward()
            layer.eval()
            z = layer(x)
            res.append((y.detach(), x.grad, z.detach()))
        finally:
            torch.set_num_threads(1)
    for what, p, q in zip(("output", "gradient", "evaluation"), *res):
        mon.close(q, p, f"torch:{what}", rtol=1e-3, atol=1e-4 * float(p.abs().max()))
    mon.obs("torch_threads")
    mon.state("torch", kind, n_in)


SCENARIOS = [
    Scenario("detector", sc_detector, quick=4, thorough=8),
    Scenario("regions", sc_regions, quick=400, thorough=12000),
    Scenario("threads", sc_threads, quick=60, thorough=2500),
    Scenario("models", sc_models, quick=24, thorough=800),
    Scenario("torch", sc_torch, quick=24, thorough=400),
]
