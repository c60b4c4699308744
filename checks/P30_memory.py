"""P30: repeated use does not accumulate memory.

Monitor: the bytes in use by the C heap (which holds the compiled tiles and all tensor data), the blocks
of the Python allocator and the number of live tensors and analog objects are read before and after
every round of repetitions of one operation. What an operation needs once (caches, pools, optimizer
states) is gone after the warm-up; memory that grows in every round of several is accumulated.
"""
import array
import contextlib
import copy
import ctypes
import gc
import io
import sys

import torch
from torch import nn

import gen
from gen import coin
from vh import Scenario, Skip
from aihwkit.inference import GlobalDriftCompensation, PCMLikeNoiseModel
from aihwkit.inference.calibration.calibration import InputRangeCalibrationType, calibrate_input_ranges
from aihwkit.linalg.matrix import AnalogMatrix
from aihwkit.nn import AnalogLinear, AnalogLinearMapped, AnalogSequential
from aihwkit.nn.conversion import convert_to_analog, convert_to_digital
from aihwkit.nn.modules.base import AnalogLayerBase
from aihwkit.optim import AnalogAdam, AnalogSGD
from aihwkit.simulator.configs import (
    InferenceRPUConfig, TorchInferenceRPUConfig, WeightModifierParameter, WeightClipParameter,
    build_config, devices as D)
from aihwkit.simulator.parameters.enums import WeightModifierType, WeightClipType
from aihwkit.utils.analog_info import analog_summary
from aihwkit.simulator.tiles.base import SimulatorTileWrapper
from aihwkit.simulator.tiles.transfer import TorchTransferTile

PID = "P30"
RULE = "one state per (operation, kind of configuration, kind of model)"
ASSUMPTIONS = ["glibc's accounting of the heap (mallinfo2) is complete for the compiled simulator and torch's CPU tensors",
               "an accumulation of less than 1/8 block per operation is not observable"]
REQUIRES = ("train", "eval", "copy", "state", "construct", "refused", "tile", "convert", "inference", "round")


class _Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks",
                                               "uordblks", "fordblks", "keepcost")]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = _Info


def usage(out):
    gc.collect()
    i = _libc.mallinfo2()
    objs = gc.get_objects()
    n = sum(1 for o in objs if isinstance(o, (torch.Tensor, SimulatorTileWrapper, AnalogLayerBase)))
    k = len(objs)
    del objs
    out[0], out[1], out[2], out[3] = i.uordblks + i.hblkhd, sys.getallocatedblocks(), n, k


def judge(mon, op, n, key):
    """Rounds of n operations until one round without growth of each quantity; longer rounds on suspicion."""
    for _ in range(2 * n):
        op()
    gc.collect()
    gc.freeze()
    try:
        for length in (n, 4 * n, 20 * n):
            low, high = array.array("d", [1e30] * 4), array.array("d", [-1e30] * 4)
            last, now = array.array("d", [0.0] * 4), array.array("d", [0.0] * 4)
            usage(last)
            for r in range(6):
                for _ in range(length):
                    op()
                usage(now)
                for i in range(4):
                    low[i] = min(low[i], (now[i] - last[i]) / length)
                    high[i] = max(high[i], (now[i] - last[i]) / length)
                    last[i] = now[i]
                mon.obs("round")
                if all(low[i] <= SLACK[i] or (r > 2 and low[i] < 0.6 * high[i]) for i in range(4)):
                    break
            else:
                continue
            break
    finally:
        gc.unfreeze()
    for i, name in enumerate(NAMES):
        # pools and tables fill up irregularly; an accumulation is the same in every round
        mon.check(low[i] <= SLACK[i] or low[i] < 0.6 * high[i], f"{key}:{name.split()[0]}",
                  lambda: f"at least {low[i]:.2f} {name} per operation in each of 6 rounds of {length}")


NAMES = ("heap bytes", "python blocks", "tensors and analog objects", "python objects")
SLACK = (48.0, 0.6, 0.1, 0.25)      # per operation


def config(rng):
    kind = rng.choice(["perfect", "train", "compound", "inference", "torch", "transfer_torch", "mixed"])
    if kind == "perfect":
        cfg, sub = gen.perfect_config(rng)
        return cfg, sub
    if kind == "train":
        out = gen.det_train_config(rng)
        return (out[0] if isinstance(out, tuple) else out), kind
    if kind == "compound":
        return build_config(rng.choice(["ttv2", "agad", "c-ttv2", "tiki-taka"]), D.SoftBoundsReferenceDevice()), kind
    if kind == "mixed":
        return build_config("mp", D.SoftBoundsReferenceDevice()), kind
    if kind == "transfer_torch":
        cfg = build_config(rng.choice(["ttv2", "agad", "c-ttv2"]), D.SoftBoundsReferenceDevice())
        cfg.tile_class = TorchTransferTile
        cfg.device.transfer_every = 1.0
        cfg.device.units_in_mbatch = True
        cfg.mapping.digital_bias = True
        return cfg, kind
    cfg = InferenceRPUConfig() if kind == "inference" else TorchInferenceRPUConfig()
    if coin(rng):
        cfg.pre_post.input_range.enable = True
        cfg.pre_post.input_range.init_from_data = 2
    if coin(rng):
        cfg.modifier = WeightModifierParameter(type=rng.choice([WeightModifierType.ADD_NORMAL, WeightModifierType.NONE]), std_dev=0.1)
    if coin(rng):
        cfg.clip = WeightClipParameter(type=WeightClipType.FIXED_VALUE, fixed_value=1.0)
    cfg.noise_model = PCMLikeNoiseModel()
    cfg.drift_compensation = GlobalDriftCompensation() if coin(rng) else None
    return cfg, kind


def swallow(fn):
    """A refused call, without keeping its traceback."""
    try:
        fn()
    except Exception:       # noqa
        return
    raise Skip("not refused")


def s_repeat(rng, mon):
    cfg, ckind = config(rng)
    kinds = ["linear", "two", "conv", "mapped", "lstm"] + (["conv_idx"] if ckind not in ("transfer_torch", "torch", "custom") else [])
    model, make, mkind = gen.rand_model(rng, cfg, kinds)
    x = make(rng)
    infer = ckind in ("inference", "torch")
    opt = (AnalogAdam if coin(rng, 0.3) else AnalogSGD)(model.parameters(), lr=0.01)
    opt.regroup_param_groups(model)
    tiles = [t for lay in model.modules() if isinstance(lay, AnalogLayerBase) for t in lay.analog_tiles()]
    tile = rng.choice(tiles)
    ready = ckind != "transfer_torch"

    def eval_():
        model.eval()
        model(x)

    def no_grad():
        model.train()
        with torch.no_grad():
            model(x)

    def forward():
        model.train()
        model(x)

    def backward():
        model.train()
        opt.zero_grad()
        model(x).sum().backward()

    def train():
        backward()
        opt.step()

    def many():
        model.train()
        opt.zero_grad()
        for _ in range(3):
            model(x).sum().backward()
        opt.step()

    def frozen():
        opt0 = AnalogSGD(model.parameters(), lr=0.0)
        opt0.regroup_param_groups(model)
        for _ in range(2):
            model.train()
            model(x).sum().backward()
            opt0.step()

    def accumulate():
        model.train()
        model(x).sum().backward()
        opt.step()

    def deep():
        copy.deepcopy(model)

    def save():
        b = io.BytesIO()
        torch.save(model, b)
        b.seek(0)
        torch.load(b, weights_only=False)

    def state():
        model.load_state_dict(model.state_dict())

    def opt_state():
        opt.load_state_dict(opt.state_dict())

    def new_opt():
        o = AnalogSGD(model.parameters(), lr=0.1)
        o.regroup_param_groups(model)

    def weights():
        for t in tiles:
            getattr(t, "set_weights", lambda *_: None)(*getattr(t, "get_weights", tuple)())

    def hidden():
        tile.set_hidden_parameters(tile.get_hidden_parameters())

    def to_digital():
        convert_to_digital(model)

    def to_analog():
        convert_to_analog(nn.Sequential(nn.Linear(4, 3), nn.Tanh(), nn.Conv1d(2, 2, 2)), cfg)

    def construct():
        c = copy.deepcopy(cfg)
        AnalogSequential((AnalogLinearMapped if mkind == "mapped" else AnalogLinear)(5, 3, rpu_config=c))

    def view():
        for t in tiles:
            t.analog_ctx.enable_data_view()
            t.analog_ctx.norm()
            t.analog_ctx.enable_placeholder()

    def named():
        list(model.named_parameters())
        dict(model.named_buffers())
        str(model)

    def to_cpu():
        model.to("cpu")

    def program():
        model.eval()
        for lay in model.modules():
            if isinstance(lay, AnalogLayerBase) and hasattr(lay, "program_analog_weights") and list(lay.analog_tiles()):
                lay.program_analog_weights()

    def drift():
        for lay in model.modules():
            if isinstance(lay, AnalogLayerBase) and list(lay.analog_tiles()):
                lay.drift_analog_weights(rng.choice([1.0, 100.0]))
        model(x)

    def remap():
        for lay in model.modules():
            if isinstance(lay, AnalogLayerBase) and list(lay.analog_tiles()):
                lay.remap_analog_weights()

    def post():
        for t in tiles:
            t.post_update_step()

    def wrong_input():
        swallow(lambda: model(torch.randn(2, 99)))

    def wrong_weights():
        swallow(lambda: tile.tile.set_weights(torch.rand(1, 99)))

    def wrong_state():
        swallow(lambda: model.load_state_dict({}))

    def wrong_step():
        model.train()
        y = model(x)
        swallow(lambda: y.backward(torch.rand(3, 3, 3, 3)))

    def summary():
        with contextlib.redirect_stdout(io.StringIO()):
            analog_summary(model, tuple(x.shape))

    def calibrate():
        calibrate_input_ranges(model, rng.choice([InputRangeCalibrationType.MAX, InputRangeCalibrationType.CACHE_QUANTILE,
                                                  InputRangeCalibrationType.MOVING_QUANTILE]), iter([((x,), {})]), 0.99, 20)

    def matrix():
        m = AnalogMatrix(torch.rand(3, 4), cfg)
        m @ torch.rand(2, 4)

    other = make(rng)

    def shapes():
        nonlocal x, other
        backward()
        x, other = other, x

    ops = {"eval": [eval_], "nograd": [no_grad], "train": [forward, backward, train, many, shapes, frozen, accumulate], "copy": [deep, save],
           "state": [state, opt_state, new_opt, weights, named], "construct": [construct, to_cpu], "convert": [to_digital, to_analog, summary],
           "tile": [post, view], "refused": [wrong_input, wrong_weights, wrong_state, wrong_step]}
    if infer:
        ops["inference"] = [program, drift, remap, calibrate]
    else:
        ops["tile"] += [hidden, matrix]
    if ckind in ("custom", "torch", "transfer_torch"):
        ops["tile"] = [post, view]
    if not ready and mkind == "lstm":
        ops["train"] = [forward, train]     # the torch transfer tile accepts one update per step
    group = "inference" if infer and coin(rng, 0.4) else rng.choice(sorted(ops))
    op = rng.choice(ops[group])
    mon.ctx = f"{op.__name__} {ckind} {mkind} {type(opt).__name__}"
    try:
        for _ in range(3):
            op()
    except Skip:
        return
    except Exception as e:      # unsupported combinations are judged elsewhere
        if type(e).__module__.startswith("aihwkit") or isinstance(e, (NotImplementedError, RuntimeError)):
            mon.obs("unsupported")
            mon.state("unsupported", op.__name__, ckind)
            return
        raise
    if infer and op is drift:
        program()
    judge(mon, op, 12, f"grows:{op.__name__}")
    mon.obs(group)
    mon.state(op.__name__, ckind, mkind)


def s_release(rng, mon):
    """Models that are dropped are destroyed: construction, use and deletion leave nothing."""
    cfg, ckind = config(rng)
    seed = rng.randrange(1 << 30)
    stages = [coin(rng) for _ in range(5)]
    kinds = ["linear", "two", "conv", "mapped", "lstm"]
    kind = rng.choice(kinds)
    mon.ctx = f"{ckind} {kind} {stages}"

    def once():
        r = __import__("random").Random(seed)
        torch.manual_seed(seed)
        model, make, _ = gen.rand_model(r, cfg, [kind])
        x = make(r)
        opt = AnalogSGD(model.parameters(), lr=0.01)
        opt.regroup_param_groups(model)
        if stages[0]:
            model.train()
            model(x).sum().backward()
            if stages[1]:
                opt.step()
        if stages[2]:
            model.eval()
            model(x)
        if stages[3]:
            other = copy.deepcopy(model)
            other.load_state_dict(model.state_dict())
        if stages[4]:
            convert_to_digital(model)
    try:
        once()
    except Exception as e:
        if type(e).__module__.startswith("aihwkit") or isinstance(e, (NotImplementedError, RuntimeError)):
            mon.obs("unsupported")
            return
        raise
    judge(mon, once, 6, "released")
    mon.obs("construct")
    mon.state("release", ckind, kind, tuple(stages))


SCENARIOS = [
    Scenario("repeat", s_repeat, quick=50, thorough=3000, min_evals=120),
    Scenario("release", s_release, quick=16, thorough=800, min_evals=20),
]
