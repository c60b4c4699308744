"""P18: configuration objects reach the simulator unchanged.

Monitor: every field of every configuration class is set to generated values and read back from the
bound simulator object and from the description the simulator prints of a built tile; a differential
run (same seed, one field changed) observes that each field has an effect on what a tile does;
snapshots of the configuration around construction and copying observe mutation and sharing.
"""
import contextlib
import copy
import enum
import io as _io
import pickle
import re
from dataclasses import fields, is_dataclass

import torch
from torch import nn

import gen
from vh import Scenario, Skip, seed_all
import aihwkit.simulator.presets as presets
from aihwkit.exceptions import AihwkitException, ConfigError
from aihwkit.inference import GlobalDriftCompensation, PCMLikeNoiseModel
from aihwkit.nn import AnalogLinear, AnalogLinearMapped
from aihwkit.optim import AnalogSGD
from aihwkit.simulator import configs as CFG
from aihwkit.simulator.configs import compounds as C, devices as D, build_config
from aihwkit.simulator.configs import (
    DigitalRankUpdateRPUConfig, FloatingPointRPUConfig, InferenceRPUConfig, IOParameters, MappingParameter,
    SingleRPUConfig, TorchInferenceRPUConfig, UnitCellRPUConfig, UpdateParameters, WeightClipParameter, WeightModifierParameter,
    WeightRemapParameter, TorchInferenceRPUConfigIRDropT)
from aihwkit.simulator.parameters.base import RPUConfigBase
from aihwkit.simulator.parameters.enums import (
    AnalogMVType, BoundManagementType, NoiseManagementType, PulseType, RPUDataType, VectorUnitCellUpdatePolicy, WeightClipType,
    WeightModifierType, WeightNoiseType, WeightRemapType)
from aihwkit.simulator.parameters.helpers import parameters_to_bindings
from aihwkit.simulator.parameters.inference import DriftParameter, SimpleDriftParameter
from aihwkit.simulator.parameters.io import IOParametersIRDropT
from aihwkit.simulator.parameters.pre_post import InputRangeParameter, PrePostProcessingParameter
from aihwkit.simulator.parameters.runtime import RuntimeParameter
from aihwkit.simulator.rpu_base import devices as BD, tiles as BT

PID = "P18"
RULE = "one state per (class, field) or (preset) or (configuration kind, operation)"
ASSUMPTIONS = ["floats reach the simulator in single precision", "fields with documented conditions are judged in a context where the condition holds"]
REQUIRES = ("field", "effect", "printed", "copied", "preset", "unshared", "unknown_refused", "built", "torch_support")

SIMPLE = [D.IdealDevice, D.ConstantStepDevice, D.LinearStepDevice, D.SoftBoundsDevice, D.SoftBoundsPmaxDevice, D.SoftBoundsReferenceDevice,
          D.ExpStepDevice, D.PowStepDevice, D.PowStepReferenceDevice, D.PiecewiseStepDevice, D.FloatingPointDevice]
COMPOUND = [C.VectorUnitCell, C.ReferenceUnitCell, C.OneSidedUnitCell, C.TransferCompound, C.BufferedTransferCompound,
            C.ChoppedTransferCompound, C.DynamicTransferCompound, C.MixedPrecisionCompound]
OTHER = [IOParameters, UpdateParameters, WeightModifierParameter, WeightClipParameter, WeightRemapParameter, DriftParameter, SimpleDriftParameter,
         IOParametersIRDropT]


def rand_value(rng, f, v, depth=0):
    """A new value of the type the field has."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, enum.Enum):
        return rng.choice([e for e in type(v) if e.name not in ("SHIFT", "BIT_WISE", "SPLIT_MODE", "PROG_NOISE") and "BIT" not in e.name])
    if isinstance(v, int):
        return v + rng.randint(1, 7)
    if isinstance(v, float):
        return rng.choice([v + rng.uniform(.05, .5), v * 1.5 + .01, float(rng.randint(1, 4)) + .25])
    if isinstance(v, (list, tuple)):
        n = rng.randint(1, 4)
        return [rng.uniform(.1, 2.) for _ in range(n)]
    if is_dataclass(v):
        w = copy.deepcopy(v)
        for g in fields(w):
            if gen.coin(rng, .5):
                setattr(w, g.name, rand_value(rng, g, getattr(w, g.name)))
        return w
    return v


def base_device(cls, rng):
    if cls in (C.MixedPrecisionCompound,):
        return cls(device=gen.rand_device(rng, "SoftBounds"))
    if cls in COMPOUND:
        d = gen.rand_device(rng, rng.choice(["SoftBounds", "ConstantStep", "LinearStep"]))
        return cls(unit_cell_devices=[d, copy.deepcopy(d)])
    return cls()


def enum_name(e):
    return getattr(e, "name", str(e)).split(".")[-1]


def compare(mon, cls, name, want, got, dtype):
    key = f"field:{cls}.{name}"
    if isinstance(want, enum.Enum):
        mon.check(enum_name(got) == want.value or want is WeightModifierType.NONE and enum_name(got) == "Copy", key, f"{want} arrived as {got}")
    elif isinstance(want, bool) or isinstance(want, int) and not isinstance(got, float):
        mon.check(got == want, key, f"{want} arrived as {got}")
    elif isinstance(want, (int, float)):
        mon.check(abs(got - want) <= 1e-6 * (1 + abs(want)) or got == want, key, f"{want} arrived as {got}")
    elif isinstance(want, (list, tuple)):
        mon.check(len(got) == len(want) and all(abs(a - b) <= 1e-6 * (1 + abs(a)) for a, b in zip(want, got)), key, f"{want} arrived as {got}")
    elif is_dataclass(want):
        if not hasattr(want, "bindings_class"):
            return
        for g in fields(want):
            if hasattr(got, g.name):
                compare(mon, f"{cls}.{name}", g.name, getattr(want, g.name), getattr(got, g.name), dtype)
    else:
        return
    mon.obs("field")


def to_bindings(p):
    if hasattr(p, "as_bindings"):
        return p.as_bindings(RPUDataType.FLOAT)
    return parameters_to_bindings(p, RPUDataType.FLOAT)


# parameters of this device are translated to those of the soft bounds device (judged by its pulse response in P05)
PMAX_DERIVED = ("p_max", "alpha", "range_min", "range_max", "dw_min", "up_down", "w_max", "w_min")


def sc_fields(rng, mon):
    cls = rng.choice(SIMPLE + COMPOUND + OTHER)
    p = base_device(cls, rng)
    names = []
    for f in fields(p):
        if f.name in ("unit_cell_devices", "device") or not gen.coin(rng, .6):
            continue
        setattr(p, f.name, rand_value(rng, f, getattr(p, f.name)))
        names.append(f.name)
    mon.ctx = f"{cls.__name__} {names}"
    keep = copy.deepcopy(p)
    b = to_bindings(p)
    mon.check(p == keep and repr(p) == repr(keep) and str(p) == str(keep), f"bindings:unmodified:{cls.__name__}", "conversion modified the parameters")
    ignore = getattr(p, "bindings_ignore", [])
    for f in fields(p):
        if f.name in ("unit_cell_devices", "device") or f.name in ignore:
            continue
        mon.check(hasattr(b, f.name) or cls is D.SoftBoundsPmaxDevice and f.name in PMAX_DERIVED, f"field:{cls.__name__}.{f.name}", "field has no counterpart in the simulator")
        if cls is D.SoftBoundsPmaxDevice and f.name in PMAX_DERIVED:
            continue
        if hasattr(b, f.name):
            compare(mon, cls.__name__, f.name, getattr(p, f.name), getattr(b, f.name), "float")
            mon.state(cls.__name__, f.name, f.name in names)
    # a second object is independent
    q = type(p)() if cls not in COMPOUND else base_device(cls, rng)
    for f in fields(q):
        if is_dataclass(getattr(q, f.name)) and f.name != "device":
            mon.check(getattr(q, f.name) is not getattr(p, f.name), f"shared:{cls.__name__}.{f.name}", "two objects share a default")
    # sub-devices arrive in their order
    if cls in (C.VectorUnitCell, C.ReferenceUnitCell, C.TransferCompound, C.BufferedTransferCompound):
        devs = [gen.rand_device(rng, "SoftBounds") for _ in range(2 if cls is not C.VectorUnitCell else rng.randint(1, 4))]
        for k, d in enumerate(devs):
            d.dw_min, d.up_down = .001 * (k + 1) + rng.randint(1, 9) * 1e-5, rng.choice([-.1, .2])
        p.unit_cell_devices = devs
        text = str(to_bindings(p))
        pos = 0
        for k, d in enumerate(devs):
            want = re.search(r"dw_min:\s*\S+.*", str(to_bindings(d))).group(0)
            found = text.find(want, pos)
            mon.check(found >= 0, f"subdevice:{cls.__name__}", f"device {k} not found in the bound unit cell")
            pos = max(found, 0) + 1
        mon.obs("field")


def sc_printed(rng, mon):
    """What the simulator prints of a built tile is what was configured."""
    kind = rng.choice([k for k in gen.DEVICE_KINDS])
    d = gen.rand_device(rng, kind)
    d.dw_min = gen.u(rng, 1e-4, .01)
    for n in ("lifetime", "diffusion", "reset", "reset_dtod", "up_down", "dw_min_dtod", "dw_min_std", "w_max_dtod", "w_min_dtod", "up_down_dtod"):
        if hasattr(d, n) and gen.coin(rng):
            setattr(d, n, round(rng.uniform(.01, .4), 3) * (100 if n == "lifetime" else 1))
    fwd, bwd = IOParameters(), IOParameters()
    for p in (fwd, bwd):
        p.out_noise, p.inp_bound, p.out_bound = round(rng.uniform(.01, .2), 3), 1.0, float(rng.randint(2, 30))
        p.inp_res, p.out_res = float(rng.randint(2, 300)), float(rng.randint(2, 600))
        p.mv_type = rng.choice([AnalogMVType.ONE_PASS, AnalogMVType.POS_NEG_SEPARATE])
    up = UpdateParameters(desired_bl=rng.randint(1, 60), update_management=gen.coin(rng), update_bl_management=gen.coin(rng))
    c = SingleRPUConfig(device=d, forward=fwd, backward=bwd, update=up)
    keep = copy.deepcopy(c)
    tile = AnalogLinear(3, 2, rpu_config=c).analog_module
    mon.ctx = f"{kind}"
    mon.check(c == keep and repr(c) == repr(keep), "printed:config", "construction modified the configuration")
    text = str(tile.tile)
    want = [l.strip() for l in str(to_bindings(d)).splitlines() if l.strip()]
    have = [l.strip() for l in text.splitlines()]
    miss = [l for l in want if l not in have and not l.startswith("granularity")]
    mon.check(not miss, f"printed:device:{kind}", f"missing in the description of the tile: {miss[:4]}")
    for sec, p in (("Forward", fwd), ("Backward", bwd)):
        m = re.search(sec + r":\n(.*?)(\n\S|\Z)", text, re.S)
        body = m.group(1)
        num = {k: v for k, v in re.findall(r"([\w/\[\]+ -]+):\s*(.*)", body)}
        num = {k.strip(): v.strip() for k, v in num.items()}
        mon.check(abs(float(num["out_noise"].split()[0]) - p.out_noise) < 1e-4 * p.out_noise, f"printed:{sec}.out_noise", f"{num['out_noise']} {p.out_noise}")
        a, b = [float(v) for v in num["inp/out_bound"].split(" /")[:2]]
        mon.check((a, b) == (p.inp_bound, p.out_bound), f"printed:{sec}.bounds", num["inp/out_bound"])
        a, b = [float(v) for v in num["DAC/ADC"].split(" /")[:2]]
        mon.check(abs(a - p.inp_res) < .6 and abs(b - p.out_res) < .6, f"printed:{sec}.res", f"{num['DAC/ADC']} {p.inp_res} {p.out_res}")
        mon.check(p.mv_type.value in num["mv_type"], f"printed:{sec}.mv_type", num["mv_type"])
    mon.check(re.search(rf"desired_BL:\s*{up.desired_bl}\b", text) is not None, "printed:desired_bl", "desired_bl")
    mon.obs("printed")
    mon.state("printed", kind)


# ---- every field has an effect
class Ctx:
    """A configuration in which a field should matter."""


def act(cfg, seed, bias=False):
    """Everything observable of one history of a tile; same seed, same history."""
    seed_all(seed)
    out = []
    layer = AnalogLinear(5, 4, bias, rpu_config=cfg)
    tile = layer.analog_module
    for v in tile.get_hidden_parameters().values():
        out.append(v.clone())
    seed_all(seed + 1)
    tile.set_weights(torch.rand(4, 5) * .8 - .4, torch.rand(4) if bias else None)
    out.append(tile.tile.get_weights().clone())
    opt = AnalogSGD(layer.parameters(), lr=.3)
    xs = [torch.randn(s, 5) for s in (3, 1, 2, 3, 2)]
    xs[0][0] *= 8
    xs[3][1] *= .01
    layer.train()
    for x in xs:
        opt.zero_grad()
        x = x.clone().requires_grad_(True)
        y = layer(x)
        out.append(y.detach().clone())
        (y ** 2).sum().mul(.3).backward()
        out.append(x.grad.clone())
        opt.step()
        out.append(tile.tile.get_weights().clone())
    if type(cfg).__name__.startswith(("Single", "UnitCell", "Digital")):
        seed_all(seed + 2)
        tile.decay_weights(.9)
        tile.diffuse_weights()
        out.append(tile.tile.get_weights().clone())
        try:
            tile.reset_columns(0, 2, 1.0)
        except Exception:
            pass
        tile.drift_weights(5.0) if hasattr(tile, "drift_weights") else None
        out.append(tile.tile.get_weights().clone())
    layer.eval()
    with torch.no_grad():
        out.append(layer(xs[0].clone()))
        if hasattr(tile, "program_weights") and hasattr(cfg, "noise_model"):
            tile.program_weights()
            tile.drift_weights(1000.)
            out.append(layer(xs[0].clone()))
    for v in tile.get_hidden_parameters().values():
        out.append(v.clone())
    return out


def differs(a, b):
    return len(a) != len(b) or any(x.shape != y.shape or not torch.equal(x.nan_to_num(), y.nan_to_num()) for x, y in zip(a, b))


def ctx_device(rng, cls):
    kind = cls.__name__.replace("Device", "")
    d = gen.rand_device(rng, kind) if kind in gen.DEVICE_KINDS else cls()
    for n, v in dict(dw_min=.01, dw_min_dtod=.3, dw_min_std=.3, w_max_dtod=.3, w_min_dtod=.3, up_down_dtod=.1, lifetime=20., lifetime_dtod=.2,
                     diffusion=.02, diffusion_dtod=.2, reset=.05, reset_dtod=.1, reset_std=.05, corrupt_devices_prob=.3,
                     corrupt_devices_range=10, write_noise_std=.1).items():
        if hasattr(d, n):
            setattr(d, n, v)
    if hasattr(d, "drift"):
        d.drift = DriftParameter(nu=.2, nu_dtod=.1, nu_std=.1, w_noise_std=.02, wg_ratio=1.0, g_offset=.1, w_offset=.1, nu_k=.1, log_g0=-.5, t_0=1.0) \
            if isinstance(d.drift, DriftParameter) else SimpleDriftParameter(nu=.2, nu_dtod=.1, nu_std=.1, w_noise_std=.02)
    return d


def io_ctx(rng):
    p = IOParameters(inp_res=1 / 30, out_res=1 / 62, out_bound=1.5, inp_noise=.05, out_noise=.1, out_noise_std=.3, w_noise=.1,
                     w_noise_type=rng.choice([WeightNoiseType.ADDITIVE_CONSTANT, WeightNoiseType.PCM_READ]),
                     ir_drop=1.0, ir_drop_g_ratio=50., out_nonlinearity=.5, out_nonlinearity_std=.2, slope_calibration=.5,
                     v_offset_std=.2, v_offset_w_min=-.5, r_series=.1, w_read_asymmetry_dtod=.2, inp_asymmetry=.1, out_asymmetry=.1,
                     max_bm_factor=4, max_bm_res=.1, nm_thres=rng.choice([.5, 0.]),
                     bound_management=rng.choice([BoundManagementType.ITERATIVE, BoundManagementType.ITERATIVE_WORST_CASE, BoundManagementType.NONE]),
                     noise_management=rng.choice([NoiseManagementType.NONE, NoiseManagementType.ABS_MAX, NoiseManagementType.CONSTANT,
                                                  NoiseManagementType.AVERAGE_ABS_MAX, NoiseManagementType.ABS_MAX_NP_SUM]),
                     mv_type=rng.choice([AnalogMVType.ONE_PASS, AnalogMVType.POS_NEG_SEPARATE]), inp_sto_round=gen.coin(rng), out_sto_round=gen.coin(rng))
    if p.noise_management == NoiseManagementType.NONE and gen.coin(rng):
        p.inp_bound = .7
    return p


def up_ctx(rng):
    return UpdateParameters(desired_bl=rng.choice([3, 10]), d_res_implicit=rng.choice([0, .05]), x_res_implicit=rng.choice([0, .05]), res=rng.choice([-1, .02]),
                            sto_round=gen.coin(rng), pulse_type=rng.choice([PulseType.STOCHASTIC_COMPRESSED, PulseType.STOCHASTIC, PulseType.MEAN_COUNT,
                                                                             PulseType.DETERMINISTIC_IMPLICIT]),
                            update_management=gen.coin(rng, .7), update_bl_management=gen.coin(rng, .7), fixed_bl=gen.coin(rng))


def inf_ctx(rng, tt=False):
    c = TorchInferenceRPUConfig() if tt else InferenceRPUConfig()
    c.forward = IOParameters(inp_res=1 / 30, out_res=1 / 62, out_bound=2., out_noise=.05)
    c.modifier = WeightModifierParameter(type=rng.choice([t for t in WeightModifierType if t not in (WeightModifierType.COPY, WeightModifierType.POLY, WeightModifierType.PROG_NOISE, WeightModifierType.DOREFA)
                                                          or not tt]),
                                         std_dev=.1, res=.1, pdrop=.2, rel_to_actual_wmax=gen.coin(rng), per_batch_sample=False, assumed_wmax=.8, coeffs=[.1, .2, .3], g_max=25.)
    if tt:
        c.modifier.type = rng.choice([WeightModifierType.ADD_NORMAL, WeightModifierType.MULT_NORMAL, WeightModifierType.DISCRETIZE])
    c.clip = WeightClipParameter(type=rng.choice(list(WeightClipType)), fixed_value=.2, sigma=.5)
    if tt and c.clip.type not in (WeightClipType.FIXED_VALUE, WeightClipType.LAYER_GAUSSIAN, WeightClipType.NONE):
        c.clip.type = WeightClipType.FIXED_VALUE
    c.remap = WeightRemapParameter(type=rng.choice(list(WeightRemapType)), remapped_wmax=.7, max_scale_range=rng.choice([0., 1.2]), max_scale_ref=rng.choice([0., .5]))
    c.mapping = MappingParameter(weight_scaling_omega=rng.choice([0., .6]), weight_scaling_columnwise=gen.coin(rng), learn_out_scaling=gen.coin(rng),
                                 out_scaling_columnwise=gen.coin(rng), digital_bias=True)
    c.pre_post = PrePostProcessingParameter(input_range=InputRangeParameter(
        enable=True, learn_input_range=True, init_value=2., init_from_data=rng.choice([0, 2]), init_std_alpha=2., decay=.05, input_min_percentage=.9,
        manage_output_clipping=gen.coin(rng) and not tt, output_min_percentage=.9, gradient_scale=1., gradient_relative=gen.coin(rng)))
    c.noise_model = PCMLikeNoiseModel(g_max=25.)
    return c


def effect_tags():
    """group, class and field of everything whose effect can be observed."""
    out = []
    for cls in SIMPLE[:-1]:
        out += [("device", cls, f.name) for f in fields(cls)]
    out += [("io", IOParameters, f.name) for f in fields(IOParameters)] + [("update", UpdateParameters, f.name) for f in fields(UpdateParameters)]
    for cls in COMPOUND:
        out += [("compound", cls, f.name) for f in fields(cls) if f.name not in ("unit_cell_devices", "device")]
    for cls in (WeightModifierParameter, WeightClipParameter, WeightRemapParameter, MappingParameter, InputRangeParameter):
        out += [("inference", cls, f.name) for f in fields(cls)]
    return out


def effect_attempt(rng, group, cls, name):
    """One context, one changed field: (what happened, description)."""
    seed = rng.randint(1, 10 ** 6)
    if group == "device":
        d = ctx_device(rng, cls)
        cfg = SingleRPUConfig(device=d, update=up_ctx(rng) if cls is not D.IdealDevice else UpdateParameters())
        get = lambda c: c.device
    elif group == "io":
        cfg = SingleRPUConfig(device=D.IdealDevice() if gen.coin(rng) else ctx_device(rng, D.SoftBoundsDevice), forward=IOParameters(is_perfect=True),
                              backward=IOParameters(is_perfect=True))
        side = rng.choice(["forward", "forward", "backward"])
        setattr(cfg, side, io_ctx(rng))
        get = lambda c, s=side: getattr(c, s)
    elif group == "update":
        cfg = SingleRPUConfig(device=ctx_device(rng, rng.choice([D.SoftBoundsDevice, D.ConstantStepDevice])), update=up_ctx(rng))
        get = lambda c: c.update
    elif group == "compound":
        kind = cls.__name__.replace("Compound", "").replace("UnitCell", "")
        d = gen.rand_compound(rng, kind)
        for s in ([d.device] if hasattr(d, "device") else d.unit_cell_devices):
            s.dw_min = .02
        cfg = (DigitalRankUpdateRPUConfig if kind == "MixedPrecision" else UnitCellRPUConfig)(device=d)
        get = lambda c: c.device
    else:
        cfg = inf_ctx(rng, cls in (InputRangeParameter,) and gen.coin(rng))
        get = {WeightModifierParameter: lambda c: c.modifier, WeightClipParameter: lambda c: c.clip, WeightRemapParameter: lambda c: c.remap,
               MappingParameter: lambda c: c.mapping, InputRangeParameter: lambda c: c.pre_post.input_range}[cls]
    cfg.mapping.digital_bias = not (name in ("perfect_bias", "copy_last_column", "digital_bias") and gen.coin(rng))
    bias = not cfg.mapping.digital_bias or name == "digital_bias"
    other = copy.deepcopy(cfg)
    p = get(other)
    f = next(f for f in fields(p) if f.name == name)
    old = getattr(p, name)
    new = rand_value(rng, f, old)
    if new == old:
        return "same", ""
    setattr(p, name, new)
    text = f"{cls.__name__}.{name}: {old} -> {new}"[:300]
    try:
        a = act(cfg, seed, bias)
    except (AihwkitException, RuntimeError) as e:
        return "invalid", str(e)[:80]
    try:
        b = act(other, seed, bias)
    except (AihwkitException, RuntimeError) as e:
        return "refused", text
    return ("effect" if differs(a, b) else "nothing"), text


ATTEMPTS = 64


def sc_effect(rng, mon):
    """Change one field and nothing else: something observable has to change in some context."""
    group, cls, name = rng.choice([t for t in effect_tags() if f"{t[1].__name__}.{t[2]}" in EFFECTIVE])
    tag = f"{cls.__name__}.{name}"
    mon.ctx = tag
    for _ in range(ATTEMPTS):
        what, text = effect_attempt(rng, group, cls, name)
        if what == "effect":
            mon.check(True, f"effect:{tag}", "")
            mon.obs("effect")
            mon.state("effect", tag)
            return
    mon.check(False, f"effect:{tag}", f"changing the field in {ATTEMPTS} contexts never changed anything observable")


# fields that showed an effect in at least one of four such contexts when the list was made
EFFECTIVE = set("""
BufferedTransferCompound.fast_lr BufferedTransferCompound.gamma BufferedTransferCompound.gamma_vec BufferedTransferCompound.momentum
BufferedTransferCompound.scale_fast_lr BufferedTransferCompound.thres_scale BufferedTransferCompound.transfer_columns
BufferedTransferCompound.transfer_forward BufferedTransferCompound.transfer_lr BufferedTransferCompound.transfer_lr_vec
BufferedTransferCompound.units_in_mbatch
ChoppedTransferCompound.auto_granularity ChoppedTransferCompound.buffer_granularity ChoppedTransferCompound.construction_seed
ChoppedTransferCompound.correct_gradient_magnitudes ChoppedTransferCompound.fast_lr ChoppedTransferCompound.forget_buffer
ChoppedTransferCompound.gamma ChoppedTransferCompound.in_chop_prob ChoppedTransferCompound.in_chop_random ChoppedTransferCompound.momentum
ChoppedTransferCompound.no_self_transfer ChoppedTransferCompound.random_selection ChoppedTransferCompound.scale_fast_lr
ChoppedTransferCompound.scale_transfer_lr ChoppedTransferCompound.transfer_columns ChoppedTransferCompound.transfer_every
ChoppedTransferCompound.transfer_lr ChoppedTransferCompound.transfer_update
ConstantStepDevice.construction_seed ConstantStepDevice.corrupt_devices_prob ConstantStepDevice.diffusion ConstantStepDevice.diffusion_dtod
ConstantStepDevice.drift ConstantStepDevice.dw_min ConstantStepDevice.dw_min_dtod ConstantStepDevice.dw_min_dtod_log_normal
ConstantStepDevice.dw_min_std ConstantStepDevice.lifetime ConstantStepDevice.lifetime_dtod ConstantStepDevice.perfect_bias ConstantStepDevice.reset
ConstantStepDevice.reset_dtod ConstantStepDevice.reset_std ConstantStepDevice.up_down ConstantStepDevice.up_down_dtod ConstantStepDevice.w_max
ConstantStepDevice.w_max_dtod ConstantStepDevice.w_min ConstantStepDevice.w_min_dtod
DynamicTransferCompound.auto_granularity DynamicTransferCompound.auto_scale DynamicTransferCompound.correct_gradient_magnitudes
DynamicTransferCompound.experimental_correct_accumulation DynamicTransferCompound.gamma DynamicTransferCompound.in_chop_random
DynamicTransferCompound.momentum DynamicTransferCompound.random_selection DynamicTransferCompound.scale_fast_lr
DynamicTransferCompound.transfer_columns DynamicTransferCompound.transfer_every DynamicTransferCompound.transfer_forward
DynamicTransferCompound.transfer_lr DynamicTransferCompound.units_in_mbatch
ExpStepDevice.A_down ExpStepDevice.A_up ExpStepDevice.a ExpStepDevice.apply_write_noise_on_set ExpStepDevice.b ExpStepDevice.construction_seed
ExpStepDevice.corrupt_devices_prob ExpStepDevice.diffusion ExpStepDevice.diffusion_dtod ExpStepDevice.drift ExpStepDevice.dw_min
ExpStepDevice.dw_min_dtod ExpStepDevice.dw_min_dtod_log_normal ExpStepDevice.dw_min_std ExpStepDevice.dw_min_std_add ExpStepDevice.dw_min_std_slope
ExpStepDevice.gamma_down ExpStepDevice.gamma_up ExpStepDevice.lifetime ExpStepDevice.lifetime_dtod ExpStepDevice.perfect_bias ExpStepDevice.reset
ExpStepDevice.reset_dtod ExpStepDevice.reset_std ExpStepDevice.up_down ExpStepDevice.up_down_dtod ExpStepDevice.w_max ExpStepDevice.w_max_dtod
ExpStepDevice.w_min ExpStepDevice.w_min_dtod ExpStepDevice.write_noise_std
IOParameters.inp_asymmetry IOParameters.inp_noise IOParameters.inp_res IOParameters.inp_sto_round IOParameters.ir_drop IOParameters.ir_drop_g_ratio
IOParameters.is_perfect IOParameters.mv_type IOParameters.nm_thres IOParameters.noise_management IOParameters.out_asymmetry IOParameters.out_bound
IOParameters.out_noise IOParameters.out_noise_std IOParameters.out_nonlinearity IOParameters.out_nonlinearity_std IOParameters.out_res
IOParameters.out_scale IOParameters.out_sto_round IOParameters.r_series IOParameters.slope_calibration IOParameters.v_offset_std
IOParameters.v_offset_w_min IOParameters.w_noise IOParameters.w_noise_type IOParameters.w_read_asymmetry_dtod
IdealDevice.diffusion IdealDevice.lifetime IdealDevice.reset_std
LinearStepDevice.allow_increasing LinearStepDevice.apply_write_noise_on_set LinearStepDevice.construction_seed LinearStepDevice.corrupt_devices_prob
LinearStepDevice.diffusion LinearStepDevice.diffusion_dtod LinearStepDevice.drift LinearStepDevice.dw_min LinearStepDevice.dw_min_dtod
LinearStepDevice.dw_min_dtod_log_normal LinearStepDevice.dw_min_std LinearStepDevice.gamma_down LinearStepDevice.gamma_down_dtod
LinearStepDevice.gamma_up LinearStepDevice.gamma_up_dtod LinearStepDevice.lifetime LinearStepDevice.lifetime_dtod
LinearStepDevice.mean_bound_reference LinearStepDevice.mult_noise LinearStepDevice.perfect_bias LinearStepDevice.reset LinearStepDevice.reset_dtod
LinearStepDevice.reset_std LinearStepDevice.reverse_down LinearStepDevice.reverse_up LinearStepDevice.up_down LinearStepDevice.up_down_dtod
LinearStepDevice.w_max LinearStepDevice.w_max_dtod LinearStepDevice.w_min LinearStepDevice.w_min_dtod LinearStepDevice.write_noise_std
MappingParameter.digital_bias MappingParameter.learn_out_scaling MappingParameter.weight_scaling_lr_compensation
MixedPrecisionCompound.construction_seed MixedPrecisionCompound.granularity MixedPrecisionCompound.n_d_bins MixedPrecisionCompound.random_row
MixedPrecisionCompound.stoc_round_x MixedPrecisionCompound.transfer_every MixedPrecisionCompound.transfer_lr
OneSidedUnitCell.construction_seed OneSidedUnitCell.copy_inverted OneSidedUnitCell.refresh_lower_thres OneSidedUnitCell.refresh_update
OneSidedUnitCell.refresh_upper_thres OneSidedUnitCell.units_in_mbatch
PiecewiseStepDevice.apply_write_noise_on_set PiecewiseStepDevice.construction_seed PiecewiseStepDevice.corrupt_devices_prob
PiecewiseStepDevice.diffusion PiecewiseStepDevice.diffusion_dtod PiecewiseStepDevice.drift PiecewiseStepDevice.dw_min PiecewiseStepDevice.dw_min_dtod
PiecewiseStepDevice.dw_min_dtod_log_normal PiecewiseStepDevice.dw_min_std PiecewiseStepDevice.lifetime PiecewiseStepDevice.lifetime_dtod
PiecewiseStepDevice.perfect_bias PiecewiseStepDevice.reset PiecewiseStepDevice.reset_dtod PiecewiseStepDevice.reset_std PiecewiseStepDevice.up_down
PiecewiseStepDevice.up_down_dtod PiecewiseStepDevice.w_max PiecewiseStepDevice.w_max_dtod PiecewiseStepDevice.w_min PiecewiseStepDevice.w_min_dtod
PiecewiseStepDevice.write_noise_std
PowStepDevice.apply_write_noise_on_set PowStepDevice.construction_seed PowStepDevice.corrupt_devices_prob PowStepDevice.diffusion
PowStepDevice.diffusion_dtod PowStepDevice.drift PowStepDevice.dw_min PowStepDevice.dw_min_dtod PowStepDevice.dw_min_dtod_log_normal
PowStepDevice.dw_min_std PowStepDevice.lifetime PowStepDevice.lifetime_dtod PowStepDevice.perfect_bias PowStepDevice.pow_gamma
PowStepDevice.pow_gamma_dtod PowStepDevice.pow_up_down PowStepDevice.pow_up_down_dtod PowStepDevice.reset PowStepDevice.reset_dtod
PowStepDevice.reset_std PowStepDevice.up_down PowStepDevice.up_down_dtod PowStepDevice.w_max PowStepDevice.w_max_dtod PowStepDevice.w_min
PowStepDevice.w_min_dtod PowStepDevice.write_noise_std
PowStepReferenceDevice.construction_seed PowStepReferenceDevice.corrupt_devices_prob PowStepReferenceDevice.diffusion
PowStepReferenceDevice.diffusion_dtod PowStepReferenceDevice.drift PowStepReferenceDevice.dw_min PowStepReferenceDevice.dw_min_dtod
PowStepReferenceDevice.dw_min_dtod_log_normal PowStepReferenceDevice.dw_min_std PowStepReferenceDevice.lifetime PowStepReferenceDevice.lifetime_dtod
PowStepReferenceDevice.perfect_bias PowStepReferenceDevice.pow_gamma PowStepReferenceDevice.pow_gamma_dtod PowStepReferenceDevice.pow_up_down
PowStepReferenceDevice.pow_up_down_dtod PowStepReferenceDevice.reference_mean PowStepReferenceDevice.reference_std PowStepReferenceDevice.reset
PowStepReferenceDevice.reset_dtod PowStepReferenceDevice.reset_std PowStepReferenceDevice.subtract_symmetry_point PowStepReferenceDevice.up_down
PowStepReferenceDevice.up_down_dtod PowStepReferenceDevice.w_max PowStepReferenceDevice.w_max_dtod PowStepReferenceDevice.w_min
PowStepReferenceDevice.w_min_dtod
ReferenceUnitCell.construction_seed ReferenceUnitCell.update_policy
SoftBoundsDevice.apply_write_noise_on_set SoftBoundsDevice.construction_seed SoftBoundsDevice.corrupt_devices_prob SoftBoundsDevice.diffusion
SoftBoundsDevice.diffusion_dtod SoftBoundsDevice.drift SoftBoundsDevice.dw_min SoftBoundsDevice.dw_min_dtod SoftBoundsDevice.dw_min_dtod_log_normal
SoftBoundsDevice.dw_min_std SoftBoundsDevice.lifetime SoftBoundsDevice.lifetime_dtod SoftBoundsDevice.mult_noise SoftBoundsDevice.perfect_bias
SoftBoundsDevice.reset SoftBoundsDevice.reset_dtod SoftBoundsDevice.reset_std SoftBoundsDevice.reverse_down SoftBoundsDevice.reverse_up
SoftBoundsDevice.up_down SoftBoundsDevice.up_down_dtod SoftBoundsDevice.w_max SoftBoundsDevice.w_max_dtod SoftBoundsDevice.w_min
SoftBoundsDevice.w_min_dtod SoftBoundsDevice.write_noise_std
SoftBoundsPmaxDevice.alpha SoftBoundsPmaxDevice.apply_write_noise_on_set SoftBoundsPmaxDevice.construction_seed
SoftBoundsPmaxDevice.corrupt_devices_prob SoftBoundsPmaxDevice.corrupt_devices_range SoftBoundsPmaxDevice.diffusion
SoftBoundsPmaxDevice.diffusion_dtod SoftBoundsPmaxDevice.drift SoftBoundsPmaxDevice.dw_min_dtod SoftBoundsPmaxDevice.dw_min_dtod_log_normal
SoftBoundsPmaxDevice.dw_min_std SoftBoundsPmaxDevice.enforce_consistency SoftBoundsPmaxDevice.lifetime SoftBoundsPmaxDevice.lifetime_dtod
SoftBoundsPmaxDevice.mult_noise SoftBoundsPmaxDevice.p_max SoftBoundsPmaxDevice.perfect_bias SoftBoundsPmaxDevice.range_max
SoftBoundsPmaxDevice.range_min SoftBoundsPmaxDevice.reset SoftBoundsPmaxDevice.reset_dtod SoftBoundsPmaxDevice.reset_std
SoftBoundsPmaxDevice.reverse_down SoftBoundsPmaxDevice.reverse_up SoftBoundsPmaxDevice.up_down_dtod SoftBoundsPmaxDevice.w_max_dtod
SoftBoundsPmaxDevice.w_min_dtod SoftBoundsPmaxDevice.write_noise_std
SoftBoundsReferenceDevice.apply_write_noise_on_set SoftBoundsReferenceDevice.construction_seed SoftBoundsReferenceDevice.corrupt_devices_prob
SoftBoundsReferenceDevice.diffusion SoftBoundsReferenceDevice.diffusion_dtod SoftBoundsReferenceDevice.drift SoftBoundsReferenceDevice.dw_min
SoftBoundsReferenceDevice.dw_min_dtod SoftBoundsReferenceDevice.dw_min_dtod_log_normal SoftBoundsReferenceDevice.dw_min_std
SoftBoundsReferenceDevice.lifetime SoftBoundsReferenceDevice.lifetime_dtod SoftBoundsReferenceDevice.mult_noise SoftBoundsReferenceDevice.perfect_bias
SoftBoundsReferenceDevice.reference_mean SoftBoundsReferenceDevice.reference_std SoftBoundsReferenceDevice.reset SoftBoundsReferenceDevice.reset_dtod
SoftBoundsReferenceDevice.reset_std SoftBoundsReferenceDevice.slope_down_dtod SoftBoundsReferenceDevice.slope_up_dtod
SoftBoundsReferenceDevice.subtract_symmetry_point SoftBoundsReferenceDevice.up_down SoftBoundsReferenceDevice.up_down_dtod
SoftBoundsReferenceDevice.w_max SoftBoundsReferenceDevice.w_max_dtod SoftBoundsReferenceDevice.w_min SoftBoundsReferenceDevice.w_min_dtod
SoftBoundsReferenceDevice.write_noise_std
TransferCompound.gamma TransferCompound.gamma_vec TransferCompound.random_selection TransferCompound.scale_fast_lr TransferCompound.transfer_columns
TransferCompound.transfer_every TransferCompound.transfer_every_vec TransferCompound.transfer_forward TransferCompound.transfer_lr
TransferCompound.transfer_update TransferCompound.units_in_mbatch
UpdateParameters.desired_bl UpdateParameters.fixed_bl UpdateParameters.pulse_type UpdateParameters.res UpdateParameters.sto_round
UpdateParameters.um_grad_scale UpdateParameters.update_bl_management UpdateParameters.update_management UpdateParameters.x_res_implicit
VectorUnitCell.construction_seed VectorUnitCell.gamma_vec VectorUnitCell.update_policy
WeightModifierParameter.copy_last_column WeightModifierParameter.pdrop WeightModifierParameter.type
WeightRemapParameter.remapped_wmax
""".split())


# ---- copies
def rand_cfg(rng):
    kind = rng.choice(gen.TRAIN_KINDS + ["irdropt", "noisy_inference", "noisy_torch"])
    if kind == "irdropt":
        c = TorchInferenceRPUConfigIRDropT()
    elif kind.startswith("noisy"):
        c = inf_ctx(rng, kind.endswith("torch"))
        c.pre_post.input_range.manage_output_clipping = False
        if kind.endswith("torch"):
            c.remap = WeightRemapParameter(type=c.remap.type)
        c.modifier.pdrop = 0. if kind.endswith("torch") else c.modifier.pdrop
    else:
        c, _ = gen.det_train_config(rng, kind)
        if hasattr(c, "forward") and gen.coin(rng):
            c.forward = IOParameters(out_noise=rng.uniform(.01, .2), inp_res=float(rng.randint(5, 300)))
    return c, kind


def graph(o, seen=None, path="", depth=0):
    """Mutable configuration objects reachable from a configuration."""
    seen = {} if seen is None else seen
    if is_dataclass(o) and not isinstance(o, type):
        if id(o) in seen:
            return seen
        seen[id(o)] = path
        for k, v in list(vars(o).items()):
            graph(v, seen, f"{path}.{k}", depth + 1)
    elif isinstance(o, (list, dict)):
        if o:
            seen[id(o)] = path
        for k, v in (enumerate(o) if isinstance(o, list) else o.items()):
            graph(v, seen, f"{path}[{k}]", depth + 1)
    elif type(o).__module__.startswith("aihwkit.inference"):
        seen[id(o)] = path
        for k, v in list(vars(o).items()):
            graph(v, seen, f"{path}.{k}", depth + 1)
    return seen


def flat(o, path="", out=None):
    out = {} if out is None else out
    if is_dataclass(o) and not isinstance(o, type) or type(o).__module__.startswith("aihwkit.inference") and not isinstance(o, type):
        out[path + "/"] = type(o).__name__
        for k, v in vars(o).items():
            flat(v, f"{path}.{k}", out)
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            flat(v, f"{path}[{i}]", out)
        out[path + "#"] = len(o)
    elif isinstance(o, dict):
        for k, v in o.items():
            flat(v, f"{path}[{k}]", out)
    elif isinstance(o, torch.Tensor):
        out[path] = o.tolist()
    else:
        out[path] = o if not callable(o) or isinstance(o, type) else getattr(o, "__qualname__", type(o).__name__)
    return out


def sc_copies(rng, mon):
    c, kind = rand_cfg(rng)
    mon.ctx = kind
    ref = flat(c)
    how = rng.choice(["deepcopy", "pickle", "tile", "layer_copy", "repr"])
    s = str(c), repr(c)
    if how == "deepcopy":
        q = copy.deepcopy(c)
    elif how == "pickle":
        q = pickle.loads(pickle.dumps(c))
    elif how == "repr":
        q = c
    else:
        layer = AnalogLinear(3, 2, gen.coin(rng), rpu_config=c)
        q = layer.analog_module.rpu_config
        if how == "layer_copy":
            layer = pickle.loads(pickle.dumps(layer)) if gen.coin(rng) else copy.deepcopy(layer)
            q = layer.analog_module.rpu_config
    mon.check(flat(c) == ref, f"copy:source:{how}:{kind}", "original changed")
    got = flat(q)
    bad = [k for k in ref if k not in got or got[k] != ref[k] and not (got[k] != got[k] and ref[k] != ref[k])] + [k for k in got if k not in ref]
    mon.check(not bad, f"copy:{how}:{kind}", lambda: f"{[(k, ref.get(k), got.get(k)) for k in bad[:3]]}")
    mon.check((str(q), repr(q)) == s or "object at" in s[1], f"copy:print:{how}:{kind}", "printed form differs after the copy")
    if how not in ("repr",):
        shared = set(graph(c)) & set(graph(q))
        names = sorted({graph(c)[i] for i in shared})
        mon.check(not shared, f"unshared:{how}:{kind}:{','.join(names)[:60]}", f"shared with the given configuration: {names}")
        mon.obs("unshared")
    if how == "tile":
        l2 = AnalogLinear(3, 2, rpu_config=c)
        shared = set(graph(l2.analog_module.rpu_config)) & set(graph(q))
        mon.check(not shared, f"unshared:tiles:{kind}", f"two tiles share {[graph(q)[i] for i in shared]}")
    mon.obs("copied")
    mon.state("copy", how, kind)
    # printing shows every non-default value
    for name in ("forward", "backward", "update", "device", "mapping", "modifier", "clip", "remap"):
        p = getattr(c, name, None)
        if p is None or not is_dataclass(p) or getattr(p, "is_perfect", False):
            continue
        text = str(p)
        default = type(p)() if type(p) not in COMPOUND else None
        for f in fields(p):
            v = getattr(p, f.name)
            if default is None or is_dataclass(v) or isinstance(v, list) or v == getattr(default, f.name):
                continue
            if f.metadata.get("hide_if", object()) == v:
                continue
            mon.check(f"{f.name}={v}" in text, f"print:{type(p).__name__}.{f.name}", f"{f.name}={v} not printed in {text[:200]}")
            mon.obs("print_field")
    # comparing tells configurations apart
    p = rng.choice([v for v in (getattr(c, n, None) for n in ("forward", "update", "mapping", "device", "clip")) if v is not None])
    q = copy.deepcopy(p)
    mon.check(p == q and not (p != q), f"compare:equal:{type(p).__name__}", "copy is not equal")
    f = rng.choice([f for f in fields(p) if not is_dataclass(getattr(p, f.name)) and f.compare and f.name != "unit_cell_devices"])
    new = rand_value(rng, f, getattr(q, f.name))
    if new != getattr(q, f.name):
        setattr(q, f.name, new)
        mon.check(p != q, f"compare:different:{type(p).__name__}.{f.name}", "different values compare equal")


# ---- presets
PRESET_DEVICE = {n.replace("PresetDevice", ""): getattr(presets, n) for n in dir(presets) if n.endswith("PresetDevice")}
ALGO = [("TikiTaka", C.TransferCompound), ("TTv2", C.BufferedTransferCompound), ("ChoppedTTv2", C.ChoppedTransferCompound), ("AGAD", C.DynamicTransferCompound),
        ("MixedPrecision", C.MixedPrecisionCompound)]
PRESETS = sorted(n for n in dir(presets) if n.endswith("Preset") and isinstance(getattr(presets, n), type))


def sc_presets(rng, mon):
    name = rng.choice(PRESETS)
    cls = getattr(presets, name)
    c = cls()
    mon.ctx = name
    mon.check(isinstance(c, RPUConfigBase), f"preset:{name}", "not a configuration")
    stem = name[:-len("Preset")]
    algo = next(((a, k) for a, k in sorted(ALGO, key=lambda t: -len(t[0])) if stem.startswith(a)), None)
    dev = stem[len(algo[0]):] if algo else stem
    n = 1
    if dev[-1] in "24" and dev[:-1] in PRESET_DEVICE:
        n, dev = int(dev[-1]), dev[:-1]
    if dev in PRESET_DEVICE and dev != "PCM":
        want = PRESET_DEVICE[dev]
        if algo:
            mon.check(type(c.device) is algo[1] or algo[0] == "TTv2" and type(c.device) in (C.BufferedTransferCompound, C.ChoppedTransferCompound), f"preset:algorithm:{name}",
                      f"{type(c.device).__name__}")
            subs = [c.device.device] if hasattr(c.device, "device") else c.device.unit_cell_devices
            mon.check(len(subs) == (1 if hasattr(c.device, "device") else 2) and all(type(s) is want for s in subs), f"preset:device:{name}", f"{[type(s).__name__ for s in subs]}")
        elif n > 1:
            mon.check(type(c.device) is C.VectorUnitCell and len(c.device.unit_cell_devices) == n and all(type(s) is want for s in c.device.unit_cell_devices),
                      f"preset:device:{name}", "unit cell")
        else:
            mon.check(type(c.device) is want, f"preset:device:{name}", type(c.device).__name__)
        mon.obs("preset_named")
    before = flat(c)
    i, o = rng.randint(2, 6), rng.randint(2, 5)
    bias = gen.coin(rng)
    layer = (AnalogLinear if gen.coin(rng) else AnalogLinearMapped)(i, o, bias, rpu_config=c)
    opt = AnalogSGD(layer.parameters(), lr=.1)
    w0 = layer.get_weights()[0].clone()
    for _ in range(rng.randint(1, 3)):
        opt.zero_grad()
        x = torch.randn(rng.randint(1, 4), i, requires_grad=True)
        y = layer(x)
        mon.check(bool(y.isfinite().all()) and y.shape == (x.shape[0], o), f"preset:forward:{name}", f"{y}")
        y.pow(2).sum().backward()
        mon.check(bool(x.grad.isfinite().all()), f"preset:backward:{name}", "gradient not finite")
        opt.step()
    w1 = layer.get_weights()[0]
    mon.check(bool(w1.isfinite().all()), f"preset:update:{name}", "weights not finite")
    layer.eval()
    mon.check(bool(layer(torch.randn(2, i)).isfinite().all()), f"preset:eval:{name}", "evaluation not finite")
    if hasattr(c, "noise_model"):
        layer.drift_analog_weights(100.)
        mon.check(bool(layer(torch.randn(2, i)).isfinite().all()), f"preset:drift:{name}", "after drift not finite")
    mon.check(flat(c) == before, f"preset:unmodified:{name}", "use of the layer modified the preset")
    # each call is a new configuration, and equals the first
    d = cls()
    mon.check(flat(d) == before, f"preset:again:{name}", "second instance differs")
    mon.check(not set(graph(c)) & set(graph(d)), f"preset:shared:{name}", f"{[graph(c)[k] for k in set(graph(c)) & set(graph(d))]}")
    pickle.loads(pickle.dumps(c)), str(c), repr(c)
    for p in (c.forward, c.device) if hasattr(c, "forward") else ():
        if getattr(p, "is_perfect", False):
            continue
        if isinstance(p, (C.UnitCell, C.DigitalRankUpdateCell)):
            continue
        b = to_bindings(p)
        for f in fields(p):
            if hasattr(b, f.name) and f.name not in getattr(p, "bindings_ignore", []):
                compare(mon, name, f.name, getattr(p, f.name), getattr(b, f.name), "float")
    if name == "FloatingPointPreset":
        l = cls()
        lay = AnalogLinear(i, o, bias, rpu_config=l)
        x = torch.randn(4, i)
        w, b = lay.get_weights()
        mon.close(lay(x), nn.functional.linear(x, w, b), "preset:fp", atol=1e-4, rtol=1e-4, msg="FloatingPointPreset layer")
    mon.obs("preset")
    mon.state("preset", name)


# ---- construction and refusals
def sc_build(rng, mon):
    algo = rng.choice(["sgd", "tiki-taka", "tt", "ttv1", "ttv2", "ttv3", "chopped-ttv2", "c-ttv2", "agad", "ttv4", "mp", "mixed-precision"])
    given = rng.choice(["instance", "class", "preset"])
    dev = gen.rand_device(rng, rng.choice(["SoftBounds", "LinearStep", "ConstantStep", "SoftBoundsReference"])) if given == "instance" else \
        rng.choice([D.SoftBoundsReferenceDevice, D.ConstantStepDevice]) if given == "class" else presets.EcRamPresetDevice
    io = rng.choice([IOParameters, presets.PresetIOParameters, IOParameters(out_noise=.123, inp_res=99.)])
    up = rng.choice([UpdateParameters, presets.PresetUpdateParameters, UpdateParameters(desired_bl=17)])
    n = rng.randint(1, 3)
    mp = MappingParameter(max_input_size=rng.randint(1, 99))
    keep = [copy.deepcopy(v) if not isinstance(v, type) else v for v in (dev, io, up)]
    mon.ctx = f"{algo} {given} {io if isinstance(io, type) else 'io instance'} n={n}"
    kw = dict(mapping=mp) if gen.coin(rng) else {}
    c = build_config(algo, dev, io_parameters=io, up_parameters=up, n_devices=n, construction_seed=rng.choice([0, 9]), **kw)
    mon.check(all(a == b for a, b in zip(keep, (dev, io, up))), "build:arguments", "arguments were modified")
    if kw:
        mon.check(c.mapping == mp, "build:kwargs", "mapping not taken over")
    subs = [c.device] if algo == "sgd" and n == 1 else [c.device.device] if hasattr(c.device, "device") else c.device.unit_cell_devices
    for s in subs:
        ref = dev if given == "instance" else dev()
        s2 = copy.deepcopy(s)
        s2.construction_seed = ref.construction_seed
        mon.check(s2 == ref and type(s2) is type(ref), f"build:device:{algo}", "device differs from the given one")
    iop = io if not isinstance(io, type) else io()
    mon.check(c.forward == iop and c.backward == iop and c.forward is not c.backward, f"build:io:{algo}", "io parameters differ from the given ones")
    upp = copy.deepcopy(up if not isinstance(up, type) else up())
    if algo in ("ttv2", "ttv3", "chopped-ttv2", "c-ttv2", "agad", "ttv4"):
        upp.desired_bl = 5
    mon.check(c.update == upp, f"build:update:{algo}", "update parameters differ")
    ids = [id(x) for x in subs + [c.forward, c.backward]]
    mon.check(len(set(ids)) == len(ids) and not (set(graph(c)) & set(graph([dev, io, up]))), f"build:shared:{algo}", "objects shared")
    layer = AnalogLinear(3, 2, rpu_config=c)
    mon.check(bool(layer(torch.randn(2, 3)).isfinite().all()), f"build:works:{algo}", "not finite")
    mon.obs("built")
    mon.state("build", algo, given)
    mon.raises(lambda: build_config("nope", dev), "build:unknown", "unknown algorithm accepted")


def sc_refused(rng, mon):
    c, kind = rand_cfg(rng)
    if kind in ("float",):
        raise Skip()
    opts = []
    tt = kind in ("torch", "custom", "irdropt", "noisy_torch")
    for n in ("forward", "backward", "update", "device"):
        p = getattr(c, n, None)
        if p is None or tt:
            continue
        opts.append((n, p))
        if hasattr(p, "unit_cell_devices"):
            opts += [(f"{n}.sub", s) for s in p.unit_cell_devices]
        if hasattr(p, "device"):
            opts.append((f"{n}.sub", p.device))
        for a in ("transfer_forward", "transfer_update"):
            if hasattr(p, a):
                opts.append((f"{n}.{a}", getattr(p, a)))
    if not opts:
        raise Skip()
    n, p = rng.choice(opts)
    how = rng.choice(["unknown", "unknown", "type"])
    mon.ctx = f"{kind} {n} {how} {type(p).__name__}"
    if how == "unknown":
        setattr(p, rng.choice(["out_nois", "desired_BL", "wmax", "is_prefect", "transfer_evry"]), 1.0)
        mon.raises(lambda: AnalogLinear(3, 2, rpu_config=c), f"refused:unknown:{type(p).__name__}", "unknown field accepted", Exception)
        mon.obs("unknown_refused")
    else:
        fs = [f for f in fields(p) if isinstance(getattr(p, f.name), (float, bool, int)) and f.name not in getattr(p, "bindings_ignore", [])
              and not isinstance(getattr(p, f.name), enum.Enum)]
        if not fs:
            raise Skip()
        f = rng.choice(fs)
        setattr(p, f.name, rng.choice(["1.0", None, [1.0]]))
        mon.ctx += f" {f.name}={getattr(p, f.name)!r}"
        mon.raises(lambda: AnalogLinear(3, 2, rpu_config=c), f"refused:type:{type(p).__name__}.{f.name}", "value of wrong type accepted", Exception)
        mon.obs("type_refused")
    mon.state("refused", kind, n, how)


def sc_torch_support(rng, mon):
    """A forward setting that matters for the compiled tile either matters for the torch tile or is refused."""
    io = IOParameters(out_noise=0., inp_noise=0.)
    f = rng.choice([f for f in fields(IOParameters)])
    changes = {}
    io = io_ctx(rng)
    strip = ["w_noise", "ir_drop", "out_nonlinearity", "out_nonlinearity_std", "v_offset_std", "r_series", "w_read_asymmetry_dtod", "slope_calibration", "out_noise_std"]
    for n in strip:
        setattr(io, n, 0.0)
    io.w_noise_type = WeightNoiseType.NONE
    io.mv_type = AnalogMVType.ONE_PASS
    io.inp_sto_round = io.out_sto_round = False
    if io.noise_management in (NoiseManagementType.AVERAGE_ABS_MAX, NoiseManagementType.ABS_MAX_NP_SUM):
        io.noise_management = NoiseManagementType.ABS_MAX
    if io.bound_management == BoundManagementType.ITERATIVE_WORST_CASE:
        io.bound_management = BoundManagementType.ITERATIVE
    other = copy.deepcopy(io)
    new = rand_value(rng, f, getattr(io, f.name))
    if new == getattr(io, f.name) or f.name in ("bm_test_negative_bound", "bound_management", "max_bm_factor", "max_bm_res"):
        raise Skip()  # bound management acts only when an output is bound: judged by P06
    setattr(other, f.name, new)
    if f.name == "w_noise":
        other.w_noise_type = WeightNoiseType.ADDITIVE_CONSTANT
    if f.name == "w_noise_type":
        io.w_noise = other.w_noise = .1
    W, X = torch.rand(4, 5) - .5, torch.randn(6, 5) * torch.tensor([.01, 1., 10., 1., .3, 2.])[:, None]
    mon.ctx = f"{f.name}: {getattr(io, f.name)} -> {new}"
    key = rng.randint(1, 10 ** 6)

    if other.bound_management == BoundManagementType.ITERATIVE_WORST_CASE:
        raise Skip()  # like ITERATIVE in the torch tile

    def run(cls, p, key=key):
        c = cls(forward=copy.deepcopy(p))
        c.mapping.digital_bias = True
        seed_all(key)
        t = AnalogLinear(5, 4, False, rpu_config=c).analog_module
        t.tile.set_weights(W)
        seed_all(key + 1)
        return [t.tile.forward(X, False, False, False, s, False).detach() for s in (False, True)]
    try:
        a, b = run(InferenceRPUConfig, io), run(InferenceRPUConfig, other)
    except (AihwkitException, RuntimeError):
        raise Skip()
    if not differs(a, b):
        raise Skip()
    try:
        u = run(TorchInferenceRPUConfig, io)
    except (AihwkitException, NotImplementedError):
        mon.obs("base_refused")
        raise Skip()
    try:
        v = run(TorchInferenceRPUConfig, other)
    except (AihwkitException, NotImplementedError):
        mon.check(True, "torch_support", "")
        mon.state("torch_support", f.name, "refused")
        mon.obs("torch_support")
        return
    same = not differs(u, v)
    for n in range(2, 42, 2):
        if same:
            same = not differs(run(TorchInferenceRPUConfig, io, key + n), run(TorchInferenceRPUConfig, other, key + n))
    mon.check(not same, f"torch_support:{f.name}", "the setting is accepted by the torch tile and changes the compiled tile, but has no effect")
    mon.obs("torch_support")
    mon.state("torch_support", f.name, "effect")


SCENARIOS = [
    Scenario("fields", sc_fields, quick=600, thorough=15000),
    Scenario("printed", sc_printed, quick=150, thorough=3000),
    Scenario("effect", sc_effect, quick=900, thorough=12000),
    Scenario("copies", sc_copies, quick=500, thorough=12000),
    Scenario("presets", sc_presets, quick=250, thorough=5000),
    Scenario("build", sc_build, quick=150, thorough=3000),
    Scenario("refused", sc_refused, quick=200, thorough=4000),
    Scenario("torch_support", sc_torch_support, quick=300, thorough=6000),
]
