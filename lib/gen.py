"""Random configurations, layers and inputs for the workloads."""
import math
import random

import torch
from torch import nn

from aihwkit.simulator.configs import (
    FloatingPointRPUConfig, InferenceRPUConfig, TorchInferenceRPUConfig, SingleRPUConfig,
    UnitCellRPUConfig, DigitalRankUpdateRPUConfig, TorchInferenceRPUConfigIRDropT,
)
from aihwkit.simulator.configs import devices as D
from aihwkit.simulator.configs import compounds as C
from aihwkit.simulator.configs.devices import FloatingPointDevice, IdealDevice
from aihwkit.simulator.parameters import (
    MappingParameter, UpdateParameters, IOParameters, WeightClipParameter, WeightModifierParameter,
    WeightRemapParameter, InputRangeParameter, PrePostProcessingParameter, DriftParameter,
    SimpleDriftParameter,
)
from aihwkit.simulator.parameters.enums import (
    PulseType, BoundManagementType, NoiseManagementType, WeightNoiseType, AnalogMVType,
    WeightModifierType, WeightClipType, WeightRemapType, VectorUnitCellUpdatePolicy,
)
from aihwkit.simulator.tiles.custom import CustomRPUConfig
from aihwkit.nn import (
    AnalogLinear, AnalogLinearMapped, AnalogConv1d, AnalogConv2d, AnalogConv3d,
    AnalogConv1dMapped, AnalogConv2dMapped, AnalogConv3dMapped, AnalogSequential,
)


def coin(rng, p=0.5):
    return rng.random() < p


def u(rng, a, b):
    return rng.uniform(a, b)


def logu(rng, a, b):
    return math.exp(rng.uniform(math.log(a), math.log(b)))


# --------------------------------------------------------------------------- devices
DEVICE_KINDS = ["ConstantStep", "LinearStep", "SoftBounds", "SoftBoundsPmax", "SoftBoundsReference",
                "ExpStep", "PowStep", "PowStepReference", "PiecewiseStep"]


def no_dtod(dev):
    """Switch off every device-to-device / cycle variation of a pulsed device."""
    for f in vars(dev):
        if f.endswith("_dtod") or f in ("dw_min_std", "reset_std", "write_noise_std",
                                        "corrupt_devices_prob", "reference_std",
                                        "dw_min_std_add", "dw_min_std_slope"):
            setattr(dev, f, 0.0)
    return dev


def rand_device(rng, kind=None, variation=True, dw_min=None, write_noise=False, decay=False):
    """A valid pulsed device. variation: device-to-device / cycle-to-cycle on."""
    kind = kind or rng.choice(DEVICE_KINDS)
    cls = getattr(D, kind + "Device")
    dev = cls()
    if kind != "SoftBoundsPmax":
        dev.w_max = u(rng, 0.2, 1.0)
        dev.w_min = -u(rng, 0.2, 1.0)
        dev.dw_min = dw_min or logu(rng, 1e-3, 3e-2)
        dev.up_down = u(rng, -0.1, 0.1) if kind != "PowStepReference" else 0.0
    else:
        dev.p_max = rng.choice([100, 500, 1000])
        dev.alpha = logu(rng, 2e-4, 1e-2)
        dev.range_min, dev.range_max = -u(rng, 0.3, 1.0), u(rng, 0.3, 1.0)
    if kind == "LinearStep":
        dev.gamma_up, dev.gamma_down = u(rng, 0, 0.5), u(rng, 0, 0.5)
        dev.mult_noise = coin(rng)
        dev.mean_bound_reference = coin(rng)
        if coin(rng, 0.2):
            dev.allow_increasing = True
        if coin(rng, 0.2):
            dev.mult_noise = True
            dev.reverse_up = coin(rng)
            dev.reverse_down = coin(rng)
    if kind in ("SoftBounds",):
        dev.mult_noise = coin(rng)
        if coin(rng, 0.2):
            dev.mult_noise = True
            dev.reverse_up = coin(rng)
            dev.reverse_down = coin(rng)
    if kind == "SoftBoundsReference":
        dev.mult_noise = coin(rng)
        dev.slope_up_dtod = u(rng, 0, 0.2)
        dev.slope_down_dtod = u(rng, 0, 0.2)
        dev.reference_std = rng.choice([0.0, 0.02])
        dev.subtract_symmetry_point = coin(rng, 0.3)
    if kind in ("PowStep", "PowStepReference"):
        dev.pow_gamma = u(rng, 0.5, 2.0)
        dev.pow_up_down = rng.choice([0.0, 0.05])
        if kind == "PowStepReference":
            dev.reference_std = rng.choice([0.0, 0.02])
    if kind == "PiecewiseStep":
        n = rng.choice([2, 3, 5, 9])
        dev.piecewise_up = [u(rng, 0.3, 1.5) for _ in range(n)]
        dev.piecewise_down = [u(rng, 0.3, 1.5) for _ in range(n)]
    if not variation:
        no_dtod(dev)
    else:
        dev.dw_min_std = rng.choice([0.0, 0.3, 1.0, 1.0, 6.0])
        dev.dw_min_dtod = rng.choice([0.0, 0.3])
        dev.dw_min_dtod_log_normal = coin(rng, 0.3)
        dev.w_max_dtod = rng.choice([0.0, 0.1, 0.3])
        dev.w_min_dtod = rng.choice([0.0, 0.1, 0.3])
        if coin(rng, 0.2):
            dev.corrupt_devices_prob = 0.05
    if write_noise and hasattr(dev, "write_noise_std"):
        dev.write_noise_std = u(rng, 0.1, 2.0)
    if decay:
        dev.lifetime = u(rng, 5.0, 200.0)
        dev.lifetime_dtod = rng.choice([0.0, 0.2])
        dev.diffusion = rng.choice([0.0, 0.005])
        dev.reset = u(rng, -0.1, 0.1)
        dev.drift = DriftParameter(nu=u(rng, 0, 0.1), nu_dtod=0.1)
    return dev


COMPOUND_KINDS = ["Vector", "Reference", "OneSided", "Transfer", "BufferedTransfer",
                  "ChoppedTransfer", "DynamicTransfer", "MixedPrecision"]


def perfect_io():
    return IOParameters(is_perfect=True)


def rand_compound(rng, kind=None, variation=True):
    kind = kind or rng.choice(COMPOUND_KINDS)

    def dv(k=None):
        return rand_device(rng, k or rng.choice(["ConstantStep", "LinearStep", "SoftBounds"]), variation)

    if kind == "Vector":
        n = rng.choice([2, 3])
        return C.VectorUnitCell(
            unit_cell_devices=[dv() for _ in range(n)],
            update_policy=rng.choice(list(VectorUnitCellUpdatePolicy)),
            gamma_vec=[u(rng, 0.2, 1.0) for _ in range(n)] if coin(rng) else [])
    if kind == "Reference":
        d = dv("SoftBounds")
        return C.ReferenceUnitCell(unit_cell_devices=[d, d])
    if kind == "OneSided":
        d = no_one_side(dv(rng.choice(["SoftBounds", "ConstantStep"])))
        return C.OneSidedUnitCell(unit_cell_devices=[d],
                                  refresh_every=rng.choice([0, 1, 3]),
                                  units_in_mbatch=coin(rng),
                                  copy_inverted=coin(rng))
    if kind in ("Transfer", "BufferedTransfer", "ChoppedTransfer", "DynamicTransfer"):
        cls = getattr(C, kind + "Compound")
        kw = dict(unit_cell_devices=[dv(), dv()],
                  transfer_every=rng.choice([1.0, 2.0, 3.0]),
                  n_reads_per_transfer=rng.choice([1, 1, 2]),
                  transfer_columns=coin(rng),
                  fast_lr=u(rng, 0.5, 2), transfer_lr=u(rng, 0.5, 2.0))
        if kind in ("ChoppedTransfer", "DynamicTransfer"):
            kw["n_reads_per_transfer"] = 1  # more are not supported by these
        if kind in ("Transfer", "BufferedTransfer"):
            kw["units_in_mbatch"] = coin(rng)
            kw["random_selection"] = coin(rng, 0.3)
            if kind == "Transfer":
                kw["gamma"] = rng.choice([0.0, 0.3])
        c = cls(**kw)
        return c
    if kind == "MixedPrecision":
        return C.MixedPrecisionCompound(device=dv(), transfer_every=rng.choice([1, 2, 3]),
                                        n_rows_per_transfer=rng.choice([-1, 1, 2]),
                                        n_x_bins=rng.choice([0, 8]), n_d_bins=rng.choice([0, 8]),
                                        random_row=coin(rng, 0.3))
    raise ValueError(kind)


def no_one_side(d):
    return d


def wrap_device(dev, **kw):
    """RPUConfig for a device or compound."""
    if isinstance(dev, C.MixedPrecisionCompound):
        return DigitalRankUpdateRPUConfig(device=dev, **kw)
    if isinstance(dev, C.UnitCell):
        return UnitCellRPUConfig(device=dev, **kw)
    return SingleRPUConfig(device=dev, **kw)


# --------------------------------------------------------------------------- mapping
def rand_mapping(rng, max_size=False, digital_bias=None, scaling=True, learn=None):
    m = MappingParameter()
    m.digital_bias = coin(rng) if digital_bias is None else digital_bias
    if scaling:
        m.weight_scaling_omega = rng.choice([0.0, 0.0, 0.4, 1.0])
        m.weight_scaling_columnwise = coin(rng)
        m.learn_out_scaling = coin(rng, 0.3) if learn is None else learn
        m.out_scaling_columnwise = coin(rng)
    if max_size:
        m.max_input_size = rng.choice([0, 3, 4, 7, 512])
        m.max_output_size = rng.choice([0, 2, 3, 5, 512])
    return m


PERFECT_KINDS = ["float", "ideal", "constant", "inference", "torch", "custom"]


def perfect_config(rng, kind=None, mapping=None):
    """A configuration whose forward and backward pass are exact."""
    kind = kind or rng.choice(PERFECT_KINDS)
    mapping = mapping or rand_mapping(rng)
    if kind == "float":
        cfg = FloatingPointRPUConfig()
    elif kind == "ideal":
        cfg = SingleRPUConfig(device=IdealDevice())
    elif kind == "constant":
        cfg = SingleRPUConfig(device=no_dtod(D.ConstantStepDevice(w_max=100.0, w_min=-100.0, dw_min=1e-3)))
    elif kind == "inference":
        cfg = InferenceRPUConfig()
    elif kind == "torch":
        cfg = TorchInferenceRPUConfig()
    elif kind == "custom":
        cfg = CustomRPUConfig()
    elif kind == "irdropt":
        cfg = TorchInferenceRPUConfigIRDropT()
    else:
        raise ValueError(kind)
    if kind in ("custom", "torch", "irdropt"):
        mapping.digital_bias = True  # these tiles refuse an analog bias
    cfg.mapping = mapping
    if kind != "float":
        cfg.forward.is_perfect = True
        if hasattr(cfg, "backward"):
            cfg.backward.is_perfect = True
    return cfg, kind


# --------------------------------------------------------------------------- layers
class LayerCase:
    """An analog layer, its digital twin's functional form, and an input generator."""

    def __init__(self, analog, digital, make_input, sig):
        self.analog, self.digital, self.make_input, self.sig = analog, digital, make_input, sig


LAYER_KINDS = ["linear", "linear_mapped", "conv1d", "conv2d", "conv2d_idx", "conv3d",
               "conv1d_mapped", "conv2d_mapped", "conv3d_mapped"]


def rand_layer(rng, cfg, kind=None, small=False):
    kind = kind or rng.choice(LAYER_KINDS)
    bias = coin(rng)
    if kind in ("linear", "linear_mapped"):
        i, o = rng.randint(1, 12), rng.randint(1, 9)
        cls = AnalogLinear if kind == "linear" else AnalogLinearMapped
        analog = cls(i, o, bias, cfg)
        digital = nn.Linear(i, o, bias)

        def make(r):
            shape = r.choice([(), (1,), (3,), (7,), (2, 3), (2, 1, 3)])
            return torch.randn(*shape, i)
        sig = (kind, i, o, bias)
    else:
        nd = int(kind[4])
        ci, co = rng.randint(1, 4), rng.randint(1, 5)
        k = tuple(rng.randint(1, 3) for _ in range(nd))
        s = tuple(rng.randint(1, 2) for _ in range(nd))
        p = tuple(rng.randint(0, 1) for _ in range(nd))
        d = tuple(rng.choice([1, 1, 2]) if nd == 2 else 1 for _ in range(nd))
        if "mapped" in kind:
            import math as _m
            ke = _m.prod(k)
            if 0 < cfg.mapping.max_input_size < ke:
                cfg.mapping.max_input_size = ke * rng.choice([1, 2])
            cfg.mapping.digital_bias = True
        cls = {("conv1d"): AnalogConv1d, "conv2d": AnalogConv2d, "conv2d_idx": AnalogConv2d,
               "conv3d": AnalogConv3d, "conv1d_mapped": AnalogConv1dMapped,
               "conv2d_mapped": AnalogConv2dMapped, "conv3d_mapped": AnalogConv3dMapped}[kind]
        kw = {}
        if kind == "conv2d_idx":
            kw["use_indexed"] = True
        elif kind == "conv2d_mapped":
            kw["use_indexed"] = coin(rng)
        args = (ci, co, k, s, p, d)
        analog = cls(*args, bias=bias, rpu_config=cfg, **kw)
        digital = [nn.Conv1d, nn.Conv2d, nn.Conv3d][nd - 1](*args, bias=bias)
        lo = [d[j] * (k[j] - 1) + 1 for j in range(nd)]

        def make(r):
            shape = [lo[j] + r.randint(0, 4 if nd < 3 else 2) for j in range(nd)]
            return torch.randn(r.randint(1, 3), ci, *shape)
        sig = (kind, ci, co, k, s, p, d, bias, tuple(kw.items()))
    return LayerCase(analog, digital, make, sig)


def copy_weights_to_digital(case):
    w, b = case.analog.get_weights()
    with torch.no_grad():
        case.digital.weight.copy_(w.reshape(case.digital.weight.shape))
        if case.digital.bias is not None:
            case.digital.bias.copy_(b)


def msig(m):
    return (m.digital_bias, m.weight_scaling_omega, m.weight_scaling_columnwise, m.learn_out_scaling,
            m.out_scaling_columnwise, m.max_input_size, m.max_output_size)


def randomize(case, rng):
    """Random weights (and learned output scales, if any) into the analog layer."""
    w, b = case.analog.get_weights()
    sc = rng.choice([0.05, 0.3, 1.0])
    case.analog.set_weights(torch.randn_like(w) * sc, None if b is None else torch.randn_like(b) * sc)
    for t in case.analog.analog_tiles():
        los = t.get_learned_out_scales() if hasattr(t, "get_learned_out_scales") else None
        if isinstance(los, torch.Tensor) and rng.random() < 0.7:
            t.set_learned_out_scales(torch.rand_like(los) * 1.5 + 0.3)


# --------------------------------------------------------------------------- deterministic training
TRAIN_KINDS = (["float", "ideal", "inference", "torch", "custom"] + ["dev:" + k for k in DEVICE_KINDS]
               + ["cmp:" + k for k in COMPOUND_KINDS])


def det_update():
    return UpdateParameters(pulse_type=PulseType.DETERMINISTIC_IMPLICIT, desired_bl=31)


def quiet(dev):
    """No cycle-to-cycle noise or other randomness after construction."""
    for f in ("dw_min_std", "write_noise_std", "reset_std", "diffusion", "dw_min_std_add", "dw_min_std_slope"):
        if hasattr(dev, f):
            setattr(dev, f, 0.0)
    return dev


def det_train_config(rng, kind=None, mapping=None, stateful=True):
    """A configuration whose passes and updates are deterministic after construction (device-to-device
    variation stays), with state that training depends on."""
    kind = kind or rng.choice(TRAIN_KINDS)
    mapping = mapping or rand_mapping(rng)
    if ":" not in kind:
        cfg, _ = perfect_config(rng, kind, mapping)
        if kind == "ideal":
            cfg.update = det_update()
        if hasattr(cfg, "drift_compensation"):
            cfg.modifier.type = WeightModifierType.NONE
        return cfg, kind
    what, name = kind.split(":")
    if what == "dev":
        dev = quiet(rand_device(rng, name, decay=stateful and coin(rng)))
        quiet(dev)
        cfg = SingleRPUConfig(device=dev, update=det_update())
    else:
        dev = rand_compound(rng, name)
        if name == "MixedPrecision":
            quiet(dev.device)
            dev.random_row = False
            dev.stoc_round_x = dev.stoc_round_d = False
            cfg = DigitalRankUpdateRPUConfig(device=dev)
        else:
            for d in dev.unit_cell_devices:
                quiet(d)
            if name == "Vector" and dev.update_policy == VectorUnitCellUpdatePolicy.SINGLE_RANDOM:
                dev.update_policy = VectorUnitCellUpdatePolicy.SINGLE_SEQUENTIAL
            for a in ("transfer_forward",):
                if hasattr(dev, a):
                    setattr(dev, a, perfect_io())
            for a in ("transfer_update",):
                if hasattr(dev, a):
                    setattr(dev, a, det_update())
            for a in ("random_selection", "in_chop_random"):
                if hasattr(dev, a):
                    setattr(dev, a, False)
            if hasattr(dev, "in_chop_prob"):
                dev.in_chop_prob = rng.choice([0.0, 0.5]) if not hasattr(dev, "experimental_correct_accumulation") \
                    else rng.choice([0.0, 0.2])
            if name == "OneSided":
                dev.refresh_forward = perfect_io()
                dev.refresh_update = det_update()
            cfg = UnitCellRPUConfig(device=dev, update=det_update())
    cfg.forward = cfg.backward = perfect_io()
    cfg.mapping = mapping
    return cfg, kind


class FirstOutput(AnalogSequential):
    def forward(self, x):
        return self[0](x)[0]


def rand_model(rng, cfg, kinds=None):
    """(model, make_input) of a small random analog network, all tiles with cfg."""
    kind = rng.choice(kinds or ["linear", "two", "conv", "conv_idx", "mapped", "lstm"])
    import copy as _copy
    c = lambda: _copy.deepcopy(cfg)
    bias = coin(rng)
    if kind == "linear":
        i, o = rng.randint(1, 8), rng.randint(1, 6)
        model = AnalogSequential(AnalogLinear(i, o, bias, c()))
        make = lambda r: torch.randn(r.choice([1, 3]), i)
    elif kind == "two":
        i, h = rng.randint(1, 6), rng.randint(1, 5)
        model = AnalogSequential(AnalogLinear(i, h, bias, c()), nn.Tanh(), nn.Linear(h, 3), nn.BatchNorm1d(3),
                                 AnalogLinear(3, 2, coin(rng), c()))
        make = lambda r: torch.randn(r.choice([2, 3]), i)
    elif kind in ("conv", "conv_idx"):
        ci, co = rng.randint(1, 2), rng.randint(1, 3)
        kw = {"use_indexed": True} if kind == "conv_idx" else {"use_indexed": False}
        model = AnalogSequential(AnalogConv2d(ci, co, 2, padding=rng.randint(0, 1), bias=bias,
                                              rpu_config=c(), **kw), nn.Tanh(), nn.AdaptiveAvgPool2d(2),
                                 nn.Flatten(), AnalogLinear(4 * co, 2, True, c()))
        make = lambda r: torch.randn(2, ci, 4 + r.randint(0, 1), 5)
    elif kind == "mapped":
        cf = c()
        cf.mapping.max_input_size, cf.mapping.max_output_size = rng.choice([2, 3, 5]), rng.choice([0, 2])
        cf.mapping.digital_bias = True
        i, o = rng.randint(1, 8), rng.randint(1, 6)
        model = AnalogSequential(AnalogLinearMapped(i, o, bias, cf))
        make = lambda r: torch.randn(r.choice([1, 3]), i)
    else:
        from aihwkit.nn import AnalogRNN, AnalogLSTMCell, AnalogGRUCell, AnalogVanillaRNNCell
        cell = rng.choice([AnalogLSTMCell, AnalogGRUCell, AnalogVanillaRNNCell])
        i, h = rng.randint(1, 4), rng.randint(1, 4)
        model = FirstOutput(AnalogRNN(cell, i, h, bias=bias, rpu_config=c(), num_layers=rng.choice([1, 2]),
                              bidir=coin(rng, 0.3)))
        make = lambda r: torch.randn(r.randint(1, 3), 2, i)
    return model, make, kind


def train_steps(model, opt, make, rng, n):
    """n deterministic optimizer steps; returns the losses."""
    out = []
    for _ in range(n):
        opt.zero_grad()
        y = model(make(rng))
        loss = (y ** 2).sum() + y.sum()
        loss.backward()
        opt.step()
        out.append(float(loss.detach()))
    return out
