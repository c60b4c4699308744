"""P20: the compiled simulator is memory safe for any call.

Monitor: AddressSanitizer and UndefinedBehaviorSanitizer (and the libstdc++ assertions) watch every access
of the real compiled code while generated API sequences, valid and malformed, run on all bound classes; a
report, a crash or a hang is a violation. The harness additionally checks that malformed arguments raise
a Python exception and that the object still works and is unchanged afterwards.
"""
import copy
import gc
import math
import pickle
from dataclasses import fields

import torch
from torch import nn

import gen
from vh import Scenario, Skip, seed_all
from aihwkit.exceptions import AihwkitException
from aihwkit.nn import AnalogConv1d, AnalogConv2d, AnalogConv3d, AnalogLinear, AnalogLinearMapped
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import (
    FloatingPointRPUConfig, InferenceRPUConfig, IOParameters, SingleRPUConfig, UnitCellRPUConfig, UpdateParameters, WeightClipParameter,
    WeightModifierParameter, WeightRemapParameter, MappingParameter)
from aihwkit.simulator.configs import compounds as C, devices as D
from aihwkit.simulator.parameters.enums import (
    AnalogMVType, BoundManagementType, NoiseManagementType, PulseType, RPUDataType, VectorUnitCellUpdatePolicy, WeightClipType,
    WeightModifierType, WeightNoiseType, WeightRemapType)
from aihwkit.simulator.parameters.helpers import parameters_to_bindings
from aihwkit.simulator.rpu_base import tiles as BT

PID = "P20"
VARIANT = "san"
RULE = "one state per (class of object, operation, valid/malformed, outcome)"
ASSUMPTIONS = ["the sanitizers report every out-of-bounds, use-after-free and undefined operation that an execution performs",
               "objects whose memory the caller hands over (shared weights, index layouts) stay alive, as the Python layer guarantees"]
REQUIRES = ("call", "refused", "usable_after_error", "params_built", "params_refused", "lifetime", "state", "ops", "indexed", "empty_batch")
ERR = (AihwkitException, RuntimeError, ValueError, TypeError, IndexError, KeyError, AttributeError, AssertionError, OverflowError, NotImplementedError)


def bindings(p):
    return parameters_to_bindings(p, RPUDataType.FLOAT)


# ---- malformed tensors
def bad_tensor(rng, shape):
    """A tensor that is not what is expected: (tensor, why, certain to be invalid)."""
    shape = list(shape)
    kind = rng.choice(["size", "size", "dims", "dtype", "empty", "scalar", "zero_dim", "type", "sparse", "meta", "big"])
    if kind == "size":
        k = rng.randrange(len(shape))
        shape[k] = max(0, shape[k] + rng.choice([-1, 1, 2, 7]))
        return torch.randn(shape), kind, k == len(shape) - 1
    if kind == "dims":
        return torch.randn(*shape, 2), kind, shape[-1] != 2
    if kind == "dtype":
        d = rng.choice([torch.float64, torch.float16, torch.int32, torch.int64, torch.bool, torch.uint8, torch.complex64, torch.bfloat16])
        return torch.ones(shape).to(d), "dtype", False
    if kind == "empty":
        return torch.empty(0), kind, True
    if kind == "scalar":
        return torch.tensor(1.5), kind, True
    if kind == "zero_dim":
        return torch.empty(*shape[:-1], 0), kind, True
    if kind == "type":
        return rng.choice([None, 3, "x", [1.0, 2.0]]), kind, True
    if kind == "sparse":
        return torch.randn(shape).to_sparse(), kind, False
    if kind == "meta":
        return torch.randn(shape).to("meta"), kind, False
    return torch.randn(*shape[:-1], shape[-1] * 40), kind, True


def odd_layout(rng, t):
    """Same values, another memory layout."""
    k = rng.randrange(5)
    if k == 0 and t.dim() >= 2:
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    if k == 1:
        return torch.cat([t, t], -1)[..., :t.shape[-1]]
    if k == 2:
        b = torch.randn(*t.shape[:-1], t.shape[-1] * 2)
        b[..., ::2] = t
        return b[..., ::2]
    if k == 3 and t.dim() == 2:
        return t[:1].expand(t.shape[0], -1)
    return t


def odd_values(rng, t):
    k = rng.randrange(6)
    if k < 3 or t.numel() == 0:
        return t
    t = t.clone()
    v = rng.choice([float("nan"), float("inf"), -float("inf"), 1e38, -1e38, 1e-40, 0.0])
    if k == 3:
        t.fill_(v)
    else:
        t.view(-1)[rng.randrange(t.numel())] = v
    return t


DEVS = gen.DEVICE_KINDS + gen.COMPOUND_KINDS


def rand_tile(rng, mon, x=None, d=None):
    """A compiled tile object of any kind (and its Python tile)."""
    x, d = x or rng.choice([1, 2, 3, 5, 8, 17, 33]), d or rng.choice([1, 2, 3, 4, 9, 16, 40])
    kind = rng.choice(DEVS + ["fp", "inference", "det"])
    if kind == "fp":
        cfg = FloatingPointRPUConfig()
    elif kind == "inference":
        cfg = InferenceRPUConfig()
    elif kind == "det":
        cfg, _ = gen.det_train_config(rng, rng.choice([k for k in gen.TRAIN_KINDS if k not in ("torch", "torch_inference", "custom")]))
    elif kind in gen.DEVICE_KINDS:
        cfg = SingleRPUConfig(device=gen.rand_device(rng, kind))
    else:
        cfg = gen.wrap_device(gen.rand_compound(rng, kind))
    if hasattr(cfg, "forward") and hasattr(cfg, "update") and gen.coin(rng, .6):
        cfg.forward, cfg.backward, cfg.update = rand_io(rng), rand_io(rng), rand_up(rng)
    cfg.mapping = MappingParameter(digital_bias=True, weight_scaling_omega=0.)
    seed_all(rng.getrandbits(30))
    layer = AnalogLinear(x, d, False, rpu_config=cfg)
    m = layer.analog_module
    mon.ctx = f"{kind} {d}x{x}"
    return layer, m, m.tile, x, d, kind


def rand_io(rng):
    if gen.coin(rng, .2):
        return IOParameters(is_perfect=True)
    p = IOParameters(
        inp_res=rng.choice([-1, 1 / 126, 1 / 6, 0.5, 30.]), out_res=rng.choice([-1, 1 / 254, 1 / 6]), inp_bound=rng.choice([1.0, 1.0, 0.0, 1e-3, 30.]),
        out_bound=rng.choice([12., 1., 0., .1]), inp_noise=rng.choice([0., .1]), out_noise=rng.choice([0., .06]), w_noise=rng.choice([0., .1]),
        w_noise_type=rng.choice(list(WeightNoiseType)), inp_sto_round=gen.coin(rng), out_sto_round=gen.coin(rng), ir_drop=rng.choice([0., 0., 1.]),
        bound_management=rng.choice([b for b in BoundManagementType if b.name != "SHIFT"]), noise_management=rng.choice(list(NoiseManagementType)),
        max_bm_factor=rng.choice([1, 4, 1000]), max_bm_res=rng.choice([.1, .25]), nm_thres=rng.choice([0., .5]), out_noise_std=rng.choice([0., .3]),
        out_nonlinearity=rng.choice([0., .4]), slope_calibration=rng.choice([0., .5]), r_series=rng.choice([0., .01]), v_offset_std=rng.choice([0., .1]),
        w_read_asymmetry_dtod=rng.choice([0., .1]), mv_type=rng.choice([AnalogMVType.ONE_PASS, AnalogMVType.ONE_PASS, AnalogMVType.POS_NEG_SEPARATE]))
    if p.noise_management != NoiseManagementType.NONE:
        p.inp_bound = 1.0
    return p


def rand_up(rng):
    return UpdateParameters(
        desired_bl=rng.choice([1, 5, 31, 32, 33, 63, 64, 100]), fixed_bl=gen.coin(rng), pulse_type=rng.choice(list(PulseType)),
        res=rng.choice([-1, .01]), x_res_implicit=rng.choice([0, .05]), d_res_implicit=rng.choice([0, .05]), sto_round=gen.coin(rng),
        update_management=gen.coin(rng), update_bl_management=gen.coin(rng), um_grad_scale=rng.choice([1.0, .5]), d_sparsity=gen.coin(rng))


OPS = ["forward", "backward", "update", "set_weights", "get_weights", "hidden", "set_hidden", "decay", "drift", "diffuse", "reset", "clip", "modify",
       "remap", "info", "extra", "lr", "uniform", "copy", "update_index", "post_batch", "names", "counters"]


def tile_op(rng, op, t, x, d, bad):
    """Runs one operation of the compiled tile; returns whether it is certain to be invalid."""
    m = rng.choice([0, 1, 1, 2, 3, 7, 33])
    bias = gen.coin(rng, .15) and x > 1
    xt, dt = gen.coin(rng, .25), gen.coin(rng, .25)
    xs = x - int(bias)
    X, Dd = torch.randn(m, xs), torch.randn(m, d)
    if gen.coin(rng, .3):
        X, Dd = odd_values(rng, X), odd_values(rng, Dd)
    sure = False
    if op in ("forward", "backward", "update"):
        tx, td = gen.coin(rng, .1), gen.coin(rng, .1)
        X = odd_layout(rng, X.t().contiguous() if xt else X)
        Dd = odd_layout(rng, Dd.t().contiguous() if dt else Dd)
        if bad:
            if op == "backward" or op == "update" and gen.coin(rng):
                Dd, _, sure = bad_tensor(rng, (m, d))
                dt, sure = False, sure or not isinstance(Dd, torch.Tensor)
            else:
                X, _, sure = bad_tensor(rng, (m, xs))
                xt = False
            if op == "update" and t.get_learning_rate() == 0:
                sure = False
        if op == "forward":
            y = t.forward(X, bias, xt, dt, gen.coin(rng), False)
        elif op == "backward":
            y = t.backward(Dd, bias, dt, xt, False)
        else:
            y = t.update(X, Dd, bias, xt, dt, False)
        if y is not None:
            y.sum().item()
        return y, sure
    if op == "set_weights":
        W = odd_layout(rng, odd_values(rng, torch.randn(d, x)))
        if bad:
            W, k, sure = bad_tensor(rng, (d, x))
            sure = sure or k == "size"
        return t.set_weights(W), sure
    if op == "get_weights":
        return t.get_weights().sum().item(), False
    if op == "hidden":
        return t.get_hidden_parameters().sum().item(), False
    if op == "set_hidden":
        h = t.get_hidden_parameters()
        if bad:
            h, k, sure = bad_tensor(rng, h.shape if h.dim() == 3 else (1, d, x))
        elif gen.coin(rng, .2):
            h = odd_values(rng, h)
        return t.set_hidden_parameters(h), False
    if op == "decay":
        return t.decay_weights(rng.choice([1.0, .5, 0., -1., float("nan"), 1e30])), False
    if op == "drift":
        return t.drift_weights(rng.choice([1.0, 0., 1e6, -1., float("nan")])), False
    if op == "diffuse":
        return t.diffuse_weights(), False
    if op == "reset":
        s, n = rng.choice([(0, 1), (0, x), (x - 1, 3), (x, 1), (x + 5, 2), (-1, 1), (0, -1), (0, x + 9), (-7, 2), (2 ** 31 - 1, 5), (1, 2 ** 31 - 1)])
        return t.reset_columns(s, n, rng.choice([1.0, .5, 0., -1., 2., float("nan")])), False
    if op == "clip":
        p = WeightClipParameter(type=rng.choice(list(WeightClipType)), fixed_value=rng.choice([1.0, 0., -1.]), sigma=rng.choice([2.5, 0.]))
        return t.clip_weights(bindings(p)), False
    if op == "modify":
        p = WeightModifierParameter(type=rng.choice([k for k in WeightModifierType if k != WeightModifierType.PROG_NOISE]), std_dev=rng.choice([0., .1, -.1]),
                                    res=rng.choice([0., .1, -1., .5, 1e-9]), pdrop=rng.choice([0., .5, 1.]), rel_to_actual_wmax=gen.coin(rng),
                                    assumed_wmax=rng.choice([1., 0., -1.]), sto_round=gen.coin(rng), copy_last_column=gen.coin(rng, .3),
                                    coeffs=rng.choice([[], [.1], [.1, .2, .3, .4, .5, .6]]), g_max=rng.choice([25., 0.]), per_batch_sample=gen.coin(rng, .2),
                                    pcm_t_inference=rng.choice([0., 1e5]), pcm_t0=rng.choice([20., 0.]))
        return t.modify_weights(bindings(p)), False
    if op == "remap":
        s = torch.ones(d)
        if bad:
            s, k, sure = bad_tensor(rng, (d,))
            sure = sure or k in ("size",)
        p = WeightRemapParameter(type=rng.choice(list(WeightRemapType)), remapped_wmax=rng.choice([1., 0.]), max_scale_range=rng.choice([0., 2.]))
        return t.remap_weights(bindings(p), s), sure
    if op == "info":
        return (str(t), t.get_info(), t.get_brief_info(), str(t.get_meta_parameters())), False
    if op == "extra":
        return t.load_extra(t.dump_extra(), True), False
    if op == "lr":
        return t.set_learning_rate(rng.choice([0., .1, .01, 1., 1e-30, -.1])), False
    if op == "uniform":
        return t.set_weights_uniform_random(rng.choice([-1., 0., 1.]), rng.choice([1., 0., -1.])), False
    if op == "copy":
        q = rng.choice([copy.copy, copy.deepcopy])(t)
        y = q.get_weights().sum().item()
        if gen.coin(rng):
            q.forward(torch.randn(2, x), False, False, False, False, False)
        return y, False
    if op == "update_index":
        k = t.get_hidden_update_index()
        n = rng.choice([0, 1, 2, 5, -1, 10 ** 6]) if bad else k
        t.set_hidden_update_index(n)
        return None, False
    if op == "names":
        return t.get_hidden_parameter_names(), False
    if op == "counters":
        return t.get_pulse_counters(), False
    return None, False


def sc_calls(rng, mon):
    """Sequences of calls on one compiled tile."""
    layer, mod, t, x, d, kind = rand_tile(rng, mon)
    base = mon.ctx
    t.set_learning_rate(.1)
    for k in range(rng.randint(4, 25)):
        op = rng.choice(OPS)
        bad = gen.coin(rng, .3)
        mon.ctx = f"{base} step {k} {op}{' malformed' if bad else ''}"
        before = t.get_weights()
        try:
            y, sure = tile_op(rng, op, t, x, d, bad)
        except ERR as e:
            mon.check(isinstance(e, Exception), "calls:refused", "")
            mon.obs("refused")
            mon.state(type(t).__name__, op, "refused")
            after = t.get_weights()
            mon.check(torch.equal(before.nan_to_num(), after.nan_to_num()), f"calls:weights_after_error:{op}", f"refused call changed the weights: {str(e)[:100]}")
            y = t.forward(torch.randn(2, x), False, False, False, True, False)
            mon.check(y.shape == (2, d), f"calls:usable_after_error:{op}", "tile does not work after a refused call")
            mon.obs("usable_after_error")
            continue
        mon.check(not (bad and sure), f"calls:accepted:{op}", "malformed argument was accepted")
        mon.obs("call")
        mon.state(type(t).__name__, kind, op, bad)


# ---- user level sequences with malformed inputs
def sc_layers(rng, mon):
    cfg, kind = gen.det_train_config(rng, rng.choice(gen.TRAIN_KINDS)) if gen.coin(rng) else (SingleRPUConfig(device=gen.rand_device(rng, rng.choice(gen.DEVICE_KINDS))), "device")
    which = rng.choice(["linear", "mapped", "conv1", "conv2", "conv3"])
    python_tile = kind in ("torch", "torch_inference", "custom")
    if python_tile and which in ("conv1", "conv3"):
        raise Skip()  # needs the index interface
    cfg.mapping.digital_bias = python_tile or gen.coin(rng, .7)
    seed_all(rng.getrandbits(30))
    try:
        if which == "linear":
            layer, shape = AnalogLinear(4, 3, gen.coin(rng), rpu_config=cfg), (rng.choice([0, 1, 3]), 4)
        elif which == "mapped":
            cfg.mapping.max_input_size, cfg.mapping.max_output_size = 3, 2
            layer, shape = AnalogLinearMapped(7, 5, gen.coin(rng), rpu_config=cfg), (rng.choice([0, 1, 3]), 7)
        elif which == "conv1":
            layer, shape = AnalogConv1d(2, 3, 2, stride=rng.choice([1, 2]), padding=rng.choice([0, 1]), bias=gen.coin(rng), rpu_config=cfg), (rng.choice([0, 1, 2]), 2, 6)
        elif which == "conv2":
            layer, shape = AnalogConv2d(2, 3, 2, stride=rng.choice([1, 2]), padding=rng.choice([0, 1]), bias=gen.coin(rng), rpu_config=cfg), (rng.choice([0, 1, 2]), 2, 4, 5)
        else:
            layer, shape = AnalogConv3d(2, 2, 2, stride=1, padding=rng.choice([0, 1]), bias=gen.coin(rng), rpu_config=cfg), (rng.choice([0, 1, 2]), 2, 3, 3, 3)
    except ERR:
        raise Skip()
    mon.ctx = f"{which} {kind} {shape}"
    opt = AnalogSGD(layer.parameters(), lr=.1)
    done = 0
    for k in range(rng.randint(3, 7)):
        bad = gen.coin(rng, .3)
        mon.ctx = f"{which} {kind} {shape} step {k}{' malformed' if bad else ''}"
        x = odd_layout(rng, torch.randn(shape))
        if bad:
            x, _, _ = bad_tensor(rng, shape)
        layer.train(gen.coin(rng, .7))
        try:
            opt.zero_grad()
            if isinstance(x, torch.Tensor) and x.dtype == torch.float32 and gen.coin(rng):
                x = x.detach().requires_grad_(True)
            y = layer(x)
            if y.requires_grad and layer.training:
                y.sum().backward()
                opt.step()
            done += 1
            mon.obs("call")
            if shape[0] == 0 and not bad:
                mon.check(y.shape[0] == 0, f"layers:empty:{which}", "no empty output for an empty batch")
                mon.obs("empty_batch")
            mon.state(which, kind, bad, "done")
        except ERR as e:
            if not bad:
                mon.check(False, f"layers:refused_valid:{which}{':empty' if shape[0] == 0 else ''}", f"{type(e).__name__}: {str(e)[:150]}")
                return
            mon.obs("refused")
            mon.state(which, kind, "refused")
            opt.zero_grad()
            for m in layer.modules():
                if hasattr(m, "analog_ctx"):
                    m.analog_ctx.reset()
            with torch.no_grad():
                y = layer(torch.randn(2, *shape[1:]))
            mon.check(y.shape[0] == 2, f"layers:usable:{which}", "layer does not work after a refused input")
            mon.obs("usable_after_error")
    mon.check(True, "layers", "")


def sc_indexed(rng, mon):
    """Index layouts of the convolutions: changing image sizes, mismatching inputs, copies and deletions."""
    dim = rng.choice([1, 2, 2, 3])
    cls = {1: AnalogConv1d, 2: AnalogConv2d, 3: AnalogConv3d}[dim]
    cfg, kind = gen.det_train_config(rng, rng.choice([k for k in gen.TRAIN_KINDS if k not in ("torch", "torch_inference", "custom")]))
    cfg.mapping.digital_bias = gen.coin(rng)
    seed_all(rng.getrandbits(30))
    layer = cls(2, 3, 2, padding=rng.choice([0, 1]), bias=gen.coin(rng), rpu_config=cfg)
    layer.use_indexed = True
    opt = AnalogSGD(layer.parameters(), lr=.1)
    tile = layer.analog_module
    base = f"conv{dim} {kind}"
    for k in range(rng.randint(2, 6)):
        op = rng.choice(["run", "run", "resize", "copy", "pickle", "layout", "direct", "empty", "gc"])
        mon.ctx = f"{base} step {k} {op}"
        size = [rng.randint(2, 5) for _ in range(dim)]
        try:
            if op in ("run", "resize", "empty"):
                x = torch.randn(0 if op == "empty" else rng.randint(1, 3), 2, *size, requires_grad=True)
                opt.zero_grad()
                y = layer(odd_layout(rng, x))
                if op == "empty":
                    mon.check(y.shape[0] == 0, "indexed:empty", "no empty output")
                    mon.obs("empty_batch")
                y.sum().backward()
                opt.step()
            elif op == "copy":
                old = layer
                layer = copy.deepcopy(layer)
                tile = layer.analog_module
                opt = AnalogSGD(layer.parameters(), lr=.1)
                del old
                gc.collect()
            elif op == "pickle":
                layer = pickle.loads(pickle.dumps(layer))
                tile = layer.analog_module
                opt = AnalogSGD(layer.parameters(), lr=.1)
            elif op == "gc":
                layer.fold_indices = torch.empty(0, dtype=torch.int32)
                gc.collect()
                junk = [torch.randint(10 ** 6, (n,), dtype=torch.int32) for n in range(1, 60)]
                del junk
            elif op == "layout":
                n = rng.choice([0, 1, 5, 16, 500])
                idx = torch.randint(-3, 500, (n,), dtype=rng.choice([torch.int32, torch.int32, torch.int64, torch.float32]))
                sizes = [2] + size + [max(0, s - rng.randint(0, 2)) for s in size]
                tile.set_indexed(idx, sizes)
                mon.state("layout", "accepted")
                tile.joint_forward_indexed(torch.randn(2, 2, *size))
                del idx
                gc.collect()
                layer.fold_indices = torch.empty(0, dtype=torch.int32)
                layer.in_features = None
            elif op == "direct":
                if not tile.is_indexed():
                    continue
                x = torch.randn(rng.randint(0, 3), rng.randint(1, 4), *[max(1, s + rng.choice([-1, 0, 1, 4])) for s in size])
                y = tile.joint_forward_indexed(x)
                dd = torch.randn(rng.randint(0, 3), rng.choice([3, 3, 1, 7]), *y.shape[2:])
                tile.backward_indexed(dd)
                tile.update_indexed(x, dd)
            mon.obs("indexed")
            mon.state("indexed", dim, op, "done")
        except ERR as e:
            mon.obs("refused")
            mon.state("indexed", dim, op, "refused")
        mon.check(True, "indexed", "")


# ---- parameters out of their ranges
WEIRD_F = [0., -1., 1., float("nan"), float("inf"), -float("inf"), 1e30, -1e30, 1e-30, .5, 2., 37., -.3]
WEIRD_I = [0, -1, 1, 2, 3, 7, 31, 32, 33, 65, -5]


CHANGED = []


def weird(rng, p, depth=0):
    if depth == 0:
        CHANGED.append(type(p).__name__)
    fs = [f for f in fields(p)]
    for f in rng.sample(fs, min(len(fs), rng.choice([1, 1, 2, 4, len(fs)]))):
        v = getattr(p, f.name)
        if f.name in ("construction_seed", "device", "unit_cell_devices"):
            continue
        if isinstance(v, bool):
            setattr(p, f.name, gen.coin(rng))
        elif isinstance(v, int):
            setattr(p, f.name, rng.choice(WEIRD_I))
        elif isinstance(v, float):
            setattr(p, f.name, rng.choice(WEIRD_F))
        elif isinstance(v, list):
            setattr(p, f.name, [rng.choice(WEIRD_F) for _ in range(rng.choice([0, 1, 2, 3, 7]))])
        elif hasattr(v, "__dataclass_fields__") and depth < 2:
            weird(rng, v, depth + 1)
        CHANGED.append(f"{f.name}={getattr(p, f.name)}"[:60])
    return p


def sc_params(rng, mon):
    CHANGED.clear()
    group = rng.choice(["device", "device", "compound", "compound", "compound", "io", "io", "update", "update", "modifier"])
    cfg = SingleRPUConfig(device=gen.rand_device(rng, rng.choice(gen.DEVICE_KINDS)))
    if gen.coin(rng, .5):
        cfg.forward, cfg.backward, cfg.update = rand_io(rng), rand_io(rng), rand_up(rng)
    if group == "device":
        weird(rng, cfg.device)
    elif group == "compound":
        dev = gen.rand_compound(rng, rng.choice(gen.COMPOUND_KINDS))
        weird(rng, dev)
        if gen.coin(rng, .3) and hasattr(dev, "unit_cell_devices"):
            dev.unit_cell_devices = rng.choice([[], dev.unit_cell_devices[:1], dev.unit_cell_devices * 2])
        cfg = gen.wrap_device(dev)
        if gen.coin(rng, .3):
            weird(rng, cfg.update)
    elif group == "io":
        weird(rng, cfg.forward), weird(rng, cfg.backward)
    elif group == "update":
        weird(rng, cfg.update)
    mod = weird(rng, WeightModifierParameter(type=rng.choice([k for k in WeightModifierType if k != WeightModifierType.PROG_NOISE])))
    x, d = rng.choice([1, 3, 8, 33]), rng.choice([1, 2, 9])
    mon.ctx = f"{group} {d}x{x} {' '.join(CHANGED)}"[:900]
    seed_all(rng.getrandbits(30))
    try:
        layer = AnalogLinear(x, d, False, rpu_config=cfg)
    except ERR as e:
        mon.check(True, "params", "")
        mon.obs("params_refused")
        mon.state("params", group, "refused", type(e).__name__)
        return
    t = layer.analog_module.tile
    mon.obs("params_built")
    mon.state("params", group, type(getattr(cfg, "device", None)).__name__)
    try:
        t.set_learning_rate(.1)
        for k in range(rng.randint(2, 6)):
            m = rng.choice([1, 1, 3])
            X, Dd = torch.randn(m, x), torch.randn(m, d)
            t.forward(X, False, False, False, gen.coin(rng, .2), False)
            t.backward(Dd, False, False, False, False)
            t.update(X, Dd, False, False, False, False)
            if gen.coin(rng, .3):
                rng.choice([lambda: t.decay_weights(.9), t.diffuse_weights, lambda: t.drift_weights(3.), lambda: t.reset_columns(0, 1, .5),
                            lambda: t.set_hidden_parameters(t.get_hidden_parameters()), lambda: t.load_extra(t.dump_extra(), True), lambda: str(t),
                            lambda: copy.deepcopy(t), lambda: t.set_weights(torch.randn(d, x)), lambda: t.modify_weights(bindings(mod))])()
    except ERR as e:
        mon.obs("refused")
        mon.state("params", group, "refused later", type(e).__name__)
    mon.check(True, "params", "")


# ---- life time of objects
def sc_lifetime(rng, mon):
    objs = [rand_tile(rng, mon)]
    for k in range(rng.randint(4, 12)):
        op = rng.choice(["new", "copy", "deepcopy", "pickle", "drop", "run", "module_copy", "shared", "delta", "to_config", "params", "move"])
        i = rng.randrange(len(objs))
        layer, mod, t, x, d, kind = objs[i]
        mon.ctx = f"{kind} {op} step {k} of {len(objs)}"
        try:
            if op == "new":
                objs.append(rand_tile(rng, mon))
            elif op in ("copy", "deepcopy"):
                q = getattr(copy, op)(t)
                objs.append((None, None, q, x, d, kind))
            elif op == "pickle" and layer is not None:
                q = pickle.loads(pickle.dumps(layer))
                objs.append((q, q.analog_module, q.analog_module.tile, x, d, kind))
            elif op == "module_copy" and layer is not None:
                q = copy.deepcopy(layer)
                objs.append((q, q.analog_module, q.analog_module.tile, x, d, kind))
            elif op == "drop" and len(objs) > 1:
                del objs[i], layer, mod, t
                gc.collect()
                continue
            elif op == "shared" and layer is not None:
                # the Python layer keeps the shared memory alive
                mod.ensure_shared_weights() if hasattr(mod, "ensure_shared_weights") else None
            elif op == "delta":
                # delta weights collect the gradient, then are taken away again
                W = torch.zeros(d, x)
                t.set_delta_weights(W)
                t.update(torch.randn(2, x), torch.randn(2, d), False, False, False, False)
                t.reset_delta_weights()
                del W
            elif op == "params":
                p = t.get_meta_parameters()
                q = copy.deepcopy(t)
                del q
                gc.collect()
                str(p)
            elif op == "move" and layer is not None:
                sd = layer.state_dict()
                q = AnalogLinear(x, d, False, rpu_config=copy.deepcopy(mod.rpu_config))
                q.load_state_dict(sd)
                objs.append((q, q.analog_module, q.analog_module.tile, x, d, kind))
            for lay, mo, tt, xx, dd, kk in objs[-3:]:
                tt.set_learning_rate(.1)
                tt.forward(torch.randn(2, xx), False, False, False, False, False)
                tt.backward(torch.randn(2, dd), False, False, False, False)
                tt.update(torch.randn(2, xx), torch.randn(2, dd), False, False, False, False)
                tt.get_weights().sum().item()
            mon.obs("lifetime")
            mon.state("lifetime", op, kind)
        except ERR as e:
            mon.obs("refused")
            mon.state("lifetime", op, "refused")
        mon.check(True, "lifetime", "")


# ---- state dictionaries of something else
def sc_state(rng, mon):
    a = rand_tile(rng, mon)
    same = gen.coin(rng, .5)
    b = rand_tile(rng, mon, *((a[3], a[4]) if same else (None, None)))
    mon.ctx = f"{a[5]} {a[4]}x{a[3]} -> {b[5]} {b[4]}x{b[3]}"
    for t, x, d in ((a[2], a[3], a[4]), (b[2], b[3], b[4])):
        t.set_learning_rate(.1)
        for _ in range(rng.randint(0, 3)):
            t.update(torch.randn(2, x), torch.randn(2, d), False, False, False, False)
    op = rng.choice(["extra", "extra", "state_dict", "tile_state", "extra_drop"])
    try:
        if op == "extra":
            b[2].load_extra(a[2].dump_extra(), gen.coin(rng))
        elif op == "extra_drop":
            e = b[2].dump_extra()
            keys = sorted(e)
            for key in rng.sample(keys, min(len(keys), rng.choice([1, 1, 3]))):
                del e[key]
                mon.ctx += f" {key} dropped"
            b[2].load_extra(e, gen.coin(rng))
        elif op == "state_dict":
            b[0].load_state_dict(a[0].state_dict(), load_rpu_config=gen.coin(rng))
        else:
            b[1].__setstate__(a[1].__getstate__()) if gen.coin(rng) else b[1].set_analog_state(a[1].get_analog_state()) if hasattr(b[1], "set_analog_state") else None
        mon.state("state", op, a[5], b[5], same)
    except ERR as e:
        mon.obs("refused")
        mon.state("state", op, "refused")
    mon.obs("state")
    t = b[1].tile if b[1] is not None else b[2]
    x, d = t.get_x_size(), t.get_d_size()
    for _ in range(3):
        try:
            t.forward(torch.randn(2, x), False, False, False, False, False)
            t.update(torch.randn(2, x), torch.randn(2, d), False, False, False, False)
            t.get_weights().sum().item()
            t.get_hidden_parameters().sum().item()
            str(t)
        except ERR:
            mon.obs("refused")
    mon.check(True, "state", "")


# ---- construction and extension operators
def sc_ops(rng, mon):
    what = rng.choice(["ctor", "cast", "ladder", "matrix", "bindings"])
    mon.ctx = what
    try:
        if what == "ctor":
            cls = rng.choice([BT.FloatingPointTile, BT.AnalogTile])
            args = rng.choice([(0, 0), (0, 3), (3, 0), (-1, 4), (4, -1), (1, 1), (2, 3), ("a", 2), (2.5, 3), (-2 ** 31, 2), (2, -5)])
            mon.ctx = f"{cls.__name__}{args}"
            t = cls(*args)
            str(t)
            t.forward(torch.randn(2, t.get_x_size()), False, False, False, False, False)
            t.get_weights().sum().item()
            t.update(torch.randn(2, t.get_x_size()), torch.randn(2, t.get_d_size()), False, False, False, False)
        elif what == "cast":
            from aihwkit.extension.functions import FloatPrecisionCast
            e, m, s = rng.choice([0, 1, 4, 5, 8, 9, 31, 32, 33, -1]), rng.choice([0, 1, 3, 7, 10, 22, 23, 24, 31, 32, 40, -1]), gen.coin(rng)
            x = odd_layout(rng, odd_values(rng, torch.randn(rng.randint(0, 4), 5)))
            if gen.coin(rng, .4):
                x, _, _ = bad_tensor(rng, (3, 5))
            mon.ctx = f"cast {e} {m} {s} {getattr(x, 'shape', x)} {getattr(x, 'dtype', '')}"
            y = FloatPrecisionCast.apply(x, e, m, s)
            y.sum()
        elif what == "ladder":
            from aihwkit.extension import extension_ops as ops
            names = [n for n in dir(ops) if not n.startswith("_")]
            f = getattr(ops, rng.choice(names))
            args = [rng.choice([torch.randn(rng.randint(0, 4), rng.randint(0, 5)), torch.randn(3), torch.randn(2, 3, 4), torch.randn(2, 3, 4).transpose(0, 2),
                                torch.randn(2, 2, 2, 2), torch.ones(2, 3, dtype=torch.int64), torch.randn(2, 3, dtype=torch.float64), rng.choice(WEIRD_F), rng.choice(WEIRD_I)])
                    for _ in range(rng.randint(0, 8))]
            mon.ctx = f"{f.__name__} {[getattr(v, 'shape', v) for v in args]}"
            f(*args)
        elif what == "matrix":
            cls = rng.choice([BT.FloatingPointTile, BT.AnalogTile])
            t = cls(4, 3)
            idx = torch.randint(0, 5, (rng.randint(1, 20),), dtype=rng.choice([torch.int64, torch.float32, torch.int16]))
            t.set_matrix_indices(idx)
        else:
            p = rng.choice([IOParameters, UpdateParameters, WeightClipParameter, WeightRemapParameter])()
            b = bindings(p)
            f = rng.choice(fields(p))
            setattr(b, f.name, rng.choice([None, "x", 3, -1, 2.5, float("nan"), [], torch.randn(2), 2 ** 40]))
            str(b)
        mon.state("ops", what, mon.ctx[:20])
    except ERR + (MemoryError,) as e:
        mon.obs("refused")
        mon.state("ops", what, "refused")
    mon.obs("ops")
    mon.check(True, "ops", "")


SCENARIOS = [
    Scenario("calls", sc_calls, quick=500, thorough=12000),
    Scenario("layers", sc_layers, quick=250, thorough=6000),
    Scenario("indexed", sc_indexed, quick=200, thorough=5000),
    Scenario("params", sc_params, quick=600, thorough=20000),
    Scenario("lifetime", sc_lifetime, quick=200, thorough=5000),
    Scenario("state", sc_state, quick=300, thorough=8000),
    Scenario("ops", sc_ops, quick=300, thorough=6000),
]
