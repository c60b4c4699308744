"""P25: bit-wise, split and pos/neg-separate MVMs compose the plain product."""
import math
import numpy as np
import torch
from torch.nn.functional import linear, conv2d
from vh import Scenario, Skip
import gen

from aihwkit.nn import AnalogLinear, AnalogConv2d
from aihwkit.exceptions import ConfigError, AihwkitException
from aihwkit.inference.converter.conductance import (
    SinglePairConductanceConverter, DualPairConductanceConverter, NPairConductanceConverter)
from aihwkit.simulator.configs.configs import (
    TorchInferenceRPUConfigIRDropT, TorchInferenceRPUConfig, InferenceRPUConfig, SingleRPUConfig)
from aihwkit.simulator.configs.devices import ConstantStepDevice
from aihwkit.simulator.parameters.enums import (
    AnalogMVType as MV, BoundManagementType as BM, NoiseManagementType as NM, WeightModifierType,
    WeightClipType, WeightRemapType)

PID = "P25"
RULE = ("outputs and gradients of every MVM mode equal the product with the discretized input computed in "
        "float64; with wire resistance, converter resolution and integration rule, each partial pass equals a "
        "nodal analysis of the columns; unsupported settings are refused")
ASSUMPTIONS = ["inputs stay away from rounding ties of the input discretization",
               "trapezoidal integration adds half a time step per pulse as documented (only judged against the "
               "circuit model, not against the plain product)"]
REQUIRES = ["product:ONE_PASS", "product:SPLIT_MODE", "product:BIT_WISE", "irdrop_on", "irdrop_off", "nd_input",
            "odd_output", "conv", "tiled", "grad", "circuit", "circuit_wire", "circuit_adc", "converter",
            "posneg:POS_NEG_SEPARATE", "posneg:POS_NEG_SEPARATE_DIGITAL_SUM", "posneg_backward", "refused",
            "all_levels", "bound_management"]


def base_config(rng, mode, n, bs=3):
    c = TorchInferenceRPUConfigIRDropT()
    f = c.forward
    f.inp_res = 2 ** n - 2 if mode != MV.BIT_WISE or gen.coin(rng, .6) else rng.randint(3, 300)
    if gen.coin(rng):
        f.inp_res = 1.0 / f.inp_res
    f.inp_bound = rng.choice([1.0, 1.0, 1.0, 2.0, .5, 1.7])
    f.inp_noise = f.out_noise = f.w_noise = 0.0
    f.out_res = f.out_bound = -1
    f.ir_drop, f.ir_drop_rs, f.ir_drop_v_read = 1.0, 0.0, 0.4
    f.adc_quantization, f.ir_drop_integration_sum = False, True
    f.mv_type, f.split_mode_bit_shift = mode, bs
    f.bound_management, f.noise_management = BM.NONE, NM.NONE
    c.mapping.weight_scaling_omega = 0.0
    c.modifier.type = WeightModifierType.NONE
    c.clip.type = WeightClipType.NONE
    c.remap.type = WeightRemapType.NONE
    return c


def levels(c):
    r = c.forward.inp_res
    return (r if r > 1 else round(1.0 / r)) / 2.0       # largest integer


def draw_mode(rng):
    mode = rng.choice([MV.ONE_PASS, MV.SPLIT_MODE, MV.BIT_WISE])
    n = rng.randint(3, 10)
    return mode, n, rng.randint(1, n - 2)


def draw_input(rng, c, shape, jitter=.35):
    """Integers and an input away from ties."""
    m = levels(c)
    g = np.random.default_rng(rng.getrandbits(32))
    k = g.integers(-math.floor(m), math.floor(m) + 1, shape)
    style = rng.choice(["all", "pos", "neg", "sparse", "extreme"])
    if style == "pos":
        k = np.abs(k)
    elif style == "neg":
        k = -np.abs(k)
    elif style == "sparse":
        k = k * (g.random(shape) < .3)
    elif style == "extreme":
        k = np.sign(k) * math.floor(m)
    d = (g.random(shape) * 2 - 1) * jitter if jitter else 0.0
    d = np.where(np.abs(k) >= math.floor(m), 0.0, d)
    b = c.forward.inp_bound
    x = torch.tensor((k + d) / m * b, dtype=torch.float32)
    return x, torch.tensor(k / m * b), style


def converter(rng):
    g_max, g_min = rng.choice([None, 10.0, 40.0]), rng.choice([None, 0.0, 3.0])
    if gen.coin(rng, .6):
        return SinglePairConductanceConverter(g_max=g_max, g_min=g_min), "single"
    if gen.coin(rng):
        return DualPairConductanceConverter(f_lst=[1.0, rng.choice([.5, 2.0, 3.0])], g_max=g_max, g_min=g_min), "dual"
    return NPairConductanceConverter(f_lst=[1.0, 2.0, rng.choice([.5, 1.0])], g_max=g_max, g_min=g_min), "npair"


def tol(xq, w):
    return 3e-4 * float((xq.abs() @ w.abs().t()).max()) + 1e-5


def sc_product(rng, mon):
    mode, n, bs = draw_mode(rng)
    c = base_config(rng, mode, n, bs)
    irdrop = gen.coin(rng, .6)
    c.forward.ir_drop = 1.0 if irdrop else 0.0
    conv, kind = converter(rng)
    c.noise_model.g_converter = conv
    i, o = rng.randint(1, 12), rng.randint(1, 7)
    phys = rng.choice([i, i + 1, i + 2, i + rng.randint(0, 6)])
    tiled = gen.coin(rng, .25) and i > 2
    if tiled:
        phys = max(2, i // 2)
        c.mapping.max_output_size = rng.choice([0, 3])
    c.mapping.max_input_size = phys
    c.forward.ir_drop_segments = 1
    bias = gen.coin(rng)
    layer = AnalogLinear(i, o, bias=bias, rpu_config=c)
    train = gen.coin(rng, .3)
    layer.train(train)
    shape = rng.choice([(), (1,), (4,), (2, 3), (2, 1, 2), (0,)]) if not tiled else rng.choice([(4,), (2, 3)])
    x, xq, style = draw_input(rng, c, shape + (i,))
    mon.ctx = (f"{mode.name} inp_res={c.forward.inp_res} bs={bs} bound={c.forward.inp_bound} ir_drop={irdrop} {kind} "
               f"g_min={conv.g_min} in={i} out={o} phys={phys} tiled={tiled} bias={bias} train={train} shape={shape} {style}")
    w, b = layer.get_weights()
    w = w.double()
    if not train and gen.coin(rng, .1):
        w0, b0 = layer.get_weights()
        layer.set_weights(torch.zeros_like(w0), b0)
        w = w * 0
    xk = x.clone()
    y = layer(x)
    ref = linear(xq, w, None if b is None else b.double())
    mon.check(torch.equal(x, xk), "product:modifies_input", "input modified")
    mon.close(y, ref, f"product:{mode.name}", atol=tol(xq.reshape(-1, i), w) if x.numel() else 0, rtol=1e-5, msg="output")
    if x.numel():
        mon.obs(f"product:{mode.name}")
        mon.obs("irdrop_on" if irdrop and not train else "irdrop_off")
    if len(shape) > 1:
        mon.obs("nd_input")
    if o % 2:
        mon.obs("odd_output")
    if tiled:
        mon.obs("tiled")
    mon.state("converter", (kind, conv.g_min, conv.g_max))
    mon.state("mode", (mode.name, n, bs, c.forward.inp_bound, irdrop, style))


def sc_levels(rng, mon):
    """Every input level on its own."""
    mode, n, bs = draw_mode(rng)
    c = base_config(rng, mode, n, bs)
    c.mapping.max_input_size = 2
    c.forward.ir_drop_segments = 1
    c.forward.ir_drop = rng.choice([0.0, 1.0])
    layer = AnalogLinear(1, 2, bias=False, rpu_config=c).eval()
    w = torch.tensor([[1.0], [-.5]])
    layer.set_weights(w)
    m = levels(c)
    k = torch.arange(-math.floor(m), math.floor(m) + 1, dtype=torch.float64)[:, None]
    x = (k / m * c.forward.inp_bound)
    mon.ctx = f"{mode.name} inp_res={c.forward.inp_res} bs={bs} bound={c.forward.inp_bound} ir_drop={c.forward.ir_drop}"
    y = layer(x.float()).double() / c.forward.inp_bound * m
    ref = k @ w.double().t()
    bad = (y - ref).abs() > 0.05
    mon.check(not bad.any(), f"level:{mode.name}",
              lambda: f"{int(bad.any(1).sum())} of {len(k)} levels wrong, first {k[bad.any(1)][0].item()} gives {y[bad.any(1)][0].tolist()}")
    mon.obs("all_levels", len(k))
    mon.state("levels", (mode.name, len(k), bs))


def sc_conv(rng, mon):
    mode, n, bs = draw_mode(rng)
    c = base_config(rng, mode, n, bs)
    ci, co, ks = rng.randint(1, 3), rng.randint(1, 4), rng.randint(1, 3)
    c.mapping.max_input_size = ci * ks * ks + rng.randint(0, 3)
    c.forward.ir_drop_segments = 1
    pad, st = rng.randint(0, 1), rng.randint(1, 2)
    layer = AnalogConv2d(ci, co, ks, stride=st, padding=pad, bias=gen.coin(rng), rpu_config=c).eval()
    x, xq, style = draw_input(rng, c, (rng.randint(1, 2), ci, ks + 2, ks + 1))
    mon.ctx = f"conv {mode.name} {n} {bs} bound={c.forward.inp_bound} {ci}->{co} k={ks} pad={pad} stride={st} {style}"
    w, b = layer.get_weights()
    w = w.double()
    ref = conv2d(xq, w.reshape(co, ci, ks, ks), None if b is None else b.double(), stride=st, padding=pad)
    mon.close(layer(x), ref, f"conv:{mode.name}", msg="conv",
              atol=3e-4 * float(w.abs().sum(1).max()) * c.forward.inp_bound + 1e-5, rtol=1e-5)
    mon.obs("conv")


def sc_grad(rng, mon):
    mode, n, bs = draw_mode(rng)
    c = base_config(rng, mode, n, bs)
    i, o = rng.randint(1, 8), rng.randint(1, 5)
    c.mapping.max_input_size = i + rng.randint(0, 3)
    c.forward.ir_drop_segments = 1
    layer = AnalogLinear(i, o, bias=gen.coin(rng), rpu_config=c)
    x, xq, style = draw_input(rng, c, (rng.randint(1, 4), i))
    x.requires_grad_(True)
    mon.ctx = f"grad {mode.name} inp_res={c.forward.inp_res} bs={bs} bound={c.forward.inp_bound} {i}->{o} {style}"
    d = torch.randn(x.shape[0], o)
    (layer(x) * d).sum().backward()
    w = layer.get_weights()[0].double()
    mon.close(x.grad, d.double() @ w, f"grad:{mode.name}:input", atol=1e-4, rtol=1e-4, msg="input gradient")
    tile = next(layer.analog_tiles())
    gw = tile.tile.weight.grad
    mon.check(gw is not None, f"grad:{mode.name}:weight", "no weight gradient")
    if gw is not None:
        mon.close(gw, d.double().t() @ xq, f"grad:{mode.name}:weight", atol=1e-3, rtol=1e-3, msg="weight gradient")
    mon.obs("grad")


# ---- circuit
def column(ticks, gp, gm, rs, U, v_read, trapz):
    """Integrated current of a column (last row next to the ADC): nodal analysis."""
    N, rw = len(gp), 1e-6 * rs
    s = gp + gm
    cur = np.zeros(U)
    g = s + 1e-12
    if rw > 0:
        gw = 1 / rw
        A = np.diag(g.copy())
        for k in range(N - 1):
            A[k, k] += gw
            A[k + 1, k + 1] += gw
            A[k, k + 1] -= gw
            A[k + 1, k] -= gw
        A[-1, -1] += 2 * gw                          # half a segment to the ADC at v_read
    for t in range(U):
        num = np.where(ticks > t, .6 * gp + .2 * gm, np.where(ticks < -t, .6 * gm + .2 * gp, .4 * s))
        if rw > 0:
            rhs = num.copy()
            rhs[-1] += 2 * gw * v_read
            v = np.linalg.solve(A, rhs)
            # sum of the currents of the devices (better conditioned than the wire current)
            cur[t] = (num - g * v).sum()
        else:
            cur[t] = (num - g * v_read).sum()
    if trapz:
        return cur[0] + ((cur[1:] + cur[:-1]) / 2).sum()
    return cur.sum()


def sc_circuit(rng, mon):
    mode = rng.choice([MV.ONE_PASS, MV.SPLIT_MODE, MV.BIT_WISE])
    n = rng.randint(3, 6)
    bs = rng.randint(1, n - 2)
    c = base_config(rng, mode, n, bs)
    f = c.forward
    f.inp_res = 2 ** n - 2
    f.ir_drop = rng.choice([1.0, 1.0, 2.0, .3])
    f.ir_drop_rs = rng.choice([0.0, .15, 5.0, 200.0, 1000.0])
    f.ir_drop_v_read = rng.choice([.4, .4005, .41])
    f.adc_quantization = gen.coin(rng)
    f.adc_frequency = rng.choice([6.24, 20.0, 3.0])
    f.ir_drop_integration_sum = gen.coin(rng)
    conv, kind = converter(rng)
    c.noise_model.g_converter = conv
    i, o, B = rng.randint(1, 8), rng.randint(1, 5), rng.randint(1, 2)
    phys = i + rng.randint(0, 4)
    c.mapping.max_input_size = phys
    f.ir_drop_segments = 1
    layer = AnalogLinear(i, o, bias=False, rpu_config=c).eval()
    w = layer.get_weights()[0]
    x, xq, style = draw_input(rng, c, (B, i))
    m = 2 ** (n - 1) - 1
    k = np.rint(xq.numpy() / f.inp_bound * m).astype(int)
    mon.ctx = (f"{mode.name} n={n} bs={bs} bound={f.inp_bound} rs={f.ir_drop_rs}*{f.ir_drop} v={f.ir_drop_v_read} "
               f"adc={f.adc_quantization}:{f.adc_frequency} sum={f.ir_drop_integration_sum} {kind} g_min={conv.g_min} "
               f"in={i} out={o} phys={phys} {style}")
    if f.ir_drop_rs * f.ir_drop == 0 and f.ir_drop == 0:
        raise Skip("no drop")
    a = np.abs(k)
    sg = np.sign(k)
    if mode == MV.ONE_PASS:
        passes = [(1.0, k, m + 1)]
    elif mode == MV.SPLIT_MODE:
        passes = [(1.0, sg * (a % 2 ** bs), 2 ** bs), (2.0 ** bs, sg * (a // 2 ** bs), 2 ** (n - bs - 1))]
    else:
        passes = [(2.0 ** q, sg * ((a >> q) & 1), 2) for q in range(n - 1)]
    pad1 = (phys - i) // 2
    wp = np.zeros((phys, o), dtype=np.float32)
    wp[pad1:pad1 + i] = w.numpy().T
    g_lst, params = conv.convert_to_conductances(torch.tensor(wp))
    g_lst = [g.double().numpy() for g in g_lst]
    ratio = float(params["scale_ratio"])
    fl = [float(v) for v in params.get("f_lst", [1.0])]
    ref, ok = np.zeros((B, o)), np.ones((B, o), dtype=bool)
    scale = 0.0
    for shift, ticks, U in passes:
        tk = np.zeros((B, phys), dtype=int)
        tk[:, pad1:pad1 + i] = ticks
        for b in range(B):
            for j in range(o):
                for q, ff in enumerate(fl):
                    gp, gm, tt = g_lst[2 * q][:, j], g_lst[2 * q + 1][:, j], tk[b]
                    if j % 2:                       # read out at the other end
                        gp, gm, tt = gp[::-1], gm[::-1], tt[::-1]
                    v = column(tt, gp, gm, f.ir_drop_rs * f.ir_drop, U, f.ir_drop_v_read, not f.ir_drop_integration_sum)
                    mag = U * (gp + gm).sum() * .6
                    if f.adc_quantization:
                        t = v / 100 * f.adc_frequency
                        if round(t) != 0 and abs(t - round(t)) < 1e-3 + 1e-5 * mag / 100 * f.adc_frequency:
                            ok[b, j] = False
                        v = math.trunc(t) * 100 / f.adc_frequency
                    ref[b, j] += shift * ff * v
                    scale = max(scale, shift * ff * mag)
    norm = f.inp_bound / (ratio * .2 * m)
    y = layer(x).detach().double().numpy()
    lim = 4e-5 * scale * norm * len(passes) + 1e-6
    bad = (np.abs(y - ref * norm) > lim) & ok
    mon.check(not bad.any(), f"circuit:{mode.name}",
              lambda: f"{int(bad.sum())} of {int(ok.sum())}: {y[bad][0]!r} expected {(ref * norm)[bad][0]!r} (limit {lim:.3g})")
    mon.obs("circuit", int(ok.sum()))
    if f.ir_drop_rs > 0:
        mon.obs("circuit_wire")
    if f.adc_quantization:
        mon.obs("circuit_adc")
    mon.state("circuit_case", (mode.name, n, bs, f.ir_drop_rs, f.adc_quantization, f.ir_drop_integration_sum, kind))


def sc_partial_adc(rng, mon):
    """Output discretization and bounds act on every partial pass."""
    mode, n, bs = draw_mode(rng)
    c = base_config(rng, mode, n, bs)
    f = c.forward
    f.ir_drop = 0.0
    i, o, B = rng.randint(1, 8), rng.randint(1, 5), 3
    c.mapping.max_input_size = i
    f.ir_drop_segments = 1
    f.out_bound = rng.choice([.3, 1.0, 5.0])
    f.out_res = rng.choice([-1, 30, 255.0])
    layer = AnalogLinear(i, o, bias=False, rpu_config=c).eval()
    w = layer.get_weights()[0].double().numpy()
    x, xq, style = draw_input(rng, c, (B, i))
    m = levels(c)
    k = np.rint(xq.numpy() / f.inp_bound * m).astype(int)
    a, sg = np.abs(k), np.sign(k)
    if mode == MV.ONE_PASS:
        passes = [(1.0, k)]
    elif mode == MV.SPLIT_MODE:
        passes = [(1.0, sg * (a % 2 ** bs)), (2.0 ** bs, sg * (a // 2 ** bs))]
    else:
        passes = [(2.0 ** q, sg * ((a >> q) & 1)) for q in range(max(1, int(math.ceil(math.log2(2 * m + 2))) - 1))]
    mon.ctx = f"{mode.name} inp_res={f.inp_res} bs={bs} bound={f.inp_bound} out_bound={f.out_bound} out_res={f.out_res} {style}"
    ref, ok = np.zeros((B, o)), np.ones((B, o), dtype=bool)
    for s, t in passes:
        v = (t / m * f.inp_bound) @ w.T
        if f.out_res > 0:
            r = 2 * f.out_bound / f.out_res
            ok &= np.abs(v / r - np.floor(v / r) - .5) > 1e-3
            v = np.rint(v / r) * r
        ref += s * np.clip(v, -f.out_bound, f.out_bound)
    y = layer(x).detach().double().numpy()
    lim = 1e-4 * sum(s for s, _ in passes) * f.out_bound + 1e-5
    bad = (np.abs(y - ref) > lim) & ok
    mon.check(not bad.any(), f"partial_adc:{mode.name}", lambda: f"{y[bad][0]!r} expected {ref[bad][0]!r}")
    mon.obs("partial_adc", int(ok.sum()))


def sc_bm(rng, mon):
    """Iterative bound management and noise management with the modes."""
    mode = rng.choice([MV.ONE_PASS, MV.SPLIT_MODE, MV.BIT_WISE])
    n = 14
    c = base_config(rng, mode, n, rng.randint(1, 8))
    f = c.forward
    f.inp_res, f.inp_bound = 2 ** n - 2, 1.0
    f.ir_drop = 0.0
    f.noise_management, f.bound_management = rng.choice([NM.ABS_MAX, NM.NONE]), BM.ITERATIVE
    f.max_bm_factor = 1000
    i, o, B = rng.randint(4, 10), rng.randint(1, 5), rng.randint(1, 4)
    c.mapping.max_input_size = i
    f.ir_drop_segments = 1
    layer = AnalogLinear(i, o, bias=False, rpu_config=c).eval()
    w = torch.rand(o, i) * 2 - 1
    layer.set_weights(w)
    sc = 1.0 if f.noise_management == NM.NONE else 10.0 ** rng.uniform(-2, 2)
    x = (torch.rand(B, i) * 2 - 1) * sc
    y0 = (x @ w.t())
    unit = x.abs().max(dim=1, keepdim=True)[0] if f.noise_management == NM.ABS_MAX else torch.ones(B, 1)
    peak = float((y0 / unit).abs().max())
    f2 = next(layer.analog_tiles()).tile._f_io
    f2.out_bound = max(.05, peak / rng.choice([1.5, 3.0, 6.0]))
    rounds = max(1, math.ceil(math.log2(peak / f2.out_bound)) + 1)
    mon.ctx = f"{mode.name} {f.noise_management.name} out_bound={f2.out_bound} peak={peak}"
    lim = unit * w.abs().sum(1).max() * 2.0 ** rounds / (2 ** (n - 1)) + 1e-4 * unit
    err = (layer(x) - y0).abs()
    mon.check(bool((err <= lim).all()), f"bound_management:{mode.name}", lambda: f"error {(err / unit).max()} limit {(lim / unit).max()}")
    mon.obs("bound_management")


def sc_posneg(rng, mon):
    """Positive and negative inputs in separate passes (compiled tiles)."""
    mode = rng.choice([MV.POS_NEG_SEPARATE, MV.POS_NEG_SEPARATE_DIGITAL_SUM])
    bwd = gen.coin(rng)
    c = rng.choice([InferenceRPUConfig, lambda: SingleRPUConfig(device=ConstantStepDevice(
        w_max_dtod=0, w_min_dtod=0, w_max=1.0, w_min=-1.0))])()
    if isinstance(c, InferenceRPUConfig):
        bwd = False
        c.drift_compensation = None
    ios = [c.forward] + ([c.backward] if bwd else [])
    for f in ios:
        f.inp_noise = f.out_noise = f.w_noise = 0.0
        f.inp_res = rng.choice([-1, 254, 62, 1 / 126])
        f.out_res = f.out_bound = -1
        f.bound_management = BM.NONE
        f.noise_management = rng.choice([NM.NONE, NM.ABS_MAX])
        f.mv_type = mode
    c.mapping.weight_scaling_omega = 0.0
    c.mapping.max_input_size, c.mapping.max_output_size = rng.choice([(0, 0), (4, 3)])
    i, o, B = rng.randint(1, 9), rng.randint(1, 6), rng.choice([1, 2, 5, 33])
    layer = AnalogLinear(i, o, bias=gen.coin(rng), rpu_config=c)
    layer.eval() if gen.coin(rng) and not bwd else layer.train()
    w, b = layer.get_weights()

    def quant(v, f, split):
        v = v.double()
        out = torch.zeros_like(v)
        s = split or v.shape[1]
        for q in range(0, v.shape[1], s):
            p = v[:, q:q + s]
            sc = p.abs().max(dim=1, keepdim=True)[0] if f.noise_management == NM.ABS_MAX else torch.ones(len(p), 1).double()
            sc = torch.where(sc == 0, torch.ones_like(sc), sc)
            p = p / sc
            if f.inp_res > 0:
                m = (f.inp_res if f.inp_res > 1 else round(1 / f.inp_res)) / 2
                ties.append(((p * m - (p * m).floor() - .5).abs() < 1e-4).any())
                p = (p * m).round() / m
            out[:, q:q + s] = p.clamp(-1, 1) * sc
        return out

    ties = []
    style = rng.choice(["mixed", "pos", "neg", "zero_rows", "one"])
    x = torch.rand(B, i) * 2 - 1
    if style == "pos":
        x = x.abs()
    elif style == "neg":
        x = -x.abs()
    elif style == "zero_rows":
        x[::2] = 0
    elif style == "one":
        x = x * (torch.rand(B, i) < .2)
    from aihwkit.nn.modules.linear_mapped import AnalogLinearMapped
    cfg = f"{mode.name} {type(c).__name__} res={c.forward.inp_res} nm={c.forward.noise_management.name} {i}->{o} B={B} bwd={bwd} {style} max={c.mapping.max_input_size}"
    mon.ctx = cfg
    tiles = list(layer.analog_tiles())
    if len(tiles) > 1:
        # the division of the lines onto the tiles is not the subject: no per tile scaling
        if any(f.noise_management != NM.NONE for f in ios):
            raise Skip("per tile scaling")
    xq = quant(x, c.forward, 0)
    x.requires_grad_(True)
    y = layer(x)
    ref = linear(xq, w.double(), None if b is None else b.double())
    if not any(ties):
        mon.close(y, ref, f"posneg:{mode.name}", atol=1e-5 * i + 1e-5, rtol=1e-4, msg="output")
        mon.obs(f"posneg:{mode.name}")
        mon.state("posneg_case", (mode.name, type(c).__name__, style, B > 30))
    if bwd:
        ties.clear()
        d = torch.rand(B, o) * 2 - 1
        y.backward(d)
        dq = quant(d, c.backward, 0)
        if not any(ties):
            mon.close(x.grad, dq @ w.double(), f"posneg_backward:{mode.name}", atol=1e-5 * o + 1e-5, rtol=1e-4, msg="input gradient")
            mon.obs("posneg_backward")


XDEP_SLOPE = [0.00021926, -0.00187352, 0.00655714, -0.0146159, 0.02578764]
XDEP_OFFSET = [1.11906167e-09, -9.08576764e-09, 3.07015063e-08, -6.77079241e-08, 1.17763144e-07]


def xdep_sigma(t, g):
    """Read noise (in uS) of conductances that are read for t steps on average."""
    x = math.log10(t) if t > 0 else 0.0
    return np.polyval(XDEP_SLOPE, x) * g + np.polyval(XDEP_OFFSET, x) * 1e6


def sc_xdep(rng, mon):
    """Read noise which depends on the (average) time the inputs are applied: the law of each weight."""
    mode, n, bs = draw_mode(rng)
    c = base_config(rng, mode, n, bs)
    f = c.forward
    f.ir_drop = rng.choice([0.0, 1.0])
    f.apply_xdep_pcm_read_noise = True
    scale = rng.choice([1.0, 1.0, 0.3, 3.0, 0.0])
    if scale != 1.0 or gen.coin(rng):
        f.xdep_pcm_read_noise_scale = scale
    g_max, g_min = rng.choice([None, 10.0, 40.0]), rng.choice([None, 0.0, 3.0])
    conv = SinglePairConductanceConverter(g_max=g_max, g_min=g_min)
    c.noise_model.g_converter = conv
    i, o = rng.randint(4, 24), rng.randint(20, 60)
    c.mapping.max_input_size, c.mapping.max_output_size = i, 0
    f.ir_drop_segments = 1
    layer = AnalogLinear(i, o, bias=False, rpu_config=c)
    g = np.random.default_rng(rng.getrandbits(32))
    w = g.uniform(-1, 1, (o, i)) * rng.choice([1.0, .3])
    w[g.random((o, i)) < .1] = 0.0
    layer.set_weights(torch.tensor(w, dtype=torch.float32), None)
    train = gen.coin(rng, .3)
    layer.train(train)
    m = math.floor(levels(c))
    k = g.integers(max(1, m // 4), m + 1, i) * g.choice([-1, 1], i)
    b = f.inp_bound
    x = torch.tensor(np.diag(k) / levels(c) * b, dtype=torch.float32)
    mon.ctx = (f"{mode.name} inp_res={f.inp_res} bs={bs} bound={b} ir_drop={f.ir_drop} scale={scale} g_max={g_max} "
               f"g_min={g_min} in={i} out={o} train={train}")
    a = np.abs(k)
    if mode == MV.ONE_PASS:
        parts = [a]
    elif mode == MV.SPLIT_MODE:
        parts = [a % 2 ** bs, (a // 2 ** bs) * 2 ** bs]
    else:
        parts = [(a >> j & 1) << j for j in range(int(m).bit_length())]
    ratio = (conv.g_max - conv.g_min) / np.abs(w).max()
    cond = np.abs(w) * ratio
    var = np.zeros((i, o))
    for j, part in enumerate(parts):
        unit = {MV.ONE_PASS: 1, MV.SPLIT_MODE: (1, 2 ** bs)[min(j, 1)], MV.BIT_WISE: 2 ** j}[mode]
        sig = xdep_sigma((part / unit).sum() / i ** 2, cond) * scale / ratio
        var += (part[:, None] / a[:, None]) ** 2 * sig.T ** 2
    var *= (w.T != 0)
    z = []
    for _ in range(3):
        with torch.no_grad():
            y = layer(x).double().numpy()
        dw = y / (k / levels(c) * b)[:, None] - w.T
        live = var > 0
        if not live.all():
            err = dw * (x.numpy().diagonal()[:, None])
            mon.close(torch.tensor(err[~live]), torch.zeros(int((~live).sum())), "xdep:silent", atol=2e-4, rtol=0,
                      msg="noise on weights without any")
        z.append(dw[live] / np.sqrt(var[live]))
    if scale == 0.0:
        return mon.obs("xdep:off")
    z = np.concatenate(z)
    N = z.size
    for tag, v, mean, sd in (("mean", z, 0.0, 1.0), ("var", z * z, 1.0, math.sqrt(2.0))):
        d = (v.mean() - mean) / sd * math.sqrt(N)
        # rounding of the values in between is far below the noise: 2 percent at most
        mon.check(abs(d) < 6.5 + .02 * math.sqrt(N), f"xdep:{mode.name}:{tag}",
                  lambda: f"{v.mean()} instead of {mean} over {N} weights (z={d:.1f})")
    big = cond.T[var > 0] > np.median(cond)
    big = np.concatenate([big] * 3)
    for tag, sel in (("large", big), ("small", ~big)):
        if sel.sum() > 100:
            d = ((z[sel] ** 2).mean() - 1) / math.sqrt(2 / sel.sum())
            mon.check(abs(d) < 6.5 + .02 * math.sqrt(sel.sum()), f"xdep:{mode.name}:{tag}",
                      lambda: f"variance {(z[sel] ** 2).mean()} of the {tag} weights")
    mon.obs("xdep:weights", N)
    mon.state("xdep", (mode.name, n, f.ir_drop, train, scale))


def sc_refused(rng, mon):
    mon.ctx = "refusal"

    def refused(key, c, x=None, layer=None):
        try:
            l = AnalogLinear(3, 2, bias=False, rpu_config=c).eval()
            l(torch.rand(2, 3))
        except (AihwkitException, NotImplementedError, AssertionError, AttributeError):
            mon.check(True, "refused")
            mon.obs("refused")
            mon.state("refused", key)
            return
        mon.fail("refused:" + key, "accepted")

    for mode in (MV.POS_NEG_SEPARATE, MV.POS_NEG_SEPARATE_DIGITAL_SUM):
        for cls in (TorchInferenceRPUConfigIRDropT, TorchInferenceRPUConfig):
            c = cls()
            c.forward.mv_type = mode
            refused(f"{mode.name}:{cls.__name__}", c)
    for mode in (MV.SPLIT_MODE, MV.BIT_WISE):
        for cls in (TorchInferenceRPUConfig, InferenceRPUConfig):
            c = cls()
            c.forward.mv_type = mode
            refused(f"{mode.name}:{cls.__name__}", c)

    def split(**kw):
        c = base_config(rng, MV.SPLIT_MODE, 8, 3)
        c.forward.inp_res = 254
        c.mapping.max_input_size = 8
        for k, v in kw.items():
            setattr(c.forward, k, v)
        return c

    refused("split:inp_res", split(inp_res=rng.choice([100, 255, 253, 1 / 100.0])))
    refused("split:shift_fraction", split(split_mode_bit_shift=2.5))
    refused("split:shift_large", split(split_mode_bit_shift=rng.randint(8, 12)))
    refused("segments", split(ir_drop_segments=3))


SCENARIOS = [
    Scenario("product", sc_product, quick=250, thorough=8000, min_evals=2),
    Scenario("levels", sc_levels, quick=80, thorough=2000),
    Scenario("conv", sc_conv, quick=30, thorough=800),
    Scenario("grad", sc_grad, quick=60, thorough=1500, min_evals=3),
    Scenario("circuit", sc_circuit, quick=80, thorough=2500),
    Scenario("partial_adc", sc_partial_adc, quick=60, thorough=1500),
    Scenario("bm", sc_bm, quick=40, thorough=1000),
    Scenario("posneg", sc_posneg, quick=150, thorough=4000),
    Scenario("xdep", sc_xdep, quick=15, thorough=1500),
    Scenario("refused", sc_refused, quick=5, thorough=50),
]
