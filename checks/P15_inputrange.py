"""P15: input range learning clips, scales and adapts as documented.

Monitor: tiles with input ranges go through generated histories of training and evaluation
passes and calibrations; outputs, ranges, counters and gradients are compared after every
operation with an independent float64 model of the documented rules.
"""
import copy

import numpy as np
import torch
from torch import nn

import gen
from vh import Scenario, Skip
from aihwkit.inference.calibration import InputRangeCalibrationType as IT, calibrate_input_ranges
from aihwkit.nn import AnalogConv2d, AnalogLinear, AnalogLinearMapped, AnalogSequential
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import InferenceRPUConfig, TorchInferenceRPUConfig
from aihwkit.simulator.parameters.enums import BoundManagementType, NoiseManagementType

PID = "P15"
RULE = ("one state per (tile kind, layer kind, learning options, phase) compared with the reference "
        "and per (calibration type, tile kind, options)")
ASSUMPTIONS = ["gradients are compared for perfect or purely clipping output stages",
               "quantile calibration uses the quantile of the signed inputs, as documented"]
REQUIRES = ("history", "gradient", "calibrate", "noise", "managed", "reload")


def config(rng, kind, **ir):
    cfg = InferenceRPUConfig() if kind == "compiled" else TorchInferenceRPUConfig()
    cfg.forward.is_perfect = True
    if kind == "compiled":
        cfg.backward.is_perfect = True
    cfg.drift_compensation = None
    cfg.mapping.weight_scaling_omega = rng.choice([0.0, 1.0, 0.6])
    cfg.mapping.weight_scaling_columnwise = gen.coin(rng)
    p = cfg.pre_post.input_range
    p.enable = True
    for k, v in ir.items():
        setattr(p, k, v)
    return cfg


def rand_ir(rng):
    return dict(learn_input_range=gen.coin(rng, 0.75), init_value=rng.choice([3.0, 1.0, 0.5, 10.0]),
                init_from_data=rng.choice([0, 1, 3, 100]), init_std_alpha=rng.choice([3.0, 1.0, 2.0]),
                decay=rng.choice([0.0, 0.001, 0.1]), input_min_percentage=rng.choice([0.95, 0.5, 0.0]),
                gradient_scale=rng.choice([1.0, 0.1, 2.0]), gradient_relative=gen.coin(rng, 0.6))


def data(rng, *shape):
    x = torch.randn(*shape) * rng.choice([0.3, 1.0, 4.0])
    k = rng.randint(0, 6)
    if k == 0:
        x = x * 0
    if k == 1:
        x = x.abs()
    if k == 2:
        x = x * 0 + 2.0   # no deviation
    if k == 3:
        x[0] = 0.0
    return x


class Ref:
    def __init__(self, p, r):
        self.p, self.r, self.idx, self.g = copy.deepcopy(p), float(r), 0, None

    def train_forward(self, x):
        if self.idx < self.p.init_from_data:
            s = x.double().std().item() if x.numel() > 1 else float("nan")
            if s > 0:
                self.r = (self.r * self.idx + self.p.init_std_alpha * s) / (self.idx + 1)
                self.idx += 1
            self.r = abs(self.r)

    def clip(self, x):
        return x.double().clamp(-abs(self.r), abs(self.r))

    def backward(self, x, dx):
        p, r = self.p, self.r
        x = x.double()
        g = dx[(x >= r)].clamp(max=0).sum().item() - dx[(x <= -r)].clamp(min=0).sum().item()
        if p.gradient_relative:
            g *= r
        g *= p.gradient_scale
        if p.decay > 0:
            if (x.abs() < r).double().mean().item() > p.input_min_percentage:
                g += p.decay * r
        self.g = g if self.g is None else self.g + g


def s_history(rng, mon):
    kind = rng.choice(["compiled", "torch"])
    lk = rng.choice(["linear", "linear", "linear3d", "conv"])
    ir = rand_ir(rng)
    bias = gen.coin(rng)
    cfg = config(rng, kind, **ir)
    i, o = rng.randint(1, 6), rng.randint(1, 5)
    if lk == "conv":
        i, o = rng.randint(1, 2), rng.randint(1, 3)
        cfg.mapping.max_input_size = cfg.mapping.max_output_size = 0
        lay = AnalogConv2d(i, o, 2, stride=rng.choice([1, 2]), padding=rng.choice([0, 1]), bias=bias, rpu_config=cfg)
    else:
        lay = AnalogLinear(i, o, bias=bias, rpu_config=cfg)
    mon.ctx = dict(kind=kind, layer=lk, ir=ir, shape=(i, o))
    tile = next(lay.analog_tiles())
    W, B = [z.double() if z is not None else None for z in lay.get_weights()]
    ref = Ref(cfg.pre_post.input_range, ir["init_value"])
    lr = rng.choice([0.0, 0.01, 0.05])
    opt = None
    if ir["learn_input_range"]:
        opt = torch.optim.SGD([tile.input_range], lr=lr)
    key = f"history:{kind}:"

    def judge(what):
        mon.close(tile.input_range, torch.tensor([ref.r]), key + what, atol=1e-6, rtol=3e-5)

    def lin(xc):
        if lk == "conv":
            return nn.functional.conv2d(xc, W.view(o, i, 2, 2), B, lay.stride, lay.padding)
        y = xc @ W.t()
        return y if B is None else y + B

    for n in range(rng.randint(2, 7)):
        op = rng.choice(["train", "train", "eval", "step"])
        shape = dict(linear=(rng.randint(1, 6), i), linear3d=(2, rng.randint(1, 3), i), conv=(rng.randint(1, 3), i, 4, 5))[lk]
        x = data(rng, *shape)
        if op == "eval":
            lay.eval()
            with torch.no_grad() if gen.coin(rng) else torch.enable_grad():
                y = lay(x)
            judge("eval_changes")
            mon.close(y.double(), lin(ref.clip(x)), key + "eval_output", atol=3e-5 * (1 + x.abs().max().item() * i), rtol=1e-4)
            mon.state("history", kind, lk, "eval", ir["learn_input_range"])
            continue
        lay.train()
        xg = x.clone().requires_grad_(True)
        y = lay(xg)
        xin = x
        if lk == "conv":   # the tile sees the unfolded image
            xin = nn.functional.unfold(x, 2, 1, lay.padding, lay.stride).transpose(1, 2)
        ref.train_forward(xin)
        mon.check(int(tile.input_range_update_idx.item()) == ref.idx, key + "count", "")
        judge("init")
        mon.check(bool(torch.isfinite(tile.input_range).all()) and tile.input_range.item() > 0 or lr > 0, key + "positive", "")
        if abs(ref.r) < 1e-6 or not np.isfinite(ref.r) or ref.r <= 0:
            break
        mon.close(y.double(), lin(ref.clip(x)), key + "output", atol=3e-5 * (1 + x.abs().max().item() * i), rtol=1e-4)
        mon.state("history", kind, lk, "train", ir["learn_input_range"], ref.idx < ir["init_from_data"])
        if op == "step" and lk != "conv":
            d = torch.randn_like(y)
            # the comparison of inputs with the range must not be a matter of rounding
            if ((x.abs() - ref.r).abs() < 1e-4 * ref.r).any():
                break
            y.backward(d)
            dx = (d.double() @ W)
            if abs((x.abs() < ref.r).double().mean().item() - ref.p.input_min_percentage) < 1e-6:
                break
            ref.backward(x, dx)
            if ir["learn_input_range"]:
                g = tile.input_range.grad
                mon.close(g, torch.tensor([ref.g]), key + "gradient", atol=3e-5 * (1 + abs(ref.g)) * (1 + abs(ref.r)), rtol=2e-4)
                mon.state("gradient", kind, ir["gradient_relative"], ir["decay"] > 0, ir["gradient_scale"])
                if gen.coin(rng, 0.7):
                    opt.step()
                    ref.r -= lr * ref.g
                    opt.zero_grad()
                    ref.g = None
                    judge("step")
            else:
                mon.check(not any(p is tile.input_range for p in lay.parameters()), key + "fixed_is_parameter", "")
                judge("fixed")


def s_managed(rng, mon):
    """clipped outputs increase the input range (compiled tiles)."""
    ir = dict(learn_input_range=True, init_from_data=0, init_value=rng.choice([1.0, 2.0]), decay=rng.choice([0.0, 0.01]),
              manage_output_clipping=True, output_min_percentage=rng.choice([0.95, 0.5, 1.0]), gradient_scale=1.0)
    cfg = config(rng, "compiled", **ir)
    cfg.forward.is_perfect = False
    f = cfg.forward
    f.inp_res = f.out_res = -1
    f.out_noise = f.inp_noise = f.w_noise = 0.0
    f.noise_management, f.bound_management = NoiseManagementType.NONE, BoundManagementType.NONE
    f.out_bound = rng.choice([0.3, 1.0, 2.0])
    i, o, b = rng.randint(1, 6), rng.randint(1, 6), rng.randint(1, 5)
    cfg.mapping.weight_scaling_omega = 0.0
    cfg.mapping.weight_scaling_columnwise = False
    lay = AnalogLinear(i, o, bias=False, rpu_config=cfg)
    W = torch.randn(o, i)
    lay.set_weights(W)
    tile = next(lay.analog_tiles())
    W = tile.tile.get_weights().double()
    mon.ctx = dict(ir=ir, out_bound=f.out_bound, shape=(i, o, b))
    x, d = torch.randn(b, i) * 2, torch.randn(b, o)
    r = ir["init_value"]
    xs = x.double().clamp(-r, r) / r
    raw = xs @ W.t()
    if ((raw.abs() - f.out_bound).abs() < 3e-3 * f.out_bound).any() or ((x.abs() - r).abs() < 1e-4).any():
        raise Skip
    lay.train()
    xg = x.clone().requires_grad_(True)
    y = lay(xg)
    mon.close(y.double(), raw.clamp(-f.out_bound, f.out_bound) * r, "managed:output", atol=1e-4, rtol=1e-4)
    y.backward(d)
    clipped = raw.abs() > f.out_bound
    dx = torch.where(clipped, torch.zeros(()).double(), d.double()) @ W
    p = cfg.pre_post.input_range
    ref = Ref(p, r)
    frac = (x.abs() < r).double().mean().item()
    if abs(frac - p.input_min_percentage) < 1e-6:
        raise Skip
    ref.backward(x, dx)
    pct = 1 - clipped.double().mean().item()
    if abs(pct - p.output_min_percentage) < 1e-6 and pct < 1:
        raise Skip
    if pct < p.output_min_percentage:
        ref.g -= (1 - pct) * r
    mon.close(tile.input_range.grad, torch.tensor([ref.g]), "managed:gradient", atol=1e-4, rtol=3e-4)
    mon.close(xg.grad.double(), dx, "managed:input_gradient", atol=1e-4, rtol=1e-3)
    mon.state("managed", pct < p.output_min_percentage, p.output_min_percentage, i == o)


def s_noise(rng, mon):
    """output noise scales with the range, the quantisation of the input covers it."""
    kind = rng.choice(["compiled", "torch"])
    r = rng.choice([0.5, 1.0, 4.0])
    cfg = config(rng, kind, init_from_data=0, init_value=r, learn_input_range=gen.coin(rng))
    f = cfg.forward
    f.is_perfect = False
    f.out_res = -1
    f.inp_noise = f.w_noise = 0.0
    f.out_bound = -1.0 if kind == "torch" else 0.0
    f.noise_management, f.bound_management = NoiseManagementType.NONE, BoundManagementType.NONE
    mode = rng.choice(["noise", "res"])
    i, o = rng.randint(1, 4), rng.randint(1, 4)
    f.inp_bound = 1.0
    f.inp_res, f.out_noise = (-1, rng.choice([0.1, 0.5])) if mode == "noise" else (rng.choice([1 / 6, 1 / 14, 1 / 126]), 0.0)
    f.inp_sto_round = False
    lay = AnalogLinear(i, o, bias=False, rpu_config=cfg)
    tile = next(lay.analog_tiles())
    s = tile.get_scales()
    s = torch.ones(o) if s is None else s.detach().clone().expand(o)
    W = tile.tile.get_weights().double() * s.double().view(-1, 1)
    mon.ctx = dict(kind=kind, r=r, mode=mode, shape=(i, o))
    lay.eval() if gen.coin(rng) else lay.train()
    x = torch.randn(1, i) * 2 * r
    xc = x.double().clamp(-r, r)
    with torch.no_grad():
        if mode == "res":
            q = 2 * f.inp_res
            v = xc / r / q
            if ((v - v.floor() - 0.5).abs() < 1e-3).any():
                raise Skip
            y = lay(x)
            mon.close(y.double(), (v.round() * q * r) @ W.t(), f"noise:{kind}:resolution", atol=1e-4 * r * i, rtol=1e-3)
        else:
            n = 4000
            y = lay(x.expand(n, i)).double() - xc @ W.t()
            sd = y.std(0) / (f.out_noise * r * s.double())
            mon.check(bool(((sd - 1).abs() < 7.0 / np.sqrt(2 * n)).all()), f"noise:{kind}:scale", f"relative deviation {sd}")
    mon.state("noise", kind, mode, r)


def s_reload(rng, mon):
    """range and counter survive checkpoints and copies."""
    kind = rng.choice(["compiled", "torch"])
    ir = rand_ir(rng)
    cfg = config(rng, kind, **ir)
    mon.ctx = dict(kind=kind, ir=ir)
    mk = lambda: AnalogSequential(AnalogLinear(3, 2, rpu_config=copy.deepcopy(cfg)))
    a = mk()
    a.train()
    for _ in range(rng.randint(0, 4)):
        a(torch.randn(4, 3))
    if gen.coin(rng):
        b = mk()
        b.train()
        if gen.coin(rng):
            b(torch.randn(5, 3) * 3)
        b.load_state_dict(a.state_dict())
    else:
        b = copy.deepcopy(a)
    b.train()
    for _ in range(rng.randint(1, 4)):
        x = torch.randn(4, 3)
        mon.close(b(x).double(), a(x).double(), "reload:output", atol=1e-5)
        ta, tb = next(a.analog_tiles()), next(b.analog_tiles())
        mon.close(tb.input_range, ta.input_range, "reload:range")
        mon.check(tb.input_range_update_idx.item() == ta.input_range_update_idx.item(), "reload:count", "")
    mon.state("reload", kind, ir["learn_input_range"], ir["init_from_data"])


# ------------------------------------------------------------------ calibration
class Net(AnalogSequential):
    pass


def s_calibrate(rng, mon):
    kind = rng.choice(["compiled", "torch"])
    ct = rng.choice([IT.MOVING_STD, IT.MOVING_QUANTILE, IT.CACHE_QUANTILE, IT.MAX])
    n = rng.randint(1, 3)
    size = [rng.randint(2, 5) for _ in range(n + 1)]
    enabled = [gen.coin(rng, 0.6) for _ in range(n)]
    force = gen.coin(rng, 0.6)
    perfect = gen.coin(rng, 0.5)
    nm = gen.coin(rng, 0.3)
    mods = []
    for k in range(n):
        cfg = config(rng, kind, learn_input_range=gen.coin(rng), init_value=rng.choice([0.7, 3.0, 20.0]),
                     init_from_data=rng.choice([0, 10]))
        cfg.forward.is_perfect = perfect
        f = cfg.forward
        f.inp_res = f.out_res = -1
        f.out_noise = f.w_noise = f.inp_noise = 0.0
        f.out_bound = 0.0 if kind == "compiled" else -1.0
        f.bound_management = BoundManagementType.NONE
        f.noise_management = NoiseManagementType.ABS_MAX if nm and (force or not enabled[k]) else NoiseManagementType.NONE
        if not enabled[k]:
            cfg.pre_post.input_range.enable = False
        mods.append(AnalogLinear(size[k], size[k + 1], bias=gen.coin(rng), rpu_config=cfg))
        mods.append(nn.ReLU() if gen.coin(rng) else nn.Tanh())
    unused = gen.coin(rng, 0.3)
    net = AnalogSequential(*mods)
    if unused:
        cfg = config(rng, kind, learn_input_range=False, init_value=1.5)
        cfg.forward.is_perfect = False
        cfg.forward.noise_management = NoiseManagementType.NONE
        net2 = AnalogSequential(net, AnalogLinear(2, 2, rpu_config=cfg))
        net2.forward = net.forward
    else:
        net2 = net
    layers = [m for m in net if isinstance(m, AnalogLinear)]
    train = gen.coin(rng)
    net2.train(train)
    mon.ctx = dict(kind=kind, type=ct, enabled=enabled, force=force, perfect=perfect, nm=nm, unused=unused, sizes=size)
    batches = [torch.randn(rng.randint(2, 6), size[0]) * rng.choice([0.5, 2.0]) + rng.choice([0.0, 1.0]) for _ in range(rng.randint(1, 5))]
    if gen.coin(rng, 0.3):
        batches[-1][0] = 0.0
    if gen.coin(rng, 0.1):
        batches.append(batches[0] * 0)
    alpha = rng.choice([None, 2.0])
    q = rng.choice([0.99995, 0.9, 1.0])
    rec = [[] for _ in layers]
    hooks = [m.register_forward_pre_hook(lambda mod, a, k=k: rec[k].append(a[0].detach().clone())) for k, m in enumerate(layers)]
    w0 = [[None if z is None else z.clone() for z in m.get_weights()] for m in layers]
    tiles0 = [next(m.analog_tiles()) for m in layers]
    r0 = [None if t.input_range is None else t.input_range.item() for t in tiles0]
    iv = [t.rpu_config.pre_post.input_range.init_value for t in tiles0]
    al = [alpha if alpha is not None else t.rpu_config.pre_post.input_range.init_std_alpha for t in tiles0]
    nm0 = [t.rpu_config.forward.noise_management for t in tiles0]
    calibrate_input_ranges(net2, ct, iter([((b,), {}) for b in batches]), quantile=q, std_alpha=alpha, force_all_layers=force)
    for h in hooks:
        h.remove()
    key = f"calibrate:{kind}:{ct.value}:"
    mon.check(net2.training == train and net.training == train, key + "mode", "training mode changed")
    for k, m in enumerate(layers):
        t = next(m.analog_tiles())
        w1 = m.get_weights()
        mon.check(all((a is None and b is None) or torch.allclose(a, b, atol=1e-6) for a, b in zip(w0[k], w1)), key + "weights", "")
        mon.check(t.rpu_config.forward.is_perfect == perfect, key + "is_perfect", "the forward pass is left changed")
        if not force and not enabled[k]:
            mon.check(not t.rpu_config.pre_post.input_range.enable and t.input_range is None, key + "other_layer",
                      "a layer which is not to be calibrated got an input range")
            mon.check(t.rpu_config.forward.noise_management == nm0[k], key + "other_nm", "")
            continue
        xs = [x.reshape(-1, x.shape[-1]).double() for x in rec[k]]
        mon.check(len(xs) == len(batches), key + "passes", "")
        xs = [x[~(x == 0).all(-1)] for x in xs]
        old = r0[k] if r0[k] is not None else iv[k]
        if ct == IT.MAX:
            v = [x.abs().max().item() for x in xs if x.numel()]
            want = max(v) if v else old
        elif ct == IT.CACHE_QUANTILE:
            a = torch.cat([x.flatten() for x in xs])
            want = abs(a.quantile(q).item()) if a.numel() else old
        else:
            v = []
            for x in xs:
                if not x.numel():
                    continue
                if ct == IT.MOVING_STD:
                    v.append(al[k] * x.std().item())
                else:
                    v.append(x.abs().max().item() if q == 1.0 else x.flatten().quantile(q).item())
            v = [a for a in v if a > 0]
            want = sum(v) / len(v) if v else old
        mon.close(t.input_range, torch.tensor([want]), key + "range", atol=1e-5, rtol=1e-4)
        mon.check(t.rpu_config.pre_post.input_range.enable, key + "enabled", "")
        mon.check(t.rpu_config.pre_post.input_range.init_from_data == 0, key + "on_the_fly", "")
        if ct in (IT.MAX, IT.CACHE_QUANTILE) and any(x.numel() for x in xs):
            mon.check(t.rpu_config.pre_post.input_range.calibration_info == ct.value, key + "info", "")
        # the calibrated layer works with the range (also in further training passes)
        r = abs(t.input_range.item())
        if r > 1e-4:
            x = torch.randn(3, size[k]) * 2
            W, B = m.get_weights()
            ref = x.double().clamp(-r, r) @ W.double().t() + (0 if B is None else B.double())
            m.train(gen.coin(rng))
            mon.close(m(x).double(), ref, key + "output", atol=2e-4 * (1 + r), rtol=1e-3)
    if unused:
        t = next(net2[1].analog_tiles())
        mon.check(t.rpu_config.forward.is_perfect is False, key + "unused", "an unused layer is left with a perfect forward pass")
        mon.close(t.input_range, torch.tensor([1.5]), key + "unused_range")
    mon.state("calibrate", kind, ct.value, force, perfect, nm, unused, alpha, q)


SCENARIOS = [
    Scenario("history", s_history, quick=900, thorough=15000, min_evals=5000),
    Scenario("managed", s_managed, quick=200, thorough=3000, min_evals=300),
    Scenario("noise", s_noise, quick=120, thorough=1500, min_evals=80),
    Scenario("reload", s_reload, quick=120, thorough=1500, min_evals=400),
    Scenario("calibrate", s_calibrate, quick=400, thorough=6000, min_evals=2500),
]
