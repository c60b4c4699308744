"""P14: weight modifiers, clipping and remapping act as documented.

Monitor: the effective forward and backward weights of compiled and torch tiles are read out with
unit vectors while the tiles go through training histories; kinds, scales, statistics, stored
weights, clip bounds and remapped scales are compared with independent float64 references.
"""
import copy
import pickle

import numpy as np
import torch
from scipy.stats import norm

import gen
from stats import matrix_stats, two_stage
from vh import Scenario, Skip
from aihwkit.nn import AnalogConv2d, AnalogLinear, AnalogSequential
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import InferenceRPUConfig, TorchInferenceRPUConfig
from aihwkit.simulator.parameters import (
    WeightClipParameter, WeightModifierParameter, WeightRemapParameter)
from aihwkit.simulator.parameters.enums import (
    WeightClipType as CT, WeightModifierType as MT, WeightRemapType as RT, RPUDataType)
from aihwkit.simulator.parameters.helpers import parameters_to_bindings

PID = "P14"
RULE = ("one state per (tile kind, modifier type, options) whose effective weights are compared, "
        "per clip type and per remap type with its weight pattern, and per history shape")
ASSUMPTIONS = ["statistical deviations below about 2 % are not resolved",
               "read-out with perfect analog passes"]
REQUIRES = ("moments", "grid", "history", "clip", "remap", "restore", "torch")
F = RPUDataType.FLOAT

CTYPES = [MT.DISCRETIZE, MT.MULT_NORMAL, MT.ADD_NORMAL, MT.DISCRETIZE_ADD_NORMAL, MT.DOREFA, MT.POLY,
          MT.PROG_NOISE, MT.DROP_CONNECT, MT.COPY, MT.NONE]
TTYPES = [MT.DISCRETIZE, MT.MULT_NORMAL, MT.ADD_NORMAL, MT.NONE, MT.COPY]


def rand_weights(rng, o, i, kind=None):
    kind = kind or rng.choice(["uniform", "uniform", "big", "tiny", "zero_row", "sparse", "zero", "constant", "one"])
    w = torch.tensor([[gen.u(rng, -1, 1) for _ in range(i)] for _ in range(o)])
    if kind == "big":
        w = w * 5
    if kind == "tiny":
        w = w * 1e-3
    if kind == "zero_row":
        w[rng.randrange(o)] = 0.0
    if kind == "sparse":
        w = torch.where(torch.rand(o, i) < 0.5, torch.zeros(()), w)
    if kind == "zero":
        w = w * 0
    if kind == "constant":
        w = w * 0 + gen.u(rng, -1, 1)
    if kind == "one":
        w = w.sign() * 0.5
    return kind, w


def rand_modifier(rng, types, torch_tile=False):
    t = rng.choice(types)
    kw = dict(type=t, std_dev=rng.choice([0.0, 0.05, 0.1, 0.3]), rel_to_actual_wmax=gen.coin(rng, 0.6),
              assumed_wmax=rng.choice([1.0, 0.5, 2.0, 0.3]), res=rng.choice([0.0, 0.05, 0.1, 0.25, 1 / 15]),
              sto_round=gen.coin(rng, 0.4), dorefa_clip=rng.choice([0.6, 1.0, 0.3]), g_max=rng.choice([25.0, 1.0]),
              coeffs=rng.choice([[0.0105392, 0.0768, -0.046925], [1.0], [0.5, 1.0], [0.0, 0.0, 1.0]]))
    if torch_tile:
        kw["per_batch_sample"] = gen.coin(rng, 0.4)
    else:
        kw["pdrop"] = rng.choice([0.0, 0.0, 0.2, 0.5]) if t != MT.DROP_CONNECT else rng.choice([0.1, 0.3])
        kw["copy_last_column"] = gen.coin(rng, 0.25)
        kw["enable_during_test"] = gen.coin(rng, 0.25)
    return WeightModifierParameter(**kw)


def moments(w, m, torch_tile=False):
    """(mean, variance, values or None) of the modified weights of the given float32 weights.

    values: (lower, upper) the only admissible values in case of discretisation."""
    x = w.double().numpy()
    lastcol = np.zeros(x.shape, bool)
    if m.copy_last_column:
        lastcol[:, -1] = True
    amax = m.assumed_wmax
    if m.rel_to_actual_wmax:
        amax = np.abs(np.where(lastcol, 0, x)).max() or (0.0 if torch_tile else 1.0)
    mean, var, vals = x.copy(), np.zeros_like(x), None
    t = m.type

    def disc(v, step):
        lo = np.floor(v / step) * step
        frac = (v - lo) / step
        if m.sto_round:
            return v, frac * (1 - frac) * step ** 2, (lo, lo + step)
        r = np.round(v / step) * step
        return r, np.zeros_like(v), (r, r)

    if t in (MT.NONE, MT.COPY) and m.pdrop <= 0:
        return mean, var, None
    if t == MT.MULT_NORMAL:
        var = (x * m.std_dev * amax) ** 2
    elif t == MT.ADD_NORMAL:
        var = np.full_like(x, (m.std_dev * amax) ** 2)
    elif t in (MT.POLY, MT.PROG_NOISE):
        a = np.abs(x) / amax
        sig = amax * m.std_dev * np.polyval(m.coeffs[::-1], a)
        if t == MT.PROG_NOISE:
            s = np.abs(sig / m.g_max)
            ax = np.abs(x)
            with np.errstate(divide="ignore", invalid="ignore"):
                q = np.where(s > 0, ax / np.where(s > 0, s, 1), 40)
            fm = s * np.sqrt(2 / np.pi) * np.exp(-q * q / 2) + ax * (1 - 2 * norm.cdf(-q))
            fm = np.where(s > 0, fm, ax)
            var = np.where(s > 0, ax ** 2 + s ** 2 - fm ** 2, 0)
            mean = np.where(x < 0, -fm, fm)
        else:
            var = sig ** 2
    elif t in (MT.DISCRETIZE, MT.DISCRETIZE_ADD_NORMAL):
        step = (2 * m.res if torch_tile else m.step) * amax
        if m.res > 0:
            mean, var, vals = disc(x, step or 1.0)
        if t == MT.DISCRETIZE_ADD_NORMAL and m.std_dev > 0:
            var, vals = var + (m.std_dev * amax) ** 2, None
    elif t == MT.DOREFA:
        if m.res > 0:
            mean, var, vals = disc(np.tanh(x) * abs(m.dorefa_clip / np.tanh(amax)), m.step)
    p = m.pdrop
    if p > 0:
        var = (1 - p) * (mean ** 2 + var) - ((1 - p) * mean) ** 2
        mean = (1 - p) * mean
    if m.copy_last_column:
        mean, var = np.where(lastcol, x, mean), np.where(lastcol, 0, var)
        if vals is not None:
            vals = tuple(np.where(lastcol, x, v) for v in vals)
    return mean, var, vals


def tie(w, m):
    """whether a value to be discretised is too close to a rounding border."""
    if m.res <= 0 or m.type not in (MT.DISCRETIZE, MT.DISCRETIZE_ADD_NORMAL, MT.DOREFA):
        return False
    x = w.double().numpy()
    amax = m.assumed_wmax
    if m.rel_to_actual_wmax:
        amax = np.abs(x[:, :-1] if m.copy_last_column else x).max(initial=0) or 1.0
    y = np.tanh(x) * abs(m.dorefa_clip / np.tanh(amax)) / m.res if m.type == MT.DOREFA else x / amax / m.res
    return bool((np.abs(np.abs(y - np.floor(y)) - 0.5) < 1e-4).any()
                or (np.abs(y / 2 - np.floor(y / 2) - 0.5) < 1e-4).any()) and not m.sto_round


def make_tile(rng, o, i, w, **kw):
    cfg = InferenceRPUConfig(**kw)
    cfg.forward.is_perfect = cfg.backward.is_perfect = True
    cfg.mapping.weight_scaling_omega = 0.0
    cfg.mapping.weight_scaling_columnwise = False
    cfg.drift_compensation = None
    layer = AnalogLinear(i, o, bias=False, rpu_config=cfg)
    tile = next(layer.analog_tiles())
    tile.tile.set_weights(w.clone())
    return layer, tile


def fwd(tile, test=False):
    x = torch.eye(tile.tile.get_x_size())
    return tile.tile.forward(x, False, False, False, test, False).t().contiguous()


def bwd(tile):
    d = torch.eye(tile.tile.get_d_size())
    return tile.tile.backward(d, False, False, False, False)


# ------------------------------------------------------------------ compiled modifiers
def s_compiled(rng, mon):
    o, i = rng.randint(1, 6), rng.randint(2, 7)
    m = rand_modifier(rng, CTYPES)
    wk, w = rand_weights(rng, o, i)
    if tie(w, m):
        raise Skip
    m.step = m.res
    layer, tile = make_tile(rng, o, i, w)
    mon.ctx = dict(modifier=str(m), weights=wk, shape=(o, i))
    pm = copy.copy(m)
    del pm.__dict__["step"]
    b = parameters_to_bindings(pm, F)
    key = "compiled:" + m.type.value
    stored = tile.tile.get_weights()
    mon.check(torch.equal(stored, w), "readback", "")
    f0 = fwd(tile)
    tile.tile.modify_weights(b)
    f1, b1, f2 = fwd(tile), bwd(tile), fwd(tile)
    mon.check(torch.equal(tile.tile.get_weights(), w), key + ":stored", "the stored weights changed")
    mon.check(torch.equal(f1, f2), key + ":frozen", "the modified weights change between passes")
    mon.check(torch.equal(f1, b1), key + ":backward", "backward weights differ from forward weights")
    e = fwd(tile, test=True)
    mon.check(torch.equal(e, f1 if m.enable_during_test else w), key + ":test", "weights in evaluation mode")
    mon.check(torch.equal(f0, w), key + ":before", "")
    mean, var, vals = moments(w, m)
    if m.copy_last_column:
        mon.check(torch.equal(f1[:, -1], w[:, -1]), key + ":last_column", "last column modified")
    sc = max(np.abs(mean).max(), w.abs().max().item(), 1e-12)
    judge_grid(mon, key, f1, vals, m, sc)
    if m.type == MT.PROG_NOISE:
        mon.check(bool(((f1 == 0) | (w == 0) | (f1.sign() == w.sign())).all()), key + ":sign", "sign changed")

    def draw(n):
        r = []
        for _ in range(n):
            tile.tile.modify_weights(b)
            r.append(fwd(tile).double().numpy().ravel())
        return np.array(r)
    gauss = m.type in (MT.ADD_NORMAL, MT.MULT_NORMAL, MT.POLY) and m.pdrop == 0
    disc = vals is not None or m.pdrop > 0
    n = 300
    if disc:    # normal approximation of rare events is poor
        with np.errstate(divide="ignore", invalid="ignore"):
            p = m.pdrop if m.pdrop else 0.5
        n = 500
    rare(mon, draw, n, mean.ravel(), var.ravel(), gauss, key + ":moments", m, sc,
         seldom(vals, mean / (1 - m.pdrop)).ravel())
    mon.check(torch.equal(tile.tile.get_weights(), w), key + ":stored_after", "the stored weights changed")
    mon.state("moments", m.type.value, m.rel_to_actual_wmax, m.pdrop > 0, m.copy_last_column, m.sto_round, wk)


def seldom(vals, x):
    """entries rounded to one side with a small probability (not judged in distribution)."""
    if vals is None:
        return np.zeros(x.shape, bool)
    step = vals[1] - vals[0]
    with np.errstate(divide="ignore", invalid="ignore"):
        f = np.where(step > 0, (x - vals[0]) / np.where(step > 0, step, 1), 0.5)
    return np.minimum(f, 1 - f) < 0.08


def rare(mon, draw, n, mean, var, gauss, key, m, sc, skip=None):
    def stats(S):
        v = np.where(var < (1e-5 * sc) ** 2, 0, var)
        mu = mean
        if gauss:
            return matrix_stats(S, mu, v, gauss=True, eps=3e-5 * sc)
        # mean and variance only, with a variance of the estimates from the sample extent
        D = S - mu
        z = {}
        f = 1 / len(S)
        for k in range(S.shape[1]):
            if v[k] == 0:
                z[f"fixed[{k}]"] = 99.0 if np.abs(D[:, k]).max() > 3e-5 * sc + 4 * np.sqrt(var[k]) * 3 else 0.0
                continue
            if skip is not None and skip[k]:
                continue
            q = D[:, k] ** 2
            ext = (np.abs(D[:, k]).max() ** 2) / v[k]
            infl = np.sqrt(1 + ext * f * 4)   # rare large values
            z[f"mean[{k}]"] = D[:, k].mean() / np.sqrt(v[k] * f + (1e-6 * sc) ** 2) / infl
            kap = max((q ** 2).mean() / max(q.mean(), 1e-300) ** 2, 1.05)
            z[f"var[{k}]"] = (q.mean() / v[k] - 1) / np.sqrt((kap - 1) * f + 1e-6) / infl
        return z
    two_stage(mon, key, draw, n, stats, desc=str(m.type))


def judge_grid(mon, key, f1, vals, m, sc):
    if vals is None:
        return
    x = f1.double().numpy()
    tol = 2e-5 * sc
    ok = (np.abs(x - vals[0]) <= tol) | (np.abs(x - vals[1]) <= tol)
    if m.pdrop > 0:
        ok |= x == 0
    mon.check(bool(ok.all()), key + ":grid", lambda: f"{x[~ok][:4]} not in {vals[0][~ok][:4]}, {vals[1][~ok][:4]}")
    mon.state("grid", m.type.value, m.sto_round)


def s_resolution(rng, mon):
    """the number of steps in [-amax, amax] is 1 / res."""
    n = rng.choice([4, 8, 16, 20])
    t = rng.choice([MT.DISCRETIZE, MT.DISCRETIZE_ADD_NORMAL])
    amax = rng.choice([1.0, 0.5])
    w = torch.linspace(-amax, amax, 1000).view(10, 100)
    which = rng.choice(["compiled", "torch"])
    m = WeightModifierParameter(type=t if which == "compiled" else MT.DISCRETIZE, res=1 / n, std_dev=0.0,
                                rel_to_actual_wmax=gen.coin(rng), assumed_wmax=amax)
    if which == "compiled":
        _, tile = make_tile(rng, 10, 100, w)
        tile.tile.modify_weights(parameters_to_bindings(m, F))
        y = fwd(tile)
    else:
        tile = torch_tile(rng, 10, 100, w, m)[1]
        y = fwd(tile).detach()
    steps = len(np.unique(y.double().numpy().round(5))) - 1
    ok = steps == n
    k = "resolution:" + which
    if not ok:
        k += ":twice" if steps == 2 * n else ":other"
    elif which == "compiled":
        k += ":twice"
    mon.check(ok, k, f"{steps} steps between -a_max and a_max for a resolution of 1/{n}")
    mon.state("resolution", which, m.type.value, n)


# ------------------------------------------------------------------ torch modifiers
def torch_tile(rng, o, i, w, m, **kw):
    cfg = TorchInferenceRPUConfig(modifier=m, **kw)
    cfg.forward.is_perfect = True
    cfg.mapping.weight_scaling_omega = 0.0
    cfg.mapping.weight_scaling_columnwise = False
    cfg.drift_compensation = None
    layer = AnalogLinear(i, o, bias=False, rpu_config=cfg)
    tile = next(layer.analog_tiles())
    tile.tile.set_weights(w.clone())
    return layer, tile


def s_torch(rng, mon):
    o, i = rng.randint(1, 6), rng.randint(2, 7)
    m = rand_modifier(rng, TTYPES, True)
    wk, w = rand_weights(rng, o, i)
    if tie(w, m):
        raise Skip
    m2 = copy.deepcopy(m)
    if m.type == MT.DISCRETIZE and m.res == 0.0:
        m.res = 0.1
        m2.res = 0.1
        if tie(w, m):
            raise Skip
    layer, tile = torch_tile(rng, o, i, w, m2)
    mon.ctx = dict(modifier=str(m), weights=wk, shape=(o, i))
    key = "torch:" + m.type.value
    mean, var, vals = moments(w, m, True)
    sc = max(np.abs(mean).max(), w.abs().max().item(), 1e-12)
    if vals is not None:   # limited to the range of the bound
        amax = w.abs().max().item() if m.rel_to_actual_wmax else m.assumed_wmax
        if amax < w.abs().max().item():
            raise Skip
    layer.eval()
    mon.check(torch.equal(layer(torch.eye(i)).t(), w), key + ":test", "weights in evaluation mode")
    layer.train()

    def one():
        if not m.per_batch_sample:
            return layer(torch.eye(i)).detach().t().double().numpy()
        # every sample has its own weights: first column only with each copy of e_0
        return None
    if m.per_batch_sample:
        e = torch.zeros(64, i)
        k = rng.randrange(i)
        e[:, k] = 1.0

        def draw(n):
            return torch.cat([layer(e).detach() for _ in range(n // 64 + 1)]).double().numpy()
        y = draw(1)
        rar = seldom(vals, mean)[:, k]
        j = int(np.argmax(np.where(rar, 0, var[:, k])))
        if var[j, k] > (1e-4 * sc) ** 2 and not rar[j]:
            mon.check(len(np.unique(y[:, j])) > 1, key + ":per_sample", "all samples have the same weights")
        if vals is not None:
            vals = tuple(v[:, k][None] for v in vals)
            judge_grid(mon, key, torch.tensor(y), vals, m, sc)
        rare(mon, draw, 512, mean[:, k], var[:, k], m.type in (MT.ADD_NORMAL, MT.MULT_NORMAL), key + ":moments", m, sc, rar)
    else:
        judge_grid(mon, key, torch.tensor(one()), vals, m, sc)

        def draw(n):
            return np.array([one().ravel() for _ in range(n)])
        rare(mon, draw, 300, mean.ravel(), var.ravel(), m.type in (MT.ADD_NORMAL, MT.MULT_NORMAL), key + ":moments", m, sc,
             seldom(vals, mean).ravel())
        # identical weights for all samples of the batch
        z = layer(torch.ones(5, i)).detach()
        mon.check(bool((z == z[0]).all()) or torch.allclose(z, z[0].expand_as(z), atol=1e-5 * sc * i), key + ":shared", "")
    # gradients: weights get the gradient of the linear map, inputs the modified weights
    b = rng.randint(1, 5)
    x = torch.randn(b, i, requires_grad=True)
    y = layer(x)
    d = torch.randn(b, o)
    for p in layer.parameters():
        p.grad = None
    y.backward(d)
    g = next(p for p in layer.parameters() if p.grad is not None and p.numel() == o * i).grad
    mon.close(g.view(o, i).double(), (d.t().double() @ x.detach().double()), key + ":gradient", atol=2e-5 * b, rtol=1e-5)
    if not m.per_batch_sample:
        # dy/dx is the modified weight: y == x W^T and x.grad == d W
        a, c = (y.detach() * d).sum().item(), (x.grad * x.detach()).sum().item()
        mon.close(torch.tensor(c), torch.tensor(a), key + ":input_gradient", atol=1e-4 * sc * b * o * i, rtol=1e-4)
    mon.check(torch.equal(tile.tile.get_weights(), w), key + ":stored", "the stored weights changed")
    mon.state("torch", m.type.value, m.per_batch_sample, m.rel_to_actual_wmax, m.sto_round, wk)


# ------------------------------------------------------------------ clipping
def ref_clip(w, p):
    x = w.double()
    v = -1.0
    if p.type == CT.FIXED_VALUE:
        v = p.fixed_value
    elif p.type == CT.LAYER_GAUSSIAN:
        v = x.std().item() * p.sigma if x.numel() > 1 else -1.0
        if p.fixed_value > 0:
            v = min(v, p.fixed_value)
    elif p.type == CT.AVERAGE_CHANNEL_MAX:
        v = x.abs().amax(1).mean().item()
        if p.fixed_value > 0:
            v = min(v, p.fixed_value)
    if not v > 1e-9:
        return x, None
    return x.clamp(-v, v), v


def rand_clip(rng, which):
    t = rng.choice([CT.FIXED_VALUE, CT.LAYER_GAUSSIAN] + ([CT.AVERAGE_CHANNEL_MAX] if which == "compiled" else []))
    return WeightClipParameter(type=t, fixed_value=rng.choice([-1.0, 0.3, 0.7, 1.0]), sigma=rng.choice([2.5, 1.0, 0.5, 1.7]))


def s_clip(rng, mon):
    which = rng.choice(["compiled", "torch"])
    o, i = rng.randint(1, 8), rng.randint(1, 9)
    wk, w = rand_weights(rng, o, i)
    p = rand_clip(rng, which)
    if which == "compiled":
        _, tile = make_tile(rng, o, i, w)
        tile.tile.clip_weights(parameters_to_bindings(p, F))
    else:
        _, tile = torch_tile(rng, o, i, w, WeightModifierParameter())
        tile.tile.clip_weights(p)
    mon.ctx = dict(clip=str(p), weights=wk, shape=(o, i))
    got = tile.tile.get_weights()
    ref, v = ref_clip(w, p)
    key = f"clip:{which}:{p.type.value}"
    if p.type == CT.LAYER_GAUSSIAN and (w.numel() == 1 or w.double().std().item() < 1e-6 * w.abs().max().item()):
        mon.check(bool(got.isfinite().all()), key + ":finite", "")
        return
    mon.close(got.double(), ref, key, atol=3e-6 * max(1e-3, w.abs().max().item()))
    if v is not None:
        same = w.abs().double() < v * (1 - 1e-5)
        mon.check(torch.equal(got[same], w[same]), key + ":inside", "weights inside the bound changed")
    mon.state("clip", which, p.type.value, p.fixed_value > 0, wk)


# ------------------------------------------------------------------ remapping
def s_remap(rng, mon):
    which = rng.choice(["compiled", "compiled", "torch"])
    o, i = rng.randint(1, 7), rng.randint(1, 7)
    wk, w = rand_weights(rng, o, i)
    t = rng.choice([RT.LAYERWISE_SYMMETRIC, RT.CHANNELWISE_SYMMETRIC])
    s = torch.tensor([gen.logu(rng, 1e-2, 10) for _ in range(o)])
    p = WeightRemapParameter(type=t)
    if which == "compiled":
        if gen.coin(rng, 0.4):
            p.remapped_wmax = rng.choice([0.6, 2.0])
        elif t == RT.CHANNELWISE_SYMMETRIC and gen.coin(rng, 0.5):
            p.max_scale_range = rng.choice([1.0, 2.0, 10.0])
            p.max_scale_ref = rng.choice([0.0, 0.1])
        _, tile = make_tile(rng, o, i, w)
        s2 = tile.tile.remap_weights(parameters_to_bindings(p, F), s.clone())
    else:
        _, tile = torch_tile(rng, o, i, w, WeightModifierParameter())
        s2 = tile.tile.remap_weights(p, s.clone())
    mon.ctx = dict(remap=str(p), weights=wk, shape=(o, i))
    v = tile.tile.get_weights()
    key = f"remap:{which}:{t.value}"
    mon.check(bool(v.isfinite().all() and s2.isfinite().all()), key + ":finite", "")
    logical = w.double() * s.double().view(-1, 1)
    got = v.double() * s2.double().expand(o).reshape(-1, 1) if s2.numel() == 1 else v.double() * s2.double().view(-1, 1)
    mon.close(got, logical, key + ":logical", atol=1e-30, rtol=5e-6)
    if t == RT.LAYERWISE_SYMMETRIC:
        if w.abs().max() > 0:
            mon.close(v.abs().max(), torch.tensor(p.remapped_wmax), key + ":max", atol=1e-5)
    elif p.max_scale_range <= 0:
        for k in range(o):
            if w[k].abs().max() > 0:
                mon.close(v[k].abs().max(), torch.tensor(p.remapped_wmax), key + ":row_max", atol=1e-5)
    else:
        lo = max(s.min().item(), p.max_scale_ref)
        mon.check(bool((s2 <= lo * p.max_scale_range * 1.00001).all()), key + ":range", f"{s2} vs {s}")
    mon.state("remap", which, t.value, p.remapped_wmax, p.max_scale_range > 0, wk)


# ------------------------------------------------------------------ histories in training
def s_history(rng, mon):
    which = rng.choice(["compiled", "torch"])
    o, i = rng.randint(1, 6), rng.randint(1, 7)
    bias = gen.coin(rng, 0.5)
    m = rand_modifier(rng, CTYPES if which == "compiled" else TTYPES, which == "torch")
    if m.type == MT.DISCRETIZE and m.res == 0:
        m.res = 0.1
    cl = rand_clip(rng, which) if gen.coin(rng, 0.6) else WeightClipParameter()
    rm = WeightRemapParameter(type=rng.choice([RT.LAYERWISE_SYMMETRIC, RT.CHANNELWISE_SYMMETRIC])) \
        if gen.coin(rng, 0.6) else WeightRemapParameter()
    cfg = (InferenceRPUConfig if which == "compiled" else TorchInferenceRPUConfig)(modifier=m, clip=cl, remap=rm)
    cfg.forward.is_perfect = True
    if which == "compiled":
        cfg.backward.is_perfect = True
    cfg.drift_compensation = None
    cfg.mapping.weight_scaling_omega = rng.choice([0.0, 1.0])
    cfg.mapping.weight_scaling_columnwise = gen.coin(rng)
    cfg.mapping.weight_scaling_lr_compensation = False
    cfg.runtime.on_the_fly_bindings = False if not hasattr(cfg, "runtime") else cfg.runtime.on_the_fly_bindings
    lay = AnalogLinear(i, o, bias=bias, rpu_config=cfg)
    tile = next(lay.analog_tiles())
    lr = rng.choice([0.1, 0.5])
    opt = AnalogSGD(lay.parameters(), lr=lr)
    opt.regroup_param_groups(lay)
    if o * i == 1 and cl.type == CT.LAYER_GAUSSIAN:
        raise Skip   # the deviation of a single value
    mon.ctx = dict(which=which, modifier=str(m), clip=str(cl), remap=str(rm), bias=bias, shape=(o, i))
    kw = f"history:{which}"
    for n in range(rng.randint(2, 5)):
        lay.train()
        w0 = tile.tile.get_weights()
        s0 = tile.get_scales()
        s0v = torch.ones(o) if s0 is None else s0.detach().clone().expand(o) if s0.numel() == 1 else s0.detach().clone()
        x = torch.randn(rng.randint(1, 4), i)
        d = torch.randn(x.shape[0], o)
        opt.zero_grad()
        y = lay(x)
        y1 = lay(x) if which == "compiled" else None
        if y1 is not None:
            mon.check(torch.equal(y.detach(), y1.detach()), kw + ":batch", "modified weights change within the mini-batch")
            y = y1
        mon.check(torch.equal(tile.tile.get_weights(), w0), kw + ":forward", "a forward pass changed the stored weights")
        y.backward(d)
        mon.check(torch.equal(tile.tile.get_weights(), w0), kw + ":backward", "a backward pass changed the stored weights")
        opt.step()
        # reference of the stored weights after the step
        # (the step of the logical weights does not depend on the mapping scales)
        ref = w0.double() - lr * (d / s0v).t().double() @ x.double()
        ref32 = ref.float()
        ref, v = ref_clip(ref32, cl)
        if cl.type != CT.NONE and v is None and cl.type != CT.FIXED_VALUE:
            ref = ref32.double()
        logical = ref * s0v.double().view(-1, 1)
        w1 = tile.tile.get_weights()
        s1 = tile.get_scales()
        s1v = torch.ones(o) if s1 is None else s1.detach().clone().expand(o) if s1.numel() == 1 else s1.detach().clone()
        mon.close(w1.double() * s1v.double().view(-1, 1), logical, kw + ":logical",
                  atol=3e-5 * max(1.0, logical.abs().max().item()))
        if rm.type == RT.NONE:
            mon.check(torch.equal(s1v, s0v), kw + ":scales", "scales changed without remapping")
        elif rm.type == RT.CHANNELWISE_SYMMETRIC:
            mx = w1.abs().amax(1)
            nz = logical.abs().amax(1) > 1e-6
            mon.close(mx[nz], torch.ones_like(mx[nz]), kw + ":row_max", atol=1e-5)
        elif logical.abs().max() > 1e-6:
            mon.close(w1.abs().max(), torch.ones(()), kw + ":max", atol=1e-5)
        lay.eval()
        if not m.enable_during_test:
            with torch.no_grad():
                e = lay(torch.eye(i))
            bb = tile.bias.detach() if bias else torch.zeros(o)
            mon.close((e - bb).t().double(), w1.double() * s1v.double().view(-1, 1), kw + ":eval", atol=2e-5 * max(
                1.0, logical.abs().max().item()))
        mon.check(torch.equal(tile.tile.get_weights(), w1), kw + ":eval_stored", "evaluation changed the stored weights")
    mon.state("history", which, m.type.value, cl.type.value, rm.type.value, bias)


def s_restore(rng, mon):
    """copies, pickles and checkpoints carry the modified weights; loading discards the old ones."""
    o, i = rng.randint(1, 5), rng.randint(1, 6)
    m = WeightModifierParameter(type=MT.ADD_NORMAL, std_dev=0.3, enable_during_test=gen.coin(rng))
    cfg = InferenceRPUConfig(modifier=m)
    cfg.forward.is_perfect = cfg.backward.is_perfect = True
    cfg.drift_compensation = None

    def make():
        return AnalogSequential(AnalogLinear(i, o, bias=False, rpu_config=copy.deepcopy(cfg)))
    net = make()
    eye = torch.eye(i)

    def read(n, train):
        n.train(train)
        with torch.no_grad():
            return n(eye)
    fresh = copy.deepcopy(net.state_dict())
    f0 = read(net, True)
    opt = AnalogSGD(net.parameters(), lr=0.1)

    def step():
        net.train()
        opt.zero_grad()
        net(torch.randn(3, i)).sum().backward()
        opt.step()
    for _ in range(rng.randint(1, 3)):
        step()
    a, b = read(net, True), read(net, False)
    how = rng.choice(["state_dict", "pickle", "deepcopy", "fresh"])
    mon.ctx = dict(how=how, test=m.enable_during_test)
    key = "restore:" + how
    if how == "state_dict":
        n2 = make()
        if gen.coin(rng):
            net_, net = net, n2
            opt = AnalogSGD(net.parameters(), lr=0.1)
            step()
            net = net_
        n2.load_state_dict(copy.deepcopy(net.state_dict()))
    elif how == "pickle":
        n2 = pickle.loads(pickle.dumps(net))
    elif how == "deepcopy":
        n2 = copy.deepcopy(net)
    else:
        net.load_state_dict(fresh)
        mon.close(read(net, True), f0, key + ":train", atol=1e-6)
        mon.close(read(net, False), f0, key + ":eval", atol=1e-6)
        mon.state("restore", how, m.enable_during_test)
        return
    mon.close(read(n2, True), a, key + ":train", atol=1e-6)
    mon.close(read(n2, False), b, key + ":eval", atol=1e-6)
    mon.state("restore", how, m.enable_during_test)


def s_refuse(rng, mon):
    """unsupported combinations are refused rather than ignored."""
    t = rng.randint(0, 4)
    if t == 0:
        _, tile = make_tile(rng, 2, 2, torch.ones(2, 2))
        m = WeightModifierParameter(type=rng.choice([MT.PCM_NOISE]), std_dev=0.1)
        mon.raises(lambda: tile.tile.modify_weights(parameters_to_bindings(m, F)), "refuse:pcm")
    elif t == 1:
        _, tile = make_tile(rng, 2, 2, torch.ones(2, 2))
        m = WeightModifierParameter(type=MT.ADD_NORMAL, std_dev=0.1, per_batch_sample=True)
        mon.raises(lambda: tile.tile.modify_weights(parameters_to_bindings(m, F)), "refuse:per_sample")
    else:
        bad = [dict(type=MT.POLY), dict(type=MT.ADD_NORMAL, pdrop=0.1), dict(type=MT.ADD_NORMAL, enable_during_test=True),
               dict(type=MT.ADD_NORMAL, copy_last_column=True), dict(type=MT.DOREFA), dict(type=MT.PROG_NOISE)]
        m = WeightModifierParameter(std_dev=0.1, **rng.choice(bad))
        mon.raises(lambda: torch_tile(rng, 2, 2, torch.ones(2, 2), m), "refuse:torch")
    mon.state("refuse", t)


SCENARIOS = [
    Scenario("compiled", s_compiled, quick=250, thorough=5000, min_evals=1500),
    Scenario("resolution", s_resolution, quick=40, thorough=300, min_evals=40),
    Scenario("torch", s_torch, quick=150, thorough=3000, min_evals=600),
    Scenario("clip", s_clip, quick=500, thorough=8000, min_evals=600),
    Scenario("remap", s_remap, quick=500, thorough=8000, min_evals=1500),
    Scenario("history", s_history, quick=400, thorough=7000, min_evals=5000),
    Scenario("restore", s_restore, quick=150, thorough=2000, min_evals=250),
    Scenario("refuse", s_refuse, quick=60, thorough=300, min_evals=60),
]
