"""P07: noise terms have the configured distribution.

Monitor: repeated evaluations of the real tiles are recorded and their moments, covariances,
serial correlations and shape are compared with the ones the parameters promise. A deviation
counts only when a larger fresh sample confirms it (lib/stats.py).
"""
import copy
import math

import numpy as np
import torch

import gen
from stats import matrix_stats, pool_stats, two_stage
from vh import Scenario, Skip
from aihwkit.exceptions import AihwkitException
from aihwkit.simulator.configs import (
    SingleRPUConfig, InferenceRPUConfig, TorchInferenceRPUConfig, devices as D)
from aihwkit.simulator.parameters import IOParameters, WeightModifierParameter
from aihwkit.simulator.parameters.enums import (
    AnalogMVType, BoundManagementType as BM, NoiseManagementType as NM, RPUDataType,
    WeightModifierType as WM, WeightNoiseType)
from aihwkit.simulator.parameters.helpers import parameters_to_bindings
from aihwkit.simulator.tiles.torch_tile import TorchSimulatorTile

PID = "P07"
RULE = ("one state per (tile kind, direction, active noise terms, scaling by management) of a "
        "sampled distribution, and per (device, parameter) or (modifier, option) pooled distribution")
ASSUMPTIONS = ["a deviation below about 5 % of a standard deviation is not resolved",
               "the compiled generators draw from a list of 32768 numbers; its error is allowed for"]
REQUIRES = ("statistic", "inp_noise", "out_noise", "w_noise", "sto_in", "sto_out", "out_noise_std",
            "bm_scaled", "torch", "backward", "device", "modifier", "diffusion", "reset",
            "write_noise", "zero")


def io_plain(**kw):
    io = IOParameters(inp_noise=0.0, out_noise=0.0, inp_res=-1.0, out_res=-1.0, inp_bound=-1.0,
                      out_bound=-1.0, noise_management=NM.NONE, bound_management=BM.NONE)
    for k, v in kw.items():
        setattr(io, k, v)
    return io


def make(rng, kind, io, backward, o, i):
    perfect = IOParameters(is_perfect=True)
    if kind == "torch":
        cfg = TorchInferenceRPUConfig(forward=io)
    elif kind == "inference":
        cfg = InferenceRPUConfig(forward=perfect if backward else io)
        cfg.backward = io if backward else perfect
    else:
        dev = D.IdealDevice() if kind == "ideal" else gen.no_dtod(D.ConstantStepDevice(w_min=-2, w_max=2))
        cfg = SingleRPUConfig(device=dev, forward=perfect if backward else io,
                              backward=io if backward else perfect)
    cfg.mapping.weight_scaling_omega = 0.0
    if hasattr(cfg, "modifier"):
        cfg.drift_compensation = None
    try:
        return cfg.tile_class(o, i, cfg, bias=False)
    except AihwkitException:
        raise Skip()


def rand_mat(rng, o, i, a=0.8):
    return torch.tensor([[gen.u(rng, -a, a) for _ in range(i)] for _ in range(o)])


def run(tile, backward, X):
    if backward:
        return tile.tile.backward(X, False, False, False, False)
    return tile.tile.forward(X, False, False, False, False, False).detach()


def sampler(rng, tile, backward, x):
    """draw(n): n evaluations of the same vector, spread over calls of varying batch size."""
    def draw(n):
        out, left = [], n
        while left > 0:
            b = min(left, rng.choice([1, 37, 500, 4000]) if left < n // 3 else 4000)
            out.append(run(tile, backward, x.repeat(b, 1)).double().numpy())
            left -= b
        return np.concatenate(out)
    return draw


def noise_pars(tile, backward):
    if hasattr(tile.tile, "out_noise_values"):
        v = tile.tile.out_noise_values
        return None if v is None or (torch.is_tensor(v) and v.numel() == 0) else np.asarray(v.double()).ravel()
    tag = "bwd.out_noise_values" if backward else "fwd.out_noise_values"
    v = [np.asarray(x, float).ravel() for k, x in tile.tile.dump_extra().items() if k.endswith(tag)]
    return v[0] if v and len(v[0]) else None


def s_mvm(rng, mon):
    kind = rng.choice(["torch", "torch", "ideal", "constant", "inference"])
    backward = kind != "torch" and gen.coin(rng, 0.35)
    io = io_plain()
    active = []
    if gen.coin(rng, 0.6):
        io.inp_noise = gen.logu(rng, 0.01, 0.5)
        active.append("inp_noise")
    if gen.coin(rng, 0.7) or not active:
        io.out_noise = gen.logu(rng, 0.01, 0.5)
        active.append("out_noise")
        if gen.coin(rng, 0.3):
            io.out_noise_std = rng.choice([0.1, 0.5])
            active.append("out_noise_std")
    wn = kind != "torch" and gen.coin(rng, 0.4)
    if wn:
        io.w_noise_type = rng.choice([WeightNoiseType.ADDITIVE_CONSTANT, WeightNoiseType.PCM_READ])
        io.w_noise = gen.logu(rng, 0.01, 0.3)
        io.inp_noise = 0.0
        active = [a for a in active if a != "inp_noise"] + ["w_noise"]
        if kind != "torch" and gen.coin(rng, 0.5):
            io.mv_type = rng.choice([AnalogMVType.POS_NEG_SEPARATE, AnalogMVType.POS_NEG_SEPARATE_DIGITAL_SUM])
    elif io.inp_noise == 0 and kind != "torch" and gen.coin(rng, 0.3):
        io.mv_type = rng.choice([AnalogMVType.POS_NEG_SEPARATE, AnalogMVType.POS_NEG_SEPARATE_DIGITAL_SUM])
    io.noise_management = rng.choice([NM.NONE, NM.ABS_MAX, NM.CONSTANT])
    io.nm_thres = rng.choice([0.0, 0.7, 3.0])
    if io.noise_management != NM.NONE:
        io.inp_bound = 1.0 if gen.coin(rng, 0.0) else -1.0
        if kind != "torch":
            io.inp_bound = 1.0
    io.out_scale = rng.choice([1.0, 1.0, 0.5, 2.0])
    o, i = rng.randint(1, 7), rng.randint(1, 9)
    if backward:
        o, i = i, o
    W = rand_mat(rng, o, i)
    n_in = o if backward else i
    x = torch.tensor([rng.choice([0.0, gen.u(rng, -1, 1), gen.u(rng, -1, 1), 0.5]) for _ in range(n_in)])
    x = x * rng.choice([1.0, 1.0, 0.3, 2.5])
    if not x.any():
        x[0] = 0.4     # (an all-zero vector is not processed with noise management)
    if io.noise_management == NM.CONSTANT:
        nm = io.nm_thres if io.nm_thres > 0 else 1.0
    elif io.noise_management == NM.ABS_MAX:
        nm = x.abs().max().item()
        if io.nm_thres > 0:
            nm = min(nm, io.nm_thres)
        if nm <= 0:
            nm = 1.0
    else:
        nm = 1.0
    xs = x.double().numpy() / nm
    clipped = io.inp_bound > 0 and np.abs(xs).max() > io.inp_bound * 0.999
    if io.inp_bound > 0:
        xs = np.clip(xs, -io.inp_bound, io.inp_bound)
    M = W.double().numpy()
    M = M.T if backward else M
    y = M @ xs
    # bound management with a certain number of rounds
    red = 1.0
    if not backward and io.mv_type == AnalogMVType.ONE_PASS and gen.coin(rng, 0.4) and np.abs(y).max() > 1e-2 \
            and io.noise_management != NM.NONE and not clipped:
        k = rng.randint(1, 3)
        red = 2.0 ** k
        io.bound_management = BM.ITERATIVE
        io.out_bound = float(np.abs(y).max() / red * 1.4)
        for a in ("inp_noise", "out_noise", "w_noise"):
            v = getattr(io, a)
            if v > 0:
                setattr(io, a, min(v, 0.02 * io.out_bound / max(1.0, np.abs(M).sum(1).max())))
        io.out_noise_std = 0.0 if io.out_noise == 0 else min(io.out_noise_std, 0.1)
        xs, y = xs / red, y / red
        mon.obs("bm_scaled")
    tile = make(rng, kind, io, backward, o, i)
    tile.tile.set_weights(W)
    if not torch.allclose(tile.tile.get_weights(), W):
        raise Skip()
    if kind == "torch":
        tile.train()
    so = np.full(len(y), io.out_noise)
    if io.out_noise_std > 0 and io.out_noise > 0:
        v = noise_pars(tile, backward)
        mon.check(v is not None and len(v) == len(y), f"out_noise_values:{kind}",
                  f"no per-line output noise for {len(y)} lines: {v}")
        if v is None or len(v) != len(y):
            return
        so = v
        if gen.coin(rng, 0.4):
            # values of the user, by dictionary or by name
            new = torch.tensor([rng.choice([0.0, float(io.out_noise) * gen.u(rng, 0.3, 3.0)]) for _ in v])
            setter = tile.set_backward_parameters if backward else tile.set_forward_parameters
            given = {"out_noise_values": new}
            if gen.coin(rng):
                setter(given)
            else:
                setter(**given)
            v = noise_pars(tile, backward)
            mon.check(v is not None and len(v) == len(new) and np.allclose(v, new.numpy(), rtol=1e-6), f"out_noise_values:{kind}:set",
                      lambda: f"{v} after setting {new.tolist()}")
            mon.obs("noise_values_set")
            so = new.double().numpy()
    cov = io.inp_noise ** 2 * M @ M.T
    passes = 2 if io.mv_type == AnalogMVType.POS_NEG_SEPARATE_DIGITAL_SUM else 1
    cov = cov + passes * np.diag(so ** 2)
    if io.w_noise > 0:
        if io.w_noise_type == WeightNoiseType.ADDITIVE_CONSTANT:
            d = np.full(len(y), (xs ** 2).sum())
        else:
            d = np.abs(M) @ xs ** 2
        cov = cov + io.w_noise ** 2 * np.diag(d)
    g = io.out_scale * nm * red
    key = f"mvm:{kind}:{'bwd' if backward else 'fwd'}:{'+'.join(sorted(active))}:{io.mv_type.name}"
    eps = 3e-5 * abs(g) * max(1e-3, np.abs(M).sum(1).max())
    desc = f"{key} nm={nm:.3g} red={red} inp={io.inp_noise:.3g} out={io.out_noise:.3g} w={io.w_noise:.3g}"
    two_stage(mon, key, sampler(rng, tile, backward, x[None, :]), 6000,
              lambda S: matrix_stats(S, g * y, g * g * cov, lst=0 if kind == "torch" else 32768, eps=eps), desc)
    for a in active:
        mon.obs(a)
    mon.obs("backward" if backward else "torch" if kind == "torch" else "forward")
    mon.state(kind, backward, tuple(sorted(active)), io.mv_type.name, io.noise_management.name,
              io.w_noise_type.name if io.w_noise > 0 else "", red, io.out_scale)


def s_zero(rng, mon):
    """No strength, no randomness; perfect means perfect."""
    kind = rng.choice(["torch", "ideal", "constant", "inference"])
    backward = kind != "torch" and gen.coin(rng)
    io = IOParameters(out_noise=0.0, inp_noise=0.0)
    perfect = gen.coin(rng, 0.3)
    if perfect:
        io = IOParameters(is_perfect=True, out_noise=0.5, inp_noise=0.5, inp_sto_round=gen.coin(rng),
                          out_noise_std=0.3, inp_res=0.25)
        if kind != "torch":
            io.w_noise, io.w_noise_type = 0.3, WeightNoiseType.ADDITIVE_CONSTANT
    elif kind != "torch":
        io.w_noise_type = rng.choice([WeightNoiseType.NONE, WeightNoiseType.ADDITIVE_CONSTANT,
                                      WeightNoiseType.PCM_READ])
        if io.w_noise_type == WeightNoiseType.NONE:
            io.w_noise = rng.choice([0.0, 0.3])
    o, i = rng.randint(1, 9), rng.randint(1, 9)
    tile = make(rng, kind, io, backward, o, i)
    W = rand_mat(rng, o, i)
    tile.tile.set_weights(W)
    x = rand_mat(rng, 3, o if backward else i)
    a = run(tile, backward, x).clone()
    b = run(tile, backward, x).clone()
    mon.check(torch.equal(a, b), f"zero:{kind}:{'perfect' if perfect else 'zero strength'}",
              lambda: f"two evaluations differ by {(a - b).abs().max()}")
    mon.check(torch.equal(tile.tile.get_weights(), W), f"zero_weights:{kind}", "evaluation changed the weights")
    if perfect:
        ref = x.double() @ (W if backward else W.t()).double()
        mon.close(a.double(), ref, f"zero:{kind}:perfect_value", atol=1e-5)
    mon.obs("zero")
    mon.state("zero", kind, backward, perfect, io.w_noise_type.name)


def s_sto(rng, mon):
    """Stochastic rounding: neighbours only, unbiased, independent."""
    kind = rng.choice(["torch", "ideal", "inference"])
    backward = kind != "torch" and gen.coin(rng, 0.4)
    where = rng.choice(["in", "out"]) if kind != "torch" else rng.choice(["in", "out"])
    n = rng.randint(1, 7)
    res = rng.choice([0.25, 0.1, 1 / 30, 20.0])
    bound = rng.choice([1.0, 2.0, 5.0])
    step = (1 / res if res > 1 else res) * 2 * bound
    io = io_plain()
    if where == "in":
        io.inp_res, io.inp_bound, io.inp_sto_round = res, bound, True
    else:
        io.out_res, io.out_bound, io.out_sto_round = res, bound, True
    tile = make(rng, kind, io, backward, n, n)
    tile.tile.set_weights(torch.eye(n))
    x = torch.tensor([gen.u(rng, -0.8, 0.8) * bound for _ in range(n)])
    # stay inside the bounds: beyond them the value is clipped
    lim = math.floor(bound / step + 1e-6) * step - step if bound / step > 2 else 0.0
    x = x.clamp(-max(lim, 0.4 * step), max(lim, 0.4 * step)) if lim <= 0 else x.clamp(-lim, lim)
    xd = x.double().numpy()
    draw0 = sampler(rng, tile, backward, x[None, :])
    lo = np.floor(xd / step) * step
    p = (xd - lo) / step
    near = np.minimum(p, 1 - p) < 1e-3

    def draw(m):
        S = draw0(m)
        k = np.rint((S - lo) / step)
        legal = (np.abs(S - lo - k * step) < 1e-4 * max(1, bound)) & (near | ((k >= 0) & (k <= 1)))
        clipped = np.abs(np.abs(S) - bound) < 1e-5
        mon.check((legal | clipped).all(), f"sto_values:{kind}:{where}",
                  lambda: f"rounded to {S[~(legal | clipped)][:4]} from {xd} step {step}")
        return S
    keep = ~near & (np.abs(lo) < bound - 1e-6) & (np.abs(lo + step) < bound + 1e-6)
    if not keep.any():
        raise Skip()
    v = np.where(keep, p * (1 - p), 1.0) * step ** 2
    two_stage(mon, f"sto:{kind}:{where}:{'bwd' if backward else 'fwd'}", draw, 4000,
              lambda S: matrix_stats(S[:, keep], xd[keep], v[keep], gauss=False), f"step {step} x {xd[:5]}")
    mon.obs(f"sto_{where}")
    mon.state("sto", kind, where, backward, res, bound)


def s_lines(rng, mon):
    """Parameters drawn once per output line."""
    kind = rng.choice(["ideal", "inference", "torch"])
    o = 5000
    io = io_plain(out_noise=gen.u(rng, 0.05, 0.3), out_noise_std=rng.choice([0.05, 0.2]))
    if kind != "torch":
        io.v_offset_std = gen.u(rng, 0.02, 0.2)
        io.out_nonlinearity, io.out_nonlinearity_std = gen.u(rng, 0.1, 1.0), gen.u(rng, 0.05, 0.2)
        io.w_read_asymmetry_dtod = gen.u(rng, 0.05, 0.2)
        io.mv_type = AnalogMVType.POS_NEG_SEPARATE
        io.out_bound = rng.choice([-1.0, 4.0])
    bnd = io.out_bound if io.out_bound > 0 else 1.0

    def draw(n):
        out = []
        for _ in range(n):
            tile = make(rng, kind, copy.deepcopy(io), False, o, 1)
            r = {"out_noise": noise_pars(tile, False)}
            if kind != "torch":
                ex = tile.tile.dump_extra()
                for a in ("v_offset", "out_nonlinearity", "w_asymmetry"):
                    r[a] = [np.asarray(v, float).ravel() for k, v in ex.items() if k.endswith("fwd." + a)][0]
            out.append(r)
        return {k: np.concatenate([r[k] for r in out]) for k in out[0]}

    def stats(S):
        z = pool_stats((S["out_noise"] / io.out_noise - 1) / io.out_noise_std)
        if kind != "torch":
            v = S["v_offset"] / io.v_offset_std
            z["v_neg"] = 99.0 if (v < 0).any() else 0.0
            # clipped at zero: half of the lines have none
            pos = v[v > 0]
            f = 1 / len(v) + 1 / 32768
            z["v_frac"] = (len(pos) / len(v) - 0.5) / (0.5 * np.sqrt(f))
            z["v_sq"] = ((pos ** 2).mean() - 1) / np.sqrt(2 * (1 / len(pos) + 2 / 32768))
            z.update({"nl_" + k: x for k, x in pool_stats(
                (S["out_nonlinearity"] * bnd / io.out_nonlinearity - 1) / io.out_nonlinearity_std).items()})
            z.update({"asym_" + k: x for k, x in pool_stats(
                (S["w_asymmetry"] - 1) / io.w_read_asymmetry_dtod).items()})
        return z
    two_stage(mon, f"lines:{kind}", draw, 1, stats, f"{kind} lines", more=6)
    mon.state("lines", kind, io.out_noise_std)


# ------------------------------------------------------------------ devices
def hidden(tile):
    return {k: v.double().numpy() for k, v in tile.get_hidden_parameters().items()}


def s_device(rng, mon):
    """Device-to-device variations of the common parameters and of the specific ones."""
    kind = rng.choice(["ConstantStep", "LinearStep", "ExpStep", "SoftBounds", "PowStep", "PiecewiseStep",
                       "SoftBoundsReference", "PowStepReference"])
    dev = getattr(D, kind + "Device")()
    gen.no_dtod(dev)
    dev.enforce_consistency = False
    dev.w_max, dev.w_min = gen.u(rng, 0.3, 1.2), -gen.u(rng, 0.3, 1.2)
    dev.dw_min = gen.logu(rng, 1e-3, 1e-2)
    dev.w_max_dtod, dev.w_min_dtod = gen.u(rng, 0.05, 0.15), gen.u(rng, 0.05, 0.15)
    dev.dw_min_dtod = gen.u(rng, 0.05, 0.15)
    dev.dw_min_dtod_log_normal = gen.coin(rng, 0.4)
    dev.up_down_dtod = gen.u(rng, 0.02, 0.08)
    dev.up_down = rng.choice([0.0, 0.05, -0.1])
    dev.diffusion, dev.diffusion_dtod = gen.logu(rng, 1e-3, 1e-1), gen.u(rng, 0.05, 0.15)
    dev.reset, dev.reset_dtod = gen.u(rng, -0.2, 0.2), gen.u(rng, 0.02, 0.1)
    dev.lifetime, dev.lifetime_dtod = gen.u(rng, 20, 200), gen.u(rng, 0.05, 0.1)
    if kind == "LinearStep":
        dev.mult_noise = gen.coin(rng)
        dev.allow_increasing = True
        dev.mean_bound_reference = True
        dev.gamma_up, dev.gamma_down = gen.u(rng, 0.1, 0.5), gen.u(rng, 0.1, 0.5)
        dev.gamma_up_dtod, dev.gamma_down_dtod = gen.u(rng, 0.02, 0.1), gen.u(rng, 0.02, 0.1)
    if kind.startswith("PowStep"):
        dev.pow_gamma, dev.pow_gamma_dtod = gen.u(rng, 0.8, 2), gen.u(rng, 0.02, 0.1)
        dev.pow_up_down, dev.pow_up_down_dtod = rng.choice([0.0, 0.1]), gen.u(rng, 0.01, 0.05)
    if kind.endswith("Reference"):
        dev.reference_mean, dev.reference_std = gen.u(rng, -0.2, 0.2), gen.u(rng, 0.01, 0.1)
        if kind.startswith("Soft"):
            dev.subtract_symmetry_point = False
    corrupt = gen.coin(rng, 0.2)
    if corrupt:
        dev.corrupt_devices_prob = gen.u(rng, 0.05, 0.3)
        dev.corrupt_devices_range = gen.u(rng, 0.05, 1.0)
    cfg = SingleRPUConfig(device=dev)
    cfg.mapping.weight_scaling_omega = 0.0
    o, i = 61, 67

    def draw(n):
        hs = [hidden(cfg.tile_class(o, i, copy.deepcopy(cfg), bias=False)) for _ in range(n)]
        return {k: np.stack([h[k] for h in hs]) for k in hs[0]}

    ud = dev.up_down
    ub, db = (0.0, -ud) if ud > 0 else (ud, 0.0)

    def stats(S):
        z = {}

        def add(tag, u, gauss=True):
            z.update({f"{tag}.{k}": v for k, v in pool_stats(u, gauss=gauss, lst=0).items()})
        up, dn = S["dwmin_up"] / dev.dw_min, S["dwmin_down"] / dev.dw_min
        mx, mn = S["max_bound"] / dev.w_max, S["min_bound"] / dev.w_min
        live = np.ones(up.shape, bool)
        if corrupt:
            stuck = (S["dwmin_up"] == 0) & (S["dwmin_down"] == 0)
            n, p = stuck.size, dev.corrupt_devices_prob
            z["corrupt.frac"] = (stuck.mean() - p) / np.sqrt(p * (1 - p) / n)
            a, b = S["max_bound"][stuck], S["min_bound"][stuck]
            z["corrupt.range"] = 99.0 if (a != b).any() or (np.abs(a) > dev.corrupt_devices_range + 1e-6).any() \
                else 0.0
            live = ~stuck
        gain = (up + dn - ub - db) / 2
        r = (up - dn - ub + db) / 2
        u = np.log(np.maximum(gain, 1e-9)) if dev.dw_min_dtod_log_normal else gain - 1
        add("gain", (u / dev.dw_min_dtod)[live])
        add("up_down", (r / dev.up_down_dtod)[live])
        rr, gg = (r / dev.up_down_dtod)[live], (u / dev.dw_min_dtod)[live]
        a, b = ((mx - 1) / dev.w_max_dtod)[live], ((mn - 1) / dev.w_min_dtod)[live]
        add("w_max", a)
        add("w_min", b)
        n = len(a)
        for t, q in (("gain,r", rr * gg), ("max,min", a * b), ("max,gain", a * gg), ("min,gain", b * gg)):
            z[f"cov({t})"] = q.mean() * np.sqrt(n)
        dif = (S["diffusion_rates"] / dev.diffusion - 1) / dev.diffusion_dtod
        add("diffusion", dif)
        add("reset", (S["reset_bias"] - dev.reset) / dev.reset_dtod)
        lt = (1 / (1 - S["decay_scales"]) / dev.lifetime - 1) / dev.lifetime_dtod
        keep = np.abs(lt) < 5.5
        z["lifetime.out"] = 0.0 if keep.mean() > 0.999 else 99.0
        # (1 - 1/t is stored in single precision)
        for k, v in pool_stats(lt[keep], gauss=False, lst=0).items():
            z["lifetime." + k] = v
        cols = [("diffusion", dif), ("reset", (S["reset_bias"] - dev.reset) / dev.reset_dtod)]
        for t, q in cols:
            z[f"cov({t},max)"] = (q[live] * a).mean() * np.sqrt(n)
        # neighbouring devices of a row and of a column
        d = ((mx - 1) / dev.w_max_dtod)
        if not corrupt:
            z["row"] = (d[:, :, 1:] * d[:, :, :-1]).mean() * np.sqrt(d[:, :, 1:].size)
            z["col"] = (d[:, 1:, :] * d[:, :-1, :]).mean() * np.sqrt(d[:, 1:, :].size)
        if S["max_bound"].shape[0] > 1 and not corrupt:
            z["tiles"] = (d[1:] * d[:-1]).mean() * np.sqrt(d[1:].size)
        if kind == "LinearStep" and not corrupt:
            # slope = -gamma (1 + dtod) * scale / bound, against the mean bound
            su = S["slope_up"] / S["dwmin_up"] * dev.w_max
            sd = S["slope_down"] / S["dwmin_down"] * dev.w_min
            add("gamma_up", (-su - dev.gamma_up) / dev.gamma_up_dtod)
            add("gamma_down", (-sd - dev.gamma_down) / dev.gamma_down_dtod)
        if kind.endswith("Reference"):
            add("reference", (S["reference"] - dev.reference_mean) / dev.reference_std)
        if kind == "PowStep" and dev.pow_up_down == 0:
            g, h = S["gamma_up"], S["gamma_down"]
            add("pow_gamma", ((g + h) / 2 / dev.pow_gamma - 1) / dev.pow_gamma_dtod)
        return z
    two_stage(mon, f"device:{kind}{':corrupt' if corrupt else ''}", draw, 2, stats,
              f"{kind} {'log' if dev.dw_min_dtod_log_normal else ''} ud={ud}", more=6)
    # documented: the step in direction d has a factor 1 + d * up_down
    if ud != 0 and not corrupt and not dev.dw_min_dtod_log_normal:
        S = draw(4)
        m = S["dwmin_up"].mean() / dev.dw_min, S["dwmin_down"].mean() / dev.dw_min
        one_sided = abs(m[0] - 1 - ub) < 0.02 and abs(m[1] - 1 - db) < 0.02
        mon.check(abs(m[0] - 1 - ud) < 0.02 and abs(m[1] - 1 + ud) < 0.02,
                  "device_up_down:" + ("one_sided" if one_sided else "other"),
                  f"mean steps {m} for up_down={ud}")
    mon.obs("device")
    mon.state("device", kind, dev.dw_min_dtod_log_normal, ud, corrupt)


def s_events(rng, mon):
    """Diffusion, reset and write noise events."""
    what = rng.choice(["diffusion", "reset", "write_noise", "reset_prob"])
    dev = gen.no_dtod(D.ConstantStepDevice(w_min=-3, w_max=3)) if what != "write_noise" or gen.coin(rng) else \
        gen.no_dtod(D.LinearStepDevice(w_min=-3, w_max=3, gamma_up=0.1, gamma_down=0.1))
    if what == "write_noise" and isinstance(dev, D.ConstantStepDevice):
        dev = gen.no_dtod(D.SoftBoundsReferenceDevice(w_min=-3, w_max=3)) if gen.coin(rng) else \
            gen.no_dtod(D.ExpStepDevice(w_min=-3, w_max=3))
    dev.up_down = 0.0
    dev.dw_min = 0.01
    o, i = 23, 29
    W = rand_mat(rng, o, i, 0.5)
    prob = 1.0
    if what == "diffusion":
        dev.diffusion = gen.logu(rng, 1e-3, 0.2)
        sd = dev.diffusion
    elif what == "reset":
        dev.reset, dev.reset_std = gen.u(rng, -0.3, 0.3), gen.logu(rng, 1e-3, 0.2)
        sd = dev.reset_std
    elif what == "reset_prob":
        dev.reset, dev.reset_std = 0.4, 0.0
        prob = gen.u(rng, 0.1, 0.9)
    else:
        if not hasattr(dev, "write_noise_std"):
            raise Skip()
        dev.write_noise_std = gen.u(rng, 0.3, 10)
        dev.apply_write_noise_on_set = True
        sd = dev.write_noise_std * dev.dw_min
    cfg = SingleRPUConfig(device=dev)
    cfg.mapping.weight_scaling_omega = 0.0
    tile = cfg.tile_class(o, i, cfg, bias=False)
    col, ncol = (rng.randint(0, i - 1), rng.randint(1, i)) if what.startswith("reset") else (0, i)
    touched = np.zeros((o, i), bool)
    for c in range(ncol):
        touched[:, (col + c) % i] = True
    Wd = W.double().numpy()

    def draw(n):
        out = []
        for _ in range(n):
            tile.tile.set_weights(W)
            if what == "diffusion":
                tile.diffuse_weights()
            elif what.startswith("reset"):
                tile.reset_columns(col, ncol, prob)
            w = tile.tile.get_weights().double().numpy()
            mon.check(np.allclose(w[~touched], Wd[~touched], atol=1e-6), f"event_extent:{what}",
                      "weights outside of the columns changed")
            out.append(w)
        return np.stack(out)

    def stats(S):
        if what == "reset_prob":
            hit = np.abs(S - dev.reset) < 1e-6
            leg = hit | (np.abs(S - Wd) < 1e-6)
            z = {"legal": 0.0 if leg.all() else 99.0}
            h = hit[:, touched].astype(float)
            u = (h - prob) / np.sqrt(prob * (1 - prob))
            z.update(pool_stats(u, gauss=False))
            return z
        base = dev.reset if what == "reset" else Wd
        u = ((S - base) / sd)[:, touched]
        z = pool_stats(u)
        # the same cell in consecutive events
        z["again"] = (u[1:] * u[:-1]).mean() / np.sqrt(1 / u[1:].size + 1 / 32768)
        return z
    two_stage(mon, f"event:{what}:{type(dev).__name__}", draw, 25, stats, f"{what} {prob:.2f}")
    mon.obs("reset" if what.startswith("reset") else what)
    mon.state("event", what, type(dev).__name__, ncol == i)


# ------------------------------------------------------------------ modifiers
def folded_ok(S, w, sig):
    return S ** 2 - w ** 2 - sig ** 2


def s_modifier(rng, mon):
    torch_ = gen.coin(rng, 0.45)
    types = [WM.MULT_NORMAL, WM.ADD_NORMAL, WM.DISCRETIZE]
    if not torch_:
        types += [WM.POLY, WM.PROG_NOISE, WM.DISCRETIZE_ADD_NORMAL, WM.DOREFA, WM.DROP_CONNECT]
    t = rng.choice(types)
    m = WeightModifierParameter(type=t)
    m.std_dev = gen.logu(rng, 0.01, 0.3)
    m.rel_to_actual_wmax = gen.coin(rng)
    m.assumed_wmax = rng.choice([1.0, 0.5, 2.0])
    m.res = rng.choice([0.1, 0.25, 1 / 14])
    if t in (WM.DISCRETIZE, WM.DISCRETIZE_ADD_NORMAL, WM.DOREFA):
        m.sto_round = True
    if not torch_:
        if gen.coin(rng, 0.25) or t == WM.DROP_CONNECT:
            m.pdrop = gen.u(rng, 0.05, 0.6)
        m.copy_last_column = gen.coin(rng, 0.25)
    else:
        m.per_batch_sample = gen.coin(rng)
    if gen.coin(rng, 0.3):
        m.coeffs = [gen.u(rng, 0.05, 0.5), gen.u(rng, 0, 0.5)] + ([gen.u(rng, 0, 0.3)] if gen.coin(rng) else [])
    m.g_max = rng.choice([25.0, 1.0, 10.0])
    o, i = rng.choice([(13, 17), (1, 9), (7, 1), (5, 31)])
    a = rng.choice([0.2, 0.7, 1.0])
    W = rand_mat(rng, o, i, a)
    if t == WM.DOREFA:
        W = rand_mat(rng, o, i, 0.8)
    Wd = W.double().numpy()
    body = np.ones((o, i), bool)
    if m.copy_last_column:
        body[:, -1] = False
    if not body.any():
        raise Skip()
    amax = np.abs(Wd[body]).max() if m.rel_to_actual_wmax else m.assumed_wmax
    if torch_:
        def one(k):
            if m.per_batch_sample:
                r = TorchSimulatorTile.modify_weight(W.clone(), m, k)
                mon.check(tuple(r.shape) == (k, o, i), "modifier:torch:per_batch_shape",
                          f"{t.name}: {tuple(r.shape)} for batch {k}")
                return r.double().numpy().reshape(-1, o, i)
            return np.stack([TorchSimulatorTile.modify_weight(W, m, 4).double().numpy() for _ in range(k)])
    else:
        cfg = InferenceRPUConfig(forward=IOParameters(is_perfect=True), modifier=m)
        cfg.mapping.weight_scaling_omega = 0.0
        cfg.drift_compensation = None
        tile = cfg.tile_class(o, i, cfg, bias=False)
        tile.tile.set_weights(W)
        bind = parameters_to_bindings(m, RPUDataType.FLOAT)
        eye = torch.eye(i)

        def one(k):
            r = []
            for q in range(k):
                if gen.coin(rng):
                    tile.post_update_step()
                else:
                    tile.tile.modify_weights(bind)
                r.append(tile.tile.forward(eye, False, False, False, False, False).t().double().numpy())
            return np.stack(r)
    mode = f"{t.name}{':drop' if m.pdrop > 0 else ''}{':keep_last' if m.copy_last_column else ''}"
    key = f"modifier:{'torch' if torch_ else 'compiled'}:{mode}"
    keep_w = W.clone()

    def draw(n):
        S = one(n)
        if m.copy_last_column:
            mon.check(np.allclose(S[:, :, -1], Wd[:, -1], atol=1e-6), key + ":last", "last column modified")
        return S

    def stats(S):
        S, w = S[:, body], Wd[body]
        z = {}
        if m.pdrop > 0:
            drop = (S == 0)
            p = m.pdrop
            add = {}
            if t not in (WM.DISCRETIZE, WM.DISCRETIZE_ADD_NORMAL, WM.DOREFA) or m.std_dev > 0 and t == WM.DISCRETIZE_ADD_NORMAL:
                add = pool_stats((drop - p) / np.sqrt(p * (1 - p)), gauss=False)
                z.update({"drop." + k: v for k, v in add.items()})
            if t == WM.DROP_CONNECT:
                z["kept"] = 0.0 if (drop | (np.abs(S - w) < 1e-6)).all() else 99.0
                return z
        else:
            drop = np.zeros(S.shape, bool)
        live = ~drop
        Wb = np.broadcast_to(w, S.shape)
        if t in (WM.MULT_NORMAL, WM.ADD_NORMAL, WM.POLY):
            if t == WM.MULT_NORMAL:
                sig = m.std_dev * amax * np.abs(w)
            elif t == WM.ADD_NORMAL:
                sig = np.full(w.shape, m.std_dev * amax)
            else:
                q = np.abs(w) / amax
                sig = amax * m.std_dev * sum(c * q ** k for k, c in enumerate(m.coeffs))
            ok = np.broadcast_to(np.abs(sig) > 3e-5 * np.abs(w).max(), S.shape) & live
            u = (S - Wb) / np.where(np.abs(sig) > 0, sig, 1.0)
            grp = np.broadcast_to((np.argsort(np.argsort(np.abs(w).ravel())).reshape(w.shape) * 4
                                   // max(1, w.size)), S.shape)
            z.update(pool_stats(u[ok], groups=grp[ok]))
            if m.pdrop == 0 and ok.all() and len(S) > 4:
                z["again"] = (u[1:] * u[:-1]).mean() / np.sqrt(1 / u[1:].size + 1 / 32768)
        elif t == WM.PROG_NOISE:
            q = np.abs(w) / amax
            sig = amax * m.std_dev / m.g_max * sum(c * q ** k for k, c in enumerate(m.coeffs))
            s = np.where(w < 0, -1.0, 1.0)
            z["sign"] = 99.0 if (S * s < 0).any() else 0.0
            ok = np.broadcast_to(sig > 3e-5, S.shape) & live
            far = np.broadcast_to(np.abs(w) > 6 * sig, S.shape) & ok
            if far.sum() > 200:
                u = (S - Wb) / np.where(sig > 0, sig, 1)
                z.update(pool_stats(u[far]))
            if ok.any():
                d = (S ** 2 - Wb ** 2 - sig ** 2)
                v = 2 * sig ** 4 + 4 * w ** 2 * sig ** 2
                n = ok.sum()
                z["second"] = (d / np.sqrt(np.where(v > 0, v, 1)))[ok].mean() / np.sqrt(1 / n + 1 / 32768)
        elif t in (WM.DISCRETIZE, WM.DOREFA, WM.DISCRETIZE_ADD_NORMAL):
            if t == WM.DOREFA:
                base = np.tanh(w) * abs(m.dorefa_clip / math.tanh(amax))
                unit = 1.0
            else:
                base, unit = w, amax
            step = m.res * unit * (2 if torch_ else 1)   # (factor: judged by P14)
            p = base / step - np.floor(base / step)
            v = p * (1 - p) * step ** 2
            if t == WM.DISCRETIZE_ADD_NORMAL:
                v = v + (m.std_dev * amax) ** 2
            else:
                k = S / step
                z["grid"] = 0.0 if ((np.abs(k - np.rint(k)) < 1e-3) & (np.abs(k - base / step) < 1.01)).all() \
                    or m.pdrop > 0 else 99.0
            ok = np.broadcast_to(v > 1e-3 * step ** 2, S.shape) & live
            if m.pdrop > 0 and t != WM.DISCRETIZE_ADD_NORMAL:
                return z     # dropped and rounded to zero look alike
            if ok.sum() > 100:
                z.update(pool_stats(((S - base) / np.sqrt(np.where(v > 0, v, 1)))[ok], gauss=False))
        return z
    n = max(20, 4000 // (o * i))
    two_stage(mon, key, draw, n, stats, f"{key} wmax={amax:.3f} rel={m.rel_to_actual_wmax} std={m.std_dev:.3f}")
    mon.check(torch.equal(W, keep_w), key + ":kept", "the weight itself was modified")
    if not torch_:
        mon.check(torch.allclose(tile.tile.get_weights(), keep_w, atol=1e-7), key + ":kept",
                  "the stored weights were modified")
    mon.obs("modifier")
    mon.state("modifier", torch_, mode, m.rel_to_actual_wmax, m.per_batch_sample)


SCENARIOS = [
    Scenario("mvm", s_mvm, quick=900, thorough=6000, min_evals=150),
    Scenario("zero", s_zero, quick=300, thorough=2000, min_evals=200),
    Scenario("sto", s_sto, quick=300, thorough=2000, min_evals=50),
    Scenario("lines", s_lines, quick=16, thorough=200, min_evals=12),
    Scenario("device", s_device, quick=160, thorough=1000, min_evals=60),
    Scenario("events", s_events, quick=150, thorough=800, min_evals=30),
    Scenario("modifier", s_modifier, quick=800, thorough=4000, min_evals=150),
]
