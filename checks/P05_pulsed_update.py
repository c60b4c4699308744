"""P05: pulsed updates move each crosspoint as the device model says.

Monitor: the weights and all device parameters of a compiled tile are read before and after
every update; an independent float64 model of pulse trains (lengths, probabilities, rounding)
and of the step of every device decides exactly (deterministic trains), pulse-by-pulse (the new
weight has to be a point of the crosspoint's own step trajectory) or statistically (mean,
variance and sharing of the stochastic trains).
"""
import copy
import math

import numpy as np
import torch

import gen
from pulse import granularity, trains, disc, tie, det_counts, step, width
from vh import Scenario, Skip
from aihwkit.simulator.configs import SingleRPUConfig
from aihwkit.simulator.configs import devices as D
from aihwkit.simulator.parameters import UpdateParameters, IOParameters
from aihwkit.simulator.parameters.enums import PulseType

PID = "P05"
RULE = ("one state per (device kind, pulse type, management flags, resolution, which signs, "
        "trajectory reached a bound)")
ASSUMPTIONS = ["pulse counters exist only on GPU and are not observed",
               "crosspoints whose ideal pulse count lies within 1e-3 of a rounding tie are not judged"]
REQUIRES = ("deterministic_pulses", "stochastic_pulses", "zero_signal", "mean_tested", "saturated",
            "write_noise_step", "batch")

DET = [PulseType.DETERMINISTIC_IMPLICIT, PulseType.MEAN_COUNT]
STO = [PulseType.STOCHASTIC_COMPRESSED, PulseType.STOCHASTIC]


def rand_up(rng, types):
    up = UpdateParameters()
    up.pulse_type = rng.choice(types)
    up.desired_bl = rng.choice([1, 2, 5, 7, 31, 63, 64, 65])
    up.fixed_bl = gen.coin(rng)
    up.update_management = gen.coin(rng)
    up.update_bl_management = gen.coin(rng)
    up.um_grad_scale = rng.choice([1.0, 1.0, 0.5, 2.0])
    if gen.coin(rng, 0.3):
        up.res = rng.choice([0.1, 0.01, 1 / 16, 16.0, 254.0])
    if gen.coin(rng, 0.3):
        up.x_res_implicit = rng.choice([0.1, 0.01, 10.0, 128.0])
    if gen.coin(rng, 0.3):
        up.d_res_implicit = rng.choice([0.1, 0.01, 10.0, 128.0])
    up.sto_round = gen.coin(rng, 0.3)
    return up


def hidden(tile):
    names = tile.tile.get_hidden_parameter_names()
    vals = tile.tile.get_hidden_parameters()
    return {n: vals[i].double().numpy().copy() for i, n in enumerate(names)}


def weights(tile):
    return tile.tile.get_weights().double().numpy().copy()


def rand_vec(rng, n, style):
    v = np.array([rng.gauss(0, 1) for _ in range(n)])
    if style == "sparse":
        v *= np.array([rng.random() < 0.5 for _ in range(n)])
    elif style == "tiny":
        v *= 1e-4
    elif style == "big":
        v *= 30
    elif style == "onehot":
        k = rng.randrange(n)
        v = np.where(np.arange(n) == k, v, 0.0)
    elif style == "zero":
        v *= 0
    elif style == "ones":
        v = np.sign(v)
    return v.astype(np.float32).astype(np.float64)


STYLES = ["normal", "normal", "sparse", "big", "tiny", "onehot", "ones"]


def make(rng, kind, types, write_noise=False, shape=None, sto=True):
    dev = gen.rand_device(rng, kind, write_noise=write_noise)
    dev.dw_min_std = 0.0
    for f in ("dw_min_std_add", "dw_min_std_slope"):
        if hasattr(dev, f):
            setattr(dev, f, 0.0)
    if kind == "ExpStep":
        dev.up_down = gen.u(rng, -0.2, 0.2)
        if gen.coin(rng, 0.5):
            dev.A_down, dev.A_up = gen.u(rng, 0.1, 1.0), gen.logu(rng, 5e-4, 5e-3)
            dev.gamma_up, dev.gamma_down = gen.u(rng, 5, 13), gen.u(rng, 5, 13)
    if kind == "PiecewiseStep" and gen.coin(rng, 0.15):
        dev.piecewise_up, dev.piecewise_down = [1.3], [0.8]
    up = rand_up(rng, types)
    up.sto_round = up.sto_round and sto
    cfg = SingleRPUConfig(device=dev, update=up, forward=IOParameters(is_perfect=True),
                          backward=IOParameters(is_perfect=True))
    o, i = shape or (rng.randint(1, 7), rng.randint(1, 9))
    tile = cfg.tile_class(o, i, cfg, bias=False)
    w = torch.tensor([[gen.u(rng, -1.2, 1.2) for _ in range(i)] for _ in range(o)])
    w *= rng.choice([0.1, 0.5, 1.0])
    tile.set_weights(w)
    return tile, dev, up, o, i


def extras_granularity(tile):
    ex = tile.tile.dump_extra()
    vals = [v for k, v in ex.items() if k.endswith("weight_granularity")]
    return float(np.asarray(vals[0]).ravel()[0]) if len(vals) == 1 else None


def feed(tile, x, d):
    tile.update(torch.tensor(x, dtype=torch.float32), torch.tensor(d, dtype=torch.float32))


# ------------------------------------------------------------------ deterministic trains
def run_det(rng, mon, kind, tile, dev, up, o, i, gran, lr):
    h = hidden(tile)
    for _ in range(rng.randint(1, 4)):
        batch = rng.choice([0, 1, 2, 4])
        nb = max(batch, 1)
        xs = [rand_vec(rng, i, rng.choice(STYLES + ["zero"])) for _ in range(nb)]
        ds = [rand_vec(rng, o, rng.choice(STYLES + ["zero"])) for _ in range(nb)]
        w = weights(tile)
        ref, amb, tot = w.copy(), np.zeros(w.shape, bool), np.zeros(w.shape)
        reached = False
        for x, d in zip(xs, ds):
            n, a, bl = det_counts(up, x, d, lr, gran)
            amb |= a
            for k in range(int(np.abs(n).max()) if n.size else 0):
                new = step(kind, dev, h, ref, n)
                ref = np.where(np.abs(n) > k, new, ref)
            tot += np.abs(n)
            reached |= bool(((ref == h["min_bound"]) | (ref == h["max_bound"])).any())
        if batch:
            feed(tile, np.stack(xs), np.stack(ds))
            mon.obs("batch")
        else:
            feed(tile, xs[0], ds[0])
        got = weights(tile)
        ok = ~amb
        tol = 3e-6 + tot * 3e-7
        bad = ok & ~(np.abs(got - ref) <= tol)
        key = f"det:{kind}:{up.pulse_type.name}"
        mon.check(not bad.any(), key, lambda: (
            f"weights {got[bad][:3]} expected {ref[bad][:3]} from {w[bad][:3]} with "
            f"{tot[bad][:3]} pulses; lr {lr} {up}"))
        still = (tot == 0) & ok
        mon.check((got[still] == w[still]).all(), key + ":unmoved", "crosspoint without pulses moved")
        mon.obs("deterministic_pulses", int(tot[ok].sum()))
        mon.obs("zero_signal", int(still.sum()))
        mon.state(kind, up.pulse_type.name, up.update_management, up.update_bl_management,
                  up.fixed_bl, up.res > 0, bool(reached), batch > 0)
        h2 = hidden(tile)
        mon.check(all((h2[k] == h[k]).all() for k in h if k != "persistent_weights"),
                  f"det:params:{kind}", "device parameters changed by an update")
    mon.sample({"kind": kind, "pulse": up.pulse_type.name, "lr": lr})


def s_deterministic(rng, mon):
    kind = rng.choice(gen.DEVICE_KINDS)
    tile, dev, up, o, i = make(rng, kind, DET, sto=False)
    gran = granularity(kind, dev)
    eg = extras_granularity(tile)
    if gran is None:
        gran = eg
    elif eg is not None:
        mon.close(eg, gran, f"granularity:{kind}", rtol=1e-4, atol=1e-9, msg="weight granularity")
    lr = gen.logu(rng, 1e-3, 1.0)
    tile.set_learning_rate(lr)
    run_det(rng, mon, kind, tile, dev, up, o, i, gran, lr)


# ------------------------------------------------------------------ stochastic trains
def s_trajectory(rng, mon):
    kind = rng.choice(gen.DEVICE_KINDS)
    wn = gen.coin(rng, 0.2)
    tile, dev, up, o, i = make(rng, kind, STO, write_noise=wn)
    wn = getattr(dev, "write_noise_std", 0.0) > 0 and "persistent_weights" in hidden(tile)
    gran = extras_granularity(tile)
    if gran is None:
        gran = granularity(kind, dev)
    lr = gen.logu(rng, 1e-3, 1.0)
    tile.set_learning_rate(lr)
    h = hidden(tile)
    std = getattr(dev, "write_noise_std", 0.0) * (
        gran if kind == "SoftBoundsPmax" else dev.dw_min)
    for _ in range(rng.randint(1, 4)):
        x, d = rand_vec(rng, i, rng.choice(STYLES)), rand_vec(rng, o, rng.choice(STYLES))
        bl, a, b = trains(up, x, d, lr, gran)
        vis = weights(tile)
        w = hidden(tile)["persistent_weights"] if wn else vis
        feed(tile, x, d)
        vis2 = weights(tile)
        got = hidden(tile)["persistent_weights"] if wn else vis2
        sign = np.outer(np.sign(d), np.sign(x)) * (1 if lr > 0 else -1)
        px, pd = np.abs(x) * b, np.abs(d) * a
        tx, td = tie(px, up.res), tie(pd, up.res)
        key = f"sto:{kind}:{up.pulse_type.name}"
        # crosspoints without signal
        zero = sign == 0
        if not up.sto_round and up.res > 0:
            zx, zd = (disc(px, up.res) == 0) & ~tx, (disc(pd, up.res) == 0) & ~td
            zero = zero | zx[None, :] | zd[:, None]
        if bl == 0:
            zero = np.ones_like(zero)
        mon.check((got[zero] == w[zero]).all() and (vis2[zero] == vis[zero]).all(), key + ":zero",
                  "crosspoint without signal moved")
        mon.obs("zero_signal", int(zero.sum()))
        # the reached weight lies on the trajectory of at most BL steps
        best = np.abs(got - w)
        cnt = np.zeros(w.shape, int)
        ref = w.copy()
        moved_any = np.zeros(w.shape, bool)
        reached = False
        for k in range(1, bl + 1):
            ref = np.where(sign == 0, ref, step(kind, dev, h, ref, sign))
            e = np.abs(got - ref) - k * 3e-7
            closer = e < best - 1e-12
            best = np.where(closer, e, best)
            cnt = np.where(closer, k, cnt)
        bad = ~(best <= 3e-6)
        mon.check(not bad.any(), key + ":trajectory", lambda: (
            f"{got[bad][:3]} is not reached from {w[bad][:3]} with <= {bl} pulses "
            f"(after BL: {ref[bad][:3]}); {up} lr {lr}"))
        # both trains always on: every slot is a coincidence
        if bl and not up.sto_round:
            qx, qd = disc(px, up.res), disc(pd, up.res)
            sat = (sign != 0) & ((qd >= 1.0 + 1e-5)[:, None] & (qx >= 1.0 + 1e-5)[None, :])
            sat &= ~(tx[None, :] | td[:, None])
            tol = 3e-6 + bl * 3e-7
            mon.check((np.abs(got - ref)[sat] <= tol).all(), key + ":saturated", lambda: (
                f"saturated signals did not give {bl} pulses: {got[sat][:3]} vs {ref[sat][:3]}"))
            mon.obs("saturated", int(sat.sum()))
        mon.obs("stochastic_pulses", int(cnt.sum()))
        if wn:
            moved = got != w
            z = (vis2 - got)[moved] / std
            mon.check((np.abs(z) < 7).all(), key + ":write_noise",
                      f"visible weight too far from the persistent one: {z}")
            mon.obs("write_noise_step", int(moved.sum()))
        mon.state(kind, up.pulse_type.name, up.update_management, up.update_bl_management,
                  up.res > 0, up.sto_round, lr > 0, int(cnt.max()) if cnt.size else 0, wn)


def s_statistics(rng, mon):
    """Mean, variance and sharing of the trains on a linear device well inside its range."""
    dev = D.ConstantStepDevice()
    gen.no_dtod(dev)
    dev.dw_min = gen.logu(rng, 1e-4, 1e-3)
    dev.up_down = 0.0
    dev.w_max, dev.w_min = 100.0, -100.0
    if gen.coin(rng, 0.3):
        dev.dw_min_std = 0.3
    up = rand_up(rng, STO)
    up.um_grad_scale = 1.0
    up.desired_bl = rng.choice([5, 31, 63])
    up.sto_round = up.res > 0 and gen.coin(rng)
    cfg = SingleRPUConfig(device=dev, update=up)
    o, i = rng.randint(2, 5), rng.randint(2, 6)
    tile = cfg.tile_class(o, i, cfg, bias=False)
    tile.set_weights(torch.zeros(o, i))
    x = rand_vec(rng, i, rng.choice(["normal", "sparse", "ones"]))
    d = rand_vec(rng, o, rng.choice(["normal", "sparse"]))
    lr = gen.logu(rng, 0.1, 3.0) * dev.dw_min * up.desired_bl
    tile.set_learning_rate(lr)
    bl, a, b = trains(up, x, d, lr, dev.dw_min)
    px, pd = np.abs(x) * b, np.abs(d) * a
    if bl == 0:
        raise Skip()
    if not up.sto_round and (tie(px, up.res).any() or tie(pd, up.res).any()):
        raise Skip()
    reps = 300

    def qmean(p):
        """Mean and second moment (over the rounding) of the probability that a bit is set."""
        if up.sto_round:
            r = width(up.res)
            f = np.floor(p / r)
            fr = p / r - f
            lo, hi = np.minimum(f * r, 1), np.minimum((f + 1) * r, 1)
            return lo * (1 - fr) + hi * fr, lo ** 2 * (1 - fr) + hi ** 2 * fr
        q = np.minimum(disc(p, up.res), 1)
        return q, q ** 2
    mx, sx = qmean(px)
    md, sd = qmean(pd)
    sign = -np.outer(np.sign(d), np.sign(x)) * (1 if lr > 0 else -1)
    counts = np.zeros((reps, o, i))
    zeros = torch.zeros(o, i)
    for r in range(reps):
        tile.tile.set_weights(zeros)
        feed(tile, x, d)
        counts[r] = weights(tile) / dev.dw_min
    key = f"stats:{up.pulse_type.name}:{'sr' if up.sto_round else 'det'}"
    mean = np.outer(md, mx) * bl
    second = np.outer(sd, sx)
    # var(n) = E[var|q] + var(E|q), bits iid given the rounded probabilities
    var = bl * (np.outer(md, mx) - second) + bl ** 2 * (second - np.outer(md, mx) ** 2)
    var = var + dev.dw_min_std ** 2 * mean
    err = np.abs(counts.mean(0) * sign - mean * (sign != 0))
    se = np.sqrt(np.maximum(var, 0) / reps) + 1e-3 * (1 + mean)
    z = err / se
    mon.check((z < 6.5).all(), key + ":mean", lambda: (
        f"mean pulses {counts.mean(0).ravel()[:4]} expected {(mean * sign).ravel()[:4]} z {z.max():.1f} "
        f"{up} lr {lr}"))
    mon.obs("mean_tested", int((mean > 0).sum()))
    grows = not (up.fixed_bl or up.update_bl_management) and up.desired_bl * dev.dw_min < lr
    if (px <= 1).all() and (pd <= 1).all() and (up.res <= 0 or up.sto_round) and not grows:
        # unsaturated (and the train length not rounded up to whole pulses): the expected change is the plain outer product
        full = np.abs(np.outer(d, x)) * abs(lr) / dev.dw_min
        mon.check((np.abs(mean - full) <= 1e-3 * full + 1e-9).all(), key + ":sgd",
                  "expected pulse number is not lr * outer product")
        mon.obs("sgd_mean")
    # variance (4th moment bound by sampling theory of nearly Gaussian counts)
    big = mean > 1.0
    if big.any() and not up.sto_round:
        v = counts.var(0, ddof=1)
        lim = var * 7 * np.sqrt(2.5 / reps + 1 / np.maximum(reps * var, 1e-9)) + 5e-3
        bad = big & (np.abs(v - var) > lim)
        mon.check(not bad.any(), key + ":variance", lambda: f"variance {v[bad]} expected {var[bad]}")
        # trains of a column are shared by the rows: cov(n_ij, n_kj) = BL p_i p_k px (1 - px)
        for j in range(i):
            for r1 in range(o):
                for r2 in range(r1):
                    if min(mean[r1, j], mean[r2, j]) < 0.5:
                        continue
                    c = np.cov(counts[:, r1, j] * sign[r1, j], counts[:, r2, j] * sign[r2, j])[0, 1]
                    exp = bl * md[r1] * md[r2] * mx[j] * (1 - mx[j])
                    se = math.sqrt((var[r1, j] * var[r2, j] + exp ** 2) / reps)
                    mon.check(abs(c - exp) < 7.5 * se + 5e-3, key + ":shared",
                              lambda: f"covariance {c} expected {exp} se {se}")
                    mon.obs("shared_trains")
    # successive updates are independent
    f = counts - counts.mean(0)
    den = (f ** 2).mean(0)
    # (the estimate is only near normal when enough updates differ from the usual number)
    odd = (np.abs(counts - np.median(counts, axis=0)) > 0.25).sum(0)
    ok = (den > 1e-3) & (odd >= 60)
    if ok.any():
        ac = (f[1:] * f[:-1]).mean(0)[ok] / den[ok]
        mon.check((np.abs(ac) < 7 / math.sqrt(reps)).all(), key + ":serial", f"autocorrelation {ac}")
    mon.state(up.pulse_type.name, up.update_management, up.update_bl_management, up.fixed_bl,
              up.res > 0, up.sto_round, lr > 0, dev.dw_min_std > 0)


def s_modes(rng, mon):
    """Batch = sequence of vectors, transposed layouts, lr 0 and NONE_WITH_DEVICE."""
    kind = rng.choice(gen.DEVICE_KINDS)
    tile, dev, up, o, i = make(rng, kind, DET + [PulseType.NONE_WITH_DEVICE, PulseType.NONE],
                               sto=False)
    lr = gen.logu(rng, 1e-3, 0.3)
    tile.set_learning_rate(lr)
    w0 = tile.tile.get_weights()
    nb = rng.randint(1, 4)
    x = torch.tensor(np.stack([rand_vec(rng, i, "normal") for _ in range(nb)]), dtype=torch.float32)
    d = torch.tensor(np.stack([rand_vec(rng, o, "normal") for _ in range(nb)]), dtype=torch.float32)
    twin = copy.deepcopy(tile)
    for b in range(nb):
        twin.update(x[b], d[b])
    mode = rng.choice(["plain", "x_trans", "d_trans", "both", "strided"])
    if mode == "plain":
        tile.update(x, d)
    elif mode == "strided":
        xx = torch.zeros(nb, 2 * i)
        xx[:, ::2] = x
        tile.update(xx[:, ::2], d.t().contiguous().t())
    else:
        tx, td = mode in ("x_trans", "both"), mode in ("d_trans", "both")
        tile.tile.update(x.t().contiguous() if tx else x, d.t().contiguous() if td else d, False,
                         tx, td)
    key = f"modes:{mode}:{up.pulse_type.name}"
    mon.close(tile.tile.get_weights(), twin.tile.get_weights(), key + ":sequence", atol=1e-6, rtol=0,
              msg=f"{kind} batch update differs from vector updates")
    mon.obs("batch")
    if up.pulse_type in (PulseType.NONE, PulseType.NONE_WITH_DEVICE):
        ref = w0.double().numpy()
        if up.pulse_type == PulseType.NONE_WITH_DEVICE:
            h = hidden(tile)
            lo, hi = h["min_bound"], h["max_bound"]
        for b in range(nb):
            ref = ref - lr * np.outer(d[b].double().numpy(), x[b].double().numpy())
            if up.pulse_type == PulseType.NONE_WITH_DEVICE:
                ref = np.clip(ref, lo, hi)
        mon.close(twin.tile.get_weights(), torch.tensor(ref), key + ":float", atol=1e-5, rtol=1e-5,
                  msg=f"{kind} float update")
    before = tile.tile.get_weights().clone()
    tile.set_learning_rate(0.0)
    tile.update(x, d)
    mon.check(torch.equal(tile.tile.get_weights(), before), key + ":lr0", "lr 0 changed the weights")
    mon.check(torch.equal(tile.tile.get_weights(), before), key + ":read", "")
    mon.state(kind, mode, up.pulse_type.name, nb > 1)


SCENARIOS = [
    Scenario("deterministic", s_deterministic, quick=3000, thorough=60000),
    Scenario("trajectory", s_trajectory, quick=3000, thorough=60000),
    Scenario("statistics", s_statistics, quick=700, thorough=15000),
    Scenario("modes", s_modes, quick=800, thorough=15000),
]
