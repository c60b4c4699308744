"""P16: compound devices keep the weight equal to the combination of their hidden weights.

Monitor: visible weight, all hidden weights, buffers, choppers and counters are read out after
every operation. Invariant: the visible weight is the documented combination. For deterministic
pulse trains an independent float64 model predicts every hidden weight and buffer after each
update: which device is updated, when a transfer happens, which slice is read, what is
buffered, written, reset and chopped.
"""
import copy
import math
import pickle

import numpy as np
import torch

import gen
from pulse import det_counts, step, granularity
from vh import Scenario, Skip
from aihwkit.simulator.configs import UnitCellRPUConfig, DigitalRankUpdateRPUConfig
from aihwkit.simulator.configs import devices as D
from aihwkit.simulator.configs import compounds as C
from aihwkit.simulator.parameters import UpdateParameters, IOParameters, WeightClipParameter
from aihwkit.simulator.parameters.helpers import parameters_to_bindings
from aihwkit.simulator.parameters.enums import (
    PulseType, RPUDataType, VectorUnitCellUpdatePolicy, WeightClipType, BoundManagementType,
    NoiseManagementType)

PID = "P16"
RULE = ("one state per (compound kind, operation or transfer situation, shape class, settings that "
        "select another code path)")
ASSUMPTIONS = ["updates whose pulse number or buffer threshold lies within 1e-4 of a tie are not judged",
               "random choppers, rows and device choices are taken from the device state, their "
               "frequency is not judged"]
REQUIRES = ("combination", "transfer_event", "no_transfer_event", "buffer_write", "chop_flip",
            "policy_update", "onesided_refresh", "chi_update", "reset_event", "hidden_set")


def extras(tile):
    return {k: np.asarray(v) for k, v in tile.tile.dump_extra().items()}


def find(ex, suffix):
    vals = [v for k, v in ex.items() if k.endswith(suffix)]
    return vals[0] if len(vals) == 1 else None


def hidden(tile):
    names = tile.tile.get_hidden_parameter_names()
    vals = tile.tile.get_hidden_parameters()
    return {n: vals[i].double().numpy().copy() for i, n in enumerate(names)}


def weights(tile):
    return tile.tile.get_weights().double().numpy().copy()


def dev_params(h, k):
    return {n[:-len(f"_{k}")]: v for n, v in h.items()
            if n.endswith(f"_{k}") and not n.startswith(("hidden_weights", "buffered"))}


def perfect():
    return IOParameters(is_perfect=True, bound_management=BoundManagementType.NONE,
                        noise_management=NoiseManagementType.NONE)


def rand_w(rng, o, i, a=0.5):
    return torch.tensor([[gen.u(rng, -a, a) for _ in range(i)] for _ in range(o)])


# ------------------------------------------------------------------ combination
def combine(cfg_dev, tile, h):
    """Documented combination of the hidden weights, None if there is none."""
    if isinstance(cfg_dev, C.MixedPrecisionCompound):
        return None
    n = sum(k.startswith("hidden_weights_") for k in h)
    hw = [h[f"hidden_weights_{k}"] for k in range(n)]
    if isinstance(cfg_dev, C.OneSidedUnitCell):
        g = find(extras(tile), "reduce_weightening").ravel()
        if sorted(g.tolist()) != [-1.0, 1.0]:
            return None
        return g[0] * hw[0] + g[1] * hw[1]
    if isinstance(cfg_dev, C.TransferCompound):
        gv = list(cfg_dev.gamma_vec) or [cfg_dev.gamma ** (n - 1 - k) for k in range(n)]
        if isinstance(cfg_dev, C.ChoppedTransferCompound) and gv[0]:
            ex = extras(tile)
            ic = find(ex, "in_chopper").ravel().astype(bool)
            oc = find(ex, "out_chopper").ravel().astype(bool)
            d, x = (oc, ic) if cfg_dev.transfer_columns else (ic, oc)
            sign = np.where(d[:, None] != x[None, :], -1.0, 1.0)
            return gv[0] * sign * hw[0] + sum(g * w for g, w in zip(gv[1:], hw[1:]))
        return sum(g * w for g, w in zip(gv, hw))
    gv = list(getattr(cfg_dev, "gamma_vec", [])) or [1.0 / n] * n
    return sum(g * w for g, w in zip(gv, hw))


def rand_cell(rng):
    kind = rng.choice(gen.COMPOUND_KINDS + ["Chopped_gamma", "Transfer3", "Dynamic_gamma"])
    if kind == "Chopped_gamma":
        c = gen.rand_compound(rng, "ChoppedTransfer")
        c.gamma = gen.u(rng, 0.1, 0.9)
        c.in_chop_prob, c.out_chop_prob = rng.choice([0.0, 0.5, 1.0]), rng.choice([0.0, 0.5])
        c.in_chop_random = gen.coin(rng)
    elif kind == "Dynamic_gamma":
        c = gen.rand_compound(rng, "DynamicTransfer")
        c.gamma = gen.u(rng, 0.1, 0.9)
        c.in_chop_prob = rng.choice([0.3, 1.0])
    elif kind == "Transfer3":
        dv = gen.rand_device(rng, "SoftBounds")
        c = C.TransferCompound(unit_cell_devices=[gen.rand_device(rng, "ConstantStep"), dv,
                                                  copy.deepcopy(dv)],
                               gamma=rng.choice([0.0, 0.4]), transfer_every=rng.choice([1.0, 2.0]),
                               units_in_mbatch=gen.coin(rng))
    else:
        c = gen.rand_compound(rng, kind)
    return kind, c


def s_combination(rng, mon):
    kind, dev = rand_cell(rng)
    # sub-devices that decay, diffuse and reset
    for d in getattr(dev, "unit_cell_devices", []) or [dev.device]:
        if gen.coin(rng, 0.5):
            d.lifetime, d.diffusion, d.reset_std = gen.u(rng, 5, 50), 0.01, 0.01
    cfg = gen.wrap_device(dev)
    cfg.update.pulse_type = rng.choice([PulseType.STOCHASTIC_COMPRESSED, PulseType.STOCHASTIC,
                                        PulseType.DETERMINISTIC_IMPLICIT, PulseType.MEAN_COUNT])
    cfg.update.desired_bl = rng.choice([5, 31])
    o, i = rng.randint(1, 6), rng.randint(1, 7)
    tile = cfg.tile_class(o, i, cfg, bias=False)
    tile.set_learning_rate(gen.logu(rng, 0.01, 0.5))
    tile.set_weights(rand_w(rng, o, i))

    def judge(op):
        h = hidden(tile)
        ref = combine(dev, tile, h)
        w = weights(tile)
        mon.check(np.isfinite(w).all() and all(np.isfinite(v).all() for v in h.values()),
                  f"combination:finite:{kind}:{op}", "non-finite state")
        if ref is not None:
            mon.close(torch.tensor(w), torch.tensor(ref), f"combination:{kind}:{op}", atol=3e-6,
                      rtol=3e-6, msg="visible weight vs hidden weights")
            mon.obs("combination")
        mon.state(kind, op, o == i, o > i, cfg.update.pulse_type.name,
                  getattr(dev, "transfer_columns", None))
        return h
    judge("set")
    ops = ["update", "update", "update", "set", "decay", "diffuse", "clip", "hidden", "copy",
           "pickle", "reset", "state", "forward"]
    for _ in range(rng.randint(2, 8)):
        op = rng.choice(ops)
        if op == "update":
            for _ in range(rng.randint(1, 5)):
                nb = rng.randint(1, 3)
                tile.update(torch.randn(nb, i), torch.randn(nb, o))
        elif op == "set":
            tile.set_weights(rand_w(rng, o, i, 0.3))
        elif op == "decay":
            tile.decay_weights(rng.choice([1.0, 0.5]))
        elif op == "diffuse":
            tile.diffuse_weights()
        elif op == "clip":
            tile.tile.clip_weights(parameters_to_bindings(
                WeightClipParameter(type=WeightClipType.FIXED_VALUE, fixed_value=gen.u(rng, 0.05, 0.5)),
                RPUDataType.FLOAT))
        elif op == "hidden":
            h = tile.get_hidden_parameters()
            for n in h:
                if n.startswith("hidden_weights") and n != "hidden_weights_chi" and gen.coin(rng):
                    h[n] = h[n] * 0.5
            want = {n: v.clone() for n, v in h.items()}
            tile.set_hidden_parameters(h)
            got = tile.get_hidden_parameters()
            for n in want:
                ref = want[n]
                k = n.rsplit("_", 1)[-1]
                if n.startswith("hidden_weights") and f"max_bound_{k}" in want:
                    # a cell does not leave its bounds
                    cut = torch.minimum(torch.maximum(ref, want[f"min_bound_{k}"]), want[f"max_bound_{k}"])
                    ref = torch.where(torch.isclose(got[n], cut, atol=1e-6), cut, ref)
                mon.close(got[n], ref, f"hidden_set:{kind}:{n.rstrip('_0123456789')}", atol=1e-6,
                          rtol=1e-6, msg="hidden parameter written and read")
            mon.obs("hidden_set")
        elif op == "copy":
            tile = copy.deepcopy(tile)
        elif op == "pickle":
            tile = pickle.loads(pickle.dumps(tile))
        elif op == "reset":
            tile.reset_columns(0, rng.randint(1, i), rng.choice([0.5, 1.0]))
        elif op == "state":
            twin = cfg.tile_class(o, i, cfg, bias=False)
            torch.nn.ModuleList([twin]).load_state_dict(torch.nn.ModuleList([tile]).state_dict())
            tile = twin
        elif op == "forward":
            before = weights(tile)
            tile.forward(torch.randn(2, i))
            mon.check((weights(tile) == before).all(), f"combination:forward:{kind}", "forward moved")
        judge(op)


# ------------------------------------------------------------------ step devices for the models
def det_device(rng, soft=None):
    soft = gen.coin(rng) if soft is None else soft
    d = (D.SoftBoundsDevice if soft else D.ConstantStepDevice)()
    gen.no_dtod(d)
    d.dw_min = gen.logu(rng, 2e-3, 3e-2)
    d.w_max, d.w_min = gen.u(rng, 0.4, 1.0), -gen.u(rng, 0.4, 1.0)
    d.up_down = rng.choice([0.0, 0.1, -0.1])
    if gen.coin(rng, 0.5):
        d.dw_min_dtod, d.w_max_dtod, d.w_min_dtod = 0.2, 0.2, 0.2
    return d, ("SoftBounds" if soft else "ConstantStep")


def det_update(rng):
    up = UpdateParameters()
    up.pulse_type = rng.choice([PulseType.DETERMINISTIC_IMPLICIT, PulseType.MEAN_COUNT])
    up.desired_bl = rng.choice([5, 31, 63])
    up.update_management = gen.coin(rng)
    up.update_bl_management = gen.coin(rng)
    up.fixed_bl = gen.coin(rng)
    return up


class Tie(Exception):
    pass


def apply_pulses(kind, cfg, par, w, x, d, lr, up, gran):
    """Deterministic pulsed update of one device array."""
    if lr == 0:
        return w
    try:
        n, amb, _ = det_counts(up, x, d, lr, gran)
    except Skip:
        raise Tie()
    if amb.any():
        raise Tie()
    for k in range(int(np.abs(n).max()) if n.size else 0):
        w = np.where(np.abs(n) > k, step(kind, cfg, par, w, n), w)
    return w


def onehot(k, n):
    v = np.zeros(n)
    v[k] = 1.0
    return v


# ------------------------------------------------------------------ vector policies
def s_policy(rng, mon):
    n = rng.choice([2, 3])
    soft = gen.coin(rng)
    devs, kinds = zip(*[det_device(rng, soft) for _ in range(n)])
    policy = rng.choice([VectorUnitCellUpdatePolicy.ALL, VectorUnitCellUpdatePolicy.SINGLE_FIXED,
                         VectorUnitCellUpdatePolicy.SINGLE_SEQUENTIAL,
                         VectorUnitCellUpdatePolicy.SINGLE_RANDOM])
    first = rng.randrange(n)
    dev = C.VectorUnitCell(unit_cell_devices=list(devs), update_policy=policy,
                           first_update_idx=first,
                           gamma_vec=[gen.u(rng, 0.2, 1) for _ in range(n)] if gen.coin(rng) else [])
    up = det_update(rng)
    cfg = UnitCellRPUConfig(device=dev, update=up)
    o, i = rng.randint(1, 5), rng.randint(1, 6)
    tile = cfg.tile_class(o, i, cfg, bias=False)
    tile.set_weights(rand_w(rng, o, i, 0.3))
    lr = gen.logu(rng, 0.01, 0.3)
    tile.set_learning_rate(lr)
    gran = sum(granularity(k, d) for k, d in zip(kinds, devs)) / n
    idx = tile.tile.get_hidden_update_index()
    mon.check(idx == first, f"policy:first:{policy.name}", f"update index {idx}, configured {first}")
    seen = set()
    for t in range(rng.randint(2, 6)):
        if policy == VectorUnitCellUpdatePolicy.SINGLE_FIXED and gen.coin(rng, 0.3):
            idx = rng.randrange(n)
            tile.tile.set_hidden_update_index(idx)
            mon.check(tile.tile.get_hidden_update_index() == idx, "policy:set_index", "")
        h = hidden(tile)
        nb = rng.randint(1, 3)
        xs = np.array([[rng.gauss(0, 1) for _ in range(i)] for _ in range(nb)], dtype=np.float32)
        ds = np.array([[rng.gauss(0, 1) for _ in range(o)] for _ in range(nb)], dtype=np.float32)
        if policy == VectorUnitCellUpdatePolicy.SINGLE_RANDOM:
            xs, ds = xs[:1], ds[:1]
        tile.update(torch.tensor(xs), torch.tensor(ds))
        h2 = hidden(tile)
        new = tile.tile.get_hidden_update_index()
        hw = [h[f"hidden_weights_{k}"] for k in range(n)]
        try:
            cur = idx
            for x, d in zip(xs.astype(float), ds.astype(float)):
                if policy == VectorUnitCellUpdatePolicy.SINGLE_SEQUENTIAL:
                    cur = (cur + 1) % n
                elif policy == VectorUnitCellUpdatePolicy.SINGLE_RANDOM:
                    cur = new
                which = range(n) if policy == VectorUnitCellUpdatePolicy.ALL else [cur]
                for k in which:
                    hw[k] = apply_pulses(kinds[k], devs[k], dev_params(h, k), hw[k], x, d, lr, up, gran)
        except Tie:
            idx = new
            continue
        if policy != VectorUnitCellUpdatePolicy.ALL:
            mon.check(new == cur, f"policy:index:{policy.name}", f"device index {new} expected {cur}")
            seen.add(new)
        for k in range(n):
            mon.close(torch.tensor(h2[f"hidden_weights_{k}"]), torch.tensor(hw[k]),
                      f"policy:{policy.name}:{up.pulse_type.name}", atol=2e-5, rtol=0,
                      msg=f"hidden weight {k} (device index {cur})")
        mon.obs("policy_update")
        mon.state(policy.name, n, nb, up.pulse_type.name, kinds[0], cur, first)
        idx = new


def regran(kind, dev, h, k):
    """Granularity after hidden parameters were set: re-estimated (with a warning) when the given
    steps are not compatible with the settings."""
    g = granularity(kind, dev)
    mean = float((np.abs(h[f"dwmin_up_{k}"]) + np.abs(h[f"dwmin_down_{k}"])).mean() / 2)
    rel = abs(mean - g) / g
    if abs(rel - 2 * dev.dw_min_dtod) < 1e-4 and rel > 1e-4:
        raise Skip()
    return mean if rel > 2 * dev.dw_min_dtod else g


# ------------------------------------------------------------------ transfer family
def transfer_update(rng, family):
    if family == "Transfer":
        return det_update(rng)
    up = UpdateParameters(desired_bl=rng.choice([1, 1, 3, 10]), update_management=False,
                          update_bl_management=False,
                          pulse_type=rng.choice([PulseType.DETERMINISTIC_IMPLICIT,
                                                 PulseType.STOCHASTIC_COMPRESSED]))
    if up.pulse_type == PulseType.STOCHASTIC_COMPRESSED:
        up.desired_bl = 1
    return up


def make_transfer(rng):
    family = rng.choice(["Transfer", "Transfer", "BufferedTransfer", "ChoppedTransfer",
                         "DynamicTransfer"])
    n = 3 if family in ("Transfer", "BufferedTransfer") and gen.coin(rng, 0.25) else 2
    soft = gen.coin(rng)
    d0, k0 = det_device(rng)
    rest = [det_device(rng, soft)] * (n - 1)     # all but the fast one are specified by the second
    devs = [d0] + [r[0] for r in rest]
    kinds = [k0] + [r[1] for r in rest]
    kw = dict(unit_cell_devices=devs, transfer_forward=perfect(),
              transfer_update=transfer_update(rng, family),
              transfer_columns=gen.coin(rng),
              transfer_every=rng.choice([1.0, 1.0, 2.0, 3.0]),
              fast_lr=rng.choice([1.0, 0.5, 0.0]), transfer_lr=gen.u(rng, 0.3, 2.0),
              scale_transfer_lr=gen.coin(rng), scale_fast_lr=gen.coin(rng),
              units_in_mbatch=gen.coin(rng, 0.3))
    if family != "DynamicTransfer":
        kw["gamma"] = rng.choice([0.0, 0.0, 0.4])
    if family in ("Transfer", "BufferedTransfer"):
        kw["n_reads_per_transfer"] = rng.choice([1, 1, 2, 3])
        if gen.coin(rng, 0.2):
            kw["transfer_every_vec"] = [float(rng.randint(1, 3)) for _ in range(n - 1)] + [0.0]
        if gen.coin(rng, 0.2):
            kw["transfer_lr_vec"] = [gen.u(rng, 0.3, 2.0) for _ in range(n)]
    if family == "Transfer" and kw["transfer_columns"] and gen.coin(rng, 0.4):
        kw["with_reset_prob"] = 1.0
    if family == "BufferedTransfer":
        kw.update(thres_scale=rng.choice([1.0, 0.5, 2.0]), momentum=rng.choice([0.0, 0.1, 0.7]),
                  forget_buffer=gen.coin(rng))
    if family in ("ChoppedTransfer", "DynamicTransfer"):
        kw.update(momentum=rng.choice([0.0, 0.1, 0.7]), forget_buffer=gen.coin(rng),
                  buffer_granularity=rng.choice([1.0, 0.5, 0.1]),
                  auto_granularity=rng.choice([0.0, 5.0]),
                  correct_gradient_magnitudes=gen.coin(rng),
                  in_chop_prob=rng.choice([0.0, 0.25, 0.5, 1.0]),
                  auto_scale=gen.coin(rng, 0.3))
        if kw["auto_scale"]:
            kw["fast_lr"] = rng.choice([1.0, 0.1])
            kw["auto_momentum"] = rng.choice([0.9, 0.5])
        if family == "ChoppedTransfer":
            kw.update(in_chop_random=gen.coin(rng, 0.3), out_chop_prob=rng.choice([0.0, 1.0]),
                      no_buffer=gen.coin(rng, 0.15))
        else:
            kw.update(in_chop_random=False, buffer_cap=rng.choice([0.0, 0.3]),
                      tail_weightening=rng.choice([1.0, 5.0]),
                      experimental_correct_accumulation=gen.coin(rng, 0.2))
            kw["in_chop_prob"] = kw["in_chop_prob"] or 0.1
    dev = getattr(C, family + "Compound")(**kw)
    return family, dev, devs, kinds


class TransferModel:
    """Independent step model of the transfer family (hidden weights row-major [d][x])."""

    def __init__(self, mon, family, dev, devs, kinds, up, o, i):
        self.mon, self.family, self.p, self.devs, self.kinds, self.up = mon, family, dev, devs, kinds, up
        self.o, self.i, self.n = o, i, len(devs)
        self.in_size, self.out_size = (i, o) if dev.transfer_columns else (o, i)
        n_reads = min(dev.n_reads_per_transfer, self.in_size)
        self.n_reads = n_reads
        self.every = list(dev.transfer_every_vec)
        if not self.every:
            e = dev.transfer_every
            for _ in range(self.n):
                self.every.append(e)
                e *= self.out_size / n_reads
            if dev.no_self_transfer:
                self.every[-1] = 0
        self.lrs = list(dev.transfer_lr_vec) or [dev.transfer_lr] * self.n
        self.gran = [granularity(k, d) for k, d in zip(kinds, devs)]
        self.count = 0
        self.slice = [0] * self.n
        self.transfers = self.counter = 0
        self.in_chop = np.zeros(self.in_size, bool)
        self.out_chop = np.zeros(self.out_size, bool)
        self.switched = np.zeros(self.in_size, bool)
        self.mx = self.md = 0.0
        self.events = set()
        self.slack = 1e-4

    def load(self, h, w):
        self.h = h
        self.w = [h[f"hidden_weights_{k}"].copy() for k in range(self.n)]
        self.buf = {k: h[f"buffered_FP_weight_{k}"].copy() for k in range(self.n - 1)
                    if f"buffered_FP_weight_{k}" in h}
        if self.family == "DynamicTransfer":
            self.buf = {0: h["buffered_FP_weight"].copy()}
            self.mean, self.past = h["running_mean_weight"].copy(), h["past_mean_weight"].copy()
        self.par = [dev_params(h, k) for k in range(self.n)]

    def chop(self):
        return (self.out_chop[:, None] != self.in_chop[None, :]) if self.p.transfer_columns else \
            (self.in_chop[:, None] != self.out_chop[None, :])

    def ema(self, m, v, nb):
        if m <= 0:
            return v
        if v <= 0:
            return m
        tau = (1 - self.p.auto_momentum) / nb
        return (1 - tau) * m + tau * v

    def update(self, x, d, lr, nb):
        p = self.p
        if getattr(p, "auto_scale", False):
            self.mx = self.ema(self.mx, np.abs(x).max(), nb)
            self.md = self.ema(self.md, np.abs(d).max(), nb)
        fast = lr
        if p.fast_lr > 0:
            fast = p.fast_lr * (lr if p.scale_fast_lr else 1.0)
            if getattr(p, "auto_scale", False):
                fast *= self.up.desired_bl * self.gran[0]
                if self.mx > 0 and self.md > 0:
                    fast /= self.mx * self.md
        self.fast = fast
        if self.family in ("ChoppedTransfer", "DynamicTransfer"):
            # the fast device is updated in chopped form: flip the sign of the coincidences
            sx = np.where(self.in_chop, -1.0, 1.0)
            so = np.where(self.out_chop, -1.0, 1.0)
            cx, cd = (sx, so) if p.transfer_columns else (so, sx)
            self.w[0] = apply_pulses(self.kinds[0], self.devs[0], self.par[0], self.w[0], x * cx,
                                     d * cd, fast, self.up, self.gran[0])
        else:
            self.w[0] = apply_pulses(self.kinds[0], self.devs[0], self.par[0], self.w[0], x, d, fast,
                                     self.up, self.gran[0])
        self.count += 1
        did = False
        for j in range(self.n):
            e = math.ceil(np.float32(self.every[j]) * nb) if p.units_in_mbatch else \
                int(np.floor(self.every[j] + 0.5))
            if e > 0 and self.count % e == 0 and j + 1 < self.n:
                self.transfer(j, lr)
                did = True
        self.mon.obs("transfer_event" if did else "no_transfer_event")
        self.events.add(did)

    def transfer(self, j, lr):
        p = self.p
        tlr = self.lrs[j] * (lr if p.scale_transfer_lr else 1.0)
        if self.family in ("BufferedTransfer", "ChoppedTransfer") and p.gamma > 0:
            tlr *= p.gamma      # ratio of the contributions of the two devices
        s = self.slice[j]
        for r in range(self.n_reads):
            k = (s + r) % self.in_size
            if tlr != 0:
                getattr(self, "tr_" + self.family)(j, k, tlr)
        self.slice[j] = (s + self.n_reads) % self.in_size

    def sl(self, k):
        return (slice(None), k) if self.p.transfer_columns else (k, slice(None))

    def write(self, j, k, v, lr):
        """Pulsed write of v (decrease direction positive) to slice k of device j."""
        up = copy.copy(self.p.transfer_update)
        one = onehot(k, self.in_size)
        x, d = (one, v) if self.p.transfer_columns else (v, one)
        if up.pulse_type == PulseType.STOCHASTIC_COMPRESSED:
            up.pulse_type = PulseType.DETERMINISTIC_IMPLICIT     # BL 1 with probability 0 or 1
        self.w[j] = apply_pulses(self.kinds[j], self.devs[j], self.par[j], self.w[j], x, d, lr, up,
                                 self.gran[j])

    def tr_Transfer(self, j, k, tlr):
        val = self.w[j][self.sl(k)].copy()
        if self.p.with_reset_prob:
            bias = self.par[j]["reset_bias"][self.sl(k)]
            lo, hi = self.par[j]["min_bound"][self.sl(k)], self.par[j]["max_bound"][self.sl(k)]
            self.w[j][self.sl(k)] = np.clip(bias, lo, hi)
            self.mon.obs("reset_event")
            self.events.add("reset")
        self.write(j + 1, k, -val, tlr)

    def steps(self, q, cap, scale=1.0):
        # weights are known to about 1e-6 (float32), the buffer counts in units of 1 / scale
        self.tol = max(1e-4, 5e-6 * scale)
        self.slack = max(self.slack, self.tol)
        near = np.abs(q - np.rint(q)) < self.tol
        if near.any():
            if self.tol > 0.2:
                raise Tie()
            if (near & (np.abs(np.rint(q)) >= 1)).any():
                raise Tie()
        return np.clip(np.trunc(q), -cap, cap)

    def tr_BufferedTransfer(self, j, k, tlr):
        p = self.p
        g = self.gran[j + 1]
        bg = p.thres_scale * g
        om = self.buf[j][self.sl(k)] + self.w[j][self.sl(k)] * abs(tlr)
        n = self.steps(om / bg, p.transfer_update.desired_bl, abs(tlr) / bg)
        mo = min(max(p.momentum, 0), 1)
        new = np.where(n != 0, om * p.momentum if p.forget_buffer else om - (1 - mo) * n * bg, om)
        self.buf[j][self.sl(k)] = new
        if (n != 0).any():
            self.mon.obs("buffer_write")
            self.events.add("write")
            self.write(j + 1, k, -n, p.step * g)

    def lr_scale(self, tlr):
        p = self.p
        bg = p.buffer_granularity if p.buffer_granularity > 0 else 1.0
        if p.auto_granularity > 0:
            bg *= self.gran[0] * p.auto_granularity / (self.in_size * abs(p.transfer_every))
        else:
            bg *= self.gran[0]
        if p.correct_gradient_magnitudes:
            return abs(tlr) / self.fast / (bg * self.gran[1] / self.gran[0])
        return abs(tlr) / bg

    def tr_ChoppedTransfer(self, j, k, tlr):
        p = self.p
        scale = self.lr_scale(tlr)
        val = self.w[0][self.sl(k)] * scale
        val = np.where(self.in_chop[k] != self.out_chop, -val, val)
        om = val + (0.0 if p.no_buffer else self.buf[0][self.sl(k)])
        n = self.steps(om, p.transfer_update.desired_bl, scale)
        mo = min(max(p.momentum, 0), 1)
        self.buf[0][self.sl(k)] = np.where(n != 0, om * p.momentum if p.forget_buffer
                                           else om - (1 - mo) * n, om)
        if (n != 0).any():
            self.mon.obs("buffer_write")
            self.events.add("write")
            self.write(1, k, -n, p.step * self.gran[1])
        if p.in_chop_prob > 0:
            if p.in_chop_random:
                if p.in_chop_prob >= 1:
                    self.in_chop[k] ^= True
            else:
                ns = max(math.ceil(np.float32(1) / np.float32(p.in_chop_prob)), 2)
                if self.counter % ns + 1 == ns:
                    self.in_chop[k] ^= True
                    self.mon.obs("chop_flip")
                    self.events.add("chop")
        if k == self.in_size - 1:
            if p.out_chop_prob >= 1:
                self.out_chop ^= True
                self.events.add("out_chop")
            self.counter += 1

    def tr_DynamicTransfer(self, j, k, tlr):
        p = self.p
        ns = max(math.ceil(np.float32(1) / np.float32(p.in_chop_prob)), 2)
        cur = self.counter % ns + 1
        mom = min(p.tail_weightening / ns, 1.0)
        val = self.w[0][self.sl(k)].copy()
        sc = self.lr_scale(tlr)
        if p.experimental_correct_accumulation:
            sc /= min(float(cur), 1 / self.gran[0])
        if self.switched[k]:
            self.past[self.sl(k)] = self.mean[self.sl(k)]
        self.switched[k] = False
        dw = val - self.past[self.sl(k)]
        dw = np.where(self.in_chop[k] != self.out_chop, -dw, dw)
        om = self.buf[0][self.sl(k)] + dw * sc
        n = self.steps(om, p.transfer_update.desired_bl, sc)
        rest = om - (1 - p.momentum) * n
        cap = p.transfer_update.desired_bl * p.buffer_cap
        if cap > 0:
            rest = np.clip(rest, -cap, cap)
        self.buf[0][self.sl(k)] = np.where(n != 0, om * p.momentum if p.forget_buffer else rest, om)
        self.mean[self.sl(k)] = self.mean[self.sl(k)] * (1 - mom) + val * mom
        if (n != 0).any() and self.counter > ns:
            self.mon.obs("buffer_write")
            self.events.add("write")
            self.write(1, k, -n, p.step * self.gran[1])
        if cur == ns:
            self.in_chop[k] ^= True
            self.switched[k] = True
            self.mon.obs("chop_flip")
            self.events.add("chop")
        if k == self.in_size - 1:
            self.counter += 1


def s_transfer(rng, mon):
    family, dev, devs, kinds = make_transfer(rng)
    up = det_update(rng)
    cfg = UnitCellRPUConfig(device=dev, update=up)
    o, i = rng.randint(1, 4), rng.randint(1, 4)
    tile = cfg.tile_class(o, i, cfg, bias=False)
    lr = gen.logu(rng, 0.02, 0.5)
    tile.set_learning_rate(lr)
    tile.set_weights(rand_w(rng, o, i, 0.3))
    model = TransferModel(mon, family, dev, devs, kinds, up, o, i)
    random_chop = getattr(dev, "in_chop_random", False) and 0 < getattr(dev, "in_chop_prob", 0) < 1
    # a hidden state that makes reads non-trivial
    h = tile.get_hidden_parameters()
    for k in range(model.n - 1):
        h[f"hidden_weights_{k}"] = rand_w(rng, o, i, 0.3)
    tile.set_hidden_parameters(h)
    now = hidden(tile)
    model.gran = [regran(k, d, now, j) for j, (k, d) in enumerate(zip(kinds, devs))]
    n_upd = rng.randint(3, 30)
    ties = 0
    for t in range(n_upd):
        model.load(hidden(tile), None)
        nb = 1 if random_chop else rng.choice([1, 1, 2])
        xs = np.array([[rng.gauss(0, 1) for _ in range(i)] for _ in range(nb)], dtype=np.float32)
        ds = np.array([[rng.gauss(0, 1) for _ in range(o)] for _ in range(nb)], dtype=np.float32)
        if gen.coin(rng, 0.1):
            xs *= 0
        tile.update(torch.tensor(xs), torch.tensor(ds))
        model.events, model.slack = set(), 1e-4
        try:
            for x, d in zip(xs.astype(float), ds.astype(float)):
                model.update(x, d, lr, nb)
        except Tie:
            # the internal counters cannot be followed any more
            return
        got = hidden(tile)
        tag = f"{family}:{'col' if dev.transfer_columns else 'row'}"
        for k in range(model.n):
            mon.close(torch.tensor(got[f"hidden_weights_{k}"]), torch.tensor(model.w[k]),
                      f"transfer:{tag}:hidden{min(k, 1)}", atol=3e-5, rtol=0,
                      msg=f"hidden weight {k} after update {t}, events {model.events}")
        for k, b in model.buf.items():
            name = f"buffered_FP_weight_{k}" if f"buffered_FP_weight_{k}" in got else "buffered_FP_weight"
            scale = max(1.0, float(np.abs(b).max()))
            mon.close(torch.tensor(got[name]), torch.tensor(b), f"transfer:{tag}:buffer",
                      atol=2 * model.slack * scale, rtol=1e-4, msg=f"buffer {k} after update {t}")
        if family == "DynamicTransfer":
            mon.close(torch.tensor(got["running_mean_weight"]), torch.tensor(model.mean),
                      f"transfer:{tag}:mean", atol=3e-5, rtol=0)
            mon.close(torch.tensor(got["past_mean_weight"]), torch.tensor(model.past),
                      f"transfer:{tag}:past", atol=3e-5, rtol=0)
        if family in ("ChoppedTransfer", "DynamicTransfer"):
            ex = extras(tile)
            ic, oc = find(ex, "in_chopper").ravel().astype(bool), find(ex, "out_chopper").ravel().astype(bool)
            if random_chop:
                changed = np.flatnonzero(ic != model.in_chop)
                ok = set(changed.tolist()) <= {(model.slice[0] - 1) % model.in_size}
                mon.check(ok, f"transfer:{tag}:chopper", f"choppers {changed} flipped")
                if len(changed):
                    mon.obs("chop_flip", len(changed))
                model.in_chop = ic.copy()
            else:
                mon.check((ic == model.in_chop).all(), f"transfer:{tag}:chopper",
                          f"in choppers {ic} expected {model.in_chop}")
            mon.check((oc == model.out_chop).all(), f"transfer:{tag}:chopper",
                      f"out choppers {oc} expected {model.out_chop}")
        ref = combine(dev, tile, got)
        mon.close(torch.tensor(weights(tile)), torch.tensor(ref), f"transfer:{tag}:visible", atol=3e-6,
                  rtol=3e-6, msg="visible weight vs hidden weights")
        mon.obs("combination")
        mon.state(family, dev.transfer_columns, tuple(sorted(map(str, model.events))), model.n_reads,
                  dev.units_in_mbatch, nb, model.n, bool(dev.gamma), up.pulse_type.name,
                  getattr(dev, "forget_buffer", None))


# ------------------------------------------------------------------ one sided
def s_onesided(rng, mon):
    d, kind = det_device(rng)
    d2 = copy.deepcopy(d)
    up = det_update(rng)
    rup = det_update(rng)
    rup.desired_bl = 2000     # the refresh can be written completely
    rup.fixed_bl, rup.update_bl_management, rup.update_management = False, True, True
    dev = C.OneSidedUnitCell(unit_cell_devices=[d, d2][:rng.choice([1, 2])],
                             refresh_every=rng.choice([0, 1, 2]), units_in_mbatch=gen.coin(rng),
                             refresh_upper_thres=gen.u(rng, 0.3, 0.9),
                             refresh_lower_thres=gen.u(rng, 0.05, 0.3),
                             refresh_forward=perfect(), refresh_update=rup,
                             copy_inverted=gen.coin(rng))
    cfg = UnitCellRPUConfig(device=dev, update=up)
    o, i = rng.randint(1, 4), rng.randint(1, 5)
    tile = cfg.tile_class(o, i, cfg, bias=False)
    tile.set_weights(rand_w(rng, o, i, 0.3))
    h = hidden(tile)
    g = find(extras(tile), "reduce_weightening").ravel()
    plus, minus = (0, 1) if g[0] > 0 else (1, 0)
    w = weights(tile)
    mon.check((h["hidden_weights_0"] >= 0).all() and (h["hidden_weights_1"] >= 0).all() and
              (np.minimum(h["hidden_weights_0"], h["hidden_weights_1"]) == 0).all(),
              "onesided:set", "set weights are not represented one-sidedly")
    lr = gen.logu(rng, 0.02, 0.3)
    tile.set_learning_rate(lr)
    hp = tile.get_hidden_parameters()
    hp[f"hidden_weights_{plus}"] = torch.rand(o, i) * 0.8 * d.w_max
    hp[f"hidden_weights_{minus}"] = torch.rand(o, i) * 0.8 * d.w_max
    for k in (0, 1):
        hp[f"hidden_weights_{k}"] = torch.minimum(hp[f"hidden_weights_{k}"], hp[f"max_bound_{k}"])
    tile.set_hidden_parameters(hp)
    now = hidden(tile)
    grans = [regran(kind, d, now, k) for k in (0, 1)]
    gran = sum(grans) / 2
    count = int(find(extras(tile), "current_update_idx").ravel()[0])
    for t in range(rng.randint(1, 5)):
        h = hidden(tile)
        nb = rng.choice([1, 1, 2])
        xs = np.array([[rng.gauss(0, 1) for _ in range(i)] for _ in range(nb)], dtype=np.float32)
        ds = np.array([[rng.gauss(0, 1) for _ in range(o)] for _ in range(nb)], dtype=np.float32)
        tile.update(torch.tensor(xs), torch.tensor(ds))
        got = hidden(tile)
        ww = {0: h["hidden_weights_0"].copy(), 1: h["hidden_weights_1"].copy()}
        refreshed = np.zeros((o, i), bool)
        err = 0.0
        try:
            for x, dd in zip(xs.astype(float), ds.astype(float)):
                try:
                    n, amb, _ = det_counts(up, x, dd, lr, gran)
                except Skip:
                    raise Tie()
                if amb.any():
                    raise Tie()
                for k in range(int(np.abs(n).max()) if n.size else 0):
                    for idx, sel in ((minus, n > 0), (plus, n < 0)):
                        s = step(kind, d, dev_params(h, idx), ww[idx], -np.ones((o, i)))
                        ww[idx] = np.where(sel & (np.abs(n) > k), s, ww[idx])
                count += 1
                every = dev.refresh_every * (nb if dev.units_in_mbatch else 1)
                if every and count % every == 0:
                    wp, wm = ww[plus], ww[minus]
                    a, b = wp / abs(d.w_max), wm / abs(d.w_max)
                    U, L = dev.refresh_upper_thres, dev.refresh_lower_thres
                    near = [np.abs(v - s) < 1e-4 for v in (a, b) for s in (U, L)]
                    if np.any(near) or (np.abs(wp - wm) < 1e-4).any():
                        raise Tie()
                    crit = np.where(wp > wm, (a > U) & (b > L), (a > L) & (b > U))
                    refreshed |= crit
                    for idx in (plus, minus):
                        pr = dev_params(h, idx)
                        other = ww[minus if idx == plus else plus] if idx == plus else None
                    diff = wp - wm
                    for idx, sg in ((plus, 1), (minus, -1)):
                        pr = dev_params(h, idx)
                        reset = np.clip(pr["reset_bias"], pr["min_bound"], pr["max_bound"])
                        new = np.where(crit, reset, ww[idx])
                        for j in range(i):
                            tgt = np.where(crit[:, j] & (sg * diff[:, j] > 0), np.abs(diff[:, j]), 0.0)
                            if tgt.any():
                                sub = apply_pulses(kind, d, pr, new, onehot(j, i), -tgt, 1.0, rup, grans[idx])
                                new[:, j] = sub[:, j]
                        ww[idx] = new
                    if crit.any():
                        mon.obs("onesided_refresh", int(crit.sum()))
        except Tie:
            return
        for idx in (0, 1):
            mon.close(torch.tensor(got[f"hidden_weights_{idx}"]), torch.tensor(ww[idx]),
                      f"onesided:{'refresh' if refreshed.any() else 'update'}:{rup.pulse_type.name}",
                      atol=5e-5, rtol=0,
                      msg=f"{'plus' if idx == plus else 'minus'} device after update {t}")
        mon.close(torch.tensor(weights(tile)), torch.tensor(got[f"hidden_weights_{plus}"]
                                                            - got[f"hidden_weights_{minus}"]),
                  "onesided:visible", atol=2e-6, rtol=0)
        mon.obs("combination")
        mon.state(kind, bool(refreshed.any()), up.pulse_type.name, rup.pulse_type.name, nb,
                  dev.units_in_mbatch, dev.copy_inverted, plus)


# ------------------------------------------------------------------ mixed precision
def s_mixed(rng, mon):
    d, kind = det_device(rng)
    bins = [0, 0, 2, 7, 8, 64]
    dev = C.MixedPrecisionCompound(
        device=d, transfer_every=rng.choice([1, 1, 2, 3]),
        n_rows_per_transfer=rng.choice([-1, -1, 1, 2]), random_row=False,
        granularity=rng.choice([0.0, 0.0, 0.01]), transfer_lr=rng.choice([1.0, 1.0, 0.5]),
        n_x_bins=rng.choice(bins), n_d_bins=rng.choice(bins), stoc_round_x=False, stoc_round_d=False)
    up = det_update(rng)
    cfg = DigitalRankUpdateRPUConfig(device=dev, update=up)
    o, i = rng.randint(1, 5), rng.randint(1, 5)
    tile = cfg.tile_class(o, i, cfg, bias=False)
    tile.set_weights(rand_w(rng, o, i, 0.3))
    lr = gen.logu(rng, 0.005, 0.3)
    tile.set_learning_rate(lr)
    dgran = granularity(kind, d)
    gran = dev.granularity or dgran
    upm = copy.copy(up)
    upm.update_management = upm.update_bl_management = True
    count = row = 0

    def quant(v, n):
        if n <= 0:
            return v
        half = n // 2
        width = np.abs(v).max() / half
        if width == 0:
            width = 1.0
        q = v / width
        if (np.abs(np.abs(q - np.floor(q)) - 0.5) < 1e-4).any():
            raise Tie()
        return np.clip(np.rint(q), -half, half) * width
    for t in range(rng.randint(2, 12)):
        h = hidden(tile)
        w, chi = weights(tile), h["hidden_weights_chi"].copy()
        nb = rng.choice([1, 1, 2, 3])
        xs = np.array([[rng.gauss(0, 1) for _ in range(i)] for _ in range(nb)], dtype=np.float32)
        ds = np.array([[rng.gauss(0, 1) for _ in range(o)] for _ in range(nb)], dtype=np.float32)
        if gen.coin(rng, 0.1):
            rng.choice([xs, ds])[:] = 0
        tile.update(torch.tensor(xs), torch.tensor(ds))
        did = False
        try:
            for x, dd in zip(xs.astype(float), ds.astype(float)):
                chi = chi + lr * np.outer(quant(dd, dev.n_d_bins), quant(x, dev.n_x_bins))
                every = dev.transfer_every * nb
                if count > 0 and count % every == 0:
                    did = True
                    n_rows = o if dev.n_rows_per_transfer < 0 else min(dev.n_rows_per_transfer, o)
                    for r in range(n_rows):
                        k = (row + r) % o
                        q = chi[k] / gran
                        if ((np.abs(q - np.rint(q)) < 1e-3) & (np.abs(np.rint(q)) >= 1)).any():
                            raise Tie()
                        n = np.trunc(q)
                        chi[k] -= n * gran
                        w = apply_pulses(kind, d, h, w, n, onehot(k, o), gran * dev.transfer_lr, upm,
                                         dgran)
                    row = (row + n_rows) % o
                count += 1
        except Tie:
            return
        got = hidden(tile)
        tag = f"mixed:{'x' if dev.n_x_bins else ''}{'d' if dev.n_d_bins else ''}"
        mon.close(torch.tensor(got["hidden_weights_chi"]), torch.tensor(chi), f"{tag}:chi", atol=2e-5,
                  rtol=2e-5, msg=f"digital accumulator after update {t}")
        mon.close(torch.tensor(weights(tile)), torch.tensor(w), f"{tag}:weight:{up.pulse_type.name}",
                  atol=5e-5, rtol=0, msg=f"weight after update {t}, transfer {did}")
        mon.obs("chi_update")
        mon.obs("transfer_event" if did else "no_transfer_event")
        mon.state("mixed", kind, did, dev.n_x_bins > 0, dev.n_d_bins > 0, nb, up.pulse_type.name,
                  dev.n_rows_per_transfer)


SCENARIOS = [
    Scenario("combination", s_combination, quick=600, thorough=10000),
    Scenario("policy", s_policy, quick=300, thorough=6000),
    Scenario("transfer", s_transfer, quick=1200, thorough=25000),
    Scenario("onesided", s_onesided, quick=400, thorough=8000),
    Scenario("mixed", s_mixed, quick=400, thorough=8000),
]
