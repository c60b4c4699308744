"""P27: torch transfer tiles follow the transfer-device definition.

Three monitors:
 - lockstep: deterministic pulses; every fast / slow weight, buffer, mean and chopper is followed by
   the independent step model that also judges the compiled transfer devices (see P16)
 - trace: noisy reads and stochastic pulses; the calls of the tile to its two arrays are recorded and
   the recorded trace has to satisfy the recursion (gradient, read, buffer, write) exactly
 - compiled: same deterministic history given to the compiled transfer device
plus settings (refusals, learning rates), checkpoints within a history.
"""
import copy
import io
import math
import pickle

import numpy as np
import torch

import gen
import P16_compounds as P
from vh import Scenario, Skip

PID = "P27"
RULE = ("one state per (compound, situation: transfer / write / chopper switch, direction, batch, "
        "buffer settings)")
ASSUMPTIONS = [
    "the python tile transfers at most once per update call, after the gradient of the whole batch",
    "weight granularity of the buffer scale is the one of the device specification",
    "the python dynamic transfer writes from the beginning (the compiled one has a warm-up phase)",
]
REQUIRES = {"transfer_event": 200, "no_transfer_event": 50, "buffer_write": 100, "chop_flip": 30,
            "trace_update": 200, "compiled_step": 100, "refused": 10, "checkpoint": 5}


def make(rng, cls=None, noisy=False):
    from aihwkit.simulator.configs import UnitCellRPUConfig, UpdateParameters, IOParameters
    from aihwkit.simulator.configs import compounds as C
    from aihwkit.simulator.parameters.enums import PulseType
    family = cls or rng.choice(["ChoppedTransfer", "ChoppedTransfer", "DynamicTransfer"])
    soft = gen.coin(rng)
    (d0, k0), (d1, k1) = P.det_device(rng), P.det_device(rng, soft)
    kw = dict(unit_cell_devices=[d0, d1], transfer_forward=P.perfect(),
              transfer_update=P.transfer_update(rng, family),
              transfer_columns=gen.coin(rng), transfer_every=rng.choice([1, 1, 2, 3, 5]),
              units_in_mbatch=gen.coin(rng, .4),
              fast_lr=rng.choice([1.0, 0.5, 0.1, 0.0]), transfer_lr=rng.choice([1.0, gen.u(rng, .3, 2)]),
              scale_transfer_lr=gen.coin(rng, .7), scale_fast_lr=gen.coin(rng, .3),
              momentum=rng.choice([0.0, 0.1, 0.7]), forget_buffer=gen.coin(rng),
              step=rng.choice([1.0, 1.0, 2.0]),
              buffer_granularity=rng.choice([1.0, 0.5, 0.1, 0.0]),
              auto_granularity=rng.choice([0.0, 5.0]),
              correct_gradient_magnitudes=gen.coin(rng, .3),
              in_chop_prob=rng.choice([0.1, 0.25, 0.5, 0.7, 1.0]), in_chop_random=False,
              auto_scale=gen.coin(rng, .3))
    if kw["auto_scale"]:
        kw["fast_lr"] = rng.choice([1.0, 0.1])
        kw["auto_momentum"] = rng.choice([0.9, 0.5])
    if family == "ChoppedTransfer":
        kw["in_chop_prob"] = rng.choice([0.0, kw["in_chop_prob"]])
    else:
        kw["tail_weightening"] = rng.choice([1.0, 5.0, 0.5])
    up = P.det_update(rng)
    if noisy:
        kw["transfer_forward"] = IOParameters(out_noise=.1, inp_res=-1, out_res=-1)
        kw["transfer_update"] = UpdateParameters(desired_bl=rng.choice([1, 5]),
                                                 update_bl_management=False, update_management=False)
        kw["in_chop_random"] = gen.coin(rng)
        up = UpdateParameters(desired_bl=rng.choice([5, 31]))
        for d in kw["unit_cell_devices"]:
            d.dw_min_std = .3
    dev = getattr(C, family + "Compound")(**kw)
    return family, dev, [d0, d1], [k0, k1], up


def build(dev, up, o, i, torch_tile=True):
    from aihwkit.simulator.configs import UnitCellRPUConfig
    from aihwkit.simulator.tiles.transfer import TorchTransferTile
    cfg = UnitCellRPUConfig(device=copy.deepcopy(dev), update=copy.deepcopy(up))
    if torch_tile:
        cfg.tile_class = TorchTransferTile
    return cfg.tile_class(o, i, cfg, bias=False)


RENAME = {"fast_weight": "hidden_weights_0", "slow_weight": "hidden_weights_1"}


def hidden_of(tile, family):
    """hidden parameters of the torch tile with the names of the compiled compounds"""
    v = tile.tile.get_hidden_parameters().detach().cpu().numpy().astype(float)
    h = {}
    for n, x in zip(tile.tile.get_hidden_parameter_names(), v):
        if n == "hidden_weight":
            n = "buffered_FP_weight" + ("_0" if family == "ChoppedTransfer" else "")
        elif n == "past_mean_weight":
            n = "running_mean_weight"
        elif n == "reference_weight":
            n = "past_mean_weight"
        h[RENAME.get(n, n)] = x
    return h


class TorchModel(P.TransferModel):
    """The step model with the one-transfer-per-batch rule of the python tile."""

    def __init__(self, *a):
        super().__init__(*a)
        self.pulse_gran = list(self.gran)
        self.switch_now = []

    def update_batch(self, xs, ds, lr):
        p, nb = self.p, len(xs)
        if p.auto_scale:
            self.mx = self.ema(self.mx, np.abs(xs).max(), nb)
            self.md = self.ema(self.md, np.abs(ds).max(), nb)
        fast = lr
        if p.fast_lr > 0:
            fast = p.fast_lr * (lr if p.scale_fast_lr else 1.0)
            if p.auto_scale:
                fast *= self.up.desired_bl * self.gran[0]
                if self.mx > 0 and self.md > 0:
                    fast /= self.mx * self.md
        self.fast = fast
        sx = np.where(self.in_chop, -1.0, 1.0)
        for x, d in zip(xs, ds):
            if p.transfer_columns:
                x = x * sx
            else:
                d = d * sx
            self.w[0] = P.apply_pulses(self.kinds[0], self.devs[0], self.par[0], self.w[0], x, d,
                                       fast, self.up, self.pulse_gran[0])
        e = int(math.ceil(p.transfer_every * (nb if p.units_in_mbatch else 1)))
        before = self.count // e
        self.count += nb
        n = self.count // e - before
        self.mon.obs("transfer_event" if n else "no_transfer_event")
        self.events.add(bool(n))
        if n:
            self.transfer(0, lr)

    def write(self, j, k, v, lr):
        keep = self.gran
        self.gran = self.pulse_gran
        try:
            super().write(j, k, v, lr)
        finally:
            self.gran = keep

    def tr_DynamicTransfer(self, j, k, tlr):
        """same as the compiled one without the warm-up of the writes"""
        p = self.p
        ns = max(math.ceil(np.float32(1) / np.float32(p.in_chop_prob)), 2)
        mom = min(p.tail_weightening / ns, 1.0)
        sl = self.sl(k)
        val = self.w[0][sl].copy()
        sc = self.lr_scale(tlr)
        dw = (val - self.past[sl]) * (-1 if self.in_chop[k] else 1)
        om = self.buf[0][sl] + dw * sc
        n = self.steps(om, p.transfer_update.desired_bl, sc)
        self.buf[0][sl] = np.where(n != 0, om * p.momentum if p.forget_buffer
                                   else om - (1 - p.momentum) * n, om)
        self.mean[sl] = self.mean[sl] * (1 - mom) + val * mom
        if (n != 0).any():
            self.mon.obs("buffer_write")
            self.events.add("write")
            self.write(1, k, -n, p.step * self.gran[1])
        if self.counter % ns + 1 == ns:
            self.in_chop[k] ^= True
            self.mon.obs("chop_flip")
            self.events.add("chop")
            self.past[sl] = self.mean[sl]
        if k == self.in_size - 1:
            self.counter += 1


def rand_xd(rng, nb, i, o):
    xs = np.array([[rng.gauss(0, 1) for _ in range(i)] for _ in range(nb)], dtype=np.float32)
    ds = np.array([[rng.gauss(0, 1) for _ in range(o)] for _ in range(nb)], dtype=np.float32)
    if gen.coin(rng, .1):
        xs *= 0
    if gen.coin(rng, .05):
        ds *= 0
    return xs, ds


def call_update(mon, tile, xs, ds, rng):
    """update with given tensors, which have to stay as they are"""
    x, d = torch.tensor(xs), torch.tensor(ds)
    if len(xs) == 1 and gen.coin(rng, .3):
        x, d = x[0], d[0]
    x0, d0 = x.clone(), d.clone()
    tile.tile.update(x, d) if gen.coin(rng, .3) else tile.update(x, d)
    mon.check(torch.equal(x, x0), "input:x_changed", "x of the caller was changed")
    mon.check(torch.equal(d, d0), "input:d_changed", "d of the caller was changed")


def batch(rng, dev):
    nb = rng.choice([1, 1, 2, 3])
    return nb if dev.units_in_mbatch else min(nb, int(dev.transfer_every))


def start(rng, mon, family, dev, devs, kinds, up, with_hidden=True):
    o, i = rng.randint(1, 4), rng.randint(1, 4)
    tile = build(dev, up, o, i)
    mon.close(tile.tile.grad_tile.tile.get_weights(), torch.zeros(o, i), "start:fast", 0, 0,
              "the fast array starts without gradient")
    mon.close(tile.tile.hidden_weight, torch.zeros(tile.tile.hidden_weight.shape), "start:buffer", 0, 0)
    lr = gen.logu(rng, 0.02, 0.5)
    tile.tile.set_learning_rate(lr)
    tile.tile.set_weights(P.rand_w(rng, o, i, .3))
    model = TorchModel(mon, family, dev, devs, kinds, up, o, i)
    if with_hidden:
        names = tile.tile.get_hidden_parameter_names()
        hp = tile.tile.get_hidden_parameters()
        f = names.index("fast_weight")
        hp[f] = torch.min(torch.max(P.rand_w(rng, o, i, .3), hp[names.index("min_bound_0")]),
                          hp[names.index("max_bound_0")])
        given = hp.clone()
        tile.tile.set_hidden_parameters(hp)
        mon.close(tile.tile.get_hidden_parameters(), given, "hidden:roundtrip", 1e-7, 0)
        hp.fill_(77.)
        mon.close(tile.tile.get_hidden_parameters(), given, "hidden:alias", 1e-7, 0,
                  "hidden parameters follow the tensor given")
    h = hidden_of(tile, family)
    model.pulse_gran = [P.regran(k, d, h, j) if with_hidden else P.granularity(k, d)
                        for j, (k, d) in enumerate(zip(kinds, devs))]
    return tile, model, lr, o, i


def compare(mon, tile, model, family, dev, t):
    got = hidden_of(tile, family)
    tag = f"{family}:{'col' if dev.transfer_columns else 'row'}"
    for k in range(2):
        mon.close(torch.tensor(got[f"hidden_weights_{k}"]), torch.tensor(model.w[k]),
                  f"lockstep:{tag}:{('fast', 'slow')[k]}", 3e-5, 0,
                  f"after update {t}, events {model.events}")
    b = model.buf[0]
    name = "buffered_FP_weight" + ("_0" if family == "ChoppedTransfer" else "")
    mon.close(torch.tensor(got[name]), torch.tensor(b), f"lockstep:{tag}:buffer",
              2 * model.slack * max(1., float(np.abs(b).max())), 1e-4, f"after update {t}")
    if family == "DynamicTransfer":
        mon.close(torch.tensor(got["running_mean_weight"]), torch.tensor(model.mean),
                  f"lockstep:{tag}:mean", 3e-5, 0)
        mon.close(torch.tensor(got["past_mean_weight"]), torch.tensor(model.past),
                  f"lockstep:{tag}:reference", 3e-5, 0)
    mon.close(tile.tile.get_weights(), torch.tensor(model.w[1]), f"lockstep:{tag}:visible", 3e-5, 0)
    x = torch.eye(model.i)
    mon.state(family, dev.transfer_columns, tuple(sorted(map(str, model.events))),
              dev.units_in_mbatch, dev.forget_buffer, bool(dev.momentum), bool(dev.auto_scale),
              bool(dev.auto_granularity), dev.correct_gradient_magnitudes)
    return got


def s_lockstep(rng, mon):
    family, dev, devs, kinds, up = make(rng)
    tile, model, lr, o, i = start(rng, mon, family, dev, devs, kinds, up)
    mon.ctx = dict(dev=str(dev), up=str(up), o=o, i=i, lr=lr)
    save_at = rng.randint(0, 25) if gen.coin(rng, .4) else -1
    for t in range(rng.randint(4, 40)):
        model.load(hidden_of(tile, family), None)
        xs, ds = rand_xd(rng, batch(rng, dev), i, o)
        if gen.coin(rng, .1):
            lr = gen.logu(rng, .02, .5)
            tile.tile.set_learning_rate(lr)
        call_update(mon, tile, xs, ds, rng)
        model.events, model.slack = set(), 1e-4
        try:
            model.update_batch(xs.astype(float), ds.astype(float), lr)
        except P.Tie:
            return
        compare(mon, tile, model, family, dev, t)
        chop = np.where(model.in_chop, -1., 1.)
        mon.close(tile.tile.chopper.double(), torch.tensor(chop), f"lockstep:{family}:chopper", 0, 0,
                  f"choppers after update {t}")
        mon.close(torch.tensor([tile.get_learning_rate() or 0.]), torch.tensor([lr]), "lockstep:lr",
                  1e-7, 1e-6)
        if t == save_at:
            tile = restored(rng, mon, tile, dev, up, o, i, family)


def restored(rng, mon, tile, dev, up, o, i, family):
    """the continued history has to be the same for a restored tile"""
    how = rng.choice(["state_dict", "file", "deepcopy", "pickle"])
    mon.obs("checkpoint")
    h0 = tile.tile.get_hidden_parameters()
    if how == "deepcopy":
        new = copy.deepcopy(tile)
    elif how == "pickle":
        new = pickle.loads(pickle.dumps(tile))
    else:
        sd = torch.nn.Sequential(tile).state_dict()
        if how == "file":
            f = io.BytesIO()
            torch.save(sd, f)
            f.seek(0)
            sd = torch.load(f, weights_only=False)
        new = build(dev, up, o, i)
        torch.nn.Sequential(new).load_state_dict(sd)
    mon.close(new.tile.get_hidden_parameters(), h0, f"restored:{how}:hidden", 1e-7, 0)
    mon.close(tile.tile.get_hidden_parameters(), h0, f"restored:{how}:source", 0, 0)
    # the source is not linked to the copy
    new.tile.hidden_weight.add_(0.)
    return new


# ---------------------------------------------------------------- trace
class Rec:
    def __init__(self, obj, name, log):
        self.__dict__.update(_o=obj, _n=name, _l=log)

    def __getattr__(self, k):
        a = getattr(self._o, k)
        if k not in ("update", "forward", "backward", "set_learning_rate"):
            return a

        def f(*args):
            r = a(*args)
            self._l.append((self._n, k, [x.detach().clone() if isinstance(x, torch.Tensor) else x
                                         for x in args],
                            r.detach().clone() if isinstance(r, torch.Tensor) else r,
                            self._o.get_learning_rate()))
            return r
        return f


def s_trace(rng, mon):
    family, dev, devs, kinds, up = make(rng, noisy=True)
    o, i = rng.randint(1, 5), rng.randint(1, 5)
    tile = build(dev, up, o, i)
    sim = tile.tile
    lr = gen.logu(rng, .02, .5)
    sim.set_learning_rate(lr)
    sim.set_weights(P.rand_w(rng, o, i, .3))
    log = []
    sim.grad_tile.tile = Rec(sim.grad_tile.tile, "fast", log)
    sim.weight_tile.tile = Rec(sim.weight_tile.tile, "slow", log)
    mon.ctx = dict(dev=str(dev), up=str(up), o=o, i=i, lr=lr)
    cols = dev.transfer_columns
    n_in, n_out = (i, o) if cols else (o, i)
    model = TorchModel(mon, family, dev, devs, kinds, up, o, i)
    chop = torch.ones(n_in)
    H, ref, mean = (torch.zeros(n_in, n_out, dtype=torch.float64) for _ in range(3))
    count, last_k, cyc = 0, -1, 0
    mx = md = 0.
    ns = max(math.ceil(np.float32(1) / np.float32(dev.in_chop_prob)), 2) if dev.in_chop_prob else 2
    flips = reads = 0
    key = f"trace:{family}:{'col' if cols else 'row'}"
    for t in range(rng.randint(20, 80)):
        xs, ds = rand_xd(rng, batch(rng, dev), i, o)
        nb = len(xs)
        del log[:]
        call_update(mon, tile, xs, ds, rng)
        mon.obs("trace_update")
        if dev.auto_scale:
            mx, md = model.ema(mx, float(np.abs(xs).max()), nb), model.ema(md, float(np.abs(ds).max()), nb)
        fast = lr
        if dev.fast_lr > 0:
            fast = dev.fast_lr * (lr if dev.scale_fast_lr else 1.)
            if dev.auto_scale:
                fast *= up.desired_bl * model.gran[0] / (mx * md if mx > 0 and md > 0 else 1.)
        calls = [c for c in log if c[1] != "set_learning_rate"]
        mon.check(bool(calls) and calls[0][:2] == ("fast", "update"), f"{key}:first",
                  f"{[c[:2] for c in calls]}")
        name, _, args, _, alr = calls[0]
        ex, ed = torch.tensor(xs), torch.tensor(ds)
        if cols:
            ex = ex * chop
        else:
            ed = ed * chop
        mon.close(args[0].reshape(ex.shape), ex, f"{key}:grad_x", 0, 0, f"update {t}")
        mon.close(args[1].reshape(ed.shape), ed, f"{key}:grad_d", 0, 0, f"update {t}")
        mon.close(torch.tensor([alr]), torch.tensor([fast]), f"{key}:fast_lr", 1e-9, 1e-5, f"update {t}")
        e = int(math.ceil(dev.transfer_every * (nb if dev.units_in_mbatch else 1)))
        n = (count + nb) // e - count // e
        count += nb
        read = [c for c in calls if c[:2] == ("fast", "forward" if cols else "backward")]
        mon.check(len(read) == n, f"{key}:schedule", f"{len(read)} reads instead of {n} in update {t}, "
                  f"count {count} every {e}")
        others = [c for c in calls[1:] if c not in read and c[:2] != ("slow", "update")]
        mon.check(not others, f"{key}:other_calls", f"{[c[:2] for c in others]}")
        if len(read) != n:
            return
        if not n:
            mon.check(len(calls) == 1, f"{key}:idle", f"{[c[:2] for c in calls]}")
            mon.check(torch.equal(sim.chopper, chop), f"{key}:idle_chopper", "changed without transfer")
            mon.close(sim.hidden_weight.double(), H, f"{key}:idle_buffer", 0, 0)
            continue
        vec, omega = read[0][2][0], read[0][3].double().reshape(-1)
        k = (last_k + 1) % n_in
        mon.close(vec.reshape(-1), torch.eye(n_in)[k], f"{key}:slice", 0, 0, f"read of slice {k}")
        last_k = k
        reads += 1
        tlr = dev.transfer_lr * (lr if dev.scale_transfer_lr else 1.)
        model.fast = fast
        sc = model.lr_scale(tlr)
        h = H[k] + sc * float(chop[k]) * (omega - ref[k])
        cap = dev.transfer_update.desired_bl
        got_h = sim.hidden_weight[k].double()
        near = (h - h.round()).abs() < 1e-5 * max(1., float(h.abs().max()))
        steps = h.trunc().clamp(-cap, cap)
        writes = [c for c in calls if c[:2] == ("slow", "update")]
        mon.check(len(writes) <= 1, f"{key}:writes", f"{len(writes)} writes")
        amb = bool((near & (h.round().abs() >= 1)).any())
        if not amb:
            mon.check(bool(len(writes)) == bool((steps != 0).any()), f"{key}:write_event",
                      f"{len(writes)} writes, steps {steps}")
            if writes:
                a = writes[0][2]
                v, s = (a[1], a[0]) if cols else (a[0], a[1])
                mon.close(s.reshape(-1), torch.eye(n_in)[k], f"{key}:write_slice", 0, 0)
                mon.close(v.double().reshape(-1), -steps, f"{key}:write_values", 1e-6, 0)
                mon.close(torch.tensor([writes[0][4]]), torch.tensor([dev.step * model.gran[1]]),
                          f"{key}:write_lr", 1e-9, 1e-5)
                mon.obs("buffer_write")
            want = torch.where(steps != 0, h * dev.momentum if dev.forget_buffer
                               else h - (1 - dev.momentum) * steps, h)
            mon.close(got_h, want, f"{key}:buffer", 1e-5 * max(1., float(h.abs().max())), 1e-4,
                      f"update {t} slice {k}")
        for q in range(n_in):
            if q != k:
                mon.close(sim.hidden_weight[q].double(), H[q], f"{key}:other_slices", 0, 0)
        H = sim.hidden_weight.double().clone()
        now = sim.chopper.clone()
        changed = [q for q in range(n_in) if now[q] != chop[q]]
        mon.check(bool((now.abs() == 1).all()), f"{key}:chopper_values", str(now))
        if not dev.in_chop_prob:
            mon.check(not changed, f"{key}:chopper_off", f"{changed}")
        elif dev.in_chop_random:
            mon.check(set(changed) <= {k}, f"{key}:chopper_slice", f"{changed} after read of {k}")
        else:
            sw = cyc % ns + 1 == ns
            mon.check(changed == ([k] if sw else []), f"{key}:chopper_period",
                      f"{changed} switched at read {reads} of slice {k}, period {ns}")
        flips += len(changed)
        if changed:
            mon.obs("chop_flip", len(changed))
        chop = now
        if k == n_in - 1:
            cyc += 1
        if family == "DynamicTransfer":
            mom = min(dev.tail_weightening / ns, 1.)
            if not dev.in_chop_random:
                mean[k] = (1 - mom) * mean[k] + mom * omega
                mon.close(sim.past_mean_weight.double(), mean, f"{key}:mean", 1e-5, 1e-5)
            else:
                mean = sim.past_mean_weight.double().clone()
            if changed:
                ref[k] = mean[k]
            mon.close(sim.reference_weight.double(), ref, f"{key}:reference", 1e-5, 1e-5)
            ref = sim.reference_weight.double().clone()
        mon.state(key, bool(writes), bool(changed), nb, dev.forget_buffer, bool(dev.momentum))
    if dev.in_chop_random and reads:
        p = dev.in_chop_prob
        z = abs(flips - p * reads) / max(math.sqrt(reads * p * (1 - p)), 1e-9) if p < 1 else 0
        if reads * p * (1 - p) > 4:
            mon.check(z < 6.5, f"{key}:chopper_rate", f"{flips} switches of {reads} reads, p={p}")
        elif p >= 1:
            mon.check(flips == reads, f"{key}:chopper_rate", f"{flips} of {reads}")


# ---------------------------------------------------------------- compiled
def s_compiled(rng, mon):
    """Same deterministic history given to the compiled device."""
    family, dev, devs, kinds, up = make(rng)
    for d in devs:      # equal devices
        gen.no_dtod(d)
    dev.unit_cell_devices = devs
    o, i = rng.randint(1, 4), rng.randint(1, 4)
    ref, tile = build(dev, up, o, i, False), build(dev, up, o, i)
    w = P.rand_w(rng, o, i, .3)
    lr = gen.logu(rng, .02, .5)
    for t in (ref, tile):
        t.set_learning_rate(lr)
        t.tile.set_weights(w)
    mon.ctx = dict(dev=str(dev), up=str(up), o=o, i=i, lr=lr)
    name = "buffered_FP_weight" + ("_0" if family == "ChoppedTransfer" else "")
    model = TorchModel(mon, family, dev, devs, kinds, up, o, i)
    for t in range(rng.randint(5, 40)):
        # aligned: the transfer happens with the last vector of the batch
        nb = 1
        if dev.units_in_mbatch and not dev.auto_scale:
            nb = 2
        xs, ds = rand_xd(rng, nb, i, o)
        model.load(hidden_of(tile, family), None)
        tile.update(torch.tensor(xs), torch.tensor(ds))
        ref.update(torch.tensor(xs), torch.tensor(ds))
        mon.obs("compiled_step")
        try:            # ties of the rounding cannot be compared
            model.update_batch(xs.astype(float), ds.astype(float), lr)
        except P.Tie:
            return
        a, b = hidden_of(tile, family), P.hidden(ref)
        mon.close(torch.tensor(a["hidden_weights_0"]), torch.tensor(b["hidden_weights_0"]),
                  f"compiled:{family}:fast", 3e-5, 0, f"update {t}")
        sc = max(1., float(np.abs(b[name]).max()))
        mon.close(torch.tensor(a[name]), torch.tensor(b[name]), f"compiled:{family}:buffer",
                  (t + 1) * 2 * model.slack * sc, 1e-3, f"update {t}")
        if family == "ChoppedTransfer":
            mon.close(torch.tensor(a["hidden_weights_1"]), torch.tensor(b["hidden_weights_1"]),
                      f"compiled:{family}:slow", 3e-5, 0, f"update {t}")
            mon.close(tile.tile.get_weights(), ref.tile.get_weights(), f"compiled:{family}:visible",
                      3e-5, 0)
        ic = P.find(P.extras(ref), "in_chopper").ravel().astype(bool)
        mon.check(bool(((tile.tile.chopper < 0).numpy() == ic).all()), f"compiled:{family}:chopper",
                  f"{tile.tile.chopper} {ic}")
        mon.state("compiled", family, dev.transfer_columns, nb, dev.units_in_mbatch,
                  dev.forget_buffer, bool(dev.auto_scale), tuple(sorted(map(str, model.events))))


# ---------------------------------------------------------------- settings
def s_settings(rng, mon):
    from aihwkit.exceptions import ConfigError
    from aihwkit.simulator.configs import SingleRPUConfig, ConstantStepDevice, UnitCellRPUConfig
    from aihwkit.simulator.configs import compounds as C
    from aihwkit.simulator.tiles.transfer import TorchTransferTile
    from aihwkit.nn import AnalogLinear
    from aihwkit.optim import AnalogSGD
    family, dev, devs, kinds, up = make(rng)
    bad = dict(gamma=.3, out_chop_prob=.5, no_buffer=True, n_reads_per_transfer=2, transfer_every=-1.,
               random_selection=True, with_reset_prob=.5)
    if family == "DynamicTransfer":
        bad.update(buffer_cap=.3, experimental_correct_accumulation=True)
    for k, v in bad.items():
        if not hasattr(dev, k):
            continue
        d2 = copy.deepcopy(dev)
        setattr(d2, k, v)
        mon.ctx = dict(setting=k)
        mon.obs("refused")

        def run():
            t = build(d2, up, 3, 2)
            t.tile.update(torch.ones(2), torch.ones(3))
        mon.raises(run, f"settings:{family}:{k}", f"{k}={v} accepted", Exception)
    other = C.TransferCompound(unit_cell_devices=devs)
    mon.raises(lambda: build(other, up, 3, 2), "settings:compound", "TransferCompound accepted")

    def multi():
        d2 = copy.deepcopy(dev)
        d2.units_in_mbatch, d2.transfer_every = False, 1
        build(d2, up, 3, 2).tile.update(torch.ones(3, 2), torch.ones(3, 3))
    mon.raises(multi, "settings:multiple_transfers", "several transfers within one batch accepted")
    # layer level: gradients and inputs stay those of the caller, forward uses the slow weights
    cfg = UnitCellRPUConfig(device=copy.deepcopy(dev), update=up, forward=P.perfect(),
                            backward=P.perfect())
    cfg.device.units_in_mbatch = True
    cfg.tile_class = TorchTransferTile
    i, o, nb = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 4)
    layer = AnalogLinear(i, o, bias=gen.coin(rng), rpu_config=cfg)
    opt = AnalogSGD(layer.parameters(), lr=.3)
    opt.regroup_param_groups(layer)
    for t in range(rng.randint(1, 6)):
        x = torch.tensor(rand_xd(rng, nb, i, o)[0], requires_grad=gen.coin(rng))
        x0 = x.detach().clone()
        wt, b = layer.get_weights()
        opt.zero_grad()
        y = layer(x)
        mon.close(y, torch.nn.functional.linear(x, wt, b), "layer:forward", 1e-5, 1e-4)
        y.pow(2).sum().backward()
        if x.requires_grad:
            mon.close(x.grad, 2 * y.detach() @ wt, "layer:grad", 1e-4, 1e-4)
        opt.step()
        mon.check(torch.equal(x.detach(), x0), "input:x_changed", "input of the layer was changed")
        tl = next(layer.analog_tiles())
        mon.check(tl.tile.update_counter == (t + 1) * nb, "layer:counter",
                  f"{tl.tile.update_counter} after {t + 1} updates of {nb}")


SCENARIOS = [
    Scenario("lockstep", s_lockstep, 200, 5000, 20),
    Scenario("trace", s_trace, 100, 2500, 100),
    Scenario("compiled", s_compiled, 120, 3000, 10),
    Scenario("settings", s_settings, 20, 200, 8),
]
