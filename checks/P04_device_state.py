"""P04: device weights stay within their own bounds and evolve as their parameters define.

Monitor: after every operation of a random history the complete device state (weights and all
hidden parameters) is read out; invariants (bounds, finiteness, constancy of the parameters)
are checked on it, and the operations that have a closed form (set, decay, clip, reset, drift,
zero diffusion) are compared with an independent float64 step model.
"""
import copy
import math

import torch

import gen
from vh import Scenario, Skip
from aihwkit.simulator.configs import SingleRPUConfig, UnitCellRPUConfig
from aihwkit.simulator.configs import devices as D
from aihwkit.simulator.configs import compounds as C
from aihwkit.simulator.parameters import (
    UpdateParameters, IOParameters, WeightClipParameter, DriftParameter, MappingParameter)
from aihwkit.simulator.parameters.enums import PulseType, WeightClipType

PID = "P04"
RULE = "one state per (device kind, pulse type, operation, which weights sit at a bound)"
ASSUMPTIONS = ["bounds are those reported by the tile's hidden parameters; their values are checked "
               "against the configuration where it determines them",
               "write noise is added on top of the bounded (persistent) weight by definition"]
REQUIRES = ("op:update", "op:decay", "op:reset", "op:drift", "op:clip", "op:set", "op:diffuse",
            "at_bound", "compound_state")

PULSES = [PulseType.STOCHASTIC_COMPRESSED, PulseType.STOCHASTIC, PulseType.DETERMINISTIC_IMPLICIT,
          PulseType.MEAN_COUNT, PulseType.NONE_WITH_DEVICE]


def rand_update(rng):
    up = UpdateParameters()
    up.pulse_type = rng.choice(PULSES)
    up.desired_bl = rng.choice([1, 7, 31, 63, 64])
    up.fixed_bl = gen.coin(rng)
    up.update_management = gen.coin(rng)
    up.update_bl_management = gen.coin(rng)
    return up


def hidden(tile):
    names = tile.tile.get_hidden_parameter_names()
    vals = tile.tile.get_hidden_parameters()
    return {n: vals[i].double().clone() for i, n in enumerate(names)}


def weights(tile):
    return tile.tile.get_weights().double().clone()


def variants(rng, dev):
    dev.enforce_consistency = gen.coin(rng, 0.8)
    dev.perfect_bias = gen.coin(rng, 0.15)
    if gen.coin(rng, 0.1):
        dev.w_max = 0.0
    elif gen.coin(rng, 0.1):
        dev.w_min = 0.0
    return dev


STATE_NAMES = ("persistent_weights", "hidden_weights", "buffered_FP_weight", "running_mean_weight",
               "past_mean_weight")


def is_state(n):
    return n.startswith(STATE_NAMES)


def check_invariants(mon, kind, h0, h, w, persist, op, prev=None):
    key = f"{kind}:{op}"
    for n, v in h.items():
        mon.check(torch.isfinite(v).all(), f"finite:{key}", lambda: f"{n} not finite")
        if not is_state(n):
            mon.check(torch.equal(v, h0[n]), f"param_changed:{key}:{n}",
                      lambda: f"{n} changed by {op}: {h0[n].flatten()[:4]} -> {v.flatten()[:4]}")
    mon.check(torch.isfinite(w).all(), f"finite:{key}", "weight not finite")
    v = h["persistent_weights"] if persist else w
    mx, mn = h["max_bound"], h["min_bound"]
    lo, hi = mn, mx
    if "reference" in h:
        # the conductance is weight + reference: an update keeps the conductance in its bounds, all
        # other operations the weight itself
        tol = 2e-6 * (1 + mx.abs() + mn.abs() + h["reference"].abs())
        lo, hi = torch.minimum(mn, mn - h["reference"]) - tol, torch.maximum(mx, mx - h["reference"]) + tol
        if prev is not None:
            moved = v != prev
            p = v + h["reference"]
            slack = 2e-6 * (1 + mx.abs() + mn.abs() + h["reference"].abs())
            out = moved & ((p > mx + slack) | (p < mn - slack))
            mon.check(not out.any(), f"ref_bounds:{key}",
                      lambda: f"update left conductance {p[out][0]} out of [{mn[out][0]}, {mx[out][0]}]")
    bad = (v > hi) | (v < lo)
    mon.check(not bad.any(), f"bounds:{key}",
              lambda: f"{int(bad.sum())} outside: w={v[bad][0]} in [{lo[bad][0]}, {hi[bad][0]}]")
    if ((v == mx) | (v == mn)).any():
        mon.obs("at_bound")
    return v


class Drifter:
    """Independent power-law drift bookkeeping."""

    def __init__(self, par, nu):
        self.par, self.nu = par, nu
        self.prev = None

    def apply(self, w, dt, mn, mx):
        if self.prev is None:
            self.prev, self.w0 = w.clone(), w.clone()
            self.t = torch.zeros_like(w)
            self.now = 0.0
        self.now += dt / self.par.t_0
        changed = (self.prev - w).abs() > self.par.reset_tol
        d = torch.clamp(self.now - self.t, min=1.0)
        out = self.w0 * d ** (-self.nu)
        out = torch.where(changed, w, out)
        self.t = torch.where(changed, torch.full_like(w, self.now), self.t)
        self.w0 = torch.where(changed, w, self.w0)
        amb = ((self.prev - w).abs() - self.par.reset_tol).abs() < 0.5 * self.par.reset_tol
        out = torch.minimum(torch.maximum(out, mn), mx)
        self.prev = out.clone()
        return out, amb


def circ(start, n, x):
    if n < 0:
        n = x
    return sorted({(start + k) % x for k in range(min(n, x))})


def simple(rng, mon):
    kind = rng.choice(gen.DEVICE_KINDS)
    wn = gen.coin(rng, 0.15) and kind not in ("PowStepReference",)
    dev = gen.rand_device(rng, kind, variation=gen.coin(rng, 0.7), write_noise=wn,
                          decay=gen.coin(rng, 0.8))
    variants(rng, dev)
    wn = getattr(dev, "write_noise_std", 0.0) > 0
    if wn:
        dev.apply_write_noise_on_set = gen.coin(rng)
    no_drift = dev.drift.nu == 0.0
    if not no_drift:
        dev.drift.reset_tol = 1e-5
        dev.drift.t_0 = rng.choice([1.0, 0.5, 3.0])
    reset_std = dev.reset_std = rng.choice([0.0, 0.02]) if hasattr(dev, "reset_std") else 0.0
    diffusing = dev.diffusion > 0
    up = rand_update(rng)
    cfg = SingleRPUConfig(device=dev, update=up, forward=IOParameters(is_perfect=True),
                          backward=IOParameters(is_perfect=True))
    dsz, xsz = rng.randint(1, 7), rng.randint(1, 9)
    tile = cfg.tile_class(dsz, xsz, cfg)
    persist = wn
    h0 = hidden(tile)
    mx, mn = h0["max_bound"], h0["min_bound"]
    mon.check((mx >= mn).all(), f"order:{kind}", "max_bound < min_bound")
    pb = torch.zeros(dsz, xsz, dtype=torch.bool)
    if dev.perfect_bias:
        pb[:, -1] = True
    # where the configuration determines the parameters, they must be as configured
    plain = ~pb
    if kind not in ("SoftBoundsPmax", "SoftBoundsReference", "PowStepReference") and dev.corrupt_devices_prob == 0:
        if dev.w_max_dtod == 0 and dev.w_min_dtod == 0:
            mon.close(mx[plain], torch.full_like(mx, dev.w_max)[plain], f"max_bound:{kind}", 1e-6, 1e-6)
            mon.close(mn[plain], torch.full_like(mn, dev.w_min)[plain], f"min_bound:{kind}", 1e-6, 1e-6)
        if dev.enforce_consistency:
            mon.check((mx >= 0).all() and (mn <= 0).all(), f"bound_sign:{kind}", "bounds do not enclose zero")
            mon.check((h0["dwmin_up"] >= 0).all() and (h0["dwmin_down"] >= 0).all(), f"dw_sign:{kind}")
        if dev.reset_dtod == 0:
            mon.close(h0["reset_bias"], torch.full_like(mx, dev.reset), f"reset_bias:{kind}", 1e-6, 1e-6)
        if dev.lifetime > 1 and dev.lifetime_dtod == 0:
            mon.close(h0["decay_scales"], torch.full_like(mx, 1 - 1 / dev.lifetime), f"decay_scale:{kind}",
                      1e-6, 1e-6)
        if dev.lifetime == 0:
            mon.check((h0["decay_scales"] == 1).all(), f"decay_scale:{kind}", "decay without lifetime")
        if dev.diffusion == 0:
            mon.check((h0["diffusion_rates"] == 0).all(), f"diffusion:{kind}")
    drifter = Drifter(dev.drift, h0["drift_nu"])
    w = weights(tile)
    cur = check_invariants(mon, kind, h0, h0, w, persist, "init")
    tol = dict(atol=3e-6, rtol=3e-6)

    for _ in range(rng.randint(4, 14)):
        op = rng.choice(["update", "update", "set", "decay", "decay1", "reset", "drift", "clip", "diffuse",
                         "uniform", "post", "params", "copy"])
        expect, mask = None, None
        if op == "update":
            lr = rng.choice([0.01, 0.1, 1.0, 10.0])
            tile.set_learning_rate(lr)
            b = rng.randint(1, 4)
            x = torch.randn(b, xsz) * rng.choice([0.1, 1.0, 30.0])
            d = torch.randn(b, dsz) * rng.choice([0.1, 1.0, 30.0])
            if gen.coin(rng, 0.1):
                x[:] = 0.0
                if not wn:
                    expect = cur
            tile.update(x, d)
            op = f"update"
        elif op == "set":
            s = rng.choice([0.05, 0.5, 5.0, 1e4])
            v = torch.randn(dsz, xsz) * s
            tile.tile.set_weights(v)
            expect = torch.minimum(torch.maximum(v.double(), mn), mx)
        elif op == "uniform":
            a = rng.uniform(0, 2)
            tile.tile.set_weights_uniform_random(-a, a)
        elif op in ("decay", "decay1"):
            alpha = 1.0 if op == "decay1" else rng.choice([0.5, 2.0, 0.0])
            tile.decay_weights(alpha)
            b, wd = h0["reset_bias"], h0["decay_scales"]
            s = 1 + alpha * (wd - 1)
            expect = torch.minimum(torch.maximum((cur - b) * s + b, mn), mx)
            op = "decay"
        elif op == "reset":
            start, n = rng.randint(0, xsz - 1), rng.choice([-1, 0, 1, 2, xsz])
            prob = rng.choice([1.0, 1.0, 0.5, 0.0])
            tile.reset_columns(start, n, prob)
            cols = circ(start, n, xsz) if prob > 0 else []
            sel = torch.zeros(dsz, xsz, dtype=torch.bool)
            sel[:, cols] = True
            now = hidden(tile)["persistent_weights"] if persist else weights(tile)
            mon.check(torch.equal(now[~sel], cur[~sel]), f"reset_other:{kind}",
                      lambda: f"reset_columns({start},{n},{prob}) touched other columns")
            if reset_std == 0.0:
                tgt = torch.minimum(torch.maximum(h0["reset_bias"], mn), mx)
                if prob == 1.0:
                    expect = torch.where(sel, tgt, cur)
                elif prob > 0:
                    ok = ((now - tgt).abs() <= 1e-6) | (now == cur)
                    mon.check(ok.all(), f"reset_values:{kind}", "reset value neither old nor reset bias")
        elif op == "drift":
            dt = rng.choice([0.5, 1.0, 10.0])
            tile.drift_weights(dt)
            if no_drift:
                expect = cur
            elif not persist:
                expect, amb = drifter.apply(cur, dt, mn, mx)
                now = weights(tile)
                expect = torch.where(amb, now, expect)
                drifter.prev = torch.where(amb, now, drifter.prev)
                if amb.any():  # cannot tell which branch: restart the observation
                    no_drift = None
                if no_drift is None:
                    expect = None
        elif op == "clip":
            v = rng.choice([0.05, 0.3, 100.0, 0.0])
            par = WeightClipParameter(type=WeightClipType.FIXED_VALUE, fixed_value=v)
            from aihwkit.simulator.parameters.helpers import parameters_to_bindings
            from aihwkit.simulator.parameters.enums import RPUDataType
            tile.tile.clip_weights(parameters_to_bindings(par, RPUDataType.FLOAT))
            if True:
                # clipped to the range, but never out of the own bounds
                expect = torch.maximum(torch.minimum(torch.clamp(cur, -v, v), mx), mn)
        elif op == "diffuse":
            tile.diffuse_weights()
            zero = h0["diffusion_rates"] == 0
            now = hidden(tile)["persistent_weights"] if persist else weights(tile)
            base = torch.maximum(torch.minimum(cur, mx), mn)  # differs only with a reference
            mon.check(((now == cur) | (now == base))[zero].all(), f"diffuse0:{kind}", "moved with zero rate")
            lim = 7 * h0["diffusion_rates"] + 1e-6
            mon.check((((now - base).abs() <= lim) | (now == cur)).all(), f"diffuse_size:{kind}",
                      lambda: f"diffusion step {float((now-base).abs().max())} > 7 sigma")
            if diffusing and xsz * dsz >= 4 and not persist:
                interior = (~zero) & (cur < mx - 1e-3) & (cur > mn + 1e-3)
                mon.check((now != cur)[interior].any() or not interior.any(), f"diffuse_noop:{kind}",
                          "no weight diffused")
        elif op == "post":
            tile.post_update_step()
            if not diffusing:
                if dev.lifetime > 0:
                    b, wd = h0["reset_bias"], h0["decay_scales"]
                    expect = torch.minimum(torch.maximum((cur - b) * wd + b, mn), mx)
                else:
                    expect = cur
            else:
                diff = 7 * h0["diffusion_rates"] + 1e-6
                b, wd = h0["reset_bias"], h0["decay_scales"]
                e = torch.minimum(torch.maximum((cur - b) * wd + b, mn), mx)
                now = hidden(tile)["persistent_weights"] if persist else weights(tile)
                mon.check(((now - e).abs() <= diff).all(), f"post:{kind}", "post step off")
        elif op == "params":
            hp = tile.tile.get_hidden_parameters().clone()
            names = tile.tile.get_hidden_parameter_names()
            f = rng.uniform(0.3, 1.2)
            for n in ("max_bound", "min_bound"):
                hp[names.index(n)] *= f
            if persist:  # restored as given, thus give values within the bounds
                k, a, b = (names.index(n) for n in ("persistent_weights", "max_bound", "min_bound"))
                hp[k] = torch.maximum(torch.minimum(hp[k], hp[a]), hp[b])
            tile.tile.set_hidden_parameters(hp)
            h0 = {n: hp[i].double() for i, n in enumerate(names)}
            mx, mn = h0["max_bound"], h0["min_bound"]
            if persist:
                expect = h0["persistent_weights"]
            else:
                expect = torch.minimum(torch.maximum(cur, mn), mx)
        elif op == "copy":
            other = copy.deepcopy(tile)
            # operate on the original afterwards; the copy goes on being monitored
            tile.tile.set_weights(torch.zeros(dsz, xsz))
            tile = other
            expect = cur
        h, w = hidden(tile), weights(tile)
        new = check_invariants(mon, kind, h0, h, w, persist, op,
                               cur if op == "update" and up.pulse_type != PulseType.NONE_WITH_DEVICE else None)
        if expect is not None:
            mon.close(new, expect, f"{op}:{kind}" + (":persist" if persist else ""), **tol,
                      msg=f"{op} on {kind}")
        mon.obs(f"op:{op}")
        if op in ("update",):
            mon.obs(f"pulse:{up.pulse_type.name}")
        mon.state(kind, op, up.pulse_type.name, bool((new == mx).any()), bool((new == mn).any()), persist)
        cur = new
    mon.sample({"kind": kind, "pulse": up.pulse_type.name, "shape": [dsz, xsz], "write_noise": wn})


def saturate(rng, mon):
    """Drive weights hard into their bounds with every pulse type: the bound is reached, never crossed."""
    kind = rng.choice(gen.DEVICE_KINDS)
    dev = gen.rand_device(rng, kind, variation=gen.coin(rng, 0.6))
    dev.corrupt_devices_prob = rng.choice([0.0, 0.2])
    up = rand_update(rng)
    up.desired_bl = 31
    cfg = SingleRPUConfig(device=dev, update=up)
    dsz, xsz = rng.randint(1, 5), rng.randint(1, 5)
    tile = cfg.tile_class(dsz, xsz, cfg)
    h0 = hidden(tile)
    mx, mn = h0["max_bound"], h0["min_bound"]
    ref = 0.0
    if "reference" in h0 and up.pulse_type != PulseType.NONE_WITH_DEVICE:
        ref = h0["reference"]  # pulsed updates bound the conductance, i.e. weight + reference
        # corrupt devices: start within
        tile.tile.set_weights((torch.maximum(torch.minimum(0 * mx, mx), mn) - ref).float())
    tol = 2e-6 if "reference" in h0 else 0.0
    tile.set_learning_rate(1.0)
    for sgn in rng.choice([(1, -1), (-1, 1)]):
        x = torch.ones(1, xsz)
        d = -sgn * torch.ones(1, dsz)
        prev = weights(tile)
        for k in range(60):
            tile.update(x, d)
            w = weights(tile) + ref
            bad = (w > mx + tol) | (w < mn - tol)
            if tol:
                bad &= mx != mn  # never updated, hence bounds of the weight itself apply
            bad |= ~torch.isfinite(w)
            if not mon.check(not bad.any(), f"bounds:{kind}:saturate", lambda: f"w={w[bad][:3]}"):
                return
        stuck = mx == mn
        mon.check(bool(tol) or torch.equal(w[stuck], mx[stuck]), f"stuck:{kind}", "stuck device moved")
        h = hidden(tile)
        for n, v in h.items():
            if not is_state(n):
                mon.check(torch.equal(v, h0[n]), f"param_changed:{kind}:{n}", n)
        if ((w == mx) | (w == mn)).any():
            mon.obs("at_bound")
        mon.obs("op:saturate")
    mon.state(kind, up.pulse_type.name, bool(stuck.any()))


def compound(rng, mon):
    kind = rng.choice(gen.COMPOUND_KINDS)
    dev = gen.rand_compound(rng, kind, variation=gen.coin(rng, 0.7))
    up = rand_update(rng)
    if kind == "MixedPrecision":
        cfg = gen.wrap_device(dev)
    else:
        if up.pulse_type in (PulseType.NONE_WITH_DEVICE, PulseType.MEAN_COUNT, PulseType.DETERMINISTIC_IMPLICIT):
            up.pulse_type = rng.choice([PulseType.STOCHASTIC_COMPRESSED, PulseType.DETERMINISTIC_IMPLICIT])
        cfg = gen.wrap_device(dev, update=up)
    cfg.forward = cfg.backward = IOParameters(is_perfect=True)
    dsz, xsz = rng.randint(1, 5), rng.randint(1, 6)
    tile = cfg.tile_class(dsz, xsz, cfg)
    names = tile.tile.get_hidden_parameter_names()
    h0 = hidden(tile)
    subs = sorted({n.rsplit("_", 1)[1] for n in names if n.startswith("max_bound_")}) or [""]

    def inv(op):
        h, w = hidden(tile), weights(tile)
        mon.check(torch.isfinite(w).all(), f"finite:{kind}:{op}", "weight not finite")
        for n, v in h.items():
            mon.check(torch.isfinite(v).all(), f"finite:{kind}:{op}", lambda: f"{n} not finite")
            if not is_state(n):
                mon.check(torch.equal(v, h0[n]), f"param_changed:{kind}:{op}", lambda: f"{n} changed by {op}")
        for s in subs:
            e = "_" + s if s else ""
            mx, mn = h["max_bound" + e], h["min_bound" + e]
            v = h["hidden_weights" + e] if s else w
            bad = (v > mx + 1e-7) | (v < mn - 1e-7)
            mon.check(not bad.any(), f"bounds:{kind}:{op}",
                      lambda: f"device {s}: {v[bad][0]} not in [{mn[bad][0]},{mx[bad][0]}]")
            if ((v == mx) | (v == mn)).any():
                mon.obs("at_bound")
            mon.obs("compound_state")
        mon.obs(f"op:{op}")
        mon.state(kind, op, up.pulse_type.name, len(subs))

    inv("init")
    for _ in range(rng.randint(4, 12)):
        op = rng.choice(["update", "update", "update", "set", "decay", "reset", "drift", "clip", "diffuse", "post"])
        if op == "update":
            tile.set_learning_rate(rng.choice([0.01, 0.1, 1.0]))
            b = rng.randint(1, 4)
            tile.update(torch.randn(b, xsz) * rng.choice([0.1, 1.0, 10.0]),
                        torch.randn(b, dsz) * rng.choice([0.1, 1.0, 10.0]))
        elif op == "set":
            tile.tile.set_weights(torch.randn(dsz, xsz) * rng.choice([0.05, 0.5, 50.0]))
        elif op == "decay":
            tile.decay_weights(rng.choice([1.0, 0.5]))
        elif op == "reset":
            if kind in ("OneSided",):
                continue
            tile.reset_columns(rng.randint(0, xsz - 1), rng.choice([-1, 1, 2]), rng.choice([1.0, 0.5]))
        elif op == "drift":
            tile.drift_weights(rng.choice([1.0, 5.0]))
        elif op == "clip":
            continue
        elif op == "diffuse":
            tile.diffuse_weights()
        elif op == "post":
            tile.post_update_step()
        inv(op)


SCENARIOS = [
    Scenario("simple", simple, quick=1200, thorough=30000),
    Scenario("saturate", saturate, quick=300, thorough=6000),
    Scenario("compound", compound, quick=400, thorough=10000),
]
