"""P09: copies of analog modules are equal and independent.

Monitor: the complete observable state of original and copy is recorded at the moment of the copy and
compared; then one of them is put through a random history while the state of the other is compared with
its record after every operation. Two copies then run the same deterministic history and must agree.
"""
import copy
import random

import torch

import gen
import snap
from vh import Scenario, Skip
from aihwkit.optim import AnalogSGD, AnalogAdam
from aihwkit.simulator.configs import InferenceRPUConfig, TorchInferenceRPUConfig
from aihwkit.simulator.parameters import WeightModifierParameter, WeightClipParameter, WeightRemapParameter
from aihwkit.simulator.parameters.enums import WeightModifierType, WeightClipType, WeightRemapType
from aihwkit.inference import PCMLikeNoiseModel, GlobalDriftCompensation

PID = "P09"
RULE = "one state per (configuration kind, model, copied object, operations before, operation after, which side)"
ASSUMPTIONS = ["the random number generators of a copy need not continue those of the original"]
REQUIRES = ("copied", "operated", "trajectory", "tile_copy", "analog_module", "pending_gradient", "second_generation")

SGD = lambda m: AnalogSGD(m.parameters(), lr=0.05)


def build(rng):
    noisy = gen.coin(rng, 0.3)
    if noisy:
        torch_tile = gen.coin(rng)
        cfg = TorchInferenceRPUConfig() if torch_tile else InferenceRPUConfig()
        cfg.mapping = gen.rand_mapping(rng)
        if torch_tile:
            cfg.mapping.digital_bias = True
        cfg.drift_compensation = rng.choice([None, GlobalDriftCompensation()])
        cfg.pre_post.input_range.enable = gen.coin(rng)
        cfg.pre_post.input_range.init_from_data = rng.choice([0, 1, 3])
        if gen.coin(rng):
            cfg.modifier = WeightModifierParameter(type=WeightModifierType.ADD_NORMAL, std_dev=0.1)
        if gen.coin(rng):
            cfg.clip = WeightClipParameter(type=WeightClipType.FIXED_VALUE, fixed_value=0.4)
        if gen.coin(rng, 0.3):
            cfg.remap = WeightRemapParameter(type=WeightRemapType.CHANNELWISE_SYMMETRIC)
        kind = "hwa_torch" if torch_tile else "hwa"
    else:
        cfg, kind = gen.det_train_config(rng, rng.choice(gen.TRAIN_KINDS))
    torchlike = kind in ("torch", "custom", "hwa_torch")
    mk = ["linear", "two", "conv", "mapped", "lstm"] if torchlike else None
    if kind == "custom":
        mk = ["linear", "two", "conv", "mapped"]
    mseed = rng.getrandbits(32)
    model, make, mname = gen.rand_model(random.Random(mseed), cfg, mk)
    model.train()
    return model, make, mname, kind


def operate(rng, model, make, kind, mon, deterministic=False, spec=None):
    """One random operation on a model; returns its name."""
    ops = ["train", "train", "set", "scales", "eval_forward", "lr", "decay", "drift", "config", "mode"]
    if kind in ("inference", "torch", "hwa", "hwa_torch"):
        ops += ["program", "program", "inf_drift", "remap"]
    op = rng.choice(ops)
    tiles = [t for _, t in snap.analog_tiles(model)]
    if op == "train":
        model.train()
        gen.train_steps(model, rng.choice([SGD, lambda m: AnalogAdam(m.parameters(), lr=0.05)])(model), make, rng, 2)
    elif op == "set":
        for layer in model.analog_layers():
            w, b = layer.get_weights()
            layer.set_weights(torch.randn_like(w), None if b is None else torch.randn_like(b))
    elif op == "scales":
        for t in tiles:
            s = t.get_mapping_scales()
            if s is not None:
                if gen.coin(rng):
                    t.set_mapping_scales(s * 1.5)
                else:
                    s.mul_(1.3)
            ls = t.get_learned_out_scales()
            if ls is not None:
                with torch.no_grad():
                    ls.mul_(0.9)
    elif op == "eval_forward":
        model.eval()
        with torch.no_grad():
            model(make(rng))
    elif op == "lr":
        for t in tiles:
            if t.get_learning_rate() is not None:
                t.set_learning_rate(0.7)
    elif op == "decay":
        if kind.startswith(("dev", "cmp")):
            for t in tiles:
                t.decay_weights(1.0)
                t.diffuse_weights()
    elif op == "drift":
        if kind.startswith(("dev", "cmp")) and kind != "cmp:MixedPrecision":
            for t in tiles:
                t.drift_weights(3.0)
    elif op == "config":
        for t in tiles:
            t.rpu_config.mapping.weight_scaling_omega = rng.uniform(0.1, 1)
            if hasattr(t.rpu_config, "noise_model"):
                t.rpu_config.noise_model = PCMLikeNoiseModel(g_max=10.0)
            if hasattr(t.rpu_config, "forward"):
                t.rpu_config.forward.out_bound = 7.0
    elif op == "mode":
        model.train(gen.coin(rng))
    elif op == "program":
        model.eval()
        model.program_analog_weights()
    elif op == "inf_drift":
        model.eval()
        model.drift_analog_weights(rng.choice([0.0, 10.0, 1e5]))
    elif op == "remap":
        model.eval()
        model.remap_analog_weights(rng.choice([1.0, 0.5]))
    return op


def independent(rng, mon):
    model, make, mname, kind = build(rng)
    before = [operate(rng, model, make, kind, mon) for _ in range(rng.randint(0, 4))]
    s0 = snap.model_state(model, lr=True)
    c0 = [str(t.rpu_config) for _, t in snap.analog_tiles(model)]
    other = copy.deepcopy(model)
    mon.obs("copied")
    d = snap.diff(s0, snap.model_state(model, lr=True))
    mon.check(not d, f"copying_changed:{kind}", lambda: f"{d[:4]}")
    d = snap.diff(s0, snap.model_state(other, lr=True))
    mon.check(not d, f"copy_differs:{kind}:{','.join(snap.kinds_of(d))}", lambda: f"{mname} after {before}: {d[:4]}")
    c1 = [str(t.rpu_config) for _, t in snap.analog_tiles(other)]
    mon.check(c0 == c1, f"copy_config:{kind}", "rpu_config of the copy differs")
    ids = {id(t.rpu_config) for _, t in snap.analog_tiles(model)}
    mon.check(not any(id(t.rpu_config) in ids for _, t in snap.analog_tiles(other)), f"config_object:{kind}",
              "copy shares the rpu_config object")
    # no storage is shared
    ptr = {}
    for n, p in list(model.named_parameters()) + list(model.named_buffers()):
        if p.numel() and "analog_ctx" not in n:
            ptr[p.data_ptr()] = n
    for n, p in list(other.named_parameters()) + list(other.named_buffers()):
        if p.numel() and "analog_ctx" not in n:
            mon.check(p.data_ptr() not in ptr, f"storage:{kind}:{n.split('.')[-1]}",
                      lambda: f"{n} shares memory with the original's {ptr.get(p.data_ptr())}")
    if gen.coin(rng, 0.2):  # copy of a copy
        third = copy.deepcopy(other)
        d = snap.diff(s0, snap.model_state(third, lr=True))
        mon.check(not d, f"second_copy:{kind}:{','.join(snap.kinds_of(d))}", lambda: f"{d[:4]}")
        other = third
        mon.obs("second_generation")
    # the same eval output (where nothing is random)
    if not kind.startswith("hwa"):
        x = make(rng)
        m1, m2 = model.training, other.training
        model.eval(), other.eval()
        with torch.no_grad():
            mon.close(other(x), model(x), f"output:{kind}", 1e-6, 1e-6)
        model.train(m1), other.train(m2)
    # contexts belong to their own tile
    for m in (model, other):
        for _, t in snap.analog_tiles(m):
            mon.check(t.analog_ctx.analog_tile is t, f"context:{kind}", "context refers to another tile")
    active, passive = (model, other) if gen.coin(rng) else (other, model)
    p0 = snap.model_state(passive, lr=True)
    pc = [str(t.rpu_config) for _, t in snap.analog_tiles(passive)]
    for _ in range(rng.randint(1, 4)):
        op = operate(rng, active, make, kind, mon)
        d = snap.diff(p0, snap.model_state(passive, lr=True))
        mon.check(not d, f"leak:{kind}:{op}:{','.join(snap.kinds_of(d))}",
                  lambda: f"{op} on {'original' if active is model else 'copy'} shows in the other: {d[:4]}")
        mon.check([str(t.rpu_config) for _, t in snap.analog_tiles(passive)] == pc, f"leak_config:{kind}:{op}")
        mon.obs("operated")
        mon.state(kind, mname, op, active is model)
    mon.sample({"kind": kind, "model": mname, "before": before})


def trajectory(rng, mon):
    """Copy and original, each with its own optimizer, go the same deterministic way."""
    cfg, kind = gen.det_train_config(rng, rng.choice([k for k in gen.TRAIN_KINDS if k != "cmp:MixedPrecision"]))
    mk = {"torch": ["linear", "two", "conv", "mapped", "lstm"], "custom": ["linear", "two", "conv", "mapped"]}.get(kind)
    model, make, mname = gen.rand_model(random.Random(rng.getrandbits(32)), cfg, mk)
    model.train()
    gen.train_steps(model, SGD(model), make, rng, rng.choice([0, 1, 4]))
    if gen.coin(rng, 0.3) and kind.startswith(("dev", "cmp")):
        for _, t in snap.analog_tiles(model):
            t.drift_weights(2.0)
    pending = gen.coin(rng, 0.3)
    if pending:  # gradient traced, step not done yet
        y = model(make(rng))
        (y ** 2).sum().backward()
        mon.obs("pending_gradient")
    other = copy.deepcopy(model)
    xs = [make(rng) for _ in range(rng.choice([1, 3, 5]))]
    if pending and gen.coin(rng):
        SGD(model).step()
        SGD(other).step()
        d = snap.diff(snap.model_state(model), snap.model_state(other), tol=1e-5)
        if d:
            # the traced gradient did not go along: then it must not have gone along at all
            raise Skip()

    def rep():
        it = iter(xs)
        return lambda _: next(it).clone()
    order = [model, other] if gen.coin(rng) else [other, model]
    ls = [gen.train_steps(m, SGD(m), rep(), None, len(xs)) for m in order]
    mon.close(torch.tensor(ls[0]), torch.tensor(ls[1]), f"losses:{kind}", 1e-4, 1e-4, msg=mname)
    d = snap.diff(snap.model_state(model), snap.model_state(other), tol=1e-4)
    mon.check(not d, f"trajectory:{kind}:{','.join(snap.kinds_of(d))}", lambda: f"{mname}: {d[:4]}")
    mon.obs("trajectory")
    mon.state("traj", kind, mname, pending)


def tiles(rng, mon):
    """deepcopy of a bare tile and of a single analog layer out of a model."""
    cfg, kind = gen.det_train_config(rng, rng.choice(gen.TRAIN_KINDS))
    o, i = rng.randint(1, 6), rng.randint(1, 6)
    if kind in ("custom", "torch"):
        cfg.mapping.digital_bias = True
    tile = cfg.tile_class(o, i, cfg, bias=gen.coin(rng))
    tile.set_learning_rate(0.1)
    x = torch.randn(3, i)
    for _ in range(rng.randint(0, 3)):
        y = tile(x)
        if kind not in ("torch",):
            tile.update(x if not tile.analog_bias else torch.cat([x, torch.ones(3, 1)], 1) if False else x,
                        torch.randn(3, o))
    s0 = snap.tile_state(tile)
    cp = copy.deepcopy(tile)
    d = snap.diff(s0, snap.tile_state(cp))
    mon.check(not d, f"tile_copy:{kind}", lambda: f"{d[:4]}")
    w, b = cp.get_weights()
    cp.set_weights(w * 0 + 0.1, None if b is None else b * 0)
    if kind != "torch":
        cp.update(x, torch.randn(3, o))
    with torch.no_grad():
        cp(x)
    d = snap.diff(s0, snap.tile_state(tile))
    mon.check(not d, f"tile_leak:{kind}", lambda: f"{d[:4]}")
    # delete the original, the copy still works
    s1 = snap.tile_state(cp)
    del tile
    import gc
    gc.collect()
    junk = [torch.randn(o, i + 1) for _ in range(20)]
    d = snap.diff(s1, snap.tile_state(cp))
    mon.check(not d and len(junk) == 20, f"tile_lifetime:{kind}", lambda: f"{d[:4]}")
    if kind != "torch":
        cp.update(x, torch.randn(3, o))
    y = cp(x)
    mon.check(torch.isfinite(y).all(), f"tile_alive:{kind}")
    mon.obs("tile_copy")
    mon.obs("analog_module")
    mon.state("tile", kind)


SCENARIOS = [
    Scenario("independent", independent, quick=500, thorough=10000),
    Scenario("trajectory", trajectory, quick=300, thorough=6000),
    Scenario("tiles", tiles, quick=200, thorough=4000),
]
