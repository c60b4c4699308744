"""P08: a checkpoint restores the complete model state.

Monitor: the complete observable state of a model (weights, hidden device parameters, scales, ranges,
drift state, C++ extra state, buffers) is recorded before saving and compared with the state after saving
and with the state of the freshly built model after loading; then saved and restored model go on with the
same inputs and the trajectories of both are compared step by step.
"""
import copy
import io
import os
import pickle
import random
import tempfile

import torch
from torch import nn

import gen
import snap
from vh import Scenario, Skip
from aihwkit.nn import AnalogLinear, AnalogSequential, AnalogLinearMapped, AnalogConv2d
from aihwkit.optim import AnalogSGD, AnalogAdam
from aihwkit.simulator.configs import (
    SingleRPUConfig, UnitCellRPUConfig, InferenceRPUConfig, TorchInferenceRPUConfig, FloatingPointRPUConfig)
from aihwkit.simulator.configs import devices as D
from aihwkit.simulator.parameters.enums import PulseType, WeightModifierType, WeightClipType, WeightRemapType
from aihwkit.simulator.parameters import WeightClipParameter, WeightModifierParameter, WeightRemapParameter
from aihwkit.inference import PCMLikeNoiseModel, GlobalDriftCompensation

PID = "P08"
RULE = "one state per (configuration kind, model, save/load path, what happened before saving)"
ASSUMPTIONS = ["random-number generator states are not part of a checkpoint; trajectories are compared for "
               "configurations without run-time randomness",
               "continuation compared to 1e-5 (same arithmetic, possibly another summation order)"]
REQUIRES = ("path:state_dict", "path:file", "path:pickle", "continued", "refused", "inference", "opt_state")


def save_load(rng, mon, model, fresh, opt, fresh_opt_fn):
    """Bring the state of model over to a new model by a random path."""
    path = rng.choice(["state_dict", "state_dict", "file", "file", "pickle", "file_model"])
    mon.obs("path:" + path)
    osd = copy.deepcopy(opt.state_dict()) if opt is not None else None
    if path == "state_dict":
        sd = model.state_dict()
        other = fresh()
        other.load_state_dict(sd, **load_kw(rng))
    elif path == "file":
        with tempfile.TemporaryDirectory() as tmp:
            f = os.path.join(tmp, "m.pt")
            torch.save({"model": model.state_dict(), "opt": osd}, f)
            d = torch.load(f, weights_only=False)
        other = fresh()
        other.load_state_dict(d["model"], **load_kw(rng))
        osd = d["opt"]
    elif path == "pickle":
        other = pickle.loads(pickle.dumps(model))
    else:
        buf = io.BytesIO()
        torch.save(model, buf)
        buf.seek(0)
        other = torch.load(buf, weights_only=False)
    oopt = None
    if opt is not None:
        oopt = fresh_opt_fn(other)
        oopt.load_state_dict(osd)
    return other, oopt, path


def load_kw(rng):
    k = rng.randint(0, 2)
    return [{}, {"load_rpu_config": True}, {"load_rpu_config": False}][k]


PROGRAMMED = ("programmed_weights", "reference_combined", "drift_noise_param", "drift_baseline", "drift_readout")

OPTS = {
    "sgd": lambda m: AnalogSGD(m.parameters(), lr=0.05),
    "mom": lambda m: AnalogSGD(m.parameters(), lr=0.05, momentum=0.5),
    "adam": lambda m: AnalogAdam(m.parameters(), lr=0.05),
}


def trajectory(rng, mon):
    kind = rng.choice(gen.TRAIN_KINDS)
    cfg, kind = gen.det_train_config(rng, kind)
    if kind == "torch":
        mk = ["linear", "two", "conv", "mapped", "lstm"]
    elif kind in ("custom",):
        mk = ["linear", "two", "conv", "mapped"]
    else:
        mk = None
    mseed = rng.getrandbits(32)
    mrng = random.Random(mseed)
    model, make, mname = gen.rand_model(mrng, cfg, mk)
    oname = rng.choice(list(OPTS))
    opt = OPTS[oname](model)
    model.train()
    drng = random.Random(rng.getrandbits(32))
    before = rng.choice([0, 1, 3, 6])
    gen.train_steps(model, opt, make, drng, before)
    for _, t in snap.analog_tiles(model):
        if gen.coin(rng, 0.15) and ":" in kind:
            t.decay_weights(1.0)
        if gen.coin(rng, 0.15) and ":" in kind:
            t.drift_weights(1.5)
    if gen.coin(rng, 0.2):
        model.eval()
    s0 = snap.model_state(model, lr=True)

    def fresh():
        torch.manual_seed(mseed % 1000)
        f, _, _ = gen.rand_model(random.Random(mseed), cfg, mk)
        f.train(model.training)
        if gen.coin(rng, 0.3):  # a model that has been used before
            f.train()
            gen.train_steps(f, OPTS["sgd"](f), make, random.Random(1), 2)
            f.train(model.training)
        return f

    other, oopt, path = save_load(rng, mon, model, fresh, opt, OPTS[oname])
    sig = f"{kind}:{mname}"
    d = snap.diff(s0, snap.model_state(model, lr=True))
    mon.check(not d, f"saving_changed:{kind}:{','.join(snap.kinds_of(d))}", lambda: f"{path}: {d[:4]}")
    s1 = snap.model_state(other, lr=True)
    d = snap.diff(s0, s1)
    mon.check(not d, f"state:{kind}:{','.join(snap.kinds_of(d))}", lambda: f"{path} {mname}: {d[:4]}")
    # outputs
    x = make(drng)
    model.eval()
    other.eval()
    with torch.no_grad():
        a, b = model(x), other(x)
    mon.close(b, a, f"output:{sig}", 1e-6, 1e-6, msg=path)
    # continuation
    model.train()
    other.train()
    cs = drng.getrandbits(32)
    n = rng.choice([1, 3, 5])
    la = gen.train_steps(model, opt, make, random.Random(cs), n) if False else None
    xs = [make(drng) for _ in range(n)]

    class Replay:
        def __init__(self):
            self.k = -1

        def __call__(self, _):
            self.k += 1
            return xs[self.k].clone()
    la = gen.train_steps(model, opt, Replay(), None, n)
    lb = gen.train_steps(other, oopt, Replay(), None, n)
    scale = 1e-4
    if kind == "cmp:MixedPrecision":
        return  # its transfer is stochastic
    mon.close(torch.tensor(lb), torch.tensor(la), f"losses:{kind}", scale, scale, msg=f"{path} {mname} {oname}")
    d = snap.diff(snap.model_state(model, extra=False), snap.model_state(other, extra=False), tol=pulse_tol(kind))
    mon.check(not d, f"continued:{kind}:{','.join(snap.kinds_of(d))}", lambda: f"{path} {mname} {oname}: {d[:4]}")
    mon.obs("continued")
    if oname != "sgd":
        mon.obs("opt_state")
    mon.obs("kind:" + kind)
    mon.state(kind, mname, path, before > 0, oname)
    mon.sample({"kind": kind, "model": mname, "path": path, "steps_before": before})


def pulse_tol(kind):
    return 1e-4


def independent(rng, mon):
    """Loading a state dict into a second model does not tie the two models together."""
    kind = rng.choice(gen.TRAIN_KINDS)
    cfg, kind = gen.det_train_config(rng, kind)
    mk = ["linear", "two", "mapped"]
    mseed = rng.getrandbits(32)
    model, make, mname = gen.rand_model(random.Random(mseed), cfg, mk)
    model.train()
    gen.train_steps(model, OPTS["sgd"](model), make, rng, 2)
    if kind in ("inference", "torch"):
        model.eval()
        model.program_analog_weights()
        model.drift_analog_weights(10.0)
    other, _, _ = gen.rand_model(random.Random(mseed), cfg, mk)
    other.train(model.training)
    sd = model.state_dict()
    s0 = snap.model_state(model)
    other.load_state_dict(sd, **load_kw(rng))
    c0 = [str(t.rpu_config) for _, t in snap.analog_tiles(model)]
    other.train()
    gen.train_steps(other, OPTS["sgd"](other), make, rng, 2)
    for _, t in snap.analog_tiles(other):
        t.rpu_config.mapping.weight_scaling_omega = 0.123
        if hasattr(t.rpu_config, "forward"):
            t.rpu_config.forward.inp_bound = 77.0
    if kind in ("inference", "torch"):
        other.eval()
        other.program_analog_weights()
        other.drift_analog_weights(1000.0)
    for m in other.analog_layers():
        for t in m.analog_tiles():
            t.set_weights(torch.zeros_like(t.get_weights()[0]), None if t.get_weights()[1] is None
                          else torch.zeros_like(t.get_weights()[1]))
            if t.get_mapping_scales() is not None:
                t.get_mapping_scales().mul_(3.0)
    d = snap.diff(s0, snap.model_state(model))
    mon.check(not d, f"tied:{kind}:{','.join(snap.kinds_of(d))}", lambda: f"{mname}: {d[:4]}")
    c1 = [str(t.rpu_config) for _, t in snap.analog_tiles(model)]
    mon.check(c0 == c1, f"tied_config:{kind}", "changing the loaded model's rpu_config changed the saved one's")
    mon.obs("independent")
    mon.state("indep", kind, mname)


def inference(rng, mon):
    """Programmed, drifted and range-learned inference models."""
    torch_tile = gen.coin(rng)
    cfg = TorchInferenceRPUConfig() if torch_tile else InferenceRPUConfig()
    cfg.mapping = gen.rand_mapping(rng)
    if torch_tile:
        cfg.mapping.digital_bias = True
    cfg.forward.is_perfect = gen.coin(rng, 0.3)
    cfg.forward.out_noise = 0.0
    cfg.forward.w_noise = 0.0
    cfg.forward.inp_noise = 0.0
    cfg.noise_model = rng.choice([PCMLikeNoiseModel(), PCMLikeNoiseModel(g_max=20.0), PCMLikeNoiseModel(read_noise_scale=0.0)])
    cfg.drift_compensation = rng.choice([None, GlobalDriftCompensation()])
    cfg.pre_post.input_range.enable = gen.coin(rng)
    cfg.pre_post.input_range.init_from_data = rng.choice([0, 2, 20])
    cfg.pre_post.input_range.learn_input_range = gen.coin(rng)
    if gen.coin(rng):
        cfg.modifier = WeightModifierParameter(type=WeightModifierType.ADD_NORMAL, std_dev=0.1,
                                               rel_to_actual_wmax=gen.coin(rng))
    if gen.coin(rng):
        cfg.clip = WeightClipParameter(type=WeightClipType.FIXED_VALUE, fixed_value=0.4)
    if gen.coin(rng, 0.3):
        cfg.remap = WeightRemapParameter(type=WeightRemapType.CHANNELWISE_SYMMETRIC)
    mk = ["linear", "two", "conv", "mapped", "lstm"]
    mseed = rng.getrandbits(32)
    model, make, mname = gen.rand_model(random.Random(mseed), cfg, mk)
    model.train()
    opt = OPTS["sgd"](model)
    gen.train_steps(model, opt, make, rng, rng.choice([0, 1, 4]))
    model.eval()
    hist = []
    for _ in range(rng.randint(0, 3)):
        op = rng.choice(["program", "drift", "drift"])
        hist.append(op)
        if op == "program":
            model.program_analog_weights()
        else:
            model.drift_analog_weights(rng.choice([0.0, 1.0, 100.0, 1e6]))
    s0 = snap.model_state(model)

    def fresh():
        f, _, _ = gen.rand_model(random.Random(mseed), cfg, mk)
        if gen.coin(rng, 0.3):
            f.eval()
            f.program_analog_weights()
            f.drift_analog_weights(5.0)
        f.train(model.training)
        return f
    other, _, path = save_load(rng, mon, model, fresh, None, None)
    k = "torch" if torch_tile else "inference"
    d = snap.diff(s0, snap.model_state(model))
    mon.check(not d, f"saving_changed:{k}:{','.join(snap.kinds_of(d))}", lambda: f"{path}: {d[:4]}")
    # the programmed state goes with the model object (pickle), not with a state dict
    full = path in ("pickle", "file_model")
    d = snap.diff(s0, snap.model_state(other), ignore=() if full else PROGRAMMED)
    mon.check(not d, f"state:{k}:{','.join(snap.kinds_of(d))}", lambda: f"{path} {mname} {hist}: {d[:4]}")
    x = make(rng)
    with torch.no_grad():
        a, b = model(x), other(x)
    mon.close(b, a, f"output:{k}", 1e-6, 1e-6, msg=f"{path} {mname} {hist}")
    t = rng.choice([0.0, 300.0])
    programmed = bool(hist)
    if path in ("pickle", "file_model") and programmed:
        # drift continues from the same programmed state
        for m in (model, other):
            torch.manual_seed(5)
            m.drift_analog_weights(t)
        d = snap.diff(snap.model_state(model), snap.model_state(other), tol=1e-6)
        mon.check(not d, f"drift_after:{k}:{','.join(snap.kinds_of(d))}", lambda: f"{path} {mname} {hist}: {d[:4]}")
        mon.obs("drift_after")
    elif path not in ("pickle", "file_model"):
        # the loaded weights are programmed, not some left from before
        for _, tile in snap.analog_tiles(other):
            tile.rpu_config.noise_model = PCMLikeNoiseModel(prog_noise_scale=0.0, read_noise_scale=0.0,
                                                            drift_scale=0.0)
        before = {n: tile.tile.get_weights().clone() for n, tile in snap.analog_tiles(other)}
        if gen.coin(rng):
            other.program_analog_weights()
        other.drift_analog_weights(t)
        for n, tile in snap.analog_tiles(other):
            mon.close(tile.tile.get_weights(), before[n], f"reprogram:{k}", 1e-5, 1e-5,
                      msg="programming the loaded model does not start from the loaded weights")
        mon.obs("reprogram")
    mon.obs("inference")
    mon.state("inf", k, mname, path, tuple(hist), cfg.pre_post.input_range.enable, cfg.drift_compensation is None)


def refused(rng, mon):
    """A state that does not fit is refused and named, not silently accepted."""
    kind = rng.choice(["float", "ideal", "inference", "torch", "dev:SoftBounds", "cmp:Transfer", "custom"])
    cfg, kind = gen.det_train_config(rng, kind, mapping=gen.rand_mapping(rng, scaling=False))
    i, o = rng.randint(2, 5), rng.randint(2, 5)
    model = AnalogSequential(AnalogLinear(i, o, True, copy.deepcopy(cfg)))
    sd = model.state_dict()
    what = rng.choice(["missing", "shape", "class", "extra_key", "hidden"])
    other = AnalogSequential(AnalogLinear(i, o, True, copy.deepcopy(cfg)))
    s0 = snap.model_state(other)
    name = [k for k in sd if k.endswith("analog_tile_state")][0]
    if what == "missing":
        del sd[name]
    elif what == "shape":
        other = AnalogSequential(AnalogLinear(i + 1, o, True, copy.deepcopy(cfg)))
        if gen.coin(rng):
            other = AnalogSequential(AnalogLinear(i, o + 1, True, copy.deepcopy(cfg)))
    elif what == "class":
        alt = rng.choice(["float", "dev:ConstantStep", "inference"])
        if alt == kind or (kind == "torch" and alt == "inference"):
            raise Skip()
        c2, _ = gen.det_train_config(rng, alt, mapping=copy.deepcopy(cfg.mapping))
        if type(c2) is type(cfg):
            raise Skip()
        other = AnalogSequential(AnalogLinear(i, o, True, c2))
    elif what == "extra_key":
        sd["0.nonsense"] = torch.zeros(1)
    elif what == "hidden":
        if kind.startswith(("dev", "cmp")):
            sd[name] = dict(sd[name])
            sd[name]["analog_tile_hidden_parameter_names"] = ["a"] * 3
        else:
            raise Skip()
    kw = {"load_rpu_config": False} if what == "class" else {}
    mon.raises(lambda: other.load_state_dict(sd, **kw), f"refuse:{what}:{kind}",
               f"state with {what} was loaded without complaint")
    # still usable
    y = other(torch.randn(2, other[0].in_features))
    mon.check(torch.isfinite(y).all() and y.shape == (2, other[0].out_features), f"usable:{what}:{kind}",
              "model unusable after refused load")
    mon.obs("refused")
    mon.state("refuse", what, kind)


def optimizer(rng, mon):
    """Optimizer state: options of groups and digital momentum survive."""
    cfg, kind = gen.det_train_config(rng, rng.choice(["float", "ideal", "inference", "dev:ConstantStep"]))
    model, make, mname = gen.rand_model(random.Random(rng.getrandbits(32)), cfg, ["two"])
    oname = rng.choice(["sgd", "mom", "adam"])
    groups = [{"params": list(model[0].parameters()), "lr": 0.02},
              {"params": [p for m in list(model)[1:] for p in m.parameters()]}]
    mk = {"sgd": lambda m, g: AnalogSGD(g, lr=0.1), "mom": lambda m, g: AnalogSGD(g, lr=0.1, momentum=0.9),
          "adam": lambda m, g: AnalogAdam(g, lr=0.1)}[oname]
    opt = mk(model, groups)
    gen.train_steps(model, opt, make, rng, rng.choice([0, 2]))
    opt.param_groups[0]["lr"] = 0.007
    sd = copy.deepcopy(opt.state_dict()) if gen.coin(rng) else pickle.loads(pickle.dumps(opt.state_dict()))
    other = copy.deepcopy(model)
    g2 = [{"params": list(other[0].parameters()), "lr": 0.5},
          {"params": [p for m in list(other)[1:] for p in m.parameters()], "lr": 0.3}]
    o2 = mk(other, g2)
    o2.load_state_dict(sd)
    lr1 = [(g["lr"], len(g["params"])) for g in opt.param_groups]
    lr2 = [(g["lr"], len(g["params"])) for g in o2.param_groups]
    mon.check(lr1 == lr2, f"opt_groups:{oname}", lambda: f"{lr1} vs {lr2}")
    xs = [make(rng) for _ in range(3)]

    def rep():
        it = iter(xs)
        return lambda _: next(it).clone()
    gen.train_steps(model, opt, rep(), None, 3)
    gen.train_steps(other, o2, rep(), None, 3)
    d = snap.diff(snap.model_state(model, extra=False), snap.model_state(other, extra=False), tol=1e-5)
    mon.check(not d, f"opt_continue:{oname}:{kind}", lambda: f"{d[:4]}")
    mon.obs("opt_state")
    mon.state("opt", oname, kind)


SCENARIOS = [
    Scenario("trajectory", trajectory, quick=400, thorough=8000),
    Scenario("independent", independent, quick=120, thorough=2000),
    Scenario("inference", inference, quick=250, thorough=5000),
    Scenario("refused", refused, quick=120, thorough=1500),
    Scenario("optimizer", optimizer, quick=80, thorough=1500),
]
