"""P21: seeds reproduce, distinct tiles are distinct, and evaluating or reading changes nothing.

Monitor: complete state dumps (weights, hidden parameters, counters, buffers, extra state) of the
real tiles around every read-only operation, and event-by-event comparison of two executions of the
same calls from the same seed with unrelated activity of other tiles in between.
"""
import copy
import gc
import io
import pickle
import contextlib

import torch
from torch import nn

import gen
import snap
from vh import Scenario, Skip, seed_all
from aihwkit.nn import AnalogLinear, AnalogLinearMapped, AnalogSequential, AnalogConv2d
from aihwkit.nn.conversion import convert_to_analog
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import (
    FloatingPointRPUConfig, IdealDevice, InferenceRPUConfig, IOParameters, SingleRPUConfig, TorchInferenceRPUConfig, UnitCellRPUConfig,
    DigitalRankUpdateRPUConfig, WeightModifierType, WeightNoiseType, build_config, UpdateParameters)
from aihwkit.inference import PCMLikeNoiseModel, ReRamWan2022NoiseModel, StateIndependentNoiseModel, GlobalDriftCompensation
from aihwkit.simulator.rpu_base import devices as _dev
from aihwkit.utils.analog_info import analog_summary

PID = "P21"
RULE = "one state per (scenario, tile kind, device, operation)"
ASSUMPTIONS = ["without a construction seed the compiled generators are seeded from the clock, which the harness replaces by a counter it sets",
               "results are compared with the same number of threads of the linear algebra back end"]
REQUIRES = ("seeded_device", "seeded_compound", "seeded_build", "distinct", "isolated", "torch_seed", "clocked", "unchanged", "initial")

DTOD = ["ConstantStep", "LinearStep", "SoftBounds", "ExpStep", "PowStep", "SoftBoundsReference", "PowStepReference", "PiecewiseStep", "SoftBoundsPmax"]


def varied(rng, kind=None):
    """A device whose update parameters certainly vary from crosspoint to crosspoint."""
    d = gen.rand_device(rng, kind or rng.choice(DTOD))
    d.dw_min_dtod = 0.3
    for f in ("w_max_dtod", "w_min_dtod"):
        if hasattr(d, f):
            setattr(d, f, 0.3)
    return d


def hidden(tile):
    return {k: v.detach().clone() for k, v in tile.get_hidden_parameters().items()
            if "hidden_weights" not in k and "persistent" not in k and "FP" not in k and "mean_weight" not in k}


def same(a, b):
    return a.keys() == b.keys() and all(torch.equal(a[k], b[k]) for k in a)


def activity(rng):
    """Something else that uses the simulator."""
    for _ in range(rng.randint(0, 2)):
        m = AnalogLinear(rng.randint(1, 5), rng.randint(1, 5), rpu_config=SingleRPUConfig(device=gen.rand_device(rng)))
        opt = AnalogSGD(m.parameters(), lr=.1)
        m(torch.randn(2, m.in_features)).sum().backward()
        opt.step()
        if gen.coin(rng):
            del m, opt
            gc.collect()


def seeded_config(rng, seed):
    """(function building the configuration for a seed, name)"""
    what = rng.choice(["device", "compound", "build", "reference"])
    if what == "device":
        kind = rng.choice(DTOD)
        d = varied(rng, kind)

        def make(s):
            e = copy.deepcopy(d)
            e.construction_seed = s
            return SingleRPUConfig(device=e)
        return make, "seeded_device", kind
    if what == "compound":
        kind = rng.choice(gen.COMPOUND_KINDS)
        c = gen.rand_compound(rng, kind)
        for d in ([c.device] if kind == "MixedPrecision" else c.unit_cell_devices):
            d.dw_min_dtod = 0.3

        def make(s):
            e = copy.deepcopy(c)
            e.construction_seed = s
            return (DigitalRankUpdateRPUConfig if kind == "MixedPrecision" else UnitCellRPUConfig)(device=e)
        return make, "seeded_compound", kind
    if what == "reference":
        base, kind = rng.choice([("IdealDevice", "ideal")] + [("x", k) for k in DTOD[:3]])
        d = varied(rng, kind if kind != "ideal" else None)

        def make(s):
            e = copy.deepcopy(d)
            e.construction_seed = s
            return SingleRPUConfig(device=e, update=UpdateParameters(desired_bl=rng.randint(1, 30)))
        return make, "seeded_device", kind
    algo = rng.choice(["sgd", "sgd2", "ttv1", "ttv2", "c-ttv2", "agad", "mp"])
    d = varied(rng, rng.choice(["ConstantStep", "LinearStep", "SoftBounds", "SoftBoundsReference"]))

    def make(s):
        return build_config(algo.rstrip("2") if algo == "sgd2" else algo, device=copy.deepcopy(d), construction_seed=s,
                            n_devices=2 if algo == "sgd2" else 1)
    return make, "seeded_build", algo


def sc_construct(rng, mon):
    s = rng.choice([1, 2, 7, 1234, 2 ** 31 - 1, rng.randint(1, 10 ** 6)])
    make, tag, name = seeded_config(rng, s)
    i, o = rng.randint(3, 9), rng.randint(3, 7)
    bias = gen.coin(rng)
    mon.ctx = f"{tag} {name} seed={s} {o}x{i} bias={bias}"

    def tile(seed):
        c = make(seed)
        c.mapping.digital_bias = True
        return AnalogLinear(i, o, bias, c).analog_module
    nt = torch.get_num_threads()
    keep = rng.getstate()
    a = tile(s)
    activity(rng)
    rng.setstate(keep)
    try:
        torch.set_num_threads(rng.choice([1, 2, 8]))
        b = tile(s)
    finally:
        torch.set_num_threads(nt)
    ha, hb = hidden(a), hidden(b)
    varies = [k for k, v in ha.items() if v.unique().numel() > v.numel() // 2]
    mon.check(bool(varies), "construct:varies", "device-to-device variation absent")
    mon.check(same(ha, hb), f"construct:seed:{tag}", f"hidden parameters differ for the same construction seed: {[k for k in ha if not torch.equal(ha[k], hb[k])]}")
    mon.obs(tag)
    mon.state(tag, name)
    # other seed, no seed
    rng.setstate(keep)
    other = hidden(tile(s + 1 if s < 2 ** 31 - 1 else 5))
    rng.setstate(keep)
    n1 = hidden(tile(0))
    rng.setstate(keep)
    n2 = hidden(tile(0))
    for x, y, what in ((ha, other, "other seed"), (ha, n1, "no seed"), (n1, n2, "two tiles without seed")):
        eq = [k for k in varies if float((x[k] == y[k]).float().mean()) > .5]
        mon.check(not eq, "construct:distinct", f"{what}: {eq} coincide")
    # sub-devices of one unit cell and crosspoints of one tile
    stems = {}
    for k in varies:
        stem, _, idx = k.rpartition("_")
        if idx.isdigit():
            stems.setdefault(stem, []).append(k)
    for st, ks in stems.items():
        for x in range(len(ks)):
            for y in range(x):
                mon.check(not float((ha[ks[x]] == ha[ks[y]]).float().mean()) > .5, "construct:subdevices", f"{ks[x]} and {ks[y]} coincide")
    mon.obs("distinct")


def sc_layers(rng, mon):
    """Tiles of one model, tile arrays, conversions and copies."""
    d = varied(rng)
    s = rng.choice([0, 0, 5, 77])
    d.construction_seed = s
    c = SingleRPUConfig(device=d)
    c.mapping.max_input_size, c.mapping.max_output_size = 4, 4
    c.mapping.digital_bias = True
    mon.ctx = f"{type(d).__name__} seed={s}"
    form = rng.choice(["mapped", "model", "convert"])
    if form == "mapped":
        m = AnalogLinearMapped(8, 8, True, c)
    elif form == "model":
        m = AnalogSequential(AnalogLinear(4, 4, rpu_config=c), AnalogLinear(4, 4, rpu_config=c), AnalogConv2d(1, 4, 2, rpu_config=c))
    else:
        m = convert_to_analog(nn.Sequential(nn.Linear(4, 4), nn.Linear(4, 4)), c)
    hs = [hidden(t) for t in m.analog_tiles()]
    for x in range(len(hs)):
        for y in range(x):
            if hs[x]["dwmin_up"].shape != hs[y]["dwmin_up"].shape:
                continue
            if s:
                mon.check(same(hs[x], hs[y]), "layers:seed", f"{form}: tiles {x}, {y} differ with the same construction seed")
            else:
                mon.check(not float((hs[x]["dwmin_up"] == hs[y]["dwmin_up"]).float().mean()) > .5, "layers:distinct",
                          f"{form}: tiles {x}, {y} have the same devices")
    mon.obs("distinct")
    mon.state(form, s > 0)


# ---- isolation
def noisy_config(rng, kind=None):
    from P06_io_model import rand_io
    kind = kind or rng.choice(gen.TRAIN_KINDS)
    cfg, kind = gen.det_train_config(rng, kind, gen.rand_mapping(rng, max_size=False, digital_bias=True))
    if hasattr(cfg, "forward") and kind not in ("float",):
        tt = kind in ("torch", "custom")
        cfg.forward = rand_io(rng, tt)
        if hasattr(cfg, "backward") and not tt:
            cfg.backward = rand_io(rng, tt, True)
        for p in (cfg.forward,) + ((cfg.backward,) if hasattr(cfg, "backward") and not tt else ()):
            p.out_noise = rng.choice([0., .06])
            p.inp_noise = rng.choice([0., .03])
            if kind not in ("custom", "torch"):
                p.w_noise_type = rng.choice([WeightNoiseType.NONE, WeightNoiseType.ADDITIVE_CONSTANT])
                p.w_noise = .02
    if kind in ("inference", "torch"):
        cfg.modifier.type = rng.choice([WeightModifierType.NONE, WeightModifierType.ADD_NORMAL, WeightModifierType.MULT_NORMAL]
                                       + ([WeightModifierType.DISCRETIZE_ADD_NORMAL] if kind == "inference" else []))
        cfg.modifier.std_dev, cfg.modifier.res = .05, .1
        cfg.modifier.enable_during_test = False
        cfg.pre_post.input_range.enable = gen.coin(rng)
        cfg.drift_compensation = rng.choice([None, GlobalDriftCompensation()])
        cfg.noise_model = rng.choice([PCMLikeNoiseModel, StateIndependentNoiseModel])(g_max=25.)
    elif kind not in ("float", "ideal", "custom", "constant") and gen.coin(rng) and hasattr(cfg.update, "pulse_type"):
        from aihwkit.simulator.configs import PulseType
        cfg.update.pulse_type = rng.choice([PulseType.STOCHASTIC_COMPRESSED, PulseType.STOCHASTIC, PulseType.MEAN_COUNT])
    return cfg, kind


def build(rng, cfg):
    return gen.rand_model(rng, cfg, ["linear", "two", "conv", "lstm", "mapped"])


def train(m, make, rng, n=1, lr=.1):
    opt = AnalogSGD(m.parameters(), lr=lr)
    m.train()
    for _ in range(n):
        opt.zero_grad()
        y = m(make(rng))
        (y ** 2).sum().backward()
        opt.step()


def model_for(rng, kind=None):
    cfg, kind = noisy_config(rng, kind)
    m, make, form = build(rng, cfg)
    return m, make, kind, form, cfg


def sc_isolation(rng, mon):
    a, make, kind, form, cfg = model_for(rng)
    mon.ctx = f"{kind} {form} bindings={cfg}"[:350]
    train(a, make, rng, rng.randint(0, 2))
    how = rng.choice(["deepcopy", "pickle", "same config", "same config"])
    if how == "deepcopy":
        b = copy.deepcopy(a)
    elif how == "pickle":
        b = pickle.loads(pickle.dumps(a))
    else:
        b, make, _ = build(rng, cfg)
    first, second = (a, b) if gen.coin(rng) else (b, a)
    before = snap.model_state(second)
    conf = repr(cfg)
    mk = make if how != "same config" or first is b else None
    for _ in range(rng.randint(1, 3)):
        op = rng.choice(["train", "eval", "weights", "hidden", "reset", "lr", "program", "delete"])
        tiles = list(first.analog_tiles())
        with contextlib.redirect_stdout(io.StringIO()):
            if op == "train" and mk:
                train(first, mk, rng)
            elif op == "eval" and mk:
                first.eval()
                first(mk(rng))
                first.train()
            elif op == "weights":
                for t in tiles:
                    t.set_weights(torch.rand(t.out_size, t.in_size) * .3, None)
            elif op == "hidden":
                for t in tiles:
                    h = t.get_hidden_parameters()
                    if h:
                        t.set_hidden_parameters({k: v * .9 for k, v in h.items()})
            elif op == "reset" and kind.startswith("dev"):
                for t in tiles:
                    t.reset_columns(0, 1, 1.0)
            elif op == "lr":
                for t in tiles:
                    t.set_learning_rate(.3)
            elif op == "program" and kind in ("inference", "torch"):
                first.eval()
                for mod in first.modules():
                    if hasattr(mod, "program_analog_weights"):
                        mod.program_analog_weights()
            elif op == "delete":
                first = None
                a = b = None
                del tiles
                gc.collect()
                mon.check(not snap.diff(before, snap.model_state(second)), f"isolation:{kind}:{op}", "state of the other model changed")
                break
        dif = snap.diff(before, snap.model_state(second))
        mon.check(not dif, f"isolation:{kind}:{op}:{','.join(snap.kinds_of(dif))}", f"{how}: {dif[:4]}")
        mon.state("isolated", kind, op, how)
    mon.check(repr(cfg) == conf, "isolation:config", "configuration changed")


# ---- seeds
def ops(m, make, kind, script, xr):
    """Run a script and return everything that is observable on the way."""
    import random
    r = random.Random(xr)
    log = []
    for op, arg in script:
        if op == "train":
            train(m, make, r, 1, arg)
        elif op == "eval":
            m.eval()
            with torch.no_grad():
                log.append(m(make(r)).detach().clone())
            m.train()
        elif op == "program":
            m.eval()
            for mod in m.modules():
                if hasattr(mod, "program_analog_weights"):
                    mod.program_analog_weights()
            m.train()
        elif op == "drift":
            m.eval()
            for mod in m.modules():
                if hasattr(mod, "drift_analog_weights"):
                    mod.drift_analog_weights(arg)
            with torch.no_grad():
                log.append(m(make(r)).detach().clone())
            m.train()
        elif op == "reset":
            for t in m.analog_tiles():
                t.reset_columns(0, 1, .7)
        elif op == "read":
            for t in m.analog_tiles():
                log.append((t.read_weights(over_sampling=r.choice([1, 5]))[0],))
        elif op == "decay":
            for t in m.analog_tiles():
                t.decay_weights(.5) if hasattr(t, "decay_weights") else None
    st = snap.model_state(m)
    return log, st


def script_for(rng, kind):
    s = []
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(["train", "train", "eval", "read"] + (["program", "drift"] if kind in ("inference", "torch") else [])
                        + (["reset"] if kind.startswith("dev") else []))
        if op == "drift":
            s.append(("program", 0))
        s.append((op, rng.choice([.05, .2]) if op == "train" else rng.choice([1., 100., 3600.])))
        if op == "drift" and kind == "torch":
            break
    return s


def agree(x, y):
    if isinstance(x, tuple):       # least squares are not reproducible to the bit
        return torch.allclose(x[0], y[0], atol=2e-3, rtol=2e-3, equal_nan=True)
    return torch.equal(x.nan_to_num(), y.nan_to_num())


def twice(rng, mon, kind, clock):
    key = rng.randint(1, 10 ** 6)
    cfg, kind = noisy_config(rng, kind)
    script = script_for(rng, kind)
    mstate = rng.getstate()
    import random
    res = []
    mon.ctx = f"{kind} {script} {cfg}"[:500]
    for k in range(2):
        r = random.Random()
        r.setstate(mstate)
        if k:
            activity(rng)
            junk = [torch.full((97,), float("nan")) for _ in range(50)]  # memory that is given back dirty
            del junk
            torch.rand(rng.randint(1, 20))
        if clock:
            seed_all(key)
        else:
            torch.manual_seed(key)
        m, make, form = build(r, copy.deepcopy(cfg))
        res.append(ops(m, make, kind, script, key))
        del m
    (l1, s1), (l2, s2) = res
    what = "clocked" if clock else "torch_seed"
    bad = [i for i, (x, y) in enumerate(zip(l1, l2)) if not agree(x, y)]
    mon.check(len(l1) == len(l2) and not bad, f"{what}:outputs:{kind}", f"outputs {bad} of {len(l1)} differ between two runs from the same seed")
    dif = snap.diff(s1, s2)
    mon.check(not dif, f"{what}:state:{kind}:{','.join(snap.kinds_of(dif))}", f"{dif[:4]}")
    mon.state(what, kind, form, tuple(o for o, _ in script))


def sc_torch_seed(rng, mon):
    twice(rng, mon, rng.choice(["torch", "torch", "custom"]), False)


def sc_clocked(rng, mon):
    twice(rng, mon, None, True)


def sc_initial(rng, mon):
    """The configuration does not change the initial weights drawn from a seed."""
    key = rng.randint(1, 10 ** 6)
    import random
    st = rng.getstate()
    kinds = ["float"] + [rng.choice(gen.TRAIN_KINDS + ["inference", "torch"]) for _ in range(2)]
    form = rng.choice(["linear", "conv", "stack", "lstm"])
    i, o = rng.randint(2, 6), rng.randint(2, 6)
    bias = gen.coin(rng)
    seen = []
    ctx = []
    for k in kinds:
        cfg, kind = gen.det_train_config(rng, k, gen.rand_mapping(rng, max_size=False, digital_bias=True, scaling=False))
        ctx.append(kind)
        mon.ctx = f"{ctx} {form} {i} {o} {bias}"
        torch.manual_seed(key)
        if form == "linear":
            m = AnalogLinear(i, o, bias, cfg)
        elif form == "conv":
            m = AnalogConv2d(i, o, 2, bias=bias, rpu_config=cfg)
        elif form == "lstm":
            from aihwkit.nn import AnalogRNN, AnalogLSTMCell
            m = AnalogRNN(AnalogLSTMCell, i, o, bias=bias, rpu_config=cfg)
        else:
            m = AnalogSequential(AnalogLinear(i, o, bias, cfg), nn.Linear(o, 3), AnalogLinear(3, 2, bias, cfg))
        w = []
        for mod in m.modules():
            if isinstance(mod, (AnalogLinear, AnalogConv2d)):
                w += [x for x in mod.get_weights() if x is not None]
            elif type(mod) is nn.Linear:
                w += [mod.weight, mod.bias]
        w.append(torch.rand(3))
        seen.append([x.detach().clone() for x in w])
    for k, w in zip(ctx[1:], seen[1:]):
        # device bounds clip the weights of pulsed devices, but the generator must be at the same point
        mon.check(torch.equal(w[-1], seen[0][-1]), f"initial:generator:{form}", f"{k}: construction leaves the torch generator elsewhere")
        if k in ("ideal", "inference", "torch", "custom"):
            mon.check(len(w) == len(seen[0]) and all(torch.allclose(x, y, atol=1e-6) for x, y in zip(w, seen[0])), f"initial:weights:{form}",
                      f"{k}: initial weights differ from the floating point layer")
            mon.obs("initial")
    mon.state("form", form, tuple(ctx[1:]))


# ---- evaluation
def sc_unchanged(rng, mon):
    m, make, kind, form, cfg = model_for(rng)
    mon.ctx = f"{kind} {form} {cfg}"[:500]
    train(m, make, rng, rng.randint(0, 2))
    m.eval()
    if kind in ("inference", "torch") and gen.coin(rng):
        for mod in m.modules():
            if hasattr(mod, "program_analog_weights"):
                mod.program_analog_weights()
        if gen.coin(rng):
            for mod in m.modules():
                if hasattr(mod, "drift_analog_weights"):
                    mod.drift_analog_weights(50.)
    before = snap.model_state(m)
    conf = repr(cfg)
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(["forward", "forward", "grad", "forward_many", "repr", "read", "get", "state_dict", "summary", "copy", "brief", "hidden", "tile"])
        tiles = list(m.analog_tiles())
        x = make(rng)
        keep = x.clone()
        with contextlib.redirect_stdout(io.StringIO()):
            if op == "forward":
                with torch.no_grad():
                    m(x)
            elif op == "grad":
                y = m(x.requires_grad_(True))
                if y.requires_grad:
                    torch.autograd.grad(y.sum(), x, allow_unused=True)
                x = x.detach()
            elif op == "forward_many":
                for _ in range(3):
                    m(x)
            elif op == "repr":
                repr(m), str(m)
                [repr(t) for t in tiles]
                [str(t.tile) for t in tiles]
            elif op == "read":
                for t in tiles:
                    t.read_weights(apply_weight_scaling=gen.coin(rng), over_sampling=rng.choice([1, 3]))
            elif op == "get":
                for t in tiles:
                    t.get_weights(), t.get_weights(apply_weight_scaling=False), t.get_scales(), t.get_hidden_parameters()
                    t.get_learning_rate(), t.get_forward_weights() if hasattr(t, "get_forward_weights") else None
            elif op == "state_dict":
                m.state_dict()
            elif op == "summary":
                analog_summary(m, tuple(x.shape)) if form in ("linear", "two", "mapped", "conv") else None
            elif op == "copy":
                copy.deepcopy(m)
                pickle.dumps(m)
            elif op == "brief":
                for t in tiles:
                    if hasattr(t.tile, "get_brief_info"):
                        t.tile.get_brief_info()
                    t.tile.dump_extra()
            elif op == "hidden":
                for t in tiles:
                    if hasattr(t.tile, "get_hidden_parameter_names"):
                        t.tile.get_hidden_parameter_names()
            else:
                for t in tiles:
                    t.joint_forward(torch.randn(2, t.in_size), is_test=True) if not t.image_sizes else None
        dif = snap.diff(before, snap.model_state(m), ignore=("aux_nm_value_bwd", "last_update_m_batch"))
        mon.check(not dif, f"unchanged:{kind}:{op}:{','.join(snap.kinds_of(dif))}", f"{dif[:4]}")
        mon.check(torch.equal(x.nan_to_num(), keep.nan_to_num()), "unchanged:input", f"{op} changed its input")
        mon.state("unchanged", kind, form, op)
    mon.check(repr(cfg) == conf, "unchanged:config", "configuration changed")


SCENARIOS = [
    Scenario("construct", sc_construct, quick=300, thorough=8000),
    Scenario("layers", sc_layers, quick=80, thorough=2000),
    Scenario("isolation", sc_isolation, quick=300, thorough=8000),
    Scenario("torch_seed", sc_torch_seed, quick=150, thorough=3000),
    Scenario("clocked", sc_clocked, quick=400, thorough=10000),
    Scenario("initial", sc_initial, quick=100, thorough=2500),
    Scenario("unchanged", sc_unchanged, quick=500, thorough=12000),
]
