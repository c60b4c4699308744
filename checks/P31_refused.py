"""P31: a refused or interrupted call leaves the model as it was.

Monitor: the complete state of a model (weights, hidden parameters, scales, ranges, simulator state, mode,
configuration) is recorded before and after every call that raises. A twin that never sees the failing
calls is trained alongside; both must stay equal, bit for bit, to the end of the history.
"""
import copy

import torch
from torch import nn

import gen
import snap
from gen import coin
from vh import Scenario, Skip
from aihwkit.inference.calibration.calibration import InputRangeCalibrationType, calibrate_input_ranges
from aihwkit.nn import AnalogConv2d, AnalogLinear, AnalogLinearMapped, AnalogSequential
from aihwkit.nn.conversion import convert_to_analog
from aihwkit.optim import AnalogAdam, AnalogSGD
from aihwkit.simulator.configs import InferenceRPUConfig, SingleRPUConfig, TorchInferenceRPUConfig, devices as D
from aihwkit.simulator.parameters.enums import NoiseManagementType

PID = "P31"
RULE = "one state per (refused operation, kind of configuration, kind of model)"
ASSUMPTIONS = ["torch loads state dictionaries module by module: of a refused one only the tile that refused it is judged",
               "random generators are no part of the state; the configurations of the twins are deterministic"]
REQUIRES = ("refused", "interrupted", "twin", "calibrate", "convert", "parameters")


class Injected(Exception):
    """Raised by user code in the middle of an operation."""


def wrong_tensor(rng, shape):
    shape = list(shape)
    kind = rng.choice(["size", "size", "first", "dims", "dtype", "empty", "type"])
    if kind == "size":
        shape[-1] += rng.choice([-1, 1, 3]) if shape[-1] > 1 else 1
        return torch.randn(shape)
    if kind == "first":
        shape[0] += 1
        return torch.randn(shape)
    if kind == "dims":
        return torch.randn(*shape, 2)
    if kind == "dtype":
        return torch.ones(shape).to(rng.choice([torch.float64, torch.int64, torch.complex64, torch.bool]))
    if kind == "empty":
        return torch.empty(0)
    return rng.choice([None, 3, "x"])


def config_text(model):
    return {n: repr(t.rpu_config) for n, t in snap.analog_tiles(model)}


def full_state(model):
    out = snap.model_state(model, lr=True)
    out.update({f"mode:{n}": torch.tensor(float(m.training)) for n, m in model.named_modules()})
    return out


def layers_of(model):
    return [m for m in model.modules() if isinstance(m, (AnalogLinear, AnalogLinearMapped, AnalogConv2d))]


def hooks_of(model):
    return sum(len(m._forward_hooks) + len(m._forward_pre_hooks) + len(m._backward_hooks) for m in model.modules())


# ---- operations that should be refused: name -> fn(rng, model, x)
def op_forward(rng, model, x):
    model(wrong_tensor(rng, x.shape))


def op_set_weights(rng, model, x):
    ls = layers_of(model)
    layer = rng.choice(ls) if ls else None
    if layer is None:
        raise Skip()
    w, b = layer.get_weights()
    if b is not None and coin(rng, 0.4):
        layer.set_weights(w + 1.0, wrong_tensor(rng, b.shape))
    else:
        layer.set_weights(wrong_tensor(rng, w.shape), None if b is None else b + 1.0)


def some_tile(rng, model):
    return rng.choice([t for _, t in snap.analog_tiles(model)])


def op_tile_weights(rng, model, x):
    t = some_tile(rng, model)
    t.tile.set_weights(wrong_tensor(rng, t.tile.get_weights().shape))


def op_tile_set(rng, model, x):
    t = some_tile(rng, model)
    w, b = t.get_weights()
    if b is not None and coin(rng):
        return t.set_weights(w + 1.0, wrong_tensor(rng, b.shape))
    return t.set_weights(wrong_tensor(rng, w.shape), b)


def op_hidden(rng, model, x):
    t = some_tile(rng, model)
    h = t.get_hidden_parameters()
    if not h:
        raise Skip()
    how = rng.choice(["shape", "unknown", "fewer"])
    k = rng.choice(list(h))
    if how == "shape":
        h[k] = torch.randn(h[k].shape[0] + 1, *h[k].shape[1:])
    elif how == "unknown":
        h["nothing"] = h.pop(k)
    else:
        h.pop(k)
    t.set_hidden_parameters(h)


def op_update(rng, model, x):
    t = some_tile(rng, model)
    if not hasattr(t, "update"):
        raise Skip()
    o, i = t.tile.get_d_size(), t.tile.get_x_size()
    a, b = torch.randn(2, i), torch.randn(2, o)
    if coin(rng):
        a = wrong_tensor(rng, a.shape)
    else:
        b = wrong_tensor(rng, b.shape)
    t.tile.update(a, b, False, False, False, False)


def op_backward(rng, model, x):
    t = some_tile(rng, model)
    t.tile.backward(wrong_tensor(rng, (2, t.tile.get_d_size())))


def op_mode(rng, model, x):
    if not model.training:
        raise Skip()
    if coin(rng):
        model.program_analog_weights()
    else:
        model.drift_analog_weights(100.0)


def op_replace(rng, model, x):
    """Replacing the configuration of a tile by an incompatible one."""
    t = some_tile(rng, model)
    if coin(rng):
        new = copy.deepcopy(t.rpu_config)
        new.mapping.max_input_size += 5
        new.mapping.digital_bias = not new.mapping.digital_bias
    else:
        new = SingleRPUConfig(device=D.LinearStepDevice()) if hasattr(t.rpu_config, "noise_model") else TorchInferenceRPUConfig()
    t.replace_with(new)


def op_load(rng, model, x):
    """The state of a model whose tiles do not fit."""
    sd = copy.deepcopy(model.state_dict())
    keys = [k for k in sd if k.endswith("analog_tile_state")]
    st = sd[rng.choice(keys)] if keys else None
    if st is None:
        raise Skip()
    how = rng.choice(["hidden_names", "config", "mapping", "class"])
    if how == "hidden_names":
        names = list(st.get("analog_tile_hidden_parameter_names", []))
        if not names:
            raise Skip()
        st["analog_tile_hidden_parameter_names"] = names[1:] + ["nothing"]
        st["analog_tile_weights"] = st["analog_tile_weights"] + 0.1
    elif how == "config":
        st["rpu_config"] = SingleRPUConfig(device=D.LinearStepDevice()) if hasattr(st["rpu_config"], "noise_model") \
            else TorchInferenceRPUConfig()
    elif how == "mapping":
        st["rpu_config"] = copy.deepcopy(st["rpu_config"])
        st["rpu_config"].mapping.max_input_size += 5
    else:
        st["analog_tile_class"] = "NoTile"
    single = len(keys) == 1 and len(sd) <= 4
    if not single:
        raise Skip()
    model.load_state_dict(sd, load_rpu_config=how in ("class", "mapping") and coin(rng))


def op_remap(rng, model, x):
    t = some_tile(rng, model)
    t.tile.remap_weights(rng.choice([None, "x", object()]), wrong_tensor(rng, (t.tile.get_d_size(),)))


OPS = {f.__name__[3:]: f for f in (op_forward, op_set_weights, op_tile_weights, op_tile_set, op_hidden, op_update,
                                   op_backward, op_mode, op_replace, op_load, op_remap)}


# ---- steps that are interrupted by an exception of user code
def interrupted_step(rng, model, opt, x, mon):
    mods = [m for n, m in model.named_modules() if n]
    how = rng.choice(["pre", "post", "loss", "grad", "closure", "closure"])
    handle = None

    def boom(*_):
        raise Injected()

    m = rng.choice(mods)
    if how == "pre":
        handle = m.register_forward_pre_hook(boom)
    elif how == "post":
        handle = m.register_forward_hook(boom)
    elif how == "grad":
        def attach(_, __, out):
            if isinstance(out, torch.Tensor) and out.requires_grad:
                out.register_hook(boom)
        handle = m.register_forward_hook(attach)
    try:
        opt.zero_grad()
        if how == "closure":
            def closure():
                opt.zero_grad()
                loss = (model(x) ** 2).sum()
                if coin(rng):
                    loss.backward()
                boom()
            opt.step(closure)
        loss = (model(x) ** 2).sum()
        if how == "loss":
            boom()
        loss.backward()
    except Injected:
        return how
    finally:
        if handle is not None:
            handle.remove()
    # the hook was not reached: the gradients are discarded
    return None


def step(model, opt, x):
    opt.zero_grad()
    y = model(x)
    loss = (y ** 2).sum() + y.sum()
    loss.backward()
    opt.step()
    return float(loss.detach())


def s_history(rng, mon):
    cfg, kind = gen.det_train_config(rng, rng.choice([k for k in gen.TRAIN_KINDS if k != "cmp:MixedPrecision"]))
    which = rng.choice(["linear", "linear", "conv", "conv_idx", "mapped", "lstm"])
    if which == "conv_idx" and kind in ("torch", "custom", "torch_inference", "irdropt"):
        which = "conv"
    torch.manual_seed(rng.getrandbits(30))
    model, make, mk = gen.rand_model(rng, cfg, [which])
    twin = copy.deepcopy(model)
    lr = rng.choice([0.1, 0.02])
    cls = rng.choice([AnalogSGD, AnalogSGD, AnalogAdam])
    opts = []
    for m in (model, twin):
        o = cls(m.parameters(), lr=lr)
        o.regroup_param_groups(m)
        opts.append(o)
    base = f"{kind} {mk} {cls.__name__}"
    events = []
    for k in range(rng.randint(4, 8)):
        x = make(rng)
        ev = rng.choice(["train", "train", "refused", "refused", "interrupted", "mode"])
        mon.ctx = f"{base} step {k} {ev} after {events[-4:]}"
        if ev == "train":
            model.train()
            twin.train()
            step(model, opts[0], x)
            step(twin, opts[1], x)
            events.append(ev)
        elif ev == "mode":
            on = coin(rng)
            model.train(on)
            twin.train(on)
            events.append(f"train={on}")
        elif ev == "refused":
            name = rng.choice(list(OPS))
            before, text, hooks = full_state(model), config_text(model), hooks_of(model)
            mon.ctx = f"{base} step {k} {name} after {events[-4:]}"
            try:
                OPS[name](rng, model, x)
            except Skip:
                continue
            except Exception as e:
                d = snap.diff(before, full_state(model))
                mon.check(not d, f"refused:{name}:{','.join(sorted(snap.kinds_of(d) or [])[:2]) if d else ''}",
                          lambda: f"{type(e).__name__}: {str(e)[:80]}: {d[:3]}")
                mon.check(config_text(model) == text, f"refused:{name}:config", lambda: f"the configuration changed: {str(e)[:100]}")
                mon.check(hooks_of(model) == hooks, f"refused:{name}:hooks", "hooks were left")
                mon.obs("refused")
                mon.state(name, kind, mk)
                events.append(name)
                if d:
                    return
            else:
                # accepted after all: the twin gets the state the model has now
                mon.obs("accepted:" + name)
                return
        else:
            model.train()
            twin.train()
            w = {n: t.tile.get_weights().clone() for n, t in snap.analog_tiles(model)}
            how = interrupted_step(rng, model, opts[0], x, mon)
            opts[0].zero_grad()
            for n, t in snap.analog_tiles(model):
                mon.check(torch.equal(w[n], t.tile.get_weights()), f"interrupted:{how}:weights", "the weights changed")
            mon.obs("interrupted" if how else "not_reached")
            mon.state("interrupted", how, kind, mk)
            events.append(f"interrupted:{how}")
    model.train()
    twin.train()
    for _ in range(2):
        x = make(rng)
        a, b = step(model, opts[0], x), step(twin, opts[1], x)
    d = snap.diff(snap.model_state(model), snap.model_state(twin))
    mon.ctx = f"{base} {events}"
    mon.check(not d, f"twin:{','.join(sorted(set(e.split(':')[0] for e in events if e != 'train'))[:3])}",
              lambda: f"differs from the twin: {d[:3]}")
    mon.obs("twin")


def s_parameters(rng, mon):
    """Parameters, scales, indices and ranges of single tiles."""
    cfg = rng.choice([InferenceRPUConfig, TorchInferenceRPUConfig, SingleRPUConfig])()
    cfg.mapping = gen.rand_mapping(rng)
    cfg.mapping.digital_bias = True
    cfg.mapping.max_input_size = cfg.mapping.max_output_size = 0
    for io in [cfg.forward] + ([cfg.backward] if hasattr(cfg, "backward") else []):
        io.out_noise, io.out_noise_std = 0.1, 0.3
    if hasattr(cfg, "pre_post"):
        cfg.pre_post.input_range.enable = coin(rng)
    i, o = rng.randint(2, 6), rng.randint(2, 5)
    if coin(rng):
        model = AnalogSequential(AnalogLinear(i, o, coin(rng), rpu_config=cfg))
    else:
        model = AnalogSequential(AnalogConv2d(1, o, 2, bias=coin(rng), rpu_config=cfg))
    t = some_tile(rng, model)
    names = ["forward", "backward"] if hasattr(t, "set_backward_parameters") else ["forward"]
    what = rng.choice(names + ["input_range", "indexed", "mapping_scales", "out_scales"])

    def state():
        out = full_state(model)
        for n in names:
            for k, v in getattr(t, f"get_{n}_parameters")().items():
                out[f"{n}.{k}"] = v.clone()
        out["indexed"] = torch.tensor(float(t.analog_ctx.use_indexed))
        return out
    before, text = state(), config_text(model)
    mon.ctx = f"{type(cfg).__name__} {what} {o}x{i}"
    try:
        if what in names:
            d = {k: v + 1.0 for k, v in getattr(t, f"get_{what}_parameters")().items()}
            keys = [k for k in d if d[k].numel() and k == "out_noise_values"]
            d = {k: d[k] for k in keys}
            if not d:
                raise Skip()
            how = rng.choice(["unknown", "size", "type"])
            if how == "unknown":
                d["nothing"] = torch.ones(2)
            elif how == "size":
                d[keys[-1]] = torch.ones(d[keys[-1]].numel() + 1)
            else:
                d[keys[-1]] = "x"
            getattr(t, f"set_{what}_parameters")(d)
        elif what == "input_range":
            t.set_input_range(rng.choice([None, "x", []]))
        elif what == "indexed":
            t.set_indexed(rng.choice([torch.ones(3, dtype=torch.int32), torch.full((40000,), 10 ** 6, dtype=torch.int32),
                                      torch.ones(40000)]), rng.choice([[1, 3, 3, 2, 2], [1, 2], [1, 3, 3]]))
        elif what == "mapping_scales":
            t.set_mapping_scales(rng.choice(["x", [], object()]))
        else:
            if t.get_learned_out_scales() is None:
                raise Skip()
            t.set_learned_out_scales(torch.ones(o + 3))
    except Skip:
        raise
    except Exception as e:
        d = snap.diff(before, state(), ignore=("get_learned_out_scales", "out_scaling_alpha", "get_scales")
                      if what == "out_scales" else ())
        mon.check(not d, f"parameters:{what}", lambda: f"{type(e).__name__}: {str(e)[:80]}: {d[:3]}")
        mon.check(config_text(model) == text, f"parameters:{what}:config", "the configuration changed")
        mon.obs("parameters")
        mon.state(what, type(cfg).__name__, i, o)
    else:
        mon.obs("accepted:" + what)


def s_calibrate(rng, mon):
    """A calibration that is refused or whose data fails."""
    cfg = rng.choice([InferenceRPUConfig, TorchInferenceRPUConfig])()
    cfg.mapping = gen.rand_mapping(rng)
    cfg.mapping.digital_bias = True
    ir = cfg.pre_post.input_range
    ir.enable = coin(rng, 0.7)
    why = rng.choice(["data", "data", "model", "noise_management", "type"])
    if why == "noise_management":
        cfg.forward.noise_management = NoiseManagementType.ABS_MAX
        ir.enable = True
    else:
        cfg.forward.noise_management = rng.choice([NoiseManagementType.NONE, NoiseManagementType.ABS_MAX])
    cfg.forward.is_perfect = coin(rng)
    model = AnalogSequential(AnalogLinear(4, 3, True, rpu_config=cfg), nn.ReLU(), AnalogLinear(3, 2, coin(rng), rpu_config=copy.deepcopy(cfg)))
    model.train(coin(rng))
    x = torch.randn(3, 4)
    ctype = rng.choice([t for t in InputRangeCalibrationType if t != InputRangeCalibrationType.NONE])

    def batches():
        for k in range(3):
            if k == stop:
                raise Injected()
            yield (x,), {}
    stop = rng.randint(0, 2)
    mon.ctx = f"{type(cfg).__name__} {why} {ctype} enable={ir.enable} training={model.training} stop={stop}"
    before, hooks = full_state(model), hooks_of(model)
    text = config_text(model)
    try:
        if why == "noise_management":
            calibrate_input_ranges(model, ctype, batches(), force_all_layers=False)
        elif why == "type":
            calibrate_input_ranges(nn.Sequential(model), ctype, batches())
        elif why == "model":
            def hook(*_):
                raise Injected()
            h = model[1].register_forward_hook(hook)
            try:
                calibrate_input_ranges(model, ctype, (((x,), {}) for _ in range(2)))
            finally:
                h.remove()
        else:
            calibrate_input_ranges(model, ctype, batches())
    except Exception as e:
        mon.obs("calibrate")
        mon.check(hooks_of(model) == hooks, f"calibrate:{why}:hooks", lambda: f"{hooks_of(model)} hooks instead of {hooks} after {type(e).__name__}")
        after = full_state(model)
        d = snap.diff(before, after, ignore=("input_range", "extra", "mode", "training"))
        mon.check(not d, f"calibrate:{why}:state", lambda: f"{d[:3]}")
        d = [k for k in before if k.startswith("mode:") and after.get(k) != before[k]]
        mon.check(not d, f"calibrate:{why}:mode", lambda: f"mode of {d[:3]} changed")
        for n, t in snap.analog_tiles(model):
            mon.check(t.rpu_config.forward.is_perfect == cfg.forward.is_perfect, f"calibrate:{why}:perfect",
                      "the passes of the tile stay perfect")
        mon.state(why, type(cfg).__name__, ctype.name)
    else:
        mon.obs("calibrate_accepted:" + why)


def s_convert(rng, mon):
    """A conversion that fails on one of the layers leaves the model that was given."""
    layers = [nn.Linear(4, 4), nn.ReLU(), nn.Sequential(nn.Linear(4, 4), nn.Tanh())]
    bad = rng.choice(["groups", "padding_mode", "dilation", "fun"])
    if bad == "groups":
        layers.append(nn.Conv2d(2, 2, 1, groups=2))
    elif bad == "padding_mode":
        layers.append(nn.Conv2d(2, 2, 1, padding_mode="reflect", padding=1))
    elif bad == "dilation":
        layers.append(nn.Conv1d(2, 2, 2, dilation=2))
    rng.shuffle(layers)
    model = nn.Sequential(*layers)
    model.train(coin(rng))
    cfg, kind = gen.perfect_config(rng, rng.choice(["inference", "torch", "ideal", "constant"]))
    text = repr(cfg)
    before = {k: v.clone() for k, v in model.state_dict().items()}
    types = [type(m) for m in model.modules()]
    modes = [m.training for m in model.modules()]
    grads = [p.requires_grad for p in model.parameters()]
    count = [0]

    def specific(name, module, c):
        count[0] += 1
        if bad == "fun" and count[0] == stop:
            raise Injected()
        return c
    stop = rng.randint(1, 2)
    mon.ctx = f"{bad} {kind} {[type(m).__name__ for m in layers]}"
    try:
        convert_to_analog(model, cfg, specific_rpu_config_fun=specific if bad == "fun" or coin(rng, 0.3) else None)
    except Exception as e:
        mon.obs("convert")
        after = model.state_dict()
        same = list(before) == list(after) and all(torch.equal(before[k], after[k]) for k in before)
        mon.check(same, f"convert:{bad}:weights", lambda: f"{type(e).__name__}: the weights of the given model changed")
        mon.check([type(m) for m in model.modules()] == types, f"convert:{bad}:types", "layers of the given model were replaced")
        mon.check([m.training for m in model.modules()] == modes, f"convert:{bad}:mode", "mode changed")
        mon.check([p.requires_grad for p in model.parameters()] == grads, f"convert:{bad}:grad", "requires_grad changed")
        mon.check(repr(cfg) == text, f"convert:{bad}:config", "the configuration given was changed")
        mon.state(bad, kind)
    else:
        mon.check(False, f"convert:{bad}:accepted", "a layer that cannot be represented was converted")


SCENARIOS = [
    Scenario("history", s_history, quick=300, thorough=9000),
    Scenario("parameters", s_parameters, quick=150, thorough=3000),
    Scenario("calibrate", s_calibrate, quick=60, thorough=1500),
    Scenario("convert", s_convert, quick=60, thorough=1500),
]
