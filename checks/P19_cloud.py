"""P19: cloud converters round-trip experiments.

Recorded oracle: the experiment is described before the conversion by the
values given to the constructors (never by the converters' own tables), the
exchange format is serialised to bytes, parsed again and converted back, and
the restored experiment has to show the same description.
"""
import contextlib
import io
import struct

import torch
from torch import nn
from torchvision.datasets import FashionMNIST, SVHN, CIFAR10

from vh import Scenario, Skip
import gen
from gen import coin, u, logu

PID = "P19"
RULE = ("an experiment restored from its serialised exchange format has the layers, geometry, "
        "configuration and settings of the given one; otherwise the conversion is refused")
ASSUMPTIONS = [
    "the format stores single precision floats; values are compared after rounding to float32",
    "weights are not part of the exchange format (weight template only)",
    "names of modules, 'inplace', and 'use_indexed' carry no meaning for the results",
    "the loss function of an inference experiment is fixed by the format (known finding)",
]
REQUIRES = {"train_roundtrip": 200, "infer_roundtrip": 150, "refused": 600, "results": 50, "config": 100}


def f32(x):
    return struct.unpack("f", struct.pack("f", float(x)))[0]


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def imp():
    import aihwkit.simulator.presets as P
    from aihwkit.simulator.presets.web import (WebComposerInferenceRPUConfig,
                                               OldWebComposerInferenceRPUConfig)
    from aihwkit.simulator.configs import InferenceRPUConfig
    from aihwkit.cloud.converter.v1 import training, inferencing
    from aihwkit.experiments.experiments.training import BasicTraining
    from aihwkit.experiments.experiments.inferencing import BasicInferencing
    from aihwkit.cloud.converter.exceptions import ConversionError
    import aihwkit.nn as an
    from types import SimpleNamespace
    return SimpleNamespace(**{k: v for k, v in locals().items() if k != "SimpleNamespace"})


TRAIN_PRESETS = ["ReRamES", "ReRamSB", "Capacitor", "EcRam", "Idealized", "PCM",
                 "MixedPrecisionReRamES", "MixedPrecisionReRamSB", "MixedPrecisionCapacitor",
                 "MixedPrecisionEcRam", "MixedPrecisionIdealized", "MixedPrecisionPCM",
                 "TikiTakaReRamES", "TikiTakaReRamSB", "TikiTakaCapacitor", "TikiTakaEcRam",
                 "TikiTakaIdealized"]


# ---------------------------------------------------------------- layers
def pair(rng, lo, hi):
    """int or pair"""
    if coin(rng, .4):
        v = int(rng.randrange(lo, hi + 1))
        return v, (v, v)
    v = (int(rng.randrange(lo, hi + 1)), int(rng.randrange(lo, hi + 1)))
    return v, v


def conv_args(rng, transpose=False):
    k, k2 = pair(rng, 1, 4)
    s, s2 = pair(rng, 1, 3)
    p, p2 = pair(rng, 0, 2)
    d, d2 = pair(rng, 1, 2)
    kw = dict(kernel_size=k, stride=s, padding=p, dilation=d)
    spec = dict(kernel_size=k2, stride=s2, padding=p2, dilation=d2)
    if transpose:
        o, o2 = pair(rng, 0, 1)
        kw["output_padding"], spec["output_padding"] = o, o2
    kw["bias"] = spec["bias"] = coin(rng)
    i, o = int(rng.randrange(1, 5)), int(rng.randrange(1, 5))
    spec["in_channels"], spec["out_channels"] = i, o
    return (i, o), kw, spec


def make_layer(rng, m, kind, cfg):
    """returns module, spec"""
    an = m.an
    if kind in ("AnalogLinear", "AnalogLinearMapped", "Linear"):
        i, o, b = int(rng.randrange(1, 12)), int(rng.randrange(1, 12)), coin(rng)
        if kind == "Linear":
            return nn.Linear(i, o, bias=b), dict(t=nn.Linear, in_features=i, out_features=o, bias=b)
        c = getattr(an, kind)
        conf, cs = cfg(rng)
        return (c(i, o, bias=b, rpu_config=conf),
                dict(t=c, in_features=i, out_features=o, bias=b, cfg=cs))
    if kind in ("AnalogConv2d", "AnalogConv2dMapped"):
        (i, o), kw, spec = conv_args(rng)
        c = getattr(an, kind)
        conf, cs = cfg(rng)
        if kind.endswith("Mapped") and not conf.mapping.digital_bias:
            kw["bias"] = spec["bias"] = False      # needs a digital bias (refused otherwise)
        return c(i, o, rpu_config=conf, **kw), dict(t=c, cfg=cs, **spec)
    if kind == "Conv2d":
        (i, o), kw, spec = conv_args(rng)
        return nn.Conv2d(i, o, **kw), dict(t=nn.Conv2d, **spec)
    if kind == "ConvTranspose2d":
        (i, o), kw, spec = conv_args(rng, True)
        return nn.ConvTranspose2d(i, o, **kw), dict(t=nn.ConvTranspose2d, **spec)
    if kind == "BatchNorm2d":
        n = int(rng.randrange(1, 9))
        return nn.BatchNorm2d(n), dict(t=nn.BatchNorm2d, num_features=n)
    if kind == "Flatten":
        return nn.Flatten(), dict(t=nn.Flatten, start_dim=1, end_dim=-1)
    if kind == "MaxPool2d":
        k = int(rng.randrange(1, 5))
        s = int(rng.randrange(1, 5)) if coin(rng) else None
        p = int(rng.randrange(0, k // 2 + 1))
        d = int(rng.randrange(1, 3))
        c = coin(rng)
        return (nn.MaxPool2d(k, stride=s, padding=p, dilation=d, ceil_mode=c),
                dict(t=nn.MaxPool2d, kernel_size=k, stride=s or k, padding=p, dilation=d,
                     ceil_mode=c))
    if kind == "LeakyReLU":
        v = u(rng, -.5, .9)
        return nn.LeakyReLU(v), dict(t=nn.LeakyReLU, negative_slope=f32(v))
    if kind in ("LogSoftmax", "Softmax"):
        v = int(rng.randrange(-2, 3))
        c = getattr(nn, kind)
        return c(dim=v), dict(t=c, dim=v)
    c = getattr(nn, kind)
    return c(), dict(t=c)


DIGITAL = ["Linear", "Conv2d", "ConvTranspose2d", "BatchNorm2d", "Flatten", "MaxPool2d",
           "LeakyReLU", "LogSoftmax", "Softmax", "ReLU", "Sigmoid", "Tanh", "LogSigmoid"]


def make_model(rng, m, analog, cfg):
    n = int(rng.randrange(1, 9))
    ms, specs = [], []
    for j in range(n):
        kind = str(rng.choice(analog if coin(rng, .5) or j == 0 else DIGITAL))
        mod, spec = make_layer(rng, m, kind, cfg)
        ms.append(mod)
        specs.append(spec)
    order = rng.sample(range(n), n)
    return m.an.AnalogSequential(*[ms[i] for i in order]), [specs[i] for i in order]


def has_bias(layer):
    b = getattr(layer, "bias", None)
    if b is None or b is False:
        return False
    return True


def norm(v):
    return tuple(v) if isinstance(v, (list, tuple)) else v


def check_model(mon, key, model, specs, cfg_check):
    children = list(model.children())
    mon.check(len(children) == len(specs), f"{key}:layers:count",
              f"{len(children)} layers restored of {len(specs)}")
    for j, (layer, spec) in enumerate(zip(children, specs)):
        name = spec["t"].__name__
        mon.check(type(layer) is spec["t"], f"{key}:layers:type",
                  f"layer {j}: {type(layer)} instead of {spec['t']}")
        if type(layer) is not spec["t"]:
            continue
        for f, v in spec.items():
            if f in ("t", "cfg"):
                continue
            if f == "bias":
                got = has_bias(layer)
                if name.startswith("Analog"):
                    got = layer_has_bias_analog(layer)
            else:
                got = norm(getattr(layer, f))
            same = f32(got) == v if isinstance(v, float) else got == v
            mon.check(same, f"{key}:{name}:{f}", f"layer {j} {name}.{f}: {got} instead of {v}")
        if "cfg" in spec:
            for tile in layer.analog_tiles():
                cfg_check(mon, f"{key}:{name}", tile.rpu_config, spec["cfg"])
        mon.state((key, name, tuple(sorted((k, str(v)) for k, v in spec.items()
                                           if k not in ("t", "cfg")))))


def layer_has_bias_analog(layer):
    """bias really applied (independent of flags)"""
    _, b = layer.get_weights()
    return b is not None


def through_bytes(proto):
    data = proto.SerializeToString()
    new = type(proto)()
    new.ParseFromString(data)
    return new, data


# ---------------------------------------------------------------- training
def train_cfg(m):
    def f(rng):
        name = str(rng.choice(TRAIN_PRESETS)) + "Preset"
        cls = getattr(m.P, name)
        c = cls()
        om = 0.0
        if coin(rng):
            om = u(rng, .05, 1.)
            c.mapping.weight_scaling_omega = om
        return c, (cls, om if om else c.mapping.weight_scaling_omega)
    return f


def train_cfg_check(mon, key, got, spec):
    cls, om = spec
    mon.check(type(got) is cls, f"{key}:preset", f"{type(got)} instead of {cls}")
    mon.check(f32(got.mapping.weight_scaling_omega) == f32(om), f"{key}:omega",
              f"omega {got.mapping.weight_scaling_omega} instead of {om}")
    ref = cls()
    ref.mapping.weight_scaling_omega = got.mapping.weight_scaling_omega
    mon.check(str(got) == str(ref), f"{key}:preset_settings", "restored preset was modified")


LOSSES = [nn.BCELoss, nn.CrossEntropyLoss, nn.MSELoss, nn.NLLLoss]


def sc_training(rng, mon):
    m = imp()
    model, specs = make_model(rng, m, ["AnalogLinear", "AnalogConv2d"], train_cfg(m))
    ds = [FashionMNIST, SVHN][int(rng.randrange(2))]
    loss = LOSSES[int(rng.randrange(4))]
    bs, ep, lr = int(logu(rng, 1, 3e4)), int(logu(rng, 1, 1e4)), logu(rng, 1e-5, 10)
    mon.ctx = dict(specs=str(specs)[:1500], ds=ds.__name__, loss=loss.__name__, bs=bs, ep=ep, lr=lr)
    exp = m.BasicTraining(dataset=ds, model=model, batch_size=bs, loss_function=loss, epochs=ep,
                          learning_rate=lr)
    conv = m.training.BasicTrainingConverter()
    rs = torch.get_rng_state()
    sd = [[x for x in l.get_weights() if x is not None] for l in model.analog_layers()]
    proto = conv.to_proto(exp)
    mon.check(torch.equal(rs, torch.get_rng_state()), "train:source:rng", "conversion drew numbers")
    mon.check(all(torch.equal(v, w) for x, l in zip(sd, model.analog_layers())
                  for v, w in zip(x, l.get_weights())),
              "train:source:state", "conversion changed the model")
    check_model(mon, "train:source", model, specs, train_cfg_check)
    p2, data = through_bytes(proto)
    back = conv.from_proto(p2)
    mon.obs("train_roundtrip")
    for n, v in (("dataset", ds), ("batch_size", bs), ("loss_function", loss), ("epochs", ep)):
        mon.check(getattr(back, n) == v, f"train:{n}", f"{getattr(back, n)} instead of {v}")
    mon.check(f32(back.learning_rate) == f32(lr), "train:learning_rate",
              f"{back.learning_rate} instead of {lr}")
    mon.check(type(back) is m.BasicTraining, "train:type", str(type(back)))
    check_model(mon, "train", back.model, specs, train_cfg_check)
    # converting again gives the same message
    again = conv.to_proto(back).SerializeToString()
    mon.check(again == data, "train:idempotent", "second conversion gives a different message")
    # layers are independent objects with own configurations
    cfgs = [next(l.analog_tiles()).rpu_config for l in back.model.children()
            if hasattr(l, "analog_tiles") and next(iter(l.analog_tiles()), None) is not None]
    mon.check(len({id(c) for c in cfgs}) == len(cfgs), "train:shared_config",
              "restored layers share one configuration object")


# ---------------------------------------------------------------- inference
def infos(rng):
    generic = coin(rng)
    a = dict(output_noise_strength=u(rng, 0, .2), adc=int(rng.randrange(2, 17)),
             dac=int(rng.randrange(2, 17)))
    n = dict(device_id="generic" if generic else "pcm",
             programming_noise_scale=u(rng, 0, 3), read_noise_scale=u(rng, 0, 3),
             drift_scale=u(rng, 0, 3), drift_compensation=coin(rng),
             poly_first_order_coef=u(rng, -2, 2), poly_second_order_coef=u(rng, -2, 2),
             poly_constant_coef=u(rng, -2, 2))
    if generic:
        n.update(drift_mean=u(rng, 0, .2), drift_std=u(rng, 0, .1))
    return a, n


def infer_cfg_check_for(a, n, cls, m):
    def f(mon, key, got, spec):
        mon.check(type(got) is cls, f"{key}:preset", f"{type(got)} instead of {cls}")
        check_infer_cfg(mon, key, got, a, n, m)
        ref = cls()
        for k in ("out_noise", "out_res", "inp_res"):
            setattr(ref.forward, k, getattr(got.forward, k))
        ref.noise_model, ref.drift_compensation = got.noise_model, got.drift_compensation
        mon.check(got == ref, f"{key}:preset_settings", "restored preset was modified")
    return f


def check_infer_cfg(mon, key, got, a, n, m):
    from aihwkit.inference import PCMLikeNoiseModel, GlobalDriftCompensation
    from aihwkit.inference.noise.custom import StateIndependentNoiseModel
    mon.obs("config")
    mon.check(f32(got.forward.out_noise) == f32(a["output_noise_strength"]), f"{key}:out_noise",
              str(got.forward.out_noise))
    mon.close(got.forward.out_res, 1. / (2 ** a["adc"] - 2), f"{key}:out_res", 0, 1e-12, "adc")
    mon.close(got.forward.inp_res, 1. / (2 ** a["dac"] - 2), f"{key}:inp_res", 0, 1e-12, "dac")
    nm = got.noise_model
    cls = StateIndependentNoiseModel if n["device_id"] == "generic" else PCMLikeNoiseModel
    mon.check(type(nm) is cls, f"{key}:noise_model", f"{type(nm)} instead of {cls}")
    co = [f32(n[k]) for k in ("poly_constant_coef", "poly_first_order_coef",
                              "poly_second_order_coef")]
    mon.check([f32(c) for c in nm.prog_coeff] == co, f"{key}:prog_coeff", f"{nm.prog_coeff} {co}")
    for at, k in (("prog_noise_scale", "programming_noise_scale"),
                  ("read_noise_scale", "read_noise_scale"), ("drift_scale", "drift_scale")):
        mon.check(f32(getattr(nm, at)) == f32(n[k]), f"{key}:{at}", f"{getattr(nm, at)} {n[k]}")
    if n["device_id"] == "generic":
        mon.check(f32(nm.drift_nu_mean) == f32(n["drift_mean"]), f"{key}:drift_mean",
                  str(nm.drift_nu_mean))
        mon.check(f32(nm.drift_nu_std) == f32(n["drift_std"]), f"{key}:drift_std",
                  str(nm.drift_nu_std))
    if n["drift_compensation"]:
        mon.check(type(got.drift_compensation) is GlobalDriftCompensation, f"{key}:drift_comp",
                  f"{got.drift_compensation}")
    else:
        mon.check(got.drift_compensation is None, f"{key}:drift_comp", f"{got.drift_compensation}")


def infer_presets(m):
    return [m.InferenceRPUConfig, m.WebComposerInferenceRPUConfig,
            m.OldWebComposerInferenceRPUConfig]


def sc_inference(rng, mon):
    m = imp()
    cls = infer_presets(m)[int(rng.randrange(3))]
    a, n = infos(rng)
    conv = m.inferencing.BasicInferencingConverter()
    from_info = coin(rng, .3) and cls is m.WebComposerInferenceRPUConfig

    def cfg(_):
        if from_info:
            return quiet(conv.rpu_config_from_info, a, n), None
        return cls(), None

    model, specs = make_model(rng, m, ["AnalogLinear", "AnalogConv2d", "AnalogLinearMapped",
                                       "AnalogConv2dMapped"], cfg)
    ds = [FashionMNIST, SVHN][int(rng.randrange(2))]
    bs, rep = int(logu(rng, 1, 3e4)), int(logu(rng, 1, 1e3))
    t = int(logu(rng, 1, 1e9))
    wid = "".join(rng.choice("abcXYZ-_/.0ä") for _ in range(rng.randrange(0, 20)))
    loss = nn.NLLLoss if coin(rng) else nn.CrossEntropyLoss
    mon.ctx = dict(specs=str(specs)[:1500], cls=cls.__name__, a=a, n=n, bs=bs, rep=rep, t=t,
                   wid=wid, loss=loss.__name__)
    exp = m.BasicInferencing(dataset=ds, model=model, batch_size=bs, loss_function=loss,
                             weight_template_id=wid, inference_repeats=rep, inference_time=t)
    a0, n0 = dict(a), dict(n)
    proto = conv.to_proto(exp, a, n)
    mon.check(a == a0 and n == n0, "infer:source:infos", "conversion changed the given dictionaries")
    p2, data = through_bytes(proto)
    back = quiet(conv.from_proto, p2)
    mon.obs("infer_roundtrip")
    for k, v in (("dataset", ds), ("batch_size", bs), ("inference_repeats", rep),
                 ("weight_template_id", wid), ("remap_weights", True)):
        mon.check(getattr(back, k) == v, f"infer:{k}", f"{getattr(back, k)!r} instead of {v!r}")
    mon.check(back.loss_function is loss, "infer:loss_function:not_stored"
              if back.loss_function is nn.NLLLoss else "infer:loss_function",
              f"{back.loss_function} instead of {loss}")
    mon.check(f32(back.inference_time) == f32(t), "infer:inference_time",
              f"{back.inference_time} {t}")
    check_model(mon, "infer", back.model, specs, infer_cfg_check_for(a, n, cls, m))
    # the dictionaries can be recovered from the message
    ai = conv._analog_info_from_proto(p2.inferencing.analog_info)
    ni = conv._noise_model_from_proto(p2.inferencing.noise_model_info)
    for d, e, nm in ((ai, a, "analog_info"), (ni, n, "noise_model_info")):
        mon.check(set(d) == set(e), f"infer:{nm}:fields", f"{sorted(d)} {sorted(e)}")
        for k in e:
            v = e[k]
            ok = d.get(k) == v if isinstance(v, (str, int)) else f32(d.get(k)) == f32(v)
            mon.check(ok, f"infer:{nm}:{k}", f"{d.get(k)} {v}")
    again = conv.to_proto(back, ai, ni).SerializeToString()
    mon.check(again == data, "infer:idempotent", "second conversion gives a different message")


def sc_config(rng, mon):
    """configurations built from the infos directly"""
    m = imp()
    a, n = infos(rng)
    mon.ctx = dict(a=a, n=n)
    conv = m.inferencing.BasicInferencingConverter
    cfg = quiet(conv.rpu_config_from_info, a, n)
    infer_cfg_check_for(a, n, m.WebComposerInferenceRPUConfig, m)(mon, "direct", cfg, None)
    info = quiet(conv.rpu_config_info_from_info, a, n)
    c2 = quiet(info.create_inference_rpu_config, "x", coin(rng))
    check_infer_cfg(mon, "direct2", c2, a, n, m)
    c3 = quiet(info.create_inference_rpu_config, "x")
    c3.forward.out_noise = 77.
    c3.noise_model.drift_scale = 77.
    check_infer_cfg(mon, "direct3", c2, a, n, m)
    # unknown devices are refused
    bad = dict(n, device_id="reram", drift_mean=.1, drift_std=.1)
    mon.raises(lambda: quiet(conv.rpu_config_from_info, a, bad), "direct:unknown_device",
               "unknown device accepted")
    key = str(rng.choice(sorted(n)))
    bad = {k: v for k, v in n.items() if k != key}
    mon.raises(lambda: quiet(conv.rpu_config_from_info, a, bad), "direct:missing",
               f"missing {key} accepted")
    # the configuration builds a layer which can be programmed
    layer = m.an.AnalogLinear(4, 3, rpu_config=cfg)
    layer.eval()
    layer.drift_analog_weights(10.)
    y = layer(torch.rand(2, 4))
    mon.check(bool(torch.isfinite(y).all()) and y.shape == (2, 3), "direct:usable", "forward")


# ---------------------------------------------------------------- refusals
def sc_refused(rng, mon):
    """everything not representable raises"""
    m = imp()
    an = m.an
    tc, ic = m.training.BasicTrainingConverter(), m.inferencing.BasicInferencingConverter()
    tcfg, icfg = lambda: m.P.EcRamPreset(), lambda: m.InferenceRPUConfig()
    a, n = infos(rng)

    def train(*layers, model=None, ds=SVHN, loss=nn.NLLLoss):
        return tc.to_proto(m.BasicTraining(
            dataset=ds, model=model or an.AnalogSequential(*layers), batch_size=2,
            loss_function=loss, epochs=1, learning_rate=.1))

    def infer(*layers, model=None, ds=SVHN, loss=nn.NLLLoss, **k):
        return ic.to_proto(m.BasicInferencing(
            dataset=ds, model=model or an.AnalogSequential(*layers), batch_size=2,
            loss_function=loss, inference_repeats=1, inference_time=3, **k), a, n)

    def alin(c, **k):
        for f, v in k.items():
            o = c
            parts = f.split("__")
            for q in parts[:-1]:
                o = getattr(o, q)
            setattr(o, parts[-1], v)
        return an.AnalogLinear(3, 2, rpu_config=c)

    class MyLinear(an.AnalogLinear):
        pass

    digital = dict(
        flatten=lambda: nn.Flatten(0), flatten_end=lambda: nn.Flatten(1, 2),
        bn_eps=lambda: nn.BatchNorm2d(3, eps=logu(rng, 1e-4, 1)),
        bn_mom=lambda: nn.BatchNorm2d(3, momentum=.3), bn_mom_none=lambda: nn.BatchNorm2d(3, momentum=None),
        bn_affine=lambda: nn.BatchNorm2d(3, affine=False),
        bn_track=lambda: nn.BatchNorm2d(3, track_running_stats=False),
        conv_groups=lambda: nn.Conv2d(4, 4, 3, groups=2),
        conv_pad_mode=lambda: nn.Conv2d(4, 4, 3, padding=1, padding_mode="circular"),
        conv_pad_str=lambda: nn.Conv2d(4, 4, 3, padding="same"),
        convt_groups=lambda: nn.ConvTranspose2d(4, 4, 3, groups=4),
        pool_tuple=lambda: nn.MaxPool2d((2, 3)), pool_idx=lambda: nn.MaxPool2d(2, return_indices=True),
        avgpool=lambda: nn.AvgPool2d(2), dropout=lambda: nn.Dropout(.2), gelu=lambda: nn.GELU(),
        bn1=lambda: nn.BatchNorm1d(3), conv1=lambda: nn.Conv1d(2, 2, 2), lstm=lambda: nn.LSTM(2, 2),
        seq=lambda: nn.Sequential(nn.Linear(2, 2), nn.ReLU()), soft=lambda: nn.Softmax(),
        emb=lambda: nn.Embedding(3, 3),
    )
    from aihwkit.simulator.configs import (SingleRPUConfig, FloatingPointRPUConfig,
                                           TorchInferenceRPUConfig, ConstantStepDevice)
    tr = dict(
        single=lambda: alin(SingleRPUConfig(device=ConstantStepDevice())),
        fp=lambda: alin(FloatingPointRPUConfig()),
        other_preset=lambda: alin(m.P.GokmenVlasovPreset()),
        inf=lambda: alin(m.InferenceRPUConfig()),
        mod_dev=lambda: alin(m.P.EcRamPreset(), device__dw_min=logu(rng, 1e-3, .1)),
        mod_fwd=lambda: alin(m.P.ReRamSBPreset(), forward__out_noise=u(rng, .1, .5)),
        mod_map=lambda: alin(m.P.IdealizedPreset(), mapping__max_input_size=2),
        mod_up=lambda: alin(m.P.PCMPreset(), update__desired_bl=7),
        mod_tt=lambda: alin(m.P.TikiTakaEcRamPreset(), device__transfer_every=7),
        mapped=lambda: an.AnalogLinearMapped(3, 2, rpu_config=tcfg()),
        subclass=lambda: MyLinear(3, 2, rpu_config=tcfg()),
        conv_pm=lambda: an.AnalogConv2d(2, 2, 3, padding=1, padding_mode="reflect", rpu_config=tcfg()),
        conv1=lambda: an.AnalogConv1d(2, 2, 3, rpu_config=tcfg()),
        conv3=lambda: an.AnalogConv3d(2, 2, 3, rpu_config=tcfg()),
        lstm=lambda: an.AnalogRNN(an.AnalogLSTM if False else an.AnalogLSTMCell, 3, 3, rpu_config=tcfg()),
    )
    inf = dict(
        torch=lambda: alin(TorchInferenceRPUConfig()), training=lambda: alin(tcfg()),
        mod_clip=lambda: alin(icfg(), clip__fixed_value=u(rng, .5, .9)),
        mod_fwd=lambda: alin(icfg(), forward__w_noise=.1),
        mod_map=lambda: alin(m.WebComposerInferenceRPUConfig(), mapping__weight_scaling_omega=.4),
        mod_modifier=lambda: alin(m.OldWebComposerInferenceRPUConfig(), modifier__std_dev=.7),
        mod_prepost=lambda: alin(icfg(), pre_post__input_range__enable=True),
        subclass=lambda: MyLinear(3, 2, rpu_config=icfg()),
    )

    def go(key, fn, build, good):
        try:
            layer = build()
        except Exception:      # not available in this configuration
            return
        ls = [layer, good()] if coin(rng) else [good(), layer]
        mon.ctx = dict(key=key)
        mon.obs("refused")
        mon.raises(lambda: fn(*ls), f"refuse:{key}", f"{key} converted although not representable")

    gt = lambda: an.AnalogLinear(2, 2, rpu_config=tcfg())
    gi = lambda: an.AnalogLinear(2, 2, rpu_config=icfg())
    for k, b in digital.items():
        fn, good, w = (train, gt, "t") if coin(rng) else (infer, gi, "i")
        go(f"{w}:digital:{k}", fn, b, good)
    for k, b in tr.items():
        go(f"t:{k}", train, b, gt)
    for k, b in inf.items():
        go(f"i:{k}", infer, b, gi)
    for w, fn, good in (("t", train, gt), ("i", infer, gi)):
        mon.ctx = dict(w=w)
        mon.check(fn(good()) is not None, f"accept:{w}", "")
        mon.raises(lambda: fn(good(), ds=CIFAR10), f"refuse:{w}:dataset", "unknown data set")
        mon.raises(lambda: fn(model=nn.Sequential(good())), f"refuse:{w}:model", "plain Sequential")
        mon.raises(lambda: fn(model=good()), f"refuse:{w}:layer", "layer as model")
        mon.obs("refused", 3)
    mon.raises(lambda: train(gt(), loss=nn.L1Loss), "refuse:t:loss", "unknown loss")
    mon.raises(lambda: infer(gi(), remap_weights=False), "refuse:i:remap", "remap_weights dropped")
    # messages with unknown content
    p = train(gt(), nn.ReLU())
    bad = type(p)()
    bad.CopyFrom(p)
    what = int(rng.randrange(4))
    if what == 0:
        bad.dataset.dataset_id = "mnist"
    elif what == 1:
        bad.training.loss_function.id = "L1Loss"
    elif what == 2:
        bad.network.layers[0].layer.id = "AnalogFoo"
    else:
        bad.network.layers[1].activation_function.id = "Foo"
    mon.raises(lambda: tc.from_proto(bad), f"refuse:from:{what}", "unknown content accepted")
    bad.CopyFrom(p)
    for arg in bad.network.layers[0].layer.arguments:
        if arg.name == "rpu_config":
            arg.s = b"FooPreset"
    mon.raises(lambda: tc.from_proto(bad), "refuse:from:preset", "unknown preset accepted")
    # different presets within one inference experiment
    p = infer(gi(), an.AnalogLinear(2, 2, rpu_config=m.WebComposerInferenceRPUConfig()))
    mon.raises(lambda: quiet(ic.from_proto, p), "refuse:from:mixed_presets", "mixed presets accepted")


# ---------------------------------------------------------------- results
def sc_results(rng, mon):
    m = imp()
    n = int(rng.randrange(0, 7))
    res = [dict(t_inference=logu(rng, 1, 1e8), avg_accuracy=u(rng, 0, 100), std_accuracy=u(rng, 0, 9),
                avg_error=u(rng, 0, 100), avg_loss=u(rng, 0, 5)) for _ in range(n)]
    runs = dict(inference_repeat=int(rng.randrange(1, 99)), is_partial=coin(rng),
                time_elapsed=logu(rng, .01, 1e5), inference_results=res)
    mon.ctx = dict(runs=runs)
    conv = m.inferencing.BasicInferencingResultConverter()
    p, _ = through_bytes(conv.to_proto({"inference_runs": runs}))
    mon.obs("results")

    def same(x, y):
        return set(x) == set(y) and all(f32(x[k]) == f32(y[k]) for k in x)
    got = conv.to_json_from_pb(p)["inference_runs"]
    mon.check(set(got) == set(runs), "results:fields", str(got))
    mon.check(got["inference_repeat"] == runs["inference_repeat"] and
              got["is_partial"] == runs["is_partial"] and
              f32(got["time_elapsed"]) == f32(runs["time_elapsed"]), "results:runs", str(got))
    for nm, r in (("results:json", got["inference_results"]), ("results:list", conv.result_from_proto(p))):
        mon.check(len(r) == n and all(same(x, y) for x, y in zip(r, res)), nm, str(r)[:400])
    d = {"inference_runs": runs}
    js = conv.to_json(d)
    mon.check(js["inference_runs"] == runs and js["version"] == {"schema": 1, "opset": 1},
              "results:to_json", str(js)[:300])
    # training results
    from aihwkit.cloud.converter.definitions.output_file_pb2 import TrainingOutput
    from aihwkit.cloud.converter.definitions import output_file_pb2 as O
    out = TrainingOutput()
    try:
        eps = out.epochs
        fld = eps.add
    except AttributeError:
        raise Skip("no epochs")
    want = []
    for e in range(n):
        ep = out.epochs.add()
        ep.epoch = e
        me = {}
        for k in ("train_loss", "valid_loss", "accuracy"):
            at = ep.metrics.add()
            at.name, at.f = k, u(rng, 0, 5)
            at.type = 1
            me[k] = at.f
        want.append(dict(epoch=e, metrics=me))
    back = m.training.BasicTrainingResultConverter().from_proto(out)
    mon.check(back["epochs"] == want, "results:training", f"{back} {want}"[:500])


SCENARIOS = [
    Scenario("training", sc_training, 400, 6000, 20),
    Scenario("inference", sc_inference, 300, 5000, 20),
    Scenario("config", sc_config, 100, 1500, 10),
    Scenario("refused", sc_refused, 40, 300, 30),
    Scenario("results", sc_results, 100, 1500, 4),
]
