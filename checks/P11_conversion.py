"""P11: conversion between digital and analog models preserves the network.

Monitor: generated nested models (all torch containers, residual and parallel blocks, shared modules,
buffers, convolutions of all dimensions) are converted with random maps, exclusions and specific
configurations; a structural oracle derives from the digital model which names are to be
replaced and everything else has to stay; perfect analog passes give a functional oracle.
"""
import copy

import torch
from torch import nn

import gen
from vh import Scenario, Skip
from aihwkit.exceptions import AihwkitException
from aihwkit.nn import (AnalogConv1d, AnalogConv2d, AnalogConv3d, AnalogConv1dMapped, AnalogConv2dMapped, AnalogConv3dMapped,
                        AnalogLinear, AnalogLinearMapped, AnalogSequential)
from aihwkit.nn.conversion import convert_to_analog, convert_to_digital
from aihwkit.nn.modules.base import AnalogLayerBase
from aihwkit.nn.modules.container import AnalogWrapper
from aihwkit.optim.context import AnalogContext

PID = "P11"
RULE = "one state per (tile kind, map, options, module classes in the model)"
ASSUMPTIONS = ["networks are compared in float32 with perfect analog passes",
               "python containers holding modules outside of torch's registration are not converted"]
REQUIRES = ("converted", "excluded", "specific", "shared", "digital", "conv", "inplace")
DEFAULT = {nn.Linear: AnalogLinear, nn.Conv1d: AnalogConv1d, nn.Conv2d: AnalogConv2d, nn.Conv3d: AnalogConv3d, nn.Sequential: AnalogSequential}
MAPPED = {nn.Linear: AnalogLinearMapped, nn.Conv1d: AnalogConv1dMapped, nn.Conv2d: AnalogConv2dMapped,
          nn.Conv3d: AnalogConv3dMapped, nn.Sequential: AnalogSequential}


class Res(nn.Module):
    def __init__(self, inner, w):
        super().__init__()
        self.inner = inner
        self.norm = nn.LayerNorm(w, eps=0.1)

    def forward(self, x):
        return x + self.norm(self.inner(x))


class Par(nn.Module):
    def __init__(self, ms):
        super().__init__()
        self.branches = nn.ModuleList(ms)

    def forward(self, x):
        return sum(m(x) for m in self.branches)


class Dic(nn.Module):
    def __init__(self, a, b):
        super().__init__()
        self.d = nn.ModuleDict({"first": a, "second": b})

    def forward(self, x):
        return self.d["first"](x) - 0.5 * self.d["second"](x)


class Tied(nn.Module):
    def __init__(self, lin, act):
        super().__init__()
        self.lin, self.act, self.again = lin, act, lin

    def forward(self, x):
        return self.again(self.act(self.lin(x)))


class Buf(nn.Module):
    def __init__(self, w):
        super().__init__()
        self.register_buffer("shift", torch.randn(w))
        self.gain = nn.Parameter(torch.randn(w))
        self.fc = nn.Linear(w, w)

    def forward(self, x):
        return self.fc(x * self.gain + self.shift)


class Att(nn.Module):
    def __init__(self, w):
        super().__init__()
        self.att = nn.MultiheadAttention(w, 1, batch_first=True)
        self.out = nn.Linear(w, w, bias=False)

    def forward(self, x):
        return self.out(self.att(x[None], x[None], x[None], need_weights=False)[0][0])


class MyLinear(nn.Linear):
    """subclass, not in the conversion map"""


class MySeq(nn.Sequential):
    """subclass, not in the conversion map"""


class Net(nn.Module):
    def __init__(self, body, i, o):
        super().__init__()
        self.body = body
        self.head = nn.Linear(i, o)

    def forward(self, x):
        return self.head(self.body(x))


def other_net():
    """another class of the same name."""
    class Net(nn.Module):
        def __init__(self, body, i, o):
            super().__init__()
            self.body = body
            self.head = nn.Linear(i, o)

        def forward(self, x):
            return self.head(torch.tanh(self.body(x)))
    return Net


def rand_block(rng, w, depth, pool):
    """module keeping the width w."""
    k = rng.choice(["lin", "lin", "seq", "seq", "res", "par", "dic", "tied", "buf", "sub", "act", "myseq", "reuse", "att", "norm", "empty"])
    if depth <= 0 and k in ("seq", "res", "par", "dic", "myseq"):
        k = "lin"
    rec = lambda: rand_block(rng, w, depth - 1, pool)
    if k == "lin":
        m = nn.Linear(w, w, bias=gen.coin(rng))
        if gen.coin(rng, 0.3):
            pool.append(m)
        return m
    if k == "seq":
        return nn.Sequential(*[rec() for _ in range(rng.randint(1, 3))])
    if k == "myseq":
        return MySeq(*[rec() for _ in range(rng.randint(1, 2))])
    if k == "res":
        return Res(rec(), w)
    if k == "par":
        return Par([rec() for _ in range(rng.randint(1, 3))])
    if k == "dic":
        return Dic(rec(), rec())
    if k == "tied":
        return Tied(nn.Linear(w, w), nn.Tanh())
    if k == "buf":
        return Buf(w)
    if k == "sub":
        return MyLinear(w, w)
    if k == "act":
        a = rng.choice([nn.Tanh, nn.ReLU, lambda: nn.Dropout(0.3), nn.Sigmoid])()
        lin = [nn.Linear(w, w) for _ in range(2)]
        return nn.Sequential(lin[0], a, lin[1], a, a)      # one instance at several places
    if k == "reuse" and pool:
        return rng.choice(pool)
    if k == "att":
        return Att(w)
    if k == "norm":
        return nn.Sequential(nn.BatchNorm1d(w), nn.Linear(w, w))
    if k == "empty":
        return nn.Sequential(nn.Sequential(), nn.Identity())
    return nn.Tanh()


def rand_config(rng):
    kind = rng.choice(["float", "ideal", "constant", "inference", "torch", "custom"])
    mp = gen.rand_mapping(rng)
    cfg, kind = gen.perfect_config(rng, kind, mp)
    return cfg, kind


def snapshot(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items() if isinstance(v, torch.Tensor)}


def names_all(m):
    return list(m.named_modules(remove_duplicate=False))


def excluded(name, ex):
    parts = name.split(".")
    return any(".".join(parts[:k]) in ex for k in range(1, len(parts) + 1))


def warm(model, i, rng):
    """non trivial running statistics and mixed modes."""
    model.train()
    with torch.no_grad():
        for _ in range(2):
            model(torch.randn(5, i))
    model.train(gen.coin(rng))
    if gen.coin(rng, 0.3):
        for m in model.modules():
            if not list(m.children()):
                m.training = gen.coin(rng)
    for p in model.parameters():
        if gen.coin(rng, 0.2):
            p.requires_grad_(False)


def structure(mon, key, ref, am, cmap, ex, kind):
    """the analog model am against its digital source ref (a copy)."""
    new = dict(names_all(am))
    n = 0
    ident = {}
    for name, m in names_all(ref):
        if not mon.check(name in new, key + ":names", lambda: f"module {name!r} is lost"):
            continue
        a = new[name]
        conv = type(m) in cmap and not (name and excluded(name, ex))
        if conv:
            n += 1
            mon.check(type(a) is cmap[type(m)], key + ":converted", lambda: f"{name!r} is a {type(a).__name__}")
            if isinstance(m, (nn.Linear, nn.Conv1d, nn.Conv2d, nn.Conv3d)) and type(a) is cmap[type(m)]:
                w, b = a.get_weights()
                mon.close(w.reshape(m.weight.shape), m.weight, key + ":weight", atol=1e-6, rtol=1e-5)
                mon.check((b is None) == (m.bias is None), key + ":bias", name)
                if b is not None and m.bias is not None:
                    mon.close(b, m.bias, key + ":bias", atol=1e-6, rtol=1e-5)
        elif name == "":
            mon.check(isinstance(a, type(m)) and isinstance(a, AnalogWrapper), key + ":wrapper", lambda: str(type(a).__mro__[:3]))
        else:
            mon.check(type(a) is type(m), key + ":type", lambda: f"{name!r} was {type(m).__name__}, is {type(a).__name__}")
        mon.check(a.training == m.training, key + ":training", lambda: f"{name!r} ({type(m).__name__}) training {m.training} -> {a.training}")
        if not conv or isinstance(m, nn.Sequential):
            for (k, p), src in [(kp, 0) for kp in m._parameters.items()] + [(kb, 1) for kb in m._buffers.items()]:
                q = (a._parameters if src == 0 else a._buffers).get(k)
                mon.check(q is not None if p is not None else q is None, key + ":kept", lambda: f"{name}.{k}")
                if p is not None and q is not None:
                    mon.check(torch.equal(p, q) and p.dtype == q.dtype and p.requires_grad == q.requires_grad, key + ":kept", lambda: f"{name}.{k}")
        # shared modules stay shared
        if name and excluded(name, ex):
            continue        # may differ from other names of the same module
        if id(m) in ident:
            mon.check(ident[id(m)] is a, key + ":shared", lambda: f"{name!r} is not shared any more")
        ident[id(m)] = a
    extra = [k for k, m in names_all(am) if k not in dict(names_all(ref)) and not any(
        k.startswith(r + ".") or r == "" for r, v in names_all(ref) if type(v) in cmap and not isinstance(v, nn.Sequential))]
    mon.check(not extra, key + ":extra", lambda: str(extra[:4]))
    return n


def s_linear(rng, mon):
    w = rng.randint(2, 5)
    pool = []
    body = rand_block(rng, w, 2, pool)
    for _ in range(rng.randint(0, 2)):
        body = nn.Sequential(body, rand_block(rng, w, 2, pool))
    wrap = rng.choice(["net", "plain", "net2", "lin", "seq"])
    if wrap == "net":
        model = Net(body, w, rng.randint(1, 3))
    elif wrap == "net2":
        model = other_net()(body, w, rng.randint(1, 3))
    elif wrap == "seq":
        model = nn.Sequential(body, nn.Linear(w, 2))
    elif wrap == "lin":
        model = nn.Linear(w, 3)
    else:
        model = body
    warm(model, w, rng)
    go(rng, mon, model, lambda r: torch.randn(r.randint(2, 4), w), wrap)


class ConvNet(nn.Module):
    def __init__(self, *ms):
        super().__init__()
        self.features = nn.Sequential(*ms)
        self.act = nn.Tanh()
        self.head = nn.Linear(ms[-1].out_channels, 2)

    def forward(self, x):
        y = self.act(self.features(x))
        return self.head(y.flatten(2).mean(2))


def s_conv(rng, mon):
    dim = rng.choice([1, 2, 2, 3])
    cls = {1: nn.Conv1d, 2: nn.Conv2d, 3: nn.Conv3d}[dim]

    def tup(lo, hi):
        return tuple(rng.randint(lo, hi) for _ in range(dim)) if gen.coin(rng) else rng.randint(lo, hi)
    chans = [rng.randint(1, 3) for _ in range(3)]
    mods = []
    for i, o in zip(chans[:-1], chans[1:]):
        k = tup(1, 3)
        mode = rng.choice(["zeros", "zeros", "circular", "reflect", "replicate"])
        if dim == 3 and mode == "reflect":
            mode = "zeros"
        pad = tup(0, 1)
        groups = 1
        if gen.coin(rng, 0.15):
            groups = i
            o = i * (o if False else 1)
        try:
            m = cls(i, o, k, stride=tup(1, 2), padding=pad, dilation=tup(1, 2), groups=groups, bias=gen.coin(rng), padding_mode=mode)
        except (ValueError, RuntimeError):
            m = cls(i, o, k)
        mods.append(m)
    for a, b in zip(mods[:-1], mods[1:]):
        if a.out_channels != b.in_channels:
            mods = mods[:1]
            break
    model = ConvNet(*mods)
    size = 9
    make = lambda r: torch.randn(2, mods[0].in_channels, *([size] * dim))
    try:
        model(make(rng))
    except RuntimeError:
        raise Skip()
    model.train(gen.coin(rng))
    mon.state("conv", dim, any(m.groups > 1 for m in mods), mods[0].padding_mode)
    go(rng, mon, model, make, f"conv{dim}", groups=any(m.groups > 1 for m in mods))


def go(rng, mon, model, make, what, groups=False):
    cfg, kind = rand_config(rng)
    if what in ("conv1", "conv3") and kind in ("torch", "custom"):
        raise Skip()        # need indexed passes that those tiles do not offer
    mapped = gen.coin(rng, 0.3) and kind not in ("float0",)
    cmap = dict(MAPPED if mapped else DEFAULT)
    custom = gen.coin(rng, 0.25)
    if custom:
        for k in rng.sample(list(cmap), rng.randint(0, 2)):
            if k is not nn.Linear or gen.coin(rng, 0.3):
                cmap.pop(k)
    names = [k for k, m in names_all(model) if k]
    ex = [k for k in names if gen.coin(rng, 0.12)] if gen.coin(rng, 0.5) else []
    inplace = gen.coin(rng, 0.4)
    mon.ctx = [what, kind, "mapped" if mapped else "", f"exclude {ex[:3]}", "inplace" if inplace else ""]
    calls = []
    tag = {}

    def fun(name, module, c):
        calls.append((name, type(module)))
        mon.check(c is not cfg, "specific:copy", "the configuration is not a copy")
        mon.check(str(c) == cfg_str, "specific:given", lambda: f"{name}: not the given configuration")
        if hasattr(c, "mapping") and name not in tag and gen.coin(rng, 0.7):
            tag[name] = rng.choice([0.3, 0.7])
            c.mapping.weight_scaling_omega = tag[name]
            c.mapping.weight_scaling_columnwise = not c.mapping.weight_scaling_columnwise
        return c
    use_fun = gen.coin(rng, 0.4)
    omega0, cfg_str = cfg.mapping.weight_scaling_omega, str(cfg)
    ref = copy.deepcopy(model)
    before = snapshot(model)
    modes = [m.training for m in model.modules()]
    src_names = dict(names_all(model))
    classes = {type(m).__name__ for m in ref.modules()}
    kw = {}
    if mapped or custom:
        kw["conversion_map"] = cmap
    if ex:
        kw["exclude_modules"] = list(ex)
    if use_fun:
        kw["specific_rpu_config_fun"] = fun
    try:
        am = convert_to_analog(model, cfg, inplace=inplace, **kw)
    except AihwkitException as e:
        mon.check(groups or mapped, "refused", lambda: f"{type(e).__name__}: {e}")
        mon.obs("refused")
        return
    except (ValueError, NotImplementedError) as e:
        mon.check("supported" in str(e), "refused", lambda: f"{type(e).__name__}: {e}")
        mon.obs("refused")
        return
    n = structure(mon, "analog", ref, am, cmap, ex, kind)
    mon.state("converted", kind, mapped, custom, what)
    if ex:
        mon.state("excluded", kind, what)
    ids = {}
    for _, m in names_all(ref):
        ids[id(m)] = ids.get(id(m), 0) + 1
    if max(ids.values()) > 1:
        mon.state("shared", kind, what)
    mon.check(isinstance(am, AnalogLayerBase), "analog:root", str(type(am)))
    leafs = sum(1 for m in {id(v): v for k, v in names_all(ref) if type(v) in cmap and not isinstance(v, nn.Sequential)
                            and (k == "" or not excluded(k, ex))}.values())
    mon.check(len(list(am.analog_layers())) == leafs, "analog:layers", lambda: f"{len(list(am.analog_layers()))} analog layers, expected {leafs}")
    if inplace:
        for k, m in names_all(am):
            if k in src_names and k and type(m) is type(src_names[k]):
                mon.check(m is src_names[k], "inplace:object", k)
        mon.state("inplace", kind)
    else:
        mon.check(all(torch.equal(v, before[k]) for k, v in snapshot(model).items()) and len(snapshot(model)) == len(before),
                  "source:values", "the source model was changed")
        mon.check([type(m) for m in model.modules()] == [type(m) for m in ref.modules()], "source:types", "")
        mon.check([m.training for m in model.modules()] == modes, "source:training", "")
    mon.check(cfg.mapping.weight_scaling_omega == omega0, "specific:leak", "the given configuration is changed")
    if use_fun:
        want = sorted({id(m): (k, type(m).__name__) for k, m in names_all(ref) if type(m) in cmap and not (k and excluded(k, ex))}.values())
        got = sorted((k, t.__name__) for k, t in calls)
        # a shared module may be reported by any of its names, once
        mon.check(len(got) == len(want), "specific:calls", lambda: f"{got[:6]} expected {want[:6]}")
        new = dict(names_all(am))
        for name, o in tag.items():
            if name in new and isinstance(new[name], AnalogLayerBase) and not isinstance(new[name], AnalogSequential):
                for t in new[name].analog_tiles():
                    mon.check(t.rpu_config.mapping.weight_scaling_omega == o, "specific:config", f"{name}")
        mon.state("specific", kind)
    # configurations are not shared among layers
    cs = [t.rpu_config for layer in am.analog_layers() for t in list(layer.analog_tiles())[:1]]
    mon.check(len({id(c) for c in cs}) == len(cs) and all(c is not cfg for c in cs), "config:shared", "layers share their configuration")

    # the function of the network
    ref_e = copy.deepcopy(ref).eval()
    x = make(rng)
    am_modes = [m.training for m in am.modules()]
    am.eval()
    with torch.no_grad():
        y, z = am(x), ref_e(x)
    mon.close(y, z, "analog:function", atol=2e-5, rtol=1e-4)
    if not inplace:
        for p in am.parameters():
            if not isinstance(p, AnalogContext):
                with torch.no_grad():
                    p.add_(1.0)
        mon.check(all(torch.equal(v, before[k]) for k, v in snapshot(model).items()), "source:alias", "the analog model shares parameters with its source")
        for p in am.parameters():
            if not isinstance(p, AnalogContext):
                with torch.no_grad():
                    p.sub_(1.0)
    for m, f in zip(am.modules(), am_modes):
        m.training = f
    if rng.random() < 0.3:     # train the analog model a bit, the weights differ from the source
        for layer in am.analog_layers():
            w, b = layer.get_weights()
            layer.set_weights(w + 0.05 * torch.randn_like(w), None if b is None else b + 0.05)
    am.eval()
    with torch.no_grad():
        y = am(x)
    for m, f in zip(am.modules(), am_modes):
        m.training = f

    # back to digital
    dip = gen.coin(rng, 0.4)
    keep = copy.deepcopy(am)
    w0 = {k: (v[0].clone(), None if v[1] is None else v[1].clone()) for k, v in ((k, layer.get_weights()) for k, layer in am.named_analog_layers())} \
        if hasattr(am, "named_analog_layers") else {}
    dm = convert_to_digital(am, inplace=dip)
    if not dip:
        mon.check([type(a) for a in am.modules()] == [type(a) for a in keep.modules()], "digital:source", "the analog model was changed")
        for k, layer in (am.named_analog_layers() if w0 else []):
            mon.check(torch.equal(layer.get_weights()[0], w0[k][0]), "digital:source", "")
    new = dict(names_all(dm))
    old = dict(names_all(ref))
    mon.check(list(new) == list(old), "digital:names", lambda: str(sorted(set(new) ^ set(old))[:5]))
    if list(new) != list(old):
        return
    for k, m in old.items():
        d = new[k]
        mon.check(type(d) is type(m), "digital:type", lambda: f"{k!r} {type(d).__name__}, was {type(m).__name__}")
        mon.check(d.training == m.training, "digital:training", lambda: f"{k!r} ({type(m).__name__}) {m.training} -> {d.training}")
        if isinstance(m, (nn.Conv1d, nn.Conv2d, nn.Conv3d)) and type(d) is type(m):
            for f in ("in_channels", "out_channels", "kernel_size", "stride", "padding", "dilation", "groups", "padding_mode"):
                mon.check(getattr(d, f) == getattr(m, f), "digital:geometry", lambda: f"{f} {getattr(m, f)} -> {getattr(d, f)}")
            mon.check(d.weight.shape == m.weight.shape, "digital:shape", lambda: f"{tuple(d.weight.shape)} {tuple(m.weight.shape)}")
        if isinstance(m, nn.Linear) and type(d) is type(m):
            mon.check((d.in_features, d.out_features, d.bias is None) == (m.in_features, m.out_features, m.bias is None), "digital:geometry", k)
    mon.check(list(dm.state_dict()) == list(ref.state_dict()), "digital:state_dict", lambda: f"{list(dm.state_dict())[:5]} {list(ref.state_dict())[:5]}")
    mon.check(not any(isinstance(p, AnalogContext) for p in dm.parameters()), "digital:context", "")
    dm.eval()
    with torch.no_grad():
        z = dm(x)
    mon.close(z, y, "digital:function", atol=2e-5, rtol=1e-4)
    mon.check(all(v.dtype == ref.state_dict()[k].dtype for k, v in dm.state_dict().items() if k in ref.state_dict()), "digital:dtype", "")
    # digital layers own their weights
    ws = [p for p in dm.parameters()]
    mon.check(len({p.data_ptr() for p in ws if p.numel()}) == len([p for p in ws if p.numel()]), "digital:alias", "parameters share their storage")
    if not dip and w0:
        with torch.no_grad():
            for p in dm.parameters():
                p.add_(1.0)
        for k, layer in am.named_analog_layers():
            mon.check(torch.equal(layer.get_weights()[0], w0[k][0]), "digital:owned", "the digital model shares weights with the analog one")
    mon.state("digital", kind, mapped, what, dip)
    del classes, n


SCENARIOS = [
    Scenario("linear", s_linear, quick=500, thorough=8000, min_evals=20000),
    Scenario("conv", s_conv, quick=300, thorough=3000, min_evals=2000),
]
