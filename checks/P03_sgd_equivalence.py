"""P03: with ideal devices and periphery, training is exactly SGD on the logical weights,
over arbitrary histories of forward / backward / step / zero_grad / learning rate changes."""
import copy
import math

import torch
from torch import nn
from torch.nn import functional as F

import gen
from gen import coin, u
from vh import Scenario, Skip
from aihwkit.optim import AnalogSGD, AnalogAdam, AnalogOptimizer
from aihwkit.simulator.configs import FloatingPointRPUConfig
from aihwkit.simulator.configs.devices import FloatingPointDevice

RULE = ("distinct (tile kind, layer geometry, mapping, optimizer, operation history) situations in which all "
        "parameters and outputs were compared with an independent SGD twin after every operation")
REQUIRES = ("op_step", "op_fwdbwd", "op_accumulate", "op_lr", "op_zero_grad", "hwa_step", "net_step", "op_freeze")
ASSUMPTIONS = ("CPU tiles, float32, relative tolerance 2e-4 per step",
               "gradients are requested through Tensor.backward (torch.autograd.grad also traces analog gradients)")

ANALOG = ("float", "ideal", "custom")


class Twin(nn.Module):
    """Digital twin at the granularity of tiles: logical weight block = alpha * s * T."""

    def __init__(self, layer, case, kind):
        super().__init__()
        self.case, self.kind = case, kind
        am = getattr(layer, "analog_module", layer)
        self.grid = [list(r) for r in am.array] if hasattr(am, "array") else [[am]]
        self.in_sizes = [r[0].in_size for r in self.grid]
        self.T, self.A, self.S, self.TB = nn.ParameterList(), [], [], []
        self.alphas = nn.ParameterList()
        for row in self.grid:
            for t in row:
                raw = t.tile.get_weights().clone()
                s = t.mapping_scales
                s = torch.ones(1) if s is None else s.detach().clone()
                p = nn.Parameter(raw)
                # the mapping into conductances does not change the step of the logical weights
                p.register_hook(lambda g, sc=s: g / sc.view(-1, 1) ** 2)
                self.T.append(p)
                self.S.append(s)
                los = t.out_scaling_alpha
                if isinstance(los, nn.Parameter):
                    a = nn.Parameter(los.detach().clone())
                    self.alphas.append(a)
                    self.A.append(a)
                else:
                    self.A.append(None)
                self.TB.append(t.analog_bias)
        bias = am.bias
        self.bias = nn.Parameter(bias.detach().clone()) if isinstance(bias, nn.Parameter) else None

    def blocks(self):
        """effective (weight, bias) of every tile, grid order"""
        k = 0
        out = []
        for row in self.grid:
            o = []
            for t in row:
                w = self.T[k] * self.S[k].view(-1, 1)
                if self.A[k] is not None:
                    w = w * self.A[k].view(-1, 1)
                o.append((w[:, :t.in_size], w[:, t.in_size] if t.analog_bias else None))
                k += 1
            out.append(o)
        return out

    def weight(self):
        bl = self.blocks()
        w = torch.cat([torch.cat([b[0] for b in row], 0) for row in bl], 1)
        b = bl[0][0][1]
        if self.bias is not None:
            b = self.bias
        return w, b

    def forward(self, x):
        w, b = self.weight()
        return functional(self.case, x, w, b)

    def refresh(self):
        """re-read the mapped weights after an external write"""
        k = 0
        with torch.no_grad():
            for row in self.grid:
                for t in row:
                    self.T[k].copy_(t.tile.get_weights())
                    if t.mapping_scales is not None:
                        self.S[k].copy_(t.mapping_scales)
                    if self.A[k] is not None:
                        self.A[k].copy_(t.out_scaling_alpha)
                    k += 1


def functional(case, x, w, b):
    d = case.digital
    if isinstance(d, nn.Linear):
        return F.linear(x, w, b)
    fn = {nn.Conv1d: F.conv1d, nn.Conv2d: F.conv2d, nn.Conv3d: F.conv3d}[type(d)]
    return fn(x, w.reshape(d.weight.shape), b, d.stride, d.padding, d.dilation, d.groups)


def tolerance(n):
    return dict(atol=2e-5 * (2 + n), rtol=2e-4)


def compare(mon, layer, twin, key, n, ctx):
    k = 0
    ok = True
    for row in twin.grid:
        for t in row:
            raw = t.tile.get_weights()
            ref = twin.T[k].detach()
            scale = max(1.0, ref.abs().max().item()) if ref.numel() else 1.0
            ok &= mon.close(raw / scale, ref / scale, key + ":tile_weights", msg=ctx, **tolerance(n))
            if twin.A[k] is not None:
                ok &= mon.close(t.out_scaling_alpha.detach(), twin.A[k].detach(), key + ":learned_scale", msg=ctx,
                                **tolerance(n))
            k += 1
    if twin.bias is not None:
        ok &= mon.close(getattr(layer, "analog_module", layer).bias.detach(), twin.bias.detach(), key + ":bias", msg=ctx, **tolerance(n))
    return ok


def build(rng, kind, allow=None, array_learn=False):
    mapping = gen.rand_mapping(rng, max_size=coin(rng, 0.4))
    lifetime = 0.0
    cfg, kind = gen.perfect_config(rng, kind, mapping)
    if kind == "float" and coin(rng, 0.3):
        lifetime = u(rng, 5.0, 100.0)
        cfg = FloatingPointRPUConfig(device=FloatingPointDevice(lifetime=lifetime), mapping=mapping)
    lk = rng.choice(allow or (gen.LAYER_KINDS if kind not in ("torch", "custom", "irdropt") else
                              ["linear", "linear_mapped", "conv2d", "conv2d_mapped"]))
    if lk in ("conv1d", "conv3d", "conv2d_idx", "conv2d"):
        cfg.mapping.max_input_size = cfg.mapping.max_output_size = 0
    case = gen.rand_layer(rng, cfg, lk)
    gen.randomize(case, rng)
    return case, cfg, kind, lifetime


def flatten_params(twin):
    t = list(twin.T)
    dig = list(twin.alphas) + ([twin.bias] if twin.bias is not None else [])
    return t, dig


def loss_of(out, r):
    return (out * r).sum()


def single(rng, mon):
    """One analog layer, plain SGD, long random histories."""
    case, cfg, kind, lifetime = build(rng, rng.choice(ANALOG))
    layer = case.analog
    twin = Twin(layer, case, kind)
    tparams, dparams = flatten_params(twin)
    lr = gen.logu(rng, 1e-3, 0.2)
    mom = rng.choice([0.0, 0.0, 0.9])
    wd = rng.choice([0.0, 0.0, 0.01])
    opt = AnalogSGD(layer.parameters(), lr=lr, momentum=mom, weight_decay=wd)
    regroup = rng.choice(["none", "once", "twice"])
    for _ in range({"none": 0, "once": 1, "twice": 2}[regroup]):
        opt.regroup_param_groups(layer)
    dopt = torch.optim.SGD(dparams, lr=lr, momentum=mom, weight_decay=wd) if dparams else None
    topt = torch.optim.SGD(tparams, lr=lr)
    history = []
    pending = 0
    frozen = False
    steps = 0
    make_shape_varied = case.make_input
    for _ in range(rng.randint(5, 18)):
        op = rng.choice(["fwdbwd", "fwdbwd", "fwdbwd", "step", "step", "eval", "lr", "lr0", "zero_grad",
                         "fwd_only", "closure", "write", "freeze", "inplace_after"])
        history.append(op)
        ctx = f"{kind} {case.sig} {gen.msig(cfg.mapping)} mom={mom} wd={wd} {regroup} {history}"
        if op in ("fwdbwd", "inplace_after"):
            x = make_shape_varied(rng)
            xa, xt = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
            ya, yt = layer(xa), twin(xt)
            mon.close(ya, yt, "single:output", msg=ctx, atol=1e-4 * max(1.0, yt.abs().max().item()), rtol=1e-3)
            r = torch.randn_like(yt) / max(1.0, math.sqrt(yt.numel()))
            loss_of(ya, r).backward()
            loss_of(yt, r).backward()
            mon.close(xa.grad, xt.grad, "single:input_grad", msg=ctx,
                      atol=1e-4 * max(1.0, xt.grad.abs().max().item()), rtol=1e-3)
            pending += 1
            if op == "inplace_after":
                # buffers may be reused once the gradients are computed
                with torch.no_grad():
                    xa.fill_(rng.choice([0.0, 5.0]))
                    r.fill_(3.0)
                mon.obs("op_inplace")
            mon.obs("op_fwdbwd")
            if pending > 1:
                mon.obs("op_accumulate")
        elif op == "fwd_only":
            layer(make_shape_varied(rng))
        elif op == "eval":
            layer.eval()
            x = make_shape_varied(rng)
            with torch.no_grad():
                yt = twin(x)
                mon.close(layer(x), yt, "single:eval_output", msg=ctx,
                          atol=1e-4 * max(1.0, yt.abs().max().item()), rtol=1e-3)
            layer.train()
        elif op in ("step", "closure"):
            if op == "closure" and frozen:
                continue
            if op == "closure":
                x = make_shape_varied(rng)
                xa = x.clone()
                rr = torch.randn_like(twin(x))

                def closure():
                    opt.zero_grad()
                    mon.obs("op_closure")
                    val = loss_of(layer(xa), rr) * 0.1
                    val.backward()
                    return val

                got = opt.step(closure)
                for o in (dopt, topt):
                    if o is not None:
                        o.zero_grad()
                val = loss_of(twin(x), rr) * 0.1
                val.backward()
                mon.close(got, val, "single:closure_loss", atol=1e-3 * max(1, abs(val.item())), rtol=1e-3, msg=ctx)
            else:
                opt.step()
            if dopt is not None:
                dopt.step()
            if frozen:
                for p in tparams:
                    p.grad = None
            topt.step()
            # an analog step consumes the analog gradient trace
            for p in tparams:
                p.grad = None
            if lifetime:
                with torch.no_grad():
                    for p in tparams:
                        p.mul_(1 - 1 / lifetime)
            pending = 0
            steps += 1
            mon.obs("op_step")
            if not compare(mon, layer, twin, f"single:{kind}:{op}", steps, ctx):
                return
        elif op == "zero_grad":
            to_none = coin(rng)
            opt.zero_grad(set_to_none=to_none)
            if dopt is not None:
                dopt.zero_grad(set_to_none=to_none)
            topt.zero_grad()
            pending = 0
            mon.obs("op_zero_grad")
        elif op in ("lr", "lr0"):
            lr = 0.0 if op == "lr0" and coin(rng) else gen.logu(rng, 1e-3, 0.2)
            if coin(rng):
                opt.set_learning_rate(lr)
            else:
                for g in opt.param_groups:
                    g["lr"] = lr
            for o in (dopt, topt):
                if o is not None:
                    for g in o.param_groups:
                        g["lr"] = lr
            mon.obs("op_lr")
        elif op == "write":
            if pending:
                continue
            w, b = layer.get_weights()
            layer.set_weights(torch.randn_like(w) * 0.3, None if b is None else torch.randn_like(b) * 0.3)
            twin.refresh()
            if twin.bias is not None:
                with torch.no_grad():
                    twin.bias.copy_(getattr(layer, "analog_module", layer).bias)
            if kind != "float" or True:
                compare(mon, layer, twin, "single:write", steps, ctx)
        elif op == "freeze":
            if pending:
                continue
            frozen = not frozen
            for p in layer.parameters():
                p.requires_grad_(not frozen)
            for p in dparams:
                p.requires_grad_(not frozen)
            mon.obs("op_freeze")
            if frozen:
                # torch SGD skips parameters without gradient only
                opt.zero_grad()
                for o in (dopt, topt):
                    if o is not None:
                        o.zero_grad()
    mon.state("single", kind, case.sig, gen.msig(cfg.mapping), tuple(history))
    mon.sample({"kind": kind, "layer": case.sig, "history": history})


def hwa(rng, mon):
    """Hardware-aware tiles: any torch optimizer governs the tile weights."""
    kind = rng.choice(["inference", "torch", "inference", "torch", "irdropt"])
    case, cfg, kind, _ = build(rng, kind)
    layer = case.analog
    if kind == "irdropt":
        cfg = None
    twin = Twin(layer, case, kind)
    tparams, dparams = flatten_params(twin)
    lr = gen.logu(rng, 1e-3, 0.1)
    which = rng.choice(["sgd", "sgd", "adam", "wrapped_adamw", "wrapped_rmsprop", "plain_sgd"])
    kw = dict(lr=lr)
    if which in ("sgd", "plain_sgd"):
        kw.update(momentum=rng.choice([0.0, 0.9]), weight_decay=rng.choice([0.0, 0.02]), nesterov=False)
    if which == "sgd":
        opt, ref = AnalogSGD(layer.parameters(), **kw), torch.optim.SGD
    elif which == "plain_sgd":
        opt, ref = torch.optim.SGD(layer.parameters(), **kw), torch.optim.SGD
    elif which == "adam":
        opt, ref = AnalogAdam(layer.parameters(), **kw), torch.optim.Adam
    elif which == "wrapped_adamw":
        opt, ref = AnalogOptimizer(torch.optim.AdamW, layer.parameters(), **kw), torch.optim.AdamW
    else:
        opt, ref = AnalogOptimizer(torch.optim.RMSprop, layer.parameters(), **kw), torch.optim.RMSprop
    if which != "plain_sgd" and coin(rng):
        opt.regroup_param_groups(layer)
    topt = ref(tparams + dparams, **kw)
    loose = which not in ("sgd", "plain_sgd")
    history = []
    for n in range(rng.randint(2, 6)):
        for _ in range(rng.choice([1, 1, 2])):
            x = case.make_input(rng)
            xa, xt = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
            ya, yt = layer(xa), twin(xt)
            r = torch.randn_like(yt) / max(1.0, math.sqrt(yt.numel()))
            loss_of(ya, r).backward()
            loss_of(yt, r).backward()
            mon.close(xa.grad, xt.grad, "hwa:input_grad", msg=f"{kind} {case.sig}",
                      atol=1e-4 * max(1.0, xt.grad.abs().max().item()), rtol=1e-3)
        opt.step()
        topt.step()
        mon.obs("hwa_step")
        if coin(rng, 0.8):
            opt.zero_grad()
            topt.zero_grad()
            history.append("sz")
        else:
            history.append("s")  # torch gradients accumulate across steps
        ctx = f"{kind} {which} {case.sig} {kw} {gen.msig(next(layer.analog_tiles()).rpu_config.mapping)} {history}"
        if loose:
            # sign-like optimizers amplify rounding of near-zero gradients: compare outputs loosely
            x = case.make_input(rng)
            with torch.no_grad():
                a, b = layer(x), twin(x)
            k = 0
            for row in twin.grid:
                for t in row:
                    d = (t.tile.get_weights() - twin.T[k].detach()).abs()
                    frac = (d > 1e-3 * (1 + n) * max(lr * 10, twin.T[k].abs().max().item())).float().mean().item()
                    mon.check(frac <= 0.05, f"hwa:{which}:{kind}:tile_weights", f"{ctx}: {frac} of the weights differ")
                    k += 1
        elif not compare(mon, layer, twin, f"hwa:{kind}:{which}", n + 2, ctx):
            return
    mon.state("hwa", kind, which, case.sig, tuple(history))


def net(rng, mon):
    """A network of analog layers with per-layer parameter groups against the digital network."""
    kind = rng.choice(ANALOG + ("inference",))
    sizes = [rng.randint(1, 7) for _ in range(4)]
    layers, twins, mods = [], [], []
    for i in range(3):
        cfg, _ = gen.perfect_config(rng, kind, gen.rand_mapping(rng, max_size=coin(rng, 0.3)))
        lk = rng.choice(["linear", "linear_mapped"])
        if lk == "linear" and coin(rng, 0.7):
            cfg.mapping.max_input_size = cfg.mapping.max_output_size = 0
        cls = gen.AnalogLinear if lk == "linear" else gen.AnalogLinearMapped
        bias = coin(rng)
        l = cls(sizes[i], sizes[i + 1], bias, cfg)
        case = gen.LayerCase(l, nn.Linear(sizes[i], sizes[i + 1], bias), None, (lk, sizes[i], sizes[i + 1], bias))
        gen.randomize(case, rng)
        layers.append(l)
        twins.append(Twin(l, case, kind))
    shared = coin(rng, 0.3) and sizes[1] == sizes[2]
    act = rng.choice([torch.tanh, torch.sigmoid])
    lrs = [gen.logu(rng, 1e-3, 0.2) for _ in layers]
    base = 0.05
    use = rng.choice(["groups", "groups", "flat"])
    if use == "groups":
        opt = AnalogSGD([{"params": list(l.parameters()), "lr": v} for l, v in zip(layers, lrs)], lr=base)
    else:
        opt = AnalogSGD([p for l in layers for p in l.parameters()], lr=base)
        lrs = [base] * 3
    rg = rng.choice([0, 1, 2])
    for _ in range(rg):
        opt.regroup_param_groups()
    topt = torch.optim.SGD([{"params": list(t.parameters()), "lr": v} for t, v in zip(twins, lrs)], lr=base)
    sched = None
    if coin(rng, 0.4):
        g = u(rng, 0.3, 0.9)
        sched = (torch.optim.lr_scheduler.ExponentialLR(opt, g), torch.optim.lr_scheduler.ExponentialLR(topt, g))
    if sched and coin(rng, 0.3):
        opt.regroup_param_groups()
    ctx = f"{kind} {sizes} {use} rg={rg} sched={bool(sched)}"

    def run(ls, x):
        for i, l in enumerate(ls):
            x = l(x)
            if i < 2:
                x = act(x)
        return x

    def twice(ls, x):
        return run(ls, x)

    for n in range(rng.randint(2, 6)):
        opt.zero_grad()
        topt.zero_grad()
        for _ in range(rng.choice([1, 1, 3])):
            x = torch.randn(*rng.choice([(4,), (2, 2), (1,)]), sizes[0])
            yt, ya = run(twins, x), run(layers, x)
            mon.close(ya, yt, "net:output", atol=2e-4 * max(1, yt.abs().max().item()), rtol=1e-3, msg=ctx)
            tgt = torch.randn_like(yt)
            F.mse_loss(ya, tgt).backward()
            F.mse_loss(yt, tgt).backward()
        opt.step()
        topt.step()
        if sched:
            for s in sched:
                s.step()
        mon.obs("net_step")
        for i, (l, t) in enumerate(zip(layers, twins)):
            if not compare(mon, l, t, f"net:{kind}", 3 * n + 3, f"{ctx} step {n} layer {i}"):
                return
    mon.state("net", kind, tuple(sizes), use, rg, bool(sched))


def reuse(rng, mon):
    """The same layer applied several times in one graph (weight sharing through time)."""
    kind = rng.choice(ANALOG + ("inference", "torch"))
    cfg, _ = gen.perfect_config(rng, kind, gen.rand_mapping(rng))
    n = rng.randint(1, 6)
    bias = coin(rng)
    l = gen.AnalogLinear(n, n, bias, cfg)
    case = gen.LayerCase(l, nn.Linear(n, n, bias), None, ("linear", n, n, bias))
    gen.randomize(case, rng)
    twin = Twin(l, case, kind)
    opt, topt = AnalogSGD(l.parameters(), lr=0.05), torch.optim.SGD(twin.parameters(), lr=0.05)
    times = rng.randint(2, 5)
    shapes = [rng.choice([(3,), (1,), (2, 2), ()]) for _ in range(2)]
    for s in range(2):
        opt.zero_grad()
        topt.zero_grad()
        for sh in shapes:
            x = torch.randn(*sh, n)
            a, b = x, x
            for _ in range(times):
                a, b = torch.tanh(l(a)), torch.tanh(twin(b))
            tgt = torch.randn_like(b)
            F.mse_loss(a, tgt).backward()
            F.mse_loss(b, tgt).backward()
        opt.step()
        topt.step()
        mon.obs("reuse_step")
        if not compare(mon, l, twin, f"reuse:{kind}", 3 + s, f"{kind} n={n} times={times} {shapes}"):
            return
    mon.state("reuse", kind, n, times, tuple(shapes), gen.msig(cfg.mapping))


SCENARIOS = [
    Scenario("single", single, quick=500, thorough=8000),
    Scenario("hwa", hwa, quick=250, thorough=4000),
    Scenario("net", net, quick=150, thorough=2500),
    Scenario("reuse", reuse, quick=100, thorough=1500),
]
