"""P12: the analog optimizer drives every tile with its own group's settings.

Monitor: random optimizer histories (groups, schedulers, closures, freezing, accumulation, copies,
regrouping) on analog models run next to a digital twin with one torch group per parameter; an event
log of the tile calls (set_learning_rate, update, update_indexed, post_update_step) is checked
per step against the traces that were pending and the learning rate of the own group.
"""
import copy
import io
import warnings

import torch
from torch import nn

import gen
from vh import Scenario
from aihwkit.nn import AnalogLinear, AnalogSequential, AnalogLinearMapped
from aihwkit.optim import AnalogAdam, AnalogOptimizer, AnalogSGD
from aihwkit.optim.context import AnalogContext
from aihwkit.simulator.configs import (FloatingPointRPUConfig, InferenceRPUConfig, MappingParameter, SingleRPUConfig,
                                       TorchInferenceRPUConfig, FloatingPointDevice)

PID = "P12"
RULE = "one state per (tile kind, optimizer, operation, number of groups)"
ASSUMPTIONS = ["analog tiles are compared with plain gradient descent of the own group's learning rate, torch-updated tiles "
               "with the wrapped optimizer", "optimizers that create state from parameter values are not wrapped (Adagrad, LBFGS)"]
REQUIRES = ("twin", "log", "scheduler", "closure", "restored", "regrouped", "frozen")

OPTS = [("SGD", torch.optim.SGD), ("Adam", torch.optim.Adam), ("AdamW", torch.optim.AdamW), ("RMSprop", torch.optim.RMSprop),
        ("NAdam", torch.optim.NAdam), ("RAdam", torch.optim.RAdam), ("Adamax", torch.optim.Adamax), ("Adadelta", torch.optim.Adadelta)]


def rand_options(rng, name):
    o = dict(lr=rng.choice([0.05, 0.2, 0.01, 0.1]) * (0.1 if name not in ("SGD", "Adadelta") else 1.0))
    if gen.coin(rng, 0.4):
        o["weight_decay"] = rng.choice([0.1, 0.01])
    if name == "SGD" and gen.coin(rng, 0.4):
        o["momentum"] = 0.9
        o["nesterov"] = gen.coin(rng)
    if name in ("Adam", "AdamW", "NAdam", "RAdam", "Adamax") and gen.coin(rng, 0.4):
        o["betas"] = (0.8, 0.9)
    if name != "SGD":
        o["eps"] = 0.05    # otherwise rounding of vanishing gradients is amplified
    if name == "RMSprop" and gen.coin(rng, 0.4):
        o["momentum"] = 0.5
    return o


def make_opt(rng_choice, name, cls, groups):
    if name == "SGD" and rng_choice == 0:
        return AnalogSGD(groups, lr=0.123)
    if name == "Adam" and rng_choice == 0:
        return AnalogAdam(groups, lr=0.123)
    return AnalogOptimizer(cls, groups, lr=0.123)


def make_sched(kind, opt):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "step":
            return torch.optim.lr_scheduler.StepLR(opt, 2, 0.5)
        if kind == "exp":
            return torch.optim.lr_scheduler.ExponentialLR(opt, 0.7)
        if kind == "lambda":
            return torch.optim.lr_scheduler.LambdaLR(opt, lambda k: 1.0 / (1 + k))
        if kind == "warm":
            return torch.optim.lr_scheduler.LambdaLR(opt, lambda k: 0.0 if k == 0 else 0.5)
        return None


CFG = {"float": FloatingPointRPUConfig, "ideal": None, "inference": InferenceRPUConfig, "torch": TorchInferenceRPUConfig}


def twin_cfg(rng, kind):
    mp = MappingParameter(weight_scaling_omega=0.0, learn_out_scaling=False, digital_bias=gen.coin(rng))
    cfg, _ = gen.perfect_config(rng, kind, mp)
    m = cfg.mapping
    m.weight_scaling_omega = 0.0
    m.learn_out_scaling = False
    m.weight_scaling_columnwise = False
    m.out_scaling_columnwise = False
    m.max_input_size = m.max_output_size = 0
    if kind in ("inference", "torch"):
        m.digital_bias = True
        from aihwkit.simulator.parameters.enums import WeightClipType, WeightModifierType, WeightRemapType
        cfg.clip.type = WeightClipType.NONE
        cfg.modifier.type = WeightModifierType.NONE if hasattr(WeightModifierType, "NONE") else WeightModifierType.COPY
        cfg.remap.type = WeightRemapType.NONE
        if hasattr(cfg, "pre_post"):
            cfg.pre_post.input_range.enable = False
    return cfg


class Twin:
    """analog model and digital twin; pairs of parameters."""

    def __init__(self, rng, kind):
        self.kind = kind
        dims = [rng.randint(1, 5) for _ in range(rng.randint(2, 4))]
        mods, dmods, self.spec = [], [], []
        for k, (i, o) in enumerate(zip(dims[:-1], dims[1:])):
            analog = k == 0 or gen.coin(rng, 0.7)
            bias = gen.coin(rng)
            d = nn.Linear(i, o, bias=bias)
            if analog:
                cfg = twin_cfg(rng, kind)
                a = AnalogLinear(i, o, bias=bias, rpu_config=cfg)
                a.set_weights(d.weight.data, d.bias.data if bias else None)
                w, b = a.get_weights()
                d.weight.data.copy_(w)
                if bias:
                    d.bias.data.copy_(b)
            else:
                a = copy.deepcopy(d)
            mods.append(a)
            dmods.append(d)
            self.spec.append((analog, bias))
            mods.append(nn.Tanh())
            dmods.append(nn.Tanh())
            if o > 1 and gen.coin(rng, 0.3):
                ln = nn.LayerNorm(o, eps=0.5)
                mods.append(ln)
                dmods.append(copy.deepcopy(ln))
        self.model = AnalogSequential(*mods)
        self.ref = nn.Sequential(*dmods)
        self.i = dims[0]

    def pairs(self):
        """(analog model parameters, reference parameters, internal analog update?)"""
        out = []
        for a, d in zip(self.model, self.ref):
            if isinstance(a, AnalogLinear):
                t = a.analog_module
                analog_update = self.kind in ("float", "ideal", "constant")
                if analog_update:
                    r = [d.weight] + ([d.bias] if d.bias is not None and t.analog_bias else [])
                    out.append((t.analog_ctx, r, True))
                    rest = [p for p in a.parameters() if p is not t.analog_ctx]
                    r2 = [d.bias] if d.bias is not None and not t.analog_bias else []
                else:
                    rest = [p for p in a.parameters() if p is not t.analog_ctx]
                    ws = [p for p in rest if tuple(p.shape) == tuple(d.weight.shape) and p.dim() == 2]
                    assert len(ws) == 1, [p.shape for p in rest]
                    out.append((ws[0], [d.weight], False))
                    out.append((t.analog_ctx, [], True))
                    rest = [p for p in rest if p is not ws[0]]
                    r2 = [d.bias] if d.bias is not None else []
                assert len(rest) == len(r2), ([tuple(p.shape) for p in rest], len(r2))
                out += [(p, [q], False) for p, q in zip(rest, r2)]
            elif isinstance(a, (nn.Linear, nn.LayerNorm)):
                out += [(p, [q], False) for p, q in zip(a.parameters(), d.parameters())]
        return out

    def compare(self, mon, key):
        for a, d in zip(self.model, self.ref):
            if isinstance(a, AnalogLinear):
                w, b = a.get_weights()
                n = "analog" if self.kind in ("float", "ideal", "constant") else "torch_update"
                mon.close(w, d.weight, f"{key}:{n}:weight", atol=5e-5, rtol=5e-4)
                if b is not None:
                    mon.close(b, d.bias, f"{key}:{n}:bias", atol=5e-5, rtol=5e-4)
                    d.bias.data.copy_(b)
                d.weight.data.copy_(w)
            elif isinstance(a, (nn.Linear, nn.LayerNorm)):
                mon.close(a.weight, d.weight, key + ":digital", atol=5e-5, rtol=5e-4)
                if a.bias is not None:
                    mon.close(a.bias, d.bias, key + ":digital", atol=5e-5, rtol=5e-4)


class RefOpt:
    """reference: torch optimizer with one group per parameter, SGD for analog tiles."""

    def __init__(self, cls, pairs, options):
        # options: per pair
        self.digital = [dict(o, params=r) for (p, r, an), o in zip(pairs, options) if not an]
        self.analog = [dict(lr=o["lr"], params=r) for (p, r, an), o in zip(pairs, options) if an and r]
        self.opts = []
        if self.digital:
            self.opts.append(cls(self.digital, lr=0.123))
        if self.analog:
            self.opts.append(torch.optim.SGD(self.analog, lr=0.123))

    def zero_grad(self, none):
        for o in self.opts:
            o.zero_grad(set_to_none=none)
        # no trace is no gradient at all for the tiles
        if self.analog:
            self.opts[-1].zero_grad(set_to_none=True)

    def step(self):
        for o in self.opts:
            o.step()


def build(groups_idx, options, pairs, name, cls, which):
    groups = []
    for g, o in zip(groups_idx, options):
        groups.append(dict(o, params=[pairs[k][0] for k in g]))
    return make_opt(which, name, cls, groups)


def s_twin(rng, mon):
    kind = rng.choice(["float", "float", "ideal", "inference", "torch"])
    tw = Twin(rng, kind)
    name, cls = rng.choice(OPTS)
    which = rng.randint(0, 1)
    pairs = tw.pairs()
    idx = list(range(len(pairs)))
    rng.shuffle(idx)
    ng = min(rng.choice([1, 1, 2, 3]), len(idx))
    cuts = sorted(rng.sample(range(1, len(idx)), ng - 1)) if ng > 1 else []
    groups = [idx[a:b] for a, b in zip([0] + cuts, cuts + [len(idx)])]
    opts = [rand_options(rng, name) for _ in groups]
    # all groups need the same keys
    if gen.coin(rng, 0.25):
        opts[-1]["lr"] = 0.0
    per = [None] * len(pairs)
    for g, o in zip(groups, opts):
        for k in g:
            per[k] = o
    late = []
    if ng > 1 and gen.coin(rng, 0.25):
        late = [ng - 1]
    mon.ctx = ops = [kind, name, ng]
    n0 = ng - len(late)
    opt = build(groups[:n0], opts[:n0], pairs, name, cls, which)
    active = [k for g in groups[:n0] for k in g]

    def make_ref(sub):
        return RefOpt(cls, [pairs[k] for k in sub], [per[k] for k in sub])
    ref = make_ref(active)
    extra_refs = []
    regrouped = False
    if gen.coin(rng, 0.3):
        opt.regroup_param_groups(tw.model) if gen.coin(rng) else opt.regroup_param_groups()
        regrouped = True
        mon.state("regrouped", kind, name)
    sk = rng.choice([None, None, "step", "exp", "lambda", "warm"]) if not late else None
    scheds = []
    if sk:
        scheds = [make_sched(sk, opt)] + [make_sched(sk, o) for o in ref.opts]
        mon.state("scheduler", sk, ng)
    # the sorted learning rates of the tiles are those of the groups

    def refs():
        return [ref] + extra_refs

    def zero():
        none = gen.coin(rng, 0.7)
        opt.zero_grad(set_to_none=none)
        for r in refs():
            r.zero_grad(none)

    def passes():
        x = torch.randn(rng.randint(1, 4), tw.i)
        y = tw.model(x)
        z = tw.ref(x)
        mon.close(y, z, "twin:forward", atol=1e-4, rtol=1e-3)
        if y.requires_grad:
            (y ** 2).mean().backward()
        if z.requires_grad:
            (z ** 2).mean().backward()
    tw.model.train()
    for _ in range(rng.randint(3, 8)):
        op = rng.choice(["step", "step", "step", "accumulate", "closure", "empty", "freeze", "copy", "late", "noclear", "setlr", "regroup", "eval"])
        ops.append(op)
        if op in ("step", "accumulate", "noclear"):
            if op != "noclear":
                zero()
            for _ in range(2 if op == "accumulate" else 1):
                passes()
            opt.step()
            for r in refs():
                r.step()
            # traces are consumed by a step, gradients of tiles do not accumulate over steps
            for r in refs():
                if r.analog:
                    r.opts[-1].zero_grad(set_to_none=True)
        elif op == "closure":
            none = gen.coin(rng)
            x = torch.randn(rng.randint(1, 4), tw.i)
            calls = []

            def closure():
                calls.append(1)
                opt.zero_grad()
                loss = (tw.model(x) ** 2).mean()
                if loss.requires_grad:
                    loss.backward()
                return loss
            loss = opt.step(closure)
            for r in refs():
                r.zero_grad(True)
            zl = (tw.ref(x) ** 2).mean()
            if zl.requires_grad:
                zl.backward()
            for r in refs():
                r.step()
            for r in refs():
                if r.analog:
                    r.opts[-1].zero_grad(set_to_none=True)
            mon.check(len(calls) == 1, "closure:calls", lambda: f"{len(calls)} calls")
            mon.check(loss is not None and torch.allclose(loss.detach(), zl.detach(), atol=1e-4, rtol=1e-3), "closure:loss", lambda: f"{loss} {zl}")
            mon.state("closure", kind, name)
            del none
        elif op == "eval":
            tw.model.eval()
            zero()
            with torch.no_grad():
                x = torch.randn(3, tw.i)
                mon.close(tw.model(x), tw.ref(x), "twin:eval", atol=1e-4, rtol=1e-3)
            tw.model.train()
            opt.step()
            for r in refs():
                r.step()
        elif op == "empty":
            zero()
            opt.step()
            for r in refs():
                r.step()
        elif op == "freeze":
            zero()
            layers = [(a, d) for a, d in zip(tw.model, tw.ref) if isinstance(a, nn.Module) and list(a.parameters())]
            a, d = rng.choice(layers)
            flag = gen.coin(rng)
            a.requires_grad_(flag)
            d.requires_grad_(flag)
            mon.state("frozen", kind, flag)
        elif op == "copy" and not late and not extra_refs and not regrouped:
            # continue with a restored model and optimizer
            model2 = copy.deepcopy(tw.model)
            tw.model = model2
            pairs[:] = tw.pairs()
            opt2 = build(groups[:n0], [dict(o, lr=0.77) for o in opts[:n0]], pairs, name, cls, which)
            sched2 = make_sched(sk, opt2) if sk else None
            sd = opt.state_dict()
            if gen.coin(rng):
                f = io.BytesIO()
                torch.save(sd, f)
                f.seek(0)
                sd = torch.load(f, weights_only=False)
            opt2.load_state_dict(sd)
            if sched2 is not None:
                sched2.load_state_dict(copy.deepcopy(scheds[0].state_dict()))
                scheds[0] = sched2
            opt = opt2
            for r in refs():
                r.zero_grad(True)    # copies have no gradients
            mon.state("restored", kind, name)
        elif op == "late" and late:
            g = late.pop()
            opt.add_param_group(dict(opts[g], params=[pairs[k][0] for k in groups[g]]))
            extra_refs.append(make_ref(groups[g]))
            mon.state("added", kind, name)
        elif op == "setlr" and not sk:
            lr = rng.choice([0.03, 0.1])
            opt.set_learning_rate(lr)
            for r in refs():
                for o in r.opts:
                    for gr in o.param_groups:
                        gr["lr"] = lr
            for o in opts[:ng - len(late)]:
                o["lr"] = lr
            for k, (p, _, an) in enumerate(pairs):
                if isinstance(p, AnalogContext) and kind != "torch" and any(p is q for gr in opt.param_groups for q in gr["params"]):
                    mon.check(abs(p.analog_tile.get_learning_rate() - lr) < 1e-6, "set_learning_rate:tile", "")
        elif op == "regroup" and not sk:
            opt.regroup_param_groups(tw.model)
            regrouped = True
            mon.state("regrouped", kind, name)
        if scheds and op in ("step", "accumulate", "closure", "noclear") and gen.coin(rng, 0.8):
            for s in scheds:
                s.step()
        tw.compare(mon, f"twin:{op}")
        mon.state("twin", kind, name, op, ng)


# ------------------------------------------------------------------ event log
NAMES = ("set_learning_rate", "update", "update_indexed", "post_update_step")


def hook(t, log):
    for n in NAMES:
        f = getattr(t, n)

        def g(*a, _f=f, _n=n, **k):
            log.append((id(t), _n, float(a[0]) if _n == "set_learning_rate" and a else None, None if not a or _n in NAMES[:1] + NAMES[3:] else a[0].shape))
            return _f(*a, **k)
        object.__setattr__(t, n, g)


def s_log(rng, mon):
    kind = rng.choice(["float", "ideal", "constant", "inference", "torch", "custom"])
    cfg, kind = gen.perfect_config(rng, kind)
    kinds = ["two", "conv", "mapped", "lstm"] + (["conv_idx"] if kind in ("float", "ideal", "constant") else [])
    model, make, mk = gen.rand_model(rng, cfg, kinds)
    ts = list(model.analog_tiles())
    params = list(model.parameters())
    rng.shuffle(params)
    ng = min(rng.choice([1, 2, 3]), len(params))
    cuts = sorted(rng.sample(range(1, len(params)), ng - 1)) if ng > 1 else []
    lrs = [rng.choice([0.1, 0.2, 0.05, 0.0]) for _ in range(ng)]
    groups = [dict(params=params[a:b], lr=lr) for a, b, lr in zip([0] + cuts, cuts + [len(params)], lrs)]
    lr_of = {id(p): lr for g, lr in zip(groups, lrs) for p in g["params"]}
    name, cls = rng.choice(OPTS)
    opt = make_opt(rng.randint(0, 1), name, cls, groups)
    if gen.coin(rng, 0.3):
        opt.regroup_param_groups(model)
    sk = rng.choice([None, "step", "exp", "lambda"])
    sched = make_sched(sk, opt)
    log = []
    for t in ts:
        hook(t, log)
    mon.ctx = ops = [kind, mk, name, ng, sk]
    k = 0
    model.train()
    for _ in range(rng.randint(2, 5)):
        op = rng.choice(["pass", "pass", "two", "none", "freeze", "eval"])
        ops.append(op)
        opt.zero_grad()
        frozen = None
        if op == "freeze":
            frozen = rng.choice(ts)
            frozen.requires_grad_(False)
        for _ in range({"pass": 1, "two": 2, "freeze": 1}.get(op, 0)):
            y = model(make(rng))
            if y.requires_grad:
                y.sum().backward()
        if op == "eval":
            model.eval()
            with torch.no_grad():
                model(make(rng))
            model.train()
        pend = {id(t): (len(t.analog_ctx.analog_input), t.analog_ctx.use_torch_update, t.analog_ctx.use_indexed) for t in ts}
        ids = {id(t.analog_ctx): id(t) for t in ts}
        del ids
        del log[:]
        opt.step()
        for t in ts:
            ev = [e for e in log if e[0] == id(t)]
            n, torch_up, idx = pend[id(t)]
            lr = next(g["lr"] for g in opt.param_groups if any(p is t.analog_ctx for p in g["params"]))
            want_lr = lr_of[id(t.analog_ctx)] * {None: 1.0, "step": 0.5 ** (k // 2), "exp": 0.7 ** k, "lambda": 1.0 / (1 + k)}[sk]
            mon.check(abs(lr - want_lr) < 1e-9, "log:group_lr", lambda: f"{lr} {want_lr}")
            post = [e for e in ev if e[1] == "post_update_step"]
            mon.check(len(post) == 1, "log:post_update_step", lambda: f"{len(post)} calls")
            ups = [j for j, e in enumerate(ev) if e[1] in ("update", "update_indexed")]
            if frozen is not None and t is frozen and not torch_up:
                mon.check(n == 0, "log:frozen", "a frozen tile has pending traces")
            exp = 0 if torch_up or n == 0 or lr == 0.0 else (n if idx else 1)
            mon.check(len(ups) == exp, "log:updates", lambda: f"{len(ups)} update calls, expected {exp} ({n} traces, indexed {idx}, torch {torch_up}, lr {lr})")
            if ups:
                last = [e for e in ev[:ups[0]] if e[1] == "set_learning_rate"]
                cur = last[-1][2] if last else t.get_learning_rate()
                mon.check(abs(cur - want_lr) < 1e-6, "log:lr", lambda: f"updated with {cur}, group has {want_lr}")
                mon.check(abs(t.get_learning_rate() - want_lr) < 1e-6, "log:lr_after", "")
                jp = [j for j, e in enumerate(ev) if e[1] == "post_update_step"]
                mon.check(not jp or jp[0] > ups[-1], "log:order", "post update before the update")
                mon.check(all(e[1] in NAMES for e in ev), "log:names", "")
            mon.check(len(t.analog_ctx.analog_input) == 0 or torch_up, "log:consumed", "traces survive the step")
        if frozen is not None:
            frozen.requires_grad_(True)
        if sched is not None:
            sched.step()
            k += 1
        mon.state("log", kind, mk, op)


# ------------------------------------------------------------------ decay in the post update step
def s_post(rng, mon):
    """post update operations happen once per optimizer step, with and without gradients."""
    life = rng.choice([5.0, 20.0, 100.0])
    cfg = FloatingPointRPUConfig(device=FloatingPointDevice(lifetime=life), mapping=MappingParameter(weight_scaling_omega=0.0))
    lay = AnalogSequential(AnalogLinear(3, 2, bias=True, rpu_config=cfg), nn.Linear(2, 2))
    opt = AnalogSGD([{"params": lay[0].parameters(), "lr": 0.1}, {"params": lay[1].parameters(), "lr": 0.3}])
    w = lay[0].get_weights()[0].clone()
    for _ in range(4):
        opt.zero_grad()
        if gen.coin(rng):
            x = torch.randn(2, 3)
            y = lay(x)
            g = torch.randn_like(y)
            y.backward(g.clone())
            d = g @ lay[1].weight.detach()
            w = w - 0.1 * d.t() @ x
        opt.step()
        w = w * (1 - 1 / life)
        mon.close(lay[0].get_weights()[0], w, "post:decay", atol=1e-5, rtol=1e-4)
        mon.state("post", life)
        w = lay[0].get_weights()[0].clone()


def s_rate(rng, mon):
    """the learning rate of a tile does not touch gradients that torch optimizers use."""
    cfg = twin_cfg(rng, "inference")
    i, o = rng.randint(1, 4), rng.randint(1, 4)
    lay = AnalogLinear(i, o, bias=gen.coin(rng), rpu_config=cfg)
    lay.train()
    for _ in range(3):
        lr = rng.choice([0.0, 0.0, 0.1, 2.0])
        if gen.coin(rng):
            lay.analog_module.set_learning_rate(lr)
        else:
            AnalogSGD([{"params": [lay.analog_module.analog_ctx]}], lr=lr).set_learning_rate(lr)
        junk = [torch.full((o, i), 1e10) for _ in range(4)]
        del junk
        lay.zero_grad()
        x = torch.randn(rng.randint(1, 3), i)
        y = lay(x)
        d = torch.randn_like(y)
        y.backward(d.clone())
        g = lay.analog_module.shared_weights.grad
        mon.close(g, d.t() @ x, "rate:gradient", atol=1e-5, rtol=1e-4, msg=f"learning rate {lr}")
        mon.state("rate", lr)


SCENARIOS = [
    Scenario("rate", s_rate, quick=60, thorough=600, min_evals=180),
    Scenario("twin", s_twin, quick=700, thorough=10000, min_evals=8000),
    Scenario("log", s_log, quick=400, thorough=5000, min_evals=8000),
    Scenario("post", s_post, quick=40, thorough=400, min_evals=160),
]
