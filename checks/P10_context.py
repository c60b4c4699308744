"""P10: the analog context and weight views stay coherent with the tile.

Monitor: models go through random histories (training, writing, loading, copying, moving,
freezing, programming); after every operation the identity of contexts and tiles, the views
against the weights of the tile and the traces are judged, and every in-place operation torch
offers is thrown at contexts, views and views of views while the raw tile weights are watched.
"""
import copy
import io
import operator
import pickle
import warnings

import torch
from torch import nn

import gen
from vh import Scenario, Skip
from aihwkit.exceptions import AihwkitException
from aihwkit.nn import AnalogConv2d, AnalogLinear, AnalogSequential
from aihwkit.nn.conversion import convert_to_analog, convert_to_digital
from aihwkit.optim import AnalogSGD
from aihwkit.optim.context import AnalogContext
from aihwkit.simulator.configs import FloatingPointRPUConfig, InferenceRPUConfig

PID = "P10"
RULE = ("one state per (tile kind, operation, view mode) after which contexts, views and traces are "
        "judged and per (target, in-place operation) refused")
ASSUMPTIONS = ["numpy arrays made from a read-only view are outside of the guard",
               "CPU tiles only"]
REQUIRES = ("history", "inplace", "trace", "buffer", "digital_optimizer", "frozen")
KINDS = ["float", "ideal", "constant", "inference", "torch", "custom"]


def tiles(model):
    return list(model.analog_tiles())


def raw(t):
    return t.tile.get_weights().detach().clone()


def logical(t):
    w = raw(t)
    if t.analog_bias:
        w = w[:, :t.in_size]
    s = t.get_scales()
    return w if s is None else w * s.detach().view(-1, 1)


def coherent(mon, key, model, modes=False):
    ps = list(model.parameters())
    for t in tiles(model):
        c = t.analog_ctx
        mon.check(isinstance(c, AnalogContext), key + ":type", lambda: f"the analog parameter is a {type(c)}")
        if not isinstance(c, AnalogContext):
            continue
        mon.check(c.analog_tile is t, key + ":tile", "the context stands for another tile")
        mon.check(sum(p is c for p in ps) == 1, key + ":parameter", "the context of a tile is not a parameter of the model")
        w = logical(t)
        mon.check(tuple(c.shape) == tuple(w.shape) and tuple(c.size()) == tuple(w.shape) and c.numel() == w.numel(),
                  key + ":shape", lambda: f"{tuple(c.shape)} {tuple(w.shape)}")
        m0 = c.data_view_mode
        if m0.value == "buffer":
            continue
        c.enable_data_view()
        mon.close(c.data.as_subclass(torch.Tensor), w, key + ":view", atol=1e-7, rtol=1e-6, msg="view does not show the current weights")
        mon.close(torch.as_tensor(c.norm()), w.norm(), key + ":norm", atol=1e-6, rtol=1e-5)
        gw = t.get_weights()[0]
        mon.close(gw, w, key + ":get_weights", atol=1e-7, rtol=1e-6)
        r0 = raw(t)
        gw += 1.0      # must be a copy
        mon.check(torch.equal(raw(t), r0), key + ":copy", "writing into the result of get_weights changes the tile")
        c.data_view_mode = m0
        mon.check(c.data_view_mode == m0, key + ":mode", "")
        if m0.value == "placeholder":
            for f in (lambda: c.norm(), lambda: c + 1, lambda: c.data.sum(), lambda: c.get_data(), lambda: c.tolist(),
                      lambda: c[0], lambda: c.T, lambda: float(c.data.flatten()[0])):
                mon.raises(f, key + ":placeholder", "values can be read in placeholder mode", exc=RuntimeError)
    # every context in the parameters belongs to one of the tiles
    for p in ps:
        if isinstance(p, AnalogContext):
            mon.check(any(p is t.analog_ctx for t in tiles(model)), key + ":orphan", "a context without tile")


def s_history(rng, mon):
    cfg, kind = gen.perfect_config(rng, rng.choice(KINDS))
    kinds = ["linear", "two", "conv", "mapped"] + (["conv_idx"] if kind in ("float", "ideal", "constant", "inference") else [])
    model, make, _ = gen.rand_model(rng, cfg, kinds)
    mon.ctx = ops = [kind]
    opt = AnalogSGD(model.parameters(), lr=0.05)
    coherent(mon, "new", model)
    for _ in range(rng.randint(2, 6)):
        op = rng.choice(["train", "train", "set", "state", "deepcopy", "pickle", "to", "cpu", "mode", "freeze", "remap",
                         "program", "digital", "regroup", "save"])
        ops.append(op)
        ids = [id(t.analog_ctx) for t in tiles(model)]
        frozen = None
        if op in ("state", "save", "to", "cpu", "mode", "regroup") and gen.coin(rng, 0.3):
            frozen = rng.choice(tiles(model))
            frozen.analog_ctx.requires_grad_(False)
        if op == "train":
            model.train()
            gen.train_steps(model, opt, make, rng, 1)
        elif op == "set":
            for t in tiles(model):
                w, b = t.get_weights()
                t.set_weights(torch.randn_like(w) * 0.3, None if b is None else torch.randn_like(b))
        elif op == "state":
            model.load_state_dict(copy.deepcopy(model.state_dict()))
        elif op == "save":
            f = io.BytesIO()
            torch.save(model.state_dict(), f)
            f.seek(0)
            model.load_state_dict(torch.load(f, weights_only=False))
        elif op in ("deepcopy", "pickle"):
            old = model
            for t in tiles(old):
                t.analog_ctx.requires_grad_(gen.coin(rng))
            r0 = [t.analog_ctx.requires_grad for t in tiles(old)]
            model = copy.deepcopy(model) if op == "deepcopy" else pickle.loads(pickle.dumps(model))
            mon.check([t.analog_ctx.requires_grad for t in tiles(model)] == r0, op + ":requires_grad",
                      "frozen tiles are not frozen in the copy")
            w0 = [raw(t) for t in tiles(old)]
            for a in tiles(model):
                a.tile.set_weights(torch.randn_like(raw(a)) * 0.2)
            mon.check(all(torch.equal(raw(t), w) for t, w in zip(tiles(old), w0)), op + ":shared",
                      "the copy shares its weights with the original")
            coherent(mon, op + ":old", old)
            model.requires_grad_(True)
            opt = AnalogSGD(model.parameters(), lr=0.05)
        elif op == "to":
            model = model.to("cpu")
        elif op == "cpu":
            model = model.cpu()
        elif op == "mode":
            for t in tiles(model):
                t.analog_ctx.data_view_mode = rng.choice(["placeholder", "data_view"])
        elif op == "freeze":
            flag = gen.coin(rng)
            opt.zero_grad()
            model.requires_grad_(flag)
            mon.check(all(t.analog_ctx.requires_grad == flag for t in tiles(model)), "freeze", "")
            w0 = [raw(t) for t in tiles(model)]
            if not flag:
                model.train()
                x = make(rng).requires_grad_(True)
                y = model(x)
                if y.requires_grad:
                    y.sum().backward()
                opt.step()
                mon.check(all(torch.equal(raw(t), w) for t, w in zip(tiles(model), w0)), "frozen:step", "a frozen tile is updated")
                mon.state("frozen", kind)
            model.requires_grad_(True)
            opt.zero_grad()
        elif op == "remap" and kind in ("inference", "torch", "ideal"):
            model.remap_analog_weights()
        elif op == "program" and kind in ("inference", "torch"):
            model.eval()
            model.program_analog_weights()
            if gen.coin(rng):
                model.drift_analog_weights(10.0)
        elif op == "digital":
            d = convert_to_digital(copy.deepcopy(model))
            mon.check(not any(isinstance(p, AnalogContext) for p in d.parameters()), "digital", "a context is left in the digital model")
        elif op == "regroup":
            opt = AnalogSGD(model.parameters(), lr=0.05)
            opt.regroup_param_groups(model)
        if op not in ("deepcopy", "pickle"):
            mon.check([id(t.analog_ctx) for t in tiles(model)] == ids, op + ":identity", "the analog parameter is another object")
        if frozen is not None:
            mon.check(not frozen.analog_ctx.requires_grad, op + ":frozen", "a frozen tile is not frozen any more")
            frozen.analog_ctx.requires_grad_(True)
            mon.state("frozen", "kept", op)
        coherent(mon, op, model)
        mon.state("history", kind, op)
        held = {id(p) for g in opt.param_groups for p in g["params"]}
        mon.check(all(id(p) in held for p in model.parameters()), op + ":optimizer", "a parameter of the model is not known to its optimizer any more")


# ------------------------------------------------------------------ in-place operations
def inplace_names():
    return sorted(n for n in dir(torch.Tensor) if n.endswith("_") and not n.endswith("__")
                  and not n.startswith("__") and n not in ("requires_grad_", "share_memory_", "set_", "retain_grad_"))


NAMES = None
OPERATORS = ["iadd", "isub", "imul", "itruediv", "ifloordiv", "imod", "ipow"]


def make_layer(rng, kind, scale):
    mp = gen.rand_mapping(rng)
    mp.weight_scaling_omega = 1.0 if scale else 0.0
    mp.weight_scaling_columnwise = False
    mp.learn_out_scaling = False
    mp.max_input_size = mp.max_output_size = 0
    cfg, _ = gen.perfect_config(rng, kind, mp)
    return AnalogLinear(3, 3, bias=gen.coin(rng), rpu_config=cfg)


def targets(rng, c, mode):
    r = [("ctx", lambda: c), ("data", lambda: c.data)]
    if mode == "data_view":
        r += [("view", lambda: c.data.view(-1)), ("row", lambda: c.data[0]), ("t", lambda: c.data.t()),
              ("detach", lambda: c.data.detach()), ("ctx_row", lambda: c[1]), ("ctx_detach", lambda: c.detach()),
              ("ctx_view", lambda: c.view(9)), ("T", lambda: c.T), ("get_data", lambda: c.get_data()),
              ("data_data", lambda: c.data.data), ("unbind", lambda: torch.unbind(c.data)[2]),
              ("narrow", lambda: c.data.narrow(0, 0, 2)), ("alias", lambda: torch.ops.aten.alias(c.data) if False else c.data[:])]
    return r


def s_inplace(rng, mon):
    global NAMES
    NAMES = NAMES or inplace_names()
    kind = rng.choice(KINDS)
    lay = make_layer(rng, kind, gen.coin(rng))
    t = next(lay.analog_tiles())
    c = t.analog_ctx
    mode = rng.choice(["placeholder", "data_view", "data_view"])
    c.data_view_mode = mode
    w0 = raw(t)
    if w0.abs().max() == 0:
        t.tile.set_weights(torch.randn_like(w0))
        w0 = raw(t)
    s0 = None if t.get_scales() is None else t.get_scales().detach().clone()
    n = 0
    for _ in range(25):
        tn, f = rng.choice(targets(rng, c, mode))
        how = rng.choice(["method", "method", "operator", "item", "out", "foreach", "functional", "init"])
        x = None
        try:
            x = f()
        except RuntimeError:
            mon.check(mode == "placeholder" or tn in ("ctx_view", "view"), "inplace:target", tn)
            continue
        if how == "method":
            name = rng.choice(NAMES)
            args = rng.choice([(), (1.5,), (torch.ones(3, 3),), (torch.ones(x.shape),), (2.0, 3.0), (0, torch.tensor([0]), torch.ones(1, 3))])
            g = lambda: getattr(x, name)(*args)
        elif how == "operator":
            name = rng.choice(OPERATORS)
            o = rng.choice([2.0, 0.5])
            g = lambda: getattr(operator, name)(x, o)
        elif how == "item":
            name = "setitem"
            def g():
                x[0] = 7.0
        elif how == "out":
            name = rng.choice(["add", "add", "max", "sort", "cummax", "kthvalue"])
            ind = torch.zeros(x.shape, dtype=torch.long)
            if name == "add":
                g = lambda: torch.add(torch.ones(x.shape), 1.0, out=x)
            elif name in ("max", "kthvalue"):
                a = (0,) if name == "max" else (1, 0)
                g = lambda: getattr(torch, name)(torch.rand(2, *x.shape), *a, out=(x, ind))
            else:
                g = lambda: getattr(torch, name)(torch.rand(x.shape), 0, out=(x, ind))
        elif how == "foreach":
            name = rng.choice(["_foreach_add_", "_foreach_mul_", "_foreach_zero_", "_foreach_addcdiv_"])
            a = () if "zero" in name else (2.0,)
            if "addcdiv" in name:
                a = ([torch.ones(x.shape)], [torch.ones(x.shape)], 1.0)
            g = lambda: getattr(torch, name)([x], *a)
        elif how == "init":
            name = rng.choice(["uniform_", "zeros_", "constant_", "normal_"])
            g = lambda: getattr(nn.init, name)(x, *([1.0] if name == "constant_" else []))
        else:
            name = rng.choice(["relu_", "dropout_", "add_"])
            g = (lambda: torch.relu_(x)) if name == "relu_" else (lambda: torch.dropout_(x, 0.5, True)) if name == "dropout_" \
                else (lambda: torch.Tensor.add_(x, 1.0))
        raised = False
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                g()
            except (RuntimeError, TypeError, ValueError, NotImplementedError, AttributeError, IndexError, AihwkitException):
                raised = True
        w1 = raw(t)
        k = f"inplace:{mode}:{how}"
        mon.check(torch.equal(w0, w1) and w1.shape == w0.shape, k + ":weights", lambda: f"{name} on {tn} changed the weights of a {kind} tile")
        mon.check(raised, k + ":raises", lambda: f"{name} on {tn} of a {kind} tile was not refused")
        if s0 is not None:
            mon.check(torch.equal(s0, t.get_scales().detach()), k + ":scales", lambda: f"{name} on {tn} changed the scales")
        mon.check(t.analog_ctx is c and c.analog_tile is t and isinstance(c, AnalogContext), k + ":context", name)
        if not torch.equal(w0, w1):
            t.tile.set_weights(w0)
        mon.state("inplace", mode, tn, name)
    mon.raises(lambda: setattr(c, "data", torch.zeros(3, 3)), "inplace:set_data")
    mon.check(torch.equal(raw(t), w0), "inplace:set_data", "")
    c.enable_data_view()
    mon.close(c.data.as_subclass(torch.Tensor), logical(t), "inplace:view", atol=1e-7, rtol=1e-6)


# ------------------------------------------------------------------ reading in data view mode
READS = [lambda x: x.sum(), lambda x: x.abs().max(), lambda x: x @ x.t(), lambda x: x + 1, lambda x: 2 * x - x,
         lambda x: torch.cat([x, x]), lambda x: torch.stack([x, x]).mean(0), lambda x: x.t(), lambda x: x[1], lambda x: x[:, 0],
         lambda x: x > 0, lambda x: torch.linalg.norm(x), lambda x: x.clone(), lambda x: x.reshape(-1), lambda x: x.std(),
         lambda x: torch.where(x > 0, x, -x), lambda x: nn.functional.linear(torch.ones(2, 3), x), lambda x: x.double(),
         lambda x: x.T, lambda x: torch.einsum("ij,ij->i", x, x), lambda x: x.sort()[0], lambda x: torch.tensor(x.tolist()),
         lambda x: torch.from_numpy(x.detach().numpy().copy()), lambda x: x.max(1)[1], lambda x: copy.deepcopy(x)]


def s_read(rng, mon):
    kind = rng.choice(KINDS)
    lay = make_layer(rng, kind, gen.coin(rng))
    t = next(lay.analog_tiles())
    c = t.analog_ctx.enable_data_view()
    live = c.data if t.get_scales() is None else None
    for _ in range(4):
        t.tile.set_weights(torch.randn_like(raw(t)))
        w = logical(t)
        for k in rng.sample(range(len(READS)), 6):
            f = READS[k]
            ref = f(w)
            for name, x in (("ctx", c), ("data", c.data)):
                if name == "ctx" and k == len(READS) - 1:
                    continue
                got = f(x)
                if isinstance(got, torch.Tensor):
                    got = got.as_subclass(torch.Tensor).detach()
                mon.check(torch.equal(got.float(), ref.float()) or torch.allclose(got.float(), ref.float(), atol=1e-6), f"read:{name}", f"read {k}")
        mon.state("read", kind, t.get_scales() is None, t.analog_bias)
    del live
    c.enable_buffer()
    mon.check(c.data.abs().sum().item() == 0 and c.data.shape == logical(t).shape, "buffer:zero", "")
    w0 = raw(t)
    ref = torch.zeros(logical(t).shape)
    for _ in range(3):
        a = torch.randn(ref.shape)
        k = rng.randint(0, 3)
        if k == 0:
            c.data.add_(a)
            ref.add_(a)
        elif k == 1:
            with torch.no_grad():
                c.add_(a)
            ref.add_(a)
        elif k == 2:
            c.data.mul_(0.5)
            ref.mul_(0.5)
        else:
            c.data[0] = 2.0
            ref[0] = 2.0
        mon.close(c.data, ref, "buffer:value")
        mon.close(torch.as_tensor(c.norm()).detach(), ref.norm(), "buffer:norm")
        t.tile.set_weights(w0 * 2)
        w0 = w0 * 2
        mon.close(c.data, ref, "buffer:independent")
        mon.check(torch.equal(raw(t), w0), "buffer:weights", "buffer writes reach the tile")
    c.enable_data_view()
    mon.close(c.data.as_subclass(torch.Tensor), logical(t), "buffer:back", atol=1e-6)
    mon.state("buffer", kind)


# ------------------------------------------------------------------ traces
def s_trace(rng, mon):
    kind = rng.choice(["float", "ideal", "constant"])
    mp = gen.rand_mapping(rng)
    mp.max_input_size = mp.max_output_size = 0
    mp.learn_out_scaling = False
    mp.weight_scaling_omega = rng.choice([0.0, 1.0])
    cfg, _ = gen.perfect_config(rng, kind, mp)
    i, o = rng.randint(1, 5), rng.randint(1, 4)
    lay = AnalogLinear(i, o, bias=gen.coin(rng), rpu_config=cfg)
    t = next(lay.analog_tiles())
    c = t.analog_ctx
    opt = AnalogSGD(lay.parameters(), lr=rng.choice([0.0, 0.1]))
    X, D = [], []
    mon.ctx = ops = [kind]
    for _ in range(rng.randint(2, 9)):
        op = rng.choice(["pass", "pass", "pass", "eval", "nograd", "step", "zero", "forward", "loss"])
        ops.append(op)
        x = torch.randn(rng.randint(1, 4), i)
        lay.train()
        if op == "pass":
            y = lay(x)
            d = torch.randn_like(y)
            y.backward(d.clone())
            X.append(x)
            D.append(d)
        elif op == "loss":
            x2 = torch.randn(2, i)
            a, b = lay(x), lay(x2)
            (a.sum() + 2 * b.sum()).backward()
            X += [x, x2]
            D += [torch.ones_like(a), 2 * torch.ones_like(b)]
        elif op == "forward":
            lay(x)
        elif op == "eval":
            lay.eval()
            lay(x)
        elif op == "nograd":
            with torch.no_grad():
                lay(x)
        elif op == "step":
            opt.step()
            if c.has_gradient():
                opt.zero_grad()
            X, D = [], []
        elif op == "zero":
            opt.zero_grad()
            X, D = [], []
        mon.check(len(c.analog_input) == len(c.analog_grad_output) == len(X), "trace:count",
                  lambda: f"{len(c.analog_input)} inputs, {len(c.analog_grad_output)} gradients, expected {len(X)}")
        mon.check(c.has_gradient() == bool(X), "trace:has_gradient", "")
        # passes of one backward may be traced in any order
        got = sorted(zip([a.detach() for a in c.analog_input], [a.detach() for a in c.analog_grad_output]), key=lambda z: z[0].sum().item())
        want = sorted(zip(X, D), key=lambda z: z[0].sum().item())
        if len(got) == len(want):
            for (a, d), (xr, dr) in zip(got, want):
                mon.close(a, xr, "trace:input", atol=1e-6)
                # gradients up to the scale of the mapping of every output
                if d.shape == dr.shape:
                    s = t.get_scales()
                    s = torch.ones(()) if s is None else s.detach()
                    mon.check(torch.allclose(d, dr, atol=1e-5) or torch.allclose(d, dr * s, atol=1e-5) or torch.allclose(d, dr / s, atol=1e-5, rtol=1e-4),
                              "trace:gradient", lambda: f"{d.tolist()} {dr.tolist()} {s.tolist()}")
                else:
                    mon.check(False, "trace:shape", f"{d.shape} {dr.shape}")
        mon.state("trace", kind, op, len(X))


# ------------------------------------------------------------------ digital optimizers and model-wide helpers
def s_digital(rng, mon):
    """digital optimizers and model-wide in-place helpers leave analog weights alone."""
    kind = rng.choice(["float", "ideal", "constant", "custom"])
    cfg, _ = gen.perfect_config(rng, kind)
    model, make, _ = gen.rand_model(rng, cfg, ["linear", "two", "mapped"])
    cls = rng.choice([torch.optim.SGD, torch.optim.Adam, torch.optim.AdamW, torch.optim.RMSprop, torch.optim.Adagrad])
    kw = dict(lr=0.1)
    if gen.coin(rng):
        kw["weight_decay"] = 0.1
    if gen.coin(rng):
        kw["foreach"] = True
    try:
        opt = cls(model.parameters(), **kw)
    except RuntimeError:
        mon.obs("refused")      # state from values that cannot be read
        return
    w0 = [raw(t) for t in tiles(model)]
    for t in tiles(model):
        t.analog_ctx.data_view_mode = rng.choice(["placeholder", "data_view"])
    for _ in range(2):
        opt.zero_grad()
        model(make(rng)).sum().backward()
        what = rng.choice(["step", "clip_norm", "clip_value", "vector"])
        try:
            if what == "clip_norm":
                nn.utils.clip_grad_norm_(model.parameters(), 1.0)
            if what == "clip_value":
                nn.utils.clip_grad_value_(model.parameters(), 1.0)
            if what == "vector":
                v = torch.zeros(sum(p.numel() for p in model.parameters()))
                nn.utils.vector_to_parameters(v, model.parameters())
        except RuntimeError:
            mon.obs("refused")
        try:
            opt.step()
        except RuntimeError:
            mon.obs("refused")
        mon.check(all(torch.equal(raw(t), w) for t, w in zip(tiles(model), w0)), "digital_optimizer:" + cls.__name__,
                  "a digital optimizer changed analog weights")
    coherent(mon, "digital_optimizer", model)
    mon.state("digital_optimizer", kind, cls.__name__, kw.get("foreach", False), kw.get("weight_decay", 0))


def s_convert(rng, mon):
    """contexts after conversions of nested models."""
    class Block(nn.Module):
        def __init__(self):
            super().__init__()
            self.a = nn.Linear(4, 4)
            self.seq = nn.Sequential(nn.Linear(4, 3), nn.ReLU(), nn.Linear(3, 4))
            self.ln = nn.LayerNorm(4)

        def forward(self, x):
            return self.ln(self.seq(self.a(x)) + x)
    m = nn.Sequential(Block(), nn.Linear(4, 2))
    cfg, kind = gen.perfect_config(rng, rng.choice(KINDS))
    am = convert_to_analog(m, cfg, inplace=gen.coin(rng))
    coherent(mon, "convert", am)
    n = sum(isinstance(p, AnalogContext) for p in am.parameters())
    mon.check(n == len(tiles(am)) and n >= 4, "convert:count", f"{n} contexts, {len(tiles(am))} tiles")
    names = [k for k, p in am.named_parameters() if isinstance(p, AnalogContext)]
    mon.check(len(set(names)) == n, "convert:names", "")
    opt = AnalogSGD(am.parameters(), lr=0.1)
    w0 = [raw(t) for t in tiles(am)]
    am.train()
    am(torch.randn(5, 4)).sum().backward()
    opt.step()
    if kind != "constant":
        mon.check(not all(torch.equal(raw(t), w) for t, w in zip(tiles(am), w0)), "convert:trains", "")
    coherent(mon, "convert:trained", am)
    am2 = copy.deepcopy(am)
    coherent(mon, "convert:copy", am2)
    coherent(mon, "convert:original", am)
    mon.state("convert", kind)


SCENARIOS = [
    Scenario("history", s_history, quick=300, thorough=5000, min_evals=15000),
    Scenario("inplace", s_inplace, quick=250, thorough=5000, min_evals=10000),
    Scenario("read", s_read, quick=150, thorough=2000, min_evals=5000),
    Scenario("trace", s_trace, quick=300, thorough=4000, min_evals=3000),
    Scenario("digital", s_digital, quick=150, thorough=2000, min_evals=2000),
    Scenario("convert", s_convert, quick=60, thorough=600, min_evals=3000),
]
