"""P17: low-precision modules quantize exactly as configured."""
import copy
import io
import math
import numpy as np
import torch
from torch import nn
from torch.nn import functional as F
from vh import Scenario, Skip, seed_all
import gen
from aihwkit.simulator.digital_low_precision.quantizers import AsymmetricUniformQuantizer, SymmetricUniformQuantizer, QuantizerNotInitializedError, QMethods
from aihwkit.simulator.digital_low_precision.quantization_manager import QuantizationManager, Qstates
from aihwkit.simulator.digital_low_precision.range_estimators import RangeEstimators
from aihwkit.simulator.digital_low_precision.base_quantized_classes import QuantizedModule
from aihwkit.simulator.digital_low_precision.config_utils import CurrentMinMaxEstimatorParams, RunningMinMaxEstimatorParams, MSEEstimatorParams
from aihwkit.simulator.digital_low_precision.range_estimators import OptMethod
from aihwkit.simulator.parameters.quantization import ActivationQuantConfig, WeightQuantConfig, QuantizationConfig, QuantizationMap, QuantizedModuleConfig
from aihwkit.nn.low_precision_conversion import convert_to_quantized
from aihwkit.nn.low_precision_modules import quantization_states as QS
from aihwkit.nn.low_precision_modules.conversion_utils import append_default_conversions
from aihwkit.nn.low_precision_modules.quantized_base_modules import QuantLinear, QuantConv2d, QuantLayerNorm, QuantEmbedding
from aihwkit.nn import AnalogLinear, AnalogConv2d, AnalogLinearMapped
from aihwkit.simulator.configs import QuantizedTorchInferenceRPUConfig, TorchInferenceRPUConfig

PID = "P17"
RULE = ("quantizers, range estimators, quantization managers, quantized modules, converted models and quantized tiles equal independent float64 references: "
        "values on the grid of the bit width and range, nearest value, exact clipping, straight-through gradients; estimators report the statistic of the batches "
        "they saw, only in estimating states; state dicts reproduce everything; without quantization the float module")
ASSUMPTIONS = ["values within rounding of a tie may go either way", "percentile of the per-tensor range: lower percentile documented only by name; the upper end is the maximum or the mirrored percentile",
               "golden section search is judged only against the search range"]
REQUIRES = ["quantizer", "grad", "estimator", "manager", "module", "convert", "tile", "array", "state"]


# ---- reference
class Ref:
    """Quantizer in float64: range of one tensor, or one per channel."""

    def __init__(self, n, sym, lo, hi, log=False):
        lo, hi = lo.double().clamp(max=0), hi.double().clamp(min=1e-8)
        if sym:
            signed = bool((lo < 0).any())
            self.imin, self.imax = (-2 ** (n - 1), 2 ** (n - 1) - 1) if signed else (0, 2 ** n - 1)
            self.s, self.z = torch.maximum(-lo, hi) / self.imax, torch.zeros_like(hi)
        else:
            self.imin, self.imax = 0, 2 ** n - 1
            self.s = (hi - lo) / self.imax
            self.z = (-lo / self.s)
            self.zfrac = self.z - self.z.floor()
            self.z = self.z.round().clamp(0, self.imax)
        if not log:
            self.s = self.s.clamp(min=1e-8)

    def tie_zero(self):
        return hasattr(self, "zfrac") and bool(((self.zfrac - .5).abs() < 1e-3).any())

    def view(self, shape):
        self.s, self.z = self.s.reshape(shape), self.z.reshape(shape)
        return self

    def ints(self, x):
        return ((x.double() / self.s).round() + self.z).clamp(self.imin, self.imax)

    def __call__(self, x):
        return self.s * (self.ints(x) - self.z)

    def step(self):
        return self.s


def judge(mon, key, x, q, r, grid=True):
    """q is the quantization of x by r: nearest grid value within the range."""
    x, q = x.detach().double(), q.detach().double()
    if not mon.check(x.shape == q.shape, key, f"shape {tuple(q.shape)} for {tuple(x.shape)}"):
        return
    s = r.s.expand_as(x) if r.s.dim() else r.s
    k = q / s + r.z
    eps = 1e-4 + 3e-6 * (q / s).abs()
    kr = k.round()
    bad = ((k - kr).abs() > eps) | (kr < r.imin) | (kr > r.imax)
    mon.check(not bad.any(), key, "value off the grid or outside of the range" if bad.any() else "")
    want = (x / s + r.z).clamp(r.imin, r.imax)
    far = (kr - want).abs() > .5 + 1e-3 + want.abs() * 2e-6
    i = int(far.reshape(-1).nonzero()[0]) if far.any() else 0
    mon.check(not far.any(), key, "" if not far.any() else f"not the nearest value: {x.reshape(-1)[i].item()} -> {q.reshape(-1)[i].item()}, "
              f"step {(s if s.dim() == 0 else s.reshape(-1)[i]).item()}, levels {kr.reshape(-1)[i].item()} {want.reshape(-1)[i].item()}")


def rand_x(rng, *shape):
    x = torch.randn(*shape) * 10 ** rng.uniform(-2, 1)
    how = rng.choice(["", "", "pos", "neg", "sparse", "shift", "zero"])
    if how == "pos":
        x = x.abs()
    elif how == "neg":
        x = -x.abs()
    elif how == "sparse":
        x = x * (torch.rand_like(x) < .3)
    elif how == "shift":
        x = x + x.std().nan_to_num() * 3 if x.numel() > 1 else x
    elif how == "zero":
        x = torch.zeros_like(x)
    return x


# ---- quantizers
def sc_quantizer(rng, mon):
    n, sym, log = rng.choice([2, 3, 4, 5, 8, 10]), gen.coin(rng), gen.coin(rng, .3)
    mode = rng.choice(["tensor", "tensor", "channel", "axis"])
    shape = [rng.randint(1, 5) for _ in range(rng.choice([2, 2, 3, 4]))]
    axis = rng.randrange(len(shape)) if mode == "axis" else None
    cls = SymmetricUniformQuantizer if sym else AsymmetricUniformQuantizer
    q = cls(n, scale_domain="log" if log else "linear", per_channel=mode == "channel", axis=axis)
    mon.ctx = f"{'sym' if sym else 'asym'} {n} bits {mode} {axis} {shape} log={log}"
    mon.check(not q.is_initialized, "quantizer:fresh", "a fresh quantizer is initialized")
    x = rand_x(rng, *shape)
    try:
        q(x)
        mon.check(False, "quantizer:uninitialized", "an uninitialized quantizer gave a result")
    except (QuantizerNotInitializedError, AssertionError):
        mon.check(True, "quantizer:uninitialized", "")
    for _ in range(rng.choice([1, 1, 2])):
        if mode == "tensor":
            lo, hi = torch.tensor(rng.uniform(-3, .5)), torch.tensor(rng.uniform(.6, 3))
            if gen.coin(rng, .3):
                q.set_quant_range(lo.item(), hi.item())
            else:
                q.set_quant_range(lo, hi)
            vs = []
        else:
            k = shape[0] if mode == "channel" else shape[axis]
            lo, hi = torch.rand(k) * 3.5 - 3, torch.rand(k) * 2 + .6
            if gen.coin(rng, .3):
                lo = lo.abs() * .1
            a, b = lo.clone(), hi.clone()
            q.set_quant_range(lo, hi)
            mon.check(torch.equal(a, lo) and torch.equal(b, hi), "quantizer:argument", "the range given was modified")
            vs = [1] * len(shape)
            vs[0 if mode == "channel" else axis] = -1
    r = Ref(n, sym, lo, hi, log)
    if r.tie_zero():
        raise Skip()
    if vs:
        r.view(vs)
    # points of interest: ends of the range, beyond them, between levels
    x = x + 0.
    flat = x.reshape(-1)
    for i in range(0, flat.numel(), 3):
        flat[i] = rng.choice([0., 50., -50., float(hi.max()), float(lo.min()), 1e-9, -1e-9])
    x = flat.reshape(shape)
    x0 = x.clone()
    y = q(x)
    mon.check(torch.equal(x, x0), "quantizer:argument", "input modified")
    judge(mon, "quantizer:value", x, y, r)
    mon.close(q.x_max.double() + 0 * r.s, (r.s * (r.imax - r.z)), "quantizer:x_max", rtol=1e-4, atol=1e-7)
    mon.close(q.x_min.double() + 0 * r.s, (r.s * (r.imin - r.z)), "quantizer:x_min", rtol=1e-4, atol=1e-7)
    mon.close(q(y.detach()), y.detach(), "quantizer:idempotent", rtol=1e-5, atol=1e-7)
    mon.check(bool((q(torch.zeros(shape)) == 0).all()), "quantizer:zero", "zero is not represented exactly")
    xi = q.to_integer_forward(x)
    mon.close(r.s * (xi.double() - r.z), y, "quantizer:integer", rtol=1e-4, atol=1e-7)
    # straight through inside the range, zero outside
    xg = x.clone().requires_grad_(True)
    g = torch.randn(shape)
    if gen.coin(rng, .4):
        q.make_range_trainable()
    out = q(xg)
    out.backward(g)
    k = (x.double() / r.s).round() + r.z
    inside = (k >= r.imin) & (k <= r.imax)
    amb = ((x.double() / r.s + r.z) - r.imin + .5).abs().lt(1e-3) | ((x.double() / r.s + r.z) - r.imax - .5).abs().lt(1e-3)
    want = torch.where(inside, g.double(), torch.zeros_like(g).double())
    mon.check(bool((((xg.grad.double() - want).abs() <= 1e-4 * g.abs()) | amb).all()), "quantizer:grad", "gradient is not the straight-through gradient")
    if q._delta.requires_grad and not amb.any() and mode == "tensor":
        # learned range: gradient of the step size with straight-through rounding
        u = x.double() / r.s
        per = torch.where(inside, u.round() - u, torch.where(k > r.imax, r.imax - r.z, r.imin - r.z))
        gs = (per * g.double()).sum() * (r.s if log else 1.)
        mon.close(q._delta.grad.double(), gs, "quantizer:range_grad", rtol=1e-2, atol=1e-3 * float(1 + (per.abs() * g.abs()).sum()))
        mon.obs("range_grad")
    mon.obs("grad")
    # state dict
    p = cls(n, scale_domain="log" if log else "linear", per_channel=mode == "channel", axis=axis)
    sd = {k: v.clone() for k, v in q.state_dict().items()}
    p.load_state_dict(sd)
    mon.check(torch.equal(p(x), q(x)), "quantizer:state_dict", "results differ after loading the state dict")
    q.reset()
    mon.check(not q.is_initialized, "quantizer:reset", "initialized after reset")
    mon.obs("quantizer")
    mon.state("quantizer", n, sym, mode, log)


# ---- range estimators
def est_params(rng, e):
    if e == RangeEstimators.current_minmax:
        return {"percentile": rng.choice([None, None, 1., 10.])}
    if e == RangeEstimators.running_minmax:
        return {"momentum": rng.choice([.9, .5, .1])}
    if e == RangeEstimators.MSE:
        return {"num_candidates": rng.choice([10, 20]), "opt_method": rng.choice(list(OptMethod)), "range_margin": rng.choice([.5, .1])}
    return {}


class RefEst:
    """Range statistic over the batches seen."""

    def __init__(self, e, pars, per_channel, n, sym):
        self.e, self.p, self.pc, self.n, self.sym = e, pars, per_channel, n, sym
        self.lo = self.hi = None

    def see(self, x):
        x = x.detach().double()
        rows = x.reshape(x.shape[0], -1) if self.pc else x.reshape(1, -1)
        lo, hi = rows.min(1)[0], rows.max(1)[0]
        if self.e == RangeEstimators.current_minmax and self.p.get("percentile"):
            a = np.percentile(rows.numpy(), (self.p["percentile"], 100 - self.p["percentile"]), axis=1)
            lo, hi = torch.tensor(a[0]), torch.tensor(a[1])
            if not self.pc:
                self.alt_hi = rows.max()
        if self.lo is None or self.e == RangeEstimators.current_minmax:
            self.lo, self.hi = lo, hi
        elif self.e == RangeEstimators.allminmax:
            self.lo, self.hi = torch.minimum(self.lo, lo), torch.maximum(self.hi, hi)
        else:
            m = self.p["momentum"]
            self.lo, self.hi = m * self.lo + (1 - m) * lo, m * self.hi + (1 - m) * hi
        if not self.pc:
            self.lo, self.hi = self.lo.reshape(()), self.hi.reshape(())

    def mse(self, x, lo, hi):
        r = Ref(self.n, self.sym, torch.tensor(lo), torch.tensor(hi))
        return float(((x.double() - r(x)) ** 2).sum())


def sc_estimator(rng, mon):
    e = rng.choice([RangeEstimators.current_minmax, RangeEstimators.allminmax, RangeEstimators.running_minmax, RangeEstimators.MSE])
    pc = gen.coin(rng, .4)
    n, sym = rng.choice([3, 4, 8] if e != RangeEstimators.MSE else [2, 3, 4]), gen.coin(rng)
    pars = est_params(rng, e)
    quant = (SymmetricUniformQuantizer if sym else AsymmetricUniformQuantizer)(n, per_channel=pc)
    est = e.cls(per_channel=pc, quantizer=quant if e == RangeEstimators.MSE else None, **pars)
    ref = RefEst(e, pars, pc, n, sym)
    mon.ctx = f"{e.name} {pars} per_channel={pc} {n} bits sym={sym}"
    c = rng.randint(2, 4)
    xs = []
    for i in range(rng.randint(1, 4)):
        x = rand_x(rng, c, rng.randint(3, 9), *([rng.randint(1, 3)] if gen.coin(rng, .3) else []))
        if e == RangeEstimators.MSE and xs:
            x = xs[0] * rng.uniform(.3, 1.)
        xs.append(x)
        x0 = x.clone()
        lo, hi = est(x.requires_grad_(gen.coin(rng, .3)) if x.is_leaf else x)
        x = x.detach()
        xs[-1] = x
        mon.check(torch.equal(x, x0), "estimator:argument", "the data was modified")
        mon.check(not lo.requires_grad and not hi.requires_grad, "estimator:detached", "range carries a gradient")
        if e != RangeEstimators.MSE:
            ref.see(x)
            mon.close(lo.double().reshape(ref.lo.shape), ref.lo, f"estimator:{e.name}:min", rtol=1e-5, atol=1e-6)
            if hasattr(ref, "alt_hi"):
                h = float(hi.reshape(()))
                mon.check(min(abs(h - float(ref.hi)), abs(h - float(ref.alt_hi))) < 1e-5 * (1 + abs(h)), "estimator:percentile:max", f"{h}")
            else:
                mon.close(hi.double().reshape(ref.hi.shape), ref.hi, f"estimator:{e.name}:max", rtol=1e-5, atol=1e-6)
        elif pars["opt_method"] == OptMethod.grid and not pc:
            one = bool((xs[0] >= 0).all())
            m = pars["num_candidates"]
            if one or sym:
                top = float(xs[0].abs().max()) + pars["range_margin"]
                cost = [math.inf] + [sum(ref.mse(v, 0. if one else -top * k / m, top * k / m) for v in xs) for k in range(1, m + 1)]
                got = sum(ref.mse(v, float(lo), float(hi)) for v in xs)
                mon.check(got <= min(cost) * (1 + 1e-3) + 1e-6, "estimator:MSE:optimal", f"squared error {got}, best candidate has {min(cost)}")
                mon.obs("mse")
            else:
                top = max(abs(float(xs[0].max()) + pars["range_margin"]), abs(float(xs[0].min()) - pars["range_margin"]))
                mon.check(-top * (1 + 1e-5) <= float(lo) <= float(hi) <= top * (1 + 1e-5), "estimator:MSE:range", f"{lo} {hi} {top}")
                # (the zero point of a range symmetric around zero is a tie)
                full = max(sum(ref.mse(v, -top * f, top) for v in xs) for f in (1 - 1e-4, 1 + 1e-4))
                got = sum(ref.mse(v, float(lo), float(hi)) for v in xs)
                # (the candidates have rounded zero points, so that the full range itself may be missing)
                mon.check(got <= full * 1.3 + 1e-6, "estimator:MSE:not_worse", f"squared error {got}, unclipped range has {full}")
        else:
            top = float(xs[0].abs().max()) + pars["range_margin"]
            mon.check(lo.numel() == (c if pc else 1) and bool((lo <= hi).all()) and float(hi.abs().max()) <= 4 * top, "estimator:MSE:range", f"{lo} {hi}")
    # state dict
    if e != RangeEstimators.MSE:
        other = e.cls(per_channel=pc, **pars)
        sd = {k: v.clone() for k, v in est.state_dict().items()}
        keep = {k: v.clone() for k, v in sd.items()}
        other.load_state_dict(sd)
        x = rand_x(rng, c, 5)
        a, b = est(x), other(x)
        mon.check(torch.equal(a[0], b[0]) and torch.equal(a[1], b[1]), "estimator:state_dict", "a loaded estimator continues differently")
        third = e.cls(per_channel=pc, **pars)
        third(x * 3)
        other.load_state_dict({k: v.clone() for k, v in third.state_dict().items()})
        mon.check(all(torch.equal(sd[k], keep[k]) for k in keep), "estimator:state_alias", "loading a state dict changed the one loaded before")
        est.reset()
        y = rand_x(rng, c, 6)
        lo, hi = est(y)
        ref2 = RefEst(e, pars, pc, n, sym)
        ref2.see(y)
        mon.close(lo.double().reshape(ref2.lo.shape), ref2.lo, "estimator:reset", rtol=1e-5, atol=1e-6)
    mon.obs("estimator")
    mon.state("estimator", e.name, pc, str(pars), n, sym)


# ---- manager: when are ranges updated
def sc_manager(rng, mon):
    e = rng.choice([RangeEstimators.current_minmax, RangeEstimators.allminmax, RangeEstimators.running_minmax])
    n, sym, pc = rng.choice([3, 4, 8]), gen.coin(rng), gen.coin(rng, .3)
    pars = {"momentum": rng.choice([.9, .5])} if e == RangeEstimators.running_minmax else {}
    make = lambda: QuantizationManager(qmethod=QMethods.symmetric_uniform if sym else QMethods.asymmetric_uniform, init=e, per_channel=pc, qparams={"n_bits": n}, init_params=pars)
    mon.ctx = f"{e.name} {n} sym={sym} pc={pc}"
    if gen.coin(rng, .15):
        lo, hi = rng.uniform(-3, -.1), rng.uniform(.1, 3)
        m = QuantizationManager(qmethod=QMethods.symmetric_uniform if sym else QMethods.asymmetric_uniform, qparams={"n_bits": n}, x_min=lo, x_max=hi)
        r = Ref(n, sym, torch.tensor(lo), torch.tensor(hi))
        if r.tie_zero():
            raise Skip()
        for t in (True, False):
            m.train(t)
            x = rand_x(rng, 3, 4)
            judge(mon, "manager:fixed_range", x, m(x), r)
        mon.obs("fixed_range")
        return
    m = make()
    ref = RefEst(e, pars, pc, n, sym)
    state, train, rng_lo, rng_hi = "train", True, None, None
    c = 3
    for step in range(rng.randint(4, 14)):
        op = rng.choice(["forward", "forward", "forward", "mode", "state", "reload", "reset", "copy"])
        mon.ctx += f" {op}"
        if op == "mode":
            train = gen.coin(rng)
            m.train(train)
        elif op == "state":
            want = rng.choice(["estimate", "fix", "train"])
            if want == "estimate":
                m.estimate_ranges()
                state = want
            elif want == "train":
                m.estimate_ranges_train()
                state = want
            elif rng_lo is None:
                mon.raises(m.fix_ranges, "manager:fix_uninitialized", "ranges fixed before they are known", QuantizerNotInitializedError)
            else:
                m.fix_ranges()
                state = want
        elif op == "reload" and rng_lo is not None:
            k = make()
            k.load_state_dict(m.state_dict())
            k.state = m.state
            k.train(train)
            m = k
            mon.obs("state")
        elif op == "copy":
            m = copy.deepcopy(m)
        elif op == "reset":
            m.reset_ranges()
            ref, state, rng_lo = RefEst(e, pars, pc, n, sym), "train", None
        elif op == "forward":
            x = rand_x(rng, c, 4)
            if not bool((x != 0).any()):
                x = torch.ones_like(x)
            est = state == "estimate" or (state == "train" and train)
            if est:
                ref.see(x)
                rng_lo, rng_hi = ref.lo.clone(), ref.hi.clone()
            if rng_lo is None:
                try:
                    m(x)
                    mon.check(False, "manager:uninitialized", "result without a range")
                except (QuantizerNotInitializedError, AssertionError):
                    pass
                continue
            y = m(x)
            r = Ref(n, sym, rng_lo, rng_hi)
            if r.tie_zero():
                raise Skip()
            if pc:
                r.view([-1, 1])
            judge(mon, f"manager:value:{'estimating' if est else 'frozen'}", x, y, r)
            if bool(x.abs().max() > 0):
                mon.obs("manager")
            mon.state("manager", e.name, n, sym, pc, state, train)
    mon.check(True, "manager", "")


# ---- quantized modules against functional references
def rand_qconfig(rng):
    we = rng.choice([RangeEstimators.current_minmax, RangeEstimators.current_minmax, RangeEstimators.allminmax])
    ae = rng.choice([RangeEstimators.running_minmax, RangeEstimators.current_minmax, RangeEstimators.allminmax])
    w = WeightQuantConfig(n_bits=rng.choice([0, 3, 4, 8]), symmetric=gen.coin(rng), per_channel=gen.coin(rng, .3), range_estimator=we)
    a = ActivationQuantConfig(n_bits=rng.choice([0, 4, 6, 8]), symmetric=gen.coin(rng), range_estimator=ae)
    if ae == RangeEstimators.running_minmax:
        a.range_estimator_params = RunningMinMaxEstimatorParams(momentum=rng.choice([.9, .5]))
    return QuantizationConfig(activation_quant=a, weight_quant=w)


def rand_module(rng):
    kind = rng.choice(["linear", "linear", "conv", "conv", "norm", "embedding"])
    if kind == "linear":
        m, x = nn.Linear(5, 4, bias=gen.coin(rng)), lambda: torch.randn(3, 5)
    elif kind == "conv":
        g = rng.choice([1, 1, 2])
        m = nn.Conv2d(2, 4, rng.choice([1, 2, 3]), stride=rng.choice([1, 2]), padding=rng.choice([0, 1, 1]), dilation=rng.choice([1, 1, 2]), groups=g, bias=gen.coin(rng),
                      padding_mode=rng.choice(["zeros", "zeros", "reflect", "replicate", "circular"]))
        x = lambda: torch.randn(2, 2, 6, 5)
    elif kind == "norm":
        m, x = nn.LayerNorm(6, eps=rng.choice([1e-5, 1e-2]), elementwise_affine=gen.coin(rng, .8), bias=gen.coin(rng, .7)), lambda: torch.randn(3, 6) * 2
        if m.weight is not None:
            nn.init.normal_(m.weight)
            if m.bias is not None:
                nn.init.normal_(m.bias)
    else:
        m, x = nn.Embedding(7, 4, padding_idx=rng.choice([None, 2])), lambda: torch.randint(0, 7, (3, 2))
    return kind, m, x


class RefQ:
    """Range tracking of one quantizer in a module: weights or activations."""

    def __init__(self, cfg, pc, momentum=None):
        self.n, self.sym, self.pc = cfg.n_bits, cfg.symmetric, pc
        p = {"momentum": cfg.range_estimator_params.momentum} if cfg.range_estimator == RangeEstimators.running_minmax else {}
        self.est = RefEst(cfg.range_estimator, p, pc, self.n, self.sym)

    def __call__(self, x, estimating):
        if estimating:
            self.est.see(x)
        r = Ref(self.n, self.sym, self.est.lo, self.est.hi)
        if self.pc:
            r.view([-1] + [1] * (x.dim() - 1))
        return r


def functional(kind, m, x, w, b):
    w = w.double() if w is not None else None
    b = b.double() if b is not None else None
    if kind == "linear":
        return F.linear(x.double(), w, b)
    if kind == "conv":
        c = copy.deepcopy(m).double()
        c.weight.data = w
        return c(x.double())
    if kind == "norm":
        return F.layer_norm(x.double(), m.normalized_shape, w, b, m.eps)
    return F.embedding(x, w, m.padding_idx)


def sc_module(rng, mon):
    kind, m, gx = rand_module(rng)
    qc = rand_qconfig(rng)
    if kind == "norm" and gen.coin(rng, .7):
        qc.weight_quant.per_channel = False
    a, w = qc.activation_quant, qc.weight_quant
    mon.ctx = f"{m} w{w.n_bits}{'s' if w.symmetric else 'a'}{'c' if w.per_channel else ''} {w.range_estimator.name} a{a.n_bits}{'s' if a.symmetric else 'a'} {a.range_estimator.name}"
    qm = QuantizationMap(default_qconfig=qc)
    append_default_conversions(qm)
    model = nn.Sequential(m)
    if gen.coin(rng, .4):
        model.eval()
    if gen.coin(rng, .3):
        for p in m.parameters():
            p.requires_grad_(False)
    frozen = not any(p.requires_grad for p in m.parameters())
    before = {k: v.clone() for k, v in model.state_dict().items()}
    qmodel = convert_to_quantized(model, qm)
    mon.check(all(torch.equal(v, before[k]) for k, v in model.state_dict().items()) and type(model[0]) is type(m), "module:original", "conversion changed the original model")
    q = qmodel[0]
    if w.n_bits == 0 and a.n_bits == 0:
        mon.check(type(q) is type(m), "module:off", "module replaced although nothing is quantized")
        x = gx()
        mon.check(torch.equal(qmodel(x), model(x)), "module:off", "output differs")
        return
    mon.check(type(q) is {"linear": QuantLinear, "conv": QuantConv2d, "norm": QuantLayerNorm, "embedding": QuantEmbedding}[kind], "module:type", str(type(q)))
    mon.check(all(v.training == model.training for v in qmodel.modules()), "module:mode", "training mode differs from the original model after conversion")
    mon.check(all(p.requires_grad == (not frozen) for k, p in q.named_parameters() if k in ("weight", "bias") and dict(m.named_parameters()).get(k) is not None), "module:frozen", "requires_grad differs from the original model")
    mon.check({k: tuple(v.shape) for k, v in q.named_parameters() if k in ("weight", "bias")} == {k: tuple(v.shape) for k, v in m.named_parameters()}, "module:parameters",
              "parameters differ from the original module")
    wq, aq = RefQ(w, w.per_channel), RefQ(a, False)
    train = model.training
    state = "train"
    on = [w.n_bits > 0 and m.weight is not None, a.n_bits > 0 and kind != "embedding"]
    off = False
    seen = [False, False]
    for step in range(rng.randint(3, 9)):
        op = rng.choice(["forward", "forward", "forward", "mode", "state", "weights", "reload", "switch", "data"])
        mon.ctx += f" {op}"
        if op == "mode":
            train = gen.coin(rng)
            qmodel.train(train)
        elif op == "state":
            state = rng.choice(["train", "estimate", "fix"])
            {"train": QS.estimate_ranges_train, "estimate": QS.estimate_ranges, "fix": QS.fix_ranges}[state](qmodel)
            if state == "fix" and not all(s or not o for s, o in zip(seen, on)):
                # only initialized quantizers become fixed: keep to one state for all
                QS.estimate_ranges_train(qmodel)
                state = "train"
        elif op == "weights" and m.weight is not None:
            with torch.no_grad():
                new = {k: (torch.randn_like(v) if v.is_floating_point() and k.split(".")[-1] in ("weight", "bias") else v) for k, v in qmodel.state_dict().items()}
            qmodel.load_state_dict(new)
            mon.obs("state")
        elif op == "reload" and (not on[0] or seen[0]) and (not on[1] or seen[1]) and any(seen):
            q2 = convert_to_quantized(model, qm)
            q2.load_state_dict(qmodel.state_dict())
            for s, t in zip(qmodel.modules(), q2.modules()):
                if isinstance(s, QuantizationManager):
                    t.state = s.state
                if isinstance(s, QuantizedModule):
                    t._quant_w, t._quant_a = s._quant_w, s._quant_a
            q2.train(train)
            qmodel, q = q2, q2[0]
            mon.obs("state")
        elif op == "switch":
            off = gen.coin(rng)
            if off:
                QS.full_precision(qmodel)
            else:
                QS.enable_quant_states(qmodel)
        elif op == "forward":
            x = gx()
            est = state == "estimate" or (state == "train" and train)
            act = [o and not off for o in on]
            if any(o and not s and not est for o, s in zip(act, seen)):
                mon.raises(lambda: qmodel(x), "module:uninitialized", "result without a range", (QuantizerNotInitializedError, AssertionError))
                continue
            y = qmodel(x)
            weight, bias = q.weight, getattr(q, "bias", None)
            cached = not train
            if act[0] and weight is not None:
                r = wq(weight, est)
                if r.tie_zero():
                    raise Skip()
                seen[0] = True
                wr = r(weight.detach())
                tied = (((weight.detach().double() / r.s) - (weight.detach().double() / r.s).floor() - .5).abs() < 1e-3).any()
                if tied:
                    raise Skip()
            else:
                wr = weight.detach() if weight is not None else None
            z = functional(kind, m, x, wr, bias.detach() if bias is not None and not isinstance(bias, bool) else None)
            if kind == "conv" and bias is not None:
                z = functional(kind, q_float(m, q), x, wr, None)
            if act[1]:
                r = aq(z, est)
                seen[1] = True
                if r.tie_zero():
                    raise Skip()
                if bool((z.abs().max() > 0)):
                    judge_soft(mon, f"module:{kind}:activation:{'estimating' if est else 'frozen'}", z, y, r)
            else:
                mon.close(y.double(), z, f"module:{kind}:value:{'on' if act[0] else 'off'}", rtol=1e-4, atol=1e-4)
            mon.obs("module")
            mon.state("module", kind, w.n_bits, a.n_bits, w.per_channel, w.symmetric, a.symmetric, train, state, off)
        elif op == "data" and train and not off and kind != "embedding" and not frozen and not (on[0] and not seen[0]) and not (on[1] and not seen[1]):
            # gradients flow straight through to the float weights
            est = state == "estimate" or state == "train"
            if est or m.weight is None:
                continue
            q.zero_grad()
            x = gx()
            y = qmodel(x)
            y.sum().backward()
            mon.check(q.weight.grad is not None and bool(torch.isfinite(q.weight.grad).all()), f"module:{kind}:grad", "no gradient")
            q.zero_grad()
    mon.check(True, "module", "")


def q_float(m, q):
    c = copy.deepcopy(m)
    c.bias.data = q.bias.detach().clone()
    return c


def judge_soft(mon, key, z, y, r):
    """y quantizes a float32 evaluation of z."""
    y = y.detach().double()
    k = y / r.s + r.z
    kr = k.round()
    bad = ((k - kr).abs() > 2e-3 * (1 + k.abs() * 1e-2)) | (kr < r.imin) | (kr > r.imax)
    mon.check(not bad.any(), key, "activation off the grid or outside of the range" if bad.any() else "")
    want = (z / r.s + r.z).clamp(r.imin, r.imax)
    tol = .5 + 1e-3 + float(z.abs().max()) * 2e-5 / float(r.s.min())
    far = (kr - want).abs() > tol
    mon.check(not far.any(), key, f"activation not the nearest value: {float((kr - want).abs().max())} steps" if far.any() else "")


# ---- conversion of models
class Net(nn.Module):
    def __init__(self, rng):
        super().__init__()
        self.emb = nn.Embedding(6, 5)
        self.a = nn.Linear(5, 5)
        self.b = nn.Sequential(nn.Linear(5, 5), nn.ReLU(), nn.LayerNorm(5, eps=.3))
        self.shared = self.a if gen.coin(rng, .4) else nn.Linear(5, 5)
        self.c = nn.ModuleList([nn.Linear(5, 5), self.b[0] if gen.coin(rng, .3) else nn.Linear(5, 5)])
        self.dec = nn.Linear(5, 6, bias=False)
        if gen.coin(rng, .5):
            self.dec.weight = self.emb.weight

    def forward(self, x):
        y = self.emb(x)
        y = self.shared(self.b(self.a(y)))
        for l in self.c:
            y = l(y) + y
        return self.dec(y)


def sc_convert(rng, mon):
    net = Net(rng)
    if gen.coin(rng, .4):
        net.eval()
    if gen.coin(rng):
        rng.choice([net.a, net.b[0], net.c[0]]).eval()
    qc = QuantizationConfig(activation_quant=ActivationQuantConfig(n_bits=8), weight_quant=WeightQuantConfig(n_bits=8))
    fine = QuantizationConfig(activation_quant=ActivationQuantConfig(n_bits=10), weight_quant=WeightQuantConfig(n_bits=6))
    qm = QuantizationMap(default_qconfig=qc)
    append_default_conversions(qm)
    names = [n for n, k in net.named_modules() if type(k) in (nn.Linear, nn.LayerNorm, nn.Embedding)]
    excl = rng.sample(names + ["b"], rng.choice([0, 0, 1, 2]))
    inst = [n for n in rng.sample(names, rng.choice([0, 1])) if type(net.get_submodule(n)) is nn.Linear]
    inp = [n for n in rng.sample(names, rng.choice([0, 1])) if type(net.get_submodule(n)) is not nn.Embedding]
    # a layer with several names gets one setting
    mods = dict(net.named_modules(remove_duplicate=False))
    alias = lambda n: [k for k, v in mods.items() if v is mods[n]]
    if any(len(alias(n)) > 1 for n in excl + inst + inp) or any(len(alias(k)) > 1 for n in excl for k in mods if k.startswith(n + ".")):
        raise Skip()
    qm.excluded_modules = list(excl)
    for n in inst:
        qm.instance_qconfig_map[n] = QuantizedModuleConfig(quantized_module=QuantLinear, module_qconfig=fine)
    for n in inp:
        qm.input_activation_qconfig_map[n] = ActivationQuantConfig(n_bits=8)
    qm0 = copy.deepcopy(str(qm))
    before = {k: v.clone() for k, v in net.state_dict().items()}
    mode = {n: v.training for n, v in net.named_modules(remove_duplicate=False)}
    q = convert_to_quantized(net, qm)
    mon.ctx = f"excluded {excl} instance {inst} input {inp} tied {net.dec.weight is net.emb.weight} shared {net.shared is net.a} {net.c[1] is net.b[0]}"
    mon.check(str(qm) == qm0, "convert:map", "the quantization map was modified")
    mon.check(all(torch.equal(v, before[k]) for k, v in net.state_dict().items()) and not any(isinstance(k, QuantizedModule) for k in net.modules()), "convert:original", "original changed")
    qmods = dict(q.named_modules(remove_duplicate=False))
    place = {}
    for n, k in mods.items():
        if type(k) not in (nn.Linear, nn.LayerNorm, nn.Embedding):
            continue
        out = qmods.get(n)
        if any(n == e or n.startswith(e + ".") for e in excl):
            mon.check(type(out) is type(k), "convert:excluded", f"{n} was converted to {type(out).__name__}")
            continue
        if n in inp:
            mon.check(type(out).__name__ == "QuantizedInputModule" and out.input_quantizer.n_bits_act == 8 and out.input_quantizer._quant_a, "convert:input", f"{n}: input is not quantized")
            out = getattr(out, "module", out)
        if not mon.check(isinstance(out, QuantizedModule), "convert:missed", f"{n} was not converted"):
            continue
        mon.check(out.n_bits == (6 if n in inst else 8) and out.n_bits_act == (10 if n in inst else 8), "convert:setting", f"{n}: bits {out.n_bits} {out.n_bits_act}")
        mon.check(out._quant_w and out._quant_a, "convert:enabled", f"{n} is not quantizing")
        mon.check(torch.equal(out.weight, k.weight), "convert:weight", n)
        mon.check(out.training == mode[n], "convert:mode", f"{n} training {out.training}")
        mon.check(out.weight is not k.weight and out.weight.data_ptr() != k.weight.data_ptr(), "convert:alias", f"{n} uses the parameters of the original")
        place.setdefault(id(k), []).append((n, out))
    for v in place.values():
        mon.check(all(o is v[0][1] for _, o in v), "convert:shared", f"{[n for n, _ in v]} were one module and are not any more")
    if not excl and not inp:
        same = q.dec.weight is q.emb.weight
        mon.check(same == (net.dec.weight is net.emb.weight), "convert:tied", "tied weights are not tied any more")
        n0, n1 = sum(1 for _ in net.parameters()), sum(1 for n, _ in q.named_parameters() if n.split(".")[-1] in ("weight", "bias"))
        mon.check(n0 == n1, "convert:parameters", f"{n0} parameters became {n1}")
    # close to the float model with that many bits, equal when switched off
    x = torch.randint(0, 6, (4, 3))
    QS.full_precision(q)
    mon.close(q(x), net(x), "convert:off", rtol=1e-4, atol=1e-5)
    QS.enable_quant_states(q)
    QS.estimate_ranges(q)
    y, z = q(x), net(x)
    # (the running range of one quantizer for several activations may clip)
    multiple = net.shared is net.a or net.c[1] is net.b[0]
    mon.check(multiple or float((y - z).abs().max()) < .3 * (1 + float(z.abs().max())), "convert:close", f"{z.abs().max()} {float((y - z).abs().max())}")
    QS.fix_ranges(q)
    q.train(gen.coin(rng))
    s0 = {k: v.clone() for k, v in q.state_dict().items()}
    q(x)
    mon.check(all(torch.equal(v, s0[k]) for k, v in q.state_dict().items()), "convert:frozen", "ranges changed although they are fixed")
    mon.check(torch.equal(copy.deepcopy(q)(x), q(x)), "convert:deepcopy", "copy differs")
    mon.obs("convert")
    mon.state("convert", len(excl), len(inst), len(inp), net.shared is net.a, net.c[1] is net.b[0])


# ---- quantized tiles and arrays
def tile_cfg(rng, cls=QuantizedTorchInferenceRPUConfig, bits=0, out=0, sym=True, learn=False, small=None, osym=True, est=RangeEstimators.running_minmax):
    c = cls()
    c.forward.is_perfect = True
    c.mapping.weight_scaling_omega = 1.0
    c.mapping.weight_scaling_columnwise = True
    c.mapping.learn_out_scaling = False
    if small:
        c.mapping.max_input_size, c.mapping.max_output_size = small
    if cls is QuantizedTorchInferenceRPUConfig:
        c.pre_post.periph_quant.n_bits = bits
        c.pre_post.periph_quant.symmetric = sym
        c.pre_post.periph_quant.learn_quant_params = learn
        c.pre_post.periph_quant.init_learning_after = 3
        if out:
            c.act_quant_config = ActivationQuantConfig(n_bits=out, symmetric=osym, range_estimator=est)
    return c


def sc_tile(rng, mon):
    bits, out, sym, osym, learn = rng.choice([0, 4, 8]), rng.choice([0, 0, 5, 8]), gen.coin(rng), gen.coin(rng), gen.coin(rng, .3)
    bias = gen.coin(rng, .7)
    mapped = gen.coin(rng, .5)
    small = rng.choice([(512, 512), (4, 512), (512, 3), (4, 3)]) if mapped else None
    cfg = tile_cfg(rng, bits=bits, out=out, sym=sym, osym=osym, learn=learn, small=small, est=rng.choice([RangeEstimators.running_minmax, RangeEstimators.allminmax]))
    columnwise = gen.coin(rng)
    cfg.mapping.weight_scaling_columnwise = columnwise
    mon.ctx = f"periphery {bits} sym={sym} learn={learn}, output {out} sym={osym}, bias {bias} mapped {small} columnwise {columnwise}"
    n_in, n_out = rng.randint(5, 9), rng.randint(4, 7)
    layer = (AnalogLinearMapped if mapped else AnalogLinear)(n_in, n_out, bias, rpu_config=cfg)
    w, b = torch.randn(n_out, n_in), torch.randn(n_out) if bias else None
    layer.set_weights(w, b)
    if gen.coin(rng, .5):
        layer.train()
    tiles = list(layer.analog_tiles())
    if mapped:
        arr = layer.analog_module
        grid = [(i, j, t) for i, row in enumerate(arr.array) for j, t in enumerate(row)]
        ins, outs = arr.in_sizes, arr.out_sizes
    else:
        grid, ins, outs, arr = [(0, 0, tiles[0])], [n_in], [n_out], None
    w, b = layer.get_weights()
    b = b.detach().clone() if b is not None else None

    class Q:
        def __init__(self, n, s, mom=None):
            self.n, self.s, self.lo, self.mom, self.learning, self.count, self.mode = n, s, None, mom, False, 0, "train"

    scales = {id(t): Q(bits, sym) for _, _, t in grid}
    bq = Q(bits, sym)
    oq = {id(t): Q(out, osym) for _, _, t in grid}
    aq = Q(out, osym)
    e = cfg.act_quant_config.range_estimator if out else None

    def periph(q, v, train):
        """quantized value of a scale or bias, by the documented rules"""
        if q.n == 0:
            return v
        est = False
        if train:
            if not learn:
                est, q.mode = True, "train"
            elif not q.learning:
                q.count += 1
                if q.count > 3:
                    q.learning = True
                else:
                    est = True
        elif q.lo is None:
            est = True
        if est:
            q.lo, q.hi = v.min().double(), v.max().double()
        r = Ref(q.n, q.s, q.lo, q.hi)
        if r.tie_zero() or bool((((v.double() / r.s) % 1 - .5).abs() < 1e-3).any()):
            raise Skip()
        return r(v)

    def output(q, z, train):
        if not out:
            return z, None
        if train:
            lo, hi = z.min(), z.max()
            if q.lo is None:
                q.lo, q.hi = lo, hi
            elif e == RangeEstimators.allminmax:
                q.lo, q.hi = torch.minimum(q.lo, lo), torch.maximum(q.hi, hi)
            else:
                q.lo, q.hi = .9 * q.lo + .1 * lo, .9 * q.hi + .1 * hi
        r = Ref(out, osym, q.lo, q.hi)
        if r.tie_zero():
            raise Skip()
        return r(z), r

    for step in range(rng.randint(2, 8)):
        if gen.coin(rng, .4):
            layer.train(gen.coin(rng))
        if gen.coin(rng, .2):
            layer = copy.deepcopy(layer)
            new = [t for t in layer.analog_tiles()]
            old = [t for _, _, t in grid]
            for o, n in zip(old, new):
                scales[id(n)], oq[id(n)] = scales[id(o)], oq[id(o)]
            grid = [(i, j, n) for (i, j, _), n in zip(grid, new)]
            keep = new
            mon.obs("state")
        train = layer.training
        x = torch.randn(3, n_in)
        if out and not train and any(oq[id(t)].lo is None for _, _, t in grid):
            layer.train()
            train = True
        mon.ctx += " T" if train else " E"
        y = layer(x).detach()
        total = torch.zeros(3, n_out, dtype=torch.float64)
        xo = np.cumsum([0] + list(ins))
        oo = np.cumsum([0] + list(outs))
        exact = True
        for i, j, t in grid:
            wt = t.tile.get_weights().detach().double()
            s = t.get_scales()
            z = x[:, xo[i]:xo[i + 1]].double() @ wt.T
            if s is not None:
                z = z * periph(scales[id(t)], s.detach().reshape(-1), train)
            if not mapped and b is not None:
                z = z + periph(bq, b, train)
            z, r = output(oq[id(t)], z, train)
            if r is not None:
                exact = False
                last = r
            total[:, oo[j]:oo[j + 1]] += z
        steps = sum(float((Ref(out, osym, oq[id(t)].lo, oq[id(t)].hi)).s) for _, _, t in grid) if out else 0.
        if mapped:
            if b is not None:
                total = total + periph(bq, b, train)
            if len(grid) > 1 and out:
                total, last = output(aq, total, train)
                steps += float(last.s)
        if exact:
            mon.close(y.double(), total, f"tile:value:{'array' if len(grid) > 1 else 'mapped' if mapped else 'tile'}:{'train' if train else 'eval'}", rtol=1e-4, atol=1e-4)
        else:
            # ties of the float32 evaluation may move by a step
            d = (y.double() - total).abs()
            mon.check(bool((d <= steps * 1.01 + 1e-4).all()) and bool((d > 1e-3 * steps + 1e-4).float().mean() < .2),
                      f"tile:out:{'array' if len(grid) > 1 else 'mapped' if mapped else 'tile'}:{'train' if train else 'eval'}", f"differs by {float(d.max())}, step {steps}")
            if not (mapped and len(grid) == 1 and b is not None):
                k = y.double() / last.s
                mon.check(bool(((k - k.round()).abs() < 1e-2).all()), "tile:grid", "output is not on the grid of the output quantizer")
        mon.obs("array" if len(grid) > 1 else "tile")
        mon.state("tile", bits, out, sym, osym, learn, bias, len(grid) > 1, train)
        if train and gen.coin(rng, .4) and not learn:
            w2, b2 = torch.randn(n_out, n_in) * rng.uniform(.5, 2), torch.randn(n_out) * 2 if bias else None
            layer.set_weights(w2, b2)
            w, b = layer.get_weights()
            b = b.detach().clone() if b is not None else None
    if bits == 0 and out == 0:
        plain = (AnalogLinearMapped if mapped else AnalogLinear)(n_in, n_out, bias, rpu_config=tile_cfg(rng, TorchInferenceRPUConfig, small=small))
        plain.set_weights(w, b)
        x = torch.randn(3, n_in)
        plain.eval(), layer.eval()
        mon.close(layer(x), plain(x), "tile:off", rtol=1e-4, atol=1e-5)


# ---- the functions that switch all modules of a model
def sc_states(rng, mon):
    """Every switch changes exactly the quantizers it names: seen by which quantizers are called and which ranges move."""
    mon.ctx = ""
    qms, layers = [], []
    width = rng.randint(2, 4)
    for _ in range(rng.randint(1, 3)):
        qc = rand_qconfig(rng)
        while not (qc.weight_quant.n_bits or qc.activation_quant.n_bits):
            qc = rand_qconfig(rng)
        for c in (qc.weight_quant, qc.activation_quant):
            c.range_estimator = RangeEstimators.current_minmax
            c.estimator_params, c.per_channel = {}, False
        qm = QuantizationMap(default_qconfig=qc)
        append_default_conversions(qm)
        layers.append(convert_to_quantized(nn.Sequential(nn.Linear(width, width)), qm)[0])
        qms.append(qc)
    model = nn.Sequential(*[nn.Sequential(m) if gen.coin(rng, .3) else m for m in layers])
    if gen.coin(rng, .5):
        model.insert(rng.randint(0, len(model)), nn.Tanh())
    on = [[qc.weight_quant.n_bits > 0, qc.activation_quant.n_bits > 0] for qc in qms]
    cfgd = [list(o) for o in on]
    state = [["train", "train"] for _ in qms]
    ready = [[False, False] for _ in qms]
    quant = [[m.weight_quantizer, m.activation_quantizer] for m in layers]
    calls = {}
    for i, pair in enumerate(quant):
        for j, q in enumerate(pair):
            q.register_forward_pre_hook(lambda *_, k=(i, j): calls.__setitem__(k, calls.get(k, 0) + 1))

    def every(js, v):
        for st in state:
            for j in js:
                st[j] = v

    def switch(j, v):
        for o in on:
            o[j] = v
    for _ in range(rng.randint(4, 14)):
        name = rng.choice(["forward"] * 5 + ["quantized_weights", "full_precision_weights", "quantized_acts", "full_precision_acts", "quantized",
                          "full_precision", "fix_ranges", "fix_act_ranges", "fix_weight_ranges", "estimate_ranges", "estimate_act_ranges",
                          "estimate_ranges_train", "reset_act_ranges", "set_quant_state", "enable_quant_states", "mode"])
        mon.ctx += f" {name}"
        if name == "mode":
            model.train(gen.coin(rng))
        elif name == "set_quant_state":
            a, b = gen.coin(rng), gen.coin(rng)
            QS.set_quant_state(model, weight_quant=a, act_quant=b)
            switch(0, a)
            switch(1, b)
        elif name != "forward":
            getattr(QS, name)(model)
            if name == "enable_quant_states":
                on = [list(o) for o in cfgd]
            elif name.startswith(("quantized", "full_precision")):
                for j, part in enumerate(("weights", "acts")):
                    if name.endswith(part) or name in ("quantized", "full_precision"):
                        switch(j, name.startswith("quantized"))
            elif name.startswith("fix"):
                for st, rd in zip(state, ready):
                    for j in {"fix_ranges": (0, 1), "fix_act_ranges": (1,), "fix_weight_ranges": (0,)}[name]:
                        if rd[j]:
                            st[j] = "fix"
            elif name == "reset_act_ranges":
                every((1,), "train")
                for rd in ready:
                    rd[1] = False
            else:
                every((1,) if "act" in name else (0, 1), "train" if name.endswith("train") else "estimate")
        train = model.training
        for i, m in enumerate(layers):
            for j in range(2):
                if cfgd[i][j]:
                    mon.check(quant[i][j].state.name == {"train": "estimate_ranges_train", "estimate": "estimate_ranges", "fix": "fix_ranges"}[state[i][j]],
                              f"states:{name}", lambda: f"layer {i} quantizer {j}: {quant[i][j].state} instead of {state[i][j]}")
        if name != "forward":
            continue
        if any(on[i][j] and not cfgd[i][j] for i in range(len(on)) for j in range(2)):
            mon.obs("bits_off")     # a quantizer of 0 bits was switched on
            return
        x = torch.randn(rng.randint(1, 4), width) * 10 ** rng.uniform(-1, 1)
        est = [[st[j] == "estimate" or (st[j] == "train" and train) for j in range(2)] for st in state]
        if any(on[i][j] and not ready[i][j] and not est[i][j] for i in range(len(on)) for j in range(2)):
            return
        for m in layers:
            m.caching = False
        before = [[(q.quantizer.x_min.clone(), q.quantizer.x_max.clone()) if rd[j] else None for j, q in enumerate(pair)] for pair, rd in zip(quant, ready)]
        calls.clear()
        with torch.no_grad():
            for m in layers:
                m.weight.mul_(rng.choice([.5, 3.]))
        model(x)
        for i in range(len(on)):
            for j in range(2):
                n = calls.get((i, j), 0)
                mon.check((n > 0) == on[i][j], "states:called", lambda: f"layer {i} quantizer {j}: {n} calls, switched {'on' if on[i][j] else 'off'}")
                if on[i][j] and est[i][j]:
                    ready[i][j] = True
                if before[i][j] is not None:
                    same = all(torch.equal(p, q) for p, q in zip(before[i][j], (quant[i][j].quantizer.x_min, quant[i][j].quantizer.x_max)))
                    mon.check(same or (on[i][j] and est[i][j]), "states:moved", lambda: f"range of layer {i} quantizer {j} ({state[i][j]}) changed")
                    if j == 0 and on[i][j] and est[i][j]:
                        mon.check(not same, "states:stuck", lambda: f"range of the weights of layer {i} not estimated ({state[i][j]})")
        mon.state("states", str(on), str(state), train)
    mon.obs("states")


SCENARIOS = [
    Scenario("quantizer", sc_quantizer, quick=700, thorough=20000),
    Scenario("estimator", sc_estimator, quick=400, thorough=8000),
    Scenario("manager", sc_manager, quick=500, thorough=15000),
    Scenario("module", sc_module, quick=700, thorough=20000),
    Scenario("states", sc_states, quick=200, thorough=5000),
    Scenario("convert", sc_convert, quick=150, thorough=3000),
    Scenario("tile", sc_tile, quick=400, thorough=12000),
]
