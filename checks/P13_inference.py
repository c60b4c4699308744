"""P13: inference programming, drift and compensation follow the models.

Monitor: the conductance converters, noise models and inference tiles are driven through
histories; every observed conductance, weight and compensated output is compared with an
independent model (deterministic where the configured noise is zero, in distribution otherwise).
"""
import copy
import math

import numpy as np
import torch
from scipy.stats import norm

import gen
from stats import two_stage
from vh import Scenario, Skip
from aihwkit.exceptions import AihwkitException
from aihwkit.inference.compensation.drift import (
    GlobalDriftCompensation, GlobalDriftCompensationWithExactReference, PerColumnDriftCompensation)
from aihwkit.inference.converter.conductance import (
    CustomPairConductanceConverter, DualPairConductanceConverter, NPairConductanceConverter,
    SingleDeviceConductanceConverter, SinglePairConductanceConverter)
from aihwkit.inference.noise.custom import StateIndependentNoiseModel
from aihwkit.inference.noise.hermes import HermesNoiseModel
from aihwkit.inference.noise.pcm import CustomDriftPCMLikeNoiseModel, PCMLikeNoiseModel
from aihwkit.inference.noise.reram import ReRamCMONoiseModel, ReRamWan2022NoiseModel
from aihwkit.inference.utils import drift_analog_weights, program_analog_weights
from aihwkit.nn import AnalogConv2d, AnalogLinear, AnalogSequential
from aihwkit.simulator.configs import InferenceRPUConfig, TorchInferenceRPUConfig
from aihwkit.simulator.parameters import IOParameters

PID = "P13"
RULE = ("one state per (noise model, converter, quantity) compared in distribution and per (tile "
        "kind, noise model, compensation, history shape) compared exactly")
ASSUMPTIONS = ["drift starts from the weights as programmed, mapped by the converter again",
               "statistical deviations below about 2 % are not resolved"]
REQUIRES = ("converter", "power_law", "history", "moments", "compensated", "percolumn", "extreme",
            "program_again", "kept")


# ------------------------------------------------------------------ converters
def rand_converter(rng, kinds=("single", "dual", "npair", "custom", "device")):
    k = rng.choice(kinds)
    gmin = rng.choice([0.0, 0.0, 0.1, 2.0])
    gmax = gmin + rng.choice([5.0, 10.0, 25.0, 40.0])
    if k == "single":
        return k, SinglePairConductanceConverter(g_max=gmax, g_min=gmin)
    if k == "dual":
        return k, DualPairConductanceConverter(f_lst=[1.0, rng.choice([1.0, 3.0, 0.5])], g_max=gmax, g_min=gmin)
    if k == "npair":
        return k, NPairConductanceConverter(
            f_lst=[rng.choice([1.0, 2.0, 0.5, 3.0]) for _ in range(rng.randint(1, 4))], g_max=gmax, g_min=gmin)
    if k == "device":
        return k, SingleDeviceConductanceConverter(g_max=gmax, g_min=gmin)
    a, f = gmax, rng.choice([1.0, 2.0, 3.0])
    t = rng.randint(0, 2)
    if t == 0:
        return k, CustomPairConductanceConverter(f_lst=[1.0], g_lst=[[0., 0., a], [a, 0., 0.]], g_max=a, g_min=0.0)
    if t == 1:
        return k, CustomPairConductanceConverter(
            f_lst=[f, 1.0], g_lst=[[0., 0., a], [a, 0., 0.], [0., 0., a / 2], [a / 2, 0., 0.]], g_max=a, g_min=0.0)
    b = a / f
    return k, CustomPairConductanceConverter(
        f_lst=[f, 1.0], g_lst=[[0., 0., 0., b, b], [b, b, 0., 0., 0.], [0., 0., 0., 0., a], [a, 0., 0., 0., 0.]],
        g_max=a, g_min=0.0)


def rand_weights(rng, o=None, i=None, plain=False):
    o, i = o or rng.randint(1, 7), i or rng.randint(1, 7)
    k = rng.randint(0, 9) if not plain else 9
    if k == 0:
        return torch.zeros(o, i), "zero"
    if k == 1:
        return torch.full((o, i), rng.choice([0.3, -0.7, 1.0])), "constant"
    w = torch.tensor([[gen.u(rng, -1, 1) for _ in range(i)] for _ in range(o)])
    if k == 2:
        return w * 1e-6, "tiny"
    if k == 3:
        return w * 1e4, "huge"
    if k == 4:
        return w.abs(), "positive"
    if k == 5:
        return (w > 0).float() * 2 - 1, "binary"
    return w, "plain"


def s_converter(rng, mon):
    k, c = rand_converter(rng)
    w, wk = rand_weights(rng)
    w0 = w.clone()
    g, params = c.convert_to_conductances(w)
    g = list(g)
    key = f"converter:{k}"
    mon.check(torch.equal(w, w0), key + ":input", "weights modified by the conversion")
    mon.check(all(torch.isfinite(x).all() for x in g), key + f":finite:{wk}", f"non-finite conductance for {wk}")
    lo, hi = min(x.min().item() for x in g), max(x.max().item() for x in g)
    mon.check(lo >= c.g_min - 1e-4 * c.g_max and hi <= c.g_max * (1 + 1e-4), key + ":range",
              f"conductances {lo}..{hi} outside {c.g_min}..{c.g_max}")
    gk = [x.clone() for x in g]
    b = c.convert_back_to_weights(g, params)
    mon.check(all(torch.equal(a, d) for a, d in zip(g, gk)), key + ":g_input", "conductances modified")
    mon.close(b.double(), w.double(), key + f":inverse:{wk}", atol=2e-6 * max(w.abs().max().item(), 1e-7), rtol=2e-5)
    amax = w.abs().max().item()
    if k in ("single", "dual", "npair") and amax > 1e-6:
        f_lst = getattr(c, "f_lst", [1.0])
        span = c.g_max - c.g_min
        total = sum(f_lst) * span
        us = w.double() / amax * total
        low = 0.0
        for n, f in enumerate(f_lst):
            for s, x in ((1, g[2 * n]), (-1, g[2 * n + 1])):
                ref = (((s * us).clamp(min=0) - low) / f).clamp(0, span) + c.g_min
                mon.close(x.double(), ref, key + ":pairs", atol=3e-5 * c.g_max)
            low += f * span
    if k == "device" and wk not in ("zero", "constant") and (w.max() - w.min()).item() > 1e-6:
        x = torch.stack(g)
        ref = (w.double() - w.double().min()) / (w.double().max() - w.double().min())
        mon.close(x.double().view_as(ref), ref * (c.g_max - c.g_min) + c.g_min, key + ":linear", atol=1e-4 * c.g_max)
    c2 = copy.deepcopy(c)
    mon.check(c == c2, key + ":eq", "a copy of the converter is not equal")
    mon.obs("converter")
    mon.state("converter", k, wk, c.g_min > 0)


# ------------------------------------------------------------------ models
def poly(coef, x):
    return sum(c * x ** n for n, c in enumerate(coef))


def drop_defaults(rng, kw, defaults):
    """Leaves out (some of) the arguments that equal the documented default."""
    if gen.coin(rng, 0.6):
        for k, v in defaults.items():
            if k in kw and kw[k] == v and gen.coin(rng, 0.8):
                del kw[k]
    return kw


SCALES = {"prog_noise_scale": 1.0, "read_noise_scale": 1.0, "drift_scale": 1.0}


def rand_model(rng, kind=None, prog=None, read=None, drift=None, conv=True):
    """(kind, model, spec): the spec holds the documented laws in terms of the relative conductance."""
    kind = kind or rng.choice(["pcm", "pcm", "custom_drift", "hermes1", "hermes2", "state", "wan", "cmo"])
    prog = rng.choice([1.0, 0.5, 2.0]) if prog is None else prog
    read = rng.choice([1.0, 0.5, 2.0]) if read is None else read
    drift = rng.choice([1.0, 0.5, 2.0]) if drift is None else drift
    sp = {"prog": prog, "read": read, "drift": drift}
    kw = {}
    own = gen.coin(rng, 0.5)
    if conv and own and kind not in ("cmo", "custom_drift"):
        _, c = rand_converter(rng, ("single", "single", "dual", "npair"))
        if kind.startswith("hermes"):
            c = SinglePairConductanceConverter(g_max=rng.choice([5.0, 10.0]))
        kw["g_converter"] = c
        gmax = c.g_max
    elif kind != "cmo" and gen.coin(rng) and not (kind == "custom_drift"):
        gmax = rng.choice([5.0, 10.0]) if kind.startswith("hermes") else rng.choice([10.0, 25.0, 40.0])
        kw["g_max"] = gmax
    else:
        gmax = {"hermes1": 10.35, "hermes2": 20.7, "cmo": 88.199997}.get(kind, 25.0)
    given = gen.coin(rng, 0.4)
    coef = [gen.u(rng, 0.1, 0.5), gen.u(rng, 0.2, 1.0)] + ([gen.u(rng, 0, 1)] if gen.coin(rng) else [])
    ref = rng.choice([None, 20.0, 50.0]) if given else None
    if kind in ("pcm", "custom_drift", "hermes1", "hermes2"):
        if given:
            kw["prog_coeff"] = coef
            if ref is not None:
                kw["prog_coeff_g_max_reference"] = ref
            gref = ref or gmax
        else:
            coef = {"hermes1": [0.15781817, 2.32443916, -2.16310839, 0.68841818],
                    "hermes2": [0.16603222, 4.71806468, -8.48101252, 4.68961419]}.get(
                        kind, [0.26348, 1.9650, -1.1731])
            gref = {"hermes1": 10.35, "hermes2": 20.7}.get(kind, 25.0)
        kw.update(prog_noise_scale=prog, read_noise_scale=read, drift_scale=drift)
        if gen.coin(rng, 0.4):
            kw["t_0"] = rng.choice([1.0, 20.0, 100.0])
        if gen.coin(rng, 0.4):
            kw["t_read"] = rng.choice([250e-9, 1e-6])
        sp["t0"] = kw.get("t_0", {"hermes1": 200.0, "hermes2": 300.0}.get(kind, 20.0))
        sp["tr"] = kw.get("t_read", 512e-9 if kind.startswith("hermes") else 250e-9)
        sp["sig"] = lambda r: poly(coef, r) * gmax / gref
        drop_defaults(rng, kw, SCALES)
        if kind == "pcm":
            m = PCMLikeNoiseModel(**kw)
        elif kind == "custom_drift":
            gl = [0.0, gmax * 0.3, gmax]
            nm, ns = [gen.u(rng, 0.02, 0.1) for _ in gl], [gen.u(rng, 0.0, 0.03) for _ in gl]
            d = {"g_lst": gl, "nu_mean_lst": nm, "nu_std_lst": ns}
            sp["dict"] = (d, copy.deepcopy(d))
            m = CustomDriftPCMLikeNoiseModel(d, **kw)
            sp["nu"] = lambda r: (np.interp(r * gmax, gl, nm), np.interp(r * gmax, gl, ns))
        else:
            m = HermesNoiseModel(num_devices=int(kind[-1]), **kw)
        if kind == "pcm":
            def nu(r):
                lr = math.log(max(r, 1e-7))
                return min(max(-0.0155 * lr + 0.0244, 0.049), 0.1), min(max(-0.0125 * lr - 0.0059, 0.008), 0.045)
            sp["nu"] = nu
        if kind in ("pcm", "custom_drift"):
            sp["q"] = lambda r: min(0.0088 / max(r ** 0.65, 1e-3), 0.2)
        if kind.startswith("hermes"):
            two = kind[-1] == "2"

            def nu(r):
                lr = math.log(max(r, 1e-7))
                mu = min(max(-0.0387 * lr - 0.0182, 0.072), 0.13) if r < 0.0945 else \
                    -0.0436 * r * r - 0.0126 * r + 0.0736
                if two:
                    s = min(max(-0.0117 * lr - 0.0057, 0.0091), 0.04) if r < 0.3055 else \
                        -0.0118 * r * r + 0.0093 * r + 0.0073
                else:
                    s = min(max(-0.0120 * lr - 0.0023, 0.0124), 0.04) if r < 0.3039 else \
                        -0.0165 * r * r + 0.0116 * r + 0.0104
                return mu, s

            def q(r):
                lr = math.log(max(r, 1e-30))
                if two:
                    return min(max(-0.0117 * lr - 0.0069, 0.015), 0.04) if r < 0.16 else \
                        poly([0.0123, 0.0211, -0.0280, 0.0069], r)
                return min(max(-0.0078 * lr + 0.0038, 0.0179), 0.04) if r < 0.1591 else \
                    poly([0.0088, 0.0768, -0.1352, 0.0664], r)
            sp["nu"], sp["q"] = nu, q
        if kind.startswith("hermes") and not given:
            sp["coef_hidden"] = True
    elif kind == "state":
        if given:
            kw["prog_coeff"] = coef
        else:
            coef = [0.2, 0.0, 0.0]
        mean, std = rng.choice([(0.1, 0.05), (0.1, 0.05), (0.05, 0.0), (0.02, 0.05)])
        kw.update(prog_noise_scale=prog, read_noise_scale=read, drift_scale=drift, drift_nu_mean=mean,
                  drift_nu_std=std)
        if gen.coin(rng, 0.4):
            kw["t_0"] = rng.choice([1.0, 50.0])
        drop_defaults(rng, kw, {**SCALES, "drift_nu_mean": 0.1, "drift_nu_std": 0.05})
        m = StateIndependentNoiseModel(**kw)
        sp.update(t0=kw.get("t_0", 20.0), tr=250e-9, sig=lambda r: poly(coef, r), nu=lambda r: (mean, std),
                  q=lambda r: 1.0 / gmax)     # the read noise is documented relative to g / g_max
    elif kind == "wan":
        if given:
            kw["coeff_dic"] = {1.0: coef, 100.0: [2 * c for c in coef]}
            if ref is not None:
                kw["coeff_g_max_reference"] = ref
            gref = ref or gmax
            sp["times"] = {1.0: coef, 100.0: [2 * c for c in coef]}
        else:
            gref = 40.0
            sp["times"] = {1.0: [0.348, 16.030, -43.853, 45.393, -16.815],
                           86400.0: [0.701, 22.086, -50.773, 47.095, -16.458],
                           172800.0: [0.782, 20.274, -43.507, 37.062, -11.934]}
        kw["noise_scale"] = prog
        m = ReRamWan2022NoiseModel(**drop_defaults(rng, kw, {"noise_scale": 1.0}))
        sp["sig_t"] = lambda r, t: poly(sp["times"][t], r) * gmax / gref
        sp["sig"] = lambda r: sp["sig_t"](r, 1.0)
    else:
        acc = rng.choice([0.2, 2])
        kw = {"prog_noise_scale": prog, "read_noise_scale": read, "drift_scale": drift}
        m = ReRamCMONoiseModel(acceptance_range=acc, **drop_defaults(rng, kw, SCALES))
        c = {0.2: [0.00081107, 0.00106879], 2: [0.0112185391, 0.01129027418]}[acc]
        sp["sig"] = lambda r: poly(c, r * gmax)
    sp["g_max"] = gmax
    return kind, m, sp


def rect_moments(mu, s):
    """E[max(X, 0)], E[max(X, 0)^2] of a normal X."""
    if s <= 0:
        return max(mu, 0.0), max(mu, 0.0) ** 2
    a = mu / s
    return mu * norm.cdf(a) + s * norm.pdf(a), (mu * mu + s * s) * norm.cdf(a) + mu * s * norm.pdf(a)


def fold_moments(mu, s):
    if s <= 0:
        return abs(mu), mu * mu
    a = mu / s
    return s * math.sqrt(2 / math.pi) * math.exp(-a * a / 2) + mu * (1 - 2 * norm.cdf(-a)), mu * mu + s * s


def moment_z(S, pred, scale):
    """z of the first two moments (per level) of S (levels, n)."""
    z = {}
    for k, (x, (m1, m2)) in enumerate(zip(S, pred)):
        n = len(x)
        for tag, v, m, sc in (("m1", x, m1, scale), ("m2", x * x, m2, scale * scale)):
            se = v.std() / math.sqrt(n)
            d = v.mean() - m
            z[f"{tag}[{k}]"] = 0.0 if abs(d) < 3e-6 * sc else d / max(se, 1e-12 * sc)
    return z


def lag_z(S):
    z = {}
    u = (S - S.mean(1, keepdims=True)) / np.maximum(S.std(1, keepdims=True), 1e-300)
    ok = S.std(1) > 1e-9
    if ok.any():
        v = u[ok]
        z["lag1"] = (v[:, 1:] * v[:, :-1]).mean() * math.sqrt(v[:, 1:].size)
        if len(v) > 1:
            z["levels"] = (v[1:] * v[:-1]).mean() * math.sqrt(v[1:].size)
    return z


def s_dist(rng, mon):
    kind, m, sp = rand_model(rng)
    gmax = sp["g_max"]
    mon.check(abs(m.g_max - gmax) < 1e-5 * gmax, f"model:{kind}:g_max", f"{m.g_max} for {gmax}")
    what = rng.choice(["prog", "nu", "read"])
    lo = 9.0 / gmax if kind == "cmo" else 0.0
    rel = sorted({rng.choice([0.0, 0.05, 0.1, 0.2, 0.33, 0.5, 0.77, 1.0, round(rng.random(), 3)]) for _ in range(3)})
    rel = [lo + (1 - lo) * r for r in rel]
    g = np.array([r * gmax for r in rel])
    key = f"dist:{kind}:{what}"

    def level(n):
        return torch.tensor(g, dtype=torch.float32).view(-1, 1).repeat(1, n)

    def kept(G, before):
        mon.check(torch.equal(G, before), f"kept:{kind}:{what}", "the given conductances were modified")
        mon.obs("kept")
    if what == "prog":
        def draw(n):
            G = level(n)
            b = G.clone()
            out = m.apply_programming_noise_to_conductance(G).double().numpy()
            kept(G, b)
            return out
        rect = rect_moments if kind != "cmo" else (lambda mu, s: (mu, mu * mu + s * s))
        pred = [rect(r * gmax, abs(sp["prog"] * sp["sig"](r))) for r in rel]
        two_stage(mon, key, draw, 3000, lambda S: {**moment_z(S, pred, gmax), **lag_z(S)},
                  f"{kind} prog={sp['prog']} rel={rel}")
    elif what == "nu" and "nu" in sp:
        def draw(n):
            G = level(n)
            b = G.clone()
            out = m.generate_drift_coefficients(G).double().numpy()
            kept(G, b)
            return out
        pred = []
        for r in rel:
            mu, s = sp["nu"](r)
            a, b = fold_moments(mu, s)
            pred.append((a * sp["drift"], b * sp["drift"] ** 2))
        two_stage(mon, key, draw, 3000, lambda S: {**moment_z(S, pred, 0.1), **lag_z(S)}, f"{kind} nu rel={rel}")
        if kind == "custom_drift":
            mon.check(sp["dict"][0] == sp["dict"][1], "kept:custom_drift:dict", "the model dictionary was changed")
    elif what == "read":
        if kind == "wan":
            t = rng.choice(list(sp["times"]))

            def draw(n):
                G = level(n)
                P = G * 0.9
                b = G.clone()
                out = m.apply_drift_noise_to_conductance(P, G, t).double().numpy()
                kept(G, b)
                return out
            pred = [rect_moments(r * gmax, abs(sp["prog"] * sp["sig_t"](r, t))) for r in rel]
            two_stage(mon, key, draw, 3000, lambda S: {**moment_z(S, pred, gmax), **lag_z(S)}, f"wan t={t}")
        elif kind == "cmo":
            t = rng.choice([1.0, 60.0, 3600.0, 1e6])
            rel = [0.3, 0.5, 0.7]
            g = np.array([r * gmax for r in rel])
            L = math.log(t)

            def draw(n):
                G = level(n)
                b = G.clone()
                out = m.apply_drift_noise_to_conductance(G, G, t).double().numpy()
                kept(G, b)
                return out
            pred = []
            for r in rel:
                mu = r * gmax - 0.08900206 * L * sp["drift"]
                s = (0.04201137 * L + 0.41183342) * sp["drift"]
                k = 0.0277316483 * math.sqrt(math.log((t + 1e-6) / 2e-6)) * sp["read"]
                # the read noise varies a little with the drifted conductance
                xs = mu + s * np.linspace(-6, 6, 4001)
                p = np.exp(-0.5 * np.linspace(-6, 6, 4001) ** 2)
                v = (k * np.log10(xs)) ** 2
                v = (v * p).sum() / p.sum()
                pred.append((mu, mu * mu + s * s + v))
            two_stage(mon, key, draw, 3000, lambda S: {**moment_z(S, pred, gmax), **lag_z(S)}, f"cmo t={t}")
        else:
            t = rng.choice([0.0, 1.0, 3600.0, 1e7])
            nu = np.array([rng.choice([0.0, 0.05, 0.1]) for _ in rel])
            tt = t + sp["t0"]

            def draw(n):
                G = level(n)
                N = torch.tensor(nu, dtype=torch.float32).view(-1, 1).repeat(1, n)
                b, b2 = G.clone(), N.clone()
                out = m.apply_drift_noise_to_conductance(G, N, t).double().numpy()
                kept(G, b)
                kept(N, b2)
                return out
            pred = []
            for r, v in zip(rel, nu):
                gd = r * gmax * (tt / sp["t0"]) ** -v
                s = gd * sp["read"] * sp["q"](r) * math.sqrt(math.log((tt + sp["tr"]) / (2 * sp["tr"])))
                pred.append(rect_moments(gd, s))
            two_stage(mon, key, draw, 3000, lambda S: {**moment_z(S, pred, gmax), **lag_z(S)},
                      f"{kind} t={t} nu={nu} rel={rel}")
    else:
        raise Skip()
    mon.obs("moments")
    mon.state("dist", kind, what, sp["prog"], sp["read"])


# ------------------------------------------------------------------ weights level
def s_weights(rng, mon):
    """Weight level API: zero noise keeps, power law, extremes are finite."""
    prog = rng.choice([0.0, 0.0, 1.0])
    read = rng.choice([0.0, 0.0, 1.0])
    kind, m, sp = rand_model(rng, prog=prog, read=read)
    w, wk = rand_weights(rng)
    w0 = w.clone()
    before = copy.deepcopy(m)
    p, nu = m.apply_programming_noise(w)
    mon.check(torch.equal(w, w0), f"weights:{kind}:input", "apply_programming_noise changed the weights")
    mon.check(torch.isfinite(p).all() and p.shape == w.shape, f"weights:{kind}:finite:{wk}",
              f"programmed {wk} weights {p.flatten()[:4]}")
    scale = max(w.abs().max().item(), 1e-7)
    if prog == 0:
        mon.close(p.double(), w.double(), f"weights:{kind}:zero_programming", atol=3e-5 * scale)
        t = 0.0 if gen.coin(rng) else -1.0
        a = m.apply_noise(w, t)
        mon.close(a.double(), w.double(), f"weights:{kind}:apply_noise_at_0", atol=3e-5 * scale)
    if kind == "wan":
        times = list(sp["times"])
    else:
        times = [rng.choice([0.0, 1e-9, 1e-3, 1.0, 20.0, 3600.0, 1e6, 1e12]) for _ in range(3)]
    p0 = p.clone()
    nk = [x.clone() if torch.is_tensor(x) else x for x in nu]
    seen = {}
    for t in times + times[:1]:
        d = m.apply_drift_noise(p, nu, t)
        mon.check(torch.isfinite(d).all(), f"weights:{kind}:finite_drift:{wk}", f"t={t}: {d.flatten()[:4]}")
        mon.check(torch.equal(p, p0) and all(not torch.is_tensor(a) or torch.equal(a, b) for a, b in zip(nu, nk)),
                  f"weights:{kind}:drift_input", "apply_drift_noise changed its inputs")
        if read == 0 and kind not in ("wan", "cmo"):
            # power law of every conductance from the programmed state
            g, par = m.g_converter.convert_to_conductances(p)
            f = 1 + t / sp["t0"]
            gd = [x.double() * f ** -v.double() for x, v in zip(g, nu)]
            ref = m.g_converter.convert_back_to_weights([x.float() for x in gd], par)
            mon.close(d.double(), ref.double(), f"weights:{kind}:power_law", atol=1e-4 * scale)
            mon.obs("power_law")
            if t in seen:
                mon.check(torch.equal(seen[t], d), f"weights:{kind}:repeat", "same time, other weights")
            seen[t] = d
        if t <= 0 and read == 0 and kind not in ("wan",):
            mon.close(d.double(), p.double(), f"weights:{kind}:drift_at_0", atol=1e-4 * scale)
    mon.check(m == before, f"weights:{kind}:model", "the noise model changed its parameters by being used")
    if wk != "plain":
        mon.obs("extreme")
    mon.state("weights", kind, wk, prog, read, type(m.g_converter).__name__)


# ------------------------------------------------------------------ tiles
def comp_of(rng):
    return rng.choice([None, GlobalDriftCompensation, GlobalDriftCompensation, PerColumnDriftCompensation,
                       GlobalDriftCompensationWithExactReference])


def s_tile(rng, mon):
    kind, m, sp = rand_model(rng, kind=rng.choice(["pcm", "custom_drift", "hermes1", "hermes2", "state"]),
                             prog=rng.choice([0.0, 1.0]), read=0.0)
    comp = comp_of(rng)
    torch_tile = gen.coin(rng, 0.4)
    cls = TorchInferenceRPUConfig if torch_tile else InferenceRPUConfig
    cfg = cls(forward=IOParameters(is_perfect=True), noise_model=m, drift_compensation=comp() if comp else None)
    cfg.mapping.digital_bias = torch_tile or gen.coin(rng, 0.7)
    cfg.mapping.weight_scaling_omega = rng.choice([0.0, 0.6, 1.0])
    cfg.mapping.weight_scaling_columnwise = gen.coin(rng, 0.3)
    cfg.mapping.learn_out_scaling = gen.coin(rng, 0.3)
    cfg.mapping.out_scaling_columnwise = gen.coin(rng)
    bias = gen.coin(rng)
    layer = rng.choice(["linear", "linear", "conv", "tile"])
    if torch_tile and layer == "conv" and gen.coin(rng):
        layer = "linear"
    o, i = rng.randint(1, 5), rng.randint(1, 6)
    if layer == "conv":
        conv = dict(kernel_size=rng.choice([1, 2, 3]), padding=rng.choice([0, 1]))
        if not torch_tile and gen.coin(rng):
            conv["padding"] = 1
        net = AnalogConv2d(i, o, rpu_config=cfg, bias=bias, **conv)
        shape = (rng.randint(1, 3), i, rng.randint(3, 5), rng.randint(3, 6))
    elif layer == "linear":
        net = AnalogLinear(i, o, rpu_config=cfg, bias=bias)
        shape = rng.choice([(rng.randint(1, 4), i), (2, 3, i)])
    else:
        it, ot = (False, False) if torch_tile else (gen.coin(rng), gen.coin(rng))
        b = bias and cfg.mapping.digital_bias or bias and not torch_tile
        kw = {} if torch_tile else {"in_trans": it, "out_trans": ot}
        net = cfg.tile_class(o, i, cfg, bias=b, **kw)
        bias = b
        n = rng.randint(1, 4)
        shape = (i, n) if it else (n, i)
    tiles = [net] if layer == "tile" else list(net.analog_tiles())
    W = None
    if layer != "tile":
        W = torch.randn(o, net.in_size if hasattr(net, "in_size") else i) * 0.3
        w0, b0 = net.get_weights()
        net.set_weights(torch.randn_like(w0) * 0.3, torch.randn_like(b0) * 0.3 if b0 is not None else None)
    else:
        net.set_weights(torch.randn(o, i) * 0.3, torch.randn(o) * 0.3 if bias else None)
    tile = tiles[0]
    x = torch.randn(*shape)
    ref = tile.tile.get_weights().double().clone()          # o x (i + analog bias)
    net.eval()
    key = f"tile:{'torch' if torch_tile else 'rpu'}:{kind}:{comp.__name__ if comp else 'none'}:{layer}"
    P, nu = None, None
    alpha = torch.ones(1).double()

    def read(Wt):
        if comp is PerColumnDriftCompensation:
            return Wt.abs().mean(1).clamp(min=1e-4)
        return Wt.abs().mean().clamp(min=1e-4)

    def pure(Wt):
        """Output of the layer with tile weights Wt and no compensation (train mode)."""
        keep = tile.tile.get_weights().clone()
        tile.tile.set_weights(Wt.float())
        net.train()
        with torch.no_grad():
            y = net(x).double().clone()
        net.eval()
        tile.tile.set_weights(keep)
        return y

    def programmed():
        nonlocal P, nu, alpha, base
        P = tile.tile.get_weights().double().clone()
        mon.check(torch.equal(tile.programmed_weights.double(), P), key + ":programmed",
                  "the tile does not hold the programmed weights")
        nu = [v.double().clone() for v in tile.drift_noise_parameters]
        if sp["prog"] == 0:
            mon.close(P, ref, key + ":zero_programming", atol=1e-5)
        alpha = torch.ones(1).double()
        base = read(ref if comp is GlobalDriftCompensationWithExactReference else P)
    base = None
    hist = []
    for _ in range(rng.randint(2, 5)):
        op = rng.choice(["drift", "drift", "drift", "program", "reprogram", "forward", "set_weights"])
        hist.append(op)
        if op == "reprogram":
            # the array has got other weights (e.g. by training) and is programmed from these
            f = rng.choice([0.3, 0.6, 0.9]) if gen.coin(rng) else 1.0
            Wn = (tile.tile.get_weights() * f if f < 1 else torch.randn(*ref.shape) * .3)
            tile.tile.set_weights(Wn)
            ref = tile.tile.get_weights().double().clone()
            tile.program_weights(from_reference=False)
            mon.obs("reprogrammed")
            programmed()
        if op == "program":
            if layer == "tile" or gen.coin(rng):
                tile.program_weights()
            else:
                program_analog_weights(net, None)
            if P is not None:
                mon.obs("program_again")
            programmed()
        elif op == "drift":
            t = rng.choice([0.0, 1.0, 60.0, 3600.0, 1e6])
            fresh = P is None
            if layer == "tile" or gen.coin(rng):
                tile.drift_weights(t)
            else:
                drift_analog_weights(net, t)
            if fresh:
                P = tile.programmed_weights.double().clone()
                nu = [v.double().clone() for v in tile.drift_noise_parameters]
                base = read(ref if comp is GlobalDriftCompensationWithExactReference else P)
                if sp["prog"] == 0:
                    mon.close(P, ref, key + ":zero_programming", atol=1e-5)
            f = 1 + t / sp["t0"]
            g, par = m.g_converter.convert_to_conductances(P.float())
            Wt = m.g_converter.convert_back_to_weights(
                [(a.double() * f ** -v).float() for a, v in zip(g, nu)], par).double()
            now = tile.tile.get_weights().double()
            mon.close(now, Wt, key + ":drifted", atol=1e-4)
            mon.obs("power_law")
            if comp is not None:
                alpha = base / read(now)
            hist[-1] = f"drift{t:g}"
            if len([h for h in hist if h.startswith("drift")]) > 1:
                mon.obs("history")
        elif op == "set_weights":
            if layer == "tile":
                net.set_weights(torch.randn(o, i) * 0.3, torch.randn(o) * 0.3 if bias else None)
            else:
                net.set_weights(torch.randn_like(w0) * 0.3, torch.randn_like(b0) * 0.3 if b0 is not None else None)
            ref = tile.tile.get_weights().double().clone()
            P, nu, alpha = None, None, torch.ones(1).double()
        # forward in evaluation: compensated; bias in digital is not part of it
        now = tile.tile.get_weights().double()
        with torch.no_grad():
            y = net(x).double()
        y1 = pure(now)
        y0 = pure(torch.zeros_like(now))
        dim = 1 if layer == "conv" else (0 if layer == "tile" and getattr(tile, "out_trans", False) else -1)
        a = alpha
        if alpha.numel() > 1:
            v = [1] * y.dim()
            v[dim] = -1
            a = alpha.view(v)
            mon.obs("percolumn")
        mon.close(y, y0 + (y1 - y0) * a, key + ":compensated", atol=2e-4 * max(1.0, float(alpha.max())))
        if comp is not None and alpha.numel() and (alpha != 1).any():
            mon.obs("compensated")
    mon.state("tile", torch_tile, kind, comp.__name__ if comp else "", layer, bias, cfg.mapping.digital_bias,
              tuple(hist)[:3])


def s_restore(rng, mon):
    """With a common drift exponent the compensation restores the output as programmed."""
    nu = gen.u(rng, 0.02, 0.2)
    m = StateIndependentNoiseModel(prog_noise_scale=0.0, read_noise_scale=0.0, drift_nu_mean=nu, drift_nu_std=0.0)
    comp = rng.choice([GlobalDriftCompensation, PerColumnDriftCompensation, GlobalDriftCompensationWithExactReference])
    cls = rng.choice([TorchInferenceRPUConfig, InferenceRPUConfig])
    cfg = cls(forward=IOParameters(is_perfect=True), noise_model=m, drift_compensation=comp())
    cfg.mapping.weight_scaling_omega = rng.choice([0.0, 1.0])
    n = rng.randint(1, 3)
    dims = [rng.randint(2, 6) for _ in range(n + 1)]
    net = AnalogSequential(*[AnalogLinear(a, b, rpu_config=copy.deepcopy(cfg), bias=gen.coin(rng))
                             for a, b in zip(dims, dims[1:])])
    net.eval()
    x = torch.randn(rng.randint(1, 4), dims[0])
    with torch.no_grad():
        y = net(x).clone()
        for _ in range(rng.randint(1, 3)):
            t = rng.choice([0.0, 10.0, 1e4, 1e7])
            if rng.random() < 0.3:
                program_analog_weights(net, None)
                mon.close(net(x).double(), y.double(), "restore:program", atol=1e-4)
            drift_analog_weights(net, t)
            mon.close(net(x).double(), y.double(), f"restore:{comp.__name__}:{cls.__name__}", atol=2e-4)
            mon.obs("compensated")
    if gen.coin(rng, 0.2):
        net.train()
        try:
            drift_analog_weights(net, 1.0)
            refused = False
        except AihwkitException:
            refused = True
        mon.check(refused, "restore:training_refused", "drifted in training mode")
    mon.state("restore", comp.__name__, cls.__name__, n)


def s_wan_scale(rng, mon):
    """The variation model is relative to the target weights, at every listed time."""
    sp_scale = 1.0
    m = ReRamWan2022NoiseModel(noise_scale=sp_scale)
    o, i = 20, 40
    w = torch.tensor([[gen.u(rng, -1, 1) for _ in range(i)] for _ in range(o)])
    w = w / w.abs().max()
    p, nu = m.apply_programming_noise(w)
    t = rng.choice([1.0, 86400.0])
    D = torch.stack([m.apply_drift_noise(p, nu, t) for _ in range(40)]).double().mean(0)
    big = w.abs() > 0.5
    # the other device of the pair has a rectified noise around zero
    c0 = {1.0: 0.348, 86400.0: 0.701}[t]
    D = D + w.double().sign() * 0.39894 * c0 / 40
    slope = ((D * w.double())[big].sum() / (w.double() ** 2)[big].sum()).item()
    r = (p.abs().max() / w.abs().max()).item()
    ok = abs(slope - 1) < 0.004
    if not ok:
        mon.check(False, "wan_scale:" + ("programmed_max" if abs(slope - r) < 0.004 else "other"),
                  f"mean weights after {t} s are {slope:.4f} times the target (max programmed / max target {r:.4f})")
    else:
        mon.check(True, "wan_scale:programmed_max", "")
    mon.state("wan_scale", t)


SCENARIOS = [
    Scenario("converter", s_converter, quick=600, thorough=10000, min_evals=3000),
    Scenario("dist", s_dist, quick=700, thorough=10000, min_evals=500),
    Scenario("weights", s_weights, quick=700, thorough=12000, min_evals=4000),
    Scenario("tile", s_tile, quick=1200, thorough=15000, min_evals=5000),
    Scenario("restore", s_restore, quick=200, thorough=3000, min_evals=300),
    Scenario("wan_scale", s_wan_scale, quick=30, thorough=200, min_evals=30),
]
