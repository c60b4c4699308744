"""P23: analog matrix, export, fitting and analysis utilities."""
import copy
import math
import os
import pickle
import shutil
import tempfile
import numpy as np
import torch
from torch import nn
from vh import Scenario, Skip
import gen

from aihwkit.linalg import AnalogMatrix
from aihwkit.exceptions import FusionExportError, TileError, ArgumentError, ConfigError, AihwkitException
from aihwkit.inference.converter.fusion import FusionConductanceConverter
from aihwkit.nn import (
    AnalogLinear, AnalogLinearMapped, AnalogConv2d, AnalogConv1d, AnalogConv2dMapped, AnalogSequential, AnalogRNN,
    AnalogGRUCell, AnalogLSTMCell)
from aihwkit.simulator.configs import (
    InferenceRPUConfig, SingleRPUConfig, FloatingPointRPUConfig, TorchInferenceRPUConfig)
from aihwkit.simulator.configs.devices import (
    ConstantStepDevice, LinearStepDevice, SoftBoundsDevice, ExpStepDevice, IdealDevice)
from aihwkit.utils.analog_info import analog_summary
from aihwkit.utils.export import fusion_export, fusion_import
from aihwkit.utils.fitting import fit_measurements, model_response
from aihwkit.utils.visualization import compute_pulse_response, estimate_n_steps, get_tile_for_plotting

PID = "P23"
RULE = ("products of an analog matrix equal numpy products of the matrix it holds (as matrix and as scipy linear "
        "operator); exported conductances follow the documented scaling and import restores the weights; fitted "
        "responses equal an independent device simulation with the returned parameters; summaries equal counts "
        "made on the model and leave it unchanged")
ASSUMPTIONS = ["matrix products with @ take batches of row vectors (as in the example of the repository)",
               "an analog matrix is a single crossbar: sizes above the maximal tile size are not judged"]
REQUIRES = ["matrix_forward", "matrix_backward", "matrix_linop", "matrix_ger", "fusion_values", "fusion_restored",
            "fusion_csv", "fusion_refused", "fusion_constant_row", "summary", "summary_unchanged", "summary_tiles",
            "response", "fit", "pulse_response", "fit_refused"]


def matrix_config(rng):
    kind = rng.choice(["float", "ideal", "constant", "inference"])
    if kind == "float":
        return FloatingPointRPUConfig(), kind
    if kind == "inference":
        c = InferenceRPUConfig()
        c.forward.is_perfect = True
        if gen.coin(rng):
            c.mapping.weight_scaling_omega = rng.choice([0.0, .5, 1.0])
            c.mapping.weight_scaling_columnwise = gen.coin(rng)
        return c, kind
    d = IdealDevice() if kind == "ideal" else ConstantStepDevice(w_max=5., w_min=-5., w_max_dtod=0, w_min_dtod=0)
    c = SingleRPUConfig(device=d)
    c.forward.is_perfect = c.backward.is_perfect = True
    return c, kind


def sc_matrix(rng, mon):
    c, kind = matrix_config(rng)
    n, m = rng.randint(1, 8), rng.randint(1, 8)
    g = np.random.default_rng(rng.getrandbits(32))
    A = (g.random((n, m)) * 2 - 1).astype(np.float32)
    if gen.coin(rng, .2):
        A = np.asfortranarray(A)
    src = rng.choice(["numpy", "torch", "float64"])
    given = {"numpy": A, "torch": torch.tensor(A), "float64": A.astype(np.float64)}[src]
    keep = copy.deepcopy(given)
    M = AnalogMatrix(given, c, realistic=False)
    mon.check((keep == given).all(), "matrix:input", "matrix given was modified")
    mon.ctx = f"{kind} {n}x{m} from {src}"
    A = A.astype(np.float64)
    mon.check(M.shape == (n, m), "matrix:shape", str(M.shape))
    k = rng.randint(1, 5)
    tens = gen.coin(rng)

    def arr(*s):
        a = (g.random(s) * 2 - 1).astype(np.float32)
        if len(s) == 2 and gen.coin(rng, .3):
            a = np.asfortranarray(a)
        return torch.tensor(a) if tens else a

    def f64(a):
        return a.detach().numpy().astype(np.float64) if isinstance(a, torch.Tensor) else np.asarray(a, dtype=np.float64)

    def same(key, fn, want, ins):
        before = [f64(a).copy() for a in ins]
        got = fn()
        mon.check(isinstance(got, torch.Tensor if tens else np.ndarray), key, f"type {type(got)}")
        mon.close(torch.tensor(f64(got)), torch.tensor(want), key, atol=1e-4, rtol=1e-4, msg="product")
        for a, b in zip(ins, before):
            mon.check(np.array_equal(f64(a), b), key, "argument modified")

    for _ in range(2):
        x, d, X, D = arr(m), arr(n), arr(k, m), arr(k, n)
        same("matrix:forward", lambda: M @ x, A @ f64(x), [x])
        same("matrix:forward", lambda: M @ X, f64(X) @ A.T, [X])
        mon.obs("matrix_forward")
        same("matrix:backward", lambda: d @ M, f64(d) @ A, [d])
        same("matrix:backward", lambda: D @ M, f64(D) @ A, [D])
        mon.obs("matrix_backward")
        mon.state("matrix_case", (kind, n, m, k, tens))
    # scipy operator
    tens = False
    x, d, X, D = arr(m), arr(n), arr(m, k), arr(n, k)
    cases = [("matvec", lambda: M.matvec(x), A @ x), ("rmatvec", lambda: M.rmatvec(d), A.T @ d),
             ("matvec_column", lambda: M.matvec(x[:, None]), A @ x[:, None]),
             ("rmatvec_column", lambda: M.rmatvec(d[:, None]), A.T @ d[:, None]),
             ("matmat", lambda: M.matmat(X), A @ X), ("rmatmat", lambda: M.rmatmat(D), A.T @ D),
             ("dot", lambda: M.dot(x), A @ x), ("dot_matrix", lambda: M.dot(X), A @ X), ("mul", lambda: M * x, A @ x),
             ("T", lambda: M.T @ d, A.T @ d), ("H", lambda: M.H @ d, A.T @ d), ("T_matrix", lambda: M.T.matmat(D), A.T @ D),
             ("scaled", lambda: (2.0 * M) @ x, 2 * A @ x), ("sum", lambda: (M + M) @ x, 2 * A @ x),
             ("gram", lambda: (M.T * M) @ x, A.T @ (A @ x))]
    for key, fn, want in cases:
        mon.close(torch.tensor(f64(fn())), torch.tensor(f64(want)), "matrix:op:" + key, atol=1e-4, rtol=1e-4, msg="product")
        mon.obs("matrix_linop")
    mon.check(np.dtype(M.dtype) == np.float32, "matrix:dtype", str(M.dtype))
    # columns and rows
    E = np.eye(m, dtype=np.float32)
    mon.close(torch.tensor((M @ E).T.astype(np.float64)), torch.tensor(A), "matrix:columns", atol=1e-5, msg="matrix read out")
    # refusals leave it usable
    for key, fn in (("x", lambda: M @ np.zeros(m + 1, dtype=np.float32)), ("d", lambda: np.zeros(n + 1, dtype=np.float32) @ M)):
        try:
            r = fn()
        except (RuntimeError, ValueError, AihwkitException):
            pass
        else:
            mon.fail("matrix:size_" + key, f"wrong size accepted: {r!r}"[:80])
    mon.close(torch.tensor(f64(M @ x)), torch.tensor(A @ x), "matrix:usable", atol=1e-4, msg="after refusal")


def sc_ger(rng, mon):
    kind = rng.choice(["float", "ideal"])
    c = FloatingPointRPUConfig() if kind == "float" else SingleRPUConfig(device=IdealDevice())
    if kind == "ideal":
        c.forward.is_perfect = c.backward.is_perfect = True
    n, m, k = rng.randint(1, 6), rng.randint(1, 6), rng.randint(1, 4)
    g = np.random.default_rng(rng.getrandbits(32))
    A = (g.random((n, m)) * 2 - 1).astype(np.float32)
    M = AnalogMatrix(A, c)
    want = A.astype(np.float64)
    mon.ctx = f"{kind} {n}x{m}"
    for _ in range(3):
        al = rng.choice([.1, 1.0, .01, 2.0])
        vec = gen.coin(rng, .4)
        x = g.standard_normal((m,) if vec else (k, m)).astype(np.float32)
        d = g.standard_normal((n,) if vec else (k, n)).astype(np.float32)
        xb, db = x.copy(), d.copy()
        M.ger(*((torch.tensor(x), torch.tensor(d)) if gen.coin(rng) else (x, d)), al)
        mon.check(np.array_equal(x, xb) and np.array_equal(d, db), "ger:args", "argument modified")
        want = want + al * (np.outer(d, x) if vec else d.astype(np.float64).T @ x)
        got = (M @ np.eye(m, dtype=np.float32)).T
        mon.close(torch.tensor(got.astype(np.float64)), torch.tensor(want), "ger", atol=1e-4, rtol=1e-4, msg="rank update")
        mon.obs("matrix_ger")


# ---- fusion
class Net(AnalogSequential):
    pass


def inference_config(rng):
    c = InferenceRPUConfig()
    c.mapping.weight_scaling_omega = rng.choice([0.0, 0.6, 1.0])
    c.mapping.weight_scaling_columnwise = gen.coin(rng)
    c.mapping.learn_out_scaling = gen.coin(rng, .3)
    c.mapping.digital_bias = True
    c.mapping.max_input_size, c.mapping.max_output_size = rng.choice([(0, 0), (512, 512), (4, 3), (5, 0)])
    return c


def fusion_net(rng, c):
    parts, ch = [], rng.randint(1, 2)
    if gen.coin(rng):
        co = rng.randint(1, 3)
        parts += [rng.choice([AnalogConv2d, AnalogConv2dMapped])(ch, co, 2, bias=gen.coin(rng), rpu_config=c), nn.ReLU(), nn.Flatten()]
        n, shape = co * 4, (2, ch, 3, 3)
    else:
        n = rng.randint(1, 8)
        shape = (2, n)
    o = rng.randint(1, 6)
    parts.append(rng.choice([AnalogLinear, AnalogLinearMapped])(n, o, bias=gen.coin(rng), rpu_config=c))
    if gen.coin(rng):
        parts += [nn.Tanh(), AnalogLinear(o, rng.randint(1, 4), bias=gen.coin(rng), rpu_config=c)]
    return Net(*parts), shape


def layer_weights(model):
    return [[t.get_weights(apply_weight_scaling=False)[0].clone() for t in l.analog_tiles()] for l in model.analog_layers()]


def sc_fusion(rng, mon):
    c = inference_config(rng)
    model, shape = fusion_net(rng, c)
    const = False
    for l in model.analog_layers():                     # special rows
        w, b = l.get_weights()
        r = rng.random()
        if r < .25:
            w[rng.randrange(len(w))] = rng.choice([.3, -.2])
            const = True
        elif r < .4:
            w[rng.randrange(len(w))] = 0.0
        elif r < .5 and w.numel() > 1:
            w.view(-1)[rng.randrange(w.numel())] = 0.0
        l.set_weights(w, b)
    if any(t.in_size == 1 for t in model.analog_tiles()):
        const = True
    g_max = rng.choice([None, 10, 25, 40])
    conv = None if g_max is None else FusionConductanceConverter(g_max=g_max)
    gm = g_max or 40
    model.eval()
    ref = layer_weights(model)
    x = torch.randn(shape)
    y = model(x)
    tmp = tempfile.mkdtemp(prefix="p23_")
    try:
        csv = os.path.join(tmp, "f.csv") if gen.coin(rng, .6) else None
        mon.ctx = (f"{[type(l).__name__ for l in model]} tiles {[tuple(w.shape) for l in ref for w in l]} g_max={g_max} csv={bool(csv)} "
                   f"omega={c.mapping.weight_scaling_omega} col={c.mapping.weight_scaling_columnwise}")
        data, params, state = fusion_export(model, conv, csv)
        state = copy.deepcopy(state)
        names = [n for n, _ in model.named_analog_layers()]
        mon.check(list(data) == names, "fusion:layers", f"{list(data)} {names}")
        for (n, vals), ws in zip(data.items(), ref):
            want = torch.cat([(w.abs() / w.abs().max(dim=1, keepdim=True)[0].clamp(min=1e-30) * gm).flatten() for w in ws])
            want = want * torch.cat([(w.abs().max(dim=1, keepdim=True)[0] > 1e-7).float().expand_as(w).flatten() for w in ws])
            mon.close(torch.tensor(vals), want, "fusion:conductance", atol=1e-3, rtol=1e-4, msg=n)
            mon.obs("fusion_values")
        # change, then import
        other = copy.deepcopy(model)
        for p in other.parameters():
            with torch.no_grad():
                if not getattr(p, "is_context", False) and p.numel() and "Analog" not in type(p).__name__:
                    p.add_(1.0)
        for l in other.analog_layers():
            w, b = l.get_weights()
            l.set_weights(torch.randn_like(w) * .2, b)
        src = data
        scale = None
        if csv:
            src = csv
            mon.obs("fusion_csv")
        elif gen.coin(rng):                             # uniform change of the conductances of a column is compensated
            scale = rng.uniform(.5, 1.5)
            src = {k: [v * scale for v in vals] for k, vals in data.items()}
        res = fusion_import(src, other, params, state, copy.deepcopy(conv))
        mon.check(res is other and not res.training, "fusion:eval", "not the model in eval mode")
        for a, b in zip(layer_weights(res), ref):
            for u, v in zip(a, b):
                mon.close(u, v, "fusion:restored", atol=2e-5 * float(v.abs().max()) + 1e-9, rtol=1e-5, msg=f"weights (scale {scale})")
        mon.close(res(x), y, "fusion:output", atol=2e-3 * float(y.abs().max()) + 1e-4, rtol=1e-2, msg="output of the imported model") \
            if c.forward.is_perfect else None
        mon.obs("fusion_restored")
        if const:
            mon.obs("fusion_constant_row")
        for a, b in zip(layer_weights(model), ref):
            for u, v in zip(a, b):
                mon.check(torch.equal(u, v), "fusion:source", "exported model changed")
        # individual noise on each value enters linearly
        li = rng.randrange(len(names))
        if len(ref[li]) == 1 and ref[li][0].shape[1] > 2:
            vals = list(data[names[li]])
            w = ref[li][0]
            row = rng.randrange(len(w))
            if float(w[row].abs().max()) > 1e-3:
                arr = torch.tensor(vals).reshape(w.shape)
                arr[row, 0] = 0.0                        # one device failed
                src = dict(data)
                src[names[li]] = arr.flatten().tolist()
                res = fusion_import(src, other, params, state, copy.deepcopy(conv))
                got = layer_weights(res)[li][0]
                mon.check(abs(float(got[row, 0])) < 1e-6, "fusion:device", "failed device not imported as zero")
                keep = [i for i in range(len(w)) if i != row]
                mon.close(got[keep], w[keep], "fusion:other_rows", atol=2e-5 * float(w.abs().max()) + 1e-9, rtol=1e-5, msg="other rows")
        # refusals
        if csv:
            lines = open(csv).read().split("\n")
            bad = list(lines)
            bad[rng.randrange(5)] += ",7"
            with open(csv, "w") as f:
                f.write("\n".join(bad))
            mon.raises(lambda: fusion_import(csv, copy.deepcopy(model), params, state), "fusion:header", "header mismatch accepted", FusionExportError)
            mon.obs("fusion_refused")
        fm = AnalogSequential(AnalogLinear(2, 2, rpu_config=SingleRPUConfig()))
        mon.raises(lambda: fusion_export(fm), "fusion:tile", "non-inference tile exported", TileError)
        mon.obs("fusion_refused")
    finally:
        shutil.rmtree(tmp)


# ---- summary
def sc_summary(rng, mon):
    kind = rng.choice(["inference", "torch", "single"])
    c = {"inference": InferenceRPUConfig, "torch": TorchInferenceRPUConfig, "single": SingleRPUConfig}[kind]()
    c.mapping.max_input_size, c.mapping.max_output_size = rng.choice([(0, 0), (512, 512), (4, 3), (5, 0), (0, 2), (9, 7)])
    if kind != "single":
        c.pre_post.input_range.enable = gen.coin(rng)
    B = rng.randint(1, 3)
    parts, want = [], []         # want: (class, reuse, in, out)
    if gen.coin(rng):
        ci, co, hw, st = rng.randint(1, 2), rng.randint(1, 3), rng.randint(3, 5), rng.randint(1, 2)
        conv = rng.choice([AnalogConv2d, AnalogConv2dMapped] if gen.coin(rng, .8) else [nn.Conv2d])
        kw = {} if conv is nn.Conv2d else {"rpu_config": c}
        parts += [conv(ci, co, 2, stride=st, bias=gen.coin(rng), **kw), nn.BatchNorm2d(co), nn.ReLU(), nn.Flatten()]
        o = (hw - 2) // st + 1
        shape, n = (B, ci, hw, hw), co * o * o
        want += [(B * o * o if kw else 0, list(shape), [B, co, o, o])]
        want += [(0, [B, co, o, o], [B, co, o, o])] * 2 + [(0, [B, co, o, o], [B, n])]
        lead = [B]
    else:
        lead = [B] + ([rng.randint(1, 3)] if gen.coin(rng) else [])
        n = rng.randint(1, 9)
        shape = tuple(lead) + (n,)
    o = rng.randint(1, 8)
    lc = rng.choice([AnalogLinear, AnalogLinearMapped])
    parts.append(lc(n, o, bias=gen.coin(rng), rpu_config=c))
    want.append((math.prod(lead), lead + [n], lead + [o]))
    if gen.coin(rng):
        nested = AnalogSequential(nn.Dropout(.5), AnalogLinear(o, o, rpu_config=c))
        parts.append(nested)
        want += [(0, lead + [o], lead + [o]), (math.prod(lead), lead + [o], lead + [o])]
    if gen.coin(rng, .4):
        sh = AnalogLinear(o, o, rpu_config=c)
        parts += [sh, nn.Tanh(), sh]
        want += [(math.prod(lead), lead + [o], lead + [o]), (0, lead + [o], lead + [o]), (math.prod(lead), lead + [o], lead + [o])]
        shared = True
    else:
        shared = False
    model = AnalogSequential(*parts)
    model.train(gen.coin(rng, .7))
    if gen.coin(rng, .3) and not shared:
        parts[0].eval()
    mon.ctx = f"{kind} {[type(p).__name__ for p in parts]} {shape} max={c.mapping.max_input_size},{c.mapping.max_output_size} shared={shared}"
    import snap
    modes = [m.training for m in model.modules()]
    hooks = [len(m._forward_hooks) for m in model.modules()]
    sd = copy.deepcopy({k: v for k, v in model.state_dict().items() if isinstance(v, torch.Tensor) and "analog_ctx" not in k})
    wts = [t.get_weights()[0].clone() for t in model.analog_tiles()]
    info = analog_summary(model, shape)
    text = repr(info)
    tiles = list(model.analog_tiles())
    ntiles = len({id(t) for t in tiles})
    layers = {id(l): l for l in model.modules() if type(l).__name__.startswith("Analog") and hasattr(l, "IS_CONTAINER") and not l.IS_CONTAINER}
    mon.check(info.total_tile_number == ntiles, "summary:tiles", f"{info.total_tile_number} tiles reported, {ntiles} in the model")
    mon.check(info.total_nb_analog == len(layers), "summary:layers", f"{info.total_nb_analog} analog layers reported, {len(layers)} in the model")
    mon.check(f"Total number of tiles: {ntiles}\n" in text and f"Total number of analog layers: {len(layers)}\n" in text, "summary:text", "totals not printed")
    got = [(l.reuse_factor, l.input_size, l.output_size) for l in info.layer_summary]
    mon.check(got == want, "summary:shapes", f"{got} expected {want}")
    for l in info.layer_summary:
        own = list(l.module.analog_tiles()) if l.isanalog else []
        mon.check(l.num_tiles == len(own) == len(l.tiles_info), "summary:layer_tiles", f"{l.num_tiles} {len(own)}")
        mon.check(l.name in text, "summary:text", "layer not printed")
        mapped = type(l.module).__name__.endswith("Mapped")
        for t, ti in zip(own, l.tiles_info):
            mon.check((ti.log_in_size, ti.log_out_size) == (t.in_size, t.out_size), "summary:log_shape", f"{ti.log_in_size} {t.in_size}")
            pi, po = c.mapping.max_input_size or t.in_size, c.mapping.max_output_size or t.out_size
            u = 100.0 * t.in_size * t.out_size / (pi * po) if mapped else 100
            mon.check(abs(ti.utilization - u) < 1e-6 and 0 < ti.utilization <= 100, "summary:utilization", f"{ti.utilization} expected {u}")
            mon.obs("summary_tiles")
    mon.obs("summary")
    # unchanged model
    mon.check([m.training for m in model.modules()] == modes, "summary:mode", "training mode changed")
    mon.check([len(m._forward_hooks) for m in model.modules()] == hooks, "summary:hooks", "hooks remain on the model")
    for k, v in model.state_dict().items():
        if k in sd:
            mon.check(torch.equal(v.detach(), sd[k]), "summary:state", f"{k} changed")
    for t, w in zip(tiles, wts):
        mon.check(torch.equal(t.get_weights()[0], w), "summary:state", "weights changed")
    pickle.dumps(model)
    again = analog_summary(model, shape)
    mon.check(len(again.layer_summary) == len(info.layer_summary) == len(want), "summary:again", "second summary differs")
    mon.obs("summary_unchanged")


# ---- fitting
DTOD = ("dw_min_std", "dw_min_dtod", "w_max_dtod", "w_min_dtod", "up_down_dtod", "gamma_up_dtod", "gamma_down_dtod")


def simulate(dev, pulses, w0):
    """Noise-free trace of one device from the update parameters the real tile reports for it."""
    d = copy.deepcopy(dev)
    for f in DTOD:
        if hasattr(d, f):
            setattr(d, f, 0.0)
    tile = AnalogLinear(1, 1, bias=False, rpu_config=SingleRPUConfig(device=d)).analog_module
    h = {k: float(v) for k, v in tile.get_hidden_parameters().items()}
    w, out = float(w0), [float(w0)]
    kind = type(dev).__name__
    for p in pulses[:-1]:
        if p != 0:
            up = p > 0
            s = h["dwmin_up" if up else "dwmin_down"]
            if kind != "ConstantStepDevice":
                s += h["slope_up" if up else "slope_down"] * w
            w = min(max(w + (s if up else -s), h["min_bound"]), h["max_bound"])
        out.append(w)
    return np.array(out)


def draw_device(rng):
    kind = rng.choice([ConstantStepDevice, LinearStepDevice, SoftBoundsDevice])
    kw = dict(dw_min=rng.uniform(.01, .2), up_down=rng.uniform(-.4, .4), w_max=rng.uniform(.5, 1.5), w_min=-rng.uniform(.5, 1.5))
    if kind is LinearStepDevice:
        kw.update(gamma_up=rng.uniform(0, .9), gamma_down=rng.uniform(0, .9))
    return kind(**kw)


def draw_pulses(rng):
    n = rng.randint(3, 30)
    style = rng.choice(["alternate", "ramp", "random", "pause"])
    if style == "alternate":
        p = np.array([(-1.) ** i for i in range(n)])
    elif style == "ramp":
        p = np.concatenate([np.ones(n // 2 + 1), -np.ones(n - n // 2)])
    elif style == "pause":
        p = np.array([rng.choice([-1., 0., 1.]) for _ in range(n)])
    else:
        p = np.array([rng.choice([-1., 1.]) for _ in range(n)])
    return p, style


def sc_fit(rng, mon):
    import io
    import contextlib
    from lmfit import Parameters
    dev = draw_device(rng)
    multi = gen.coin(rng, .3)
    data = [draw_pulses(rng) for _ in range(2 if multi else 1)]
    pulses = tuple(p for p, _ in data)
    ndev = rng.choice([1, 1, 2])
    w0 = [[rng.uniform(dev.w_min, dev.w_max) * .8 for _ in range(ndev)] for _ in pulses]
    resp = tuple(np.stack([simulate(dev, p, w) for w in ws], 1) for p, ws in zip(pulses, w0))
    if ndev > 1:
        pulses = tuple(np.stack([p] * ndev, 1) for p in pulses)
    else:
        resp = tuple(r[:, 0] for r in resp)
    start = copy.deepcopy(dev)
    truth = dict(dw_min=dev.dw_min, up_down=dev.up_down)
    pars = {"dw_min": (dev.dw_min * rng.uniform(.6, 1.6), 1e-3, .5)}
    if gen.coin(rng, .4):
        pars["w_max"] = dev.w_max                       # fixed
    else:
        start.up_down = 0.3 * rng.random()
        pars["up_down"] = dev.up_down                   # set by the fit
    noisy = copy.deepcopy(start)
    noisy.dw_min_std, noisy.dw_min_dtod, noisy.w_max_dtod = .3, .3, .3
    use = noisy
    for f in ("w_min_dtod", "up_down_dtod"):
        setattr(use, f, .01)
    mon.ctx = f"{type(dev).__name__} {truth} w=[{dev.w_min:.2f},{dev.w_max:.2f}] {[s for _, s in data]} ndev={ndev} pars={pars}"
    P, R = (pulses, resp) if multi else (pulses[0], resp[0])
    before = copy.deepcopy((use, P, R, pars))
    with contextlib.redirect_stdout(io.StringIO()):
        res, cfg, best = fit_measurements(pars, P, R, use, suppress_device_noise=True, n_traces=rng.choice([1, 3]),
                                          method="powell", options={"maxfev": 40})
    mon.check(repr(before[0]) == repr(use), "fit:config", "configuration given was modified")
    mon.check(before[3] == pars and all(np.array_equal(a, b) for a, b in zip(np.atleast_1d(before[1]) if not multi else before[1], P)),
              "fit:data", "data modified")
    vals = res.params.valuesdict()
    for k, v in vals.items():
        mon.check(getattr(cfg, k) == v, "fit:parameter", f"{k}: {getattr(cfg, k)} in the configuration, {v} found")
    for k, v in pars.items():
        if not isinstance(v, tuple):
            mon.check(vals[k] == v, "fit:fixed", f"{k} changed to {vals[k]}")
        else:
            mon.check(v[1] <= vals[k] <= v[2], "fit:range", f"{k}={vals[k]} outside {v}")
    found = copy.deepcopy(start)
    for k, v in vals.items():
        setattr(found, k, v)
    best = best if multi else [best]
    for b, (p, _), ws in zip(best, data, w0):
        want = np.stack([simulate(found, p, w) for w in ws], 1)
        mon.close(torch.tensor(b.astype(np.float64)), torch.tensor(want), "fit:response", atol=2e-4, rtol=1e-3, msg="best model response")
        mon.obs("response")
    err0 = sum(((np.stack([simulate(_start(start, pars), p, w) for w in ws], 1) - r.reshape(len(p), -1)) ** 2).sum()
               for (p, _), ws, r in zip(data, w0, resp))
    err1 = sum(((b - r.reshape(len(b), -1)) ** 2).sum() for b, r in zip(best, resp))
    mon.check(err1 <= err0 + 1e-6, "fit:improves", f"squared error {err1} after the fit, {err0} before")
    mon.obs("fit")
    # deviation vector with weights
    lp = Parameters()
    lp.add("dw_min", value=dev.dw_min * .9)
    sil = SingleRPUConfig(device=copy.deepcopy(start))
    for f in DTOD:
        if hasattr(sil.device, f):
            setattr(sil.device, f, 0.0)
    sil.update.desired_bl = 1
    sil.update.update_bl_management = sil.update.update_management = False
    fw = [rng.uniform(.2, 2.) for _ in range(len(data))]
    dv = model_response(lp, pulses if multi else pulses[0], resp if multi else resp[0], sil, 1,
                        tuple(np.array([f]) for f in fw) if multi else np.array([fw[0]]), verbose=False)
    d2 = copy.deepcopy(start)
    d2.dw_min = dev.dw_min * .9
    want = np.concatenate([((np.stack([simulate(d2, p, w) for w in ws], 1) - r.reshape(len(p), -1)) * f).flatten()
                           for (p, _), ws, r, f in zip(data, w0, resp, fw)])
    if ndev == 1:
        mon.close(torch.tensor(dv), torch.tensor(want), "fit:deviation", atol=4e-4, rtol=1e-3, msg="weighted deviation")
    # refusals
    mon.raises(lambda: fit_measurements({"nope": (.1, 0., 1.)}, P, R, use), "fit:unknown", "unknown parameter accepted", ConfigError)
    mon.raises(lambda: fit_measurements([1], P, R, use), "fit:type", "list of parameters accepted", ArgumentError)
    mon.raises(lambda: fit_measurements(pars, P if multi else (P,), R[0] if multi else R, use), "fit:tuple", "tuple mismatch accepted", ArgumentError)
    mon.obs("fit_refused")


def _start(dev, pars):
    d = copy.deepcopy(dev)
    for k, v in pars.items():
        setattr(d, k, v[0] if isinstance(v, tuple) else v)
    return d


def sc_pulse_response(rng, mon):
    dev = draw_device(rng)
    for f in DTOD:
        if hasattr(dev, f):
            setattr(dev, f, 0.0)
    c = SingleRPUConfig(device=dev)
    n = rng.randint(1, 4)
    mon.ctx = f"{dev}"[:200]
    steps = estimate_n_steps(c)
    gran = dev.as_bindings(c.runtime.data_type).calc_weight_granularity()
    mon.check(abs(steps - (dev.w_max - dev.w_min) / gran) <= .51, "pulse:n_steps", f"{steps}")
    w_init = rng.uniform(dev.w_min, dev.w_max) * .7
    keep = repr(c)
    tile = get_tile_for_plotting(c, n, use_cuda=False, noise_free=True, w_init=w_init)
    mon.check(repr(c) == keep, "pulse:config", "configuration modified")
    w = tile.get_weights()[0]
    mon.check(w.numel() == n and bool((w - w_init).abs().max() < 1e-5), "pulse:init", f"{w}")
    p, style = draw_pulses(rng)
    p = p.astype(np.float32)
    tr = compute_pulse_response(tile, p, use_forward=gen.coin(rng))
    want = simulate(dev, np.append(p, 0), w_init)[1:]
    mon.check(tr.shape == (len(p),) + tuple(w.shape), "pulse:shape", f"{tr.shape}")
    mon.close(torch.tensor(tr.reshape(len(p), -1)), torch.tensor(want)[:, None].expand(-1, n), "pulse:trace", atol=1e-4, rtol=1e-3, msg="trace")
    mon.obs("pulse_response")


SCENARIOS = [
    Scenario("matrix", sc_matrix, quick=300, thorough=2000),
    Scenario("ger", sc_ger, quick=150, thorough=800),
    Scenario("fusion", sc_fusion, quick=300, thorough=2000),
    Scenario("summary", sc_summary, quick=300, thorough=2000),
    Scenario("fit", sc_fit, quick=40, thorough=250),
    Scenario("pulse_response", sc_pulse_response, quick=150, thorough=800),
]
