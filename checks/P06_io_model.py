"""P06: analog mat-vec follows the documented IO chain when all noise is off.

Monitor: every forward and backward of a compiled or torch tile is compared row by row with an
independent float64 model of the chain (lib/iochain.py). Per-line parameters that are drawn when
the tile is made are read from the tile and checked to be applied as documented.
"""
import copy

import numpy as np
import torch

import gen
from iochain import Chain, Tie, limit
from vh import Scenario, Skip
from aihwkit.nn import AnalogLinear
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import (
    SingleRPUConfig, InferenceRPUConfig, TorchInferenceRPUConfig, UnitCellRPUConfig, devices as D,
    compounds as C)
from aihwkit.simulator.parameters import IOParameters
from aihwkit.simulator.parameters.enums import (
    AnalogMVType, BoundManagementType as BM, NoiseManagementType as NM, WeightNoiseType)

PID = "P06"
RULE = ("one state per (tile kind, direction, management types, mv type, active non-idealities, "
        "what happened: clipping, rounds of bound management, zero input)")
ASSUMPTIONS = ["rows where a rounding or bound decision lies within float32 error are not judged",
               "per-line parameters (offsets, non-linearity, read asymmetry) are taken from the tile",
               "worst-case bound management and settings check_support refuses are only judged on "
               "the compiled tile"]
REQUIRES = ("inp_clip", "out_clip", "bm", "bm_max_factor", "bm_max_res", "zero", "ir_drop",
            "v_offset", "nonlinear", "row", "bounded", "agree", "dead")


def rand_io(rng, torch_ok=False, backward=False):
    io = IOParameters(out_noise=0.0, inp_noise=0.0)
    io.is_perfect = gen.coin(rng, 0.04)
    io.inp_res = rng.choice([-1.0, 0.0, 1 / 126, 1 / 30, 254.0, 6.0, 2.0])
    io.out_res = rng.choice([-1.0, 0.0, 1 / 510, 1 / 62, 254.0, 6.0])
    io.out_bound = rng.choice([12.0, 1.0, 0.3, 3.0, -1.0, 0.0])
    # (whether the scale belongs to the disregarded settings of a perfect pass is not specified)
    io.out_scale = 1.0 if io.is_perfect else rng.choice([1.0, 1.0, 0.5, 2.0])
    if gen.coin(rng, 0.3):
        io.inp_asymmetry = rng.choice([0.1, -0.2, 1.0])
    if gen.coin(rng, 0.3):
        io.out_asymmetry = rng.choice([0.1, -0.2, 0.5])
    types = [NM.NONE, NM.ABS_MAX, NM.ABS_MAX, NM.MAX, NM.CONSTANT]
    if not torch_ok:
        types += [NM.AVERAGE_ABS_MAX, NM.ABS_MAX_NP_SUM]
    io.noise_management = rng.choice(types)
    io.nm_thres = rng.choice([0.0, 0.0, 0.7, 2.0])
    if io.noise_management == NM.NONE:
        io.inp_bound = rng.choice([1.0, 0.5, 3.0, -1.0, 0.0])
    # (the worst case management is specified together with a noise management)
    io.bound_management = rng.choice([BM.NONE, BM.NONE, BM.ITERATIVE, BM.ITERATIVE]
                                     + ([] if torch_ok or io.noise_management == NM.NONE else [BM.ITERATIVE_WORST_CASE] * 2))
    io.max_bm_factor = rng.choice([1000, 1, 3, 8, 64])
    io.max_bm_res = rng.choice([0.25, 0.05, 1.0])
    if not torch_ok:
        io.bm_test_negative_bound = gen.coin(rng, 0.7)
        io.mv_type = rng.choice([AnalogMVType.ONE_PASS, AnalogMVType.ONE_PASS, AnalogMVType.IDEAL
                                 if gen.coin(rng, 0.1) and io.out_scale == 1 else AnalogMVType.ONE_PASS,
                                 AnalogMVType.POS_NEG_SEPARATE,
                                 AnalogMVType.POS_NEG_SEPARATE_DIGITAL_SUM])
        if gen.coin(rng, 0.25):
            io.ir_drop, io.ir_drop_g_ratio = rng.choice([1.0, 3.0]), rng.choice([571428.6, 50.0, 5.0])
        if gen.coin(rng, 0.3):
            io.out_nonlinearity, io.out_nonlinearity_std = gen.u(rng, 0.05, 2), rng.choice([0., 0.3])
        if gen.coin(rng, 0.5):
            io.slope_calibration = rng.choice([0.0, 0.5, 1.0])
        if gen.coin(rng, 0.25):
            io.v_offset_std = gen.u(rng, 0.01, 0.3)
            io.v_offset_w_min = rng.choice([-1.0, 0.0, -0.5])
        if gen.coin(rng, 0.2):
            io.r_series = gen.u(rng, 0.001, 0.2)
            io.v_offset_w_min = rng.choice([-1.0, 0.0, -0.5])
        if gen.coin(rng, 0.2):
            io.w_read_asymmetry_dtod = gen.u(rng, 0.05, 0.4)
    return io


def rand_x(rng, n, size):
    x = np.array([[rng.gauss(0, 1) for _ in range(size)] for _ in range(n)])
    for r in range(n):
        k = rng.randint(0, 9)
        if k == 0:
            x[r] = 0
        elif k == 1:
            x[r] = -np.abs(x[r])
        elif k == 2:
            x[r] *= 30
        elif k == 3:
            x[r] *= 1e-3
        elif k == 4:
            x[r, rng.randint(0, size - 1)] = 0
        elif k == 5:
            x[r] = np.abs(x[r])
        elif k == 6:
            x[r] *= 0.4
    return torch.tensor(x, dtype=torch.float32)


def rand_w(rng, o, i):
    a = rng.choice([0.3, 0.6, 1.0])
    return torch.tensor([[gen.u(rng, -a, a) for _ in range(i)] for _ in range(o)])


def pars_of(ex, tag):
    out = {}
    for n in ("v_offset", "out_nonlinearity", "w_asymmetry"):
        v = [np.asarray(val, float).ravel() for k, val in ex.items() if k.endswith(f"{tag}.{n}")
             and "transfer" not in k]
        if len(v) == 1:
            out[n] = v[0]
    return out


def make_tile(rng, kind, fio, bio, o, i):
    if kind == "torch":
        cfg = TorchInferenceRPUConfig(forward=fio)
    elif kind == "inference":
        cfg = InferenceRPUConfig(forward=fio)
        cfg.backward = bio
    elif kind == "vector":
        d = gen.no_dtod(D.ConstantStepDevice(w_min=-1, w_max=1))
        cfg = UnitCellRPUConfig(device=C.VectorUnitCell(unit_cell_devices=[d, copy.deepcopy(d)]),
                                forward=fio, backward=bio)
    else:
        cfg = SingleRPUConfig(device=D.IdealDevice() if kind == "ideal" else
                              gen.no_dtod(D.ConstantStepDevice(w_min=-1, w_max=1)),
                              forward=fio, backward=bio)
    cfg.mapping.weight_scaling_omega = 0.0
    if hasattr(cfg, "modifier"):
        cfg.drift_compensation = None
    cfg.mapping.digital_bias = True
    tile = cfg.tile_class(o, i, cfg, bias=False)
    return tile


def judge_rows(mon, key, chain, W, X, Y, tag, skip_bad=True):
    for x, y in zip(X.double().numpy(), Y.detach().double().numpy()):
        try:
            ref, tol = chain(W, x)
        except Tie:
            if chain.io.noise_management == NM.AVERAGE_ABS_MAX:
                pass   # the average was still followed
            continue
        mon.obs("row")
        for e in chain.events:
            mon.obs(e)
        bad = np.abs(y - ref) > tol
        ok = not bad.any() and np.isfinite(y).all()
        mon.check(ok, key, lambda: f"{tag}: x={x[:6]} got {y[:6]} expected {ref[:6]} (tol {tol[:3]}) "
                  f"events {sorted(chain.events)} rounds {chain.rounds}")
        mon.state(key, min(chain.rounds, 3), tuple(sorted(chain.events)))


def s_rows(rng, mon):
    kind = rng.choice(["ideal", "constant", "inference", "vector", "torch", "torch"])
    t = kind == "torch"
    fio = rand_io(rng, t)
    bio = rand_io(rng, False, True)
    o, i = rng.randint(1, 6), rng.randint(1, 7)
    if gen.coin(rng, 0.1):
        o, i = rng.randint(10, 40), rng.randint(10, 60)
    tile = make_tile(rng, kind, fio, bio, o, i)
    W = rand_w(rng, o, i)
    tile.tile.set_weights(W)
    W = tile.tile.get_weights().double().numpy()
    if not t:
        ex = tile.tile.dump_extra()
        fp, bp = pars_of(ex, "fwd"), pars_of(ex, "bwd")
        if bio.w_read_asymmetry_dtod > 0:
            # stored like the weight matrix
            bp["w_asymmetry"] = bp["w_asymmetry"].reshape(o, i).T
    else:
        fp, bp = {}, {}
    fwd, bwd = Chain(fio, fp), Chain(bio, bp, bm=False)
    desc = f"{kind} {fio.noise_management.name} {fio.bound_management.name} {fio.mv_type.name}"
    active = (kind, fio.noise_management.name, fio.bound_management.name, fio.mv_type.name)
    for _ in range(rng.randint(1, 3)):
        nb = rng.randint(1, 5)
        X = rand_x(rng, nb, i)
        shape3 = gen.coin(rng, 0.15)
        xin = X.clone()
        trans = gen.coin(rng, 0.15) and not shape3 and not t
        fwd.is_test = test = gen.coin(rng)    # (evaluation leaves the average of the noise management as it is)
        if trans:
            Y = tile.tile.forward(xin.t().contiguous(), False, True, True, test, False).t()
        elif shape3:
            Y = tile.tile.forward(xin.view(1, nb, i), False, False, False, test, False).view(nb, o)
        else:
            Y = tile.tile.forward(xin, False, False, False, test, False)
        mon.check(torch.equal(xin, X), f"input_kept:{kind}", "forward changed its input")
        judge_rows(mon, f"forward:{':'.join(active)}", fwd, W, X, Y, desc)
        if fio.bound_management == BM.NONE and not fio.is_perfect and fio.mv_type == AnalogMVType.ONE_PASS:
            b = limit(fio.out_bound)
            if fio.noise_management == NM.NONE and np.isfinite(b):
                mon.check((Y.abs() <= b * fio.out_scale * (1 + 1e-5)).all(), f"bounded:{kind}",
                          lambda: f"output {Y.abs().max()} beyond bound {b} * {fio.out_scale}")
                mon.obs("bounded")
        if not t:
            G = rand_x(rng, rng.randint(1, 4), o)
            B = tile.tile.backward(G.clone(), False, False, False, False)
            judge_rows(mon, f"backward:{kind}:{bio.noise_management.name}:{bio.mv_type.name}", bwd, W.T, G,
                       B, f"backward {kind}")
    mon.state(kind, desc, fio.inp_res > 1, fio.inp_res > 0, fio.out_res > 1, fio.out_res > 0,
              fio.inp_asymmetry, fio.out_asymmetry, fio.out_nonlinearity > 0, fio.ir_drop > 0,
              fio.v_offset_std > 0, fio.r_series > 0, fio.w_read_asymmetry_dtod > 0, fio.nm_thres)


def s_agree(rng, mon):
    """Compiled and torch tile give the same for every setting both support."""
    fio = rand_io(rng, True)
    if fio.noise_management == NM.AVERAGE_ABS_MAX:
        raise Skip()
    o, i = rng.randint(1, 8), rng.randint(1, 9)
    a = make_tile(rng, "inference", fio, IOParameters(is_perfect=True), o, i)
    b = make_tile(rng, "torch", copy.deepcopy(fio), None, o, i)
    W = rand_w(rng, o, i)
    a.tile.set_weights(W)
    b.tile.set_weights(W)
    X = rand_x(rng, rng.randint(1, 6), i)
    ya = a.tile.forward(X, False, False, False, True, False)
    yb = b.tile.forward(X, False, False, False, True, False).detach()
    Wd = W.double().numpy()
    chain = Chain(fio)
    for x, u, v in zip(X.double().numpy(), ya, yb):
        try:
            _, tol = chain(Wd, x)
        except Tie:
            continue
        bad = (u - v).abs().double().numpy() > 2 * tol
        mon.check(not bad.any(), f"agree:{fio.noise_management.name}:{fio.bound_management.name}",
                  lambda: f"compiled {u[:5]} torch {v[:5]} for x={x[:6]}")
        mon.obs("agree")
        mon.state("agree", fio.noise_management.name, fio.bound_management.name, min(chain.rounds, 3),
                  tuple(sorted(chain.events)))


def s_dead(rng, mon):
    """A layer that gets nothing: its bias comes out, it can be trained, and nothing is written."""
    kind = rng.choice(["torch", "torch", "inference", "ideal", "constant", "vector"])
    fio = rand_io(rng, kind == "torch")
    fio.v_offset_std = fio.out_nonlinearity = fio.r_series = 0.0
    bio = rand_io(rng, False, True) if gen.coin(rng) else IOParameters(is_perfect=True)
    o, i = rng.randint(1, 6), rng.randint(1, 6)
    cfg = make_tile(rng, kind, fio, bio, o, i).rpu_config
    if kind != "torch" and kind != "inference":
        cfg.update.desired_bl = rng.choice([7, 31])
    if gen.coin(rng):
        cfg.pre_post.input_range.enable = kind in ("torch", "inference")
    bias = gen.coin(rng)
    layer = AnalogLinear(i, o, bias=bias, rpu_config=cfg)
    W, b = rand_w(rng, o, i), torch.randn(o) if bias else None
    layer.set_weights(W, b)
    before, b0 = [None if t is None else t.clone() for t in layer.get_weights()]
    opt = AnalogSGD(layer.parameters(), lr=0.3)
    dims = rng.choice([(i,), (1, i), (3, i), (2, 3, i)])
    x = torch.zeros(dims)
    where = rng.choice(["input", "leaf", "relu"])
    if where != "input":
        x.requires_grad_(True)
    mon.ctx = f"{kind} {bias} {where} {tuple(dims)} {fio}"
    y = layer(torch.relu(x) if where == "relu" else x)
    mon.check(torch.equal(y.detach(), b0.expand_as(y)) if bias else not y.detach().any(),
              f"dead:{kind}:output", lambda: f"{y.flatten()[:5]} bias {b0}")
    g = torch.randn_like(y)
    y.backward(g)
    opt.step()
    w, b1 = layer.get_weights()
    mon.check(torch.equal(w, before), f"dead:{kind}:written", lambda: f"{before} became {w}")
    if bias:
        mon.close(b1, b0 - 0.3 * g.reshape(-1, o).sum(0), f"dead:{kind}:bias", atol=1e-5)
    if where != "input":
        mon.check(x.grad is not None and bool(torch.isfinite(x.grad).all()), f"dead:{kind}:gradient", lambda: str(x.grad))
        if where == "leaf" and kind != "torch" and bio.is_perfect and not cfg.pre_post.input_range.enable:
            mon.close(x.grad, g @ before, f"dead:{kind}:gradient_value", atol=1e-4)
    mon.obs("dead")
    mon.state("dead", kind, bias, where, len(dims), fio.noise_management.name, fio.bound_management.name)


def s_lines(rng, mon):
    """Per-line parameters drawn at instantiation have the documented form."""
    io = rand_io(rng)
    io.is_perfect, io.mv_type = False, AnalogMVType.POS_NEG_SEPARATE
    io.out_nonlinearity, io.out_nonlinearity_std = gen.u(rng, 0.05, 2), 0.0
    io.v_offset_std, io.w_read_asymmetry_dtod = gen.u(rng, 0.05, 0.3), gen.u(rng, 0.05, 0.3)
    o, i = rng.randint(1, 6), rng.randint(1, 6)
    tile = make_tile(rng, rng.choice(["ideal", "inference"]), io, IOParameters(is_perfect=True), o, i)
    p = pars_of(tile.tile.dump_extra(), "fwd")
    b = limit(io.out_bound)
    b = 1.0 if np.isinf(b) else b
    mon.check(len(p["v_offset"]) == o and len(p["w_asymmetry"]) == o * i and
              len(p["out_nonlinearity"]) == o, "lines:size", str({k: len(v) for k, v in p.items()}))
    mon.check(np.allclose(p["out_nonlinearity"], io.out_nonlinearity / b, rtol=1e-5), "lines:nonlinearity",
              f"{p['out_nonlinearity']} for {io.out_nonlinearity} / {b}")
    mon.check((p["v_offset"] >= 0).all(), "lines:v_offset", "negative offset")
    again = pars_of(tile.tile.dump_extra(), "fwd")
    tile.tile.forward(rand_x(rng, 2, i), False, False, False, False, False)
    mon.check(all((again[k] == p[k]).all() for k in p), "lines:fixed", "line parameters redrawn")
    mon.state("lines", o, i)


SCENARIOS = [
    Scenario("rows", s_rows, quick=2500, thorough=60000, min_evals=20000),
    Scenario("agree", s_agree, quick=1200, thorough=20000, min_evals=2000),
    Scenario("dead", s_dead, quick=500, thorough=6000, min_evals=800),
    Scenario("lines", s_lines, quick=60, thorough=500, min_evals=100),
]
