"""P24: extension operators equal their mathematical definitions."""
import math
import numpy as np
import torch
from vh import Scenario, Skip
import gen

PID = "P24"
RULE = ("the reduced precision cast equals a bit-exact float64 evaluation of its definition (round half "
        "away in the mantissa, flush below the smallest normal, infinity or clipping above the largest), "
        "the Thevenin operator equals a nodal analysis of the resistor ladder; inputs are not modified; "
        "unsupported inputs are refused; gradients of the cast pass straight through")
ASSUMPTIONS = ["8 bit exponent: values below the smallest normal may be flushed or rounded",
               "NaN is not judged", "CUDA operators are not built in this environment"]
REQUIRES = ["cast", "cast_tie", "cast_overflow", "cast_denormal", "cast_inf", "cast_grad", "cast_refused",
            "ladder", "ladder_torch", "ladder_refused", "ladder_empty"]


def ops():
    from aihwkit.extension import extension_ops
    assert extension_ops is not None, "extension not compiled"
    return extension_ops


def close(mon, got, want, key, msg, rtol=0.0, atol=0.0):
    got, want = got.detach().double(), want.detach().double()
    if not mon.check(got.shape == want.shape, key, f"{msg}: shape {tuple(got.shape)} {tuple(want.shape)}"):
        return
    bad = ~((got - want).abs() <= atol + rtol * want.abs())
    i = int(bad.reshape(-1).nonzero()[0]) if bad.any() else 0
    mon.check(not bad.any(), key, "" if not bad.any() else
              f"{msg}: {got.reshape(-1)[i].item()!r} expected {want.reshape(-1)[i].item()!r}")


# ---- reduced precision cast
def cast_ref(x, E, M, sat):
    """Returns (lo, hi): accepted interval per value, in float64 (exact)."""
    x = x.astype(np.float64)
    bias = 2 ** (E - 1) - 1
    a = np.abs(x)
    fin = np.isfinite(x) & (a > 0)
    out = np.zeros_like(a)
    _, e = np.frexp(np.where(fin, a, 1.0))
    e = e - 1
    q = np.ldexp(1.0, e - M)
    r = np.floor(a / q + 0.5) * q
    r = np.where(fin, r, 0.0)
    _, e2 = np.frexp(np.where(fin, np.where(r > 0, r, 1.0), 1.0))
    e2 = e2 - 1 + bias                          # exponent field
    vmax = (2.0 - 2.0 ** -M) * 2.0 ** float(2 ** E - 1 - bias)
    out = r.copy()
    out[fin & (e2 <= 0)] = 0.0
    if sat:
        out[fin & (e2 >= 2 ** E - 1)] = np.inf
        out[np.isinf(x)] = np.inf
    elif E < 8:
        out[fin & (e2 > 2 ** E - 1)] = vmax
        out[np.isinf(x)] = vmax
    else:
        out[fin & (e2 >= 255)] = np.inf
        out[np.isinf(x)] = np.inf
    lo, hi = out.copy(), out.copy()
    if E == 8:
        den = fin & ((e2 <= 0) | (a < 2.0 ** -126))
        step = 2.0 ** (-126 - M)
        lo[den] = 0.0
        hi[den] = (a + step)[den]
    s = np.sign(x)
    lo, hi = s * lo, s * hi
    return np.minimum(lo, hi), np.maximum(lo, hi)


def bits(rng, n):
    g = np.random.default_rng(rng.getrandbits(32))
    return g, g.integers(0, 2 ** 32, n, dtype=np.uint32)


def cast_inputs(rng, E, M, mon):
    kind = rng.choice(["bits", "range", "ties", "edges", "denormal", "unit"])
    n = rng.choice([1, 7, 64, 1000])
    g, b = bits(rng, n)
    if kind == "bits":
        x = b.view(np.float32)
    elif kind == "range":
        bias = 2 ** (E - 1) - 1
        e = g.integers(max(-126, -bias - 2), min(127, 2 ** E - bias + 2) + 1, n)
        x = np.ldexp(1.0 + g.random(n), e).astype(np.float32) * g.choice([-1, 1], n).astype(np.float32)
    elif kind == "ties":
        e = g.integers(-10, 10, n)
        k = g.integers(2 ** M, 2 ** (M + 1), n)
        half = g.choice([0.5, 0.0, 0.5 - 2.0 ** -4, 0.5 + 2.0 ** -4], n)
        x = np.ldexp((k + half), e - M).astype(np.float32) * g.choice([-1, 1], n).astype(np.float32)
        mon.obs("cast_tie")
    elif kind == "edges":
        bias = 2 ** (E - 1) - 1
        vmin = 2.0 ** (1 - bias)
        emax = 2 ** E - 1 - bias
        base = [vmin, vmin / 2, 2.0 ** min(127, emax), (2 - 2.0 ** -M) * 2.0 ** min(126, emax),
                (2 - 2.0 ** -(M + 1)) * 2.0 ** min(126, emax), (2 - 2.0 ** -M) * 2.0 ** min(126, emax - 1),
                2.0 ** min(127, emax + 1), 2.0 ** min(127, emax + 3), 3.4028235e38, np.inf, 0.0, 1.0]
        v = np.array(base, dtype=np.float32)
        v = np.concatenate([v, np.nextafter(v, np.float32(np.inf)), np.nextafter(v, np.float32(0))])
        x = np.concatenate([v, -v]).astype(np.float32)
        mon.obs("cast_overflow")
        mon.obs("cast_inf")
    elif kind == "denormal":
        x = (b & np.uint32(0x807FFFFF) | np.uint32(rng.choice([0, 0x00800000]))).view(np.float32)
        mon.obs("cast_denormal")
    else:
        x = (g.random(n) * 2 - 1).astype(np.float32)
    x = x[~np.isnan(x)]
    return x, kind


def sc_cast(rng, mon):
    op = ops()
    for _ in range(12):
        E, M, sat = rng.randint(2, 8), rng.randint(3, 22), gen.coin(rng)
        x, kind = cast_inputs(rng, E, M, mon)
        if x.size == 0:
            continue
        mon.ctx = f"E={E} M={M} sat={sat} kind={kind}"
        t = torch.from_numpy(x.copy())
        if x.size % 2 == 0 and gen.coin(rng):
            t = t.reshape(2, -1)
        if gen.coin(rng, .3):                   # storage offset
            big = torch.full((t.numel() + 9,), float("nan"))
            v = big[5:5 + t.numel()].view(t.shape)
            v.copy_(t)
            t = v
        keep = t.clone()
        if gen.coin(rng, .3):
            from aihwkit.extension.functions import FloatPrecisionCast
            y = FloatPrecisionCast(E, M, sat)(t)
        else:
            y = op.float_precision_cast(t, E, M, sat)
        mon.check(y.shape == t.shape and y.dtype == torch.float32, "cast:shape", f"{y.shape} {t.shape}")
        mon.check(torch.equal(keep.view(torch.int32), t.view(torch.int32)), "cast:modifies_input", "input modified")
        lo, hi = cast_ref(x, E, M, sat)
        yn = y.reshape(-1).numpy().astype(np.float64)
        bad = ~((yn >= lo) & (yn <= hi))
        if bad.any():
            i = int(np.nonzero(bad)[0][0])
            mon.fail(f"cast:value:{'sat' if sat else 'clip'}",
                     f"x={x[i]!r} ({x[i:i+1].view(np.uint32)[0]:#x}) gives {yn[i]!r}, expected {lo[i]!r}..{hi[i]!r}")
        mon.obs("cast")
        mon.state("format", (E, M, sat, kind))
        again = op.float_precision_cast(y.contiguous(), E, M, sat)
        same = (again == y) | (y.abs() < 2.0 ** -125)
        mon.check(bool(same.all()), "cast:idempotent", "casting twice differs")
        # monotone
        order = np.argsort(x, kind="stable")
        mon.check(bool((np.diff(yn[order]) >= 0).all() if np.isfinite(yn).all() else True),
                  "cast:monotone", "not monotone")
    return mon


def sc_cast_grad(rng, mon):
    from aihwkit.extension.functions import FloatPrecisionCast
    E, M, sat = rng.randint(2, 8), rng.randint(3, 22), gen.coin(rng)
    mon.ctx = f"E={E} M={M} sat={sat}"
    m = FloatPrecisionCast(E, M, sat)
    x = torch.randn(rng.randint(1, 5), rng.randint(1, 5), requires_grad=True)
    w = torch.randn(x.shape)
    (m(x) * w).sum().backward()
    mon.check(x.grad is not None and torch.equal(x.grad, w), "cast:grad", "gradient is not passed straight through")
    lin = torch.nn.Linear(x.shape[1], 3)
    net = torch.nn.Sequential(m, lin)
    x2 = x.detach().clone().requires_grad_(True)
    net(x2).sum().backward()
    ref = torch.ones(x.shape[0], 3) @ lin.weight.detach()
    close(mon, x2.grad, ref, "cast:grad", "gradient in a network", atol=1e-6)
    close(mon, lin.weight.grad, torch.ones(3, x.shape[0]) @ m(x.detach()), "cast:grad",
              "weight gradient behind the cast", atol=1e-5)
    mon.obs("cast_grad")


def sc_cast_refused(rng, mon):
    op = ops()
    x = torch.randn(rng.randint(2, 6), rng.randint(2, 6))
    mon.ctx = "refusal"

    def refused(key, fn, accept=None):
        try:
            y = fn()
        except (RuntimeError, TypeError, ValueError):
            mon.obs("cast_refused")
            mon.state("refused", key)
            return
        if accept is None or not accept(y):
            mon.fail("cast:" + key, "neither refused nor correct")

    ref = op.float_precision_cast(x, 5, 6, True)
    refused("noncontiguous", lambda: op.float_precision_cast(x.t(), 5, 6, True), lambda y: torch.equal(y, ref.t()))
    refused("strided", lambda: op.float_precision_cast(x[:, ::2], 5, 6, True), lambda y: torch.equal(y, ref[:, ::2]))
    refused("expanded", lambda: op.float_precision_cast(x[:1].expand(3, -1), 5, 6, True),
            lambda y: torch.equal(y, ref[:1].expand(3, -1)))
    refused("double", lambda: op.float_precision_cast(x.double(), 5, 6, True),
            lambda y: torch.equal(y.float(), ref))
    refused("half", lambda: op.float_precision_cast(x.half(), 5, 6, True))
    refused("long", lambda: op.float_precision_cast(torch.arange(4), 5, 6, True))
    for e, m in ((0, 5), (1, 5), (9, 5), (-1, 5), (5, 2), (5, 23), (5, 0), (5, -1), (64, 64)):
        refused(f"format_{e}_{m}", lambda: op.float_precision_cast(x, e, m, True))
    for sh in ((0,), (0, 3), (3, 0)):
        y = op.float_precision_cast(torch.empty(sh), 5, 6, gen.coin(rng))
        mon.check(tuple(y.shape) == sh, "cast:empty", f"{y.shape}")
    y = op.float_precision_cast(torch.tensor(1.4), 5, 3, True)
    mon.check(y.shape == () and y.item() == 1.375, "cast:scalar", f"{y}")
    mon.check(torch.equal(op.float_precision_cast(x, 5, 6, True), ref), "cast:usable", "results differ after refused calls")


# ---- ladder
def ladder(x, gp, gm, r_s, t_max, U):
    """Nodal analysis in float64. x [B,N], gp/gm [M,N] -> (vth, rth) [B,M,U]."""
    B, N = x.shape
    M = gp.shape[0]
    rw = 1e-6 * r_s
    vth = np.zeros((B, M, U))
    rth = np.zeros((B, M, U))
    for b in range(B):
        for t in range(U):
            pos, neg = x[b] / t_max * (U - 1) > t, x[b] / t_max * (U - 1) < -t
            for i in range(M):
                s = gp[i] + gm[i]
                g = s + 1e-12
                # current sources: voltage .6 / .2 for the two devices while pulsed and .4 otherwise
                num = np.where(pos, .6 * gp[i] + .2 * gm[i], np.where(neg, .6 * gm[i] + .2 * gp[i], .4 * s))
                if rw == 0:
                    vth[b, i, t] = num.sum() / g.sum()
                    rth[b, i, t] = 1.0 / g.sum()
                    continue
                gw = 1.0 / rw
                A = np.diag(g.copy())
                for k in range(N - 1):
                    A[k, k] += gw
                    A[k + 1, k + 1] += gw
                    A[k, k + 1] -= gw
                    A[k + 1, k] -= gw
                rhs = np.stack([num, np.eye(N)[-1]], 1)
                sol = np.linalg.solve(A, rhs)
                vth[b, i, t] = sol[-1, 0]
                rth[b, i, t] = sol[-1, 1] + .5 * rw
    return vth, rth


def ladder_case(rng, wire_min=None):
    B, M, N, U = rng.randint(1, 3), rng.randint(1, 4), rng.randint(1, 9), rng.choice([1, 2, 3, 8, 16])
    g = np.random.default_rng(rng.getrandbits(32))
    t_max = rng.choice([1.0, .5, 2.0, 0.25])
    if U > 1:
        # pulse lengths away from the time grid (and beyond)
        k = g.integers(-U - 1, U + 1, (B, N))
        x = (k + .5 + g.random((B, N)) * .4 - .2) / (U - 1) * t_max
        if gen.coin(rng) and U in (2, 3):           # exact ties: powers of two
            x = k / (U - 1) * t_max
    else:
        x = g.standard_normal((B, N)) * t_max
    x[g.random((B, N)) < .15] = 0.0
    gmax = 10.0 ** rng.uniform(-1, 2)
    gp, gm = g.random((M, N)) * gmax, g.random((M, N)) * gmax
    if gen.coin(rng):                               # one-sided
        m = g.random((M, N)) < .5
        gp, gm = np.where(m, gp, 0.), np.where(m, 0., gm)
    zero = g.random((M, N)) < .2
    gp, gm = np.where(zero, 0., gp), np.where(zero, 0., gm)
    for i in range(M):                              # nodal analysis needs a device
        if (gp[i] + gm[i]).max() == 0:
            gp[i, rng.randrange(N)] = gmax
    r_s = rng.choice([0.0, 0.15, 1.5, 10.0 ** rng.uniform(-1, 4)])
    return x, gp, gm, r_s, t_max, U


def sc_ladder(rng, mon):
    op = ops()
    for _ in range(3):
        x, gp, gm, r_s, t_max, U = ladder_case(rng)
        dt = rng.choice([torch.float32, torch.float64])
        xt, p, m = (torch.tensor(a, dtype=dt) for a in (x, gp, gm))
        keep = [a.clone() for a in (xt, p, m)]
        mon.ctx = f"shape {x.shape} {gp.shape} U={U} r_s={r_s} t_max={t_max} {dt}"
        y = op.thevenin_equiv(xt, p, m, r_s, t_max, U)
        for a, b in zip(keep, (xt, p, m)):
            mon.check(torch.equal(a, b), "ladder:modifies_input", "input modified")
        mon.check(tuple(y.shape) == (2, x.shape[0], gp.shape[0], U) and y.dtype == dt, "ladder:shape", f"{y.shape} {y.dtype}")
        v, r = ladder(xt.double().numpy(), p.double().numpy(), m.double().numpy(), r_s, t_max, U)
        tol = 2e-4 if dt == torch.float32 else 1e-7
        close(mon, y[0].double(), torch.tensor(v), "ladder:vth", "Thevenin voltage", rtol=tol, atol=tol)
        close(mon, y[1].double(), torch.tensor(r), "ladder:rth", "Thevenin resistance", rtol=5 * tol, atol=tol * float(r.min()))
        mon.obs("ladder")
        mon.state("ladder_case", (x.shape[0], gp.shape, U, r_s > 0, str(dt)))


def sc_ladder_torch(rng, mon):
    """Wrapper of the tiles: compiled and torch version, with segments."""
    from aihwkit.simulator.tiles.analog_mvm_irdrop_t import AnalogMVMIRDropT as A
    x, gp, gm, r_s, t_max, U = ladder_case(rng)
    x = x[:, : gp.shape[1]]
    if U < 2:
        raise Skip("one time step")
    n = x.shape[1]
    xt, p, m = (torch.tensor(a, dtype=torch.float32) for a in (x, gp, gm))
    keep = [a.clone() for a in (xt, p, m)]
    mon.ctx = f"shape {x.shape} {gp.shape} U={U} r_s={r_s} t_max={t_max}"
    glst = [p.t(), m.t()]
    v, r = ladder(xt.double().numpy(), p.double().numpy(), m.double().numpy(), r_s, t_max, U)
    for ext in (True, False):
        inp = xt
        if gen.coin(rng):
            inp = xt[:, None, :].expand(-1, 2, -1).contiguous()
        vt, rt = A._thev_equiv(inp, glst, time_steps=U, t_max=t_max, segments=n, r_s=r_s,
                               phys_input_size=n, use_extension=ext)
        vr, rr = torch.tensor(v), torch.tensor(r)
        if inp.ndim == 3:
            vr, rr = (a[:, None].expand(-1, 2, -1, -1) for a in (vr, rr))
        key = "ladder:" + ("wrapper" if ext else "torch")
        mon.check(vt.shape == vr.shape, key, f"shape {vt.shape}")
        close(mon, vt.double(), vr, key, "Thevenin voltage", rtol=2e-4, atol=2e-4)
        close(mon, rt.double(), rr, key, "Thevenin resistance", rtol=1e-3, atol=1e-4 * float(r.min()))
        mon.obs("ladder_torch")
    # lumped segments: rows of a segment are connected without wire
    seg = rng.choice([s for s in range(1, n + 1) if n % s == 0])
    per = n // seg
    if per > 1:
        vt, rt = A._thev_equiv(xt, glst, time_steps=U, t_max=t_max, segments=seg, r_s=r_s,
                               phys_input_size=n, use_extension=False)
        rw = 1e-6 * r_s * per
        xs, ps, ms = xt.double().numpy(), p.double().numpy(), m.double().numpy()
        b, t, i = rng.randrange(xs.shape[0]), rng.randrange(U), rng.randrange(ps.shape[0])
        on = xs[b] / t_max * (U - 1)
        s = ps[i] + ms[i]
        num = np.where(on > t, .6 * ps[i] + .2 * ms[i], np.where(on < -t, .6 * ms[i] + .2 * ps[i], .4 * s))
        g, num = s.reshape(seg, per).sum(1) + 1e-12, num.reshape(seg, per).sum(1)
        if rw == 0:
            vv, r_ = num.sum() / g.sum(), 1 / g.sum()
        else:
            Am = np.diag(g)
            for k in range(seg - 1):
                for a, c, sg in ((k, k, 1), (k + 1, k + 1, 1), (k, k + 1, -1), (k + 1, k, -1)):
                    Am[a, c] += sg / rw
            sol = np.linalg.solve(Am, np.stack([num, np.eye(seg)[-1]], 1))
            vv, r_ = sol[-1, 0], sol[-1, 1] + .5 * rw
        close(mon, vt[b, i, t].double(), torch.tensor(vv), "ladder:segments", "voltage", rtol=2e-4, atol=2e-4)
        close(mon, rt[b, i, t].double(), torch.tensor(r_), "ladder:segments", "resistance", rtol=1e-3, atol=0)
        mon.state("segments", (n, seg))
    for a, b in zip(keep, (xt, p, m)):
        mon.check(torch.equal(a, b), "ladder:modifies_input", "input of the wrapper modified")


def sc_ladder_refused(rng, mon):
    op = ops()
    B, M, N, U = rng.randint(2, 4), rng.randint(2, 4), rng.randint(2, 5), rng.randint(1, 5)
    x, p, m = torch.randn(B, N), torch.rand(M, N), torch.rand(M, N)
    ref = op.thevenin_equiv(x, p, m, .1, 1., U)
    mon.ctx = "refusal"

    def refused(key, *a):
        try:
            y = op.thevenin_equiv(*a)
        except (RuntimeError, TypeError, ValueError):
            mon.obs("ladder_refused")
            mon.state("refused", key)
        else:
            mon.check(key.startswith("nc") and y.shape == ref.shape and torch.allclose(y, ref),
                      "ladder:" + key, "neither refused nor correct")

    refused("dim", x[0], p, m, .1, 1., U)
    refused("dim3", x[None], p, m, .1, 1., U)
    refused("gdim", x, p[0], m[0], .1, 1., U)
    refused("size", x[:, 1:].contiguous(), p, m, .1, 1., U)
    refused("gsize0", x, p[1:].contiguous(), m, .1, 1., U)
    refused("gsize1", x, p[:, 1:].contiguous(), m, .1, 1., U)
    refused("nc_x", torch.randn(1).expand(1), p, m, .1, 1., U)
    refused("nc_x2", x.t().contiguous().t(), p, m, .1, 1., U)
    refused("nc_p", x, p.t().contiguous().t(), m, .1, 1., U)
    refused("nc_m", x, p, m.t().contiguous().t(), .1, 1., U)
    refused("dtype_g", x, p.double(), m, .1, 1., U)
    refused("dtype_m", x, p, m.double(), .1, 1., U)
    refused("dtype_x", x.double(), p, m, .1, 1., U)
    refused("dtype_long", torch.ones(B, N, dtype=torch.long), p.long(), m.long(), .1, 1., U)
    refused("half", x.half(), p.half(), m.half(), .1, 1., U)
    refused("steps", x, p, m, .1, 1., -1)
    for a in ((0, M, N, U), (B, 0, N, U), (B, M, 0, U), (B, M, N, 0)):
        y = op.thevenin_equiv(torch.randn(a[0], a[2]), torch.rand(a[1], a[2]), torch.rand(a[1], a[2]), .1, 1., a[3])
        mon.check(tuple(y.shape) == (2, a[0], a[1], a[3]), "ladder:empty", f"{a} {y.shape}")
        mon.obs("ladder_empty")
    mon.check(torch.equal(op.thevenin_equiv(x, p, m, .1, 1., U), ref), "ladder:usable", "results differ after refused calls")


SCENARIOS = [
    Scenario("cast", sc_cast, quick=300, thorough=3000),
    Scenario("cast_grad", sc_cast_grad, quick=60, thorough=400),
    Scenario("cast_refused", sc_cast_refused, quick=20, thorough=100),
    Scenario("ladder", sc_ladder, quick=200, thorough=1500),
    Scenario("ladder_torch", sc_ladder_torch, quick=200, thorough=1500),
    Scenario("ladder_refused", sc_ladder_refused, quick=20, thorough=100),
]
