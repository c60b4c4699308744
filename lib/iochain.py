"""Independent float64 model of the analog mat-vec chain (one vector at a time).

The systematic parameters of a tile (voltage offsets, non-linearity and read asymmetry of each
line) are data of the tile and given; every computation is done here from the documentation.
"""
import numpy as np

from aihwkit.simulator.parameters.enums import (
    AnalogMVType, BoundManagementType as BM, NoiseManagementType as NM)

NM_DECAY, NM_WMAX = 1e-3, 0.6     # not settable from Python


class Tie(Exception):
    """The result depends on rounding errors."""


def f32(v):
    return float(np.float32(v))


def resolution(res, bound):
    """Absolute step, 0 for no discretization."""
    if res <= 0 or bound <= 0:
        return 0.0
    return f32(1.0 / res if res > 1 else res) * 2.0 * f32(bound)


def limit(bound):
    return f32(bound) if bound > 0 else np.inf


class Chain:
    """io: IOParameters, pars: dict of the per-line values, transposed: backward."""

    def __init__(self, io, pars=None, bm=True):
        self.io, self.pars = io, pars or {}
        self.bm = io.bound_management if bm else BM.NONE
        self.aux = -1.0
        self.is_test = False
        self.rounds = 0
        self.events = set()

    def nm(self, x, kind=None):
        io = self.io
        kind = kind or io.noise_management
        thres = f32(io.nm_thres)
        amax = np.abs(x).max()
        cap = (lambda v: min(v, thres)) if thres > 0 else (lambda v: v)
        if kind == NM.NONE:
            return None
        if kind == NM.ABS_MAX:
            return cap(amax)
        if kind == NM.MAX:
            return cap(x.max())
        if kind == NM.CONSTANT:
            return thres if thres > 0 else 1.0
        if kind == NM.AVERAGE_ABS_MAX:
            if self.is_test:
                return amax if self.aux < 0 else self.aux
            self.aux = amax if self.aux < 0 else self.aux * (1 - NM_DECAY) + NM_DECAY * amax
            return self.aux
        if kind == NM.ABS_MAX_NP_SUM:
            s = max(x[x > 0].sum(), -x[x < 0].sum())
            b = limit(io.out_bound)
            v = s * NM_WMAX / (1.0 if np.isinf(b) else b)
            r = resolution(io.inp_res, io.inp_bound)
            m = cap(amax)
            if r > 0:
                v = min(m / r * f32(io.max_bm_res), v)
            return max(m, v)
        raise AssertionError(kind)

    def dac(self, x):
        io = self.io
        r, b = resolution(io.inp_res, io.inp_bound), limit(io.inp_bound)
        if r > 0:
            q = x / r
            if (np.abs(q - np.floor(q) - 0.5) < 2e-4 + 1e-6 * np.abs(q)).any():
                raise Tie()
            x = np.rint(q) * r
        if (np.abs(x) > b).any():
            self.events.add("inp_clip")
        x = np.clip(x, -b, b)
        return np.where(x < 0, x * (1 - f32(io.inp_asymmetry)), x)

    def single(self, W, x):
        """Analog current of one pass. W: (out, in)."""
        io = self.io
        y = W @ x
        self.mag = max(self.mag, (np.abs(W) @ np.abs(x)).max())
        if io.ir_drop > 0:
            n = len(x)
            a = np.abs(W) @ np.abs(x) * n / f32(io.ir_drop_g_ratio)
            c = a * (a * (0.05 * a - 0.2) + 0.5)
            p = 1 - np.arange(n) / n
            d = c * f32(io.ir_drop)
            self.mag = max(self.mag, (np.abs(d) * (np.abs(W) @ np.abs(x))).max())
            y = y - d * (W @ (x * (1 - p * p)))
            self.events.add("ir_drop")
        if io.v_offset_std > 0 or io.r_series > 0:
            v = np.asarray(self.pars["v_offset"], float)
            rs = max(f32(io.r_series), 0.0)
            ref = -f32(io.v_offset_w_min) * x.sum()
            pos = y + ref
            self.mag = max(self.mag, 3 * abs(ref), 3 * np.abs(pos).max())
            y = (1 - v) * pos / (1 + rs * np.abs(pos)) - (1 + v) * ref / (1 + rs * np.abs(ref))
            self.events.add("v_offset")
        return y

    def adc(self, y):
        io = self.io
        if io.out_nonlinearity > 0 or io.r_series > 0:
            n = np.abs(np.asarray(self.pars["out_nonlinearity"], float))
            fac = 1.0
            if io.slope_calibration > 0:
                b = limit(io.out_bound)
                fac = (1 + (n.mean() + f32(io.r_series)) * f32(io.slope_calibration)
                       * (1.0 if np.isinf(b) else b)) ** 2
            self.gain = max(self.gain, fac)
            y = fac * y / (1 + n * np.abs(y))
            self.events.add("nonlinear")
        y = np.where(y < 0, y * (1 - f32(io.out_asymmetry)), y)
        r, b = resolution(io.out_res, io.out_bound), limit(io.out_bound)
        tie = np.zeros(y.shape, bool)
        if r > 0:
            q = y / r
            tie = np.abs(q - np.floor(q) - 0.5) < 1e-3 + 3e-6 * np.abs(q)
            y = np.rint(q) * r
        ok = True
        if np.isfinite(b):
            edge = np.abs(np.abs(y) - b) < 1e-5 * b
            if self.bm != BM.NONE and (edge.any() or (tie & (np.abs(y) > b - 1.5 * r)).any()):
                raise Tie()
            over = (y > b) | ((y < -b) & bool(io.bm_test_negative_bound))
            ok = not over.any()
            if (np.abs(y) > b).any():
                self.events.add("out_clip")
            y = np.clip(y, -b, b)
        return y, np.where(tie, r, 0.0), ok

    def analog(self, W, x, s):
        """Returns (y, tolerance, bound test passed) before the scaling is undone."""
        io = self.io
        x = self.dac(x * s)
        if io.mv_type == AnalogMVType.ONE_PASS:
            return self.adc(self.single(W, x))
        Wn = W * np.asarray(self.pars["w_asymmetry"], float).reshape(W.shape) \
            if io.w_read_asymmetry_dtod > 0 else W
        yn = self.single(Wn, np.where(x < 0, x, 0.0))
        yp = self.single(W, np.where(x > 0, x, 0.0))
        if io.mv_type == AnalogMVType.POS_NEG_SEPARATE:
            return self.adc(yn + yp)
        yn, tn, okn = self.adc(yn)
        yp, tp, okp = self.adc(yp)
        return yn + yp, tn + tp, okn and okp

    def __call__(self, W, x):
        """(y, tolerance) of one vector."""
        io = self.io
        self.events = set()
        if io.is_perfect or io.mv_type == AnalogMVType.IDEAL:
            self.events.add("perfect")
            y = f32(io.out_scale) * (W @ x)
            return y, np.full(y.shape, 2e-6 * (np.abs(W) @ np.abs(x)).max())
        nm = self.nm(x)
        if not np.abs(x).any():
            self.events.add("zero")
        red = 0.5
        self.rounds = 0
        self.mag, self.gain = 0.0, 1.0
        while True:
            red *= 2
            if self.rounds == 1 and self.bm == BM.ITERATIVE_WORST_CASE \
                    and io.noise_management != NM.ABS_MAX_NP_SUM:
                nm = self.nm(x, NM.ABS_MAX_NP_SUM)
                red = 1.0
            self.rounds += 1
            s = 1.0 if nm is None or nm <= 0 else 1.0 / nm
            if self.bm != BM.NONE:
                s /= red
            y, tol, ok = self.analog(W, x, s)
            if self.bm == BM.NONE or ok:
                break
            r = resolution(io.inp_res, io.inp_bound)
            if int(red) > io.max_bm_factor:
                self.events.add("bm_max_factor")
                break
            if r > 0:
                m = f32(io.max_bm_res) / r
                if abs(red - m) < 1e-5 * m:
                    raise Tie()
                if red > m:
                    self.events.add("bm_max_res")
                    break
        if self.rounds > 1:
            self.events.add("bm")
        out = f32(io.out_scale) / s
        # rounding error of a float32 accumulation
        eps = 4e-6 * max((np.abs(W) @ np.abs(x)).max() * abs(f32(io.out_scale)), self.mag * self.gain * abs(out)) \
            + 1e-6 * np.abs(y * out)
        return y * out, tol * abs(out) * 1.001 + eps
