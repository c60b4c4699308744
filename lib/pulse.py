"""Independent float64 model of pulse trains and of the step of every pulsed device."""
import math

import numpy as np

from aihwkit.simulator.parameters.enums import PulseType
from vh import Skip


def granularity(kind, dev):
    """Documented weight granularity: the step at w = 0 (middle of the range)."""
    if kind in ("ConstantStep", "LinearStep", "SoftBounds", "SoftBoundsReference"):
        return dev.dw_min
    if kind in ("PowStep", "PowStepReference"):
        return dev.dw_min * 0.5 ** dev.pow_gamma
    if kind == "PiecewiseStep":
        return dev.dw_min * (dev.piecewise_up[len(dev.piecewise_up) // 2]
                             if len(dev.piecewise_up) else 1.0)
    if kind == "ExpStep":
        ub, db = min(dev.up_down, 0.0), -max(dev.up_down, 0.0)
        z = dev.b
        dn = (1 + db) * dev.dw_min * max(0, 1 - dev.A_down * math.exp(-dev.gamma_down * z))
        dup = (1 + ub) * dev.dw_min * max(0, 1 - dev.A_up * math.exp(dev.gamma_up * z))
        g = (dn + dup) / 2
        return g if g > 0 else dev.dw_min
    return None


def trains(up, x, d, lr, gran):
    """(BL, A, B): pulse train length and the probability factors of d and x."""
    lr = abs(lr)
    if up.fixed_bl or up.update_bl_management:
        bl = up.desired_bl
        a = b = math.sqrt(lr / (gran * bl))
    elif gran * up.desired_bl < lr:
        a = b = 1.0
        bl = max(math.ceil(np.float32(lr) / np.float32(gran)), 1)
    else:
        bl = up.desired_bl
        a = b = math.sqrt(lr / (gran * bl))
    if up.update_management or up.update_bl_management:
        xm, dm = np.abs(x).max(), np.abs(d).max()
        if xm == 0 or dm == 0:
            return 0, 1.0, 1.0
        dm = dm * up.um_grad_scale
        k = lr * xm * dm / gran
        if up.update_bl_management:
            bl = min(math.ceil(k), up.desired_bl)
            if abs(k - round(k)) < 1e-4 * max(1, k) and k < up.desired_bl + 1:
                raise Skip()   # the length itself is at a rounding tie
            a = b = math.sqrt(lr / (gran * bl))
        if up.update_management or up.update_bl_management:   # the latter implies the former
            if k > up.desired_bl:
                dm *= up.desired_bl / k
            a *= math.sqrt(xm / dm)
            b *= math.sqrt(dm / xm)
    return bl, a, b


def width(res):
    """Bin width, which can also be given as number of steps."""
    return 1.0 / res if res > 1 else res


def disc(p, res):
    res = width(res)
    return p if res <= 0 else np.rint(p / res) * res


def tie(p, res):
    res = width(res)
    if res <= 0:
        return np.zeros(p.shape, bool)
    q = p / res
    return np.abs(q - np.floor(q) - 0.5) < 1e-3


def det_counts(up, x, d, lr, gran):
    """Signed coincidences (positive = down) and mask of undecidable crosspoints."""
    bl, a, b = trains(up, x, d, lr, gran)
    n = np.zeros((len(d), len(x)))
    amb = np.zeros(n.shape, bool)
    if bl == 0:
        return n, amb, bl
    px, pd = np.abs(x) * b, np.abs(d) * a
    if up.pulse_type == PulseType.DETERMINISTIC_IMPLICIT:
        rx, rd = up.x_res_implicit, up.d_res_implicit
        tx, td = tie(px, rx), tie(pd, rd)
        qx, qd = np.clip(disc(px, rx), 0, 1), np.clip(disc(pd, rd), 0, 1)
    else:
        tx, td = tie(px, up.res), tie(pd, up.res)
        qx, qd = disc(px, up.res), disc(pd, up.res)
        tx, td = tx | (tie(bl * qx, 1.0)), td | (tie(bl * qd, 1.0))
        qx = np.clip(np.rint(bl * qx), 0, bl) / bl
        qd = np.clip(np.rint(bl * qd), 0, bl) / bl
    v = np.outer(qd, qx) * bl
    amb = tie(v, 1.0) | tx[None, :] | td[:, None]
    n = np.rint(v) * np.outer(np.sign(d), np.sign(x)) * (1 if lr > 0 else -1)
    return n, amb & (np.outer(np.abs(d), np.abs(x)) > 0), bl


def step(kind, dev, h, w, sign):
    """One pulse on every crosspoint; sign > 0 is down. w: float64 array."""
    up, dn = h["dwmin_up"], h["dwmin_down"]
    lo, hi = h["min_bound"], h["max_bound"]
    down = sign > 0
    if kind == "ConstantStep":
        nw = np.where(down, w - dn, w + up)
    elif kind in ("LinearStep", "SoftBounds", "SoftBoundsPmax"):
        nw = np.where(down, w - (h["slope_down"] * w + dn), w + (h["slope_up"] * w + up))
    elif kind == "SoftBoundsReference":
        p = w + h["reference"]
        ad = np.where(lo < 0, p / np.where(lo < 0, lo, 1.0), 0.0)
        au = np.where(hi > 0, p / np.where(hi > 0, hi, 1.0), 0.0)
        p = np.where(down, p - dn * (1 - ad), p + up * (1 - au))
        return np.clip(p, lo, hi) - h["reference"]
    elif kind == "ExpStep":
        r = hi - lo
        z = 2 * w / np.where(r > 0, r, 1.0) * dev.a + dev.b
        yd = np.maximum(1 - dev.A_down * np.exp(-dev.gamma_down * z), 0)
        yu = np.maximum(1 - dev.A_up * np.exp(dev.gamma_up * z), 0)
        nw = np.where(down, w - yd * dn, w + yu * up)
        return np.where(r > 0, np.clip(nw, lo, hi), w)
    elif kind in ("PowStep", "PowStepReference"):
        ref = h["reference"] if kind == "PowStepReference" else 0.0
        r = hi - lo
        rr = np.where(r > 0, r, 1.0)
        p = w + ref
        with np.errstate(invalid="ignore"):
            nd = p - dn * np.power(np.maximum((p - lo) / rr, 0), h["gamma_down"])
            nu = p + up * np.power(np.maximum((hi - p) / rr, 0), h["gamma_up"])
        nw = np.clip(np.where(down, nd, nu), lo, hi) - ref
        return np.where(r > 0, nw, w)
    elif kind == "PiecewiseStep":
        pu = np.array(dev.piecewise_up or [1.0])
        pd = np.array(dev.piecewise_down or [1.0])
        n = len(pu) - 1
        r = hi - lo
        if n <= 0:
            iu, idn = pu[0], pd[0]
        else:
            s = np.maximum((w - lo) / np.where(r > 0, r, 1.0) * n, 0.0)
            k = np.minimum(np.floor(s), n - 1).astype(int)
            t = np.minimum(s - k, 1.0)
            iu = (1 - t) * pu[k] + t * pu[k + 1]
            idn = (1 - t) * pd[k] + t * pd[k + 1]
        nw = np.where(down, w - idn * dn, w + iu * up)
    else:
        raise AssertionError(kind)
    return np.clip(nw, lo, hi)
