"""Two-stage statistical oracle: a deviation is only reported when a larger fresh sample confirms it.

The compiled library draws from a list of 32768 pre-sampled numbers per generator, so the
error of any average is bounded below by the error of that list (LIST).
"""
import numpy as np

LIST = 32768
LIM = 5.5


def f_of(n, lst=LIST):
    return 1.0 / n + (1.0 / lst if lst else 0.0)


def matrix_stats(S, mean, cov, gauss=True, lst=LIST, serial=True, eps=0.0):
    """z values of a sample S (n, k) of rows claimed independent with given mean and covariance."""
    S = np.asarray(S, float)
    n, k = S.shape
    f = f_of(n, lst)
    mean = np.broadcast_to(np.asarray(mean, float), (k,))
    cov = np.asarray(cov, float)
    v = np.diag(cov).copy() if cov.ndim == 2 else np.broadcast_to(cov, (k,)).copy()
    if cov.ndim < 2:
        cov = np.diag(v)
    z = {}
    live = v > 0
    D = S - mean
    for i in np.where(~live)[0]:
        z[f"fixed[{i}]"] = 99.0 if (np.abs(D[:, i]) > eps).any() else 0.0
    if not live.any():
        return z
    D, v, c = D[:, live], v[live], cov[np.ix_(live, live)]
    sd = np.sqrt(v)
    m = D.mean(0)
    kap = 3.0 if gauss else np.maximum((D ** 4).mean(0) / np.maximum((D ** 2).mean(0), 1e-300) ** 2, 1.05)
    idx = np.where(live)[0]
    for a, i in enumerate(idx):
        z[f"mean[{i}]"] = m[a] / (sd[a] * np.sqrt(f) + eps)
    s = (D * D).mean(0)
    for a, i in enumerate(idx):
        ka = kap if gauss else kap[a]
        z[f"var[{i}]"] = (s[a] - v[a]) / (v[a] * np.sqrt((ka - 1) * f) + eps * eps)
    if len(idx) > 1 and len(idx) <= 16:
        sc = D.T @ D / n
        e = (sc - c) / np.sqrt((np.outer(v, v) + c * c) * f)
        for a in range(len(idx)):
            for b in range(a):
                z[f"cov[{idx[a]},{idx[b]}]"] = e[a, b]
    if serial and n > 50:
        U = D / sd
        for lag in (1, 2):
            q = U[:-lag].T @ U[lag:] / (n - lag) / np.sqrt(f)
            for a in range(min(len(idx), 6)):
                for b in range(min(len(idx), 6)):
                    z[f"lag{lag}[{idx[a]},{idx[b]}]"] = q[a, b]
    if gauss:
        U = D / sd
        kk = (U ** 4).mean(0) - 3
        sk = (U ** 3).mean(0)
        for a, i in enumerate(idx):
            z[f"kurt[{i}]"] = kk[a] / np.sqrt(96 * f)
            z[f"skew[{i}]"] = sk[a] / np.sqrt(15 * f)
    return z


def pool_stats(u, groups=None, gauss=True, lst=LIST):
    """z values of standardised numbers u (any shape) claimed independent N(0, 1)."""
    u = np.asarray(u, float).ravel()
    g = np.zeros(len(u), int) if groups is None else np.asarray(groups).ravel()
    z = {}
    for k in np.unique(g):
        s = u[g == k]
        if len(s) < 30:
            continue
        f = f_of(len(s), lst)
        z[f"mean[{k}]"] = s.mean() / np.sqrt(f)
        kap = 3.0 if gauss else max((s ** 4).mean() / (s ** 2).mean() ** 2, 1.05)
        z[f"var[{k}]"] = ((s * s).mean() - 1) / np.sqrt((kap - 1) * f)
        if gauss and len(s) > 300:
            z[f"kurt[{k}]"] = ((s ** 4).mean() - 3) / np.sqrt(96 * f)
            z[f"skew[{k}]"] = (s ** 3).mean() / np.sqrt(15 * f)
    if len(u) > 100:
        f = f_of(len(u), lst)
        for lag in (1, 2, 3):
            z[f"lag{lag}"] = (u[:-lag] * u[lag:]).mean() / np.sqrt(f)
    return z


def two_stage(mon, key, draw, n, stats, desc="", more=8):
    """draw(n) -> sample; stats(sample) -> {name: z}."""
    z = stats(draw(n))
    bad = [k for k, x in z.items() if not abs(x) <= LIM]
    mon.obs("statistic", len(z))
    if not bad:
        mon.check(True, key, "")
        return True
    z2 = stats(draw(more * n))
    bad = [k for k in bad if k in z2 and not abs(z2[k]) <= LIM and not z[k] * z2[k] < 0]
    return mon.check(not bad, key, lambda: f"{desc}: " + ", ".join(
        f"{k}: z={z[k]:.1f} then {z2[k]:.1f}" for k in sorted(bad, key=lambda k: -abs(z2[k]))[:4]))
