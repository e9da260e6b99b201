"""Reference correlation models, element by element in plain Python floats."""

import math

import numpy as np

from . import tables


def bj08(t1, t2):
    """Baker and Jayaram (2008), the algorithm of their Section on correlations."""
    lo, hi = (t1, t2) if t1 <= t2 else (t2, t1)
    c1 = 1 - math.cos(math.pi / 2 - 0.366 * math.log(hi / max(lo, 0.109)))
    c2 = 0.0
    if hi < 0.2:
        c2 = 1 - 0.105 * (1 - 1 / (1 + math.exp(100 * hi - 5))) * ((hi - lo) / (hi - 0.0099))
    c3 = c2 if hi < 0.109 else c1
    c4 = c1 + 0.5 * (math.sqrt(c3) - c3) * (1 + math.cos(math.pi * lo / 0.109))
    if hi <= 0.109:
        return c2
    if lo > 0.109:
        return c1
    if hi < 0.2:
        return min(c2, c4)
    return c4


def lin(x, xs, ys):
    """Linear interpolation, held constant outside."""
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    i = 0
    while not xs[i] <= x <= xs[i + 1]:
        i += 1
    return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])


def cms(periods, ln_psas, ln_stds, period, target):
    eps = (target - lin(period, periods, ln_psas)) / lin(period, periods, ln_stds)
    rho = [bj08(t, period) for t in periods]
    mean = [m + s * r * eps for m, s, r in zip(ln_psas, ln_stds, rho)]
    std = [s * math.sqrt(max(0.0, 1 - r * r)) for s, r in zip(ln_stds, rho)]
    return mean, std, rho


def cmsv(periods, ln_psas, ln_stds, conds):
    """Conditional Gaussian; conds[i] is None where the period is free.

    Returns mean, variance and the condition number of the conditioning block.
    """
    n = len(periods)
    c = [i for i in range(n) if conds[i] is not None]
    z = [(conds[i] - ln_psas[i]) / ln_stds[i] for i in c]
    cc = np.array([[bj08(periods[i], periods[j]) for j in c] for i in c])
    mean, var = list(ln_psas), [s * s for s in ln_stds]
    if not c:
        return mean, var, 1.0
    for i in range(n):
        if conds[i] is not None:
            mean[i], var[i] = conds[i], 0.0
            continue
        r = np.array([bj08(periods[i], periods[j]) for j in c])
        w = np.linalg.solve(cc, r)
        mean[i] = ln_psas[i] + ln_stds[i] * float(w @ z)
        var[i] = ln_stds[i] ** 2 * (1 - float(w @ r))
    return mean, var, float(np.linalg.cond(cc))


BA = tables.load("bayless_abrahamson_2018.csv", 3)
BA_F = BA.freq_hz
BA_STDS = ("tau", "phi_s2s", "phi_s", "sigma")


def ba18(f1, f2):
    if f1 == f2:
        return 1.0
    lo = min(f1, f2)
    a, b, c, d = (lin(lo, BA_F, getattr(BA, k)) for k in "ABCD")
    r = abs(math.log(f1 / f2))
    return math.tanh(a * math.exp(b * r) + c * math.exp(d * r))


def ba18_std(f, component):
    return lin(f, BA_F, getattr(BA, component))


PJS = tables.load_json("stafford_2017.json")


def _sig(f, a0, a1, a2):
    return a0 / (1 + (f / a1) ** (-a2))


def _nugget(base, eta, gamma, lo, hi):
    rho = (1 - eta) * (hi / lo) ** gamma
    e = (hi / lo) ** (-PJS["nugget_exp"])
    return rho * (1 - e) + e


def pjs17(f1, f2, mag):
    """Between-event, between-site and within-event correlations."""
    if f1 == f2:
        return 1.0, 1.0, 1.0
    p = PJS
    lo, hi = min(f1, f2), max(f1, f2)
    fc = 10 ** (p["CF_C1"] - p["CF_C2"] * mag)
    x = lo / fc
    ge = p["gamma_E0"] + _sig(x, p["gamma_E1"], p["gamma_E2"], p["gamma_E3"]) + p["gamma_E4"] * math.log(x / p["gamma_E2"])
    e = (hi / lo) ** ge
    eta = p["eta_S0"] * math.log(max(min(lo, p["eta_S_FREF2"]), p["eta_S_FREF1"]) / p["eta_S_FREF1"])
    eta += p["eta_S1"] * math.log(max(lo, p["eta_S_FREF2"]) / p["eta_S_FREF2"])
    gs = p["gamma_S0"] + _sig(lo, *(p["gamma_S%d" % i] for i in (1, 2, 3))) + _sig(lo, *(p["gamma_S%d" % i] for i in (4, 5, 6)))
    s = _nugget(None, eta, gs, lo, hi)
    eta = _sig(lo, *(p["eta_A%d" % i] for i in (0, 1, 2))) * (1 + _sig(lo, *(p["eta_A%d" % i] for i in (3, 4, 5))))
    fr = p["gamma_A_FREF"]
    m = min(lo, fr)
    ga = -p["gamma_A0"] - p["gamma_A1"] * m / (m + p["gamma_A2"] * (1 - m / fr)) + p["gamma_A3"] * math.log(max(lo, fr) / fr) ** 2
    a = _nugget(None, eta, ga, lo, hi)
    return e, s, a


def pjs17_std(f):
    p = PJS
    e = p["sigma_E0"] + _sig(f, *(p["sigma_E%d" % i] for i in (1, 2, 3))) + _sig(f, *(p["sigma_E%d" % i] for i in (4, 5, 6)))
    s = p["sigma_S0"] + _sig(f, *(p["sigma_S%d" % i] for i in (1, 2, 3))) + _sig(f, *(p["sigma_S%d" % i] for i in (4, 5, 6)))
    a = p["sigma_A0"] + p["sigma_A1"] * math.log(max(f, p["sigma_A_FREF"]) / p["sigma_A_FREF"]) ** 2
    return e, s, a


def pjs17_cov(freqs, mag, stds):
    n = len(freqs)
    out = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            out[i, j] = sum(r * stds[k][i] * stds[k][j] for k, r in enumerate(pjs17(freqs[i], freqs[j], mag)))
    return out
