"""Reference stable-continental, European, subduction, V/H and FAS models."""

import math

import numpy as np

from .nga2 import get, lin, unit, z1_cy14, z1_generic
from .tables import load, load_json

exp, log, sqrt = math.exp, math.log, math.sqrt
LN10 = log(10.0)

# --- ASB14 -------------------------------------------------------------------

ASB = {k: load("akkar-sandikkaya-bommer-2014-%s.csv" % k, 2) for k in ("dist_jb", "dist_hyp", "dist_epi")}


def asb14(s):
    for k in ("dist_jb", "dist_hyp", "dist_epi"):
        if s.get(k) is not None:
            r, c = s[k], ASB[k]
            break
    m, v = s["mag"], s["v_s30"]
    dm = m - c.c_1
    ln = c.a_1 + c.a_3 * (8.5 - m) ** 2 + (c.a_4 + c.a_5 * dm) * 0.5 * np.log(r * r + c.a_6**2)
    ln = ln + np.where(dm <= 0, c.a_2, c.a_7) * dm
    mech = s["mechanism"]
    if mech == "NS":
        ln = ln + c.a_8
    elif mech == "RS":
        ln = ln + c.a_9
    pga = exp(ln[0])
    q = v / 750.0
    if v <= 750:
        site = c.b_1 * log(q) + c.b_2 * (np.log(pga + c.c * q**c.n) - np.log(pga + c.c) - c.n * log(q))
    else:
        site = c.b_1 * np.log(np.where(v < c.v_con, v, c.v_con) / 750.0)
    return dict(ln=ln + site, std=c.sd_total.copy(), used={})


# --- DBC14 -------------------------------------------------------------------

DBC = load_json("derras_bard_cotton_2014.json")


def dbc14(s):
    c = DBC
    x = {
        "log10_dist_jb": math.log10(s["dist_jb"]),
        "mag": s["mag"],
        "log10_v_s30": math.log10(s["v_s30"]),
        "depth_hyp": s["depth_hyp"],
        "mechanism": {"NS": 1, "RS": 3, "SS": 4}[s["mechanism"]],
    }
    p = []
    for k in ("log10_dist_jb", "mag", "log10_v_s30", "depth_hyp", "mechanism"):
        lo, hi = c["min_max"][k]
        p.append((x[k] - lo) / (hi - lo) * 2.0 - 1.0)
    p = np.array(p, dtype=float)
    b1, b2 = np.ravel(c["b_1"]), np.ravel(c["b_2"])
    w1, w2 = np.array(c["w_1"]), np.array(c["w_2"])
    h = np.tanh((w1 * p[None, :]).sum(axis=1) + b1)
    o = (w2 * h[None, :]).sum(axis=1) + b2
    lim = np.array(c["min_max"]["log10_resp"])
    lg = lim[:, 0] + (o + 1) / 2 * (lim[:, 1] - lim[:, 0])
    ln = lg * LN10
    # m/s to cm/s for PGV (first), m/s/s to g otherwise
    ln[0] += log(100.0)
    ln[1:] -= log(9.80665)
    return dict(ln=ln, std=np.array(c["log10_std"]["total"]) * LN10, used={})


# --- AB06 --------------------------------------------------------------------

AB_BC, AB_SITE, AB_SF = load("atkinson_boore_2006-bc.csv", 2), load("atkinson_boore_2006-site.csv", 2), load("atkinson_boore_2006-sf.csv", 2)


def ab06(s):
    c = AB_BC
    m, r, v = s["mag"], s["dist_rup"], s["v_s30"]
    lg = math.log10
    f0 = lg(10.0 / r) if r < 10 else 0.0
    f1 = lg(r) if r < 70 else lg(70.0)
    f2 = lg(r / 140.0) if r > 140 else 0.0
    y = (
        c.c_1
        + c.c_2 * m
        + c.c_3 * m * m
        + (c.c_4 + c.c_5 * m) * f1
        + (c.c_6 + c.c_7 * m) * f2
        + (c.c_8 + c.c_9 * m) * f0
        + c.c_10 * r
    )
    # stress adjustment (Atkinson and Boore 2011), per doubling of stress
    sf = AB_SF
    doublings = ((3.45 - 0.2 * m) - lg(140.0)) / lg(2.0)
    doublings = min(2.0, doublings)
    v1 = sf.delta + 0.05
    v2 = 0.05 + sf.delta * np.where(m > sf.m_1, m - sf.m_1, 0.0) / (sf.m_h - sf.m_1)
    adj = doublings * np.where(v1 < v2, v1, v2)
    y = y + np.array([lin(t, list(sf.period), list(adj)) for t in c.period])
    # site
    st = AB_SITE
    pga = max(10 ** y[2], 60.0)
    if v <= 180:
        bnl = st.b_1
    elif v <= 300:
        bnl = (st.b_1 - st.b_2) * log(v / 300.0) / log(180.0 / 300.0) + st.b_2
    elif v <= 760:
        bnl = st.b_2 * log(v / 760.0) / log(300.0 / 760.0)
    else:
        bnl = 0.0 * st.b_1
    amp = (st.b_lin * log(v / 760.0) + bnl * log(pga / 100.0)) / LN10
    y = y + np.array([lin(t, list(st.period), list(amp)) for t in c.period])
    ln = y * LN10
    ln[2:] -= log(980.665)
    return dict(ln=ln, std=np.full(len(ln), 0.30 * LN10), used={})


# --- C03 ---------------------------------------------------------------------

C3 = load("campbell_2003.csv", 1)


def c03(s):
    c = C3
    m, r = s["mag"], s["dist_rup"]
    ln = c.c_1 + c.c_2 * m + c.c_3 * (8.5 - m) ** 2
    ln = ln + c.c_4 * 0.5 * np.log(r**2 + (c.c_7 * np.exp(c.c_8 * m)) ** 2) + (c.c_5 + c.c_6 * m) * r
    if r > 70:
        ln = ln + c.c_9 * log(r / 70.0)
    if r > 130:
        ln = ln + c.c_10 * log(r / 130.0)
    std = c.c_11 + c.c_12 * m if m < 7.16 else c.c_13.copy()
    return dict(ln=ln, std=std, used={})


# --- Pea11 -------------------------------------------------------------------

PZ = load("pezeshk_zandieh_tavakoli_2011.csv", 1)


def pea11(s):
    c = PZ
    m, r = s["mag"], s["dist_rup"]
    d = np.hypot(r, c.c_11)
    lg = np.log10
    y = (
        c.c_1
        + c.c_2 * m
        + c.c_3 * m**2
        + (c.c_4 + c.c_5 * m) * lg(np.where(d < 70, d, 70.0))
        + (c.c_6 + c.c_7 * m) * lg(np.where(d < 70, 1.0, np.where(d < 140, d / 70.0, 2.0)))
        + (c.c_8 + c.c_9 * m) * lg(np.where(d < 140, 1.0, d / 140.0))
        + c.c_10 * d
    )
    sm = c.c_12 * m + c.c_13 if m <= 7 else c.c_14 - 0.00695 * m
    return dict(ln=y * LN10, std=np.hypot(sm, c.sigma_reg) * LN10, used={})


# --- TP05 --------------------------------------------------------------------

TP = load("tavakoli_pezeshk_2005.csv", 1)


def tp05(s):
    c = TP
    m, r = s["mag"], s["dist_rup"]
    q = (8.5 - m) ** 2.5
    ln = c.c_1 + c.c_2 * m + c.c_3 * q
    ln = ln + c.c_9 * log(r + 4.5)
    if r > 70:
        ln = ln + c.c_10 * log(r / 70.0)
    if r > 130:
        ln = ln + c.c_11 * log(r / 130.0)
    d = np.hypot(r, c.c_5 * np.exp(c.c_6 * m + c.c_7 * q))
    ln = ln + (c.c_4 + c.c_13 * m) * np.log(d) + (c.c_8 + c.c_12 * m) * d
    std = c.c_14 + c.c_15 * m if m < 7.2 else c.c_16.copy()
    return dict(ln=ln, std=std, used={})


# --- AGA16 and PNNL ----------------------------------------------------------

BCH, PNNL = load("abrahamson_gregor_addo_2016.csv", 1), load("coppersmith_bommer_2014.csv", 1)


def _delta_c1(c, s, adjust):
    if adjust is not None:
        return np.zeros(len(c)) + np.asarray(adjust, dtype=float)
    if s["event_type"] == "intraslab":
        return np.full(len(c), -0.3)
    xs = [log(x) for x in (0.3, 0.5, 1.0, 2.0, 3.0)]
    ys = [0.2, 0.1, 0.0, -0.1, -0.2]
    return np.array([lin(log(t) if t > 0.01 else log(0.01), xs, ys) for t in c.period])


def _bch_mag(c, m, dc1):
    d = m - (7.8 + dc1)
    return np.where(d <= 0, c.t_4, c.t_5) * d + c.t_13 * (10 - m) ** 2


def _bch_site(c, pga, v):
    vs = 1000.0 if v > 1000 else v
    r = vs / c.v_lin
    stiff = (c.t_12 + c.b * c.n) * np.log(r)
    if pga is None:
        return stiff
    soft = c.t_12 * np.log(r) - c.b * np.log(pga + c.c) + c.b * np.log(pga + c.c * r**c.n)
    return np.where(v < c.v_lin, soft, stiff)


def aga16(s, adjust_c1=None, scale_atten=1.0, adjust_c4=0.0):
    c = BCH
    m = s["mag"]
    slab = s["event_type"] == "intraslab"
    r = s["dist_hyp"] if slab else s["dist_rup"]
    dc1 = _delta_c1(c, s, adjust_c1)
    slope = c.t_2 + c.t_3 * (m - 7.8)
    if slab:
        slope = slope + c.t_14
    f = c.t_1 + c.t_4 * dc1 + slope * np.log(r + (c.c_4 + adjust_c4) * np.exp(c.t_9 * (m - 6))) + scale_atten * c.t_6 * r
    f = f + _bch_mag(c, m, dc1)
    if slab:
        f = f + c.t_10 + c.t_11 * (min(s["depth_hyp"], 120.0) - 60.0)
    if s.get("tectonic_region") == "backarc":
        if slab:
            f = f + c.t_7 + c.t_8 * log(max(r, 85.0) / 40.0)
        else:
            f = f + c.t_15 + c.t_16 * log(max(r, 100.0) / 40.0)
    pga = exp((f + _bch_site(c, None, 1000.0))[0])
    return dict(ln=f + _bch_site(c, pga, s["v_s30"]), std=np.hypot(c.phi, c.tau), used={}, adjust_c1=dc1)


def pnnl14(s, scale_atten=1.0):
    c = PNNL
    m, r = s["mag"], s["dist_rup"]
    dc1 = _delta_c1(c, s, None)
    f = (
        c.t_1
        + c.t_4 * dc1
        + (c.t_2 + c.t_3 * (m - 7.8)) * np.log(r + c.c_4 * np.exp(c.t_9 * (m - 6)))
        + scale_atten * c.t_6 * r
        + _bch_mag(c, m, dc1)
        + c.t_16 * log(max(r, 40.0) / 40.0)
    )
    pga = exp((f + _bch_site(c, None, 1000.0))[0])
    return dict(ln=f + _bch_site(c, pga, s["v_s30"]), std=np.hypot(c.phi, c.tau), used={}, adjust_c1=dc1)


# --- GA11 --------------------------------------------------------------------

GA = load("gulerce_abrahamson_2011-coefficients.csv", 2)


def ga11(s):
    c = GA
    m, r, v, pga = s["mag"], s["dist_rup"], s["v_s30"], s["pga_ref"]
    out = c.a1 + c.a8 * (8.5 - m) ** 2
    dm = m - c.c1
    out = out + np.where(dm < 0, c.a4, c.a5) * dm + (c.a2 + c.a3 * dm) * 0.5 * np.log(r * r + c.c4**2)
    v1 = []
    for t in c.period:
        if t < 0:
            v1.append(862.0)
        elif t <= 0.5:
            v1.append(1500.0)
        elif t <= 1.0:
            v1.append(exp(8 - 0.795 * log(t / 0.21)))
        elif t <= 2.0:
            v1.append(exp(6.76 - 0.297 * log(t)))
        else:
            v1.append(700.0)
    vs = np.minimum(v, np.array(v1))
    q = vs / c.v_lin
    soft = -c.b * np.log(pga + c.c) + c.b * np.log(pga + c.c * q**c.n)
    out = out + c.a10 * np.log(q) - np.where(vs < c.v_lin, soft, c.b * c.n * np.log(q))
    if s["mechanism"] == "RS":
        out = out + c.a6
    elif s["mechanism"] == "NS":
        out = out + c.a7
    w = unit((m - 5) / 2.0)
    std = np.hypot(c.s1 + (c.s2 - c.s1) * w, c.s3 + (c.s4 - c.s3) * w)
    return dict(ln=out, std=std, used={})


# --- BA19 --------------------------------------------------------------------

BA = load("bayless_abrahamson_2019.csv", 2)


def ba19_z1(v):
    return z1_generic(v, 4, 610.0, -7.67)


def _ba19_core(c, s, v, z1):
    m, r = s["mag"], s["dist_rup"]
    out = c.c1 + c.c2 * (m - 6) + (c.c2 - c.c3) / c.cn * np.log(1 + np.exp(c.cn * (c.cM - m)))
    dm = np.where(m > c.chm, m - c.chm, 0.0)
    out = out + c.c4 * np.log(r + c.c5 * np.cosh(c.c6 * dm)) - (0.5 + c.c4) * 0.5 * log(r * r + 2500.0) + c.c7 * r
    out = out + c.c9 * (20.0 if s["depth_tor"] > 20 else s["depth_tor"])
    if get(s, "mechanism", "SS") == "NS":
        out = out + c.c10
    c11 = c.c11a if v <= 200 else c.c11b if v <= 300 else c.c11c if v <= 500 else c.c11d
    zz = 2.0 if z1 > 2 else z1
    return out + c11 * log((zz + 0.01) / (ba19_z1(v) + 0.01))


def ba19(s):
    v = s["v_s30"]
    used = {}
    z1 = s.get("depth_1_0")
    if z1 is None:
        z1 = used["depth_1_0"] = ba19_z1(v)
    i5 = int(np.argmin(np.abs(BA.freq_hz - 5.0)))
    n = int(np.argmin(np.abs(BA.freq_hz - 24.0))) + 1
    n = 239
    one = BA.rows(slice(170, 171))
    ln_ref = float(_ba19_core(one, s, 760.0, ba19_z1(760.0))[0])
    c = BA.rows(slice(0, n))
    out = _ba19_core(c, s, v, z1)
    ir = exp(1.238 + 0.846 * ln_ref)
    vv = 760.0 if v > 760 else v
    f2 = c.f4 * (np.exp(c.f5 * (vv - 360)) - np.exp(c.f5 * 400.0))
    fnl = f2 * np.log((ir + c.f3) / c.f3)
    i = int(np.argmin(fnl))
    fnl[i:] = fnl[i]
    pad = np.concatenate([np.zeros(3), fnl, np.zeros(3)])
    sm = sum(pad[k : k + n] for k in range(7)) / 7.0
    sm[-7:] = fnl[i]
    out = out + c.c8 * log((1000.0 if v > 1000 else v) / 1000.0) + sm
    kappa = exp(-0.4 * log(v / 760.0) - 3.5)
    tail = out[-1] - math.pi * kappa * (BA.freq_hz[n:] - BA.freq_hz[n - 1])
    w = unit((s["mag"] - 4) / 2.0)
    a = BA
    tau = a.s1 + (a.s2 - a.s1) * w
    p1 = a.s3 + (a.s4 - a.s3) * w
    p2 = a.s5 + (a.s6 - a.s5) * w
    std = np.sqrt(tau**2 + p1**2 + p2**2 + a.c1a**2)
    return dict(ln=np.concatenate([out, tail]), std=std, used=used)
