"""Reference NGA-West2 models, written from the published functional forms.

Every function takes a plain dict with the scenario values given by the user
(missing or None = omitted) and returns a dict with
  ln  - natural log of the response for every row of the table
  std, tau, phi - total, between and within standard deviations (natural log)
  used - the values of omitted parameters that the model estimates
"""

import math

import numpy as np

from .tables import load

cos, sin, tan, exp, log, sqrt = (math.cos, math.sin, math.tan, math.exp, math.log, math.sqrt)
rad = math.radians


def lin(x, xs, ys):
    """Piecewise linear with constant extrapolation (ys may hold arrays)."""
    if x <= xs[0]:
        return ys[0]
    for x0, x1, y0, y1 in zip(xs, xs[1:], ys, ys[1:]):
        if x <= x1:
            w = (x - x0) / (x1 - x0)
            return y0 + (y1 - y0) * w
    return ys[-1]


def unit(x):
    return 0.0 if x < 0 else (1.0 if x > 1 else x)


def get(s, k, default=None):
    v = s.get(k)
    return default if v is None else v


# --- depth to 1.0 km/s -------------------------------------------------------


def z1_generic(v, power, vref, slope):
    return exp(slope / power * log((v**power + vref**power) / (1360.0**power + vref**power))) / 1000.0


def z1_ask14(v, region):
    return z1_generic(v, 2, 412.0, -5.23) if region == "japan" else z1_generic(v, 4, 610.0, -7.67)


def z1_cy14(v, region):
    return z1_generic(v, 2, 412.39, -5.23) if region == "japan" else z1_generic(v, 4, 570.94, -7.15)


# --- ASK14 -------------------------------------------------------------------

ASK = load("abrahamson_silva_kamai_2014.csv", 2)
ASK_PGA, ASK_PGV, ASK_PSA = 22, 23, slice(0, 22)


def ask14_width(mag, dip):
    return min(18.0 / sin(rad(dip)), 10 ** (-1.75 + 0.45 * mag))


def ask14_ztor(mag):
    return 7.8 * (1 - unit((mag - 5.0) / 2.2))


def ask14_v1():
    t = ASK.period
    return np.where(
        t <= 0.5,
        1500.0,
        np.where(t < 3.0, np.exp(-0.35 * np.log(np.where(t > 0, t, 1.0) / 0.5) + log(1500.0)), exp(-0.35 * log(3.0 / 0.5) + log(1500.0))),
    )


ASK_V1 = ask14_v1()


def ask14_site(resp, v, z1, region):
    c = ASK
    vstar = np.where(v < ASK_V1, v, ASK_V1)
    r = vstar / c.v_lin
    soft = c.a10 * np.log(r) - c.b * np.log(resp + c.c) + c.b * np.log(resp + c.c * r**c.n)
    stiff = (c.a10 + c.b * c.n) * np.log(r)
    f = np.where(r < 1, soft, stiff)
    if z1 is not None and v != 1180.0:
        zref = z1_ask14(v, region)
        coef = lin(v, [150.0, 250.0, 400.0, 700.0], [c.a43, c.a44, c.a45, c.a46])
        f = f + coef * log((z1 + 0.01) / (zref + 0.01))
    return f


def ask14(s):
    c = ASK
    m, rr, v = s["mag"], s["dist_rup"], s["v_s30"]
    region = get(s, "region", "global")
    dip = s["dip"]
    width = get(s, "width", ask14_width(m, dip) if s.get("width") is None else None)
    ztor = get(s, "depth_tor", ask14_ztor(m))
    z1 = get(s, "depth_1_0")
    c4m = np.where(m > 5, c.c4, np.where(m > 4, c.c4 - (c.c4 - 1) * (5 - m), 1.0))
    lnr = np.log(np.sqrt(rr**2 + c4m**2))
    f1 = np.where(
        m > c.m1,
        c.a5 * (m - c.m1) + c.a8 * (8.5 - m) ** 2 + (c.a2 + c.a3 * (m - c.m1)) * lnr,
        np.where(
            m > c.m2,
            c.a4 * (m - c.m1) + c.a8 * (8.5 - m) ** 2 + (c.a2 + c.a3 * (m - c.m1)) * lnr,
            c.a4 * (c.m2 - c.m1)
            + c.a8 * (8.5 - c.m2) ** 2
            + c.a6 * (m - c.m2)
            + c.a7 * (m - c.m2) ** 2
            + (c.a2 + c.a3 * (c.m2 - c.m1)) * lnr,
        ),
    )
    f1 = f1 + c.a1 + c.a17 * rr
    # style of faulting
    mech = s["mechanism"]
    ramp = unit(m - 4)
    if mech == "RS":
        f1 = f1 + c.a11 * ramp
    elif mech == "NS":
        f1 = f1 + c.a12 * ramp
    # depth to top of rupture
    f1 = f1 + c.a15 * unit(ztor / 20.0)
    # hanging wall
    if s.get("on_hanging_wall"):
        t1 = (90 - dip) / 45.0 if dip > 30 else 60.0 / 45.0
        if m >= 6.5:
            t2 = 1 + 0.2 * (m - 6.5)
        elif m > 5.5:
            t2 = 1 + 0.2 * (m - 6.5) - 0.8 * (m - 6.5) ** 2
        else:
            t2 = 0.0
        rx = s["dist_x"]
        r1 = width * cos(rad(dip))
        r2 = 3 * r1
        if rx < r1:
            q = rx / r1
            t3 = 0.25 + 1.5 * q - 0.75 * q * q
        elif rx < r2:
            t3 = 1 - (rx - r1) / (r2 - r1)
        else:
            t3 = 0.0
        t4 = 1 - ztor**2 / 100.0 if abs(ztor) <= 10 else 0.0
        if s.get("dist_y0") is None:
            t5 = unit(1 - s["dist_jb"] / 30.0)
        else:
            t5 = unit(1 - (s["dist_y0"] - rx * tan(rad(20.0))) / 5.0)
        f1 = f1 + c.a13 * (t1 * t2 * t3 * t4 * t5)
    # aftershocks
    if s.get("is_aftershock"):
        f1 = f1 + c.a14 * unit(1 - (get(s, "dist_crjb", 15) - 5) / 10.0)

    # regional term, depends on v_s30
    def regional(vs):
        if region == "taiwan":
            vstar = np.where(vs < ASK_V1, vs, ASK_V1)
            return c.a31 * np.log(vstar / c.v_lin) + c.a25 * rr
        if region == "china":
            return c.a28 * rr
        if region == "japan":
            vs_term = lin(
                vs,
                [150.0, 250.0, 350.0, 450.0, 600.0, 850.0, 1150.0],
                [c.a36, c.a37, c.a38, c.a39, c.a40, c.a41, c.a42],
            )
            return vs_term + c.a29 * rr
        return 0.0

    r = np.minimum(1180.0, ASK_V1) / c.v_lin
    ref_site = (c.a10 + c.b * c.n) * np.log(r)
    ln_ref = f1 + regional(1180.0) + ref_site
    ref = np.exp(ln_ref)
    ln = f1 + regional(v) + ask14_site(ref, v, z1, region)

    # aleatory variability
    if region == "japan":
        phi_al = c.s5 + (c.s6 - c.s5) * unit((rr - 30) / 50.0)
    elif get(s, "vs_source", "measured") == "measured":
        phi_al = c.s1m + (c.s2m - c.s1m) * unit((m - 4) / 2.0)
    else:
        phi_al = c.s1e + (c.s2e - c.s1e) * unit((m - 4) / 2.0)
    tau_al = c.s3 + (c.s4 - c.s3) * unit((m - 5) / 2.0)
    d = np.where(v < c.v_lin, c.b * ref * (1 / (ref + c.c * (v / c.v_lin) ** c.n) - 1 / (ref + c.c)), 0.0)
    var_b = np.where(phi_al > 0.4, phi_al**2 - 0.16, 0.0)
    phi = np.sqrt(var_b * (1 + d) ** 2 + 0.16)
    tau = tau_al * (1 + d)
    return dict(
        ln=ln,
        std=np.hypot(phi, tau),
        tau=tau,
        phi=phi,
        used={"width": width, "depth_tor": ztor},
        ref_ln=ln_ref,
    )


# --- BSSA14 ------------------------------------------------------------------

BSSA = load("boore_stewart_seyhan_atkinson-2014.csv", 2)
BSSA_PGV, BSSA_PGA, BSSA_PSA = 0, 1, slice(2, 107)


def bssa14_site(pga, v, z1, region):
    c = BSSA
    f_lin = c.c * np.log(np.where(v <= c.V_c, v, c.V_c) / c.V_ref)
    vv = 760.0 if v > 760 else v
    f2 = c.f_4 * (np.exp(c.f_5 * (vv - 360.0)) - np.exp(c.f_5 * 400.0))
    f_nl = c.f_1 + f2 * np.log((pga + c.f_3) / c.f_3)
    dz = 0.0 if z1 is None else z1 - z1_cy14(v, region)
    basin = c.f_6 * dz
    basin = np.where(basin < c.f_7, basin, c.f_7)
    basin = np.where(c.period < 0.65, 0.0, basin)
    return f_lin + f_nl + basin


def bssa14(s):
    c = BSSA
    m, rjb, v = s["mag"], s["dist_jb"], s["v_s30"]
    region = get(s, "region", "global")
    e = {"SS": c.e_1, "NS": c.e_2, "RS": c.e_3}.get(get(s, "mechanism", "U"), c.e_0)
    dm = m - c.M_h
    event = e + np.where(m <= c.M_h, (c.e_4 + c.e_5 * dm) * dm, c.e_6 * dm)
    if region in ("china", "turkey"):
        dc3 = c.dc_3ct
    elif region in ("italy", "japan"):
        dc3 = c.dc_3ij
    else:
        dc3 = c.dc_3global
    r = np.sqrt(rjb**2 + c.h**2)
    path = (c.c_1 + c.c_2 * (m - c.M_ref)) * np.log(r / c.R_ref) + (c.c_3 + dc3) * (r - c.R_ref)
    pga = exp((event + path)[BSSA_PGA])
    ln = event + path + bssa14_site(pga, v, get(s, "depth_1_0"), region)
    w = unit(m - 4.5)
    tau = c.tau_1 + (c.tau_2 - c.tau_1) * w
    phi = c.phi_1 + (c.phi_2 - c.phi_1) * w
    fr = np.array([unit(log(max(rjb, 1e-9) / a) / log(b / a)) for a, b in zip(c.R_1, c.R_2)])
    fv = np.array([unit(log(b / v) / log(b / a)) for a, b in zip(c.V_1, c.V_2)])
    phi = phi + c.dphi_R * fr - c.dphi_V * fv
    return dict(ln=ln, std=np.hypot(phi, tau), tau=tau, phi=phi, used={}, ref_ln=event + path)


# --- CB14 --------------------------------------------------------------------

CB = load("campbell_bozorgnia_2014.csv", 2)
CB_PGA, CB_PGV, CB_PSA = 21, 22, slice(0, 21)
CB_C, CB_N = 1.88, 1.18


def cb14_z25(v, region, z1=None):
    if v:
        a, b = (5.359, 1.102) if region == "japan" else (7.089, 1.144)
        return exp(a - b * log(v))
    a, b = (0.408, 1.745) if region == "japan" else (1.392, 1.798)
    return exp(a - b * log(z1))


def cy14_ztor(mag, mech):
    if mech == "RS":
        z = 2.704 - 1.226 * max(mag - 5.849, 0.0)
    else:
        z = 2.673 - 1.136 * max(mag - 4.970, 0.0)
    return max(z, 0.0) ** 2


def cb14_width(mag, dip, ztor, zbot=15.0):
    return min(sqrt(10 ** ((mag - 4.07) / 0.98)), (zbot - ztor) / sin(rad(dip)))


def cb14_zbor(ztor, dip, width):
    return ztor + width * sin(rad(dip))


def cb14_zhyp(mag, dip, ztor, zbor):
    f_m = -4.317 + 0.984 * mag if mag < 6.75 else 2.325
    f_d = 0.0445 * (dip - 40) if dip <= 40 else 0.0
    return ztor + exp(min(f_m + f_d, log(0.9 * (zbor - ztor))))


def cb14_site(pga, v, z25, region, ref=False):
    c = CB
    r = v / c.k_1
    if pga is None:
        soft = np.zeros_like(r)
    else:
        soft = c.c_11 * np.log(r) + c.k_2 * (np.log(pga + CB_C * r**CB_N) - log(pga + CB_C))
    f = np.where(v <= c.k_1, soft, (c.c_11 + c.k_2 * CB_N) * np.log(r))
    if region == "japan":
        if v <= 200:
            f = f + (c.c_12 + c.k_2 * CB_N) * (np.log(r) - np.log(200.0 / c.k_1))
        else:
            f = f + (c.c_13 + c.k_2 * CB_N) * np.log(r)
    if z25 <= 1:
        sj = 1.0 if region == "japan" else 0.0
        f = f + (c.c_14 + c.c_15 * sj) * (z25 - 1)
    elif z25 > 3:
        f = f + c.c_16 * c.k_3 * exp(-0.75) * (1 - exp(-0.25 * (z25 - 3)))
    return f


def cb14(s):
    c = CB
    m, rr, rjb, rx, v, dip = (s[k] for k in ("mag", "dist_rup", "dist_jb", "dist_x", "v_s30", "dip"))
    region, mech = get(s, "region", "global"), s["mechanism"]
    zbot = get(s, "depth_bot", 15.0)
    used = {}

    def est(key, fn):
        val = s.get(key)
        if val is None:
            val = used[key] = fn()
        return val

    z25 = est("depth_2_5", lambda: cb14_z25(v, region))
    ztor = est("depth_tor", lambda: cy14_ztor(m, mech))
    width = est("width", lambda: cb14_width(m, dip, ztor, zbot))
    zbor = est("depth_bor", lambda: cb14_zbor(ztor, dip, width))
    zhyp = est("depth_hyp", lambda: cb14_zhyp(m, dip, ztor, zbor))

    f = c.c_0 + c.c_1 * m
    if m > 4.5:
        f = f + c.c_2 * (m - 4.5)
    if m > 5.5:
        f = f + c.c_3 * (m - 5.5)
    if m > 6.5:
        f = f + c.c_4 * (m - 6.5)
    f = f + (c.c_5 + c.c_6 * m) * np.log(np.sqrt(rr**2 + c.c_7**2))
    w = unit(m - 4.5)
    f = f + {"RS": c.c_8, "NS": c.c_9}.get(mech, 0.0) * w
    # hanging wall
    r1 = width * cos(rad(dip))
    r2 = 62 * m - 350
    if rx < 0:
        f_rx = 0.0
    elif rx <= r1:
        q = rx / r1
        f_rx = c.h_1 + c.h_2 * q + c.h_3 * q * q
    else:
        q = (rx - r1) / (r2 - r1)
        g = c.h_4 + c.h_5 * q + c.h_6 * q * q
        f_rx = np.where(g > 0, g, 0.0)
    f_rr = 1.0 if rr == 0 else (rr - rjb) / rr
    if m <= 5.5:
        f_m = 0.0
    elif m <= 6.5:
        f_m = (m - 5.5) * (1 + c.a_2 * (m - 6.5))
    else:
        f_m = 1 + c.a_2 * (m - 6.5)
    f_z = 1 - 0.06 * ztor if ztor <= 16.66 else 0.0
    f = f + c.c_10 * f_rx * f_rr * f_m * f_z * ((90 - dip) / 45.0)
    # hypocentral depth
    f_h = 0.0 if zhyp <= 7 else (zhyp - 7 if zhyp <= 20 else 13.0)
    f = f + f_h * (c.c_17 + (c.c_18 - c.c_17) * unit(m - 5.5))
    # dip
    f = f + c.c_19 * dip * unit(5.5 - m)
    # anelastic attenuation
    dc = {"japan": c.dc_20jp, "italy": c.dc_20jp, "china": c.dc_20ch}.get(region, c.dc_20ca)
    if rr > 80:
        f = f + (c.c_20 + dc) * (rr - 80)

    ln_ref = f + cb14_site(None, 1100.0, cb14_z25(1100.0, region), region)
    pga = exp(ln_ref[CB_PGA])
    ln = f + cb14_site(pga, v, z25, region)

    w = unit(5.5 - m)
    tau_y = c.tau_2 + (c.tau_1 - c.tau_2) * w
    phi_y = c.phi_2 + (c.phi_1 - c.phi_2) * w
    al = np.where(
        v < c.k_1,
        c.k_2 * pga * (1 / (pga + CB_C * (v / c.k_1) ** CB_N) - 1 / (pga + CB_C)),
        0.0,
    )
    tp = tau_y[CB_PGA]
    tau = np.sqrt(tau_y**2 + (al * tp) ** 2 + 2 * al * c.rho_lnPGAlnY * tau_y * tp)
    pb = sqrt(phi_y[CB_PGA] ** 2 - c.phi_lnAF[CB_PGA] ** 2)
    yb = np.sqrt(phi_y**2 - c.phi_lnAF**2)
    phi = np.sqrt(yb**2 + c.phi_lnAF**2 + (al * pb) ** 2 + 2 * al * c.rho_lnPGAlnY * yb * pb)
    return dict(ln=ln, std=np.hypot(phi, tau), tau=tau, phi=phi, used=used, ref_ln=ln_ref)


# --- CY14 --------------------------------------------------------------------

CY = load("chiou_youngs_2014.csv", 2)
CY_PGA, CY_PGV, CY_PSA = 24, 25, slice(0, 24)


def cy14_amp(v):
    c = CY
    vv = 1130.0 if v > 1130 else v
    return c.phi_2 * (np.exp(c.phi_3 * (vv - 360.0)) - np.exp(c.phi_3 * 770.0))


def cy14_site(resp, v, z1, region):
    c = CY
    jp = region == "japan"
    p1, p5, p6 = (c.phi_1jp, c.phi_5jp, c.phi_6jp) if jp else (c.phi_1, c.phi_5, c.phi_6)
    f = p1 * (log(v / 1130.0) if v < 1130 else 0.0)
    f = f + cy14_amp(v) * np.log((resp + c.phi_4) / c.phi_4)
    dz = 1000.0 * (z1 - z1_cy14(v, region))
    return f + p5 * (1 - np.exp(-dz / p6))


def cy14(s):
    c = CY
    m, rr, v, dip = s["mag"], s["dist_rup"], s["v_s30"], s["dip"]
    region, mech = get(s, "region", "california"), get(s, "mechanism", "U")
    used = {}
    ztor = s.get("depth_tor")
    if ztor is None:
        ztor = used["depth_tor"] = cy14_ztor(m, mech)
    z1 = s.get("depth_1_0")
    if z1 is None:
        z1 = used["depth_1_0"] = z1_cy14(v, region)
    ch = math.cosh(2 * (m - 4.5)) if m > 4.5 else 1.0
    ln = c.c_1 + 0.0
    if mech == "RS":
        ln = ln + c.c_1a + c.c_1c / ch
    if mech == "NS":
        ln = ln + c.c_1b + c.c_1d / ch
    ln = ln + (c.c_7 + c.c_7b / ch) * (ztor - cy14_ztor(m, mech))
    ln = ln + (c.c_11 + c.c_11b / ch) * cos(rad(dip)) ** 2
    ln = ln + c.c_2 * (m - 6) + (c.c_2 - c.c_3) / c.c_n * np.log(1 + np.exp(c.c_n * (c.c_m - m)))
    dmh = np.where(m > c.c_hm, m - c.c_hm, 0.0)
    ln = ln + c.c_4 * np.log(rr + c.c_5 * np.cosh(c.c_6 * dmh))
    ln = ln + (c.c_4a - c.c_4) * np.log(np.sqrt(rr**2 + c.c_rb**2))
    dm3 = np.where(m > c.c_gamma3, m - c.c_gamma3, 0.0)
    atten = (c.c_gamma1 + c.c_gamma2 / np.cosh(dm3)) * rr
    if region in ("japan", "italy") and 6 < m < 6.9:
        atten = atten * c.gamma_ji
    elif region == "china":
        atten = atten * c.gamma_c
    ln = ln + atten
    dpp = get(s, "dpp_centered", 0.0)
    ln = ln + c.c_8 * unit(1 - max(rr - 40, 0.0) / 30.0) * unit(max(m - 5.5, 0.0) / 0.8) * np.exp(-c.c_8a * (m - c.c_8b) ** 2) * dpp
    if s.get("on_hanging_wall"):
        ln = ln + c.c_9 * cos(rad(dip)) * (c.c_9a + (1 - c.c_9a) * np.tanh(s["dist_x"] / c.c_9b)) * (
            1 - sqrt(s["dist_jb"] ** 2 + ztor**2) / (rr + 1)
        )
    ref = np.exp(ln)
    out = ln + cy14_site(ref, v, z1, region)
    s2 = c.sigma_2jp if region == "japan" else c.sigma_2
    w = unit((m - 5.0) / 1.5)
    tau0 = c.tau_1 + (c.tau_2 - c.tau_1) * w
    nl = cy14_amp(v) * ref / (ref + c.phi_4)
    inferred = get(s, "vs_source", "measured") != "measured"
    extra = c.sigma_3 if inferred else 0.7
    phi = (c.sigma_1 + (s2 - c.sigma_1) * w) * np.sqrt(extra + (1 + nl) ** 2)
    tau = np.abs(1 + nl) * tau0
    return dict(ln=out, std=np.hypot(phi, tau), tau=tau, phi=phi, used=used, ref_ln=ln)


# --- I14 ---------------------------------------------------------------------

IS, IL = load("idriss_2014-small.csv", 2), load("idriss_2014-large.csv", 2)
I_PGA, I_PSA = 0, slice(0, 22)


def i14(s):
    m, rr, v = s["mag"], s["dist_rup"], s["v_s30"]
    c = IL if m > 6.75 else IS
    ln = (
        c.alpha_1
        + c.alpha_2 * m
        + c.alpha_3 * (8.5 - m) ** 2
        - (c.beta_1 + c.beta_2 * m) * log(rr + 10)
        + c.epsilon * log(v)
        + c.gamma * rr
    )
    if s["mechanism"] == "RS":
        ln = ln + c.phi
    t = IS.period
    tt = np.where(t < 0.05, 0.05, np.where(t > 3.0, 3.0, t))
    mm = min(max(m, 5.0), 7.5)
    std = 1.18 + 0.035 * np.log(tt) - 0.06 * mm
    return dict(ln=ln, std=std, used={})
