"""Reference duration models."""

import math

import numpy as np

from .nga2 import get, lin, z1_cy14

exp, log = math.exp, math.log

# --- AS96 ---------------------------------------------------------------------

AS96_I = [0.10, 0.15, 0.20, 0.25, 0.30, 0.35, 0.40, 0.45, 0.50, 0.55, 0.60, 0.65, 0.70, 0.75, 0.80, 0.85, 0.90, 0.95]
AS96_S = [0.843, 0.759, 0.713, 0.691, 0.674, 0.660, 0.646, 0.636, 0.628, 0.616, 0.605, 0.594, 0.582, 0.565, 0.545, 0.528, 0.510, 0.493]


def as96_incr(i):
    if not (0.10 <= i <= 0.95):
        return math.nan
    r = log((i - 0.05) / (1 - i))
    return -0.532 + r * (0.552 - 0.0262 * r)


def as96_base(s):
    m = s["mag"]
    stress = exp(5.204 + 0.851 * (m - 6))
    f = (stress / 10 ** (1.5 * m + 16.05)) ** (1 / 3.0) * (4.9e6 * 3.2)
    d = 1 / f
    if s["site_cond"] == "soil":
        d += 0.805
    if s["dist_rup"] > 10:
        d += 0.063 * (s["dist_rup"] - 10)
    return log(d)


def as96(s, i, n_std=0.0):
    if not (0.10 <= i <= 0.95):
        return math.nan
    return exp(as96_base(s) + as96_incr(i) + n_std * lin(i, AS96_I, AS96_S))


# --- KS06 ---------------------------------------------------------------------


def ks06(s):
    m, r, v = s["mag"], s["dist_rup"], s["v_s30"]
    out = []
    for b1, b2, path, c1, c2 in (
        (6.02, 0.0, 0.07, 0.82, -0.0013),
        (2.79, 0.82, 0.15, 3.00, -0.0041),
        (5.46, 0.0, 0.10, 1.40, -0.0022),
        (1.53, 1.34, 0.15, 3.99, -0.0062),
    ):
        stress = exp(b1 + b2 * (m - 6))
        src = 1 / ((4.9e6 * 3.2) * (stress / 10 ** (1.5 * m + 16.05)) ** (1 / 3.0))
        out.append(src + path * r + c1 + c2 * v)
    return out, [0.57, 0.47, 0.66, 0.52]


# --- AS16 ---------------------------------------------------------------------


def as16(s):
    m, r, v = s["mag"], s["dist_rup"], s["v_s30"]
    mech = s.get("mechanism")
    b0 = {None: (1.280, 2.182, 0.8822), "NS": (1.555, 2.541, 1.409), "RS": (0.7806, 1.612, 0.7729), "SS": (1.279, 2.302, 0.8804)}[mech]
    b1 = {None: (5.576, 3.628, 6.182), "NS": (4.992, 3.170, 4.778), "RS": (7.061, 4.536, 6.579), "SS": (5.578, 3.467, 6.188)}[mech]
    b2 = (0.9011, 0.9443, 0.7414)
    b3 = (-1.684, -3.911, -3.164)
    m1, m2 = (5.35, 5.2, 5.2), (7.15, 7.4, 7.4)
    c1, c2, c3 = (0.1159, 0.3165, 0.0646), (0.1065, 0.2539, 0.0865), (0.0682, 0.0932, 0.0373)
    c4, c5, vr = (-0.2246, -0.3183, -0.4237), (0.0006, 0.0006, 0.0005), (368.2, 369.9, 369.6)
    t1, t2 = (0.28, 0.25, 0.30), (0.25, 0.19, 0.19)
    p1, p2 = (0.54, 0.43, 0.56), (0.41, 0.35, 0.45)
    dur, std = [], []
    for k in range(3):
        if m <= m1[k]:
            src = b0[k]
        else:
            ln_s = b1[k] + b2[k] * ((m if m < m2[k] else m2[k]) - 6)
            if m > m2[k]:
                ln_s += b3[k] * (m - m2[k])
            src = 1 / (4.9e6 * 3.2 * (exp(ln_s) / 10 ** (1.5 * m + 16.05)) ** (1 / 3.0))
        if r <= 10:
            path = c1[k] * r
        elif r <= 50:
            path = c1[k] * 10 + c2[k] * (r - 10)
        else:
            path = c1[k] * 10 + c2[k] * 40 + c3[k] * (r - 50)
        site = c4[k] * log((v if v < 600 else 600.0) / vr[k])
        z1 = s.get("depth_1_0")
        if z1 is not None:
            dz = 1000.0 * (z1 - z1_cy14(v, "california"))
            site += c5[k] * (dz if dz <= 200 else 200.0)
        dur.append((src + path) * exp(site))
        wt = min(max((m - 6.5) / 0.5, 0.0), 1.0)
        wp = min(max((m - 5.5) / 0.25, 0.0), 1.0)
        std.append(math.hypot(t1[k] + (t2[k] - t1[k]) * wt, p1[k] + (p2[k] - p1[k]) * wp))
    return dur, std


# --- PR23 ---------------------------------------------------------------------

E = [round(0.05 * (i + 1), 2) for i in range(19)]
P23 = dict(
    cmed=[0, 0.157, 0.264, 0.342, 0.402, 0.455, 0.505, 0.553, 0.603, 0.654, 0.71, 0.769, 0.835, 0.912, 1, 1.114, 1.273, 1.522, 2.014],
    a0=[0, -0.010798, -0.016831, -0.012831, 0.002943, 0.02267, 0.047579, 0.076718, 0.107148, 0.136351, 0.115442, 0.092914, 0.067803, 0.034992, 0, -0.044725, -0.112447, -0.209689, -0.38092],
    r1=[0, 0.0007, 0.0012, 0.0014, 0.0015, 0.0015, 0.0014, 0.0013, 0.0012, 0.001, 0.0008, 0.0007, 0.0005, 0.0002, 0, -0.0003, -0.0006, -0.001, -0.0015],
    v1=[0, 0.039, 0.0656, 0.0852, 0.1001, 0.1134, 0.1259, 0.1377, 0.1501, 0.1587, 0.1365, 0.1105, 0.08, 0.0428, 0, -0.0512, -0.1197, -0.2111, -0.3589],
    std=[0, 0.156, 0.192, 0.205, 0.206, 0.202, 0.195, 0.187, 0.177, 0.163, 0.146, 0.125, 0.097, 0.06, 0, 0.089, 0.21, 0.434, 0.907],
    rho=[0, -0.083, 0.022, 0.078, 0.113, 0.137, 0.154, 0.167, 0.178, 0.188, 0.198, 0.206, 0.209, 0.204, 0, -0.301, -0.361, -0.403, -0.452],
)


def power(base, expo):
    """Real power; NaN where it is undefined."""
    return base**expo if base >= 0 else math.nan


def pr23(s, energy=0.75):
    m, r, v = float(s["mag"]), float(s["dist_rup"]), float(s["v_s30"])
    if r <= 10:
        c2 = 0.41 + (0.455 - 0.41) * r / 10
    elif r <= 42:
        c2 = 0.455 + (0.54 - 0.455) * (r - 10) / 32
    else:
        c2 = 0.54 + (0.575 - 0.54) * (r - 42) / 158
    if m < 6.75:
        c2 = 0.515
    med = 3.655 * 10 ** ((m - 6.75) * c2)
    med += 0.041 * r
    if r < 44:
        med += 0.063 * r
    elif r < 130:
        med += 0.063 * 44 + 0.034 * (r - 44)
    else:
        med += 0.063 * 44 + 0.034 * 86 + 0.083 * (r - 130)
    if v < 200:
        sv = 1.11
    elif v < 275:
        sv = 0.565 + (1.11 - 0.565) * (log(275) - log(v)) / (log(275) - log(200))
    elif v < 1900:
        sv = 0.565
    elif v < 2000:
        sv = 0.565 * (log(2000) - log(v)) / (log(2000) - log(1900))
    else:
        sv = 0.0
    med += -0.619 * log(v / 2000) * exp(0.278 * sv)
    sig = 0.537 - 0.093 * (r / 100) + 0.0278 * (r / 100) ** 2 - 0.0372 * m + 0.00179 * m * m
    sig += min(0.0206 * (200 / v) ** 2.401, 0.0419)
    i = min(range(19), key=lambda k: abs(E[k] - energy))
    c = P23["cmed"][i] + P23["a0"][i] + P23["r1"][i] * r + P23["v1"][i] * log(v / 2000)
    n = 0.3
    da, dc = power(c, n), power(med, n) * n * power(c, n - 1)
    sc, rho = P23["std"][i], P23["rho"][i]
    var = (da * sig) ** 2 + (dc * sc) ** 2 + 2 * rho * da * dc * sig * sc
    st = math.sqrt(var)
    y = power(c * med, n)
    return c * med, power(y + st, 1 / n), power(y - st, 1 / n)


# --- PR24 ---------------------------------------------------------------------

T24 = {
    "interface": dict(
        c=[0.04020966, 0.08388851, 0.13077859, 0.1815641, 0.23651304, 0.29491758, 0.35754282, 0.42528554, 0.4974965, 0.57657072, 0.66322614, 0.76042762, 0.87127838, 1.0, 1.156691, 1.35981923, 1.64806185, 2.14387062],
        a0=[0.00733073, 0.0082492, 0.00374054, -0.00437519, -0.01719855, -0.03221052, -0.04872026, -0.06537968, -0.0775099, -0.08107197, -0.07769041, -0.06689982, -0.04362409, 0.0, 0.07075031, 0.19400743, 0.40879893, 0.85474174],
        m1=[0.00014309, 0.00117448, 0.00259631, 0.00410708, 0.00587722, 0.00790171, 0.01010809, 0.01227336, 0.01365048, 0.01360863, 0.01233418, 0.00990628, 0.00596924, 0.0, -0.00864832, -0.02218093, -0.04374555, -0.07625391],
        r1=[0.00240356, 0.00495213, 0.00759418, 0.0103042, 0.01287056, 0.01498933, 0.01646171, 0.01716948, 0.01753574, 0.01709783, 0.01588001, 0.01298844, 0.00821674, 0.0, -0.01349763, -0.03821902, -0.08847199, -0.21293647],
        v1=[0.00547392, 0.01140383, 0.01633181, 0.02028365, 0.023049, 0.02498088, 0.02612515, 0.02645767, 0.02556579, 0.02366726, 0.02005288, 0.01446657, 0.00779351, 0.0, -0.00992416, -0.02254522, -0.04507584, -0.07641776],
        rho=[-0.04461951, 0.06461454, 0.14724378, 0.20758114, 0.2514994, 0.28656202, 0.31098974, 0.33129013, 0.34623991, 0.3543134, 0.3577682, 0.3535797, 0.33183304, 0.0, -0.38333019, -0.44116537, -0.4875535, -0.53284828],
        s=[0.01395505, 0.02371422, 0.03224683, 0.03982668, 0.04629945, 0.05151767, 0.05540747, 0.05772215, 0.05816558, 0.05630814, 0.05154701, 0.04259618, 0.02792395, 0.0, 0.04378463, 0.1063117, 0.2196963, 0.48117887],
        n=0.15,
    ),
    "slab": dict(
        c=[0.03784117, 0.08352235, 0.13083025, 0.18030833, 0.23239066, 0.28891588, 0.34921976, 0.41510462, 0.48731871, 0.56681198, 0.65450169, 0.75358998, 0.86718004, 1.0, 1.16409534, 1.38075492, 1.69269723, 2.22279683],
        a0=[-0.02602886, -0.01820382, -0.0179457, -0.02417655, -0.03142039, -0.03858319, -0.04451747, -0.04873467, -0.04927577, -0.04910907, -0.04485417, -0.03689654, -0.02248334, 0.0, 0.04127725, 0.10055556, 0.20353897, 0.38563394],
        m1=[0.0052392, 0.00598378, 0.00764049, 0.00998344, 0.01243448, 0.01438996, 0.01589705, 0.01668025, 0.01651024, 0.01585809, 0.01396992, 0.01083706, 0.00631921, 0.0, -0.00947123, -0.02266151, -0.04240792, -0.07401577],
        r1=[0.00226879, 0.00419625, 0.00701796, 0.01021163, 0.0129733, 0.01554978, 0.01720173, 0.0182664, 0.01846989, 0.01753247, 0.01580923, 0.01256225, 0.00751923, 0.0, -0.01202052, -0.03231773, -0.07103404, -0.16362926],
        v1=[0.00409751, 0.01193314, 0.01968596, 0.02664136, 0.03281428, 0.03781827, 0.04107292, 0.04268421, 0.04266614, 0.04062058, 0.03576105, 0.0275821, 0.0162236, 0.0, -0.02139202, -0.05326305, -0.10313415, -0.21286673],
        rho=[0.23703883, 0.2062694, 0.26652301, 0.33081508, 0.38018048, 0.41419228, 0.43660475, 0.45004969, 0.45471735, 0.45897072, 0.45725023, 0.44906822, 0.42848698, 0.0, -0.46673359, -0.51548056, -0.55293589, -0.60041303],
        s=[0.01952566, 0.02989091, 0.03838868, 0.04680806, 0.05476812, 0.06195816, 0.06758683, 0.0712496, 0.07242325, 0.07068507, 0.0647861, 0.05349118, 0.03450956, 0.0, 0.05308633, 0.1307839, 0.26720298, 0.56903831],
        n=0.25,
    ),
}
E24 = [round(0.10 + 0.05 * i, 2) for i in range(18)]


def pr24_d575(s):
    m, r, v, reg = float(s["mag"]), float(s["dist_rup"]), float(s["v_s30"]), s["region"]
    if s["event_type"] == "interface":
        base, site = {"Japan": (0.03, -2.485), "New Zealand": (0.024, -2.420), "South America": (0.024, -2.248)}[reg]
        near, far = 0.031, 0.029
        src = 5.268 * 10 ** (0.275 * (m - 7.0))
        sig = 0.3107 - 0.0393 * r / 100 + 0.0062 * (r / 100) ** 2 - 0.0519 * m + 0.0041 * m**2 + 0.0028 * log(v)
    else:
        base, site = {"Japan": (0.046, -1.480), "New Zealand": (0.032, -1.252), "South America": (0.042, -1.510), "Taiwan": (0.038, -1.151)}[reg]
        near, far = 0.013, 0.020
        src = 0.340 * 10 ** (0.5 * (min(m, 6.0) - 4.25))
        if m > 6:
            src += 2.770 * (m - 6) / 2.5
        sig = 0.3035 - 0.0188 * r / 100 + 0.004 * (r / 100) ** 2 - 0.0288 * m + 0.0019 * m**2 + 0.0038 * log(v)
    path = near * min(r, 250.0) + far * max(r - 250.0, 0.0) + base * r
    return src + path + site * log(v / 3100.0), sig


def pr24(s, energy=0.75):
    med, sig = pr24_d575(s)
    t = T24[s["event_type"]]
    i = min(range(18), key=lambda k: abs(E24[k] - energy))
    c = t["c"][i] + t["a0"][i] + t["m1"][i] * s["mag"] + t["r1"][i] * s["dist_rup"] / 100 + t["v1"][i] * log(s["v_s30"] / 3100.0)
    n = t["n"]
    if c <= 0:
        return c * med, math.nan, math.nan
    a = sig * c**n
    b = n * t["s"][i] * med**n * c ** (n - 1)
    st = math.sqrt(a * a + b * b + 2 * t["rho"][i] * a * b)
    y = power(c * med, n)
    return c * med, power(y + st, 1 / n), power(y - st, 1 / n)


D5X = {"D5-10": 0.25, "D5-20": 0.35, "D5-30": 0.50, "D5-40": 0.65, "D5-50": 0.75, "D5-60": 0.85, "D5-70": 0.95, "D5-75": 1.00, "D5-80": 1.10, "D5-85": 1.25, "D5-90": 1.45, "D5-95": 1.80}
