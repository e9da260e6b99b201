"""Generators of scenarios, as plain JSON-able values."""

import functools
import math
import random

from hypothesis import strategies as st

from . import literals

N = 1 << 20
OFF = (0.0, 1e-3, -1e-3, 0.0, 1e-6, -1e-6, 0.03, -0.03)


class Scope:
    """The model that scenarios are drawn for, and whether they are to be rich in numbers of its code."""

    key = None
    rich = False


@functools.lru_cache(20000)
def _value(lo, hi, special, log, zero, key, rich):
    """The function from drawn integers to numbers."""
    lo, hi = float(lo), float(hi)
    special = [float(x) for x in special if lo <= x <= hi]
    n = len(special)
    a, b = (math.log(lo), math.log(hi)) if log else (lo, hi)
    every, new = ([x for x in p if lo <= x <= hi] for p in literals.pool(key))
    often = 2 if rich else 5 if new else 16

    def value(k):
        if k < n:
            return special[k]
        if every and k % often == 1:
            # at or close to a number of the code
            k = k // often
            if new and k % 2:
                words, k = new, k // 2
            else:
                words = every
            x = words[k % len(words)]
            x += OFF[k // len(words) % 8] * max(abs(x), 1.0)
            return min(max(x, lo), hi)
        if zero and k % 16 == 5:
            return 0.0
        if n and k % 8 == 0:
            k = k // 8
            x = special[k % n]
            x += OFF[k // n % 8] * max(abs(x), 1.0)
            return min(max(x, lo), hi)
        u = (k * 0x9E3779B1 % N) / (N - 1)
        x = a + (b - a) * u
        if log:
            x = math.exp(x)
        # some are round numbers
        return min(max(float(("%.1g" if k % 32 == 11 else "%.2g" if k % 32 == 27 else "%.7g") % x), lo), hi)

    return value


def num(lo, hi, special=(), log=False, zero=False):
    """Numbers of [lo, hi] from a single drawn integer.

    The smallest integers are the special values themselves, so that failures
    shrink to round numbers; one in eight of the others lies at or close to a
    special value, and the rest is spread evenly over the range (a
    multiplicative scramble undoes the bias of Hypothesis to small integers), one in
    sixteen of them at round numbers, and one in sixteen at numbers of the code
    under test.
    zero: one in sixteen is exactly zero.
    """
    return st.integers(0, N - 1).map(_value(lo, hi, tuple(special), log, zero, Scope.key, Scope.rich))


def long(lo, hi, special=(), log=False, most=300):
    """A long list of such numbers, with repetitions, from two drawn integers."""
    value = _value(lo, hi, tuple(special), log, False, Scope.key, False)

    def values(t):
        n, seed = t
        rng = random.Random(seed)
        return [value(rng.randrange(N)) for _ in range(n)]

    return st.tuples(bits(most + 1), st.integers(0, N - 1)).map(values)


def rising(lo, hi, most=100, least=1, gap=0.05):
    """Increasing numbers, log-spaced with steps that differ by some factor."""

    def values(t):
        n, seed = t
        rng = random.Random(seed)
        w = [rng.uniform(gap, 1) for _ in range(n)]
        a, b = math.log(lo), math.log(hi)
        x = a + (b - a) * rng.choice((0.0, 0.0, 0.3, rng.random() * 0.5))
        f = (b - x) / sum(w)
        out = []
        for v in w:
            out.append(min(max(float("%.8g" % math.exp(x)), lo), hi))
            x += v * f
        return out

    return st.tuples(bits(most + 1 - least), st.integers(0, N - 1)).map(lambda t: values((t[0] + least, t[1])))


def bits(n):
    """Even choice of 0..n-1 (integers() of Hypothesis prefers small ones)."""
    return st.sampled_from(range(n))


def maybe(strategy, p=(1, 1)):
    """None or a value, p[0] to p[1]."""
    return st.one_of(*([st.none()] * p[0] + [strategy] * p[1]))


def pick(*xs):
    return st.sampled_from(list(xs))


MECH3 = pick("SS", "NS", "RS")
MECHU = pick("SS", "NS", "RS", "U", None)
BOOL = st.booleans()


def mags(lo, hi, special=()):
    return num(lo, hi, special)


def vs(lo, hi, special=()):
    return num(lo, hi, special, log=True)


def dist(lo, hi, special=(), zero=False):
    return num(lo, hi, special, log=True, zero=zero)


def zdepth():
    """Depth to 1.0 km/s."""
    return num(0.001, 2.5, (0.01, 0.2, 0.5, 1.0, 2.0), log=True, zero=True)


def mix(draw, s, key, strategy):
    s[key] = draw(strategy)


# What is drawn for each model.  `limits` keeps the values in the recommended
# limits of the model.


def _distances(draw, lo, hi, special):
    """Rupture and Joyner-Boore distances: mostly consistent ones."""
    kind = draw(bits(10))
    jb = draw(dist(lo, hi, special))
    if kind == 0:
        jb = 0.0
    if kind == 1:
        return draw(dist(lo, hi, special)), jb
    z = draw(num(0.0, 30.0, (0.0, 5.0, 10.0)))
    return min(float("%.7g" % math.hypot(jb, z)), hi), jb


@st.composite
def ask14(draw, limits=False):
    rup, jb = _distances(draw, 0.1, 300.0 if limits else 400.0, (1, 5, 10, 15, 30, 50, 80, 100, 300))
    s = dict(
        mag=draw(mags(3.0 if limits else 2.8, 8.5, (4, 5, 5.5, 6, 6.5, 6.75, 7, 7.25, 7.2, 8))),
        dist_rup=rup,
        dist_jb=jb,
        v_s30=draw(vs(180 if limits else 130, 1000 if limits else 1800, (150, 250, 350, 400, 450, 600, 660, 700, 850, 1000, 1150, 1180, 1500))),
        dip=draw(num(15, 90, (30, 45, 60, 89.9, 90))),
        mechanism=draw(MECH3),
        region=draw(pick(None, "global", "california", "china", "italy", "japan", "taiwan")),
        vs_source=draw(pick(None, "measured", "inferred")),
        is_aftershock=draw(pick(None, False, True, True)),
        on_hanging_wall=draw(pick(None, False, True, True, True)),
        depth_1_0=draw(maybe(zdepth(), (1, 2))),
        depth_tor=draw(maybe(num(0, 25, (0, 5, 10, 20)), (1, 2))),
        width=draw(maybe(num(0.5, 60, (), log=True))),
        dist_crjb=draw(maybe(num(0, 30, (0, 5, 15)), (1, 3))),
    )
    w = s["width"]
    if w is None:
        w = min(18.0 / math.sin(math.radians(s["dip"])), 10 ** (-1.75 + 0.45 * s["mag"]))
    r1 = w * math.cos(math.radians(s["dip"]))
    lo = 0.0 if s["on_hanging_wall"] else -1.0
    f = draw(num(0.5 * lo, 3.5, (0, 0.5, 1, 2, 3)))
    s["dist_x"] = float("%.7g" % (f * max(r1, 0.01))) if draw(bits(4)) else draw(num(50.0 * lo, 50, (0,)))
    s["dist_y0"] = draw(maybe(num(0, 15, (0, 5)), (1, 1)))
    if not s["on_hanging_wall"] and draw(bits(4)) == 0:
        s["dist_x"] = None
    return s


@st.composite
def bssa14(draw, limits=False):
    return dict(
        mag=draw(mags(3.0 if limits else 2.8, 8.5, (4.5, 5.5, 6.2, 6.0, 5.75, 6.5, 7))),
        dist_jb=draw(dist(0.05, 300.0 if limits else 400.0, (0.1, 1, 20, 80, 100, 110, 120, 130, 150, 200, 250, 270, 300), zero=True)),
        v_s30=draw(vs(150 if limits else 120, 1500 if limits else 1800, (150, 200, 225, 300, 360, 760, 900, 1000, 1200, 1300, 1500))),
        depth_1_0=draw(maybe(zdepth(), (1, 3))),
        mechanism=draw(MECHU),
        region=draw(pick(None, "global", "california", "china", "italy", "japan", "new_zealand", "taiwan", "turkey")),
    )


@st.composite
def cb14(draw, limits=False):
    rup, jb = _distances(draw, 0.1, 300.0 if limits else 400.0, (1, 5, 10, 50, 80, 100, 300))
    if draw(bits(20)) == 0:
        rup = jb = 0.0
    s = dict(
        mag=draw(mags(3.3 if limits else 3.0, 8.5, (4.5, 5.5, 6.5, 6.75, 7))),
        dist_rup=rup,
        dist_jb=jb,
        v_s30=draw(vs(150 if limits else 120, 1500 if limits else 1800, (150, 200, 400, 654, 748, 865, 1100))),
        dip=draw(num(15, 90, (40, 45, 90))),
        mechanism=draw(MECH3),
        region=draw(pick(None, "global", "california", "japan", "italy", "china")),
        depth_1_0=draw(maybe(zdepth(), (2, 1))),
        depth_2_5=draw(maybe(num(0.05, 9.9, (0.5, 1, 2, 3, 5), log=True))),
        depth_bot=draw(pick(None, 15.0, 20.0, 25.0)),
    )
    bot = s["depth_bot"] or 15.0
    s["depth_tor"] = draw(maybe(num(0, min(bot - 1.0, 20.0), (0, 5, 10))))
    if s["depth_tor"] is not None and draw(bits(6)) == 0:
        s["depth_tor"] = draw(num(14.0, 20.0, (16.66, 18)))
        s["width"] = draw(num(0.5, 30, (), log=True))
    else:
        s["width"] = draw(maybe(num(0.5, 60, (), log=True)))
    tor = s["depth_tor"] if s["depth_tor"] is not None else 0.0
    s["depth_bor"] = draw(maybe(num(tor + 1.0, tor + 30.0)))
    if s["depth_tor"] is None and s["depth_bor"] is not None:
        s["depth_bor"] = s["depth_bor"] + 8.0
    s["depth_hyp"] = draw(maybe(num(0, 20 if limits else 25, (7, 20))))
    w = s["width"] or 10.0
    r1 = w * math.cos(math.radians(s["dip"]))
    f = draw(num(-0.5, 6.0, (0, 0.5, 1)))
    s["dist_x"] = float("%.7g" % (f * max(r1, 0.01))) if draw(bits(2)) else draw(num(-80, 150, (0,)))
    return s


@st.composite
def cy14(draw, limits=False):
    rup, jb = _distances(draw, 0.1, 300.0 if limits else 400.0, (1, 5, 10, 40, 50, 70, 100, 300))
    if not limits and draw(bits(20)) == 0:
        rup = 0.0
    return dict(
        mag=draw(mags(3.5 if limits else 3.0, 8.5, (4.5, 4.97, 5, 5.5, 5.849, 6, 6.3, 6.5, 6.9, 8))),
        dist_rup=rup,
        dist_jb=jb,
        dist_x=draw(num(-60, 60, (0,))),
        v_s30=draw(vs(180 if limits else 130, 1500 if limits else 1800, (200, 360, 500, 760, 1130))),
        dip=draw(num(15, 90, (45, 90))),
        depth_tor=draw(maybe(num(0, 20 if limits else 25, (0, 5, 10)))),
        depth_1_0=draw(maybe(zdepth())),
        dpp_centered=draw(maybe(num(-2, 2, (0,)), (1, 2))),
        mechanism=draw(MECHU),
        on_hanging_wall=draw(pick(None, False, True, True)),
        region=draw(pick(None, "california", "china", "italy", "japan")),
        vs_source=draw(pick(None, "measured", "inferred")),
    )


@st.composite
def i14(draw, limits=False):
    return dict(
        mag=draw(mags(5 if limits else 4.5, 8.5, (5, 6.75, 7.5))),
        dist_rup=draw(dist(0.1, 150 if limits else 250, (1, 10, 100, 150), zero=True)),
        v_s30=draw(vs(450, 1200 if limits else 1500, (450, 760, 1200))),
        mechanism=draw(pick("SS", "RS")),
    )


@st.composite
def asb14(draw, limits=False):
    s = dict(
        mag=draw(mags(4.0 if limits else 3.7, 8.0, (6.75, 7, 8))),
        v_s30=draw(vs(150 if limits else 130, 1200 if limits else 1500, (300, 750, 1000, 1200))),
        mechanism=draw(MECH3),
    )
    d = dist(0.1, 200 if limits else 300, (1, 10, 100, 200), zero=True)
    which = draw(bits(7)) + 1
    for bit, k in ((1, "dist_jb"), (2, "dist_hyp"), (4, "dist_epi")):
        s[k] = draw(d) if which & bit else None
    return s


@st.composite
def dbc14(draw, limits=False):
    return dict(
        mag=draw(mags(4 if limits else 3.8, 7 if limits else 7.3, (4, 5, 6, 7))),
        dist_jb=draw(dist(5 if limits else 1, 200 if limits else 250, (5, 10, 100, 200))),
        v_s30=draw(vs(200 if limits else 180, 800 if limits else 1000, (200, 360, 760, 800))),
        depth_hyp=draw(num(0, 25, (0, 5, 10, 25))),
        mechanism=draw(MECH3),
    )


@st.composite
def ab06(draw, limits=False):
    return dict(
        mag=draw(mags(3.5, 8.2, (4, 5, 6, 7, 8))),
        dist_rup=draw(dist(0.5, 1000, (10, 70, 130, 140, 200, 500))),
        v_s30=draw(vs(130, 2200, (180, 300, 760, 1999))),
    )


@st.composite
def c03(draw, limits=False):
    return dict(
        mag=draw(mags(5.0 if limits else 4.5, 8.2, (5, 6, 7, 7.16, 8))),
        dist_rup=draw(dist(0.5, 1000, (10, 70, 130, 200, 500), zero=True)),
    )


@st.composite
def pea11(draw, limits=False):
    return dict(
        mag=draw(mags(5.0 if limits else 4.5, 8.0, (5, 6, 7, 8))),
        dist_rup=draw(dist(0.5, 1000, (10, 70, 140, 200, 500), zero=True)),
    )


@st.composite
def tp05(draw, limits=False):
    return dict(
        mag=draw(mags(5.0 if limits else 4.5, 8.2, (5, 6, 7, 7.2, 8))),
        dist_rup=draw(dist(0.5, 1000, (10, 70, 130, 200, 500), zero=True)),
    )


@st.composite
def aga16(draw, limits=False):
    ev = draw(pick("interface", "intraslab"))
    d = dist(0.5, 400, (40, 85, 100, 120, 200, 300))
    s = dict(
        mag=draw(mags(3.0, 8.5, (6, 7.5, 7.6, 7.7, 7.8, 7.9, 8.0, 8.1))),
        event_type=ev,
        dist_rup=draw(d if ev == "interface" else maybe(d)),
        dist_hyp=draw(d if ev == "intraslab" else maybe(d)),
        depth_hyp=draw(num(0, 200, (60, 100, 120)) if ev == "intraslab" else maybe(num(0, 60, (30,)))),
        tectonic_region=draw(pick("forearc", "unknown", "backarc", "backarc", None)),
        v_s30=draw(vs(150, 1500, (200, 300, 400, 760, 866, 877, 1000, 1085))),
    )
    return s


@st.composite
def pnnl14(draw, limits=False):
    return dict(
        mag=draw(mags(3.0, 8.5, (6, 7.5, 7.6, 7.7, 7.8, 7.9, 8.0))),
        dist_rup=draw(dist(0.5, 600, (10, 40, 100, 300))),
        v_s30=draw(vs(150, 1500, (200, 400, 760, 866, 877, 1000, 1085))),
        event_type=draw(pick("interface", "intraslab")),
    )


@st.composite
def ga11(draw, limits=False):
    return dict(
        mag=draw(mags(5 if limits else 4.5, 8.5, (5, 6.5, 6.75, 7))),
        dist_rup=draw(dist(0.5, 200 if limits else 300, (1, 10, 100), zero=True)),
        v_s30=draw(vs(450 if limits else 250, 1200 if limits else 1800, (450, 500, 600, 700, 760, 862, 1000, 1100, 1200, 1500))),
        pga_ref=draw(num(0.001, 10 if not limits else 5, (0.1, 1), log=True)),
        mechanism=draw(MECH3),
    )


@st.composite
def ba19(draw, limits=False):
    return dict(
        mag=draw(mags(3.0 if limits else 2.8, 8.0, (4, 5, 6, 7))),
        dist_rup=draw(dist(0.1, 300, (1, 10, 50, 100), zero=True)),
        v_s30=draw(vs(180 if limits else 150, 1500 if limits else 1800, (200, 300, 360, 500, 760, 1000))),
        depth_tor=draw(num(0, 20 if limits else 25, (0, 10, 20))),
        depth_1_0=draw(maybe(st.one_of(zdepth(), num(1.9, 3.0, (2,))))),
        mechanism=draw(pick(None, "SS", "NS", "RS", "NS")),
    )


@st.composite
def as96(draw, limits=False):
    return dict(
        mag=draw(mags(4 if limits else 3.7, 7.5 if limits else 8, (5, 6, 7))),
        dist_rup=draw(dist(0.1, 250, (10, 100), zero=True)),
        site_cond=draw(pick("soil", "rock")),
    )


@st.composite
def ks06(draw, limits=False):
    return dict(
        mag=draw(mags(5 if limits else 4.7, 7.6 if limits else 8, (6, 7))),
        dist_rup=draw(dist(0.1, 200 if limits else 300, (10, 100), zero=True)),
        v_s30=draw(vs(200 if limits else 150, 1000 if limits else 1200, (360, 600, 760))),
    )


@st.composite
def as16(draw, limits=False):
    return dict(
        mag=draw(mags(3 if limits else 2.8, 7.9 if limits else 8.2, (5.2, 5.35, 5.5, 5.75, 6, 6.5, 7, 7.15, 7.4))),
        dist_rup=draw(dist(0.1, 200 if limits else 300, (10, 50, 100), zero=True)),
        v_s30=draw(vs(200 if limits else 150, 1000 if limits else 1300, (360, 368.2, 600, 760))),
        mechanism=draw(MECH3),
        depth_1_0=draw(maybe(zdepth(), (1, 3))),
    )


PR23_E = [round(0.05 * (i + 1), 2) for i in range(19)]
PR24_E = [round(0.10 + 0.05 * i, 2) for i in range(18)]


def energy(values):
    """A threshold that is not half way between two tabulated ones."""
    return st.tuples(st.sampled_from(values), num(-0.0245, 0.0245, (0, 0, 0, 0))).map(lambda t: float("%.6g" % (t[0] + t[1])))


@st.composite
def pr23(draw, limits=False):
    return dict(
        mag=draw(mags(4.0 if limits else 3.8, 8.0, (5, 6, 6.75, 7))),
        dist_rup=draw(dist(0.1, 300, (10, 42, 44, 100, 130, 200), zero=True)),
        v_s30=draw(vs(150 if limits else 130, 2000, (200, 275, 360, 760, 1900, 2000))),
    )


@st.composite
def pr24(draw, limits=False):
    ev = draw(pick("interface", "slab"))
    return dict(
        mag=draw(mags(4.5 if limits else 4.2, 8.5, (5, 6, 7, 8))),
        dist_rup=draw(dist(0.1, 300 if limits else 500, (10, 100, 200, 250, 300), zero=True)),
        v_s30=draw(vs(150 if limits else 130, 2000, (360, 760, 1500))),
        event_type=ev,
        region=draw(pick("Japan", "New Zealand", "South America", *(["Taiwan"] if ev == "slab" else []))),
    )


GEN = dict(
    ask14=ask14, bssa14=bssa14, cb14=cb14, cy14=cy14, i14=i14, asb14=asb14, dbc14=dbc14, ab06=ab06, c03=c03, pea11=pea11,
    tp05=tp05, aga16=aga16, pnnl14=pnnl14, ga11=ga11, ba19=ba19, as96=as96, ks06=ks06, as16=as16, pr23=pr23, pr24=pr24,
)  # fmt: skip


def _scoped(key, scenarios):
    """The scenarios of a model; one in eight is rich in numbers of its code."""

    @st.composite
    def scoped(draw, limits=False):
        old = Scope.key, Scope.rich
        Scope.key, Scope.rich = key, draw(bits(8)) == 7
        try:
            return draw(scenarios(limits=limits))
        finally:
            Scope.key, Scope.rich = old

    return scoped


GEN = {k: _scoped(k, v) for k, v in GEN.items()}


FAR = dict(
    mag=num(0.5, 10.0), dist_rup=dist(1e-4, 5000.0), dist_jb=dist(1e-4, 5000.0), dist_hyp=dist(1e-4, 5000.0), dist_epi=dist(1e-4, 5000.0),
    dist_x=num(-2000, 2000), dist_y0=num(0, 2000), dist_crjb=num(0, 3000), v_s30=vs(30.0, 5000.0), depth_1_0=num(0, 15), depth_2_5=num(0, 30),
    depth_tor=num(0, 80), depth_hyp=num(0, 700), dip=num(1, 90), width=num(0.05, 400, log=True), dpp_centered=num(-50, 50), pga_ref=num(1e-5, 100, log=True),
)  # fmt: skip


# beyond these the power terms are not real numbers
FAR_PR = dict(mag=num(3.8, 10.0), dist_rup=dist(1e-3, 900.0), v_s30=vs(60.0, 2200.0))
FAR_OF = dict(tp05=dict(mag=num(0.5, 8.5)), pr24=FAR_PR, pr23=FAR_PR)


@st.composite
def far(draw, key):
    """Scenarios with, now and then, one or two numbers far from the usual ones."""
    s = draw(GEN[key]())
    if draw(bits(8)) == 0:
        names = [k for k in s if k in FAR and s[k] is not None]
        for k in draw(st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True)):
            s[k] = draw(FAR_OF.get(key, FAR).get(k, FAR[k]))
            if k in ("dist_rup", "dist_jb") and s.get("dist_jb") is not None and s.get("dist_rup") is not None:
                # no site is nearer to the rupture than to its projection
                s["dist_jb"], s["dist_rup"] = sorted((s["dist_jb"], s["dist_rup"]))
        s = repair(key, s)
        if key == "cb14" and s["depth_hyp"] is None:
            # the estimates assume a rupture within the crust
            s["depth_hyp"] = 10.0
            s["depth_bor"] = s["depth_bor"] or (s["depth_tor"] or 0.0) + 12.0
            s["width"] = s["width"] or 10.0
    return s


def clean(s):
    """Drop omitted parameters."""
    return {k: v for k, v in s.items() if v is not None}


def tags(s):
    """Classes a scenario belongs to."""
    out = []
    for k in ("region", "mechanism", "event_type", "tectonic_region", "vs_source", "site_cond"):
        if k in s:
            out.append("%s=%s" % (k, s[k]))
    for k in ("is_aftershock", "on_hanging_wall"):
        if s.get(k):
            out.append(k)
    for k in ("depth_1_0", "depth_2_5", "depth_tor", "depth_hyp", "depth_bor", "width", "dist_crjb", "dist_y0", "dpp_centered"):
        if k in s:
            out.append(k + (" given" if s[k] is not None else " omitted"))
    if 0.0 in (s.get("dist_rup"), s.get("dist_jb"), s.get("dist_hyp"), s.get("dist_epi")):
        out.append("zero distance")
    m = s.get("mag")
    if m is not None:
        out.append("mag<5" if m < 5 else "mag 5-6.5" if m < 6.5 else "mag>6.5")
    v = s.get("v_s30")
    if v is not None:
        out.append("vs<360" if v < 360 else "vs 360-760" if v < 760 else "vs>760")
    return out


def repair(key, s):
    """Make a scenario with parameters of several others acceptable again."""
    s = dict(s)
    if key == "ask14" and s["on_hanging_wall"]:
        if s["dist_x"] is None or s["dist_x"] < 0:
            s["dist_x"] = 5.0
    if key == "cb14":
        bot = s["depth_bot"] or 15.0
        if s["depth_tor"] is not None and s["depth_tor"] > bot - 1 and s["width"] is None:
            s["depth_tor"] = bot - 1.0
        tor = s["depth_tor"] if s["depth_tor"] is not None else 0.0
        if s["depth_bor"] is not None and s["depth_bor"] < tor + 1:
            s["depth_bor"] = tor + 1.0
    if key == "asb14" and all(s[k] is None for k in ("dist_jb", "dist_hyp", "dist_epi")):
        s["dist_jb"] = 20.0
    if key == "aga16":
        if s["event_type"] == "interface" and s["dist_rup"] is None:
            s["dist_rup"] = s["dist_hyp"] or 50.0
        if s["event_type"] == "intraslab":
            s["dist_hyp"] = s["dist_hyp"] or s["dist_rup"] or 50.0
            s["depth_hyp"] = 60.0 if s["depth_hyp"] is None else s["depth_hyp"]
    if key == "pr24" and s["event_type"] == "interface" and s["region"] == "Taiwan":
        s["region"] = "Japan"
    return s


@st.composite
def family(draw, key, most=4, limits=False):
    """Scenarios of one model that differ from the first in a few parameters.

    The first one and its variants share most values, so that anything that
    confuses one scenario with another has its chance.
    """
    a, b = draw(GEN[key](limits=limits)), draw(GEN[key](limits=limits))
    names = [k for k in a if a[k] != b[k]] or list(a)
    out = [repair(key, a)]
    for _ in range(draw(st.integers(1, most - 1))):
        floats = [k for k in a if isinstance(a[k], float) and a[k] > 0]
        if floats and draw(bits(4)) == 0:
            # hardly another one
            k = draw(st.sampled_from(floats))
            out.append(repair(key, dict(a, **{k: a[k] * (1 + draw(pick(1e-3, 1e-4, -1e-4, 1e-5, 2e-6)))})))
            continue
        k = draw(st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True))
        out.append(repair(key, dict(a, **{n: b[n] for n in k})))
    return out
