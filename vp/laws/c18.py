"""C18: what is not given is estimated, reported, and reproducible."""

import math

import numpy as np
from hypothesis import strategies as st
from pygmm import Scenario

from .. import gen, models
from ..harness import Law, Property, alike, ref, require, same
from ..ref import nga2
from ..ref.params import PARAMS

# Parameters that have an estimate or a default, by model
OPEN = {k: [p[0] for p in PARAMS[k] if not p[1]] for k in models.ALL}
OPEN = {k: v for k, v in OPEN.items() if v}
# Estimates of the reference: (model, parameter) -> value
ESTIMATES = dict(
    ask14=("width", "depth_tor"),
    cb14=("depth_2_5", "depth_tor", "width", "depth_bor", "depth_hyp"),
    cy14=("depth_tor", "depth_1_0"),
)
# The reference depth to 1.0 km/s, which is the same as no information
Z1 = dict(
    ask14=lambda s: nga2.z1_ask14(s["v_s30"], s.get("region")),
    bssa14=lambda s: nga2.z1_cy14(s["v_s30"], s.get("region")),
    cy14=lambda s: nga2.z1_cy14(s["v_s30"], s.get("region")),
    as16=lambda s: nga2.z1_cy14(s["v_s30"], "california"),
    ba19=lambda s: nga2.z1_ask14(s["v_s30"], "california"),
)
NEEDED = dict(asb14=("dist_jb", "dist_hyp", "dist_epi"), aga16=("dist_rup", "dist_hyp", "depth_hyp"), ask14=("dist_x", "dist_y0"), pnnl14=("dist_rup",))


@st.composite
def omit_case(draw):
    key = draw(st.sampled_from(sorted(OPEN) + ["cb14", "cb14", "cy14", "ask14"]))
    s = gen.repair(key, draw(gen.GEN[key]()))
    can = [k for k in OPEN[key] if k in s and k not in NEEDED.get(key, ())]
    for k in draw(st.lists(st.sampled_from(can), max_size=len(can), unique=True)) if can else []:
        s[k] = None
    if key == "cb14" and s["width"] is None:
        # the estimated rupture ends above the bottom of the crust
        bot = s["depth_bot"] or 15.0
        if s["depth_tor"] is not None and s["depth_tor"] > bot - 1:
            s["depth_tor"] = bot - 1.0
    if key == "cb14" and s["depth_bor"] is not None:
        tor = s["depth_tor"] if s["depth_tor"] is not None else 9.0
        s["depth_bor"] = max(s["depth_bor"], tor + 1.0)
    return dict(model=key, s=gen.clean(s), some=draw(st.lists(st.sampled_from(OPEN[key]), unique=True, max_size=4)), none=draw(st.booleans()))


def check_omit(case, rec):
    key, s = case["model"], case["s"]
    left = [k for k in OPEN[key] if k not in s]
    rec.tag(key, *["%s omitted" % k for k in left])
    rec.nontrivial(left)
    m = models.build(key, s)
    a = models.snap(key, m)
    used = {k: v for k, v in dict(m.scenario).items() if v is not None}
    for k, v in s.items():
        require(used.get(k) == v, "%s was given %s = %r and reports %r", key, k, v, used.get(k))
    # the reported estimates are those of the publication
    want = ref(models.REF[key], {p[0]: s.get(p[0]) for p in PARAMS[key]})["used"] if key in ESTIMATES else {}
    for k in ESTIMATES.get(key, ()):
        require(k in used, "%s does not report the estimate of %s", key, k)
        if k not in s:
            same("%s estimate of %s" % (key, k), used[k], want[k], 1e-9, 1e-12)
    # giving all or some of them explicitly changes nothing
    full = models.snap(key, models.CLASS[key](Scenario(**used)))
    part = models.snap(key, models.build(key, dict(s, **{k: used[k] for k in case["some"] if k in used})))
    void = models.snap(key, models.CLASS[key](Scenario(**dict({k: None for k in left}, **s))))
    for n in a:
        alike("%s %s with the estimates %r given" % (key, n, sorted(set(used) - set(s))), full[n], a[n])
        alike("%s %s with the estimates %r given" % (key, n, case["some"]), part[n], a[n])
        alike("%s %s with %r = None" % (key, n, left), void[n], a[n])
    again = models.CLASS[key](m.scenario)
    require(dict(again.scenario) == dict(m.scenario), "%s: the scenario of a model is not its own fixed point", key)


@st.composite
def z1_case(draw):
    key = draw(st.sampled_from(sorted(Z1)))
    s = gen.repair(key, draw(gen.GEN[key]()))
    s["depth_1_0"] = None
    return dict(model=key, s=gen.clean(s))


def check_z1(case, rec):
    """The generic depth of the site is the same as no depth."""
    key, s = case["model"], case["s"]
    rec.tag(key, "region=%s" % s.get("region"))
    rec.nontrivial()
    a = models.snap(key, models.build(key, s))
    b = models.snap(key, models.build(key, dict(s, depth_1_0=float(Z1[key](s)))))
    for n in a:
        if n == "interp_ln_stds":
            continue
        same("%s %s with the generic depth to 1 km/s" % (key, n), b[n], a[n], 1e-7, 1e-10)


@st.composite
def geometry_case(draw):
    s = gen.repair("cb14", draw(gen.GEN["cb14"]()))
    for k in ("width", "depth_bor", "depth_hyp"):
        s[k] = None
    bot = s["depth_bot"] or 15.0
    s["depth_tor"] = None if s["depth_tor"] is None else min(s["depth_tor"], bot - 1.0)
    return dict(s=gen.clean(s))


def check_geometry(case, rec):
    """The estimated rupture is a possible one."""
    s = case["s"]
    rec.nontrivial()
    u = models.build("cb14", s).scenario
    tor, bor, hyp, w, dip, bot = (float(u[k]) for k in ("depth_tor", "depth_bor", "depth_hyp", "width", "dip", "depth_bot"))
    require(tor >= 0 and w > 0, "rupture from %r with the width %r", tor, w)
    same("depth of the bottom of the rupture", bor, tor + w * math.sin(math.radians(dip)), 1e-9)
    require(bor <= bot + 1e-9, "the rupture reaches %r below the crust at %r", bor, bot)
    require(tor < hyp <= bor + 1e-9, "the hypocentre %r is not between %r and %r", hyp, tor, bor)
    require(hyp <= tor + 0.9 * (bor - tor) + 1e-9, "the hypocentre %r is in the lowest tenth of %r to %r", hyp, tor, bor)


PROPERTY = Property(
    "C18",
    [
        Law("omit", omit_case, check_omit, 4500, "a scenario that leaves at least one optional parameter to the model"),
        Law("generic_depth", z1_case, check_z1, 2500, "every case: a scenario without a depth to 1.0 km/s"),
        Law("rupture", geometry_case, check_geometry, 2500, "every case: a rupture estimated from the magnitude and the dip"),
    ],
    "A distinct scenario with omitted parameters, evaluated again with the reported estimates given in full and in part.",
    ["the estimates of the reference were written from the publications"],
)
