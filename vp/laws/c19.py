"""C19: site terms and estimators that are offered on their own."""

import numpy as np
import pygmm
from hypothesis import strategies as st

from .. import gen, models
from ..harness import Law, Property, ref, require, same
from ..ref import nga2

ASK, BSSA, CB, CY = (models.CLASS[k] for k in ("ask14", "bssa14", "cb14", "cy14"))
REGIONS = ["global", "california", "china", "italy", "japan", "taiwan", "new_zealand", "turkey"]
ROWS = dict(ask14=24, cy14=26)
SITE = dict(ask14=nga2.ask14_site, bssa14=nga2.bssa14_site, cb14=nga2.cb14_site, cy14=nga2.cy14_site)
HINGES = (150, 180, 200, 250, 360, 400, 500, 660, 700, 760, 865, 1000, 1100, 1130, 1150, 1179, 1500)
OMIT = "omitted"


@st.composite
def site_case(draw):
    key = draw(st.sampled_from(sorted(SITE)))
    resp = gen.num(1e-5, 4.0, (0.01, 0.1, 1.0), log=True)
    n = ROWS.get(key)
    whole = n is not None and draw(st.booleans())
    return dict(
        model=key,
        resp=draw(st.lists(resp, min_size=n, max_size=n)) if whole else draw(resp),
        as_list=draw(st.booleans()),
        v=draw(gen.vs(120, 2000, HINGES)),
        whole=draw(gen.bits(8)) == 0,
        z=draw(gen.num(0.05, 9.9, (0.5, 1, 2, 3, 5), log=True) if key == "cb14" else gen.zdepth()),
        no_z=key in ("ask14", "bssa14") and draw(gen.bits(3)) == 0,
        region=draw(st.sampled_from(REGIONS + [None, "japan"] + ([] if key == "cy14" else [OMIT]))),
        by_name=draw(st.booleans()),
    )


def check_site(case, rec):
    key, v, region = case["model"], case["v"], case["region"]
    resp, z = case["resp"], None if case["no_z"] else case["z"]
    if key == "ask14" and v == 1180.0:
        return
    v = int(round(v)) if case["whole"] else v
    if key == "ask14" and v == 1180:
        return
    rec.tag(key, "region=%s" % region, "without depth" if z is None else "", "array" if isinstance(resp, list) else "scalar")
    rec.nontrivial()
    arg = resp if case["as_list"] or not isinstance(resp, list) else np.array(resp)
    keep = np.array(arg, dtype=float)
    cls = models.CLASS[key]
    kw = {} if region == OMIT else dict(region=region)
    if case["by_name"]:
        got = cls.calc_site_term(
            **{"resp_ref" if key in ("ask14", "cy14") else "pga_ref": arg, "v_s30": v, "depth_2_5" if key == "cb14" else "depth_1_0": z}, **kw
        )
    else:
        got = cls.calc_site_term(arg, v, z, *kw.values())
    want = ref(SITE[key], np.array(resp) if isinstance(resp, list) else resp, float(v), z, region)
    same("%s site term" % key, got, want, 1e-8, 1e-9)
    require(np.array_equal(keep, np.array(arg, dtype=float)), "%s calc_site_term changed its argument", key)


V_REF = dict(ask14=1180.0, bssa14=760.0, cb14=1100.0, cy14=1130.0)


@st.composite
def split_case(draw):
    key = draw(st.sampled_from(sorted(V_REF)))
    s = gen.repair(key, draw(gen.GEN[key]()))
    for k in ("depth_1_0", "depth_2_5"):
        if k in s:
            s[k] = None
    z = draw(gen.num(0.05, 9.9, (1, 3), log=True) if key == "cb14" else gen.zdepth())
    return dict(model=key, s=gen.clean(s), z=z)


def ln_resp(m):
    out = [np.log(m.spec_accels), [np.log(m.pga)]]
    if m.INDEX_PGV is not None:
        out.append([np.log(m.pgv)])
    return np.concatenate(out)


def check_split(case, rec):
    """A median is the one at the reference site and the public site term."""
    key, s, z = case["model"], case["s"], case["z"]
    region = s.get("region", "california" if key == "cy14" else "global")
    if key == "ask14" and region in ("japan", "taiwan"):
        return
    rec.tag(key, "region=%s" % region)
    rec.nontrivial()
    cls, v0 = models.CLASS[key], V_REF[key]
    depth = "depth_2_5" if key == "cb14" else "depth_1_0"
    rock = models.build(key, dict(s, v_s30=v0))
    site = models.build(key, dict(s, **{depth: z}))
    rows = models.ROWS[key]
    idx = np.concatenate([np.arange(200)[rows["psa"]], [rows["pga"]], [rows["pgv"]] if "pgv" in rows else []]).astype(int)
    n = len(models.PERIODS[key])
    base = ln_resp(rock)
    full = np.full(n, np.nan)
    full[idx] = base
    if key == "cb14":
        # the reference motion has no nonlinear term, whatever the velocity
        base = base - np.asarray(cls.calc_site_term(np.nan, v0, None, region))[idx]
        resp = float(np.exp(full[rows["pga"]]))
    elif key == "bssa14":
        resp = float(np.exp(full[rows["pga"]]))
    else:
        resp = np.exp(full)
        if key == "ask14":
            base = base - np.asarray(cls.calc_site_term(resp, v0, None, region))[idx]
    got = base + np.asarray(cls.calc_site_term(resp, s["v_s30"], z, region))[idx]
    same("%s reference site and site term" % key, ln_resp(site), got, 1e-7, 1e-7)


# name, call, reference
def est_case():
    return st.fixed_dictionaries(
        dict(
            v=gen.vs(80, 2500, HINGES),
            z1=gen.num(0.001, 3, (0.1, 1), log=True),
            mag=gen.mags(2.5, 9, (3.5, 4, 4.97, 5, 5.849, 6, 6.75, 7, 7.2, 8)),
            dip=gen.num(5, 90, (30, 40, 45, 90)),
            tor=gen.num(0, 20, (0, 5)),
            thick=gen.num(0.2, 40, (1, 10)),
            width=gen.num(0.2, 100, (10,), log=True),
            bot=gen.num(21, 40, (21, 25)),
            shallow=gen.num(0, 14, (0,)),
            region=st.sampled_from(REGIONS),
            mech=st.sampled_from(["SS", "NS", "RS", "U"]),
        )
    )


def check_est(c, rec):
    rec.tag("region=%s" % c["region"], "mechanism=%s" % c["mech"])
    rec.nontrivial()
    v, region, mag, dip, tor = c["v"], c["region"], c["mag"], c["dip"], c["tor"]
    AS16, BA19 = pygmm.AfshariStewart2016, pygmm.BaylessAbrahamson2019
    want = [
        ("ASK14 calc_depth_1_0", ASK.calc_depth_1_0(v, region), nga2.z1_ask14(v, region)),
        ("ASK14 calc_depth_1_0 without region", ASK.calc_depth_1_0(v), nga2.z1_ask14(v, "california")),
        ("CY14 calc_depth_1_0", CY.calc_depth_1_0(v, region), nga2.z1_cy14(v, region)),
        ("AS16 calc_depth_1_0", AS16.calc_depth_1_0(v, region), nga2.z1_cy14(v, region)),
        ("AS16 calc_depth_1_0 without region", AS16.calc_depth_1_0(v), nga2.z1_cy14(v, "california")),
        ("BA19 calc_depth_1_0", BA19.calc_depth_1_0(v), nga2.z1_ask14(v, "california")),
        ("CB14 calc_depth_2_5", CB.calc_depth_2_5(v, region), nga2.cb14_z25(v, region)),
        ("CB14 calc_depth_2_5 without region", CB.calc_depth_2_5(v), nga2.cb14_z25(v, "global")),
        ("CB14 calc_depth_2_5 of Z1.0", CB.calc_depth_2_5(None, region, c["z1"]), nga2.cb14_z25(None, region, c["z1"])),
        ("CB14 calc_depth_2_5 of depth_1_0", CB.calc_depth_2_5(None, region=region, depth_1_0=c["z1"]), nga2.cb14_z25(None, region, c["z1"])),
        ("ASK14 calc_width", ASK.calc_width(mag, dip), nga2.ask14_width(mag, dip)),
        ("ASK14 calc_depth_tor", ASK.calc_depth_tor(mag), nga2.ask14_ztor(mag)),
        ("CY14 calc_depth_tor", CY.calc_depth_tor(mag, c["mech"]), nga2.cy14_ztor(mag, c["mech"])),
        ("CB14 calc_width", CB.calc_width(mag, dip, c["shallow"]), nga2.cb14_width(mag, dip, c["shallow"])),
        ("CB14 calc_width with depth_bot", CB.calc_width(mag, dip, tor, depth_bot=c["bot"]), nga2.cb14_width(mag, dip, tor, c["bot"])),
        ("CB14 calc_depth_bor", CB.calc_depth_bor(tor, dip, c["width"]), nga2.cb14_zbor(tor, dip, c["width"])),
        ("CB14 calc_depth_hyp", CB.calc_depth_hyp(mag, dip, tor, tor + c["thick"]), nga2.cb14_zhyp(mag, dip, tor, tor + c["thick"])),
    ]
    for name, got, w in want:
        same("%s of %r" % (name, c), float(got), w, 1e-9, 1e-12)


def order_case():
    return st.fixed_dictionaries(
        dict(
            v=gen.vs(80, 2400, HINGES),
            dv=gen.num(1, 300),
            mag=gen.mags(2.5, 9, (4.97, 5, 5.849, 7.2)),
            dm=gen.num(0.01, 2),
            dip=gen.num(10, 89, (45,)),
            region=st.sampled_from(REGIONS),
            mech=st.sampled_from(["SS", "NS", "RS", "U"]),
        )
    )


def check_order(c, rec):
    """Softer sites are deeper, larger earthquakes shallower and wider."""
    rec.nontrivial()
    v, w, region = c["v"], c["v"] + c["dv"], c["region"]
    for name, f in (
        ("ASK14 calc_depth_1_0", lambda x: ASK.calc_depth_1_0(x, region)),
        ("CY14 calc_depth_1_0", lambda x: CY.calc_depth_1_0(x, region)),
        ("CB14 calc_depth_2_5", lambda x: CB.calc_depth_2_5(x, region)),
    ):
        a, b = float(f(v)), float(f(w))
        require(a > b > 0, "%s grows from %r at %r m/s to %r at %r m/s", name, a, v, b, w)
    m, n = c["mag"], c["mag"] + c["dm"]
    for name, f in (
        ("ASK14 calc_depth_tor", ASK.calc_depth_tor),
        ("CY14 calc_depth_tor", lambda x: CY.calc_depth_tor(x, c["mech"])),
        ("ASK14 calc_width", lambda x: -ASK.calc_width(x, c["dip"])),
        ("CB14 calc_width", lambda x: -CB.calc_width(x, c["dip"], 0.0)),
    ):
        a, b = float(f(m)), float(f(n))
        require(a >= b, "%s has the wrong order at magnitudes %r and %r: %r and %r", name, m, n, abs(a), abs(b))


PROPERTY = Property(
    "C19",
    [
        Law("site_term", site_case, check_site, 16000, "every case: reference motion, velocity, depth and region of a site term"),
        Law("split", split_case, check_split, 3000, "a scenario whose median was rebuilt from the reference site"),
        Law("estimates", est_case, check_est, 8000, "every case: all estimators at generated arguments"),
        Law("order", order_case, check_order, 3000, "every case: two velocities and two magnitudes"),
    ],
    "Distinct arguments of a public site term or estimator, compared with the reference or with what the models themselves report.",
    ["the reference site terms and estimators were written from the publications"],
)
