"""C15: every model offers finite, positive, mutually consistent measures."""

import numpy as np
import pygmm
from hypothesis import strategies as st
from pygmm import Scenario

from .. import gen, models
from ..harness import Law, Property, Violation, alike, ref, require, same

ACCESSORS = ("pga", "ln_std_pga", "pgv", "ln_std_pgv", "pgd", "ln_std_pgd", "spec_accels", "ln_stds")


@st.composite
def spectral_case(draw):
    key = draw(st.sampled_from(models.SPECTRAL))
    return dict(model=key, s=gen.clean(draw(gen.GEN[key](limits=True))), order=draw(st.permutations(range(len(ACCESSORS)))))


def strange(s):
    """Distances that no rupture has (the response may underflow)."""
    rup = s.get("dist_rup", np.inf)
    return s.get("dist_jb", 0.0) > rup or abs(s.get("dist_x", 0.0)) > rup or s.get("width", 0.0) > 60


def check_spectral(case, rec):
    key = case["model"]
    m = models.build(key, case["s"])
    rec.tag(key)
    rec.nontrivial()
    offered = {name for im in models.ROWS[key] for name in models.IMS[im]}
    got = {}
    for i in case["order"]:
        name = ACCESSORS[i]
        try:
            v = getattr(m, name)
        except NotImplementedError:
            require(name not in offered, "%s does not offer %s", key, name)
            continue
        require(name in offered, "%s offers %s = %r without a model of it", key, name, v)
        got[name] = np.array(v, dtype=float)
        require(np.all(np.isfinite(got[name])), "%s %s is not finite: %r", key, name, v)
        require(np.all(got[name] > 0) or strange(case["s"]), "%s %s is not positive: %r", key, name, v)
        require(not name.startswith("ln_std") or np.all(got[name] < 2), "%s %s is %r", key, name, v)
    require(set(got) == offered, "%s offers %r", key, sorted(got))
    for name, v in got.items():
        alike("%s %s read again" % (key, name), getattr(m, name), v)
        require(v.ndim == (1 if name in ("spec_accels", "ln_stds") else 0), "%s %s has %d dimensions", key, name, v.ndim)
    p = np.asarray(m.periods)
    require(p.ndim == 1 and len(p) == len(got["spec_accels"]) == len(got["ln_stds"]), "%s: lengths of the spectrum differ", key)
    require(np.all(np.diff(p) > 0) and p[0] > 0, "%s periods do not increase", key)
    same("%s interp_spec_accels at the periods" % key, m.interp_spec_accels(p), got["spec_accels"], 1e-10, 0)
    same("%s interp_ln_stds at the periods" % key, m.interp_ln_stds(p), got["ln_stds"], 1e-10, 0)
    sa = got["spec_accels"]
    if strange(case["s"]):
        rec.tag("impossible geometry")
        return
    require(np.all(sa < 100), "%s spectral acceleration of %r g", key, sa.max())
    if "pga" in got:
        # the zero-period limit of the spectrum
        r = float(got["pga"] / sa[0])
        require(0.1 < r < 10, "%s PGA is %r times the spectral acceleration at %r s", key, r, p[0])
    if "pgv" in got:
        # a pseudo-velocity in the same unit (cm/sec)
        psv = np.max(sa * p) * 981 / (2 * np.pi)
        r = float(got["pgv"] / psv)
        rec.tag("pgv/psv %s" % ("<0.3" if r < 0.3 else "0.3-1" if r < 1 else ">1"))
        require(0.005 < r < 20, "%s PGV is %r times the peak pseudo-velocity", key, r)
    if "pgd" in got:
        r = float(got["pgd"] / (np.max(sa * p**2) * 981 / (2 * np.pi) ** 2))
        require(0.002 < r < 200, "%s PGD is %r times the peak pseudo-displacement", key, r)


@st.composite
def other_case(draw):
    key = draw(gen.pick("ga11", "ba19", "as96", "ks06", "as16", "pr23", "pr24"))
    return dict(model=key, s=gen.clean(draw(gen.GEN[key](limits=True))), energy=draw(gen.num(0.1, 0.95, (0.75, 0.5, 0.95))))


def check_other(case, rec):
    key, s = case["model"], case["s"]
    m = models.build(key, s)
    want = ref(models.expected, key, s)
    got = models.snap(key, m)
    rec.tag(key)
    rec.nontrivial()
    for name, v in got.items():
        if name in ("ln_eas",):
            require(np.all(np.isfinite(v)), "%s %s is not finite", key, name)
            continue
        v = v.reshape(-1)
        if name == "duration" and key not in ("as96",):
            v = v[np.isfinite(np.array(want["duration"][0], dtype=float).reshape(-1))]
        if name in ("d45", "d95"):
            v = v[:1]
        if key == "ba19" and name == "ln_std":
            # the publication has no standard deviation above 24 Hz
            v = v[m.freqs < 24]
        require(np.all(np.isfinite(v)) and np.all(v > 0), "%s %s is not finite and positive: %r", key, name, v)
        if name in ("ln_std", "std_err"):
            require(np.all(v < 2), "%s %s is %r", key, name, v)
    if key == "ga11":
        require(len(m.ratio) == len(m.ln_std), "lengths differ")
        p = m.PERIODS[m.INDICES_PSA]
        same("interp_ratio at the periods", m.interp_ratio(p), m.ratio[m.INDICES_PSA], 1e-10, 0)
    elif key == "ba19":
        require(len(m.freqs) == len(m.eas) == len(m.ln_std), "lengths differ")
        require(np.all(np.diff(m.freqs) > 0) and m.freqs[0] > 0, "frequencies do not increase")
        same("eas", np.log(m.eas), m.ln_eas, 1e-10, 1e-10)


# As documented, and as in the titles of the publications
NAMES = dict(
    ask14=("Abrahamson, Silva, & Kamai (2014)", "ASK14"),
    bssa14=("Boore, Stewart, Seyhan, and Atkinson (2014)", "BSSA14"),
    cb14=("Campbell & Bozorgnia (2014)", "CB14"),
    cy14=("Chiou and Youngs (2014)", "CY14"),
    i14=("Idriss (2014)", "I14"),
    asb14=("Akkar, Sandikkaya, & Bommer (2014)", "ASB14"),
    dbc14=("Derras, Bard & Cotton (2014)", "DBC13"),
    ab06=("Atkinson and Boore (2006)", "AB06"),
    c03=("Campbell (2003)", "C03"),
    pea11=("Pezeshk et al. (2011)", "Pea11"),
    tp05=("Tavakoli and Pezeshk (2005)", "TP05"),
    aga16=("Abrahamson, Gregor, & Addo (2016)", "AGA16"),
    pnnl14=("Coppersmith and Bommer (2014)", "CB14"),
    ga11=("Gülerce & Abrahamson (2011)", "GA11"),
    ba19=("Bayless and Abrahamson (2019)", "BA19"),
    as96=("Abrahamson Silva (1996)", "AS96"),
    ks06=("Kempton Stewart (2006)", "KS06"),
    as16=("Afshari and Stewart (2016)", "AS16"),
    pr23=("Pinilla-Ramos et al. (2023)", "PR23"),
    pr24=("Pinilla-Ramos et al. (2024)", "PR24"),
)
# The models that the package lists for those who compare them
LISTED = [k for k in models.ALL if k not in ("aga16", "pnnl14", "pr23", "pr24")]


def names_case():
    return st.fixed_dictionaries(dict(model=st.sampled_from(models.ALL), other=st.sampled_from(models.ALL)))


def check_names(case, rec):
    """Models tell their names; the package exports them."""
    key = case["model"]
    a, b = models.CLASS[key], models.CLASS[case["other"]]
    rec.nontrivial(a is not b)
    require((a.NAME, a.ABBREV) == NAMES[key], "%s has the name %r and the abbreviation %r instead of %r", key, a.NAME, a.ABBREV, NAMES[key])
    require(a is b or a.NAME != b.NAME, "%s and %s have the same name", a, b)
    require(key not in LISTED or pygmm.models.count(a) == 1, "%s is %d times in the list of models", key, pygmm.models.count(a))


def ab20_case():
    return st.fixed_dictionaries(
        dict(
            mag=gen.mags(3, 8, (5, 7, 7.5)),
            dist_rup=gen.dist(0.1, 300, (10, 100)),
            v_s30=gen.vs(180, 1500, (425, 760)),
            given=gen.pick("pga", "psa_1s", "pga"),
            amp=gen.num(0.001, 2, (0.1,), log=True),
            others=st.booleans(),
        )
    )


def check_ab20(case, rec):
    kw = {case["given"]: case["amp"]}
    if case["others"]:
        kw = dict(dict(psa=None, pga=None, psa_1s=None), **kw)
    rec.nontrivial()
    try:
        pygmm.AbrahamsonBhasin2020(Scenario(mag=case["mag"], dist_rup=case["dist_rup"], v_s30=case["v_s30"]), **kw)
    except Exception as e:
        raise Violation("AB20 cannot be built from %r: %r" % (kw, e), "ab20-unusable")


def check_period(case, rec):
    rec.nontrivial()
    same("ln_period_pgv", pygmm.AbrahamsonBhasin2020.ln_period_pgv(case["mag"]), ref(lambda: 0.66 * case["mag"] - 4.09))


PROPERTY = Property(
    "C15",
    [
        Law("spectral", spectral_case, check_spectral, 9000, "every case: a scenario within the recommended limits"),
        Law("other", other_case, check_other, 5000, "every case: a scenario within the recommended limits"),
        Law("names", names_case, check_names, 200, "two different models"),
        Law("ab20", ab20_case, check_ab20, 200, "every case: a conditional PGV requested from PGA or the 1 s spectral acceleration"),
        Law("ab20_period", ab20_case, check_period, 400, "every case: a magnitude"),
    ],
    "A distinct scenario within the recommended limits of its model, for which every measure was requested and compared with the others.",
    [
        "vertical durations of KS06 are excluded where the published duration is negative, and the lower bounds of PR23 and PR24 where they are not defined",
    ],
)
