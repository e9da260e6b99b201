"""C04: subduction-zone spectral models."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, models
from ..harness import Law, Property, ref, same
from ..ref import other

ADJ = gen.num(-0.6, 0.6, (0, 0.2, -0.3))


def aga_case():
    return st.fixed_dictionaries(
        dict(
            s=gen.far("aga16"),
            adjust_c1=st.one_of(st.none(), st.none(), ADJ, st.lists(ADJ, min_size=23, max_size=23)),
            scale_atten=st.one_of(st.none(), gen.num(0.2, 2.0, (1.0,))),
            adjust_c4=st.one_of(st.none(), gen.num(-5, 10, (0.0,))),
        )
    )


def pnnl_case():
    return st.fixed_dictionaries(dict(s=gen.far("pnnl14"), scale_atten=st.one_of(st.none(), gen.num(0.2, 2.0, (1.0,)))))


def compare(key, m, want, tol=1e-8):
    rows = models.ROWS[key]
    same("%s periods" % key, m.periods, models.PERIODS[key][rows["psa"]], tol)
    for im, idx in rows.items():
        med, std = models.IMS[im]
        same("%s %s" % (key, med), np.log(getattr(m, med)), want["ln"][idx], tol, tol)
        same("%s %s" % (key, std), getattr(m, std), want["std"][idx], tol, tol)


def check_aga(case, rec):
    s, a, f, d = case["s"], case["adjust_c1"], case["scale_atten"], case["adjust_c4"]
    kw = {}
    if a is not None:
        kw["adjust_c1"] = a
    if f is not None:
        kw["scale_atten"] = f
    if d is not None:
        kw["adjust_c4"] = d
    m = models.build("aga16", s, **kw)
    want = ref(other.aga16, s, a, 1.0 if f is None else f, d or 0.0)
    rec.tag(*gen.tags(s))
    rec.tag("adjust_c1 " + ("default" if a is None else "scalar" if isinstance(a, float) else "per period"))
    rec.tag("scale_atten " + ("default" if f is None else "given"))
    rec.nontrivial()
    compare("aga16", m, want)
    same("adjust_c1 in use", np.zeros(23) + m.adjust_c1, want["adjust_c1"])
    same("scale_atten in use", m.scale_atten, 1.0 if f is None else f)
    same("adjust_c4 in use", m.adjust_c4, d or 0.0)


def check_pnnl(case, rec):
    s, f = case["s"], case["scale_atten"]
    m = models.build("pnnl14", s, **({} if f is None else dict(scale_atten=f)))
    want = ref(other.pnnl14, s, 1.0 if f is None else f)
    rec.tag(*gen.tags(s))
    rec.nontrivial()
    compare("pnnl14", m, want)
    same("adjust_c1 in use", np.zeros(14) + m.adjust_c1, want["adjust_c1"])


PROPERTY = Property(
    "C04",
    [
        Law("aga16", aga_case, check_aga, 10000, "an accepted scenario with its adjustments, compared at every period and PGA"),
        Law("pnnl14", pnnl_case, check_pnnl, 6000, "an accepted scenario with its attenuation scale, compared at every period and PGA"),
    ],
    "A distinct scenario and set of regional adjustments whose medians and standard deviations were all compared with the reference.",
    ["the reference models and their frozen coefficient tables transcribe the publications"],
)
