"""The models under test, by a short key, with how to build them."""

import pygmm
import numpy as np
from pygmm import Scenario  # noqa: F401

from pygmm.pinilla_ramos_et_al_2023 import PinillaRamosEtAl2023
from pygmm.pinilla_ramos_et_al_2024 import PinillaRamosEtAl2024

from .harness import same

CLASS = dict(
    ask14=pygmm.AbrahamsonSilvaKamai2014,
    bssa14=pygmm.BooreStewartSeyhanAtkinson2014,
    cb14=pygmm.CampbellBozorgnia2014,
    cy14=pygmm.ChiouYoungs2014,
    i14=pygmm.Idriss2014,
    asb14=pygmm.AkkarSandikkayaBommer2014,
    dbc14=pygmm.DerrasBardCotton2014,
    ab06=pygmm.AtkinsonBoore2006,
    c03=pygmm.Campbell2003,
    pea11=pygmm.PezeshkZandiehTavakoli2011,
    tp05=pygmm.TavakoliPezeshk05,
    aga16=pygmm.AbrahamsonGregorAddo2016,
    pnnl14=pygmm.CoppersmithBommer2014,
    ga11=pygmm.GulerceAbrahamson2011,
    ba19=pygmm.BaylessAbrahamson2019,
    as96=pygmm.AbrahamsonSilva1996,
    ks06=pygmm.KemptonStewart2006,
    as16=pygmm.AfshariStewart2016,
    pr23=PinillaRamosEtAl2023,
    pr24=PinillaRamosEtAl2024,
)

# Intensity measures of the spectral models: rows of the reference tables
from .ref import nga2, other  # noqa: E402

ROWS = dict(
    ask14=dict(pga=nga2.ASK_PGA, pgv=nga2.ASK_PGV, psa=nga2.ASK_PSA),
    bssa14=dict(pga=nga2.BSSA_PGA, pgv=nga2.BSSA_PGV, psa=nga2.BSSA_PSA),
    cb14=dict(pga=nga2.CB_PGA, pgv=nga2.CB_PGV, psa=nga2.CB_PSA),
    cy14=dict(pga=nga2.CY_PGA, pgv=nga2.CY_PGV, psa=nga2.CY_PSA),
    i14=dict(pga=nga2.I_PGA, psa=nga2.I_PSA),
    asb14=dict(pga=0, pgv=1, psa=slice(2, 64)),
    dbc14=dict(pgv=0, pga=1, psa=slice(2, 64)),
    ab06=dict(pgd=0, pgv=1, pga=2, psa=slice(3, 27)),
    c03=dict(psa=slice(0, 16)),
    pea11=dict(pga=0, psa=slice(1, 23)),
    tp05=dict(pga=0, psa=slice(1, 14)),
    aga16=dict(pga=0, psa=slice(1, 23)),
    pnnl14=dict(pga=0, psa=slice(0, 14)),
)
PERIODS = dict(
    ask14=nga2.ASK.period, bssa14=nga2.BSSA.period, cb14=nga2.CB.period, cy14=nga2.CY.period, i14=nga2.IS.period,
    asb14=other.ASB["dist_jb"].period, dbc14=other.np.array(other.DBC["period"]), ab06=other.AB_BC.period, c03=other.C3.period,
    pea11=other.PZ.period, tp05=other.TP.period, aga16=other.BCH.period, pnnl14=other.PNNL.period,
)  # fmt: skip
REF = dict(
    ask14=nga2.ask14, bssa14=nga2.bssa14, cb14=nga2.cb14, cy14=nga2.cy14, i14=nga2.i14, asb14=other.asb14, dbc14=other.dbc14,
    ab06=other.ab06, c03=other.c03, pea11=other.pea11, tp05=other.tp05, aga16=other.aga16, pnnl14=other.pnnl14,
)  # fmt: skip


def build(key, s, **kw):
    return CLASS[key](Scenario(**{k: v for k, v in s.items() if v is not None}), **kw)


SPECTRAL = list(ROWS)
IMS = dict(pga=("pga", "ln_std_pga"), pgv=("pgv", "ln_std_pgv"), pgd=("pgd", "ln_std_pgd"), psa=("spec_accels", "ln_stds"))


def fields(rec):
    """Fields of a duration record, in order."""
    return [float(np.ravel(rec[n])[0]) for n in rec.dtype.names]


def snap(key, m):
    """Everything a model reports, as {name: array}."""
    out = {}
    if key in ROWS:
        out["periods"] = m.periods
        for im in ROWS[key]:
            for name in IMS[im]:
                out[name] = getattr(m, name)
        lo, hi = float(np.min(m.periods)), float(np.max(m.periods))
        at = [lo * (hi / lo) ** f for f in (0.17, 0.5, 0.83)]
        out["interp_spec_accels"] = m.interp_spec_accels(at)
        out["interp_ln_stds"] = m.interp_ln_stds(at)
    elif key == "ga11":
        out.update(ratio=m.ratio, ln_std=m.ln_std, interp_ratio=m.interp_ratio([0.05, 0.3, 2.2]), interp_ln_std=m.interp_ln_std([0.05, 0.3, 2.2]))
    elif key == "ba19":
        out.update(freqs=m.freqs, eas=m.eas, ln_eas=m.ln_eas, ln_std=m.ln_std)
    elif key == "as96":
        out.update(duration=m.duration, std_err=m.std_err, interp=m.interp([0.1, 0.5, 0.75, 0.95], stds=[-1.0, 0.0, 1.0]))
    elif key in ("ks06", "as16"):
        out.update(duration=fields(m.duration), std_err=fields(m.std_err))
    elif key == "pr23":
        out.update(duration=[m.duration, m.duration_plus_sigma, m.duration_minus_sigma], d45=m.duration_for_energy(0.45), d95=m.duration_for_energy(0.95))
    elif key == "pr24":
        out.update(
            duration=[m.duration, m.duration_plus_sigma, m.duration_minus_sigma],
            d575=[m.d575_median, m.d575_sigma],
            d590=[m.d5x_median("D5-90"), m.d5x_sigma("D5-90")],
            d45=m.duration_for_energy(0.45),
            d95=m.duration_for_energy(0.95),
        )
    return {k: _real(v) for k, v in out.items()}


def _real(v):
    """As floats; an undefined bound (a root of a negative number) is NaN."""
    v = np.array(v)
    if v.dtype.kind == "c":
        return np.where(v.imag == 0, v.real, np.nan)
    return v.astype(float)


ALL = list(CLASS)


# --- what the reference models expect -------------------------------------------

from .ref import dur  # noqa: E402


def expected(key, s):
    """Main results by the reference model: {name: (array, kind)}.

    kind is "log" for values to be compared by their logarithm.
    """
    s = {k: s.get(k) for k in set(s) | {p[0] for p in PARAMS[key]}}
    out = {}
    if key in ROWS:
        w = REF[key](s)
        for im, idx in ROWS[key].items():
            med, std = IMS[im]
            out[med] = (np.exp(w["ln"][idx]), "log")
            out[std] = (w["std"][idx], "lin")
    elif key == "ga11":
        w = other.ga11(s)
        out.update(ratio=(np.exp(w["ln"]), "log"), ln_std=(w["std"], "lin"))
    elif key == "ba19":
        w = other.ba19(s)
        out.update(ln_eas=(w["ln"], "lin"), ln_std=(w["std"], "lin"))
    elif key == "as96":
        out.update(duration=(dur.as96(s, 0.75), "log"))
    elif key in ("ks06", "as16"):
        d, e = (dur.ks06 if key == "ks06" else dur.as16)(s)
        d = [x if x > 1e-6 else np.nan for x in d]
        out.update(duration=(d, "log"), std_err=(e, "lin"))
    else:
        d = (dur.pr23 if key == "pr23" else dur.pr24)(s)
        out.update(duration=(d, "log"))
        if key == "pr24":
            out["d575"] = (dur.pr24_d575(s), "log")
    return out


from .ref.params import PARAMS  # noqa: E402


def agree(key, got, want, note=""):
    """A snapshot against the expected results (undefined bounds are skipped)."""
    for name, (w, kind) in want.items():
        g, w = np.array(got[name], dtype=float).reshape(-1), np.array(w, dtype=float).reshape(-1)
        if kind == "log":
            ok = np.isfinite(w) & (w > 1e-7)
            with np.errstate(all="ignore"):
                g, w = np.log(g[ok]), np.log(w[ok])
        same("%s %s%s" % (key, name, note), g, w, 1e-7, 1e-7)
