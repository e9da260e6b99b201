"""C22: a number is a number, whatever its type."""

import numpy as np
from hypothesis import strategies as st
from pygmm import BaylessAbrahamson2018 as BA18
from pygmm import Scenario
from pygmm import Stafford2017 as PJS
from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum, calc_correls
from pygmm.kishida_2017 import calc_cond_mean_spectrum_vector

from .. import gen, models
from ..harness import Law, Property, require, same
from ..ref.params import PARAMS

WHOLE = dict(int=int, int64=np.int64, int32=np.int32, int16=np.int16, int8=np.int8, uint64=np.uint64, uint32=np.uint32, uint16=np.uint16, uint8=np.uint8)
FLOAT = dict(float=float, float64=np.float64, float32=np.float32, float16=np.float16)
TYPES = dict(WHOLE, **FLOAT)
FLAG = dict(bool=bool, bool_=np.bool_, int=int, float=float)
TEXT = dict(str=str, str_=np.str_)


def fits(t, v):
    """If a number can be told in a type."""
    if t in ("int", *FLOAT):
        return t in FLOAT or v == round(v)
    return v == round(v) and np.iinfo(TYPES[t]).min <= v <= np.iinfo(TYPES[t]).max


NUMERIC = {k: [p[0] for p in PARAMS[k] if p[5] is None] for k in models.ALL}


@st.composite
def case_(draw):
    key = draw(st.sampled_from(models.ALL))
    s = gen.repair(key, draw(gen.GEN[key]()))
    if draw(gen.bits(2)) == 0:
        return typed(draw, key, gen.clean(s))
    for k in NUMERIC[key]:
        if s.get(k) is not None:
            s[k] = float(round(s[k]))
    if key == "ga11":
        s["pga_ref"] = max(s["pga_ref"], 1.0)
    if s.get("width") is not None:
        s["width"] = max(s["width"], 1.0)
    for k in ("dist_rup", "dist_jb", "dist_hyp", "dist_epi"):
        if s.get(k) is not None and key not in ("cb14",):
            s[k] = max(s[k], 1.0)
    if key == "cb14":
        s["depth_2_5"] = max(s["depth_2_5"], 1.0) if s["depth_2_5"] is not None else None
        s = gen.repair(key, s)
        if s["depth_bor"] is not None and s["depth_tor"] is None:
            s["depth_bor"] = max(s["depth_bor"], 12.0)
    return typed(draw, key, gen.clean(s))


def typed(draw, key, s):
    given = [k for k in NUMERIC[key] if k in s]
    default = draw(st.sampled_from(sorted(TYPES)))
    types = {}
    for k in given:
        first = draw(st.sampled_from(sorted(TYPES))) if draw(gen.bits(3)) == 0 else default
        types[k] = first if fits(first, s[k]) else "int" if first in WHOLE and fits("int", s[k]) else "float32"
    for k, v in s.items():
        if isinstance(v, bool):
            types[k] = draw(st.sampled_from(sorted(FLAG)))
        elif isinstance(v, str):
            types[k] = draw(st.sampled_from(sorted(TEXT)))
    return dict(model=key, s=s, types=types)


def cast(v, t):
    return (FLAG if isinstance(v, bool) else TEXT if isinstance(v, str) else TYPES)[t](v)


def check(case, rec):
    key, types = case["model"], case["types"]
    t = {k: cast(v, types[k]) if k in types else v for k, v in case["s"].items()}
    s = {k: v if isinstance(v, (bool, str)) else float(t[k]) for k, v in case["s"].items()}
    rec.tag(key, "whole" if all(v == round(v) for v in s.values() if isinstance(v, float)) else "fractions", *types.values())
    rec.nontrivial(any(x not in ("float", "str", "bool") for x in types.values()))
    with np.errstate(all="ignore"):
        a = models.snap(key, models.build(key, s))
        m = models.CLASS[key](Scenario(**t))
        b = models.snap(key, m)
    for n in a:
        same("%s %s with the types %r" % (key, n, types), b[n], a[n], 1e-9, 1e-12)
    for k in types:
        require(m.scenario[k] == s[k], "%s was given %s = %r and reports %r", key, k, t[k], m.scenario[k])


ARRAYS = dict(list=list, tuple=tuple, int64=lambda v: np.array(v, np.int64), int32=lambda v: np.array(v, np.int32), object=lambda v: [np.int64(x) for x in v])


@st.composite
def array_case(draw):
    key = draw(st.sampled_from(models.SPECTRAL + ["ga11"]))
    return dict(
        model=key,
        s=gen.clean(draw(gen.GEN[key](limits=True))),
        periods=sorted(draw(st.lists(st.integers(1, 10), min_size=1, max_size=6, unique=True))),
        values=draw(st.lists(st.integers(-6, 2), min_size=6, max_size=6)),
        stds=draw(st.lists(st.integers(1, 2), min_size=6, max_size=6)),
        pick=draw(st.integers(0, 5)),
        mag=draw(st.integers(3, 8)),
        kind=draw(st.sampled_from(sorted(ARRAYS))),
    )


def check_arrays(case, rec):
    """Lists and arrays of whole numbers are those of floating-point numbers."""
    key, p, kind = case["model"], case["periods"], case["kind"]
    n = len(p)
    rec.tag(kind, key)
    rec.nontrivial()
    w = ARRAYS[kind]
    f = lambda v: np.array(v, dtype=float)  # noqa: E731
    m = models.build(key, case["s"])
    names = ("interp_ratio", "interp_ln_std") if key == "ga11" else ("interp_spec_accels", "interp_ln_spec_accels", "interp_ln_stds")
    for name in names:
        same("%s %s of whole periods" % (key, name), getattr(m, name)(w(p)), getattr(m, name)(f(p)), 1e-12)
    mu, sd, i = case["values"][:n], case["stds"][:n], case["pick"] % n
    c = case["values"][-1]
    same("BJ08 correlations", calc_correls(w(p), p[i]) if kind.startswith("int") else calc_correls(np.array(p), p[i]), calc_correls(f(p), float(p[i])), 1e-12)
    for x, y in zip(calc_cond_mean_spectrum(w(p), w(mu), w(sd), p[i], c), calc_cond_mean_spectrum(f(p), f(mu), f(sd), float(p[i]), float(c))):
        same("BJ08 conditional spectrum", x, y, 1e-12, 1e-12)
    mask = [j != i for j in range(n)]
    at = np.ma.masked_array([c] * n, mask=mask)
    for x, y in zip(
        calc_cond_mean_spectrum_vector(w(p), w(mu), w(sd), at),
        calc_cond_mean_spectrum_vector(f(p), f(mu), f(sd), at.astype(float)),
    ):
        same("conditional spectrum of several periods", x, y, 1e-10, 1e-10)
    same("BA18 correlation", BA18.corr(w(p)), BA18.corr(f(p)), 1e-12)
    same("BA18 covariance", BA18.cov(w(p), std=w(sd)), BA18.cov(f(p), std=f(sd)), 1e-12)
    same("Stafford covariance", PJS.cov(w(p), sigma_S=w(sd), mag=case["mag"]), PJS.cov(f(p), sigma_S=f(sd), mag=float(case["mag"])), 1e-12)


PROPERTY = Property(
    "C22",
    [
        Law("types", case_, check, 9000, "at least one number that is not a Python float, or flag or category of another type"),
        Law("arrays", array_case, check_arrays, 800, "every case: lists or arrays of whole numbers"),
    ],
    "A distinct scenario given with another mix of Python and NumPy number types, or lists or arrays of whole numbers, compared with the one of Python floats.",
    ["a number is compared with the same number as a Python float, so what the conversion to 32 or 16 bits rounds off is not at issue", "arrays of whole numbers have 32 or 64 bits"],
)
