"""C07: crustal duration models."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, models
from ..harness import Law, Property, ref, require, same
from ..ref import dur
from .arrays import FLAT, FORMS, huge, whole, wrap


def nias():
    return gen.num(0.02, 0.99, (0.1, 0.75, 0.95, 0.5, 0.3))


def as96_case():
    return st.fixed_dictionaries(
        dict(
            s=gen.far("as96"),
            nias=st.lists(nias(), min_size=1, max_size=6),
            stds=st.one_of(st.none(), st.lists(gen.num(-3, 3, (0, 1, -1)), min_size=1, max_size=3)),
            array=st.booleans(),
        )
    )


def check_as96(case, rec):
    s, n, z = case["s"], case["nias"], case["stds"]
    m = models.build("as96", s)
    rec.tag(*gen.tags(s))
    rec.tag("outside 10-95%" if min(n) < 0.1 or max(n) > 0.95 else "inside 10-95%")
    rec.nontrivial()
    same("duration", m.duration, ref(dur.as96, s, 0.75), 1e-8)
    require(math.isclose(float(m.std_err), 0.55), "std_err is %r", m.std_err)
    arg = np.array(n) if case["array"] else list(n)
    if z is None:
        rec.tag("median")
        got, want = m.interp(arg), ref(lambda: [dur.as96(s, i) for i in n])
    else:
        rec.tag("with sigma levels")
        got, want = m.interp(arg, stds=z), ref(lambda: [[dur.as96(s, i, k) for i in n] for k in z])
    same("interp", got, want, 1e-8)
    require(list(arg) == n, "interp changed the intensities it was given: %s", list(arg))
    same("calc_ln_dur_incr", type(m).calc_ln_dur_incr(n), ref(lambda: [dur.as96_incr(i) for i in n]), 1e-8)


def many_case():
    return st.fixed_dictionaries(
        dict(
            s=gen.GEN["as96"](),
            nias=gen.long(0.02, 0.99, (0.1, 0.75, 0.95, 0.5, 0.3), most=300).map(lambda x: x or [0.5]),
            stds=st.one_of(st.none(), gen.long(-3, 3, (0, 1, -1), most=40).map(lambda x: x or [1.0])),
            form=gen.pick(*FORMS),
        )
    )


def check_many(case, rec):
    """Long lists and arrays of any shape of intensities, many levels."""
    m = models.build("as96", case["s"])
    z = case["stds"]
    form = case["form"] if z is None or case["form"] in FLAT else "array"
    arg, n = wrap(case["nias"], form)
    rec.tag(form, "median" if z is None else "with sigma levels")
    rec.nontrivial(len(n) > 6)
    got = m.interp(arg) if z is None else m.interp(arg, stds=z)
    want = ref(lambda: [[dur.as96(case["s"], float(i), k) for i in n] for k in z or [0.0]])
    shape = np.shape(arg) if z is None else (len(z), len(n))
    require(np.shape(got) == shape, "the shape is %s for intensities of the shape %s", np.shape(got), np.shape(arg))
    same("interp", np.ravel(got), np.ravel(want), 1e-8)


def huge_case():
    return st.fixed_dictionaries(dict(s=gen.GEN["as96"](), size=huge(), stds=gen.pick(None, [0.0], [-1.0, 0.0, 1.0])))


def check_huge(case, rec):
    """Very long arrays, against their pieces."""
    n, seed, z = case["size"]["n"], case["size"]["seed"], case["stds"]
    m = models.build("as96", case["s"])
    rec.tag("more than 4096" if n > 4096 else "up to 4096")
    rec.nontrivial()
    x = np.random.default_rng(seed).uniform(0.09, 0.96, n)
    whole("interp", m.interp if z is None else lambda v: m.interp(v, stds=z), [x], seed)


def check_ks06(s, rec):
    m = models.build("ks06", s)
    d, e = ref(dur.ks06, s)
    rec.tag(*gen.tags(s))
    rec.nontrivial()
    require(m.duration.dtype.names == ("D_5t75a", "D_5t95a", "D_5t75v", "D_5t95v"), "fields %s", m.duration.dtype.names)
    require(m.std_err.dtype.names == m.duration.dtype.names, "fields %s", m.std_err.dtype.names)
    for name, got, a in zip(m.duration.dtype.names, models.fields(m.duration), d):
        if abs(a) < 1e-6:
            continue
        if a > 0:
            same(name, got, a, 1e-8)
        else:
            rec.tag("published duration negative")
            require(not got > 0, "%s is %r where the published duration is negative", name, got)
    same("std_err", models.fields(m.std_err), e)


@st.composite
def as16_case(draw):
    # any other mechanism is replaced by the unspecified one, with a warning
    return dict(draw(gen.far("as16")), mechanism=draw(gen.pick("SS", "NS", "RS", "U")))


def check_as16(s, rec):
    m = models.build("as16", s)
    d, e = ref(dur.as16, dict(s, mechanism=None if s["mechanism"] == "U" else s["mechanism"]))
    rec.tag(*gen.tags(s))
    rec.nontrivial()
    require(m.duration.dtype.names == ("D_5t75", "D_5t95", "D_20t80"), "fields %s", m.duration.dtype.names)
    require(m.std_err.dtype.names == m.duration.dtype.names, "fields %s", m.std_err.dtype.names)
    same("duration", models.fields(m.duration), d, 1e-8)
    same("std_err", models.fields(m.std_err), e, 1e-8)


def order_case():
    return st.fixed_dictionaries(
        dict(model=gen.pick("as96", "ks06", "as16"), a=gen.GEN["as16"](limits=True), dr=gen.num(0.0, 100.0), soil=gen.pick("soil", "rock"), di=gen.num(0.0, 0.5), i=gen.num(0.1, 0.95))
    )


def check_order(case, rec):
    key, a = case["model"], case["a"]
    far = dict(a, dist_rup=a["dist_rup"] + case["dr"])
    keys = dict(as96=("mag", "dist_rup", "site_cond"), ks06=("mag", "dist_rup", "v_s30"), as16=tuple(a))[key]
    sub = lambda d: {k: dict(d, site_cond=case["soil"])[k] for k in keys}  # noqa: E731
    m, n = models.build(key, sub(a)), models.build(key, sub(far))
    rec.tag(key)
    rec.nontrivial(case["dr"] > 0)
    if key == "as96":
        require(m.duration <= n.duration * (1 + 1e-12), "shorter at a larger distance: %r %r", m.duration, n.duration)
        i, j = case["i"], min(case["i"] + case["di"], 0.95)
        x = m.interp([i, j])
        require(x[0] <= x[1] * (1 + 1e-12), "duration decreases from %r to %r of the Arias intensity: %s", i, j, x)
    else:
        p, q = models.fields(m.duration), models.fields(n.duration)
        for x, y in zip(p, q):
            require(not x > y * (1 + 1e-12), "shorter at a larger distance: %s %s", p, q)
        if key == "as16":
            require(p[0] <= p[1], "D5-75 %r exceeds D5-95 %r", p[0], p[1])


PROPERTY = Property(
    "C07",
    [
        Law("as96", as96_case, check_as96, 10000, "an accepted scenario with a list of Arias intensities"),
        Law("ks06", lambda: gen.far("ks06"), check_ks06, 8000, "an accepted scenario compared for the four measures"),
        Law("as16", as16_case, check_as16, 12000, "an accepted scenario compared for the three measures"),
        Law("order", order_case, check_order, 4000, "two scenarios that differ in distance"),
        Law("huge", huge_case, check_huge, 48, "every case: at least a thousand intensities"),
        Law("many", many_case, check_many, 300, "more than six intensities"),
    ],
    "A distinct scenario whose durations and standard errors were compared with the reference, or a distinct pair of scenarios that differ in distance.",
    ["the reference models transcribe the publications"],
)
