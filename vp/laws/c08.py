"""C08: duration models for crustal and subduction events with energy thresholds."""

import math
import warnings

import numpy as np
from hypothesis import strategies as st
from pygmm import Scenario
from pygmm.pinilla_ramos_et_al_2024 import duration_model

from .. import gen, models
from ..harness import Law, Property, ref, require, same
from ..ref import dur
from .arrays import FORMS, huge, whole, wrap

TOL = 1e-8


def triple(what, got, want, rec):
    require(len(got) == 3, "%s has %d values", what, len(got))
    same(what + " median", got[0], want[0], TOL)
    for k, name in ((1, "+1 sigma"), (2, "-1 sigma")):
        w = want[k]
        if math.isnan(w):
            rec.tag("bound not defined")
            require(isinstance(got[k], complex) or not np.isfinite(got[k]), "%s %s is %r, which is not defined", what, name, got[k])
        else:
            # close to zero the power transform amplifies rounding
            same(what + " " + name, got[k], w, 1e-6, 1e-7)


def ok_threshold(e, table):
    """Far from a tie between two tabulated thresholds."""
    d = sorted(abs(t - e) for t in table)
    return d[1] - d[0] > 1e-3


def energy(table):
    grid = [t for t in table if t >= 0.1]
    return st.one_of(
        st.sampled_from(grid),
        st.tuples(st.sampled_from(grid), gen.num(-0.023, 0.023)).map(lambda t: min(max(float("%.6g" % (t[0] + t[1])), 0.1), 0.95)),
    )


def case23():
    return st.fixed_dictionaries(dict(s=gen.far("pr23"), energies=st.lists(energy(dur.E), min_size=1, max_size=4)))


def case24():
    return st.fixed_dictionaries(dict(s=gen.far("pr24"), energies=st.lists(energy(dur.E24), min_size=1, max_size=4)))


def is_base(e):
    """0.75 itself; values too close to it to tell are not used."""
    return abs(e - 0.75) < 1e-9


def near_base(e):
    return abs(e - 0.75) < 1e-4 and not is_base(e)


def check23(case, rec):
    s = case["s"]
    m = models.build("pr23", s)
    rec.tag(*gen.tags(s))
    base = ref(dur.pr23, s)
    triple("D5-75", (m.duration, m.duration_plus_sigma, m.duration_minus_sigma), base, rec)
    for e in case["energies"]:
        if near_base(e) or not ok_threshold(e, dur.E):
            continue
        rec.nontrivial()
        rec.tag("tabulated threshold" if min(abs(t - e) for t in dur.E) < 1e-9 else "threshold between tabulated ones")
        # the conditional model at 0.75 differs from the base one by rounding only
        triple("D5-%g" % (100 * e), m.duration_for_energy(e), ref(dur.pr23, s, 0.75 if is_base(e) else e), rec)
    same("D5-75 afterwards", m.duration, base[0], TOL)


def check24(case, rec):
    s = case["s"]
    m = models.build("pr24", s)
    rec.tag(*gen.tags(s))
    base = ref(dur.pr24, s)
    med, sig = ref(dur.pr24_d575, s)
    triple("D5-75", (m.duration, m.duration_plus_sigma, m.duration_minus_sigma), base, rec)
    same("d575_median", m.d575_median, med, TOL)
    same("d575_sigma", m.d575_sigma, sig, TOL)
    for name, f in dur.D5X.items():
        same("d5x_median", m.d5x_median(name), f * med, TOL)
        same("d5x_sigma", m.d5x_sigma(name), sig, TOL)
    for e in case["energies"]:
        if near_base(e) or not ok_threshold(e, dur.E24):
            continue
        rec.nontrivial()
        off = min(abs(t - e) for t in dur.E24)
        rec.tag("tabulated threshold" if off < 1e-9 else "threshold between tabulated ones")
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            got = m.duration_for_energy(e)
        triple("D5-%g" % (100 * e), got, ref(dur.pr24, s, 0.75 if is_base(e) else e), rec)
        said = any("threshold" in str(x.message).lower() for x in w)
        if off < 1e-6:
            require(not said, "warned about the tabulated threshold %r", e)
        elif off > 5e-3:
            require(said, "no warning that the threshold %r is replaced", e)
    same("D5-75 afterwards", m.duration, base[0], TOL)


def bad_case():
    return st.fixed_dictionaries(
        dict(
            s=gen.GEN["pr24"](),
            energy=st.one_of(gen.num(-2.0, 0.0999, (0.0,)), gen.num(0.9501, 95.0, (1.0,), log=True)),
            name=st.one_of(st.sampled_from(["D5-15", "D5-100", "D5-5", "75", "D575", "", "d5-75"]), st.text(max_size=5)),
            region=st.one_of(st.sampled_from(["japan", "Chile", "Cascadia", "taiwan", ""]), st.none()),
            event=st.sampled_from(["intraslab", "crustal", "Interface", "", None]),
        )
    )


def raises(fn, *a, **k):
    try:
        fn(*a, **k)
    except ValueError:
        return True
    return False


def check_bad(case, rec):
    s = case["s"]
    rec.nontrivial()
    p = {k: s[k] for k in ("mag", "dist_rup", "v_s30")}
    m23, m24 = models.build("pr23", p), models.build("pr24", s)
    for m in (m23, m24):
        require(raises(m.duration_for_energy, case["energy"]), "%s accepts the threshold %r", type(m).__name__, case["energy"])
    if case["name"] not in dur.D5X:
        require(raises(m24.d5x_median, case["name"]), "accepts the measure %r", case["name"])
    build = lambda d: models.build("pr24", d)  # noqa: E731
    require(raises(build, dict(s, event_type="interface", region="Taiwan")), "accepts interface events in Taiwan")
    require(raises(build, dict(s, region=case["region"])), "accepts the region %r", case["region"])
    require(raises(build, dict(s, event_type=case["event"])), "accepts the event type %r", case["event"])


def vector_case():
    n = st.integers(1, 4)
    return n.flatmap(
        lambda k: st.fixed_dictionaries(
            dict(
                s=gen.GEN["pr24"](),
                mag=st.lists(gen.mags(4.5, 8.5, (6, 7)), min_size=k, max_size=k),
                dist=st.lists(gen.dist(1, 300, (250,)), min_size=k, max_size=k),
                vs=st.lists(gen.vs(150, 2000, (760,)), min_size=k, max_size=k),
                scalar=st.tuples(st.booleans(), st.booleans(), st.booleans()),
                energy=st.sampled_from(dur.E24),
                column=st.booleans(),
            )
        )
    )


def check_vector(case, rec):
    s = case["s"]
    cols = [case["mag"], case["dist"], case["vs"]]
    args = [c[0] if flag else c for c, flag in zip(cols, case["scalar"])]
    if case["column"]:
        args = [a if isinstance(a, float) else np.array(a)[:, None] for a in args]
    full = np.broadcast_arrays(*[np.atleast_1d(a) for a in args])
    rec.tag("%d elements" % full[0].size, "column" if case["column"] else "row", "scalars mixed in" if any(case["scalar"]) else "")
    rec.nontrivial(full[0].size > 1)
    got = duration_model(*args, s["region"], s["event_type"], case["energy"])
    require(len(got) == 3, "%d results", len(got))
    for g in got:
        require(np.shape(g) == full[0].shape, "shape %s instead of %s", np.shape(g), full[0].shape)
    for i, (a, b, c) in enumerate(zip(*[x.ravel() for x in full])):
        want = ref(dur.pr24, dict(s, mag=float(a), dist_rup=float(b), v_s30=float(c)), case["energy"])
        triple("element %d" % i, [np.ravel(g)[i] for g in got], want, rec)


@st.composite
def many_case(draw):
    n = draw(gen.bits(200))
    col = lambda lo, hi, sp, log: (draw(gen.long(lo, hi, sp, log, 200)) + [sp[0]] * max(n, 1))[: max(n, 1)]  # noqa: E731
    return dict(
        s=draw(gen.GEN["pr24"]()),
        cols=[col(4.5, 8.5, (6, 7), False), col(1, 300, (250,), True), col(150, 2000, (760,), True)],
        scalar=[draw(st.booleans()) for _ in range(3)],
        form=draw(gen.pick(*FORMS)),
        energy=draw(st.sampled_from(dur.E24)),
        empty=n == 0,
    )


def check_many(case, rec):
    """Long arrays, of any shape."""
    s, form = case["s"], case["form"]
    if form in ("scalar", "0-d", "list", "tuple", "nested"):
        form = "array" if form != "list" else form
    pairs = [(float(c[0]), None) if flag else wrap([] if case["empty"] else c, form) for c, flag in zip(case["cols"], case["scalar"])]
    full = np.broadcast_arrays(*[np.atleast_1d(a) for a, _ in pairs])
    n = full[0].size
    rec.tag(form, "more than 50" if n > 50 else "up to 50" if n else "empty")
    rec.nontrivial(n > 4)
    got = duration_model(*[a for a, _ in pairs], s["region"], s["event_type"], case["energy"])
    require(len(got) == 3, "%d results for %d elements", len(got), n)
    for g in got:
        require(np.shape(g) == full[0].shape, "shape %s instead of %s", np.shape(g), full[0].shape)
    cols = [x.ravel() for x in full]
    for i in range(n):
        want = ref(dur.pr24, dict(s, mag=float(cols[0][i]), dist_rup=float(cols[1][i]), v_s30=float(cols[2][i])), case["energy"])
        triple("element %d of %d" % (i, n), [np.ravel(g)[i] for g in got], want, rec)


def huge_case():
    return st.fixed_dictionaries(dict(s=gen.GEN["pr24"](), size=huge(), energy=st.sampled_from(dur.E24), scalar=st.tuples(st.booleans(), st.booleans(), st.booleans())))


def check_huge(case, rec):
    """Very long arrays, against their pieces."""
    s, n, seed = case["s"], case["size"]["n"], case["size"]["seed"]
    rng = np.random.default_rng(seed)
    cols = [rng.uniform(4.5, 8.5, n), np.exp(rng.uniform(0, np.log(300), n)), np.exp(rng.uniform(np.log(150), np.log(2000), n))]
    fixed = [flag and not all(case["scalar"]) for flag in case["scalar"]]
    rec.tag("more than 4096" if n > 4096 else "up to 4096", "scalars mixed in" if any(fixed) else "")
    rec.nontrivial()

    def call(*varied):
        varied = list(varied)
        args = [float(c[0]) if f else varied.pop(0) for c, f in zip(cols, fixed)]
        return tuple(duration_model(*args, s["region"], s["event_type"], case["energy"]))

    whole("duration_model", call, [c for c, f in zip(cols, fixed) if not f], seed)


def check_order(case, rec):
    """Longer at larger distance and magnitude; the bounds enclose the median."""
    key, s = case["model"], case["s"]
    if key == "pr23":
        s = {k: s[k] for k in ("mag", "dist_rup", "v_s30")}
    far, big = dict(s, dist_rup=s["dist_rup"] + case["dr"]), dict(s, mag=min(s["mag"] + case["dm"], 8.0))
    a = models.build(key, s)
    rec.tag(key)
    rec.nontrivial(case["dr"] > 0)
    require(a.duration <= models.build(key, far).duration * (1 + 1e-12), "D5-75 decreases with distance")
    if big["mag"] >= s["mag"]:
        require(a.duration <= models.build(key, big).duration * (1 + 1e-12), "D5-75 decreases with magnitude")
    for e in case["pair"]:
        d, p, q = a.duration_for_energy(e)
        if not any(isinstance(v, complex) for v in (p, q)) and np.isfinite(p) and np.isfinite(q):
            require(q <= d <= p, "the median %r is outside its bounds %r and %r", d, q, p)


def order_case():
    return st.fixed_dictionaries(
        dict(
            model=gen.pick("pr23", "pr24"),
            s=gen.GEN["pr24"](limits=True),
            dr=gen.num(0, 100),
            dm=gen.num(0, 2),
            pair=st.tuples(st.sampled_from([0.2, 0.4, 0.6, 0.75, 0.85, 0.95]), st.sampled_from([0.2, 0.4, 0.6, 0.75, 0.85, 0.95])),
        )
    )


PROPERTY = Property(
    "C08",
    [
        Law("pr23", case23, check23, 10000, "an accepted scenario compared at a threshold other than the default"),
        Law("pr24", case24, check24, 12000, "an accepted scenario compared at a threshold other than the default"),
        Law("vector", vector_case, check_vector, 3200, "more than one element"),
        Law("huge", huge_case, check_huge, 48, "every case: at least a thousand elements"),
        Law("many", many_case, check_many, 120, "more than four elements"),
        Law("rejected", bad_case, check_bad, 1200, "every case: unsupported thresholds, measures, regions and event types"),
        Law("order", order_case, check_order, 4000, "two scenarios that differ in distance"),
    ],
    "A distinct scenario with energy thresholds (or arrays of scenarios, or an unsupported request) whose outcome was compared with the reference.",
    ["the reference models transcribe the publications"],
)
