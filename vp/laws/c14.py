"""C14: interpolation of spectra between the periods of a model."""

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import make_interp_spline

from .. import gen, models
from ..harness import Law, Property, alike, ref, require, same
from .arrays import FORMS, huge, whole, wrap

KINDS = ("linear", "nearest", "zero", "slinear", "quadratic", "cubic")


@st.composite
def case_(draw):
    key = draw(st.sampled_from(models.SPECTRAL))
    table = [float(x) for x in models.PERIODS[key][models.ROWS[key]["psa"]]]
    lo, hi = min(table), max(table)
    per = st.one_of(
        st.sampled_from(table),
        gen.num(lo, hi, table, log=True),
        gen.num(lo, hi, (lo, hi), log=True),
        gen.num(lo / 20, hi * 20, (lo, hi), log=True),
    )
    return dict(
        model=key,
        s=gen.clean(draw(gen.GEN[key]())),
        periods=draw(st.lists(per, min_size=1, max_size=8)),
        kind=draw(gen.pick(None, None, *KINDS)),
        form=draw(gen.pick("list", "array", "column", "scalar")),
    )


def interpolate(x, y, q, kind):
    """Own interpolation in the logarithm of the period; NaN outside."""
    i = np.argsort(x)
    x, y = np.asarray(x)[i], np.asarray(y)[i]
    out = []
    spline = make_interp_spline(x, y, k=dict(quadratic=2, cubic=3)[kind]) if kind in ("quadratic", "cubic") else None
    for t in q:
        if t < x[0] or t > x[-1]:
            out.append(np.nan)
            continue
        if spline is not None:
            out.append(float(spline(t)))
            continue
        k = min(max(int(np.searchsorted(x, t, side="right")) - 1, 0), len(x) - 2)
        f = (t - x[k]) / (x[k + 1] - x[k])
        if kind == "nearest":
            out.append(y[k] if f < 0.5 else y[k + 1])
        elif kind == "zero":
            out.append(y[k + 1] if f >= 1 else y[k])
        else:
            out.append(y[k] + (y[k + 1] - y[k]) * f)
    return np.array(out)


def clear(x, q, kind):
    """Periods where rounding does not decide (halves and edges of steps)."""
    xs = np.sort(x)
    ok = []
    for t in q:
        edge = np.min(np.abs(xs - t))
        good = edge == 0 or edge > 1e-9
        if kind == "nearest":
            good = good and np.min(np.abs((xs[1:] + xs[:-1]) / 2 - t)) > 1e-9
        ok.append(good)
    return np.array(ok, dtype=bool)


def check(case, rec):
    key, kind, form = case["model"], case["kind"], case["form"]
    m = models.build(key, case["s"])
    p = np.array(case["periods"])
    if form == "scalar":
        p = p[:1]
    arg = dict(list=list(p), array=p.copy(), column=p[:, None].copy(), scalar=float(p[0]))[form]
    shape = np.shape(arg)
    table = np.asarray(m.periods)
    lo, hi = table.min(), table.max()
    x, q, k = np.log(table), np.log(p), kind or "linear"
    keep = clear(x, q, k)
    rec.tag(key, "kind=%s" % kind, form)
    rec.tag("outside" if np.any((p < lo) | (p > hi)) else "inside", "at a tabulated period" if np.any(np.isin(p, table)) else "")
    rec.nontrivial(np.any(~np.isin(p, table)))
    call = (lambda fn: fn(arg)) if kind is None else (lambda fn: fn(arg, kind))
    ln, sa, sd = call(m.interp_ln_spec_accels), call(m.interp_spec_accels), call(m.interp_ln_stds)
    for name, v in (("interp_ln_spec_accels", ln), ("interp_spec_accels", sa), ("interp_ln_stds", sd)):
        require(np.shape(v) == shape, "%s %s has the shape %s for periods of the shape %s", key, name, np.shape(v), shape)
    same("%s interp_spec_accels" % key, sa, np.exp(ln), 1e-12, 0)
    ln, sd = np.ravel(ln), np.ravel(sd)
    y, e = np.log(m.spec_accels), np.asarray(m.ln_stds)
    tol = 1e-6 if k in ("quadratic", "cubic") else 1e-8
    same("%s interp_ln_spec_accels (%s)" % (key, kind), ln[keep], ref(interpolate, x, y, q, k)[keep], tol, tol)
    same("%s interp_ln_stds (%s)" % (key, kind), sd[keep], ref(interpolate, x, e, q, k)[keep], tol, tol)
    for i in range(len(p)):
        if p[i] in table:
            n = int(np.flatnonzero(table == p[i])[0])
            same("%s interpolation at the tabulated period %r" % (key, p[i]), ln[i], y[n], tol, tol)
        elif lo < p[i] < hi and k in ("linear", "slinear"):
            a, b = y[table < p[i]][np.argmax(table[table < p[i]])], y[table > p[i]][np.argmin(table[table > p[i]])]
            require(min(a, b) - 1e-9 <= ln[i] <= max(a, b) + 1e-9, "%s: %r at %r is outside of its neighbours", key, ln[i], p[i])
        require(np.isnan(ln[i]) == (not lo <= p[i] <= hi) or not keep[i], "%s at %r (table from %r to %r) gives %r", key, p[i], lo, hi, ln[i])


def order_case():
    return case_()


def check_order(case, rec):
    """Each period is interpolated on its own."""
    key, kind = case["model"], case["kind"] or "linear"
    m = models.build(key, case["s"])
    p = np.array(case["periods"])
    rec.tag(key, kind)
    rec.nontrivial(len(p) > 1)
    a, b = m.interp_spec_accels(p, kind), m.interp_ln_stds(p, kind=kind)
    # rounding of the logarithm may depend on the memory layout, and decides on the steps
    x, q = np.log(np.asarray(m.periods)), np.log(p)
    keep = clear(x, q, kind) & (np.min(np.abs(x[:, None] - q), axis=0) > (1e-9 if kind == "zero" else -1))
    alike("reversed periods", m.interp_spec_accels(p[::-1], kind)[::-1][keep], a[keep])
    for i in np.flatnonzero(keep):
        same("one period at a time", m.interp_spec_accels(p[i : i + 1], kind), a[i : i + 1], 1e-12, 0)
        same("one period at a time", m.interp_ln_stds([p[i]], kind), b[i : i + 1], 1e-12, 0)


@st.composite
def many_case(draw):
    key = draw(st.sampled_from(models.SPECTRAL))
    table = [float(x) for x in models.PERIODS[key][models.ROWS[key]["psa"]]]
    lo, hi = min(table), max(table)
    p = draw(gen.long(lo / 2, hi * 2, table, log=True, most=400))
    form = draw(gen.pick(*FORMS))
    return dict(model=key, s=gen.clean(draw(gen.GEN[key]())), periods=p or ([table[0]] if form in ("scalar", "0-d") else []), form=form, kind=draw(gen.pick(None, *KINDS)))


def check_many(case, rec):
    """Long lists, empty ones, repetitions, and arrays of any shape and layout."""
    key, kind = case["model"], case["kind"]
    m = models.build(key, case["s"])
    arg, p = wrap(case["periods"], case["form"])
    x, q, k = np.log(np.asarray(m.periods)), np.log(p), kind or "linear"
    keep = clear(x, q, k)
    if k == "zero" and len(q):
        keep = keep & (np.min(np.abs(x[:, None] - q), axis=0) > 1e-9)
    rec.tag(case["form"], "kind=%s" % kind, "empty" if not len(p) else "more than 100" if len(p) > 100 else "up to 100")
    rec.nontrivial(len(p) > 8)
    call = (lambda fn: fn(arg)) if kind is None else (lambda fn: fn(arg, kind=kind))
    y, e = np.log(m.spec_accels), np.asarray(m.ln_stds)
    tol = 1e-6 if k in ("quadratic", "cubic") else 1e-8
    for name, got, v in (
        ("interp_ln_spec_accels", call(m.interp_ln_spec_accels), y),
        ("interp_spec_accels", np.log(call(m.interp_spec_accels)), y),
        ("interp_ln_stds", call(m.interp_ln_stds), e),
    ):
        require(np.shape(got) == np.shape(arg), "%s %s has the shape %s for periods of the shape %s", key, name, np.shape(got), np.shape(arg))
        same("%s %s (%s)" % (key, name, kind), np.ravel(got)[keep], ref(interpolate, x, v, q, k)[keep], tol, tol)


@st.composite
def huge_case(draw):
    key = draw(st.sampled_from(models.SPECTRAL))
    return dict(model=key, s=gen.clean(draw(gen.GEN[key]())), size=draw(huge()), kind=draw(gen.pick(None, "linear", "nearest", "cubic", "quadratic", "slinear", "zero")))


def check_huge(case, rec):
    """Very long arrays, against their pieces."""
    key, kind, n, seed = case["model"], case["kind"], case["size"]["n"], case["size"]["seed"]
    m = models.build(key, case["s"])
    x = np.log(np.asarray(m.periods, dtype=float))
    p = np.exp(np.random.default_rng(seed).uniform(x.min() - 0.02, x.max() + 0.02, n))
    rec.tag("more than 4096" if n > 4096 else "up to 4096", "kind=%s" % kind)
    rec.nontrivial()
    for fn in (m.interp_ln_spec_accels, m.interp_spec_accels, m.interp_ln_stds):
        whole("%s %s (%s)" % (key, fn.__name__, kind), fn if kind is None else lambda v, fn=fn: fn(v, kind=kind), [p], seed)


PROPERTY = Property(
    "C14",
    [
        Law("interpolation", case_, check, 9000, "at least one period that is not in the table"),
        Law("alone", order_case, check_order, 2500, "more than one period"),
        Law("huge", huge_case, check_huge, 96, "every case: at least a thousand periods"),
        Law("many", many_case, check_many, 1200, "more than eight periods"),
    ],
    "A distinct scenario, list of periods and kind of interpolation, compared with an interpolation of the tabulated values by other means.",
    ["splines follow the usual not-a-knot end condition"],
)
