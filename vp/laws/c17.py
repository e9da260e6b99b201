"""C17: no steps other than the published ones."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, literals, models
from ..harness import Law, Property, Violation, ref, require
from ..ref import other
from ..ref.params import PARAMS

# Continuous parameters: small changes make small differences
CONT = {
    "mag", "dist_rup", "dist_jb", "dist_hyp", "dist_epi", "dist_x", "dist_y0", "dist_crjb", "v_s30", "dip", "width", "depth_1_0",
    "depth_2_5", "depth_tor", "depth_bor", "depth_hyp", "dpp_centered", "pga_ref",
}  # fmt: skip
# Jumps no larger than this come with the rounding of published coefficients
SMALL = dict(c03=5e-3, pea11=1e-3, tp05=3e-2, as16=5e-3, cb14=1e-2, i14=5e-3, ask14=1e-5)
VLIN = [float(v) for v in set(np.ravel(other.BCH.v_lin)) | set(np.ravel(other.PNNL.v_lin))]


def published(key, p, s):
    """Where the publication has a step in a parameter."""
    if key == "cb14":
        return dict(dist_x=[0.0], dist_rup=[0.0], v_s30=[200.0]).get(p, [])
    if key == "cy14" and p == "mag" and s.get("region") in ("japan", "italy"):
        return [6.0, 6.9]
    if key in ("aga16", "pnnl14") and p == "v_s30":
        return [v for v in VLIN if v > 1000]
    if key == "ba19" and p == "v_s30" and s.get("depth_1_0") is not None:
        return [200.0, 300.0, 500.0]
    return []


def vector(key, s):
    """Names and logarithms of what the model reports."""
    got = models.snap(key, models.build(key, s))
    names, out = [], []
    for n in sorted(got):
        if n in ("periods", "freqs", "interp_spec_accels", "interp_ln_stds", "eas", "interp", "d45", "d95", "d590", "interp_ratio", "interp_ln_std"):
            continue
        v = got[n].reshape(-1)
        if n != "ln_eas":
            with np.errstate(all="ignore"):
                v = np.log(np.where(v > 0, v, np.nan))
        names += ["%s[%d]" % (n, i) for i in range(len(v))]
        out.append(v)
    return names, np.concatenate(out)


def change(a, b):
    with np.errstate(all="ignore"):
        d = np.abs(b - a)
    return np.where(np.isfinite(d), d, 0.0)


def grid(a, b, log, n):
    """From a to b, uniform or denser towards the smaller end."""
    u = np.linspace(0, 1, n + 1)
    if log:
        lo = min(a, b)
        k = abs(b - a) / max(lo, 1e-3 * abs(b - a))
        u = np.expm1(u * math.log1p(k)) / k
        if a > b:
            u = 1 - u[::-1]
    xs = a + (b - a) * u
    xs[0], xs[-1] = a, b
    return xs


def jumps(f, a, b, small, log=False, n=40, top=3):
    """Places of a segment where the change does not vanish with the distance."""
    xs = grid(a, b, log, n)
    ys = np.array([f(float(x)) for x in xs])
    ds = np.array([change(ys[i], ys[i + 1]) for i in range(n)])
    pad = np.vstack([ds[1], ds, ds[-2]])
    odd = np.max(ds - np.minimum(pad[:-2], pad[2:]), axis=1)
    # A step stands out of the third differences more than out of the first
    with np.errstate(all="ignore"):
        d3 = np.abs(np.diff(ys, 3, axis=0))
    d3 = np.max(np.where(np.isfinite(d3), d3, 0.0), axis=1)
    third = np.concatenate([[d3[0]], d3, [d3[-1]]])
    for i in sorted(set(np.argsort(odd)[::-1][:top]) | set(np.argsort(third)[::-1][:top])):
        x0, x1, y0, y1 = float(xs[i]), float(xs[i + 1]), ys[i], ys[i + 1]
        for _ in range(60):
            xm = (x0 + x1) / 2
            if xm in (x0, x1) or change(y0, y1).max() <= small:
                break
            ym = f(xm)
            if change(y0, ym).max() >= change(ym, y1).max():
                x1, y1 = xm, ym
            else:
                x0, y0 = xm, ym
        yield x0, x1, change(y0, y1)


@st.composite
def case_(draw):
    key = draw(st.sampled_from(models.ALL))
    s, t = draw(gen.GEN[key](limits=True)), draw(gen.GEN[key](limits=True))
    s = gen.repair(key, s)
    names = [k for k in s if k in CONT and s[k] is not None and t[k] is not None and s[k] != t[k]]
    if not names:
        return dict(model=key, s=gen.clean(s), param=None, to=None)
    p = draw(st.sampled_from(names))
    to = t[p]
    if key == "ask14" and p == "dist_x" and s["on_hanging_wall"]:
        to = max(to, 0.0)
    if key == "cb14":
        fixed = gen.repair(key, dict(s, **{p: to}))
        if fixed[p] != to or any(fixed[k] != s[k] for k in s if k != p):
            return dict(model=key, s=gen.clean(s), param=None, to=None)
    if draw(st.booleans()):
        # a part of the range
        to = s[p] + (to - s[p]) * draw(st.sampled_from([0.5, 0.2, 0.1, 0.03]))
    return dict(model=key, s=gen.clean(s), param=p, to=to, log=draw(st.booleans()))


def check(case, rec):
    key, s, p = case["model"], case["s"], case["param"]
    if p is None:
        return
    names = vector(key, s)[0]
    steps = published(key, p, s)
    small = SMALL.get(key, 1e-5)
    rec.tag(key, p)
    rec.nontrivial()
    for x0, x1, d in jumps(lambda x: vector(key, dict(s, **{p: x}))[1], s[p], case["to"], small, case["log"]):
        i = int(np.argmax(d))
        if d[i] <= small:
            continue
        if any(abs(x0 - v) <= 1e-6 * max(1.0, abs(v)) for v in steps):
            rec.tag("published step of %s in %s" % (key, p))
            continue
        k = None
        if key == "tp05" and p == "mag" and abs(x0 - 7.2) < 1e-6:
            # the one at 0.5 s is known; any other is not
            odd = [names[n] for n in np.flatnonzero(d > small)]
            if odd == ["ln_stds[%d]" % list(models.PERIODS["tp05"][1:]).index(0.5)]:
                k = "tp05-sigma-0.5s"
        raise Violation("%s %s changes by a factor of %.6g between %s = %r and %r" % (key, names[i], math.exp(d[i]), p, x0, x1), k)


RANGES = dict(
    mag=(3.5, 8.2), dist_rup=(0.5, 290), dist_jb=(0.5, 290), dist_hyp=(0.5, 290), dist_epi=(0.5, 290), dist_x=(-49, 49), dist_y0=(0.1, 14), dist_crjb=(0.1, 29),
    v_s30=(151, 1490), dip=(16, 89.5), width=(1, 59), depth_1_0=(0.005, 2.4), depth_2_5=(0.1, 9), depth_tor=(0.01, 14), depth_bor=(2, 40), depth_hyp=(0.1, 150),
    dpp_centered=(-2, 2), pga_ref=(0.002, 4.9),
)  # fmt: skip


@st.composite
def near_case(draw):
    """A number of the code, or a round or special one, as the value of a parameter."""
    key = draw(st.sampled_from(models.ALL))
    s = gen.repair(key, draw(gen.GEN[key](limits=True)))
    p = draw(st.sampled_from([k for k in s if k in CONT and s[k] is not None]))
    lo, hi = RANGES[p]
    declared = next(q for q in PARAMS[key] if q[0] == p)
    lo, hi = max(lo, declared[3] or lo), min(hi, declared[4] or hi)
    every, new = ([v for v in w if lo < v < hi] for w in literals.pool(key))
    words = new if new and draw(st.booleans()) else every
    x = draw(st.one_of(*[st.sampled_from(words)] * (2 if words else 0), gen.num(lo, hi)))
    fixed = gen.repair(key, dict(s, **{p: x}))
    if fixed[p] != x or any(fixed[k] != s[k] for k in s if k != p):
        p = None
    return dict(model=key, s=gen.clean(s), param=p, x=x)


def check_near(case, rec):
    """Just below, at, and just above a value."""
    key, s, p, x = case["model"], case["s"], case["param"], case["x"]
    if p is None or any(abs(x - v) <= 1e-6 * max(1.0, abs(v)) for v in published(key, p, s)):
        return
    if key == "ask14" and p == "v_s30" and x == 1180:
        # no basin term there
        return
    rec.tag(key, p)
    rec.nontrivial()
    e = 1e-9 * max(1.0, abs(x))
    names, mid = vector(key, dict(s, **{p: x}))
    for y in (x - e, x + e):
        d = change(mid, vector(key, dict(s, **{p: y}))[1])
        i = int(np.argmax(d))
        if d[i] <= SMALL.get(key, 1e-5):
            continue
        if key == "tp05" and p == "mag" and abs(x - 7.2) < 1e-6 and names[i] == "ln_stds[%d]" % list(models.PERIODS["tp05"][1:]).index(0.5):
            raise Violation("the standard deviation of TP05 at 0.5 s jumps at magnitude 7.2", "tp05-sigma-0.5s")
        require(False, "%s %s changes by a factor of %.6g between %s = %r and %r", key, names[i], math.exp(d[i]), p, x, y)


def tp_case():
    return st.fixed_dictionaries(dict(a=gen.num(1e-9, 1e-3, (1e-6,), log=True), dist_rup=gen.dist(1, 1000, (10, 100))))


def check_tp(case, rec):
    """The standard deviations below and above magnitude 7.2 meet."""
    a = models.build("tp05", dict(mag=7.2 - case["a"], dist_rup=case["dist_rup"]))
    b = models.build("tp05", dict(mag=7.2, dist_rup=case["dist_rup"]))
    rec.nontrivial()
    d = change(np.log(a.ln_stds), np.log(b.ln_stds))
    odd = [float(t) for t in np.asarray(a.periods)[d > 0.03]]
    if odd == [0.5]:
        raise Violation("the standard deviation of TP05 at 0.5 s jumps from %r to %r at magnitude 7.2" % (a.ln_stds[d > 0.03][0], b.ln_stds[d > 0.03][0]), "tp05-sigma-0.5s")
    require(not odd, "the standard deviation of TP05 jumps at magnitude 7.2 at the periods %r", odd)
    require(abs(math.log(a.ln_std_pga / b.ln_std_pga)) < 0.03, "the standard deviation of the TP05 PGA jumps at magnitude 7.2")


PROPERTY = Property(
    "C17",
    [
        Law("steps", case_, check, 5000, "a parameter that varies continuously between two values"),
        Law("near", near_case, check_near, 9000, "a parameter at a value that is no published step"),
        Law("tp05_sigma", tp_case, check_tp, 200, "every case: a magnitude just below the change of branch"),
    ],
    "A distinct scenario and range of one of its parameters, searched by bisection for places where the results jump.",
    [
        "the bisection follows the largest changes of a grid of 41 points and can miss a step that is small compared with the trend",
        "published steps: CB14 at dist_x = 0, dist_rup = 0 and 200 m/s; CY14 in Japan and Italy at magnitude 6 and 6.9; AGA16 and PNNL14 at linear-site velocities above 1000 m/s; BA19 at the velocity bins of its basin term",
    ],
)
