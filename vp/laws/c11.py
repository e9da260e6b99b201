"""C11: inter-frequency correlation and covariance of Fourier amplitudes."""

import math
import random

import numpy as np
from hypothesis import strategies as st
from pygmm import BaylessAbrahamson2018 as BA18
from pygmm import Stafford2017 as PJS

from .. import gen
from ..harness import Law, Property, ref, require, same
from ..ref import corr
from .arrays import FLAT, huge, wrap

SPECIAL = (0.1, 0.25, 1, 4, 5, 10, 24)


@st.composite
def freqs(draw, lo=0.1, hi=24.0, n=10):
    """Frequencies in any order, some of them close but none nearer than 0.02 %."""
    out = []

    def add(x, near):
        if lo <= x <= hi and all(abs(math.log(x / y)) > near for y in out):
            out.append(x)

    for x in draw(st.lists(gen.num(lo, hi, SPECIAL, log=True), min_size=1, max_size=n)):
        add(x, 2e-3)
    if draw(gen.bits(2)) == 0:
        i, d = draw(st.integers(0, len(out) - 1)), draw(gen.pick(3e-4, 1e-3, 1.9e-3, 5e-3))
        add(out[i] * (1 + d), 2e-4)
        out = draw(st.permutations(out)) if draw(st.booleans()) else out
    return out


def std(n):
    return st.lists(gen.num(0.05, 1.5, (0.5, 1.0)), min_size=n, max_size=n)


WRAP = dict(list=list, array=np.array, tuple=tuple)


@st.composite
def ba_case(draw):
    f = draw(freqs(0.05, 40.0, 14))
    return dict(
        freqs=f,
        std=draw(gen.maybe(std(len(f)))),
        component=draw(gen.pick(None, *corr.BA_STDS)),
        wrap=draw(gen.pick("list", "array", "tuple")),
    )


def psd(what, m):
    low = float(np.linalg.eigvalsh((m + m.T) / 2)[0])
    require(low > -1e-9, "%s has the eigenvalue %r", what, low)


def check_ba(case, rec):
    f = case["freqs"]
    n = len(f)
    w = WRAP[case["wrap"]]
    rec.tag(case["wrap"], "sorted" if f == sorted(f) else "unsorted", "component=%s" % case["component"], "std given" if case["std"] else "std omitted")
    rec.nontrivial(n > 1)
    want = np.array([[ref(corr.ba18, a, b) for b in f] for a in f])
    got = BA18.corr(w(f))
    same("correlation", got, want, 1e-8, 1e-10)
    same("transposed correlation", got.T, got, 0, 0)
    same("diagonal", np.diag(got), np.ones(n), 0, 0)
    require(np.all(got > 0) and np.all(got <= 1), "a correlation is not in (0, 1]")
    if all(0.1 <= x <= 24 for x in f):
        psd("the correlation matrix", got)
    kw = {k: case[k] for k in ("std", "component") if case[k] is not None}
    if not kw:
        try:
            BA18.cov(w(f))
        except NotImplementedError:
            return
        require(False, "a covariance without a standard deviation or component")
    s = case["std"] or [ref(corr.ba18_std, x, case["component"]) for x in f]
    if case["std"]:
        kw["std"] = w(kw["std"])
    cov = BA18.cov(w(f), **kw)
    same("covariance", cov, want * np.outer(s, s), 1e-8, 1e-12)
    same("transposed covariance", cov.T, cov, 1e-14, 0)


@st.composite
def pjs_case(draw):
    f = draw(freqs(0.1, 24.0, 7))
    n = len(f)
    return dict(
        freqs=f,
        mag=draw(gen.maybe(gen.mags(3, 8, (4.5, 6)), (1, 3))),
        E=draw(gen.maybe(std(n))),
        S=draw(gen.maybe(std(n))),
        A=draw(gen.maybe(std(n))),
        wrap=draw(gen.pick("list", "array")),
    )


def check_pjs(case, rec):
    f, mag = case["freqs"], case["mag"]
    n = len(f)
    w = WRAP[case["wrap"]]
    given = [k for k in "ESA" if case[k] is not None]
    rec.tag("given: " + ("".join(given) or "none"), "magnitude given" if mag is not None else "magnitude omitted", case["wrap"])
    rec.nontrivial(n > 1)
    kw = {"sigma_" + k: w(case[k]) for k in given}
    if mag is not None:
        kw["mag"] = mag
    own = np.array([ref(corr.pjs17_std, x) for x in f]).T.reshape(3, n)
    same("standard deviations", np.array(PJS.compute_variances(w(f))), own, 1e-9)
    stds = [case[k] if case[k] is not None else own[i] for i, k in enumerate("ESA")]
    want = ref(corr.pjs17_cov, f, 6.0 if mag is None else mag, stds)
    cov = PJS.cov(w(f), **kw)
    same("covariance", cov, want, 1e-9, 1e-12)
    cor = PJS.cor(w(f), **kw)
    d = np.sqrt(np.diag(want))
    same("correlation", cor, want / np.outer(d, d), 1e-9, 1e-12)
    same("diagonal", np.diag(cor), np.ones(n), 1e-12)
    same("transposed correlation", cor.T, cor, 1e-12)
    require(np.all(cor > 0) and np.all(cor <= 1 + 1e-12), "a correlation is not in (0, 1]")
    psd("the covariance matrix", cov)
    same("variance", np.diag(cov), sum(np.square(s) for s in stds), 1e-9)
    for a in f:
        for b in f:
            r = (PJS.between_event_correlation(a, b, 6.0 if mag is None else mag), PJS.between_site_correlation(a, b), PJS.within_event_correlation(a, b))
            same("components at %r and %r" % (a, b), r, ref(corr.pjs17, a, b, 6.0 if mag is None else mag), 1e-9, 1e-12)


@st.composite
def order_case(draw):
    f = draw(freqs(0.1, 24.0, 8))
    return dict(freqs=f, perm=draw(st.permutations(range(len(f)))), std=draw(std(len(f))), sub=draw(st.integers(1, max(1, len(f)))))


def check_order(case, rec):
    """A matrix for reordered or fewer frequencies is the reordered submatrix."""
    f, s = np.array(case["freqs"]), np.array(case["std"])
    i = np.array(case["perm"], dtype=int)[: case["sub"]]
    rec.nontrivial(len(i) > 1)
    rec.tag("subset" if len(i) < len(f) else "permutation")
    ix = np.ix_(i, i)
    same("BA18 correlation", BA18.corr(f[i]), BA18.corr(f)[ix], 1e-12)
    same("BA18 covariance", BA18.cov(f[i], std=s[i]), BA18.cov(f, std=s)[ix], 1e-12)
    same("Stafford covariance", PJS.cov(f[i], sigma_S=s[i]), PJS.cov(f, sigma_S=s)[ix], 1e-12)
    same("Stafford correlation", PJS.cor(f[i]), PJS.cor(f)[ix], 1e-12)
    same("BA18 covariance for twice the variability", BA18.cov(f, std=2 * s), 4 * BA18.cov(f, std=s), 1e-12)


@st.composite
def bad_case(draw):
    f = draw(freqs(0.1, 24.0, 5))
    return dict(freqs=f, which=draw(gen.pick("E", "S", "A")), n=draw(st.integers(0, 8)))


def check_bad(case, rec):
    f = case["freqs"]
    if case["n"] == len(f):
        return
    rec.nontrivial()
    rec.tag("sigma_" + case["which"])
    for fn in (PJS.cov, PJS.cor):
        try:
            fn(f, **{"sigma_" + case["which"]: [0.5] * case["n"]})
        except ValueError:
            continue
        require(False, "%d standard deviations for %d frequencies were accepted", case["n"], len(f))


@st.composite
def many_case(draw):
    f = draw(gen.rising(0.08, 30, 150, 2))
    f = [a for a, b in zip(f, [0.0] + f) if a > b * 1.002]
    few = draw(gen.rising(0.1, 24, 28, 2))
    few = [a for a, b in zip(few, [0.0] + few) if a > b * 1.002]
    rng = random.Random(draw(gen.bits(1 << 16)))
    if draw(st.booleans()):
        rng.shuffle(f)
        rng.shuffle(few)
    return dict(freqs=f, few=few, mag=draw(gen.mags(3, 8, (4.5, 6))), seed=rng.randrange(1 << 16), form=draw(gen.pick(*FLAT)), component=draw(gen.pick(None, *corr.BA_STDS)))


def check_many(case, rec):
    """Long lists of frequencies; a sample of the entries is compared with the reference."""
    f, few = case["freqs"], case["few"]
    n = len(f)
    rng = np.random.default_rng(case["seed"])
    s = rng.uniform(0.1, 1.2, n)
    arg = lambda x: wrap(x, case["form"])[0]  # noqa: E731
    rec.tag(case["form"], "more than 50" if n > 50 else "up to 50")
    rec.nontrivial(n > 14)
    m = BA18.corr(arg(f))
    kw = dict(component=case["component"]) if case["component"] else dict(std=arg(list(s)))
    v = BA18.cov(arg(f), **kw)
    if case["component"]:
        s = np.array([ref(corr.ba18_std, x, case["component"]) for x in f])
    require(m.shape == v.shape == (n, n), "shapes %s and %s for %d frequencies", m.shape, v.shape, n)
    same("transposed correlation", m.T, m, 0, 0)
    same("diagonal", np.diag(m), np.ones(n), 0, 0)
    same("variances", np.diag(v), s**2, 1e-9)
    same("covariance", v, m * np.outer(s, s), 1e-9)
    pairs = rng.integers(0, n, (40, 2))
    for i, j in pairs:
        same("correlation %d, %d" % (i, j), m[i, j], ref(corr.ba18, f[i], f[j]), 1e-8, 1e-10)
    k = len(few)
    e = rng.uniform(0.1, 1, k)
    own = np.array([ref(corr.pjs17_std, x) for x in few]).T.reshape(3, k)
    c = PJS.cov(arg(few), sigma_A=arg(list(e)), mag=case["mag"])
    same("Stafford covariance", c, ref(corr.pjs17_cov, few, case["mag"], [own[0], own[1], e]), 1e-9, 1e-12)


def huge_case():
    return st.fixed_dictionaries(dict(size=huge(150, 1200), mag=gen.mags(3, 8, (4.5, 6)), component=gen.pick(*corr.BA_STDS)))


def check_huge(case, rec):
    """Very many frequencies, against some of them."""
    n, seed = case["size"]["n"], case["size"]["seed"]
    rng = np.random.default_rng(seed)
    f = np.exp(rng.uniform(np.log(0.1), np.log(24), n))
    rec.tag("more than 512" if n > 512 else "up to 512")
    rec.nontrivial()
    m, v = BA18.corr(f), BA18.cov(f, component=case["component"])
    # the matrices of Stafford are made pair by pair
    g = f[:30]
    few = [PJS.cov(g, mag=case["mag"]), PJS.cor(g, mag=case["mag"])]
    std = PJS.compute_variances(f)
    for _ in range(8):
        i = rng.permutation(n)[:25]
        same("correlations among %d" % n, m[np.ix_(i, i)], BA18.corr(f[i]), 1e-10, 1e-12)
        same("covariances among %d" % n, v[np.ix_(i, i)], BA18.cov(f[i], component=case["component"]), 1e-10, 1e-12)
        for part, (a, b) in enumerate(zip(std, PJS.compute_variances(f[i]))):
            same("Stafford standard deviation %d among %d" % (part, n), np.asarray(a)[i], b, 1e-10, 1e-12)
    for _ in range(2):
        i = rng.permutation(len(g))[:8]
        for name, a, fn in zip(("covariances", "correlations"), few, (PJS.cov, PJS.cor)):
            same("Stafford %s among %d" % (name, len(g)), a[np.ix_(i, i)], fn(g[i], mag=case["mag"]), 1e-9, 1e-12)


PROPERTY = Property(
    "C11",
    [
        Law("ba18", ba_case, check_ba, 7000, "at least two frequencies"),
        Law("stafford", pjs_case, check_pjs, 3000, "at least two frequencies"),
        Law("order", order_case, check_order, 1600, "at least two frequencies in another order"),
        Law("huge", huge_case, check_huge, 24, "every case: at least 150 frequencies"),
        Law("many", many_case, check_many, 300, "more than fourteen frequencies"),
        Law("rejected", bad_case, check_bad, 500, "every case: a wrong number of standard deviations"),
    ],
    "A distinct list of at least two frequencies whose matrices were compared with the reference, or with those of another list.",
    ["positive semi-definiteness is required in the frequency range of the models (0.1 to 24 Hz)", "no two frequencies are within 0.02 %"],
)
