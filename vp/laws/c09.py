"""C09: correlation of spectral accelerations and the conditional mean spectrum."""

import numpy as np
from hypothesis import strategies as st
from pygmm import baker_jayaram_2008 as bj

from .. import gen
from ..harness import Law, Property, ref, require, same
from ..ref import corr
from .arrays import FLAT, huge, whole, wrap

T = st.one_of(
    gen.num(0.01, 10.0, (0.01, 0.02, 0.05, 0.109, 0.1, 0.15, 0.2, 0.5, 1, 2, 5, 10), log=True),
    gen.num(0.01, 10.0, (0.01, 0.02, 0.05, 0.109, 0.1, 0.15, 0.2, 0.5, 1, 2, 5, 10), log=True),
    # the branches of the model meet here
    gen.num(0.1, 0.21, (0.109, 0.2)),
    gen.num(0.104, 0.116, (0.109,)),
)
WRAP = dict(list=list, tuple=tuple, array=np.array)


def corr_case():
    return st.fixed_dictionaries(dict(periods=st.lists(T, min_size=1, max_size=12), cond=T, wrap=gen.pick("list", "array", "tuple")))


def check_corr(case, rec):
    p, c = case["periods"], case["cond"]
    short = [min(t, c) < 0.109 for t in p]
    rec.nontrivial(any(t != c for t in p))
    rec.tag("both short" if any(max(t, c) < 0.109 for t in p) else "", "one short" if any(short) else "", "on itself" if c in p else "")
    rec.tag("transition" if any(a and 0.109 < max(t, c) < 0.2 for a, t in zip(short, p)) else "")
    got = bj.calc_correls(WRAP[case["wrap"]](p), c)
    require(np.shape(got) == (len(p),), "shape %s", np.shape(got))
    same("correlations", got, [ref(corr.bj08, t, c) for t in p])
    require(np.all(np.asarray(got) <= 1 + 1e-12) and np.all(np.asarray(got) > 0), "a correlation is not in (0, 1]: %r", got)
    for t, r in zip(p, got):
        same("correlation the other way", np.ravel(bj.calc_correls(np.array([c]), t)), [r])
        if t == c:
            same("correlation with itself", r, 1.0)


def matrix_case():
    return st.fixed_dictionaries(dict(periods=st.lists(T, min_size=2, max_size=25, unique=True)))


def check_matrix(case, rec):
    p = np.array(case["periods"])
    rec.nontrivial(len(p) > 2)
    rec.tag("short periods" if np.sum(p < 0.109) > 1 else "")
    m = np.vstack([bj.calc_correls(p, t) for t in p])
    same("transposed matrix", m.T, m)
    same("diagonal", np.diag(m), np.ones(len(p)))
    low = float(np.linalg.eigvalsh((m + m.T) / 2)[0])
    require(low > -1e-7, "the correlation matrix has the eigenvalue %r", low)


@st.composite
def cms_case(draw):
    n = draw(st.integers(2, 14))
    periods = sorted(draw(st.lists(T, min_size=n, max_size=n, unique=True)))
    return dict(
        periods=periods,
        ln_psas=draw(st.lists(gen.num(-9, 2, (0, -1, -3)), min_size=n, max_size=n)),
        ln_stds=draw(st.lists(gen.num(0.1, 1.5, (0.5, 1.0)), min_size=n, max_size=n)),
        at=draw(st.one_of(st.integers(0, n - 1), st.none(), st.none())),
        frac=draw(gen.num(0, 1, (0.5,))),
        target=draw(gen.num(-9, 3, (0, -1))),
        wrap=draw(gen.pick("list", "array")),
    )


def check_cms(case, rec):
    p, m, s, x = case["periods"], case["ln_psas"], case["ln_stds"], case["target"]
    at = case["at"]
    c = p[at] if at is not None else p[0] + case["frac"] * (p[-1] - p[0])
    on = c in p
    rec.tag("on a period" if on else "between periods", "short" if c < 0.109 else "long", case["wrap"])
    w = WRAP[case["wrap"]]
    args = (w(p), w(m), w(s))
    mean, std = bj.calc_cond_mean_spectrum(*args, c, x)
    rmean, rstd, rho = ref(corr.cms, p, m, s, c, x)
    rec.nontrivial()
    same("conditional mean", mean, rmean, 1e-7, 1e-8)
    # the square root amplifies the rounding of 1 - rho**2
    same("conditional variance", np.asarray(std) ** 2, np.square(rstd), 1e-7, 1e-10)
    require(np.all(np.asarray(std) >= 0) and np.all(np.asarray(std) <= np.array(s) * (1 + 1e-12)), "conditioning increases the variability")
    if on:
        i = p.index(c)
        same("value at the conditioning period", mean[i], x, 1e-7, 1e-8)
        same("variability at the conditioning period", std[i], 0.0, 0, 1e-6)
    # conditioning on the median changes nothing but the variability
    base = float(ref(corr.lin, c, p, m))
    same("mean for the median target", bj.calc_cond_mean_spectrum(*args, c, base)[0], m, 1e-9, 1e-8)
    # linear in the target
    far = bj.calc_cond_mean_spectrum(*args, c, 2 * x - base)
    same("mean for twice the residual", far[0] - np.array(m), 2 * (mean - np.array(m)), 1e-7, 1e-8)
    same("variability for another target", far[1], std, 1e-9, 1e-12)
    require([list(a) for a in args] == [p, m, s], "an argument was modified")


def many_case():
    return st.fixed_dictionaries(
        dict(
            periods=gen.long(0.01, 10, (0.01, 0.05, 0.109, 0.1, 0.2, 1, 10), log=True, most=300),
            rise=gen.rising(0.01, 10, 200, 2, gap=0.2),
            cond=T,
            seed=gen.bits(1 << 16),
            form=gen.pick(*FLAT),
        )
    )


def check_many(case, rec):
    """Long lists and spectra."""
    p, c = case["periods"], case["cond"]
    rec.tag(case["form"], "more than 100" if len(p) > 100 else "up to 100")
    rec.nontrivial(len(p) > 14)
    same("correlations", bj.calc_correls(wrap(p, case["form"])[0], c), ref(lambda: np.array([corr.bj08(t, c) for t in p])))
    p = case["rise"]
    rng = np.random.default_rng(case["seed"])
    m, s = rng.uniform(-6, 1, len(p)), rng.uniform(0.2, 1, len(p))
    c = p[case["seed"] % len(p)] if case["seed"] % 2 else min(max(c, p[0]), p[-1])
    mean, std = bj.calc_cond_mean_spectrum(*[wrap(a, case["form"])[0] for a in (p, m, s)], c, -1.5)
    rmean, rstd, _ = ref(corr.cms, p, list(m), list(s), c, -1.5)
    same("conditional mean", mean, rmean, 1e-7, 1e-8)
    same("conditional variance", np.asarray(std) ** 2, np.square(rstd), 1e-7, 1e-10)


def huge_case():
    return st.fixed_dictionaries(dict(cond=T, size=huge()))


def check_huge(case, rec):
    """Very long arrays, against their pieces."""
    n, seed, c = case["size"]["n"], case["size"]["seed"], case["cond"]
    rng = np.random.default_rng(seed)
    p = np.exp(rng.uniform(np.log(0.01), np.log(10), n))
    rec.tag("more than 4096" if n > 4096 else "up to 4096")
    rec.nontrivial()
    whole("correlations", lambda x: bj.calc_correls(x, c), [p], seed)
    # the spectrum is interpolated at the conditioning period: all of it, or its neighbours
    p = np.unique(p)
    m, s = rng.uniform(-6, 1, len(p)), rng.uniform(0.2, 1, len(p))
    at = int(rng.integers(len(p)))
    mean, std = bj.calc_cond_mean_spectrum(p, m, s, p[at], -1.5)
    for _ in range(12):
        i = np.unique(np.r_[at, rng.integers(0, len(p), 60)])
        a, b = bj.calc_cond_mean_spectrum(p[i], m[i], s[i], p[at], -1.5)
        # between two periods, with both of them
        k = int(rng.integers(len(p) - 1))
        t = float(np.sqrt(p[k] * p[k + 1]))
        j = np.unique(np.r_[k, k + 1, i])
        one, two = bj.calc_cond_mean_spectrum(p, m, s, t, -1.5), bj.calc_cond_mean_spectrum(p[j], m[j], s[j], t, -1.5)
        same("conditional mean of %d, between two periods" % len(p), np.asarray(one[0])[j], two[0], 1e-9, 1e-9)
        same("conditional mean of %d" % len(p), np.asarray(mean)[i], a, 1e-9, 1e-9)
        same("conditional variance of %d" % len(p), np.asarray(std)[i] ** 2, np.square(b), 1e-9, 1e-10)


PROPERTY = Property(
    "C09",
    [
        Law("correlation", corr_case, check_corr, 8000, "periods that differ from the conditioning period"),
        Law("matrix", matrix_case, check_matrix, 3000, "a matrix of at least three periods"),
        Law("spectrum", cms_case, check_cms, 8000, "every case: a spectrum conditioned on one period"),
        Law("huge", huge_case, check_huge, 64, "every case: at least a thousand periods"),
        Law("many", many_case, check_many, 600, "more than fourteen periods"),
    ],
    "A distinct set of periods, or spectrum with its conditioning value, compared with the reference and its invariants.",
    ["the correlation model is used within its range of 0.01 to 10 s"],
)
