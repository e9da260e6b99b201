"""C10: spectrum conditioned on several periods."""

import random

import numpy as np
from hypothesis import strategies as st
from pygmm import baker_jayaram_2008 as bj
from pygmm.kishida_2017 import calc_cond_mean_spectrum_vector as cmsv

from .. import gen
from ..harness import Law, Property, identical, ref, require, same
from ..ref import corr
from .arrays import huge


@st.composite
def case_(draw):
    """Increasing periods, at least 2 % apart, with a choice of conditioned ones."""
    n = draw(st.integers(1, 14))
    lo = draw(gen.num(0.01, 0.4, (0.01, 0.1), log=True))
    steps = draw(st.lists(gen.num(0.02, 1.0, (0.1, 0.5, 1.0)), min_size=n, max_size=n))
    periods, t = [], lo
    for x in steps:
        if t > 10:
            break
        periods.append(float("%.6g" % t))
        t *= 1 + x
    n = len(periods)
    kind = draw(gen.bits(8))
    if kind == 0:
        flags = [True] * n
    elif kind == 1:
        k = draw(st.integers(0, n - 1))
        flags = [i == k for i in range(n)]
    else:
        flags = draw(st.lists(st.booleans(), min_size=n, max_size=n))
        if not any(flags):
            flags[-1] = True
    return dict(
        periods=periods,
        ln_psas=draw(st.lists(gen.num(-9, 2, (0, -1, -3)), min_size=n, max_size=n)),
        ln_stds=draw(st.lists(gen.num(0.1, 1.5, (0.5, 1.0)), min_size=n, max_size=n)),
        target=draw(st.lists(gen.num(-9, 3, (0, -1)), min_size=n, max_size=n)),
        flags=flags,
        fill=draw(gen.pick(0.0, None, 1e20, "nan", "inf")),
        nomask=draw(st.booleans()),
        wrap=draw(gen.pick("list", "array")),
    )


def conditioned(case):
    f, x = case["flags"], case["target"]
    if all(f) and case["nomask"]:
        return np.ma.array(x)
    data = [v if ok or case["fill"] is None else float(case["fill"]) for v, ok in zip(x, f)]
    return np.ma.masked_array(data, mask=[not v for v in f])


def check(case, rec):
    p, m, s, f = (case[k] for k in ("periods", "ln_psas", "ln_stds", "flags"))
    n, k = len(p), sum(f)
    rec.tag("all periods conditioned" if k == n else "one period conditioned" if k == 1 else "several periods conditioned")
    runs = sum(1 for i in range(n) if f[i] and (i == 0 or not f[i - 1]))
    rec.tag("interleaved" if runs > 1 else "")
    rec.nontrivial(k < n)
    wrap = list if case["wrap"] == "list" else np.array
    args = (wrap(p), wrap(m), wrap(s))
    x = conditioned(case)
    before = np.ma.copy(x)
    mean, std = cmsv(*args, x)
    require(np.shape(mean) == (n,) and np.shape(std) == (n,), "shapes %s and %s", np.shape(mean), np.shape(std))
    conds = [v if ok else None for v, ok in zip(case["target"], f)]
    rmean, rvar, cond = ref(corr.cmsv, p, m, s, conds)
    tol = max(1e-8, 1e-13 * cond * n)
    if tol < 1e-3:
        same("conditional mean", mean, rmean, tol * 10, tol * 100)
        for i in range(n):
            if rvar[i] > 1e-3 * s[i] ** 2 + 10 * tol:
                same("conditional standard deviation at %r" % p[i], std[i], np.sqrt(rvar[i]), 1e-5 + tol * 100, tol)
    else:
        rec.tag("ill conditioned")
    for i in range(n):
        if f[i]:
            require(mean[i] == case["target"][i], "the target %r at %r is returned as %r", case["target"][i], p[i], mean[i])
            require(std[i] == 0, "the conditioned period %r has the variability %r", p[i], std[i])
        elif np.isfinite(std[i]):
            require(std[i] <= s[i] * (1 + 1e-9), "conditioning increases the variability at %r", p[i])
    if k == 1:
        i = f.index(True)
        a, b = bj.calc_cond_mean_spectrum(p, m, s, p[i], case["target"][i])
        same("mean of the single-period spectrum", mean, a, 1e-7, 1e-8)
        same("variance of the single-period spectrum", np.square(std), np.square(b), 1e-6, 1e-9)
    require([list(a) for a in args] == [p, m, s], "an argument was modified")
    identical("conditioning values afterwards", np.ma.getdata(x), np.ma.getdata(before))
    identical("mask afterwards", np.ma.getmaskarray(x), np.ma.getmaskarray(before))


def sub_case():
    return case_()


def check_sub(case, rec):
    """A period that is not conditioned does not influence the others."""
    p, f = case["periods"], case["flags"]
    free = [i for i in range(len(p)) if not f[i]]
    if not free or sum(f) == 0:
        return
    rec.nontrivial(len(p) > 2)
    rec.tag("%d periods" % len(p))
    drop = free[len(free) // 2]
    keep = [i for i in range(len(p)) if i != drop]
    x = conditioned(case)
    mean, std = cmsv(p, case["ln_psas"], case["ln_stds"], x)
    sub = {k: [case[k][i] for i in keep] for k in ("periods", "ln_psas", "ln_stds")}
    y = np.ma.masked_array(np.ma.getdata(x)[keep], mask=np.ma.getmaskarray(x)[keep])
    a, b = cmsv(sub["periods"], sub["ln_psas"], sub["ln_stds"], y)
    same("mean without a free period", a, mean[keep], 1e-9, 1e-9)
    same("variance without a free period", np.square(b), np.square(std[keep]), 1e-7, 1e-8)


@st.composite
def bad_case(draw):
    p = draw(st.lists(gen.num(0.01, 10, (0.1, 1), log=True), min_size=2, max_size=6))
    i = draw(st.integers(0, len(p) - 1))
    kind = draw(gen.pick("repeat", "decreasing", "swap"))
    p = sorted(set(p))
    if len(p) < 2:
        p = [0.1, 1.0]
    i = i % (len(p) - 1)
    if kind == "repeat":
        p[i + 1] = p[i]
    elif kind == "decreasing":
        p = p[::-1]
    else:
        p[i], p[i + 1] = p[i + 1], p[i]
    return dict(periods=p, k=draw(st.integers(0, 5)))


def check_bad(case, rec):
    p = case["periods"]
    n = len(p)
    rec.nontrivial()
    x = np.ma.masked_array(np.zeros(n), mask=[i != case["k"] % n for i in range(n)])
    try:
        cmsv(p, [0.0] * n, [0.5] * n, x)
    except ValueError:
        return
    require(False, "periods that are not increasing were accepted: %r", p)


@st.composite
def many_case(draw):
    p = draw(gen.rising(0.01, 10, 80, 2))
    p = [a for a, b in zip(p, [0.0] + p) if a > b * 1.02]
    rng = random.Random(draw(gen.bits(1 << 16)))
    n = len(p)
    share = draw(gen.pick(0.05, 0.2, 0.5, 0.9))
    flags = [rng.random() < share for _ in p]
    flags[rng.randrange(n)] = True
    return dict(
        periods=p,
        ln_psas=[round(rng.uniform(-9, 2), 6) for _ in p],
        ln_stds=[round(rng.uniform(0.1, 1.5), 6) for _ in p],
        target=[round(rng.uniform(-9, 3), 6) for _ in p],
        flags=flags,
        fill=draw(gen.pick(0.0, None, 1e20, "nan", "inf")),
        nomask=False,
        wrap=draw(gen.pick("list", "array")),
    )


def huge_case():
    return st.fixed_dictionaries(dict(size=huge(100, 800), conditioned=gen.bits(12)))


def check_huge(case, rec):
    """Very many periods, against some of the free ones."""
    n, seed = case["size"]["n"], case["size"]["seed"]
    rng = np.random.default_rng(seed)
    p = np.unique(np.exp(rng.uniform(np.log(0.01), np.log(10), n)))
    n = len(p)
    mu, sd, target = rng.uniform(-6, 1, n), rng.uniform(0.2, 1, n), rng.uniform(-6, 1, n)
    at = np.sort(rng.permutation(n)[:: max(n // (case["conditioned"] + 1), 1)])
    # conditioned periods far enough from each other for a well-conditioned inverse
    at = at[np.r_[True, np.diff(np.log(p[at])) > 0.1]]
    mask = np.ones(n, dtype=bool)
    mask[at] = False
    rec.tag("%d conditioned" % len(at))
    rec.nontrivial()
    call = lambda i: cmsv(p[i], mu[i], sd[i], np.ma.masked_array(target[i], mask=mask[i]))  # noqa: E731
    mean, std = call(np.arange(n))[:2]
    for _ in range(6):
        i = np.unique(np.r_[at, rng.integers(0, n, 20)])
        a, b = call(i)[:2]
        same("mean among %d" % n, np.asarray(mean)[i], a, 1e-7, 1e-7)
        same("variance among %d" % n, np.square(std)[i], np.square(b), 1e-7, 1e-7)


PROPERTY = Property(
    "C10",
    [
        Law("vector", case_, check, 9000, "at least one period is not conditioned"),
        Law("huge", huge_case, check_huge, 48, "every case: at least a hundred periods"),
        Law("many", many_case, check, 800, "at least one period is not conditioned"),
        Law("marginal", sub_case, check_sub, 4000, "a free period removed from at least three"),
        Law("rejected", bad_case, check_bad, 800, "every case: periods that are not increasing"),
    ],
    "A distinct spectrum with a distinct choice of conditioned periods, compared with a conditional Gaussian computed independently.",
    ["the correlation model is used within its range of 0.01 to 10 s"],
)
