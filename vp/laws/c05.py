"""C05: vertical-to-horizontal ratio."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, models
from ..harness import Law, Property, ref, require, same
from ..ref import other
from ..ref.nga2 import lin
from .arrays import FORMS, huge, whole, wrap

LO, HI = 0.01, 10.0


def interp_case():
    per = st.one_of(gen.num(LO, HI, list(other.GA.period[2:]), log=True), gen.num(0.003, 30.0, (LO, HI), log=True))
    return st.fixed_dictionaries(dict(s=gen.far("ga11"), periods=st.lists(per, min_size=1, max_size=8)))


def check(s, rec):
    m = models.build("ga11", s)
    want = ref(other.ga11, s)
    rec.tag(*gen.tags(s))
    rec.nontrivial()
    same("ratio", np.log(m.ratio), want["ln"], 1e-8, 1e-8)
    same("ln_std", m.ln_std, want["std"], 1e-8, 1e-8)


def check_interp(case, rec):
    s, periods = case["s"], case["periods"]
    m = models.build("ga11", s)
    want = ref(other.ga11, s)
    x = [float(v) for v in np.log(other.GA.period[2:])]
    rec.tag("outside the table" if min(periods) < LO or max(periods) > HI else "inside the table")
    rec.tag("unsorted" if periods != sorted(periods) else "sorted")
    rec.nontrivial()
    a = ref(lambda: [lin(float(np.log(p)), x, list(want["ln"][2:])) for p in periods])
    b = ref(lambda: [lin(float(np.log(p)), x, list(want["std"][2:])) for p in periods])
    same("interp_ratio", np.log(m.interp_ratio(periods)), a, 1e-8, 1e-8)
    same("interp_ln_std", m.interp_ln_std(periods), b, 1e-8, 1e-8)


def many_case():
    per = gen.long(0.003, 30.0, [LO, HI] + list(other.GA.period[2:]), log=True, most=400)
    return st.tuples(gen.GEN["ga11"](), per, gen.pick(*FORMS)).map(lambda t: dict(s=t[0], periods=t[1] or [0.1], form=t[2]))


def check_many(case, rec):
    """Long lists and arrays of any shape."""
    m = models.build("ga11", case["s"])
    want = ref(other.ga11, case["s"])
    arg, p = wrap(case["periods"], case["form"])
    x = np.log(other.GA.period[2:])
    rec.tag(case["form"], "more than 100" if len(p) > 100 else "up to 100")
    rec.nontrivial(len(p) > 8)
    for name, got, key in (("interp_ratio", np.log(m.interp_ratio(arg)), "ln"), ("interp_ln_std", m.interp_ln_std(arg), "std")):
        require(np.shape(got) == np.shape(arg), "%s has the shape %s for periods of the shape %s", name, np.shape(got), np.shape(arg))
        same(name, np.ravel(got), ref(lambda: [lin(float(v), x, list(want[key][2:])) for v in np.log(p)]), 1e-8, 1e-8)  # noqa: B023


def huge_case():
    return st.fixed_dictionaries(dict(s=gen.GEN["ga11"](), size=huge()))


def check_huge(case, rec):
    """Very long arrays, against their pieces."""
    n, seed = case["size"]["n"], case["size"]["seed"]
    m = models.build("ga11", case["s"])
    p = np.exp(np.random.default_rng(seed).uniform(np.log(LO) - 0.01, np.log(HI) + 0.01, n))
    rec.tag("more than 4096" if n > 4096 else "up to 4096")
    rec.nontrivial()
    whole("interp_ratio", m.interp_ratio, [p], seed)
    whole("interp_ln_std", m.interp_ln_std, [p], seed)


PROPERTY = Property(
    "C05",
    [
        Law("ratio", lambda: gen.far("ga11"), check, 12000, "an accepted scenario compared at every period, PGA and PGV"),
        Law("interp", interp_case, check_interp, 5000, "an accepted scenario and list of periods, compared at each"),
        Law("huge", huge_case, check_huge, 48, "every case: at least a thousand periods"),
        Law("many", many_case, check_many, 400, "more than eight periods"),
    ],
    "A distinct scenario (and list of periods) whose ratios and standard deviations were compared with the reference.",
    ["the reference model and its frozen coefficient table transcribe the publication"],
)
