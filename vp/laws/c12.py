"""C12: parameters are checked, defaulted, and reported."""

import logging
import re
import warnings

import numpy as np
from hypothesis import strategies as st
from pygmm import Scenario
from pygmm.model import CategoricalParameter, NumericParameter

from .. import gen, models
from ..harness import Law, Property, alike, require
from ..ref.params import PARAMS

MODELS = models.ALL
# Where a category without a default is fatal, instead of falling back
MECH_LIMITS = dict(
    bssa14=dict(SS=(3.0, 8.5), NS=(3.0, 7.0)),
    cy14=dict(RS=(3.5, 8.0), NS=(3.5, 8.0), SS=(3.5, 8.5), U=(3.5, 8.5)),
    cb14=dict(SS=(-np.inf, 8.5), RS=(-np.inf, 8.0), NS=(-np.inf, 7.5)),
)


class Watch(logging.Handler):
    """Collects warnings and warning log records."""

    def __init__(self):
        super().__init__(logging.WARNING)
        self.records = []

    def emit(self, record):
        self.records.append(record.getMessage())

    def __enter__(self):
        self._old = logging.getLogger().level
        logging.getLogger().addHandler(self)
        self._cm = warnings.catch_warnings(record=True)
        self._w = self._cm.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *a):
        self._cm.__exit__(*a)
        logging.getLogger().removeHandler(self)

    @property
    def user(self):
        return [str(w.message) for w in self._w if issubclass(w.category, UserWarning)]


def numbers(text):
    return [float(x) for x in re.findall(r"-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?", text)]


def about(msgs, name):
    return [m for m in msgs if re.search(r"\b%s\b" % re.escape(name), m)]


@st.composite
def limits_case(draw):
    key = draw(st.sampled_from(MODELS))
    s = draw(gen.GEN[key]())
    limited = [p for p in PARAMS[key] if p[3] is not None or p[4] is not None]
    if limited and draw(gen.bits(4)):
        name, _, _, lo, hi, _ = draw(st.sampled_from(limited))
        span = (hi if hi is not None else lo * 2 + 10) - (lo if lo is not None else 0)
        side = draw(gen.pick("min", "max", "min-", "max+", "min+", "max-"))
        edge = lo if side.startswith("min") else hi
        if edge is not None and not (edge == 0 and side == "min-"):
            d = draw(gen.pick(1e-9, 1e-3, 0.02)) * span
            s[name] = float(edge + (d if side.endswith("+") else -d if side.endswith("-") else 0.0))
    if key == "pr24" and s["event_type"] == "interface" and s["region"] == "Taiwan":
        s["region"] = "Japan"
    return dict(model=key, s=s)


def check_limits(case, rec):
    key, s = case["model"], gen.clean(case["s"])
    expected = {}
    for name, _, _, lo, hi, options in PARAMS[key]:
        v = s.get(name)
        if v is None or options is not None:
            continue
        if lo is not None and v < lo:
            expected[name] = ("less", lo)
        elif hi is not None and v > hi:
            expected[name] = ("greater", hi)
    with Watch() as w:
        models.build(key, s)
    rec.tag(key, "%d outside" % len(expected) if expected else "all inside")
    rec.nontrivial(expected)
    for name, (word, limit) in expected.items():
        msgs = about(w.user, name)
        require(len(msgs) == 1, "%s: %d warnings about %s = %r, outside of %r: %r", key, len(msgs), name, s[name], limit, w.user)
        require(word in msgs[0], "%s: the warning about %s = %r does not tell it is %s than the limit %r: %r", key, name, s[name], word, limit, msgs[0])
        nums = numbers(msgs[0].replace(name, ""))
        require(any(abs(x - limit) <= 1e-6 * max(1, abs(limit)) for x in nums), "%s: the limit %r is not in %r", key, limit, msgs[0])
    extra = [m for m in w.user if not any(about([m], n) for n in expected)]
    require(not extra, "%s warned about a scenario within the limits: %r", key, extra)
    rng = MECH_LIMITS.get(key, {}).get(s.get("mechanism") or ("U" if key == "cy14" else None))
    if rng:
        outside = not rng[0] <= s["mag"] <= rng[1]
        rec.tag("magnitude outside of the mechanism" if outside else "")
        said = [m for m in w.records if "agnitude" in m]
        require(bool(said) == outside, "%s: magnitude %r with mechanism %r logged %r", key, s["mag"], s.get("mechanism"), said)
    else:
        require(not w.records, "%s logged %r", key, w.records)


@st.composite
def missing_case(draw):
    key = draw(st.sampled_from(MODELS))
    s = draw(gen.GEN[key](limits=True))
    req = [p[0] for p in PARAMS[key] if p[1]]
    return dict(model=key, s=s, drop=draw(st.lists(st.sampled_from(req), min_size=1, max_size=2, unique=True)), none=draw(st.booleans()))


def check_missing(case, rec):
    key = case["model"]
    s = {k: v for k, v in case["s"].items() if v is not None and k not in case["drop"]}
    if case["none"]:
        s.update({k: None for k in case["drop"]})
    rec.tag(key, *case["drop"])
    rec.nontrivial()
    try:
        models.CLASS[key](Scenario(**s))
    except ValueError as e:
        require(any(k in str(e) for k in case["drop"]), "%s: the error for missing %r does not name it: %s", key, case["drop"], e)
        return
    require(False, "%s accepts a scenario without %r", key, case["drop"])


CAT = [(k, p) for k in MODELS for p in PARAMS[k] if p[5] is not None and p[2] is not None]
CAT_NO_DEFAULT = [(k, p) for k in MODELS for p in PARAMS[k] if p[5] is not None and p[2] is None]


def wrong(options, values):
    """Values that are not options, some of which are nearly."""
    o = st.sampled_from([x for x in options if isinstance(x, str)] or ["True"])
    near = st.sampled_from([str.lower, str.upper, str.title, str.swapcase, lambda x: x + " ", lambda x: " " + x, lambda x: x[:-1], lambda x: x[:1], lambda x: x + x[-1], lambda x: x.replace("_", " "), lambda x: x.replace(" ", "_")])
    return st.one_of(st.sampled_from(values), st.text(max_size=6), st.tuples(o, near).map(lambda t: t[1](t[0])), st.tuples(o, near).map(lambda t: t[1](t[0])))


@st.composite
def category_case(draw):
    key, p = draw(st.sampled_from(CAT))
    s = draw(gen.GEN[key](limits=True))
    bad = draw(wrong(p[5], ["", "XX", "ss", "Global", "CALIFORNIA", "unknown ", "N/A", 7, 2.5]))
    return dict(model=key, s=gen.clean(s), name=p[0], bad=bad)


def check_category(case, rec):
    key, name, bad = case["model"], case["name"], case["bad"]
    p = [p for p in PARAMS[key] if p[0] == name][0]
    if bad in p[5]:
        return
    rec.tag("%s.%s" % (key, name))
    rec.nontrivial()
    s = dict(case["s"], **{name: bad})
    with Watch() as w:
        m = models.build(key, s)
    msgs = about(w.user, name)
    require(msgs, "%s: no warning about %s = %r", key, name, bad)
    require(any(all(str(o) in x for o in p[5]) for x in msgs), "%s: the options %r are not listed: %r", key, p[5], msgs)
    require(m.scenario[name] == p[2] and type(m.scenario[name]) is type(p[2]), "%s uses %s = %r instead of the default %r", key, name, m.scenario[name], p[2])
    a = models.snap(key, m)
    for other in (dict(s, **{name: p[2]}), {k: v for k, v in s.items() if k != name}):
        if p[1] and name not in other:
            continue
        b = models.snap(key, models.build(key, other))
        for k in a:
            alike("%s %s with %s = %r or its default" % (key, k, name, bad), a[k], b[k])


@st.composite
def no_default_case(draw):
    key, p = draw(st.sampled_from(CAT_NO_DEFAULT))
    bad = draw(wrong(p[5], ["", "XX", "ss", "Interface", "SOIL", "N/A", 7, 2.5]))
    return dict(model=key, s=gen.clean(draw(gen.GEN[key](limits=True))), name=p[0], bad=bad)


def check_no_default(case, rec):
    """Without a default the value is left out, with the same warning; the model may need it."""
    key, name, bad = case["model"], case["name"], case["bad"]
    p = [p for p in PARAMS[key] if p[0] == name][0]
    if bad in p[5]:
        return
    rec.tag("%s.%s" % (key, name))
    rec.nontrivial()
    m = None
    with Watch() as w:
        try:
            m = models.build(key, dict(case["s"], **{name: bad}))
        except Exception as e:
            rec.tag("raises " + type(e).__name__)
    msgs = about(w.user, name)
    require(any(all(str(o) in x for o in p[5]) for x in msgs), "%s: no warning lists the options %r for %s = %r: %r", key, p[5], name, bad, msgs)
    if m is not None:
        require(m.scenario[name] is None, "%s uses %s = %r", key, name, m.scenario[name])


@st.composite
def used_case(draw):
    key = draw(st.sampled_from(MODELS))
    return dict(model=key, s=draw(gen.GEN[key]()))


def check_used(case, rec):
    """The scenario of the model tells what was used."""
    key, s = case["model"], gen.clean(case["s"])
    rec.tag(key)
    omitted = [p[0] for p in PARAMS[key] if p[0] not in s]
    rec.nontrivial(omitted)
    m = models.build(key, s)
    used = m.scenario
    for name, _, default, _, _, options in PARAMS[key]:
        require(name in used, "%s does not report %s", key, name)
        v = used[name]
        require(getattr(used, name) is v or getattr(used, name) == v, "%s: attribute and item %s differ: %r and %r", key, name, getattr(used, name), v)
        if name in s:
            require(v == s[name], "%s was given %s = %r and reports %r", key, name, s[name], v)
        elif default is not None:
            require(v == default, "%s reports the default %s = %r instead of %r", key, name, v, default)


@st.composite
def param_case(draw):
    lo = draw(gen.maybe(gen.num(-10, 10, (0,)), (1, 2)))
    hi = draw(gen.maybe(gen.num(-10, 30, (0, 10)), (1, 2)))
    if lo is not None and hi is not None and hi < lo:
        lo, hi = hi, lo
    edges = [x for x in (lo, hi) if x is not None]
    value = gen.num(-20, 40, (0,))
    if edges:
        value = st.one_of(value, st.sampled_from(edges))
    opts = draw(st.lists(st.one_of(st.text(max_size=3), st.booleans(), st.integers(0, 3)), max_size=4))
    return dict(
        lo=lo,
        hi=hi,
        value=draw(gen.maybe(value, (1, 4))),
        kind=draw(gen.pick("float", "float", "float64", "int64", "int", "int16")),
        required=draw(st.booleans()),
        default=draw(gen.maybe(gen.num(-20, 40, (0,)))),
        options=opts,
        choice=draw(st.one_of(st.none(), st.sampled_from(opts) if opts else st.text(max_size=3), st.text(max_size=3))),
        fallback=draw(st.one_of(st.none(), st.sampled_from(opts) if opts else st.none())),
    )


KINDS = dict(int=int, int64=np.int64, int16=np.int16, float64=np.float64)


def outcome(fn, *a):
    with Watch() as w:
        try:
            return fn(*a), w.user, None
        except ValueError as e:
            return None, w.user, e


def check_param(case, rec):
    lo, hi, v, req, default = (case[k] for k in ("lo", "hi", "value", "required", "default"))
    rec.nontrivial()
    if v is not None and case["kind"] != "float":
        v = KINDS[case["kind"]](v)
    p = NumericParameter("width", req, lo, hi, default)
    got, msgs, err = outcome(p.check, v)
    if v is None and req:
        require(err is not None, "a required parameter may be missing")
        rec.tag("required and missing")
    else:
        want = default if v is None else v
        require(err is None, "raised %r", err)
        require(got == want and (got is None) == (want is None), "check(%r) returns %r instead of %r", v, got, want)
        out = want is not None and ((lo is not None and want < lo) or (hi is not None and want > hi))
        rec.tag("outside" if out else "inside" if want is not None else "none")
        require(len(msgs) == out, "check(%r) with the limits %r and %r warned: %r", v, lo, hi, msgs)
        if out:
            limit = lo if lo is not None and want < lo else hi
            require("width" in msgs[0] and str(limit) in msgs[0], "check(%r) does not name the limit %r: %s", v, limit, msgs[0])
    require((p.name, p.required, p.default, p.min, p.max) == ("width", req, default, lo, hi), "the declaration is changed")
    opts, c, d = case["options"], case["choice"], case["fallback"]
    p = CategoricalParameter("region", req, opts, d)
    got, msgs, err = outcome(p.check, c)
    if c is None and req:
        require(err is not None, "a required parameter may be missing")
        return
    require(err is None, "raised %r", err)
    require((p.name, p.required, p.default, list(p.options)) == ("region", req, d, opts), "the declaration is changed")
    value = d if c is None else c
    if value in opts:
        require(got == value and not msgs, "check(%r) of the options %r returns %r and warns %r", c, opts, got, msgs)
    else:
        rec.tag("not an option")
        require(got == d and (got is None) == (d is None), "check(%r) of the options %r returns %r instead of the default %r", c, opts, got, d)
        require(any("region" in x and all(str(o) in x for o in opts) for x in msgs), "check(%r) of the options %r warns %r", c, opts, msgs)


@st.composite
def declared_case(draw):
    key, p = draw(st.sampled_from([(k, p) for k in MODELS for p in PARAMS[k]]))
    return dict(model=key, name=p[0], value=draw(gen.num(-50, 500, [x for x in p[3:5] if x is not None])))


def check_declared(case, rec):
    """What a class declares about a parameter is what it checks."""
    key, name, v = case["model"], case["name"], case["value"]
    cls = models.CLASS[key]
    want = [p for p in PARAMS[key] if p[0] == name][0]
    found = [p for p in cls.PARAMS if p.name == name]
    require(len(found) == 1 and len(cls.PARAMS) == len(PARAMS[key]), "%s declares %r", key, [p.name for p in cls.PARAMS])
    p = found[0]
    require(bool(p.required) == want[1] and p.default == want[2], "%s: %s is declared as %r with the default %r", key, name, p.required, p.default)
    rec.tag(key)
    rec.nontrivial()
    if want[5] is not None:
        require(list(p.options) == want[5], "%s: the options of %s are %r", key, name, p.options)
        return
    require((p.min, p.max) == (want[3], want[4]), "%s: the limits of %s are %r and %r", key, name, p.min, p.max)
    applicable = cls.LIMITS.get(name)
    if applicable and None not in (p.min, p.max):
        require(tuple(applicable) == (p.min, p.max), "%s: %s is applicable in %r, and declared with %r and %r", key, name, applicable, p.min, p.max)
    with Watch() as w:
        require(p.check(v) == v, "%s: check of %s = %r returns %r", key, name, v, p.check(v))
    out = (p.min is not None and v < p.min) or (p.max is not None and v > p.max)
    require(bool(w.user) == out, "%s: %s = %r warns %r", key, name, v, w.user)


PROPERTY = Property(
    "C12",
    [
        Law("limits", limits_case, check_limits, 12000, "at least one parameter outside of its recommended limits"),
        Law("missing", missing_case, check_missing, 3000, "every case: one or two required parameters missing"),
        Law("category", category_case, check_category, 4000, "every case: a value that is not an option"),
        Law("declared", declared_case, check_declared, 3000, "every case: a parameter of a model"),
        Law("no_default", no_default_case, check_no_default, 2000, "every case: a value that is not an option of a category without a default"),
        Law("used", used_case, check_used, 5000, "a scenario that leaves at least one parameter to the model"),
        Law("parameter", param_case, check_param, 8000, "every case: a parameter with generated limits, options and default"),
    ],
    "A distinct request with a missing, unusual or omitted parameter, whose errors, warnings and reported parameters were all compared with what is declared.",
    ["the recommended limits, options and defaults were frozen from the documentation of the pinned commit"],
)
