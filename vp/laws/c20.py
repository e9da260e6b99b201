"""C20: only the parameters that matter matter, however they are given."""

import json
import pickle

from hypothesis import strategies as st
from pygmm import Scenario

from .. import gen, models
from ..harness import Law, Property, alike, require, same
from ..ref.params import PARAMS
from .c16 import KEYS

EXTRA = {k: [n for n in KEYS if n not in [p[0] for p in PARAMS[k]]] for k in models.ALL}
FORMS = ["scenario", "positional", "copy_with", "update", "reversed", "keywords", "pickle", "json", "subclass", "emptied"]
KEYWORDS = ("ga11",)
STRINGS = ["SS", "RS", "U", "japan", "measured", "interface", "soil", "backarc", "?"]


class Derived(Scenario):
    """A scenario of the user."""

    note = "mine"


@st.composite
def form_case(draw):
    key = draw(st.sampled_from(models.ALL))
    s = gen.clean(draw(gen.GEN[key]()))
    junk = draw(st.dictionaries(st.sampled_from(EXTRA[key]), st.one_of(gen.num(-5, 500, (0, 1)), st.sampled_from(STRINGS), st.booleans()), max_size=6))
    return dict(model=key, s=s, junk=junk, form=draw(st.sampled_from(FORMS)), cut=draw(gen.bits(8)))


def construct(key, form, s, cut):
    cls = models.CLASS[key]
    names = sorted(s)
    a, b = {k: s[k] for k in names[:cut]}, {k: s[k] for k in names[cut:]}
    if form == "scenario":
        return cls(Scenario(**s))
    if form == "positional":
        return cls(Scenario(s))
    if form == "copy_with":
        return cls(Scenario(**a).copy_with(**b))
    if form == "update":
        x = Scenario(**b)
        x.update(a)
        return cls(x)
    if form == "reversed":
        return cls(Scenario(**{k: s[k] for k in names[::-1]}))
    if form == "pickle":
        return cls(pickle.loads(pickle.dumps(Scenario(**s))))
    if form == "json":
        return cls(Scenario(json.loads(json.dumps(dict(Scenario(**s))))))
    if form == "subclass":
        return cls(Derived(**s))
    if form == "emptied":
        # a scenario of something else before
        x = Scenario(**{k: v for k, v in zip(names, [s[n] for n in names[1:]] + [1.0])})
        x.clear()
        for k in names:
            x[k] = s[k]
        return cls(x)
    # the models that take the parameters as keywords
    return cls(**s) if key in KEYWORDS else cls(Scenario(**s))


def check_form(case, rec):
    key, s = case["model"], case["s"]
    rec.tag(key, case["form"], *["unrelated " + k for k in case["junk"]])
    rec.nontrivial(case["junk"] or case["form"] != "scenario")
    a = models.snap(key, models.build(key, s))
    m = construct(key, case["form"], dict(s, **case["junk"]), case["cut"])
    b = models.snap(key, m)
    for n in a:
        alike("%s %s of the same scenario (%s, with %r)" % (key, n, case["form"], case["junk"]), b[n], a[n])
    odd = [k for k in m.scenario if k in case["junk"]]
    require(not odd, "the scenario of %s has %r, which it does not use", key, odd)


def on(**want):
    return lambda s: all(s.get(k) == v for k, v in want.items())


def off(k):
    return lambda s: not s.get(k)


def given(*ks):
    return lambda s: all(s.get(k) is not None for k in ks)


# model, condition, parameter, results that do not depend on it (None: none does)
RULES = [
    ("ask14", off("is_aftershock"), "dist_crjb", None),
    ("ask14", off("on_hanging_wall"), "dist_x", None),
    ("ask14", off("on_hanging_wall"), "dist_y0", None),
    ("ask14", off("on_hanging_wall"), "dist_jb", None),
    ("ask14", off("on_hanging_wall"), "width", None),
    ("ask14", off("on_hanging_wall"), "dip", None),
    ("ask14", lambda s: s.get("on_hanging_wall") and s.get("dist_y0") is not None, "dist_jb", None),
    ("ask14", lambda s: True, "vs_source", ("spec_accels", "pga", "pgv")),
    ("ask14", on(region="japan"), "vs_source", None),
    ("ask14", lambda s: s["v_s30"] >= 1000, "mechanism", ("ln_stds", "ln_std_pga", "ln_std_pgv")),
    ("bssa14", lambda s: True, "mechanism", ("ln_stds", "ln_std_pga", "ln_std_pgv")),
    ("bssa14", lambda s: True, "region", ("ln_stds", "ln_std_pga", "ln_std_pgv")),
    ("bssa14", lambda s: True, "depth_1_0", ("pga", "pgv", "ln_stds", "ln_std_pga", "ln_std_pgv")),
    ("cb14", lambda s: True, "depth_1_0", None),
    ("cb14", given("width"), "depth_bot", None),
    ("cb14", given("depth_bor", "width"), "depth_bot", None),
    ("cb14", given("depth_hyp"), "depth_bor", None),
    ("cb14", lambda s: s["dist_x"] < 0, "dist_jb", None),
    ("cy14", off("on_hanging_wall"), "dist_x", None),
    ("cy14", off("on_hanging_wall"), "dist_jb", None),
    ("cy14", lambda s: True, "vs_source", ("spec_accels", "pga", "pgv")),
    ("cy14", lambda s: s["dist_rup"] >= 70, "dpp_centered", None),
    ("cy14", lambda s: s["mag"] <= 5.5, "dpp_centered", None),
    ("cy14", lambda s: s["v_s30"] >= 1130, "mechanism", ("ln_stds", "ln_std_pga", "ln_std_pgv")),
    ("i14", lambda s: True, "mechanism", ("ln_stds", "ln_std_pga")),
    ("i14", lambda s: True, "dist_rup", ("ln_stds", "ln_std_pga")),
    ("i14", lambda s: True, "v_s30", ("ln_stds", "ln_std_pga")),
    ("asb14", given("dist_jb"), "dist_hyp", None),
    ("asb14", given("dist_jb"), "dist_epi", None),
    ("asb14", given("dist_hyp"), "dist_epi", None),
    ("asb14", lambda s: True, "mechanism", ("ln_stds", "ln_std_pga", "ln_std_pgv")),
    ("asb14", lambda s: True, "mag", ("ln_stds", "ln_std_pga", "ln_std_pgv")),
    ("dbc14", lambda s: True, "mechanism", ("ln_stds", "ln_std_pga", "ln_std_pgv")),
    ("dbc14", lambda s: True, "mag", ("ln_stds", "ln_std_pga", "ln_std_pgv")),
    ("ab06", lambda s: True, "mag", ("ln_stds", "ln_std_pga", "ln_std_pgv")),
    ("ab06", lambda s: True, "dist_rup", ("ln_stds", "ln_std_pga", "ln_std_pgv")),
    ("ab06", lambda s: True, "v_s30", ("ln_stds", "ln_std_pga", "ln_std_pgv")),
    ("c03", lambda s: True, "dist_rup", ("ln_stds",)),
    ("pea11", lambda s: True, "dist_rup", ("ln_stds", "ln_std_pga")),
    ("tp05", lambda s: True, "dist_rup", ("ln_stds", "ln_std_pga")),
    ("aga16", on(event_type="interface"), "dist_hyp", None),
    ("aga16", on(event_type="interface"), "depth_hyp", None),
    ("aga16", on(event_type="intraslab"), "dist_rup", None),
    ("aga16", lambda s: True, "mag", ("ln_stds", "ln_std_pga")),
    ("aga16", lambda s: True, "v_s30", ("ln_stds", "ln_std_pga")),
    ("pnnl14", lambda s: True, "mag", ("ln_stds", "ln_std_pga")),
    ("ba19", lambda s: s["v_s30"] >= 1500, "mechanism", ("ln_std",)),
    ("as16", lambda s: True, "v_s30", ("std_err",)),
    ("as16", lambda s: True, "dist_rup", ("std_err",)),
    ("as16", lambda s: True, "mechanism", ("std_err",)),
    ("ks06", lambda s: True, "mag", ("std_err",)),
    ("ks06", lambda s: True, "dist_rup", ("std_err",)),
    ("as96", lambda s: True, "mag", ("std_err",)),
    ("as96", lambda s: True, "dist_rup", ("std_err",)),
]
# Categories that the publication does not tell apart: (model, parameter, values, results)
ALIKE = [
    ("ask14", "region", ("global", "california", "italy", None), None),
    ("bssa14", "region", ("global", "california", "new_zealand", "taiwan", None), None),
    ("bssa14", "region", ("china", "turkey"), None),
    ("bssa14", "mechanism", ("U", None), None),
    ("cb14", "region", ("global", "california", None), None),
    ("cy14", "region", ("california", None), None),
    ("cy14", "mechanism", ("U", "SS", None), None),
    ("aga16", "tectonic_region", ("forearc", "unknown", None), None),
    ("ba19", "mechanism", ("SS", "RS", None), None),
    ("ask14", "vs_source", ("measured", None), None),
    ("cy14", "vs_source", ("measured", None), None),
]


@st.composite
def rule_case(draw):
    i = draw(gen.bits(len(RULES)))
    key, cond, p, _ = RULES[i]
    for _ in range(6):
        s = gen.repair(key, draw(gen.GEN[key]()))
        if cond(s):
            break
        for k in ("is_aftershock", "on_hanging_wall"):
            if k in s:
                s[k] = False
        if cond(s):
            break
    t = gen.repair(key, draw(gen.GEN[key]()))
    return dict(rule=i, s=gen.clean(s), to=t[p])


def check_rule(case, rec):
    key, cond, p, names = RULES[case["rule"]]
    s, to = case["s"], case["to"]
    full = {k[0]: s.get(k[0]) for k in PARAMS[key]}
    if not cond(full) or to == s.get(p):
        return
    if key == "cb14" and p == "depth_bot" and full["depth_tor"] is not None and to is not None and to <= full["depth_tor"]:
        return
    t = {k: v for k, v in dict(s, **{p: to}).items() if v is not None}
    if [k for k in PARAMS[key] if k[1] and k[0] not in t]:
        return
    if key == "asb14" and not any(k in t for k in ("dist_jb", "dist_hyp", "dist_epi")):
        return
    if key == "cb14" and p == "dist_jb" and s["dist_rup"] == 0:
        return
    rec.tag("%s.%s" % (key, p))
    rec.nontrivial()
    a, b = models.snap(key, models.build(key, s)), models.snap(key, models.build(key, t))
    for n in names or a:
        same("%s %s with %s = %r instead of %r" % (key, n, p, to, s.get(p)), b[n], a[n], 1e-12, 1e-300)


@st.composite
def alike_case(draw):
    i = draw(gen.bits(len(ALIKE)))
    key, p, values, _ = ALIKE[i]
    return dict(rule=i, s=gen.clean(gen.repair(key, draw(gen.GEN[key]()))), pair=draw(st.permutations(list(values)))[:2])


def check_alike(case, rec):
    key, p, values, names = ALIKE[case["rule"]]
    rec.tag("%s.%s" % (key, p))
    rec.nontrivial()
    a, b = [models.snap(key, models.build(key, dict(case["s"], **{p: v}))) for v in case["pair"]]
    for n in names or a:
        same("%s %s with %s = %r instead of %r" % (key, n, p, case["pair"][1], case["pair"][0]), b[n], a[n], 1e-12, 1e-300)


PROPERTY = Property(
    "C20",
    [
        Law("forms", form_case, check_form, 6000, "another way to give the scenario, or parameters the model does not use"),
        Law("irrelevant", rule_case, check_rule, 6000, "a parameter changed that the publication does not use for the scenario"),
        Law("alike", alike_case, check_alike, 2500, "two categories that the publication treats alike"),
    ],
    "A distinct pair of requests that must give the same results.",
    ["which parameters matter was taken from the publications"],
)
