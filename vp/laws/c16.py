"""C16: the scenario behaves as a mapping with attributes, whatever its history."""

import copy
import json
import pickle

from hypothesis import strategies as st
from pygmm import Scenario
from pygmm.model import Coefficients

from .. import gen
from ..harness import HarnessError, Law, Property, require

# Documented keys
KEYS = [
    "depth_1_0", "depth_2_5", "depth_tor", "depth_bor", "depth_bot", "depth_hyp", "dip", "dist_crjb", "dist_jb", "dist_epi", "dist_hyp",
    "dist_rup", "dist_x", "dist_y0", "dpp_centered", "event_type", "is_aftershock", "mag", "mechanism", "on_hanging_wall", "pga_ref",
    "region", "site_cond", "tectonic_region", "v_s30", "vs_source", "width",
]  # fmt: skip
MUTATE = ("set", "update", "update_kw", "del", "pop", "setdefault", "clear", "popitem")
SPAWN = ("copy", "copy_with", "copy_with", "copy_copy", "deepcopy", "pickle", "rebuild", "or")
REJECT = ("bad_init", "bad_copy_with")

VALUE = st.one_of(gen.num(-10, 1000, (0, 1)), st.sampled_from(["SS", "japan", "", "U"]), st.booleans(), st.none(), st.integers(-5, 500))
SOME = st.dictionaries(st.sampled_from(KEYS), VALUE, max_size=5)
BAD = st.one_of(
    st.sampled_from(["vs30", "magnitude", "Mag", "dist", "data", "rake", "depth", "KNOWN_KEYS", "copy", "keys", "v_s30 ", "dist_ry0"]),
    st.from_regex(r"\A[a-z_]{1,12}\Z"),
)


@st.composite
def history(draw):
    op = st.tuples(
        st.sampled_from(MUTATE + SPAWN + SPAWN + REJECT),
        gen.bits(6),
        st.sampled_from(KEYS),
        VALUE,
        SOME,
        BAD,
    ).map(list)
    return dict(start=draw(SOME), ops=draw(st.lists(op, min_size=1, max_size=16)))


def same_value(a, b):
    return type(a) is type(b) and a == b


def compare(what, s, d):
    """A scenario against a plain dictionary."""
    require(isinstance(s, Scenario), "%s is a %s", what, type(s).__name__)
    require(len(s) == len(d) and list(s) == list(d), "%s has the keys %r instead of %r", what, list(s), list(d))
    require(bool(s) == bool(d), "truth value of %s", what)
    for k, v in d.items():
        require(same_value(s[k], v), "%s[%r] is %r instead of %r", what, k, s[k], v)
        require(same_value(getattr(s, k), v), "%s.%s is %r instead of %r", what, k, getattr(s, k), v)
        require(same_value(s.get(k, "?"), v), "%s.get(%r) is %r", what, k, s.get(k, "?"))
        require(k in s and hasattr(s, k), "%s does not have %r", what, k)
    for k in KEYS:
        if k in d:
            continue
        require(k not in s and s.get(k) is None and s.get(k, 7) == 7, "%s has %r", what, k)
        require(not hasattr(s, k), "%s has the attribute %r", what, k)
        require(getattr(s, k, "none") == "none", "%s has the attribute %r", what, k)
        try:
            s[k]
        except KeyError:
            continue
        require(False, "%s[%r] does not raise", what, k)
    require(dict(s) == d and dict(s.items()) == d and list(s.values()) == list(d.values()), "%s: items %r", what, dict(s))
    shown = repr(s)
    if "mag" in d and "dist_jb" in d:
        require(shown == "<Scenario(mag=%s, dist_jb=%s)>" % (d["mag"], d["dist_jb"]), "%s is represented by %r", what, shown)
    require(all(str(d[k]) in shown for k in ("mag", "dist_jb") if k in d), "%s is represented by %r", what, shown)


def rejects(fn, *a, **k):
    """Unknown keys raise a Warning, with its name."""
    try:
        fn(*a, **k)
    except Warning as e:
        return str(e)
    return None


def check(case, rec):
    live = [(Scenario(**case["start"]), dict(case["start"]))]
    spawned = mutated = 0
    for op, i, key, value, some, bad in case["ops"]:
        s, d = live[i % len(live)]
        if op == "set":
            s[key] = value
            d[key] = value
        elif op == "update":
            s.update(some)
            d.update(some)
        elif op == "update_kw":
            s.update(**some)
            d.update(**some)
        elif op == "del":
            if key in d:
                del s[key], d[key]
            else:
                try:
                    del s[key]
                    require(False, "a missing key was deleted")
                except KeyError:
                    pass
        elif op == "pop":
            require(s.pop(key, "?") == d.pop(key, "?"), "pop(%r)", key)
        elif op == "setdefault":
            require(same_value(s.setdefault(key, value), d.setdefault(key, value)), "setdefault(%r, %r)", key, value)
        elif op == "clear":
            s.clear()
            d.clear()
        elif op == "popitem":
            if d:
                k, v = s.popitem()
                require(k in d and same_value(d.pop(k), v), "popitem() returned %r", (k, v))
        elif op == "copy":
            live.append((s.copy(), dict(d)))
        elif op == "copy_with":
            live.append((s.copy_with(**some), dict(d, **some)))
        elif op == "copy_copy":
            live.append((copy.copy(s), dict(d)))
        elif op == "deepcopy":
            live.append((copy.deepcopy(s), dict(d)))
        elif op == "pickle":
            live.append((pickle.loads(pickle.dumps(s, i % 6)), dict(d)))
        elif op == "rebuild":
            live.append((Scenario(**s), dict(d)))
        elif op == "or":
            live.append((s | some, dict(d, **some)))
        elif op in REJECT:
            if bad in KEYS:
                continue
            before = dict(s)
            said = rejects(Scenario, **dict(d, **{bad: value})) if op == "bad_init" else rejects(s.copy_with, **dict(some, **{bad: value}))
            require(said is not None, "the unknown key %r was accepted by %s", bad, op)
            require(bad in said, "the message does not name the unknown key %r: %s", bad, said)
            require(dict(s) == before, "a rejected copy changed the scenario")
        else:
            raise HarnessError(op)
        spawned += op in SPAWN
        mutated += op in MUTATE
        rec.tag(op)
        for n, (a, b) in enumerate(live):
            compare("scenario %d after %s" % (n, op), a, b)
    for n, (a, b) in enumerate(live):
        for o, (c, d) in enumerate(live):
            require((a == c) == (b == d), "scenarios %d and %d: equal is %r for %r and %r", n, o, a == c, b, d)
    rec.nontrivial(spawned >= 1 and mutated >= 1)


def coeff_case():
    name = st.from_regex(r"\A[a-z][a-z0-9_]{0,5}\Z")
    return st.fixed_dictionaries(dict(data=st.dictionaries(name, gen.num(-5, 5, (0,)), max_size=6), other=name))


def check_coeff(case, rec):
    """Read-only coefficients behave as a mapping with attributes too."""
    d = case["data"]
    c = Coefficients(**d)
    rec.nontrivial(len(d) > 1)
    for x in (c, copy.copy(c), copy.deepcopy(c), pickle.loads(pickle.dumps(c))):
        require(dict(x) == d and len(x) == len(d) and list(x) == list(d), "coefficients are %r", dict(x))
        for k, v in d.items():
            require(x[k] == v and k in x, "item %r", k)
            if k not in ("get", "keys", "items", "values"):
                require(getattr(x, k) == v, "attribute %r", k)
        if case["other"] not in d and case["other"] not in ("get", "keys", "items", "values"):
            require(not hasattr(x, case["other"]), "has the attribute %r", case["other"])
        try:
            x["a"] = 1
        except TypeError:
            continue
        require(False, "the coefficients can be changed")


def json_case():
    return st.fixed_dictionaries(dict(s=SOME))


def check_json(case, rec):
    s = Scenario(**case["s"])
    rec.nontrivial(len(s) > 1)
    compare("a scenario read back", Scenario(**json.loads(json.dumps(dict(s)))), case["s"])


PROPERTY = Property(
    "C16",
    [
        Law("history", history, check, 6000, "a history with at least one copy and one modification"),
        Law("coefficients", coeff_case, check_coeff, 1500, "at least two coefficients"),
        Law("json", json_case, check_json, 800, "at least two parameters"),
    ],
    "A distinct history of modifications, copies and rejected keys, with every live scenario compared with a plain dictionary after each step.",
    ["the documented keys were frozen from the pinned commit"],
)
