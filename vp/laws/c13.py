"""C13: results depend on the scenario alone, whatever else happens."""

import copy
import json
import logging
import os
import pickle
import random
import subprocess
import sys
import tempfile
import threading
import warnings

import numpy as np
from hypothesis import strategies as st
from pygmm import BaylessAbrahamson2018 as BA18
from pygmm import Scenario
from pygmm import Stafford2017 as PJS
from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum, calc_correls
from pygmm.kishida_2017 import calc_cond_mean_spectrum_vector
from pygmm.pinilla_ramos_et_al_2024 import duration_model

from .. import boot, gen, models
from ..harness import ROOT, Law, Property, HarnessError, alike, identical, ref, require, same
from ..ref import corr, dur
from ..ref.params import PARAMS

OPS = ("build", "build", "build", "read", "scribble", "edit", "edit_model", "fail", "copy", "other", "odd")


@st.composite
def history_case(draw):
    key = draw(st.sampled_from(models.ALL))
    fam = draw(gen.family(key))
    other = draw(st.sampled_from(models.ALL))
    op = st.tuples(st.sampled_from(OPS), gen.bits(4), gen.bits(8)).map(list)
    return dict(
        model=key,
        family=[gen.clean(s) for s in fam],
        other=[other, gen.clean(draw(gen.GEN[other]()))],
        ops=draw(st.lists(op, min_size=2, max_size=14)),
    )


def arrays(m):
    """Arrays the model hands out by its properties."""
    for name in sorted(n for n in dir(type(m)) if isinstance(getattr(type(m), n), property)):
        try:
            v = getattr(m, name)
        except NotImplementedError:
            continue
        if isinstance(v, np.ndarray) and v.ndim and v.dtype.names is None:
            yield name, v


def surroundings():
    """State of the process that is not of the models."""
    return dict(
        errors=np.geterr(), printing=np.get_printoptions(), filters=list(warnings.filters), environment=dict(os.environ), folder=os.getcwd(), logging=(logging.root.level, logging.root.disabled, logging.getLogger("pygmm").level, logging.getLogger("pygmm").disabled, logging.root.manager.disable),
        random=(np.random.get_state()[1].tobytes(), random.getstate()), recursion=sys.getrecursionlimit(), path=list(sys.path),
    )  # fmt: skip


class World:
    def __init__(self, case):
        self.key = case["model"]
        self.family = case["family"]
        self.want = [None] * len(self.family)
        self.first = [None] * len(self.family)
        self.slots = []  # model, variant, scenario of the user, spoiled
        self.log = []

    def build(self, v):
        s = Scenario(**self.family[v])
        m = models.CLASS[self.key](s)
        require(dict(s) == self.family[v], "%s changed the scenario it was given: %r", self.key, dict(s))
        self.check(v, m)
        self.slots.append([m, v, s, False])
        return m

    def check(self, v, m):
        got = models.snap(self.key, m)
        if self.want[v] is None:
            self.want[v] = ref(models.expected, self.key, self.family[v])
        models.agree(self.key, got, self.want[v], " after %s" % (self.log,))
        if self.first[v] is None:
            self.first[v] = got
        for k in got:
            alike("%s %s of the same scenario after %s" % (self.key, k, self.log), got[k], self.first[v][k])


def check_history(case, rec):
    w = World(case)
    around = surroundings()
    key, n = w.key, len(w.family)
    okey, oscen = case["other"]
    rec.tag(key, "%d variants" % n)
    for op, i, j in case["ops"]:
        v = i % n
        slot = w.slots[j % len(w.slots)] if w.slots else None
        if op == "build" or slot is None:
            w.build(v)
        elif op == "read":
            if not slot[3]:
                w.check(slot[1], slot[0])
        elif op == "scribble":
            for name, a in [] if slot[3] else list(arrays(slot[0])):
                if a.flags.writeable and (i % 2 == 0 or name in ("ln_stds", "freqs", "periods")):
                    a[...] = a[::-1].copy() * 2.0 + 1.0
            slot[3] = True
        elif op == "edit":
            names = sorted(set(slot[2]))
            slot[2][names[i % len(names)]] = w.family[(slot[1] + 1) % n].get(names[i % len(names)], 1.0)
            if not slot[3]:
                w.check(slot[1], slot[0])
        elif op == "edit_model":
            # the scenario of a model is not the one of the caller
            p = PARAMS[key][i % len(PARAMS[key])][0]
            before = dict(slot[2])
            slot[0].scenario[p] = None
            require(dict(slot[2]) == before, "%s shares its scenario with the caller", key)
            slot[3] = True
        elif op == "fail":
            s = dict(w.family[v])
            del s[[p[0] for p in PARAMS[key] if p[1]][j % sum(p[1] for p in PARAMS[key])]]
            try:
                models.CLASS[key](Scenario(**s))
                require(False, "%s was built without a required parameter", key)
            except ValueError:
                pass
        elif op == "copy":
            if not slot[3]:
                c = (copy.copy, copy.deepcopy, lambda m: pickle.loads(pickle.dumps(m)))[i % 3](slot[0])
                w.check(slot[1], c)
        elif op == "other":
            models.agree(okey, models.snap(okey, models.build(okey, oscen)), ref(models.expected, okey, oscen), " after %s" % (w.log,))
        elif op == "odd":
            # outside of the limits: whatever comes out stays there
            s = dict(w.family[v])
            for p in PARAMS[key]:
                if p[4] is not None and p[0] in s:
                    s[p[0]] = p[4] * 1.1
            try:
                models.snap(key, models.CLASS[key](Scenario(**s)))
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                pass
        else:
            raise HarnessError(op)
        w.log.append(op)
    for m, v, s, spoiled in w.slots:
        if not spoiled:
            w.check(v, m)
    w.log.append("end")
    for v in range(n):
        w.build(v)
    after = surroundings()
    for k in around:
        require(after[k] == around[k], "the models changed the %s of the process to %r", k, after[k])
    rec.nontrivial(len(w.slots) >= n + 2 and n > 1)
    rec.tag(*(op for op, _, _ in case["ops"]))


@st.composite
def long_case(draw):
    key = draw(st.sampled_from(models.ALL))
    fam = draw(gen.family(key, 4)) + [draw(gen.GEN[key]())]
    return dict(model=key, family=fam, n=20 + draw(gen.bits(130)), seed=draw(gen.bits(1 << 16)))


def check_long(case, rec):
    """Many models of mixed scenarios; all of them, and what they handed out, last."""
    key, fam = case["model"], case["family"]
    rng = random.Random(case["seed"])
    rec.tag(key, "more than 64" if case["n"] > 64 else "up to 64")
    rec.nontrivial()
    made, held, first = [], [], {}
    for i in range(case["n"]):
        if made and rng.random() < 0.15:
            s = rng.choice(made)[0]
        else:
            a, b = rng.choice(fam), rng.choice(fam)
            swap = rng.sample(sorted(a), rng.choice((0, 1, 1, 2, len(a))))
            s = gen.clean(gen.repair(key, dict(a, **{k: b[k] for k in swap})))
        m = models.build(key, s)
        snap = models.snap(key, m)
        tag = repr(sorted(s.items()))
        if tag in first:
            for k in snap:
                alike("%s %s of the same scenario again, as model %d" % (key, k, i), snap[k], first[tag][k])
        else:
            first[tag] = snap
            models.agree(key, snap, ref(models.expected, key, s), " of model %d" % i)
        made.append((s, m, tag))
        held.append([(name, a, a.copy()) for name, a in arrays(m)])
    for i, (s, m, tag) in enumerate(made):
        for name, a, was in held[i]:
            identical("%s handed out by model %d of %d" % (name, i, len(made)), a, was)
        if i % 3 == case["seed"] % 3 or i < 8:
            again = models.snap(key, m)
            for k in again:
                alike("%s %s of model %d of %d, read last" % (key, k, i, len(made)), again[k], first[tag][k])


@st.composite
def thread_case(draw):
    keys = draw(st.lists(st.sampled_from(models.ALL), min_size=1, max_size=2, unique=True))
    fams = [[k, gen.clean(s)] for k in keys for s in draw(gen.family(k, 4))]
    n = draw(st.integers(2, 4))
    plan = [draw(st.lists(gen.bits(len(fams)), min_size=2, max_size=6)) for _ in range(n)]
    return dict(scenarios=fams, plan=plan)


def check_threads(case, rec):
    fams, plan = case["scenarios"], case["plan"]
    want = [ref(models.expected, k, s) for k, s in fams]
    base = [models.snap(k, models.build(k, s)) for k, s in fams]
    rec.tag("%d threads" % len(plan), *(k for k, _ in fams))
    rec.nontrivial(len({i for p in plan for i in p}) > 1)
    got, errors = [], []
    barrier = threading.Barrier(len(plan))

    def run(todo):
        try:
            barrier.wait()
            for i in todo:
                k, s = fams[i]
                got.append((i, models.snap(k, models.build(k, s))))
        except BaseException as e:
            errors.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(p,)) for p in plan]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    require(not errors, "a thread failed: %r", errors[:1], key="exception:" + type(errors[0]).__name__ if errors else None)
    for i, snap in got:
        k = fams[i][0]
        models.agree(k, snap, want[i], " in a thread")
        for name in snap:
            alike("%s %s in a thread" % (k, name), snap[name], base[i][name])


@st.composite
def args_case(draw):
    return dict(
        s=gen.clean(draw(gen.GEN["aga16"]())),
        adjust=draw(st.lists(gen.num(-0.6, 0.6, (0, 0.2)), min_size=23, max_size=23)),
        bssa=gen.clean(draw(gen.GEN["bssa14"]())),
        periods=draw(st.lists(gen.num(0.011, 9.9, (0.1, 1), log=True), min_size=1, max_size=6)),
        nias=draw(st.lists(gen.num(0.0, 1.0, (0.1, 0.5, 0.95)), min_size=1, max_size=4)),
        as96=gen.clean(draw(gen.GEN["as96"]())),
        ga11=gen.clean(draw(gen.GEN["ga11"]())),
    )


def check_args(case, rec):
    """Arrays passed to the models stay as they were."""
    rec.nontrivial(len(case["periods"]) > 1)
    adj, per, nias = np.array(case["adjust"]), np.array(case["periods"]), np.array(case["nias"])
    m = models.build("aga16", case["s"], adjust_c1=adj)
    a = models.snap("aga16", m)
    identical("adjust_c1", adj, case["adjust"])
    adj[:] = 9.0
    identical("adjust_c1 that the model reports", m.adjust_c1, case["adjust"])
    b = models.snap("aga16", m)
    for k in a:
        alike("%s after adjust_c1 was changed by its owner" % k, b[k], a[k])
    b = models.snap("aga16", models.build("aga16", case["s"], adjust_c1=case["adjust"]))
    for k in a:
        same("%s with adjust_c1 as a list" % k, b[k], a[k], 1e-12, 0)
    m = models.build("bssa14", case["bssa"])
    for fn in (m.interp_spec_accels, m.interp_ln_spec_accels, m.interp_ln_stds):
        x = fn(per)
        identical("periods", per, case["periods"])
        y = x.copy()
        x[...] = 0.0
        alike("interpolated twice", fn(per), y)
    m = models.build("as96", case["as96"])
    x = m.interp(nias, stds=[0, 1])
    identical("intensities", nias, case["nias"])
    alike("interpolated twice", m.interp(nias, stds=[0, 1]), x)
    m = models.build("ga11", case["ga11"])
    x = m.interp_ratio(per)
    identical("periods", per, case["periods"])
    alike("interpolated twice", m.interp_ratio(per), x)


CALLS = ("correls", "spectrum", "vector", "ba_corr", "ba_cov", "ba_std", "pjs_cov", "pjs_cor", "pjs_std", "interp", "as96", "pr24")
GRID = [0.1, 0.3, 1.0, 3.0, 9.0]


@st.composite
def calls_case(draw):
    """Calls that share some of their arguments, by arrays that the caller fills anew."""
    n = draw(st.integers(1, 5))
    draw_list = lambda v: draw(st.lists(v, min_size=n, max_size=n))  # noqa: E731
    base = draw(st.lists(gen.num(0.95, 1.05, (1.0,)), min_size=2, max_size=3))
    at = sorted(draw(st.permutations(range(5)))[:n])
    op = st.tuples(st.sampled_from(CALLS), *[gen.bits(12)] * 4, st.booleans()).map(list)
    case = dict(
        grids=[[GRID[i] * b for i in at] for b in base],
        means=[draw_list(gen.num(-6, 1, (0, -1))) for _ in range(2)],
        stds=[draw_list(gen.num(0.2, 1.2, (0.5, 1))) for _ in range(2)],
        nias=[draw_list(gen.num(0.05, 1.0, (0.1, 0.5, 0.95))) for _ in range(2)],
        mags=draw(st.lists(gen.num(4, 8, (6,)), min_size=2, max_size=2)),
        conds=draw(st.lists(gen.num(0.15, 8, (1, 2)), min_size=2, max_size=2)),
        spectral=draw(gen.family("c03", 2).map(lambda v: [gen.clean(s) for s in v])),
        as96=draw(gen.family("as96", 2).map(lambda v: [gen.clean(s) for s in v])),
        rup=[draw_list(gen.num(20, 200, (50,))) for _ in range(2)],
        v_s30=[draw_list(gen.num(150, 1000, (300,))) for _ in range(2)],
        ops=draw(st.lists(op, min_size=3, max_size=14)),
    )
    for k in ("grids", "means", "stds", "nias", "mags", "conds", "rup", "v_s30"):
        if draw(gen.bits(4)) == 0:
            # hardly another one
            v, f = case[k], 1 + draw(gen.pick(1e-3, 1e-4, -1e-4, 1e-5, 2e-6))
            v[1] = v[0] * f if isinstance(v[0], float) else [x * f for x in v[0]]
    return case


def check_calls(case, rec):
    """Functions of arrays depend on the values of these, and leave them alone."""
    buffers, log = {}, []
    n = len(case["grids"][0])
    built = {(k, i): models.build(k, s) for k, name in (("c03", "spectral"), ("as96", "as96")) for i, s in enumerate(case[name])}
    for op, i, j, k, l, reuse in case["ops"]:
        used = []

        def array(name, i, used=used, reuse=reuse):
            v = case[name][i % len(case[name])]
            a = buffers.setdefault(name, np.zeros(n)) if reuse else np.array(v)
            a[:] = v
            used.append((name, a, v))
            return a

        x = case["grids"][i % len(case["grids"])]
        mu, sd = case["means"][j % 2], case["stds"][k % 2]
        c, mag = case["conds"][l % 2], case["mags"][l % 2]
        tol = 1e-8
        if op == "correls":
            got, want = calc_correls(array("grids", i), c), ref(lambda: [corr.bj08(t, c) for t in x])
        elif op == "spectrum":
            if not x[0] <= c <= x[-1]:
                c = x[0]
            got = calc_cond_mean_spectrum(array("grids", i), array("means", j), array("stds", k), c, mu[0])
            want = ref(corr.cms, x, mu, sd, c, mu[0])[:2]
            got, want, tol = (got[0], np.square(got[1])), (want[0], np.square(want[1])), 1e-7
        elif op == "vector":
            free = [q != l % n for q in range(n)]
            at = np.ma.masked_array([0.5] * n, mask=free)
            got = calc_cond_mean_spectrum_vector(array("grids", i), array("means", j), array("stds", k), at)
            want = ref(corr.cmsv, x, mu, sd, [None if f else 0.5 for f in free])[:2]
            got, want, tol = (got[0], np.square(got[1])), want[:2], 1e-6
        elif op == "ba_corr":
            got, want = BA18.corr(array("grids", i)), ref(lambda: [[corr.ba18(a, b) for b in x] for a in x])
        elif op in ("ba_cov", "ba_std"):
            want = np.array(ref(lambda: [[corr.ba18(a, b) for b in x] for a in x]))
            if op == "ba_cov":
                got, s = BA18.cov(array("grids", i), std=array("stds", k)), sd
            else:
                part = sorted(corr.BA_STDS)[j % 4]
                got, s = BA18.cov(array("grids", i), component=part), ref(lambda: [corr.ba18_std(t, part) for t in x])
            want = want * np.outer(s, s)
        elif op in ("pjs_cov", "pjs_cor"):
            own = list(np.array(ref(lambda: [corr.pjs17_std(t) for t in x])).T)
            kw = {}
            if j % 4 < 3:
                kw["sigma_" + "ESA"[j % 4]] = array("stds", k)
                own[j % 4] = sd
            want = ref(corr.pjs17_cov, x, mag, own)
            if op == "pjs_cor":
                want = want / np.sqrt(np.outer(np.diag(want), np.diag(want)))
            got = (PJS.cov if op == "pjs_cov" else PJS.cor)(array("grids", i), mag=mag, **kw)
        elif op == "pjs_std":
            got, want = PJS.compute_variances(array("grids", i)), np.array(ref(lambda: [corr.pjs17_std(t) for t in x])).T
        elif op == "interp":
            m, s = built["c03", l % 2], case["spectral"][l % 2]
            w = ref(models.expected, "c03", s)
            p = m.periods
            got = (m.interp_ln_spec_accels(array("grids", i)), m.interp_ln_stds(array("grids", i)))
            keep = [p[0] <= t <= p[-1] for t in x]
            got = [np.asarray(g)[keep] for g in got]
            want = [np.interp(np.log(np.array(x)[keep]), np.log(p), v) for v in (np.log(w["spec_accels"][0]), w["ln_stds"][0])]
        elif op == "as96":
            m, s = built["as96", l % 2], case["as96"][l % 2]
            v, z = case["nias"][k % 2], [0.0, 1.0] if j % 2 else None
            inside = lambda t: 0.1 <= t <= 0.95  # noqa: E731
            got = m.interp(array("nias", k)) if z is None else m.interp(array("nias", k), stds=z)
            want = ref(lambda: [[dur.as96(s, t, q) if inside(t) else np.nan for t in v] for q in z or [0.0]])
            want = want[0] if z is None else want
        elif op == "pr24":
            e, kind, region = (0.45, 0.75, 0.95)[j % 3], ("interface", "slab")[k % 2], ("Japan", "South America")[l % 2]
            got = duration_model(mag, array("rup", i), array("v_s30", j), region, kind, e)
            want = ref(lambda: [dur.pr24(dict(mag=mag, dist_rup=a, v_s30=b, event_type=kind, region=region), e) for a, b in zip(case["rup"][i % 2], case["v_s30"][j % 2])])
            got, want, tol = np.array(got)[0], [w[0] for w in want], 1e-7
        else:
            raise HarnessError(op)
        log.append(op)
        same("%s after %s" % (op, log[:-1]), got, want, tol, tol)
        for name, a, v in used:
            identical("%s given to %s" % (name, op), a, v)
        for g in got if isinstance(got, tuple) else (got,):
            if isinstance(g, np.ndarray) and g.flags.writeable:
                g[...] = -1.0
        for name, a, v in used:
            identical("%s given to %s, after its result was changed," % (name, op), a, v)
    rec.tag(*log)
    rec.nontrivial(len(set(log)) < len(log))


MODULES = ("model", "types", "tools", "baker_jayaram_2008", "kishida_2017", "pinilla_ramos_et_al_2023", "pinilla_ramos_et_al_2024", "hermkes_kuehn_riggelsen_2014", "chiou_youngs_2014", "stafford_2017")
AROUND = {
    "chdir": st.just(True),
    "errors": st.sampled_from(["ignore", "warn", "print"]),
    "filter": st.sampled_from(["ignore", "always", "once", "default"]),
    "gc": st.booleans(),
    "log": st.sampled_from([1, 10, 30, 50]),
    "print": st.sampled_from([1, 3, 17]),
    "seed": gen.bits(1000),
}


@st.composite
def step(draw):
    kind = draw(st.sampled_from(("model",) * 8 + ("call", "call", "missing", "unknown", "copy", "threshold", "measure", "disorder") + tuple(sorted(AROUND)) + ("fork",)))
    if kind in AROUND:
        return [kind, draw(AROUND[kind])]
    if kind == "fork":
        key = draw(st.sampled_from(models.ALL))
        return [kind, ["model", key, gen.clean(draw(gen.GEN[key]()))]]
    if kind == "model":
        key = draw(st.sampled_from(models.ALL))
        return [kind, key, gen.clean(draw(gen.GEN[key]()))]
    x = draw(gen.rising(0.02, 9.0, most=6, least=2))
    n = len(x)
    values = lambda a, b: draw(st.lists(gen.num(a, b), min_size=n, max_size=n))  # noqa: E731
    if kind in ("call", "disorder"):
        which = "vector" if kind == "disorder" else draw(st.sampled_from(("correls", "vector", "ba18", "pjs17")))
        if which == "correls":
            return [kind, which, x, draw(gen.num(0.02, 9.0, (1,), log=True))]
        if which == "ba18":
            return [kind, which, x]
        if which == "pjs17":
            return [kind, which, x, draw(gen.num(4, 8, (6,)))]
        at = [v if draw(st.booleans()) else None for v in values(-3, 0)]
        at[draw(gen.bits(n))] = -1.0
        args = [x, values(-4, 0), values(0.3, 0.9), at]
        if kind == "disorder":
            return [kind, x[::-1], *args[1:]]
        return [kind, which, *args]
    if kind == "missing":
        key = draw(st.sampled_from(models.ALL))
        s = gen.clean(draw(gen.GEN[key]()))
        del s[draw(st.sampled_from([p[0] for p in PARAMS[key] if p[1]]))]
        return [kind, key, s]
    if kind == "threshold":
        key = draw(st.sampled_from(("pr23", "pr24")))
        return [kind, key, gen.clean(draw(gen.GEN[key]())), draw(st.sampled_from((0.0, 0.02, 0.99, 1.0, -0.5)))]
    if kind == "measure":
        key, name = draw(st.sampled_from((("c03", "pga"), ("i14", "pgv"), ("tp05", "pgv"), ("bssa14", "pgd"), ("c03", "ln_std_pgv"))))
        return [kind, key, gen.clean(draw(gen.GEN[key]())), name]
    return [kind, draw(st.sampled_from(("magnitude", "M", "vs30", "depth", "dist", "data_")))]


@st.composite
def elsewhere_case(draw):
    return dict(
        optimise=draw(st.sampled_from(("", "-O", "-OO"))),
        hash=draw(gen.bits(1 << 16)),
        locale=draw(st.sampled_from(("", "C", "POSIX"))),
        home=draw(st.booleans()),
        imports=["pygmm." + m for m in draw(st.permutations(MODULES))[: draw(gen.bits(len(MODULES) + 1))]],
        steps=draw(st.lists(step(), min_size=6, max_size=16)),
    )


def check_elsewhere(case, rec):
    """The same results, and the same rejections, in processes of every kind."""
    with tempfile.TemporaryDirectory(prefix="vp-c13-") as folder:
        steps = [["chdir", os.path.join(folder, "other")] if s[0] == "chdir" else s for s in case["steps"]]
        os.mkdir(os.path.join(folder, "other"))
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG")) and (case["home"] or k != "HOME")}
        env.update(PYTHONHASHSEED=str(case["hash"]))
        if case["locale"]:
            env.update(LC_ALL=case["locale"], PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
        cmd = [sys.executable] + [f for f in [case["optimise"]] if f] + [os.path.join(ROOT, "vp", "elsewhere.py"), ROOT, boot.SRC]
        p = subprocess.run(cmd, input=json.dumps(dict(imports=case["imports"], steps=steps)).encode(), capture_output=True, cwd=folder, env=env)
    # the models are all right here: what fails there is theirs
    rec.tag(case["optimise"] or "plain", case["locale"] or "UTF-8", *(s[0] for s in steps))
    rec.nontrivial(any(s[0] in ("model", "call", "fork") for s in steps))
    lines = p.stderr.decode(errors="replace").strip().splitlines()
    require(p.returncode == 0, "a process of its own ended with %s: %s", p.returncode, lines[-1:])
    for s, got in zip(steps, json.loads(p.stdout)):
        if s[0] in ("model", "fork"):
            key, scen = s[1:] if s[0] == "model" else s[1][1:]
            require(isinstance(got, dict), "%s in a forked process: %r", key, got)
            got = {k: np.array(v, dtype=float) for k, v in got.items()}
            models.agree(key, got, ref(models.expected, key, scen), " in another process")
            here = models.snap(key, models.build(key, scen))
            for k in here:
                alike("%s %s in another process" % (key, k), got[k], here[k])
        elif s[0] == "call":
            which, *a = s[1:]
            if which == "correls":
                want = ref(lambda: [corr.bj08(t, a[1]) for t in a[0]])
            elif which == "vector":
                mu, cov = ref(corr.cmsv, *a)[:2]
                want = np.vstack([mu, cov])
            elif which == "ba18":
                std = ref(lambda: [corr.ba18_std(t, "sigma") for t in a[0]])
                want = np.array(ref(lambda: [[corr.ba18(f, g) for g in a[0]] for f in a[0]])) * np.outer(std, std)
            else:
                want = ref(corr.pjs17_cov, a[0], a[1], list(np.array(ref(lambda: [corr.pjs17_std(t) for t in a[0]])).T))
            same("%s in another process" % which, got, want, 1e-6, 1e-6)
        elif s[0] not in AROUND:
            require(got is not None, "%s is not rejected in another process (%s)", s[:1] + s[-1:], case["optimise"] or "plain")


PROPERTY = Property(
    "C13",
    [
        Law("history", history_case, check_history, 4000, "a history with at least two more models than the two or more scenario variants"),
        Law("long", long_case, check_long, 160, "every case: a history of 20 to 150 models"),
        Law("threads", thread_case, check_threads, 700, "at least two different scenarios evaluated concurrently"),
        Law("arguments", args_case, check_args, 1500, "more than one period"),
        Law("elsewhere", elsewhere_case, check_elsewhere, 60, "a result is compared with the reference and with the one of this process"),
        Law("calls", calls_case, check_calls, 1500, "a function called more than once"),
    ],
    "A distinct history of builds, reads, copies, failures and modifications by the caller (or a distinct schedule over threads), where every result was compared with the reference model and with the first result of the same scenario.",
    ["the interpreter decides the interleaving of threads; it is asked to switch every microsecond", "the scenario is not modified while a model is being built from it"],
)
