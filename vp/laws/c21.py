"""C21: the model that looks up the nearest of its stored events.

The file with the stored predictions is distributed separately (a stub in the
repository), so the law copies the package to a scratch folder, with a
generated file in its place.
"""

import importlib
import os
import shutil
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import boot, gen
from ..harness import HarnessError, Law, Property, require, same

PKG = "pygmm_with_hkr_data"
FILE = "hermkes_kuehn_riggelsen_2014.npz"
STATE = {}
MECH = ["SS", "NS", "RS"]
PERIODS = [0.01, 0.1, 0.5, 1.0, 4.0]


def package(data):
    """The model from a copy of the package that has this data."""
    if STATE.get("pid") != os.getpid():
        # one folder for a process; its parent has its own
        root = tempfile.mkdtemp(prefix="vp-hkr-")
        STATE.clear()
        STATE.update(pid=os.getpid(), root=root)
        shutil.copytree(os.path.join(boot.SRC, "pygmm"), os.path.join(root, PKG), ignore=shutil.ignore_patterns("__pycache__"))
        sys.path.insert(0, root)
        for n in [n for n in sys.modules if n.split(".")[0] == PKG]:
            del sys.modules[n]
    np.savez(os.path.join(STATE["root"], PKG, "data", FILE), **data)
    name = PKG + ".hermkes_kuehn_riggelsen_2014"
    sys.modules.pop(name, None)
    pkg = importlib.import_module(PKG)
    if os.path.dirname(os.path.dirname(os.path.realpath(pkg.__file__))) != os.path.realpath(STATE["root"]):
        raise HarnessError("imported from %s" % pkg.__file__)
    return importlib.import_module(name).HermkesKuehnRiggelsen2014, pkg.Scenario


def forget():
    if STATE.get("pid") == os.getpid() and STATE.get("root"):
        shutil.rmtree(STATE["root"], ignore_errors=True)
        if STATE["root"] in sys.path:
            sys.path.remove(STATE["root"])
        STATE.clear()


@st.composite
def table(draw):
    n = draw(st.integers(2, 12))
    kind = draw(gen.pick("spread", "spread", "near", "line"))
    along = draw(gen.bits(5))
    out = []
    for i in range(n):
        e = [
            draw(gen.num(4, 8, (5, 6, 7))),
            draw(gen.num(0, 40, (0, 5, 15), zero=True)),
            draw(st.sampled_from(MECH)),
            draw(gen.num(0, 200, (10, 50), zero=True)),
            draw(gen.num(100, 1200, (400, 760))),
        ]
        if kind != "spread" and i:
            # differs from the first one in one parameter (the same one in a line)
            j = draw(gen.bits(5)) if kind == "near" else along
            e = [e[k] if k == j else out[0][k] for k in range(5)]
        out.append(e)
    return out


@st.composite
def case_(draw):
    tables = draw(st.lists(table(), min_size=1, max_size=2))
    queries = []
    for _ in range(draw(st.integers(1, 5))):
        t = draw(gen.bits(len(tables)))
        base = draw(st.sampled_from(tables[t]))
        q = dict(
            mag=draw(gen.num(4, 8, (5, 6, 7))),
            depth_hyp=draw(gen.maybe(gen.num(0, 40, (0, 5, 15), zero=True), (1, 3))),
            mechanism=draw(st.sampled_from(MECH)),
            dist_jb=draw(gen.num(0, 200, (10, 50), zero=True)),
            v_s30=draw(gen.num(100, 1200, (400, 760))),
        )
        for k, v in zip(("mag", "depth_hyp", "mechanism", "dist_jb", "v_s30"), base):
            if draw(gen.bits(4)):
                q[k] = v
        queries.append(q)
    seed = draw(gen.bits(1 << 16))
    return dict(tables=tables, queries=queries, seed=seed)


def row(e):
    m, z, mech, d, v = e
    return [m, z, float(mech == "RS"), float(mech == "SS"), float(mech == "NS"), d, v]


def check(case, rec):
    try:
        rng = np.random.default_rng(case["seed"])
        for t, events in enumerate(case["tables"]):
            ev = np.array([row(e) for e in events])
            pred = np.empty((len(ev), 12))
            pred[:, 0::2] = rng.uniform(-8, 2, (len(ev), 6))
            pred[:, 1::2] = rng.uniform(0.05, 2, (len(ev), 6))
            cls, Scenario = package(dict(events=ev, predictions=pred))
            for q in case["queries"]:
                s = {k: v for k, v in q.items() if v is not None}
                at = np.array(row([s["mag"], s.get("depth_hyp", 15.0), s["mechanism"], s["dist_jb"], s["v_s30"]]))
                d = np.sqrt(((ev - at) ** 2).sum(axis=1))
                m = cls(Scenario(**s))
                near = np.flatnonzero(d <= d.min() + 1e-9)
                got = np.concatenate([[np.log(m.pgv)], np.log(m.spec_accels)])
                i = near[np.argmin(np.abs(pred[near][:, 0::2] - got).max(axis=1))]
                rec.tag("ties" if len(near) > 1 else "exact" if d.min() == 0 else "nearest", "depth_hyp " + ("given" if "depth_hyp" in s else "omitted"))
                rec.nontrivial(len(near) == 1 and len(ev) > 2)
                what = "event %r of table %d for %r: " % (events[i], t, s)
                same(what + "PGV", np.log(m.pgv), pred[i, 0], 1e-9)
                same(what + "spectral accelerations", np.log(m.spec_accels), pred[i, 2::2], 1e-9)
                same(what + "PGA", np.log(m.pga), pred[i, 2], 1e-9)
                same(what + "standard deviations", m.ln_stds, np.sqrt(pred[i, 3::2]), 1e-9)
                same(what + "standard deviation of PGA", m.ln_std_pga, np.sqrt(pred[i, 3]), 1e-9)
                same(what + "standard deviation of PGV", m.ln_std_pgv, np.sqrt(pred[i, 1]), 1e-9)
                same("periods", m.periods, PERIODS)
                same(what + "interpolation at its periods", m.interp_spec_accels(PERIODS), np.exp(pred[i, 2::2]), 1e-9)
                require(dict(m.scenario)["depth_hyp"] == s.get("depth_hyp", 15), "depth_hyp in use is %r", m.scenario["depth_hyp"])
    finally:
        forget()


PROPERTY = Property(
    "C21",
    [Law("nearest", case_, check, 800, "at least one scenario with a single nearest event among three or more")],
    "A distinct table of stored events and list of scenarios, compared with a linear search of the table.",
    ["the data file of the model is not in the repository; tables are generated in its documented layout (events and predictions, the layout that its loader reads)"],
)
