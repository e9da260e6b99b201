"""Laws shared by the properties about ground-motion models of spectra."""

from functools import partial

import numpy as np

from .. import gen, models
from ..harness import Law, ref, require, same


def _table_check(key, what, tol):
    rows = models.ROWS[key]

    def check(s, rec):
        m = models.build(key, s)
        want = ref(models.REF[key], s)
        rec.tag(*gen.tags(s))
        rec.nontrivial()
        same("%s periods" % key, m.periods, models.PERIODS[key][rows["psa"]], tol)
        for im, idx in rows.items():
            med, std = models.IMS[im]
            if "median" in what:
                # far away the response underflows
                low = np.asarray(want["ln"][idx]) < -650
                got = np.asarray(getattr(m, med))
                require(got.shape == low.shape and np.all(got[low] < 1e-280), "%s %s is not tiny", key, med)
                same("%s %s" % (key, med), np.log(got[~low]), np.asarray(want["ln"][idx])[~low], tol, tol)
            if "std" in what:
                got = getattr(m, std)
                same("%s %s" % (key, std), got, want["std"][idx], tol, tol)
                require(np.all(np.asarray(got) > 0), "%s %s is not positive", key, std)
        if "std" in what and "tau" in want:
            # the parts are kept by the models since version 0.6.6, without an accessor
            for part in ("tau", "phi"):
                got = getattr(m, "_" + part, None)
                if got is not None and np.shape(got) == np.shape(want[part]):
                    rec.tag(part)
                    same("%s %s" % (key, part), got, want[part], tol, tol)

    return check


def table_laws(keys, what, n, tol=1e-8):
    return [
        Law(
            "%s_%s" % (key, "_".join(what)),
            partial(gen.far, key),
            _table_check(key, what, tol),
            n[key] if isinstance(n, dict) else n,
            "a scenario accepted by the model and compared with the reference at every period and intensity measure",
        )
        for key in keys
    ]
