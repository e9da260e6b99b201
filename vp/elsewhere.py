"""A process of its own that builds models in the surroundings it is told.

Started by the law "elsewhere" of C13 as: python [flags] elsewhere.py ROOT SRC,
with the job on the standard input and the results on the standard output.
"""

import json
import os
import sys


def main():
    root, src = sys.argv[1:3]
    job = json.load(sys.stdin)
    out, sys.stdout = sys.stdout, sys.stderr
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(root, ".no-such-folder-for-pyc")
    sys.path[0] = root
    sys.path.insert(0, src)
    import importlib

    for name in job["imports"]:
        importlib.import_module(name)
    import pygmm

    there = os.path.realpath(os.path.join(src, "pygmm", "__init__.py"))
    if os.path.realpath(pygmm.__file__) != there:
        raise SystemExit("pygmm was imported from %s" % pygmm.__file__)
    import warnings

    import numpy as np

    warnings.simplefilter("ignore")
    from vp import models

    def rejected(fn):
        try:
            fn()
        except Exception as e:
            return type(e).__name__
        return None

    def call(name, *a):
        if name == "correls":
            from pygmm.baker_jayaram_2008 import calc_correls

            return calc_correls(*a)
        if name == "vector":
            from pygmm.kishida_2017 import calc_cond_mean_spectrum_vector

            x, mu, sd, at = a
            at = np.ma.masked_array([v or 0.0 for v in at], mask=[v is None for v in at])
            mean, std = calc_cond_mean_spectrum_vector(np.array(x), np.array(mu), np.array(sd), at)[:2]
            return np.vstack([mean, np.square(std)])
        if name == "ba18":
            return pygmm.BaylessAbrahamson2018.cov(np.array(a[0]), component="sigma")
        if name == "pjs17":
            return pygmm.Stafford2017.cov(np.array(a[0]), mag=a[1])
        raise SystemExit("no call " + name)

    def take(step):
        kind, *a = step
        if kind == "model":
            m = models.build(*a)
            return {k: v.tolist() for k, v in models.snap(a[0], m).items()}
        if kind == "call":
            return np.asarray(call(*a), dtype=float).tolist()
        if kind == "missing":
            return rejected(lambda: models.build(*a))
        if kind == "unknown":
            return rejected(lambda: pygmm.Scenario(mag=6, **{a[0]: 1.0}))
        if kind == "copy":
            return rejected(lambda: pygmm.Scenario(mag=6).copy_with(**{a[0]: 1.0}))
        if kind == "threshold":
            return rejected(lambda: models.build(*a[:2]).duration_for_energy(a[2]))
        if kind == "measure":
            return rejected(lambda: getattr(models.build(*a[:2]), a[2]))
        if kind == "disorder":
            return rejected(lambda: call("vector", *a))
        if kind == "chdir":
            os.chdir(a[0])
        elif kind == "errors":
            np.seterr(all=a[0])
        elif kind == "filter":
            warnings.simplefilter(a[0])
        elif kind == "gc":
            import gc

            gc.collect()
            gc.disable() if a[0] else gc.enable()
        elif kind == "log":
            import logging

            logging.basicConfig(level=a[0], force=True, stream=open(os.devnull, "w"))
        elif kind == "print":
            np.set_printoptions(precision=a[0], suppress=True, threshold=2)
        elif kind == "seed":
            np.random.seed(a[0])
        else:
            raise SystemExit("no step " + kind)
        return None

    results = [None if s[0] == "fork" else take(s) for s in job["steps"]]
    for i, s in enumerate(job["steps"]):
        if s[0] == "fork":
            # built by a child of this process
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    data = json.dumps(take(s[1])).encode()
                    with os.fdopen(w, "wb") as fp:
                        fp.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as fp:
                data = fp.read()
            os.waitpid(pid, 0)
            results[i] = json.loads(data) if data else "died"
    json.dump(results, out)
    out.flush()


if __name__ == "__main__":
    main()
