"""Forms in which a list of numbers may be handed to a function of arrays."""

import random

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..harness import require, same

FLAT = ("list", "tuple", "array", "strided", "reversed", "read only")
FORMS = FLAT + ("scalar", "0-d", "rows", "nested", "fortran", "cube", "column", "transposed")


def wrap(values, form):
    """The argument, and the values in it in the order of a raveled result."""
    x = np.array(values, dtype=float)
    if form in ("scalar", "0-d"):
        x = x[:1]
        return (float(x[0]) if form == "scalar" else np.array(x[0])), x
    if form == "list":
        return list(values), x
    if form == "tuple":
        return tuple(values), x
    if form == "strided":
        big = np.full(2 * len(x), -1.0)
        big[::2] = x
        return big[::2], x
    if form == "reversed":
        return x[::-1].copy()[::-1], x
    if form == "read only":
        y = x.copy()
        y.flags.writeable = False
        return y, x
    if form == "column":
        return x[:, None].copy(), x
    if form == "cube":
        x = x[: len(x) // 4 * 4]
        return x.reshape(-1, 2, 2).copy(), x
    if form in ("rows", "nested", "fortran", "transposed"):
        x = x[: len(x) // 2 * 2]
        y = x.reshape(-1, 2)
        if form == "nested":
            return y.tolist(), x
        if form == "fortran":
            return np.asfortranarray(y), x
        if form == "transposed":
            return y.T, y.T.ravel().copy()
        return y.copy(), x
    return x.copy(), x


def huge(lo=1000, hi=20000):
    """Sizes of arrays that a function may want to cut in blocks, with a seed."""
    blocks = (1, 1, 1, 1000, 500, 1024, 256, 512)

    def size(t):
        block = t[2]
        n = int(t[0])
        if n >= block > 1:
            n = n // block * block + (0, 0, 1, -1)[t[1] % 4]
        return dict(n=max(lo, min(hi, n)), seed=t[1])

    return st.tuples(gen.num(lo, hi, (lo, hi, 1024, 4096, 10000), log=True), gen.bits(1 << 16), st.sampled_from(blocks)).map(size)


def whole(what, fn, arrays, seed, axis=-1):
    """A function of long arrays gives what it gives for their pieces."""
    rng = random.Random(seed)
    n = len(arrays[0])
    results = fn(*arrays)
    results = results if isinstance(results, tuple) else (results,)
    i = 0
    while i < n:
        j = min(n, i + rng.choice((1, 50, 200, 500, 500)))
        pieces = fn(*[a[i:j] for a in arrays])
        pieces = pieces if isinstance(pieces, tuple) else (pieces,)
        require(len(pieces) == len(results), "%s gives %d results for %d elements and %d for %d", what, len(results), n, len(pieces), j - i)
        for r, p in zip(results, pieces):
            require(np.shape(r)[axis] == n, "%s has the shape %s for %d elements", what, np.shape(r), n)
            same("%s %d to %d of %d" % (what, i, j, n), np.take(r, range(i, j), axis), p, 1e-11, 1e-12)
        i = j
