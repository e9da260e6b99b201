"""Numbers that occur in the code under test, as a dictionary for the generators.

A value at, or next to, a number that the code mentions is more likely to fall
on another side of one of its branches than any other.  The dictionary only
guides what is drawn; what counts is decided by the oracles.  Numbers that the
code did not mention when the reference was frozen (ref/literals.json) are drawn
more often.
"""

import ast
import functools
import glob
import json
import os

from . import boot

FOLDER = os.path.join(boot.SRC, "pygmm")
FROZEN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ref", "literals.json")
SKIP = ("_version",)

# modules of the models, by key
FILES = dict(
    ask14="abrahamson_silva_kamai_2014", bssa14="boore_stewart_seyhan_atkinson_2014", cb14="campbell_bozorgnia_2014", cy14="chiou_youngs_2014",
    i14="idriss_2014", asb14="akkar_sandikkaya_bommer_2014", dbc14="derras_bard_cotton_2014", ab06="atkinson_boore_2006", c03="campbell_2003",
    pea11="pezeshk_zandieh_tavakoli_2011", tp05="tavakoli_pezeshk_2005", aga16="abrahamson_gregor_addo_2016", pnnl14="coppersmith_bommer_2014",
    ga11="gulerce_abrahamson_2011", ba19="bayless_abrahamson_2019", as96="abrahamson_silva_1996", ks06="kempton_stewart_2006", as16="afshari_stewart_2016",
    pr23="pinilla_ramos_et_al_2023", pr24="pinilla_ramos_et_al_2024",
)  # fmt: skip


def numbers(path):
    """Numbers a file mentions, with their opposites where these are written."""
    out = set()
    try:
        with open(path, encoding="utf-8") as fp:
            tree = ast.parse(fp.read())
    except (OSError, SyntaxError, ValueError):
        return out
    for n in ast.walk(tree):
        sign = 1.0
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            n, sign = n.operand, -1.0
        if isinstance(n, ast.Constant) and type(n.value) in (int, float) and abs(n.value) < 1e6:
            out.add(sign * float(n.value))
    return out


@functools.lru_cache(None)
def current():
    files = sorted(glob.glob(os.path.join(FOLDER, "**", "*.py"), recursive=True))
    named = {os.path.splitext(os.path.basename(f))[0]: f for f in files}
    return {k: numbers(f) for k, f in named.items() if k not in SKIP}


@functools.lru_cache(None)
def frozen():
    with open(FROZEN) as fp:
        return {k: set(v) for k, v in json.load(fp).items()}


@functools.lru_cache(None)
def pool(key):
    """(all numbers, new numbers) that matter to a model, or to all of them."""
    now, old = current(), frozen()
    own = FILES.get(key)
    # files that were not there before may belong to any model
    files = [k for k in now if own is None or k in (own, "model") or k not in old]
    every, new = set(), set()
    for k in files:
        every |= now[k]
        new |= now[k] - old.get(k, set())
    return tuple(sorted(every)), tuple(sorted(new))


def freeze():
    with open(FROZEN, "w") as fp:
        json.dump({k: sorted(v) for k, v in current().items()}, fp, sort_keys=True)
        fp.write("\n")


if __name__ == "__main__":
    freeze()
