"""Frozen copies of the published coefficient tables and a loader of its own.

The tables under ref/data were taken from the published electronic supplements
as shipped with the pinned commit; the reference models never read /repo.
"""

import csv
import json
import os

import numpy as np

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")


class Table:
    """Columns of a coefficient table, as plain float arrays."""

    def __init__(self, cols):
        self.cols = cols
        for k, v in cols.items():
            setattr(self, k, v)

    def __len__(self):
        return len(next(iter(self.cols.values())))

    def rows(self, sl):
        return Table({k: v[sl] for k, v in self.cols.items()})


def load(name, skip):
    with open(os.path.join(HERE, name), newline="", encoding="utf-8-sig") as fp:
        lines = fp.read().splitlines()[skip:]
    head = [h.strip().lstrip("#").strip() for h in lines[0].split(",")]
    data = [[float(x) if x.strip() else float("nan") for x in r] for r in csv.reader(lines[1:]) if r]
    arr = np.array(data, dtype=float)
    return Table({h: arr[:, i].copy() for i, h in enumerate(head)})


def load_json(name):
    with open(os.path.join(HERE, name)) as fp:
        return json.load(fp)
