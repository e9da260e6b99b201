"""C02: aleatory variability of the NGA-West2 models."""

from ..harness import Property
from .spectral import table_laws

PROPERTY = Property(
    "C02",
    table_laws(["ask14", "bssa14", "cb14", "cy14", "i14"], ["std"], dict(ask14=5200, bssa14=4400, cb14=5200, cy14=4800, i14=2000)),
    "A distinct scenario whose standard deviations were all compared with the reference.",
    ["the reference models and their frozen coefficient tables transcribe the publications"],
)
