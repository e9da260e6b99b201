"""C03: European and stable-continental models."""

from ..harness import Property
from .spectral import table_laws

PROPERTY = Property(
    "C03",
    table_laws(["asb14", "dbc14", "ab06", "c03", "pea11", "tp05"], ["median", "std"], 4000),
    "A distinct scenario whose medians and standard deviations were all compared with the reference.",
    ["the reference models and their frozen coefficient tables transcribe the publications"],
)
