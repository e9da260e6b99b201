"""C06: Fourier amplitude spectra."""

import numpy as np

from .. import gen, models
from ..harness import Law, Property, ref, same
from ..ref import other


def check(s, rec):
    m = models.build("ba19", s)
    want = ref(other.ba19, s)
    rec.tag(*gen.tags(s))
    rec.nontrivial()
    same("freqs", m.freqs, other.BA.freq_hz)
    same("ln_eas", m.ln_eas, want["ln"], 1e-8, 1e-8)
    same("eas", np.log(m.eas), want["ln"], 1e-8, 1e-8)
    same("ln_std", m.ln_std, want["std"], 1e-8, 1e-8)
    if "depth_1_0" in want["used"]:
        same("depth_1_0 in the scenario", m.scenario["depth_1_0"], want["used"]["depth_1_0"])


PROPERTY = Property(
    "C06",
    [Law("eas", lambda: gen.far("ba19"), check, 24000, "an accepted scenario compared at all 301 frequencies")],
    "A distinct scenario whose amplitude spectrum and standard deviation were compared with the reference at every frequency.",
    ["the reference model and its frozen coefficient table transcribe the publication"],
)
