"""P28: asymmetric errors are converted to widths with the right percentiles."""

import math

import numpy as np
from hypothesis import strategies as st

from aptv import kit
from aptv.harness import require

RULE = "the two errors differ by more than one percent"

TAIL = 0.5 * math.erfc(1 / math.sqrt(2))  # one standard deviation of a normal


@st.composite
def cases(draw):
    scale = draw(st.floats(-6, 6))
    ratio = draw(st.one_of(st.floats(-1.0, 1.0), st.floats(-4.0, 4.0), st.sampled_from([0.0, 0.5, -0.3])))
    up = 10**scale
    return {"pos": float(f"{up:.12g}"), "neg": float(f"{up * 4**ratio:.12g}"), "factor": draw(st.sampled_from([0.1, 3.0, 50.0]))}


def conversion(case, rec):
    from appletree.utils import errors_to_two_half_norm_sigmas

    pos, neg = case["pos"], case["neg"]
    s = np.asarray(errors_to_two_half_norm_sigmas([pos, neg]), dtype=float)
    require(s.shape == (2,) and np.all(s > 0), "widths {}", s.tolist())
    # fraction of the distribution (mode at zero, each side weighted with its width) beyond the errors
    above = s[0] / s.sum() * math.erfc(pos / s[0] / math.sqrt(2))
    below = s[1] / s.sum() * math.erfc(neg / s[1] / math.sqrt(2))
    require(abs(above - TAIL) < 1e-5, "{} of the distribution is above {}", above, pos)
    require(abs(below - TAIL) < 1e-5, "{} of the distribution is below {}", below, -neg)
    swapped = np.asarray(errors_to_two_half_norm_sigmas([neg, pos]))
    require(kit.close(swapped[::-1], s, 1e-4), "swapping the errors gives {} and {}", s.tolist(), swapped.tolist())
    f = case["factor"]
    scaled = np.asarray(errors_to_two_half_norm_sigmas([pos * f, neg * f]))
    require(kit.close(scaled / f, s, 1e-4), "scaling the errors by {} gives {} and {}", f, s.tolist(), scaled.tolist())
    if pos == neg:
        require(kit.close(s, [pos, pos], 1e-6), "equal errors {} give {}", pos, s.tolist())
    rec.checked(4)
    rec.nontrivial(abs(pos / neg - 1) > 0.01)
    rec.label("ratio " + str(round(math.log2(pos / neg))))


PARTS = {"conversion": conversion}


def run(check, only=None):
    check.search("conversion", cases(), conversion, check.n(1500, 40000))
    check.assumptions += ["ratios of the errors between 1/256 and 256, errors between 1e-6 and 1e6"]
