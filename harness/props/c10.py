"""Boundary-filter analysis and synthesis objects (1-D, 2-D separable and not, 3-D) with
random integer banks: structure, band order, lengths, odd padding in every mode, early
stop and default level; all values for two-tap banks, and for longer banks all values
that do not depend on an orthogonalised row.  Synthesis of arbitrary coefficients
likewise."""

from .. import gen
from ..gen import pick

PROP = "C10"
COUNT = {"quick": 5000, "thorough": 80000}


def make(r, tier):
    fn = pick(r, ["matrix1", "matrix2", "matrix2s", "matrix3"], [4, 3, 3, 3])
    if r.random() < 0.65:
        yield gen.make_mdec(r, fn, axes=r.random() < 0.3)
    else:
        yield gen.make_mrec(r, fn, axes=r.random() < 0.3)


def classify(c):
    return f"{c['op']}/{c['fn']}/L{len(c['w']['dl'])}"
