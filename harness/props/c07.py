"""Analysis followed by synthesis with random integer perfect-reconstruction banks
(built by lifting; the specification re-checks the perfect-reconstruction identity),
all convolution transforms, modes, levels, shapes and axes.  The design model Cascade
(levels down and up again, all unit impulses of a size at once) is checked exhaustively
for small sizes: the specified transform restores every signal."""

import os
import random

from .. import core, gen, worker
from ..gen import pick

PROP = "C07"
COUNT = {"quick": 6000, "thorough": 60000}

def prepare(tmp, tier):
    # the cascade of the specification itself restores every signal
    specs = [(1, 0), (1, 1), (2, 1), (3, 1)] if tier == "quick" else [(1, 0), (1, 1), (2, 0), (2, 1), (3, 0), (3, 1)]
    banks = gen.write_banks(os.path.join(tmp, "banks.ndjson"), random.Random(core.seed()), specs)
    return [worker.run_design("Cascade", f"Cascade_dwt_{tier}.cfg", tmp, {"BANKS": banks}, "8")]


def make(r, tier):
    fn = pick(r, ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3"], [4, 3, 2, 2, 1])
    b = lambda r: gen.pr_bank(r, steps=r.randint(1, 3 if fn == "wavedec" else 2), mag=2, deg=r.randint(0, 1))
    yield gen.make_dec(r, fn, op="rt", axes=r.random() < 0.3, bank_fn=b)


def classify(c):
    return f"{c['fn']}/{c['mode']}/L{len(c['w']['dl'])}/J{c['level']}"
