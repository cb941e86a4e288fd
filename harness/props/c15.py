"""Stationary transform, its inverse and the round trip on random integer signals of
any length (odd ones too), random integer filter banks and levels.  The design model
Cascade is checked exhaustively for small sizes."""

import os
import random

from .. import core, gen, worker
from ..gen import pick

PROP = "C15"
COUNT = {"quick": 12000, "thorough": 100000}

def prepare(tmp, tier):
    # the cascade of the specification itself restores every signal
    specs = [(1, 0), (1, 1), (2, 1), (3, 1)] if tier == "quick" else [(1, 0), (1, 1), (2, 0), (2, 1), (3, 0), (3, 1)]
    banks = gen.write_banks(os.path.join(tmp, "banks.ndjson"), random.Random(core.seed()), specs)
    return [worker.run_design("Cascade", f"Cascade_swt_{tier}.cfg", tmp, {"BANKS": banks}, "8")]


def make(r, tier):
    k = pick(r, ["dec", "rec", "rt"], [4, 4, 2])
    ax = r.random() < 0.3
    if k == "dec":
        yield gen.make_dec(r, "swt", axes=ax)
    elif k == "rec":
        yield gen.make_rec(r, "iswt", axes=ax)
    else:
        b = lambda r: gen.pr_bank(r, steps=r.randint(1, 3), mag=2, deg=r.randint(0, 1))
        yield gen.make_dec(r, "swt", op="rt", axes=ax, bank_fn=b)


def classify(c):
    return f"{c['op']}/L{len(c['w']['dl'])}/{c['dt']}"
