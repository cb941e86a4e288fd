"""Separable 2-D and 3-D analysis and synthesis on random integer data, random integer
filter banks, all modes and levels, batches, axes and dictionary orders."""

from .. import gen
from ..gen import pick

PROP = "C05"
COUNT = {"quick": 4000, "thorough": 40000}


def fixed(tier):
    yield from gen.batch_sweep(["fswavedec2", "fswaverec2", "fswavedec3", "fswaverec3"], PROP)


def make(r, tier):
    fn = pick(r, ["fswavedec2", "fswavedec3", "fswaverec2", "fswaverec3"], [3, 2, 3, 2])
    if "dec" in fn:
        yield gen.make_dec(r, fn, axes=r.random() < 0.3)
    else:
        yield gen.make_rec(r, fn, axes=r.random() < 0.3)


def classify(c):
    return f"{c['fn']}/{c.get('mode')}/L{len(c['w']['dl'])}/{c['dt']}"
