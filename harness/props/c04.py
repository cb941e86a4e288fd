"""3-D convolution analysis and synthesis on random integer volumes and coefficients,
random integer filter banks, all modes and levels, batches and axes."""

from .. import gen

PROP = "C04"
COUNT = {"quick": 3000, "thorough": 30000}


def fixed(tier):
    yield from gen.batch_sweep(["wavedec3", "waverec3"], PROP)


def make(r, tier):
    if r.random() < 0.55:
        yield gen.make_dec(r, "wavedec3", axes=r.random() < 0.3)
    else:
        yield gen.make_rec(r, "waverec3", axes=r.random() < 0.3)


def classify(c):
    return f"{c['fn']}/{c.get('mode')}/L{len(c['w']['dl'])}/{c['dt']}"
