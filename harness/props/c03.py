"""2-D convolution analysis and synthesis on random integer images and coefficients,
random integer filter banks, all modes and levels, batches and axes."""

from .. import gen

PROP = "C03"
COUNT = {"quick": 6000, "thorough": 50000}


def fixed(tier):
    yield from gen.batch_sweep(["wavedec2", "waverec2"], PROP)


def make(r, tier):
    if r.random() < 0.55:
        yield gen.make_dec(r, "wavedec2", axes=r.random() < 0.3)
    else:
        yield gen.make_rec(r, "waverec2", axes=r.random() < 0.3)


def classify(c):
    return f"{c['fn']}/{c.get('mode')}/L{len(c['w']['dl'])}/{c['dt']}"
