"""1-D analysis of random integer signals with random integer filter banks (even
lengths 2..16), all boundary modes, levels 0..5 and default, float32/float64, batch
shapes and wavelet forms; every coefficient is compared with the specification."""

from .. import gen

PROP = "C01"
COUNT = {"quick": 15000, "thorough": 120000}


def fixed(tier):
    yield from gen.batch_sweep(["wavedec"], PROP)


def make(r, tier):
    yield gen.make_dec(r, "wavedec")


def classify(c):
    return f"{c['mode']}/L{len(c['w']['dl'])}/J{c['level']}/{c['dt']}"
