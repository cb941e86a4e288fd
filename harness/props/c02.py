"""1-D synthesis of random integer coefficient lists (compatible sizes chosen freely,
not only those an analysis produces; some incompatible ones) with random integer
filter banks; every sample is compared with the specification."""

from .. import gen

PROP = "C02"
COUNT = {"quick": 15000, "thorough": 120000}


def fixed(tier):
    yield from gen.batch_sweep(["waverec"], PROP)


def make(r, tier):
    yield gen.make_rec(r, "waverec")


def classify(c):
    return f"{c['fn']}/L{len(c['w']['dl'])}/J{len(c['c']['ds'])}/{c['dt']}"
