"""Losses of ProductFilter and SoftOrthogonalWavelet for random integer banks of length
2 to 16 (random taps, perfect-reconstruction banks, orthogonal and nearly orthogonal
banks), evaluated in random order on the same object, with the gradients of the losses;
and transforms that use the filter objects as wavelets."""

from .. import gen
from ..gen import pick

PROP = "C21"
COUNT = {"quick": 10000, "thorough": 60000}
NAMES = {
    "product": ["pr", "alias", "pf_alias", "product", "total"],
    "soft": ["pr", "alias", "pf_alias", "product", "total", "orth", "filt_orth"],
}


def orth_bank(r, L):
    """Orthogonal up to scale: a single tap and its mirror."""
    k = r.randrange(L)
    s = r.choice([-1, 1])
    dl = [0] * L
    dl[k] = s
    rl = dl[::-1]
    dh = [(-1) ** (i + 1) * rl[i] for i in range(L)]
    return {"dl": dl, "dh": dh, "rl": rl, "rh": dh[::-1]}


def make(r, tier):
    if r.random() < 0.35:
        fn = pick(r, ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "swt"], [4, 2, 1, 2, 2])
        c = gen.make_dec(r, fn) if r.random() < 0.5 else gen.make_rec(r, gen_inverse(fn))
        c["wf"] = pick(r, ["product", "soft"])
        yield c
        return
    cls = pick(r, ["product", "soft"])
    L = pick(r, [2, 4, 6, 8, 10, 12, 16], [4, 4, 3, 2, 1, 1, 1])
    dt = pick(r, ["float64", "float32"], [3, 1])
    k = r.random()
    if k < 0.5:
        w = gen.bank(r, L, 300 if dt == "float64" else max(1, 12 // L))
    elif k < 0.7:
        w = gen.pr_bank(r, steps=r.randint(1, 2), mag=2 if dt == "float64" else 1, deg=r.randint(0, 1))
        if dt == "float32" and len(w["dl"]) * gen.amp(w, ("dl", "dh", "rl", "rh")) ** 4 > 2**22:
            dt = "float64"
    else:
        w = orth_bank(r, L)
        for _ in range(r.randint(0, 2)):  # violate an identity at one tap
            f = w[pick(r, ["dl", "dh", "rl", "rh"])]
            f[r.randrange(L)] += r.choice([-2, -1, 1, 2])
    order = list(NAMES[cls])
    r.shuffle(order)
    c = {"op": "loss", "cls": cls, "w": w, "dt": dt, "order": order[: r.randint(1, len(order))]}
    if dt == "float64" and r.random() < 0.4:  # the gradient along a random direction
        c["d"] = {k: [r.randint(-500, 500) for _ in f] for k, f in w.items()}
    yield c


def gen_inverse(fn):
    from ..execute import INVERSE

    return INVERSE[fn]


def classify(c):
    if c["op"] == "loss":
        return f"loss/{c['cls']}/L{len(c['w']['dl'])}/{c['dt']}"
    return f"{c['fn']}/{c['wf']}"
