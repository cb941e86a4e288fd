"""Default decomposition levels of all transforms, packet trees and boundary-filter
objects for named wavelets of length 2 to 40 and user-made banks, shapes around the
thresholds (L-1)*2^j, rectangular shapes, batch dimensions and axes; objects are also
called with other sizes before.  The number of levels is compared with the level rule
of the specification, and the result with the one for this level given explicitly."""

from .. import gen
from ..gen import pick

PROP = "C22"
COUNT = {"quick": 8000, "thorough": 40000}
ASSUMPTIONS = ["the result with an explicit level is compared bit by bit"]

ORTH = [f"db{i}" for i in range(1, 21)] + [f"sym{i}" for i in range(2, 13)] + ["haar", "coif1", "coif2", "coif3", "dmey"]
BIOR = ["bior1.3", "bior2.2", "bior3.5", "bior4.4", "bior6.8", "rbio1.5", "rbio3.1", "rbio6.8"]
FNS = ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3", "swt", "packet1", "packet2", "matrix1", "matrix2", "matrix2s", "matrix3"]
DIM = {"wavedec": 1, "wavedec2": 2, "wavedec3": 3, "fswavedec2": 2, "fswavedec3": 3, "swt": 1, "packet1": 1, "packet2": 2, "matrix1": 1, "matrix2": 2, "matrix2s": 2, "matrix3": 3}
CAP = {"wavedec": 3000, "wavedec2": 300, "wavedec3": 48, "fswavedec2": 300, "fswavedec3": 48, "swt": 1024, "packet1": 1200, "packet2": 80, "matrix1": 64, "matrix2": 14, "matrix2s": 40, "matrix3": 20}
LIM = {"wavedec2": 40000, "fswavedec2": 40000, "wavedec3": 30000, "fswavedec3": 30000, "packet2": 6400, "matrix2": 196, "matrix2s": 800, "matrix3": 4000}


def flen(w):
    if not isinstance(w, str):
        return len(w["dl"])
    import pywt

    return len(pywt.Wavelet(w).dec_lo)


def one_size(r, fn, L):
    cap = CAP[fn]
    if fn == "swt":
        return pick(r, [r.randint(1, 64), 2 ** r.randint(0, 10), r.randint(1, 40) * 2 ** r.randint(0, 4)])
    js = [j for j in range(0, 12) if (L - 1) * 2**j <= cap + 1]
    k = r.random()
    if k < 0.6 and js:  # around the thresholds
        return max(1, min(cap, (L - 1) * 2 ** r.choice(js) + r.choice([-2, -1, -1, 0, 0, 1, 2])))
    if k < 0.8:
        return r.randint(1, min(cap, 12))
    return r.randint(1, cap)


def sizes(r, fn, L, nd):
    for _ in range(200):
        s = [one_size(r, fn, L) for _ in range(nd)]
        if gen.size(s) <= LIM.get(fn, 10**9):
            return s
    return [min(CAP[fn], 4)] * nd


def make(r, tier):
    fn = pick(r, FNS)
    nd = DIM[fn]
    mat = fn.startswith("matrix")
    dt = pick(r, ["float64", "float32"])
    if mat:
        w, wf = pick(r, ORTH[:8] + ["haar", "haar", "sym4", "coif1"]), pick(r, ["name", "pywt"])
    elif r.random() < 0.75:
        w, wf = pick(r, ORTH + BIOR), pick(r, ["name", "pywt", "tensor"])
        if nd == 3 and flen(w) > 12:
            w = pick(r, ["haar", "db2", "db3", "sym4", "bior2.2"])
    else:
        w, wf = gen.bank(r, pick(r, [2, 4, 6, 10, 14]), 2), pick(r, ["pywt", "user", "tensor"])
        if nd == 3:
            w = gen.bank(r, 4, 2)
    if fn.startswith("packet") and wf == "tensor" and isinstance(w, str):
        wf = "pywt"
    L = flen(w)
    sz = sizes(r, fn, L, nd)
    batch = pick(r, [[], [1], [2], [5], [70], [2, 3]], [4, 1, 2, 1, 1, 1])
    if gen.size(batch) * gen.size(sz) > 60000:
        batch = []
    shape, ax = gen.place_axes(r, batch, sz)
    rank = len(shape)
    slots = [a % rank for a in ax] or list(range(rank - nd, rank))
    before = []
    if mat or fn.startswith("packet"):
        for _ in range(pick(r, [0, 1, 2], [2, 2, 1])):
            s2 = sizes(r, fn, L, nd)
            if fn == "matrix1" or gen.size(s2) * gen.size(batch) < 20000:
                before.append(gen.place(shape, s2, slots))
    yield {
        "op": "lvl",
        "fn": fn,
        "wn": w,
        "wf": wf,
        "dt": dt,
        "shape": shape,
        "axes": ax,
        "mode": pick(r, gen.MODES),
        "level0": 0,
        "before": before,
        "salt": r.randint(1, 10**6),
    }


def classify(c):
    return f"{c['fn']}/{c['wf']}/{'reused' if c['before'] else 'fresh'}"
