"""Boundary-filter transforms of all orthogonal PyWavelets families and of random
orthogonal (lattice) banks, both orthogonalisation methods, float64 and float32: the
constructed matrices and the published operators, logged in fixed point, are orthogonal
and inverse to each other (TLC computes the products); objects restore integer signals
exactly in every shape, mode and level, keep their energy when nothing was padded, and
their published operators give the same coefficients."""

import math

from .. import gen
from ..gen import pick

PROP = "C08"
COUNT = {"quick": 2600, "thorough": 30000}
ASSUMPTIONS = [
    "matrices: tolerance 1.5e-6 (float64) and 1e-3 (float32); banks whose truncated filters are numerically "
    "dependent in the used precision (e.g. db16 and longer with Gram-Schmidt, dmey) are left out"
]
SYM = [f"sym{i}" for i in range(2, 21)]
G = {  # wavelets whose boundary filters are numerically independent
    ("float64", "qr"): [f"db{i}" for i in range(1, 21)] + SYM + [f"coif{i}" for i in range(1, 11)],
    ("float64", "gramschmidt"): [f"db{i}" for i in range(1, 15)] + SYM + [f"coif{i}" for i in range(1, 9)],
    ("float32", "qr"): [f"db{i}" for i in range(1, 10)] + SYM[:10] + [f"coif{i}" for i in range(1, 6)],
    ("float32", "gramschmidt"): [f"db{i}" for i in range(1, 8)] + SYM[:10] + [f"coif{i}" for i in range(1, 6)],
}
TOL = {"float64": 103079, "float32": 68719476}


def wlen(n):
    f = n.rstrip("0123456789")
    k = int(n[len(f) :] or 1)
    return 6 * k if f == "coif" else 2 * k


def lattice(r, L):
    """Random orthogonal bank from plane rotations."""

    def ang():
        return r.uniform(0.3, 1.2) * r.choice([-1, 1])

    t = ang()
    h0, h1 = [math.cos(t), math.sin(t)], [-math.sin(t), math.cos(t)]
    while len(h0) < L:
        a, b, t = h0 + [0, 0], [0, 0] + h1, ang()
        c, s = math.cos(t), math.sin(t)
        h0, h1 = [c * x + s * y for x, y in zip(a, b)], [-s * x + c * y for x, y in zip(a, b)]
    rh = [(-1) ** k * h0[k] for k in range(L)]
    return {"dl": h0, "dh": rh[::-1], "rl": h0[::-1], "rh": rh}


def wavelet(r, dt, orth, maxL):
    if r.random() < 0.35:
        L = pick(r, [2, 4, 6, 8] if dt == "float64" else [2, 4, 6])
        if L <= maxL:
            return lattice(r, L), pick(r, ["pywt", "user"] if dt == "float32" else ["pywt", "user", "tensor"]), L
    while True:
        n = pick(r, G[dt, orth]) if r.random() < 0.6 else pick(r, ["haar", "db2", "db3", "db4", "sym4", "coif1"])
        L = 2 if n == "haar" else wlen(n)
        if L <= maxL:
            return n, pick(r, ["name", "pywt", "user"] + (["tensor"] if dt == "float64" else [])), L


def make(r, tier):
    dt = pick(r, ["float64", "float32"], [3, 1])
    orth = pick(r, ["qr", "gramschmidt"], [2, 1])
    k = r.random()
    base = {"dt": dt, "orth": orth}
    if k < 0.16:
        kind = pick(r, ["1d", "2d", "op1", "op2"], [5, 2, 2, 1])
        J = 1
        if kind == "1d":
            w, wf, L = wavelet(r, dt, orth, 60)
            sizes = [L + 2 * r.choice([0, 1, 2, 3, r.randint(0, max(1, min(10, L)))])]
        elif kind == "2d":
            w, wf, L = wavelet(r, dt, orth, 6)
            sizes = [L + 2 * r.randint(0, 2 if L < 4 else 1) for _ in range(2)]
        elif kind == "op1":
            w, wf, L = wavelet(r, dt, orth, 10)
            J = pick(r, [1, 2, 3])
            m = (L + 1) // 2 + r.randint(0, 3)
            while m * 2**J > 70 and J > 1:
                J -= 1
            sizes = [(m + (m % 2 if 2 * m < 0 else 0)) * 2**J]
        else:
            w, wf, L = wavelet(r, dt, orth, 4)
            J = pick(r, [1, 2]) if L == 2 else 1
            sizes = [(L // 2 + r.randint(0, 1)) * 2**J for _ in range(2)]
        yield {"op": "bmat", "fn": "op" if kind.startswith("op") else "con", "wn": w, "wf": wf, "level": J, "sizes": sizes, "tol": TOL[dt], **base}
        return
    fn = pick(r, ["matrix1", "matrix2", "matrix2s", "matrix3"], [4, 2, 3, 3])
    nd = gen.MDIM[fn]
    maxL = {"matrix1": 40, "matrix2": 6, "matrix2s": 16, "matrix3": 8}[fn]
    if fn == "matrix2" and orth == "gramschmidt":
        maxL = 4
    w, wf, L = wavelet(r, dt, orth, maxL)
    cap = {"matrix1": 80, "matrix2": 9 if orth == "qr" else 6, "matrix2s": 34, "matrix3": 14}[fn]
    J = pick(r, [1, 2, 3])

    def one():
        if r.random() < 0.45:  # padding free
            m = max(1, (L + 1) // 2) * 2**J
            m = m * r.randint(1, max(1, cap // m)) if m <= cap else L + L % 2
            return min(m, max(cap, L + L % 2))
        return r.randint(max(1, L - 2), max(cap // 2, L + 4))

    sizes = [one() for _ in range(nd)]
    if fn == "matrix2":
        sizes = [min(s, cap) for s in sizes]
    batch = gen.batches(r)
    if gen.size(batch) * gen.size(sizes) > 1500:
        batch = []
    if k < 0.78:
        shape, ax = gen.place_axes(r, batch, sizes)
        lvl = J if r.random() < 0.85 else -1
        if lvl < 0 and min(sizes) < L - 1:
            lvl = J
        mag = 1000 if dt == "float64" else 5
        while gen.size(shape) * mag * mag > 10**8:
            mag //= 2
        yield {
            "op": "mrt", "fn": fn, "wn": w, "wf": wf, "level": lvl, "axes": ax, "mode": pick(r, gen.MODES if min(sizes) > 1 else ["zero"]),
            "x": gen.data(r, shape, mag), "lay": pick(r, ["c", "t", "s", "o"]), **base,
        }  # fmt: skip
        return
    fn = pick(r, ["matrix1", "matrix2", "matrix2s"], [5, 4, 1])
    maxL = {"matrix1": 16, "matrix2": 4, "matrix2s": 6}[fn]
    w, wf, L = wavelet(r, dt, orth, maxL)
    nd = gen.MDIM[fn]
    J = pick(r, [1, 2, 3], [1, 1, 1] if nd == 1 else [3, 3, 1])

    def other():
        m = max(1, (L + 1) // 2) * 2**J
        c = 48 if nd == 1 else 8
        return m if m <= c and r.random() < 0.7 else r.randint(1, c)

    batch = pick(r, [[], [1], [3], [2, 2]])
    if r.random() < 0.45:
        yield {
            "op": "mopi", "fn": fn, "wn": w, "wf": wf, "level": J, "mode": "zero", "salt": r.randint(1, 10**6),
            "shape": batch + [other() for _ in range(nd)], "tol": 4 if dt == "float64" else 128, "called": r.random() < 0.93,
            "before": [batch + [other() for _ in range(nd)] for _ in range(pick(r, [0, 1]))], **base,
        }  # fmt: skip
        return
    yield {
        "op": "mop", "fn": fn, "wn": w, "wf": wf, "level": J, "mode": "zero", "salt": r.randint(1, 10**6),
        "shape": batch + [other() for _ in range(nd)], "tol": 4 if dt == "float64" else 128,
        "before": [batch + [other() for _ in range(nd)] for _ in range(pick(r, [0, 1]))], **base,
    }  # fmt: skip


def classify(c):
    return f"{c['op']}/{c['fn']}/{c['orth']}/{c['dt']}"
