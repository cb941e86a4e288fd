"""Sparse convolution matrices and matrix utilities with random integer entries: all
filter sizes (also longer than the signal), signal sizes, modes and strides in 1-D and
2-D; Kronecker products, identity extension, row replacement, diagonals and batched
products of random sparse matrices with empty rows, explicit zeros and duplicate
entries.  Results are compared entry by entry with the definitions of Sparse.tla."""

from .. import gen
from ..gen import pick

PROP = "C20"
COUNT = {"quick": 16000, "thorough": 80000}


def triplets(r, rows, cols, mag=50):
    k = pick(r, [0, r.randint(0, rows * cols), rows * cols, r.randint(1, 3)])
    cells = [(i, j) for i in range(rows) for j in range(cols)]
    r.shuffle(cells)
    cells = cells[:k]
    if cells and r.random() < 0.2:
        cells.append(r.choice(cells))  # duplicate entry
    return {
        "s": [rows, cols],
        "r": [i for i, _ in cells],
        "c": [j for _, j in cells],
        "v": [r.randint(-mag, mag) for _ in cells],
    }


def make(r, tier):
    fn = pick(r, ["conv1", "conv2", "kron", "cat", "row", "diag", "bmm"], [5, 5, 2, 1, 2, 2, 2])
    dt = pick(r, ["float64", "float32"])
    c = {"op": "sp", "fn": fn, "dt": dt, "lay": pick(r, ["c", "s", "t"], [4, 1, 1])}
    if fn in ("conv1", "conv2"):
        c["mode"] = pick(r, ["full", "same", "sameshift", "valid"])
        c["stride"] = pick(r, [0, 1, 2, 3, 4], [3, 1, 4, 2, 1])
        if r.random() < 0.02:
            c["mode"] = pick(r, ["reflect", "", "Full"])
    if fn == "conv1":
        F = r.randint(1, 9)
        n = r.randint(F if c["mode"] == "valid" else 1, 24)
        if c["stride"] and c["mode"] == "sameshift":
            n = max(n, 2)
        c.update(f=gen.data(r, [F]), n=n)
    elif fn == "conv2":
        FH, FW = r.randint(1, 4), r.randint(1, 4)
        v = c["mode"] == "valid"
        lo = 2 if c["mode"] == "sameshift" and c["stride"] else 1
        h, w = r.randint(max(lo, FH) if v else lo, 7), r.randint(max(lo, FW) if v else lo, 7)
        c.update(f=gen.data(r, [FH, FW]), h=h, w=w, fully=r.random() < 0.7)
    elif fn == "kron":
        c.update(A=triplets(r, r.randint(1, 5), r.randint(1, 5)), B=triplets(r, r.randint(1, 5), r.randint(1, 5)))
    elif fn == "cat":
        m = r.randint(1, 6)
        n = m + r.randint(0, 6)
        if r.random() < 0.1:
            n = r.randint(0, m)
        cols = m if r.random() < 0.9 else r.randint(1, 6)
        c.update(A=triplets(r, m, cols), n=n)
    elif fn == "row":
        m, n = r.randint(1, 6), r.randint(1, 6)
        c.update(A=triplets(r, m, n), R=triplets(r, 1, n if r.random() < 0.9 else r.randint(1, 6)), i=r.randint(0, m - 1))
    elif fn == "diag":
        k = r.randint(1, 7)
        c.update(f=gen.data(r, [k]), off=r.randint(-5, 5), rows=r.randint(1, 8), cols=r.randint(1, 8))
    else:
        m, n = r.randint(1, 5), r.randint(1, 5)
        k = n if r.random() < 0.9 else r.randint(1, 5)
        c.update(A=triplets(r, m, n), X=gen.data(r, [r.randint(1, 3), k, r.randint(1, 4)], 50), dense=r.random() < 0.3)
    yield c


def classify(c):
    return f"{c['fn']}/{c.get('mode', '')}/{c.get('stride', '')}"
