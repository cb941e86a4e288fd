"""Argument contract.  Calls of every discrete transform, inverse, boundary-filter object
and packet tree with well-formed arguments and with arguments that were changed in one or
two places (dtype, dimensions, axes, mode, orthogonalisation, filter lengths, structure, keys and shapes of
the coefficients).  The specification derives from a description of the arguments which
rules they break; the call must be accepted, with the dtype preserved, iff there is none."""

from .. import gen
from ..gen import pick

PROP = "C19"
COUNT = {"quick": 12000, "thorough": 150000}
ASSUMPTIONS = []

ND = {"wavedec": 1, "wavedec2": 2, "wavedec3": 3, "fswavedec2": 2, "fswavedec3": 3, "swt": 1, "matrix1": 1, "matrix2": 2, "matrix2s": 2, "matrix3": 3, "packet1": 1, "packet2": 2}
DTS = ["float16", "bfloat16", "int64", "int32", "uint8", "bool", "complex64", "complex128"]
MODES = ["foo", "", "Zero", "zero ", "periodization", "antisymmetric", "smooth", "replicate", "circular", "boundary"]
ORTHS = ["svd", "QR", "", "gram-schmidt", "none"]


def axes_bad(r, nd, rank):
    """An axes argument that is usually wrong."""
    k = pick(r, ["dup", "alias", "few", "many", "range"])
    a = r.sample(range(rank), min(nd, rank))
    if k == "dup" and nd > 1:
        i, j = r.sample(range(len(a)), 2)
        a[i] = a[j]
    elif k == "alias" and nd > 1:
        i, j = r.sample(range(len(a)), 2)
        a[i] = a[j] - rank
    elif k == "few" and nd > 1:
        a = a[: r.randint(1, nd - 1)]
    elif k == "many":
        a = a + [pick(r, range(rank)) for _ in range(r.randint(1, 2))]
    else:
        a[r.randrange(len(a))] = pick(r, [rank, rank + 2, -rank - 1])
    return a


def base(r, fn):
    nd = ND[fn]
    w = pick(r, ["haar", "db2", "db3"]) if nd < 3 else pick(r, ["haar", "db2"])
    L = {"haar": 2, "db2": 4, "db3": 6}[w]
    J = pick(r, [1, 2, 3], [2, 3, 1]) if nd < 3 else pick(r, [1, 2])
    mat = fn.startswith("matrix")
    # boundary filters need a filter length at every level
    lo = L * 2 ** (J - 1) + 1 if mat else max(L + 1, 3)
    sizes = [r.randint(lo, lo + (20 if nd == 1 else 6)) for _ in range(nd)]
    if fn == "swt":
        sizes = [2**J * r.randint(1, 5)]
    batch = pick(r, [[], [1], [2], [3], [2, 3], [2, 2], [1, 3, 2]], [3, 1, 3, 2, 3, 1, 1])
    mode = pick(r, gen.MODES) if fn != "swt" else "default"
    if not mat and fn != "swt" and any(not gen.pad_ok(mode, n, L, J) for n in sizes):
        mode = pick(r, ["zero", "constant", "symmetric"])
    if r.random() < 0.1 and not mat:
        J = -1 if fn == "swt" or all(gen.max_level(n, L) >= 1 for n in sizes) else J
    shape, axes = batch + sizes, None
    if r.random() < 0.4:
        shape, axes = gen.place_axes(r, batch, sizes, 0)
        axes = axes or None
    c = {"op": "gd", "fn": fn, "nd": nd, "wn": w, "L": L, "J": J, "mode": mode, "axes": axes, "s": shape, "orth": "qr"}
    if fn.startswith("packet"):
        c["J"] = pick(r, [1, 2]) if nd == 1 else 1
        if any(n < L for n in sizes):
            c["mode"] = "zero"
        elif r.random() < 0.3:
            c["mode"] = "boundary"
        c["sep"] = nd == 2 and r.random() < 0.3
    c["dt"] = pick(r, ["float32", "float64"])
    c["wf"] = pick(r, ["name", "pywt", "tensor64", "tensor32", "user"])
    c["salt"] = r.randint(1, 9999)
    return c


def entries(fn):
    return {"wavedec2": 3, "matrix2": 3, "matrix2s": 3}.get(fn, {1: 1, 2: 3, 3: 7}[ND[fn]])


def coeff_change(r, c):
    fn, nd = c["fn"], c["nd"]
    J = c["J"] if c["J"] > 0 else 2
    at = r.randint(0, J)
    i = r.randrange(entries(fn)) if at and r.random() < 0.7 else -1
    k = pick(r, ["dt", "crop", "long", "unsq", "sq", "obj", "kind", "batch", "low", "crop1"], [4, 3, 2, 1, 1, 2, 4, 2, 1, 3])
    ch = {"what": k, "at": at, "i": i}
    if k == "dt":
        ch["dt"] = pick(r, DTS + ["float32", "float64"] * 3)
        if r.random() < 0.2:
            ch["at"], ch["i"] = -1, -1
    elif k in ("crop", "long", "crop1"):
        ch["axis"] = r.randrange(len(c["s"]))
        if k == "crop1" and J > 1:
            ch.update(at=J, i=-1, what="crop")
            if c["axes"]:
                ch["axis"] = pick(r, c["axes"])
            else:
                ch["axis"] = len(c["s"]) - 1 - r.randrange(nd)
    elif k == "obj":
        ch["v"] = pick(r, ["none", "str", "np", "float", "list"])
    elif k == "kind":
        ch["at"] = max(1, at)
        ch["v"] = pick(r, ["list", "tuple", "tensor", "tuple2", "tuple4", "empty", "emptydict", "dict", "dictmiss", "dictren", "dictextra", "dictapprox", "dict1", "dict3", "named"])
    elif k == "batch":
        ch["at"], ch["i"] = at, -1
    elif k == "low":
        ch["to"] = r.randint(0, nd - 1)
    return ch


def make(r, tier):
    call = pick(r, ["dec", "rec", "pk"], [3, 5, 1])
    if call == "pk":
        c = base(r, pick(r, ["packet1", "packet2"]))
    else:
        c = base(r, pick(r, [f for f in ND if not f.startswith("packet")]))
    c["call"] = call
    nd, rank = c["nd"], len(c["s"])
    n = pick(r, [0, 1, 2], [2, 6, 1])
    c["changes"] = []
    for _ in range(n):
        if call == "rec":
            k = pick(r, ["coeff", "axes", "orth"], [8, 1, 0.5 if c["fn"].startswith("matrix") else 0])
        else:
            k = pick(r, ["dt", "low", "axes", "mode", "orth"], [3, 2, 3, 3, 1 if c["fn"][0] in "mp" else 0])
        if k == "coeff":
            c["changes"].append(coeff_change(r, c))
        elif k == "axes":
            c["axes2"] = axes_bad(r, nd, rank)
        elif k == "orth":
            if r.random() < 0.3 and c["fn"].startswith("matrix"):
                c["uneven"] = pick(r, [1, -1])
            else:
                c["orth"] = pick(r, ORTHS)
        elif k == "dt":
            c["xdt"] = pick(r, DTS)
        elif k == "low":
            c["low"] = r.randint(0, nd - 1)
        elif c["fn"] != "swt":
            c["mode2"] = pick(r, MODES)
    if call == "pk" and c.get("mode2", c["mode"]) == "boundary" and min(c["s"][a] for a in (c["axes"] or range(-nd, 0))) < 2 * c["L"]:
        c["J"] = 1  # every level needs a filter length
    yield c


def classify(c):
    return f"{c['call']}/{c['fn']}"
