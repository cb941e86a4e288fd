"""Every transform, inverse transform, boundary-filter object and packet tree with random
axes (positive, negative, any order), batch dimensions and memory layouts.  Exact part:
random integer data and filter banks, every entry compared with the specification, which
acts along the named axes and leaves all others alone.  Real part: named wavelets, the
boundary-filter objects of long filters, the continuous transform; one call with axes and
batch is compared with the unbatched, contiguous calls for every batch entry."""

from .. import gen
from ..gen import pick

PROP = "C06"
COUNT = {"quick": 4000, "thorough": 60000}
ASSUMPTIONS = ["real part: agreement up to 3e-5 (float64: 8e-6) relative to data of unit size"]

DEC = ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3", "swt"]
REC = ["waverec", "waverec2", "waverec3", "fswaverec2", "fswaverec3", "iswt"]
MAT = ["matrix1", "matrix2", "matrix2s", "matrix3"]
ORTH = ["haar", "db2", "db3", "db4", "sym4", "sym5", "coif1"]
ND = {**gen.ND, **gen.MDIM, "packet1": 1, "packet2": 2, "cwt": 1}
LEN = {"haar": 2, "db2": 4, "db3": 6, "db4": 8, "sym4": 8, "sym5": 10, "coif1": 6, "bior2.2": 6, "rbio1.3": 6}
CWT = ["mexh", "morl", "gaus1", "cgau2", "cmor1.5-1.0", "shan1.5-1.0", "fbsp1-1.5-1.0", "db2", "sym4", "haar"]


def ax_case(r):
    kind = pick(r, ["matrix", "packet", "conv", "cwt"], [5, 3, 3, 2])
    fn = {"matrix": lambda: pick(r, MAT), "packet": lambda: pick(r, ["packet1", "packet2"]), "conv": lambda: pick(r, DEC), "cwt": lambda: "cwt"}[kind]()
    nd = ND[fn]
    dt = pick(r, ["float64", "float32"], [3, 1])
    w = pick(r, ORTH if kind in ("matrix", "packet") else ORTH + ["bior2.2", "rbio1.3"])
    if nd == 3 and LEN[w] > 6:
        w = "db2"
    c = {"op": "ax", "fn": fn, "nd": nd, "dt": dt, "wn": w, "wf": pick(r, ["name", "pywt", "user"]), "salt": r.randint(1, 10**6)}
    L = LEN[w]
    c["inverse"] = kind != "cwt" and fn != "swt" and r.random() < 0.5
    c["orth"] = pick(r, ["qr", "gramschmidt"])
    J = pick(r, [1, 2]) if nd > 1 else pick(r, [1, 2, 3])
    c["mode"] = pick(r, gen.MODES)
    if kind == "matrix":
        sizes = [r.randint(L, min(2 * L + 4, {1: 40, 2: 18, 3: 9}[nd])) for _ in range(nd)]
        if fn == "matrix2":
            sizes = [min(s, 12) for s in sizes]
    elif kind == "packet":
        J = pick(r, [1, 2]) if nd == 1 else 1
        c["sep"] = r.random() < 0.5
        if r.random() < 0.5:
            c["mode"] = "boundary"
            if nd == 2:
                c["sep"] = True
        sizes = [r.randint(max(L, 4) * 2, 2 * L + 12) for _ in range(nd)]
        c["paths"] = r.sample(["".join(p) for p in gen.all_paths(nd, J)], 2)
        c["inverse"] = r.random() < 0.4
        if c["inverse"]:
            c["paths"] = ["".join(p) for p in gen.all_paths(nd, J)]
    elif kind == "cwt":
        sizes = [r.randint(8, 60)]
        c["wn"] = pick(r, CWT)
        c["precision"] = pick(r, [8, 10])
        c["scales"] = sorted(r.sample(range(2, 20), r.randint(1, 3)))
        J = 1
    else:
        sizes = gen.sizes_for(r, nd, L, J, c["mode"], cap={1: 40, 2: 20, 3: 10}[nd], lo=L)
        while not all(gen.pad_ok(c["mode"], n, L, J) for n in sizes):
            c["mode"] = "zero"
        if fn == "swt":
            sizes = [4 * r.randint(1, 10)]
            J = pick(r, [1, 2])
    c["level"] = J
    batch = pick(r, [[], [2], [3], [2, 2], [1, 3], [2, 1, 2]], [1, 2, 2, 3, 2, 1])
    if nd == 3 or gen.size(batch) * gen.size(sizes) > 900:
        batch = pick(r, [[], [2], [1, 2]])
    if kind == "cwt":
        shape, ax = batch + sizes, []
    else:
        shape, ax = gen.place_axes(r, batch, sizes, 0.15)
    c["shape"], c["axes"] = shape, ax
    c["lay"] = pick(r, ["c", "t", "s", "o"])
    c["tol"] = 2 if dt == "float64" else 64
    return c


def fixed(tier):
    yield from gen.batch_sweep(["swt", "iswt", "matrix1", "matrix2", "matrix2s", "matrix3"], PROP, 4)


def make(r, tier):
    k = r.random()
    if k < 0.28:
        yield gen.make_dec(r, pick(r, DEC), axes=True)
    elif k < 0.52:
        yield gen.make_rec(r, pick(r, REC), axes=True)
    elif k < 0.62:
        fn = pick(r, MAT)
        L = pick(r, [2, 4], [3, 1])
        yield gen.make_mdec(r, fn, axes=True, L=L) if r.random() < 0.5 else gen.make_mrec(r, fn, axes=True, L=L)
    elif k < 0.70:
        nd = pick(r, [1, 2])
        new = gen.pk_setup(r, nd, nrec=1, pr=r.random() < 0.5)
        ml = new["maxlevel"]
        steps = [new, {"do": "init", "oid": "t", "ps": gen.all_paths(nd, ml), "fits": False}]
        steps += [{"do": "get", "oid": "t", "p": gen.rand_path(r, nd, ml)} for _ in range(2)]
        steps.append({"do": "rec", "oid": "t"})
        yield {"op": "pkh", "steps": steps}
    else:
        yield ax_case(r)


def classify(c):
    if c["op"] == "pkh":
        return f"pkh/{c['steps'][0]['nd']}d/{'sep' if c['steps'][0]['sep'] else ''}"
    return f"{c['op']}/{c['fn']}"
