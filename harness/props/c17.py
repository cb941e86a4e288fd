"""Backpropagation.  Exact part: integer data, taps and cotangents through all
convolution, separable, stationary and two-tap boundary-filter transforms and their
inverses, with axes, batches and memory layouts; the gradients of data and of taps given
as tensors (also of the other precision) are compared with the derivative computed by
the specification.  Real part: boundary-filter objects of longer wavelets (reused
objects included), packet trees (nodes, assigned leaves, reconstruction) and the
continuous transform (data and wavelet parameters), against the adjoint identity."""

from .. import gen
from ..gen import pick

PROP = "C17"
COUNT = {"quick": 8000, "thorough": 150000}
ASSUMPTIONS = [
    "a wrong exact gradient is missed with probability 1/32749 per call",
    "parameters of learnable continuous wavelets are compared with difference quotients up to 2^-10",
]


def exact(r):
    fns = ["wavedec", "swt", "wavedec2", "fswavedec2", "wavedec3", "fswavedec3", "matrix1", "matrix3"]
    fn = pick(r, fns, [4, 3, 3, 2, 1, 1, 2, 1])
    mat = fn.startswith("matrix")
    nd = gen.MDIM[fn] if mat else gen.ND[fn]
    inv = r.random() < 0.45
    for _ in range(1000):
        if mat:
            c = gen.make_mrec(r, fn, axes=True, L=2) if inv else gen.make_mdec(r, fn, axes=True, L=2)
        elif inv:
            from ..execute import INVERSE

            c = gen.make_rec(r, INVERSE[fn], axes=True, bad=0)
        else:
            c = gen.make_dec(r, fn, axes=True)
        J = len(c["c"]["ds"]) if inv else c["level"]
        if J < 0 or J * nd > 4 or (mat and J == 0):
            continue
        sz = sum(len(b["v"]["d"]) for d in c["c"]["ds"] for b in d["b"]) + len(c["c"]["a"]["d"]) if inv else len(c["x"]["d"])
        if sz * len(c["w"]["dl"]) > 1000:
            continue
        if fn == "swt" and inv:  # keep the halved values integral
            c["w"] = {k: [v * 2 for v in f] for k, f in c["w"].items()} if any(v % 2 for v in c["w"]["rl"]) else c["w"]
        break
    c["taps"] = not mat and r.random() < 0.6
    c["wdt"] = c["dt"]
    if not mat:
        c["wf"] = pick(r, ["tensor", "tensor", "plain", "product"]) if c["taps"] else pick(r, ["pywt", "user", "tensor"])
        if c["taps"] and r.random() < 0.4:
            c["wdt"] = pick(r, ["float64", "float32"])
    else:
        c["wf"] = pick(r, ["pywt", "tensor"])
    c["kind"] = "rec" if inv else "dec"
    c["op"] = "grad"
    if "float32" in (c["dt"], c["wdt"]):  # small values
        c["w"] = {k: [r.choice([-2, -1, 1, 2]) * (2 if c["fn"] == "iswt" else 1) for _ in f] for k, f in c["w"].items()}
        if len(c["w"]["dl"]) ** max(1, J * nd) * 4 ** (J * nd) > 2**13:
            c["dt"] = c["wdt"] = "float64"
    if c["fn"] == "iswt":
        # cotangents divisible by 2^J keep the gradients of the taps integral
        c["ctm"] = 2**J
    else:
        c["ctm"] = 1
    if c["fn"] == "iswt" and c["wdt"] == "float32" != c["dt"]:
        c["wdt"] = c["dt"]
    L = len(c["w"]["dl"])
    mag = 10**3 if c["dt"] == "float64" == c["wdt"] else 5
    c["ctmag"] = mag
    for d in ([t for dd in c["c"]["ds"] for t in [b["v"] for b in dd["b"]]] + [c["c"]["a"]] if inv else [c["x"]]):
        d["d"] = [0 if zero else max(-mag, min(mag, v)) for zero in [r.random() < 0.12] for v in d["d"]]
    if c["dt"] == c["wdt"] == "float64" and not inv:
        cap = max(1, int((2.0**50 / 1e6 / sz) ** (1 / max(1, J * nd)) / L))
        c["w"] = {k: [max(-cap, min(cap, v)) for v in f] for k, f in c["w"].items()}
    elif c["dt"] == c["wdt"] == "float64":
        cap = max(2, int((2.0**50 / 1e6 / sz) ** (1 / max(1, J * nd)) / 2 / L))
        cap -= cap % 2
        c["w"] = {k: [max(-cap, min(cap, v)) for v in f] for k, f in c["w"].items()}
    c["d"] = {k: [r.randint(-500, 500) for _ in f] for k, f in c["w"].items()}
    c["salt"] = r.randint(1, 10**6)
    return c


ORTH = ["haar", "db2", "db3", "db4", "sym4", "coif1", "sym5"]


def adjoint(r):
    fn = pick(r, ["matrix1", "matrix2", "matrix2s", "matrix3", "packet1", "packet2", "cwt", "cwtpar"], [4, 2, 2, 2, 4, 4, 4, 1])
    dt = pick(r, ["float64", "float32"], [3, 1])
    c = {"op": "adj", "fn": fn, "dt": dt, "salt": r.randint(1, 10**6), "lay": pick(r, ["c", "t", "s", "o"], [3, 1, 1, 1]),
         "zero": r.getrandbits(8) if r.random() < 0.15 else 0}  # which inputs are zero
    if fn == "cwtpar":
        c.update(cls=pick(r, ["shan", "cmor"]), dt="float64", pars=[pick(r, [0.5, 1.0, 1.5]), pick(r, [0.5, 1.0])],
                 shape=pick(r, [[20], [2, 24]]), scales=[float(pick(r, [2, 3, 5])) for _ in range(pick(r, [1, 2]))], precision=pick(r, [6, 8, 10]))
        return c
    if fn == "cwt":
        wn = pick(r, ["mexh", "morl", "gaus2", "cgau1", "shan1.5-1.0", "cmor1.5-1.0", "haar", "db2", "sym4"])
        n = r.randint(12, 40)
        c.update(wn=wn, shape=pick(r, [[], [1], [3], [2, 2]]) + [n], scales=[float(pick(r, [2, 3, 4.5, 7, 16])) for _ in range(pick(r, [1, 2, 3]))], precision=pick(r, [5, 8, 12]))
        return c
    nd = 1 if fn in ("matrix1", "packet1") else 3 if fn == "matrix3" else 2
    sizes = [r.randint({1: 8, 2: 6, 3: 4}[nd], {1: 40, 2: 13, 3: 9}[nd]) for _ in range(nd)]
    shape, ax = gen.place_axes(r, pick(r, [[], [1], [2], [2, 2]]), sizes)
    c.update(shape=shape, axes=ax, mode=pick(r, gen.MODES), orth=pick(r, ["qr", "gramschmidt"], [3, 1]))
    if fn.startswith("matrix"):
        c.update(wn=pick(r, ORTH), wf=pick(r, ["name", "pywt", "tensor"]), level=pick(r, [1, 2, -1]), inverse=r.random() < 0.5, before=pick(r, ["no", "grad", "plain"]))
        if fn == "matrix3":
            c["wn"] = pick(r, ["haar", "db2"])
    else:
        L = pick(r, [2, 4])
        lev = pick(r, [1, 2]) if nd == 2 else pick(r, [1, 2, 3])
        if c["mode"] in ("reflect", "periodic") and any(not gen.pad_ok(c["mode"], n, L, lev) for n in sizes):
            c["mode"] = "zero"
        if r.random() < 0.2:
            c["mode"] = "boundary"
        wn = {2: "haar", 4: pick(r, ["db2", "bior1.3" if c["mode"] != "boundary" else "db2"])}[L]
        if wn == "bior1.3":
            wn = "sym2"
        if c["mode"] == "boundary":
            # every level needs inputs at least as long as the filter
            while any(-(-n // 2 ** (lev - 1)) < L for n in sizes) and lev > 1:
                lev -= 1
        c.update(wn=wn, wf=pick(r, ["name", "pywt"]), level=lev, sep=nd == 2 and r.random() < 0.4,
                 what=pick(r, ["node", "rec", "leaf"]), p=gen.rand_path(r, nd, lev), leaf=[r.choice(gen.LET[nd]) for _ in range(lev)])
    return c


def make(r, tier):
    yield exact(r) if r.random() < 0.65 else adjoint(r)


def classify(c):
    if c["op"] == "adj":
        return f"adjoint/{c['fn']}/{c['dt']}"
    return f"{c['fn']}/{'taps' if c['taps'] else 'data'}/{c['dt']}/{c['wdt']}"
