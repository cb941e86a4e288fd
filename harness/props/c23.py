"""The wavelet argument.  (1) Every transform, inverse, boundary-filter object, packet
tree and the continuous transform is called with the same taps as a name, a PyWavelets
object, a user-made object (lists or tuples), a tuple of tensors (of the data's or the
other precision) and a plain tuple, and the results are compared.  (2) Double precision
calls with integer taps above 2^24, for which any detour through single precision
changes the exact result.  (3) Single precision calls on unit impulses whose taps have
up to 30 bits: the result has to be the taps rounded once (to nearest even)."""

from .. import gen
from ..gen import pick

PROP = "C23"
COUNT = {"quick": 2500, "thorough": 30000}
ASSUMPTIONS = [
    "forms of real-valued taps are compared up to 2^-40 (double) or 2^-17 (single precision) of the largest coefficient",
    "filter modules and plain tuples of tensors are accepted by the convolution transforms only",
]

CONV = ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3", "swt"]
MAT = ["matrix1", "matrix2", "matrix2s", "matrix3"]
PK = ["packet1", "packet2", "packet2s"]
DIM = {**{k: gen.ND[k] for k in CONV}, **gen.MDIM, "packet1": 1, "packet2": 2, "packet2s": 2}
CWT = ["mexh", "morl", "gaus1", "gaus4", "cgau2", "shan1.5-1.0", "cmor1.5-1.0", "fbsp2-1.5-1.0", "haar", "db3", "sym4", "coif1"]


def names():
    import pywt

    return pywt.wavelist(kind="discrete")


def flen(w):
    import pywt

    return len(pywt.Wavelet(w).dec_lo) if isinstance(w, str) else len(w["dl"])


def big(r, bits):
    """An odd integer with the given number of bits."""
    v = 2**bits + r.randrange(2**bits)
    return (v | 1) * r.choice([-1, 1])


def forms(r):
    fn = pick(r, CONV + MAT + PK + ["cwt"])
    dt = pick(r, ["float64", "float32"])
    case = {"op": "forms", "fn": fn, "dt": dt, "salt": r.randint(1, 10**6), "mode": pick(r, gen.MODES), "axes": []}
    if fn == "cwt":
        case.update(wn=pick(r, CWT), shape=pick(r, [[30], [2, 25]]), scales=[float(pick(r, [2, 3, 5.5, 8])) for _ in range(2)])
        return case
    nd = DIM[fn]
    mat = fn in MAT
    if r.random() < 0.75:
        pool = names()
        if mat:
            pool = ["haar", "db2", "db3", "db4", "sym4", "coif1", "sym5"]
        w = pick(r, pool)
        while not mat and nd > 1 and flen(w) > ((8, 20)[nd == 2]):
            w = pick(r, pool)
    else:
        w = gen.bank(r, pick(r, [2, 4, 6]), 3)
        if mat:
            w = gen.sound_bank(lambda: gen.bank(r, pick(r, [2, 4]), 3), fn == "matrix2")
    L = 40 if isinstance(w, str) and not mat else 12
    lo, hi = {1: (max(16, L), 80), 2: (8, 14), 3: (4, 7)}[nd]
    if mat:
        lo, hi = {1: (10, 40), 2: (10, 14), 3: (8, 10)}[nd]
    sizes = [r.randint(lo, hi) for _ in range(nd)]
    if fn not in MAT and case["mode"] in ("reflect", "periodic"):
        L = flen(w)
        if any(not gen.pad_ok(case["mode"], n, L, 2) for n in sizes):
            case["mode"] = pick(r, ["zero", "constant", "symmetric"])
    if fn in PK and r.random() < 0.2 and isinstance(w, str) and w in ("haar", "db2", "db3", "sym4"):
        case["mode"] = "boundary"
    lvl = 1 if nd == 3 or case["mode"] == "boundary" else pick(r, [1, 2])
    case.update(wn=w, shape=pick(r, [[], [2]]) + sizes, level=lvl, inverse=r.random() < 0.5, orth=pick(r, ["qr", "gramschmidt"]))
    return case


def double(r):
    """Double precision with taps that single precision cannot hold."""
    k = pick(r, ["dec1", "rec1", "decn", "recn", "mdec", "mrec"], [4, 3, 3, 3, 2, 2])
    wf = pick(r, ["pywt", "user", "usertuple", "tensor", "from", "plain"])
    if k == "dec1":
        fn = pick(r, ["wavedec", "wavedec", "swt"])
        L = pick(r, [2, 4, 6, 8])
        mode = pick(r, gen.MODES)
        n = r.randint(L + 2, 40)
        return {"op": "dec", "fn": fn, "mode": mode, "level": 1, "axes": [], "w": {f: [big(r, r.randint(24, 28)) for _ in range(L)] for f in ("dl", "dh", "rl", "rh")},
                "wf": wf, "dt": "float64", "x": gen.data(r, pick(r, [[], [2]]) + [n], 1000)}
    if k == "rec1":
        fn = pick(r, ["waverec", "waverec", "iswt"])
        c = gen.make_rec(r, fn, bad=0, dts=("float64",))
        c["c"]["ds"] = c["c"]["ds"][:1]
        if not c["c"]["ds"]:
            c["c"]["ds"] = [{"kind": "tensor", "b": [{"k": ["d"], "v": gen.data(r, c["c"]["a"]["s"], 1000)}]}]
        L = len(c["w"]["rl"])
        c["w"] = {f: [big(r, r.randint(24, 28)) * (2 if fn == "iswt" else 1) for _ in range(L)] for f in ("dl", "dh", "rl", "rh")}
        c["wf"] = wf
        return c
    if k in ("decn", "recn"):
        # one axis sees the large taps, the others the small ones
        fn = pick(r, ["wavedec2", "wavedec3", "fswavedec2", "fswavedec3"])
        nd = gen.ND[fn]
        L = pick(r, [2, 4])
        if k == "decn":
            w = {}
            for f in ("dl", "dh", "rl", "rh"):
                w[f] = [big(r, r.randint(24, 29)) if t % 2 == 0 else r.choice([-3, -2, -1, 1, 2, 3]) for t in range(L)]
            sizes = [r.randint(4, 9 if nd == 2 else 6) for _ in range(nd)]
            x = {"s": sizes, "d": [0] * gen.size(sizes)}
            odd = r.randrange(nd)  # this axis sees the taps of even position
            pos = [r.choice([p for p in range(n) if p % 2 == (1 if a == odd else 0)]) for a, n in enumerate(sizes)]
            j = 0
            for p, n in zip(pos, sizes):
                j = j * n + p
            x["d"][j] = r.choice([-1, 1])
            return {"op": "dec", "fn": fn, "mode": "zero", "level": 1, "axes": [], "w": w, "wf": wf, "dt": "float64", "x": x}
        w = {"dl": gen.taps(r, L, 3), "dh": gen.taps(r, L, 3), "rl": [big(r, r.randint(24, 29)) for _ in range(L)], "rh": gen.taps(r, L, 3)}
        s = [r.randint(2, 5 if nd == 2 else 3) for _ in range(nd)]
        ks = gen.keys_nd(nd)
        zero = lambda: {"s": s, "d": [0] * gen.size(s)}
        val = lambda key: gen.data(r, s, 3) if key.count("a") == 1 else zero()
        if fn == "wavedec2":
            b = [{"k": [h], "v": val(key)} for h, key in (("H", "da"), ("V", "ad"), ("D", "dd"))]
            d = {"kind": pick(r, ["named", "tuple"]), "b": b}
        else:
            d = {"kind": "dict", "b": [{"k": q, "v": val("".join(q))} for q in ks]}
        return {"op": "rec", "fn": fn.replace("wavedec", "waverec"), "axes": [], "w": w, "wf": wf, "dt": "float64",
                "c": {"kind": "tuple", "a": zero(), "ds": [d]}}
    wf = pick(r, ["pywt", "user", "usertuple", "tensor", "from"])
    fn = "matrix1" if r.random() < 0.7 else pick(r, ["matrix2", "matrix2s"])
    nd = gen.MDIM[fn]
    c = gen.make_mdec(r, fn, dts=("float64",), L=2) if k == "mdec" else gen.make_mrec(r, fn, dts=("float64",), L=2)
    c["w"] = {f: [big(r, r.randint(24, 28) if nd == 1 else 24) for _ in range(2)] for f in ("dl", "dh", "rl", "rh")}
    if nd == 2:
        c["w"] = {f: [(2**24 + 2 * r.randint(0, 2**19) + 1) * r.choice([-1, 1]) for _ in range(2)] for f in ("dl", "dh", "rl", "rh")}
    c["wf"] = wf
    if k == "mdec":
        c["level"] = 1
        c["x"] = gen.data(r, c["x"]["s"], 1000 if nd == 1 else 1)
    else:
        c["c"]["ds"] = c["c"]["ds"][:1]
        mag = 1000 if nd == 1 else 1
        c["c"]["a"] = gen.data(r, c["c"]["a"]["s"], mag)
        for b in c["c"]["ds"][0]["b"]:
            b["v"] = gen.data(r, b["v"]["s"], mag)
    return c


def single(r):
    """Single precision: isolated unit impulses read the taps out."""
    fn = pick(r, ["wavedec", "swt", "waverec", "iswt"], [3, 2, 2, 1])
    L = pick(r, [2, 4, 6, 8])
    w = {f: [big(r, r.randint(24, 26 if fn == "iswt" else 28)) for _ in range(L)] for f in ("dl", "dh", "rl", "rh")}
    if fn == "iswt":  # the inverse halves: keep the values integral
        w = {f: [4 * v for v in w[f]] for f in w}
    for f in w:  # ties between two single precision numbers
        if r.random() < 0.3 and fn != "iswt":
            t = r.randrange(L)
            w[f][t] = r.choice([-1, 1]) * (2**24 + 2 * r.randrange(2**22) + 1)
    wf = pick(r, ["pywt", "user", "usertuple", "tensor64", "plain64", "tensor", "from64"])
    if fn in ("wavedec", "swt"):
        n = r.randint(2 * L + 2, 40)
        d = [0] * n
        for p in range(r.randint(L, L + 2), n - L, 2 * L):
            d[p] = r.choice([-1, 1])
        return {"op": "f32", "fn": fn, "mode": "zero", "level": 1, "axes": [], "w": w, "wf": wf, "dt": "float32", "x": {"s": [n], "d": d}}
    m = r.randint(L + 2, 24)
    a, d = [0] * m, [0] * m
    v = a if r.random() < 0.5 else d
    for p in range(r.randint(0, L), m - (L if fn == "iswt" else 0), 2 * L):
        v[p] = r.choice([-1, 1])
    t = lambda q: {"s": [m], "d": q}
    return {"op": "f32", "fn": fn, "axes": [], "w": w, "wf": wf, "dt": "float32",
            "c": {"kind": "list", "a": t(a), "ds": [{"kind": "tensor", "b": [{"k": ["d"], "v": t(d)}]}]}}


def make(r, tier):
    k = r.random()
    yield forms(r) if k < 0.3 else double(r) if k < 0.75 else single(r)


def classify(c):
    return f"{c['op']}/{c['fn']}/{c.get('wf', '')}/{c['dt']}"
