"""Seeded generators of filter banks, data and shapes."""

from __future__ import annotations

import json
import math
import random

MODES = ["zero", "constant", "symmetric", "reflect", "periodic"]


def taps(r, n, mag):
    """n random non-zero integer taps."""
    out = []
    for _ in range(n):
        v = 0
        while v == 0:
            v = r.randint(-mag, mag)
        out.append(v)
    return out


def bank(r, L, mag):
    return {k: taps(r, L, mag) for k in ("dl", "dh", "rl", "rh")}


def conv_bank(r, L, mag):
    """A bank for the convolution transforms: sometimes with zero taps or related filters."""
    w = bank(r, L, mag)
    k = r.random()
    if k < 0.05:  # zero-padded filters
        for f in w.values():
            a, b = r.randint(0, L // 2), r.randint(0, L // 2)
            for i in range(L):
                if i < a or i >= L - b:
                    f[i] = 0
    elif k < 0.08:  # zeros anywhere
        for f in w.values():
            for i in range(L):
                if r.random() < 0.4:
                    f[i] = 0
    elif k < 0.10:  # the quadrature relations, or one filter for all
        if r.random() < 0.7:
            w["rl"] = w["dl"][::-1]
            w["rh"] = [(-1) ** i * v for i, v in enumerate(w["dl"])]
            w["dh"] = w["rh"][::-1]
        else:
            w = {k: list(w["dl"]) for k in w}
    elif k < 0.12:  # symmetric filters
        w = {k: f[: (L + 1) // 2] + f[: L // 2][::-1] for k, f in w.items()}
    return w


BIGP = 2**61 - 1


def _rank(rows):
    rows, rk = [list(x) for x in rows], 0
    for c in range(len(rows[0]) if rows else 0):
        p = next((i for i in range(rk, len(rows)) if rows[i][c] % BIGP), None)
        if p is None:
            continue
        rows[rk], rows[p] = rows[p], rows[rk]
        inv = pow(rows[rk][c], -1, BIGP)
        for i in range(rk + 1, len(rows)):
            f = rows[i][c] * inv % BIGP
            if f:
                rows[i] = [(a - f * b) % BIGP for a, b in zip(rows[i], rows[rk])]
        rk += 1
    return rk


def independent(lo, hi, nonsep=False):
    """The truncated boundary filters of the synthesis matrix are independent.

    Otherwise a basis of their span does not exist in the required size, and the
    orthogonalised filters are arbitrary.
    """
    L = len(lo)
    for n in range(L + L % 2, 25 if nonsep else 2 * L + 3, 2):
        rows = []
        for f in (lo, hi):
            for k in range(n // 2):
                if nonsep or 2 * k - L // 2 + 1 < 0 or 2 * k + L // 2 >= n:
                    v = [0] * n
                    for t in range(L):
                        j = 2 * k - L // 2 + 1 + t
                        if 0 <= j < n:
                            v[j] = f[t]
                    rows.append(v)
        if _rank(rows) < len(rows):
            return False
    return True


def sound_bank(make, nonsep):
    """A bank whose boundary synthesis filters exist."""
    while True:
        w = make()
        if len(w["rl"]) == 2 or independent(w["rl"], w["rh"], nonsep):
            return w


def conv(a, b):
    out = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def padd(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)]


def pr_bank(r, steps=2, mag=2, deg=1, orth_scale=False):
    """Random integer perfect-reconstruction bank built by lifting steps."""
    dl, dh, rl, rh = [1, 0], [0, 1], [0, 1], [1, 0]
    for i in range(steps):
        s = [r.randint(-mag, mag) for _ in range(deg + 1)]
        if not any(s):
            s[0] = 1
        s2 = []
        for v in s:
            s2 += [v, 0]
        s2 = s2[:-1]
        if (i + r.randint(0, 0)) % 2 == 0:
            dh = padd(dh, conv(dl, s2))
            rl = padd(rl, [-v for v in conv(rh, s2)])
        else:
            dl = padd(dl, conv(dh, s2))
            rh = padd(rh, [-v for v in conv(rl, s2)])

    def strip(f):
        while len(f) > 1 and f[-1] == 0:
            f = f[:-1]
        return f

    dl, dh, rl, rh = map(strip, (dl, dh, rl, rh))
    la, ls = max(len(dl), len(dh)), max(len(rl), len(rh))
    # total delay must become L - 1: a + b = L - 2, la + a <= L, ls + b <= L
    L = max(la, ls)
    L += L % 2
    while True:
        lo, hi = max(0, L - 2 - (L - ls)), min(L - la, L - 2)
        lo = max(lo, 0)
        if lo <= hi:
            break
        L += 2
    a = r.randint(lo, hi)
    b = L - 2 - a

    def fit(f, d):
        f = [0] * d + f
        return f + [0] * (L - len(f))

    return {"dl": fit(dl, a), "dh": fit(dh, a), "rl": fit(rl, b), "rh": fit(rh, b)}


def amp(w, keys=("dl", "dh")):
    return max(sum(abs(v) for v in w[k]) for k in keys)


def size(s):
    return math.prod(s)


def data(r, shape, mag=1000):
    n = size(shape)
    if r.random() < 0.08:  # values that invite shortcuts: zeros, constants, impulses
        k = r.randrange(4)
        if k == 0:
            d = [0] * n
        elif k == 1:
            d = [r.randint(-mag, mag)] * n
        elif k == 2:
            d = [0] * n
            if n:
                d[r.randrange(n)] = r.randint(1, mag)
        else:
            d = [r.choice([0, 0, 0, r.randint(-mag, mag)]) for _ in range(n)]
        return {"s": list(shape), "d": d}
    return {"s": list(shape), "d": [r.randint(-mag, mag) for _ in range(n)]}


def dec_len(n, L):
    return (n + L - 1) // 2


def pad_ok(mode, n, L, J):
    """Do the paddings of J levels fit the restrictions of torch's modes?"""
    for _ in range(J):
        p = (2 * L - 3) // 2
        pr = p + n % 2
        if mode == "reflect" and pr > n - 1:
            return False
        if mode == "periodic" and pr > n:
            return False
        n = dec_len(n, L)
    return True


def tap_mag(L, depth, dt, dmag, cap=300):
    """Largest tap magnitude keeping all intermediate values exactly representable."""
    lim = 2.0**40 if dt == "float64" else 2.0**22
    m = (lim / dmag) ** (1.0 / max(depth, 1)) / L
    return max(1, min(cap, int(m)))


def pick(r, xs, ws=None):
    return r.choices(xs, weights=ws)[0] if ws else r.choice(xs)


# --------------------------------------------------------------- conv calls
ND = {
    "wavedec": 1,
    "waverec": 1,
    "wavedec2": 2,
    "waverec2": 2,
    "fswavedec2": 2,
    "fswaverec2": 2,
    "wavedec3": 3,
    "waverec3": 3,
    "fswavedec3": 3,
    "fswaverec3": 3,
    "swt": 1,
    "iswt": 1,
}
LENS = {1: ([2, 4, 6, 8, 10, 12, 16], [4, 5, 4, 3, 2, 1, 1]), 2: ([2, 4, 6, 8], [4, 4, 2, 1]), 3: ([2, 4, 6], [5, 4, 1])}
LEVELS = {1: ([0, 1, 2, 3, 4, 5], [1, 6, 6, 4, 2, 1]), 2: ([0, 1, 2, 3], [1, 6, 5, 2]), 3: ([0, 1, 2], [1, 5, 3])}
SPAN = {1: 70, 2: 14, 3: 8}
def batches(r):
    """Batch dimensions, occasionally many entries or many dimensions."""
    if r.random() < 0.08:
        return pick(r, [[r.randint(4, 70)], [r.randint(4, 70)], [2, r.randint(3, 35)], [r.randint(3, 35), 2], [2, 1, 2], [2, 1, 3, 1], [1, 2, 2, 2]])
    return list(pick(r, [[], [1], [2], [3], [2, 2], [1, 3]], [6, 1, 2, 1, 1, 1]))



def max_level(n, L):
    j = 0
    while (L - 1) * 2 ** (j + 1) <= n:
        j += 1
    return j


def swt_max(n):
    j = 0
    while n % 2 == 0:
        n //= 2
        j += 1
    return j


def place_axes(r, batch, sizes, default_p=0.3):
    """Random positions of the transformed axes: (shape, axes argument)."""
    nd = len(sizes)
    rank = len(batch) + nd
    if r.random() < default_p:
        return batch + sizes, []
    pos = r.sample(range(rank), nd)
    shape = [None] * rank
    for p, s in zip(pos, sizes):
        shape[p] = s
    it = iter(batch)
    shape = [s if s is not None else next(it) for s in shape]
    return shape, [p - rank if r.random() < 0.5 else p for p in pos]


def sizes_for(r, nd, L, J, mode, cap=None, lo=1):
    cap = cap or SPAN[nd]
    out = []
    for _ in range(nd):
        n = lo
        for _ in range(60):
            n = pick(r, [r.randint(lo, max(lo, min(cap, 8))), r.randint(max(lo, min(L, cap)), max(lo, min(3 * L, cap))), r.randint(lo, cap)])
            if pad_ok(mode, n, L, J) or r.random() < 0.003:
                break
        out.append(n)
    return out


def extreme(r, nd):
    """Rare sizes: long filters, many levels, long signals; (L, J, smallest size, largest size)."""
    if nd == 1:
        return pick(r, [(pick(r, [20, 24, 40, 76]), r.randint(1, 2), 1, 160), (2, r.randint(6, 10), 1, 400), (4, r.randint(6, 8), 1, 300), (pick(r, [2, 4, 6]), r.randint(1, 3), 300, 1500)])
    if nd == 2:
        return pick(r, [(pick(r, [10, 12, 16]), 1, 1, 28), (2, r.randint(4, 6), 1, 30), (4, 4, 1, 20), (pick(r, [2, 4]), r.randint(1, 2), 20, 48)])
    return pick(r, [(8, 1, 1, 10), (2, 3, 1, 14), (2, r.randint(1, 2), 9, 16)])


def make_dec(r, fn, op="dec", default_level=0.1, axes=False, L=None, dts=("float64", "float32"), bank_fn=None):
    nd = ND[fn]
    dt = pick(r, list(dts), [4, 1][: len(dts)])
    mode = pick(r, MODES)
    J = pick(r, *LEVELS[nd])
    L = L or pick(r, *LENS[nd])
    w0 = bank_fn(r) if bank_fn else None
    lo, cap = 1, None
    if not w0 and r.random() < 0.04:
        L, J, lo, cap = extreme(r, nd)
    if w0:
        L = len(w0["dl"])
    if fn == "swt":
        J = pick(r, [0, 1, 2, 3, 4, 5, 6, 7], [8, 32, 32, 16, 8, 2, 1, 1])
        L = min(L, 40, {5: 8, 6: 6, 7: 4}.get(J, 40))
        n = pick(r, [r.randint(1, 12), r.randint(1, 48), 2 ** r.randint(0, 5), 4 * r.randint(1, 10)])
        if lo > 1:
            n = r.randint(lo, cap)
        sizes = [n]
    else:
        sizes = sizes_for(r, nd, L, J, mode, cap, lo)
    lvl = J
    if r.random() < default_level:
        Jd = swt_max(sizes[0]) if fn == "swt" else max(0, min(max_level(n, L) for n in sizes))
        if Jd * nd <= 8:
            lvl, J = -1, Jd
            if dt == "float32" and J * nd > 2:
                dt = "float64"
    if dt == "float32" and J * nd > 3:
        dt = "float64"
    batch = batches(r)
    if size(batch) > 6 and mode in ("zero", "constant", "symmetric") and not lo > 1:
        sizes = [min(n, {1: 60, 2: 7, 3: 3}[nd]) for n in sizes]
    if size(batch) * size(sizes) * L > 8000:
        batch = []
    if axes:
        shape, ax = place_axes(r, batch, sizes)
    else:
        shape, ax = batch + sizes, []
    dmag = 1000 if dt == "float64" else 20
    w = w0 or conv_bank(r, L, tap_mag(L, J * nd, dt, dmag))
    if w0:
        g = amp(w, ("dl", "dh")) * (max(1, amp(w, ("rl", "rh"))) if op == "rt" else 1)
        lim = 2.0**40 if dt == "float64" else 2.0**22
        while lvl > 0 and dmag * float(g) ** (lvl * nd) > lim:
            lvl -= 1
        if lvl == -1 and dmag * float(g) ** (J * nd) > lim:
            lvl = 0
        if dt == "float32" and dmag * float(g) ** (max(lvl, 0) * nd) > lim:
            dt = "float64"
    c = {
        "op": op,
        "fn": fn,
        "mode": mode,
        "level": lvl,
        "axes": ax,
        "w": w,
        "wf": pick(r, ["pywt", "user", "tensor"], [6, 1, 1]),
        "dt": dt,
        "x": data(r, shape, dmag),
    }
    if axes:
        c["lay"] = pick(r, ["c", "t", "s", "o"])
    return c


def keys_nd(nd):
    ks = [[]]
    for _ in range(nd):
        ks = [k + [x] for k in ks for x in "ad"]
    return ks[1:]


TUPLE2 = [["H"], ["V"], ["D"]]


def place(template, sizes, slots):
    """Shape with the given sizes in the given slots of a template."""
    s = list(template)
    for p, n in zip(slots, sizes):
        s[p] = n
    return s


def make_rec(r, fn, axes=False, bad=0.06, dts=("float64", "float32"), w=None):
    nd = ND[fn]
    dt = pick(r, list(dts), [4, 1][: len(dts)])
    L = len(w["rl"]) if w else pick(r, *LENS[nd])
    J = pick(r, *LEVELS[nd])
    cap = {1: 70, 2: 16, 3: 9}[nd]
    start = (max(1, L // 2), max(1, L // 2) + 4)
    if not w and fn != "iswt" and r.random() < 0.04:
        L, J, lo, cap = extreme(r, nd)
        start = (max(1, L // 2), max(1, L // 2) + 4)
        if lo > 1:
            start = (max(start[0], lo // 2**J), max(start[1], cap // 2**J))
    if fn == "iswt":
        J = pick(r, [0, 1, 2, 3, 4, 5, 6], [8, 32, 32, 16, 8, 2, 1])
    if dt == "float32" and J * nd > 3:
        J = 1
    chains = []
    for _ in range(nd):
        if fn == "iswt":
            n = pick(r, [r.randint(1, 12), r.randint(1, 40), 4 * r.randint(1, 8)])
            chains.append([n] * max(J, 1))
            continue
        for _ in range(100):
            m = r.randint(*start)
            ch = [m]
            for _ in range(J - 1):
                nx = 2 * ch[-1] - L + 2
                nx -= r.randint(0, 1) if nx > max(1, L // 2) else 0
                ch.append(max(nx, 1))
            if ch[-1] <= cap and 2 * ch[-1] - L + 2 >= 1:
                break
        if 2 * ch[-1] - L + 2 < 1 or ch[-1] > 2 * cap:
            ch = [L + 1] * 1
            for _ in range(J - 1):
                ch.append(2 * ch[-1] - L + 2)
        chains.append(ch)
    J = min(J, len(chains[0])) if J else 0
    badkind = None
    if J >= 1 and r.random() < bad:
        i = r.randrange(nd)
        if fn == "iswt" or J < 2:
            j = 0
        else:
            j = r.randint(1, J - 1)
        d = pick(r, [1, -2, 2]) if j else 0
        if j and chains[i][j] + d >= 1 and 2 * (chains[i][j] + d) - L + 2 >= 1:
            chains[i][j] += d
            badkind = "chain"
    batch = batches(r)
    total = sum(size([ch[j] for ch in chains]) for j in range(max(J, 1))) * 2**nd
    if size(batch) * total * L > 12000:
        batch = []
    sizes0 = [ch[0] for ch in chains]
    if axes:
        shape0, ax = place_axes(r, batch, sizes0)
    else:
        shape0, ax = batch + sizes0, []
    rank = len(shape0)
    slots = [p % rank for p in ax] if ax else list(range(rank - nd, rank))
    if w is None:
        dmag = 1000 if dt == "float64" else 20
        mag = tap_mag(2 * L, J * nd, dt, dmag)
        w = conv_bank(r, L, mag)
    else:
        dmag = 5 if dt == "float32" else 100
    if fn == "iswt":  # the inverse halves at every level: keep values integral
        w = dict(w, rl=[2 * v for v in w["rl"]], rh=[2 * v for v in w["rh"]])
        if dt == "float32":
            w = dict(w, rl=[2 * r.choice([-1, 1]) for _ in range(L)], rh=[2 * r.choice([-1, 1]) for _ in range(L)])
            J = min(J, 2)
    ds = []
    for j in range(J):
        shp = place(shape0, [ch[j] for ch in chains], slots)
        if nd == 1:
            ds.append({"kind": "tensor", "b": [{"k": ["d"], "v": data(r, shp, dmag)}]})
        elif fn == "waverec2":
            ds.append(
                {"kind": pick(r, ["named", "tuple"]), "b": [{"k": k, "v": data(r, shp, dmag)} for k in TUPLE2]}
            )
        else:
            ks = keys_nd(nd)
            r.shuffle(ks)
            ds.append({"kind": "dict", "b": [{"k": k, "v": data(r, shp, dmag)} for k in ks]})
    c = {
        "kind": "list" if nd == 1 and r.random() < 0.8 else "tuple",
        "a": data(r, shape0, dmag),
        "ds": ds,
    }
    if J and badkind is None and r.random() < bad and not fn.startswith("fs"):
        # approximation of a different size than its details
        s = list(shape0)
        p = slots[r.randrange(nd)]
        s[p] = s[p] + pick(r, [1, 2]) if r.random() < 0.5 or s[p] < 2 else s[p] - 1
        c["a"] = data(r, s, dmag)
    case = {
        "op": "rec",
        "fn": fn,
        "axes": ax,
        "w": w,
        "wf": pick(r, ["pywt", "user", "tensor"], [6, 1, 1]),
        "dt": dt,
        "c": c,
    }
    if axes:
        case["lay"] = pick(r, ["c", "t", "s", "o"])
    return case


def amplitude_ok(case):
    return True


# ------------------------------------------------------------- packet trees
LET = {1: "ad", 2: "ahvd"}


def all_paths(nd, level):
    ps = [[]]
    for _ in range(level):
        ps = [p + [c] for p in ps for c in LET[nd]]
    return ps


def pk_setup(r, nd, nrec=0, boundary=True, maxlev=None, pr=False, dts=("float64", "float32")):
    """A packet object: constructor step (without data decisions)."""
    for _ in range(1000):
        dt = pick(r, list(dts), [5, 1][: len(dts)])
        ml = maxlev if maxlev is not None else pick(r, [0, 1, 2, 3], [1, 4, 6, 3]) if nd == 1 else pick(r, [0, 1, 2], [1, 5, 4])
        mode = pick(r, MODES + (["boundary"] if boundary else []))
        L = 2 if mode == "boundary" else pick(r, [2, 4, 6, 8], [5, 4, 2, 1] if nd == 1 else [5, 3, 1, 0])
        sep = nd == 2 and r.random() < 0.4
        depth = nd * ml * (1 + 2 * nrec)
        dmag = 100 if dt == "float64" else 10
        if pr:
            w = pr_bank(r, steps=1 if mode == "boundary" else r.randint(1, 2), mag=1 if nd == 2 else 2, deg=0 if mode == "boundary" else r.randint(0, 1))
            L = len(w["dl"])
            if mode == "boundary" and L != 2:
                continue
            g = max(amp(w, ("dl", "dh")), amp(w, ("rl", "rh")))
        else:
            lim0 = 2.0**40 if dt == "float64" else 2.0**22
            mag = min(300, int((lim0 / dmag) ** (1 / max(depth, 1)) / L))
            if mag < 1:
                continue
            w = bank(r, L, mag)
            g = mag * L
        lim = 2.0**40 if dt == "float64" else 2.0**22
        if dmag * float(g) ** depth > lim:
            continue
        sizes = sizes_for(r, nd, L, ml, "zero" if mode == "boundary" else mode, cap=24 if nd == 1 else 9, lo=2)
        if any(not pad_ok("zero" if mode == "boundary" else mode, n, L, ml) for n in sizes) and r.random() < 0.95:
            continue
        batch = batches(r)
        if size(batch) * size(sizes) > (60 if nd == 1 else 100):
            batch = []
        shape, ax = place_axes(r, batch, sizes, 0.5)
        return {
            "do": "new",
            "oid": "t",
            "nd": nd,
            "axes": ax,
            "sep": sep,
            "dt": dt,
            "mode": mode,
            "w": w,
            "wf": pick(r, ["pywt", "user", "tensor"], [6, 1, 1]) if mode != "boundary" else "pywt",
            "hasdata": True,
            "maxlevel": ml,
            "x": data(r, shape, dmag),
            "dmag": dmag,
            "lay": pick(r, ["c", "t", "s"], [4, 1, 1]),
        }
    raise RuntimeError("no packet setup found")


def rand_path(r, nd, maxlen):
    return [r.choice(LET[nd]) for _ in range(r.randint(0, maxlen))]


# ------------------------------------------------- boundary-filter transforms
MDIM = {"matrix1": 1, "matrix2": 2, "matrix2s": 2, "matrix3": 3}
MCAP = {"matrix1": 60, "matrix2": 10, "matrix2s": 16, "matrix3": 9}


def mat_common(r, fn, L, J, dts, axes):
    nd = MDIM[fn]
    dt = pick(r, list(dts), [4, 1][: len(dts)])
    if dt == "float32" and J * nd > 3:
        dt = "float64"
    cap = MCAP[fn]
    sizes = [
        pick(r, [r.randint(1, min(cap, 8)), r.randint(min(L, cap), min(cap, max(L, 2 * L + 4))), r.randint(1, cap)])
        for _ in range(nd)
    ]
    batch = batches(r)
    if size(batch) * size(sizes) * L > 3000:
        batch = []
    return dt, sizes, batch


def make_mdec(r, fn, axes=False, dts=("float64", "float32"), L=None):
    nd = MDIM[fn]
    J = pick(r, [1, 2, 3, 4], [4, 4, 2, 1]) if nd == 1 else pick(r, [1, 2, 3], [4, 3, 1])
    L = L or pick(r, [2, 4, 6, 8, 10], [6, 4, 2, 1, 1] if nd == 1 else [6, 3, 1, 0, 0])
    dt, sizes, batch = mat_common(r, fn, L, J, dts, axes)
    lvl = J
    k = r.random()
    if k < 0.15:
        lvl = -1
    elif k < 0.17:
        lvl = 0
    shape, ax = place_axes(r, batch, sizes) if axes else (batch + sizes, [])
    dmag = 200 if dt == "float64" else 10
    Jm = max(J, max_level(max(sizes) + 1, L)) if lvl < 0 else J
    if Jm * nd > 12:
        lvl, Jm = J, J
    w = bank(r, L, tap_mag(L, Jm * nd, dt, dmag, 100))
    if dt == "float32" and tap_mag(L, Jm * nd, dt, dmag, 100) == 1 and (L * 1.0) ** (Jm * nd) * dmag > 2**22:
        dt = "float64"
    return {
        "op": "mdec",
        "fn": fn,
        "mode": pick(r, MODES),
        "level": lvl,
        "axes": ax,
        "w": w,
        "wf": pick(r, ["pywt", "user", "tensor"], [5, 1, 2]),
        "dt": dt,
        "orth": pick(r, ["qr", "gramschmidt"], [3, 1]),
        "x": data(r, shape, dmag),
        "lay": pick(r, ["c", "t", "s", "o"]) if axes else "c",
    }


def make_mrec(r, fn, axes=False, dts=("float64", "float32"), L=None):
    nd = MDIM[fn]
    J = pick(r, [1, 2, 3, 4], [4, 4, 2, 1]) if nd == 1 else pick(r, [1, 2, 3], [4, 3, 1])
    L = L or pick(r, [2, 4, 6, 8], [6, 4, 2, 1] if nd == 1 else [6, 3, 1, 0])
    dt, _, batch = mat_common(r, fn, L, J, dts, axes)
    cap = {1: 60, 2: 20, 3: 12}[nd]
    chains = []
    for _ in range(nd):
        ch = [r.randint((L + 1) // 2, (L + 1) // 2 + pick(r, [1, 4, 8] if nd == 1 else [0, 1, 2]))]
        for _ in range(J - 1):
            n = 2 * ch[-1]
            ch.append(n - (r.randint(0, 1) if n - 1 >= L else 0))
        chains.append(ch)
    while J > 1 and max(ch[J - 1] for ch in chains) > cap:
        J -= 1
    chains = [ch[:J] for ch in chains]
    if size(batch) * size([ch[-1] for ch in chains]) * 2**nd * L > 4000:
        batch = []
    sizes0 = [ch[0] for ch in chains]
    shape0, ax = place_axes(r, batch, sizes0) if axes else (batch + sizes0, [])
    rank = len(shape0)
    slots = [p % rank for p in ax] if ax else list(range(rank - nd, rank))
    dmag = 200 if dt == "float64" else 10
    w = sound_bank(lambda: bank(r, L, tap_mag(2 * L, J * nd, dt, dmag, 100)), fn == "matrix2")
    if dt == "float32" and (2.0 * L) ** (J * nd) * dmag > 2**22:
        dt = "float64"
    ds = []
    for j in range(J):
        shp = place(shape0, [ch[j] for ch in chains], slots)
        if nd == 1:
            ds.append({"kind": "tensor", "b": [{"k": ["d"], "v": data(r, shp, dmag)}]})
        elif nd == 2:
            ds.append({"kind": pick(r, ["named", "tuple"]), "b": [{"k": k, "v": data(r, shp, dmag)} for k in TUPLE2]})
        else:
            ks = keys_nd(nd)
            r.shuffle(ks)
            ds.append({"kind": "dict", "b": [{"k": k, "v": data(r, shp, dmag)} for k in ks]})
    return {
        "op": "mrec",
        "fn": fn,
        "axes": ax,
        "w": w,
        "wf": pick(r, ["pywt", "user", "tensor"], [5, 1, 2]),
        "dt": dt,
        "orth": pick(r, ["qr", "gramschmidt"], [3, 1]),
        "c": {"kind": "list" if nd == 1 and r.random() < 0.8 else "tuple", "a": data(r, shape0, dmag), "ds": ds},
        "lay": pick(r, ["c", "t", "s", "o"]) if axes else "c",
    }


def write_banks(path, r, specs, mag=50):
    """Random perfect-reconstruction banks as residues, one per line (for the design models)."""
    with open(path, "w") as f:
        for steps, deg in specs:
            w = pr_bank(r, steps=steps, mag=mag, deg=deg)
            f.write(json.dumps({k: [v % 32749 for v in w[k]] for k in ("dl", "dh", "rl", "rh")}) + "\n")
    return path


# ----------------------------------------------------------- every batch size
BIG = [96, 97, 100, 127, 128, 129, 160, 192, 193, 200, 255, 256, 257]


def batch_sweep(fns, seed, step=1):
    """Tiny signals in batches of every size: 1..70 and around larger powers of two."""
    r = random.Random(f"sweep/{seed}")
    for fn in fns:
        for B in [*range(1, 71, step), *BIG]:
            nd = ND.get(fn) or MDIM[fn]
            sizes = [4] if nd == 1 else [2, 3] if nd == 2 else [2, 2, 2]
            if fn.startswith("matrix") or fn == "iswt":
                sizes = [2] * nd
            w = bank(r, 2, 9)
            c = {"op": "dec", "fn": fn, "axes": [], "w": w, "wf": "pywt", "dt": pick(r, ["float64", "float32"]), "lay": "c"}
            if fn.startswith("matrix"):
                c.update(op="mdec", orth="qr")
            if fn in ("waverec", "waverec2", "waverec3", "fswaverec2", "fswaverec3", "iswt") or fn.startswith("matrix") and B % 2:
                c["op"] = "mrec" if fn.startswith("matrix") else "rec"
                if fn == "iswt":
                    c["w"] = dict(w, rl=[2 * v for v in w["rl"]], rh=[2 * v for v in w["rh"]])
                if nd == 1:
                    bs = [{"k": ["d"], "v": data(r, [B] + sizes, 99)}]
                elif fn in ("waverec2", "matrix2", "matrix2s"):
                    bs = [{"k": k, "v": data(r, [B] + sizes, 99)} for k in TUPLE2]
                else:
                    bs = [{"k": k, "v": data(r, [B] + sizes, 99)} for k in keys_nd(nd)]
                kind = "tensor" if nd == 1 else "named" if fn in ("waverec2", "matrix2", "matrix2s") else "dict"
                c["c"] = {"kind": "list" if nd == 1 else "tuple", "a": data(r, [B] + sizes, 99), "ds": [{"kind": kind, "b": bs}]}
            else:
                c.update(mode="zero", level=1, x=data(r, [B] + sizes, 99))
            yield c
