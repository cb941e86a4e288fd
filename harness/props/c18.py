"""Purity.  Histories of calls of all public functions, boundary-filter objects, packet
trees, sparse-matrix helpers, losses and the continuous transform that share arguments
and pass earlier results on, some repeated, some failing (malformed arguments, or an
injected failure of some torch operation).  Some calls are made by several threads at the
same time and judged by the exact specification of the transform.  After every call all arguments and earlier
results are compared with their snapshots (values, shapes, layout, container lengths,
identity of entries, gradient flags), and repeated calls with their first result."""

from .. import gen
from ..gen import pick

PROP = "C18"
COUNT = {"quick": 4000, "thorough": 60000}
ASSUMPTIONS = ["the default dtype and gradient mode of torch are part of what a call must not change"]

CONV = ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3", "swt"]
MAT = ["matrix1", "matrix2", "matrix2s", "matrix3"]


def conv_hist(r):
    fn = pick(r, CONV)
    nd = gen.ND[fn]
    w = pick(r, ["haar", "db2", "db3", "bior2.2"])
    L = {"haar": 2, "db2": 4, "db3": 6, "bior2.2": 6}[w]
    J = pick(r, [0, 1, 2, 3], [1, 3, 3, 1]) if nd < 3 else pick(r, [1, 2])
    mode = pick(r, gen.MODES)
    lo, hi = {1: (6, 33), 2: (5, 12), 3: (4, 7)}[nd]
    sizes = [r.randint(max(lo, min(L, hi)), hi) for _ in range(nd)]
    if any(not gen.pad_ok(mode, n, L, J) for n in sizes):
        mode = "symmetric"
    batch = pick(r, [[], [1], [2], [3], [2, 2]], [2, 2, 3, 1, 1])
    ax = []
    shape = batch + sizes
    if r.random() < 0.4:
        shape, ax = gen.place_axes(r, batch, sizes, 0)
    dt = pick(r, ["float64", "float32"])
    objs = {
        "x0": {"t": "tensor", "s": shape, "dt": dt, "salt": r.randint(1, 9999), "lay": pick(r, ["c", "t", "s", "o"]), "grad": r.random() < 0.3},
        "w": {"t": "wavelet", "wn": w, "form": pick(r, ["name", "pywt", "user", "usertuple", "tensor", "plain", "product"]), "dt": pick(r, [dt, "float64"])},
    }
    if objs["w"]["form"] in ("user", "usertuple", "tensor", "plain", "product"):
        objs["w"]["grad"] = r.random() < 0.3
    dec = {"do": "dec", "fn": fn, "x": "x0", "w": "w", "mode": mode, "level": J, "axes": ax, "res": "c0"}
    if r.random() < 0.15 and J:
        dec["level"] = -1
    steps = [dec]
    rec = {"do": "rec", "fn": fn, "c": "c0", "w": "w", "axes": ax, "res": "y0"}
    steps.append(rec)
    # the same coefficients in containers made by the caller
    objs_late = {"do": "wrap", "c": "c0", "kind": pick(r, ["list", "tuple"]), "shuffle": r.random() < 0.7, "plain": r.random() < 0.5, "lay": pick(r, ["c", "t", "s"]), "res": "c1"}
    steps += [objs_late, dict(rec, c="c1", res="y1")]
    return objs, steps


def mat_hist(r):
    fn = pick(r, MAT)
    nd = gen.MDIM[fn]
    w = pick(r, ["haar", "db2", "db3"])
    lo, hi = {1: (6, 30), 2: (6, 10), 3: (4, 7)}[nd]
    if nd == 3:
        w = pick(r, ["haar", "db2"])
    sizes = [r.randint(lo, hi) for _ in range(nd)]
    batch = pick(r, [[], [1], [2], [2, 2]], [2, 2, 3, 1])
    shape, ax = batch + sizes, []
    if r.random() < 0.3:
        shape, ax = gen.place_axes(r, batch, sizes, 0)
    dt = pick(r, ["float64", "float32"])
    shape2 = list(shape)
    shape2[-1] += r.randint(0, 2)
    objs = {
        "x0": {"t": "tensor", "s": shape, "dt": dt, "salt": r.randint(1, 9999), "lay": pick(r, ["c", "t", "s", "o"]), "grad": r.random() < 0.3},
        "x1": {"t": "tensor", "s": shape2, "dt": pick(r, [dt, "float64"]), "salt": r.randint(1, 9999), "lay": "c", "grad": False},
        "w": {"t": "wavelet", "wn": w, "form": pick(r, ["name", "pywt", "tensor"]), "dt": dt},
    }
    kw = {"fn": fn, "w": "w", "axes": ax, "orth": pick(r, ["qr", "gramschmidt"], [4, 1])}
    mode = pick(r, gen.MODES)
    J = pick(r, [1, 2, -1])
    a = dict(kw, do="mat", inverse=False, level=J, mode=mode, obj="A")
    s = dict(kw, do="mat", inverse=True, level=-1, mode=None, obj="S")
    steps = [dict(a, x="x0", res="c0"), dict(s, x="c0", res="y0"), dict(a, x="x1", res="c1"), dict(s, x="c1", res="y1")]
    steps.append({"do": "wrap", "c": "c0", "kind": pick(r, ["list", "tuple"]), "shuffle": r.random() < 0.7, "plain": r.random() < 0.5, "lay": pick(r, ["c", "t"]), "res": "c2"})
    steps.append(dict(s, x="c2", res="y2"))
    if nd < 3:
        steps.append({"do": "boundary", "nd": nd, "w": "w", "n": [2 * ((n + 1) // 2) + (4 if w == "db3" else 0) for n in sizes], "orth": kw["orth"], "dt": dt, "syn": r.random() < 0.5, "res": "m0"})
    return objs, steps


def pk_hist(r):
    nd = pick(r, [1, 2])
    w = pick(r, ["haar", "db2"])
    mode = pick(r, ["zero", "constant", "symmetric", "periodic", "reflect", "boundary"])
    lev = 2 if nd == 1 else pick(r, [1, 2])
    sizes = [r.randint(8, 20 if nd == 1 else 11) for _ in range(nd)]
    shape, ax = gen.place_axes(r, pick(r, [[], [1], [2], [2, 2]]), sizes, 0.5)
    dt = pick(r, ["float64", "float32"])
    objs = {
        "x0": {"t": "tensor", "s": shape, "dt": dt, "salt": r.randint(1, 9999), "lay": pick(r, ["c", "t"]), "grad": r.random() < 0.3},
        "x1": {"t": "tensor", "s": shape, "dt": dt, "salt": r.randint(1, 9999), "lay": "c", "grad": False},
        "w": {"t": "wavelet", "wn": w, "form": pick(r, ["name", "pywt"]), "dt": dt},
    }
    kw = {"nd": nd, "w": "w", "axes": ax, "mode": mode, "level": lev, "sep": nd == 2 and r.random() < 0.4, "obj": "T"}
    steps = [dict(kw, do="pknew", x="x0", res="n0")]
    lets = gen.LET[nd]
    ps = gen.all_paths(nd, lev)
    for i in range(r.randint(1, 3)):
        steps.append({"do": "pkget", "obj": "T", "p": gen.rand_path(r, nd, lev), "res": f"g{i}"})
    steps.append({"do": "pkinit", "obj": "T", "ps": ps, "res": "i0"})
    leaf = pick(r, ps)
    steps.append({"do": "pkget", "obj": "T", "p": leaf, "res": "leaf"})
    if r.random() < 0.6:
        steps.append({"do": "clone", "c": "leaf", "salt": r.randint(1, 999), "lay": pick(r, ["c", "t", "s"]), "res": "new"})
        steps.append({"do": "pkset", "obj": "T", "p": leaf, "x": "new", "res": "s0"})
    steps.append({"do": "pkget", "obj": "T", "p": leaf[:1], "res": "inner"})
    steps.append({"do": "pkrec", "obj": "T", "res": "rec"})
    steps.append({"do": "pkget", "obj": "T", "p": leaf[:1], "res": "inner2"})
    steps.append({"do": "pktrans", "obj": "T", "x": "x1", "level": lev, "res": "tr"})
    steps.append({"do": "pkget", "obj": "T", "p": [r.choice(lets)], "res": "again"})
    return objs, steps


def misc_hist(r):
    k = pick(r, ["cwt", "sparse", "loss"])
    if k == "cwt":
        objs = {
            "x0": {"t": "tensor", "s": pick(r, [[], [2]]) + [r.randint(12, 40)], "dt": pick(r, ["float64", "float32"]), "salt": r.randint(1, 9999), "lay": pick(r, ["c", "t", "o"]), "grad": r.random() < 0.3},
            "sc": {"t": "scales", "v": [pick(r, [2.0, 3.0, 4.5, 8.0]) for _ in range(r.randint(1, 4))], "kind": pick(r, ["np", "torch", "list"])},
            "w": {"t": "cwavelet", "wn": pick(r, ["mexh", "morl", "cgau2", "shan1.5-1.0", "haar", "db2"]), "form": pick(r, ["name", "obj"])},
        }
        if r.random() < 0.25:
            objs["w"] = {"t": "cwavelet", "wn": pick(r, ["shan1.0-1.0", "cmor1.5-1.0"]), "form": "module"}
        return objs, [{"do": "cwt", "x": "x0", "sc": "sc", "w": "w", "period": pick(r, [1.0, 0.25]), "precision": pick(r, [6, 8]), "res": f"r{i}"} for i in range(2)]
    if k == "loss":
        w = gen.bank(r, pick(r, [2, 4, 6]), 5)
        objs = {"w": {"t": "wavelet", "wn": w, "form": pick(r, ["product", "soft"]), "dt": pick(r, ["float64", "float32"])}}
        return objs, [{"do": "loss", "w": "w", "name": n, "res": f"l{i}"} for i, n in enumerate(["pr", "alias", "pf_alias", "product", "total"])]
    n = r.randint(6, 12)
    dt = "float64"
    objs = {
        "f": {"t": "tensor", "s": [r.randint(1, 6)], "dt": dt, "salt": r.randint(1, 999), "lay": pick(r, ["c", "s", "o"]), "grad": False},
        "g": {"t": "tensor", "s": [r.randint(2, 3), r.randint(2, 3)], "dt": dt, "salt": r.randint(1, 999), "lay": pick(r, ["c", "t"]), "grad": False},
        "A": {"t": "sparse", "s": [4, 5], "nnz": 7, "salt": r.randint(1, 999), "dup": r.random() < 0.5},
        "B": {"t": "sparse", "s": [3, 3], "nnz": 4, "salt": r.randint(1, 999), "dup": r.random() < 0.5},
        "row": {"t": "sparse", "s": [1, 5], "nnz": 2, "salt": r.randint(1, 999), "dup": False},
        "X": {"t": "tensor", "s": [2, 5, 3], "dt": dt, "salt": r.randint(1, 999), "lay": pick(r, ["c", "t"]), "grad": False},
    }
    m = pick(r, ["full", "same", "valid", "sameshift"])
    steps = [
        {"do": "sp", "fn": "conv1", "f": "f", "n": n, "mode": m, "stride": 0, "res": "s0"},
        {"do": "sp", "fn": "conv1", "f": "f", "n": n + 6, "mode": "valid" if m == "full" else m, "stride": 2, "res": "s1"},
        {"do": "sp", "fn": "conv2", "f": "g", "h": 5, "w": 4, "mode": m if m != "sameshift" else "same", "stride": 0, "res": "s2"},
        {"do": "sp", "fn": "kron", "A": "A", "B": "B", "res": "s3"},
        {"do": "sp", "fn": "cat", "A": "B", "n": 6, "res": "s4"},
        {"do": "sp", "fn": "row", "A": "A", "i": 2, "R": "row", "res": "s5"},
        {"do": "sp", "fn": "bmm", "A": "A", "X": "X", "res": "s6"},
        {"do": "sp", "fn": "diag", "f": "f", "off": r.randint(-2, 2), "rows": 8, "cols": 8, "res": "s7"},
    ]
    return objs, steps


def other_data(r, c):
    """The same call for the same entries in another order."""

    def mix(t):
        d = [v * r.choice([1, -1]) for v in t["d"]]
        r.shuffle(d)
        return {**t, "d": d}

    if "x" in c:
        return {**c, "x": mix(c["x"])}
    q = c["c"]
    return {**c, "c": {**q, "a": mix(q["a"]), "ds": [{**d, "b": [{**b, "v": mix(b["v"])} for b in d["b"]]} for d in q["ds"]]}}


def threads(r):
    """Several threads in the same function at once, most with arguments of equal shape."""
    cases = []
    for _ in range(pick(r, [1, 2], [2, 1])):
        k = r.random()
        if k < 0.4:
            c = gen.make_dec(r, pick(r, CONV))
        elif k < 0.75:
            c = gen.make_rec(r, pick(r, ["waverec", "waverec2", "waverec3", "fswaverec2", "fswaverec3", "iswt"]))
        elif k < 0.9:
            c = gen.make_mdec(r, pick(r, MAT), axes=r.random() < 0.3)
        else:
            c = gen.make_mrec(r, pick(r, MAT), axes=r.random() < 0.3)
        cases += [c] + [other_data(r, c) for _ in range(2)]
    return {"op": "threads", "cases": cases, "rounds": 3}


def make(r, tier):
    if r.random() < 0.1:
        yield threads(r)
        return
    objs, steps = pick(r, [conv_hist, mat_hist, pk_hist, misc_hist], [5, 3, 2, 2])(r)
    # repeat calls; fail some of them half way
    pure = [s for s in steps if not s["do"].startswith("pk") and s["do"] not in ("wrap", "clone")]
    n = len(steps)
    for i in range(r.randint(1, 4)):
        if not pure:
            break
        s = dict(r.choice(pure), res=f"again{i}")
        if r.random() < 0.3:
            s = dict(s, fail=r.random())
            # not before its arguments exist
            steps.append(s)
        else:
            steps.append(s)
    if r.random() < 0.3:
        i = r.randrange(n)
        if steps[i]["do"] in ("dec", "mat", "cwt", "sp", "loss", "rec"):
            steps.insert(i, dict(steps[i], res="early", fail=r.random()))
    if r.random() < 0.25:  # malformed calls
        for s in list(steps):
            if s["do"] == "dec" and s["fn"] != "swt":
                steps.append(dict(s, mode="nonsense", bad=True, res="bad"))
                break
            # a tensor as a list of many levels makes iswt dilate by 2^levels
            if s["do"] == "rec" and s["fn"] != "swt":
                steps.append(dict(s, c="x0", bad=True, res="bad"))
                break
    yield {"op": "pu", "objs": objs, "steps": steps}


def classify(c):
    if c["op"] == "threads":
        return "threads"
    s = c["steps"][0]
    return f"{s['do']}/{s.get('fn', '')}"
