"""Optional arguments.  Every public function and class that has optional arguments is
called (1) without one of them and with each of several values for it (the specification
says which value must agree), with the other optional arguments left out or given;
(2) by a deprecated argument name, by the present name and by both; (3) with arguments
given by position or by keyword and axes given as number, tuple or list.  Results are
compared with each other."""

from .. import gen
from ..gen import pick

PROP = "C24"
COUNT = {"quick": 1800, "thorough": 25000}
ASSUMPTIONS = [
    "results are compared up to 2^-36 of the largest coefficient; the values themselves are the subject of C01-C16, C20 and C22",
]

CONV = ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3", "swt"]
REC = {"waverec": "wavedec", "waverec2": "wavedec2", "waverec3": "wavedec3", "fswaverec2": "fswavedec2", "fswaverec3": "fswavedec3", "iswt": "swt"}
MDEC = ["MatrixWavedec", "MatrixWavedec2", "MatrixWavedec3"]
MREC = ["MatrixWaverec", "MatrixWaverec2", "MatrixWaverec3"]
PACK = ["WaveletPacket", "WaveletPacket2D"]
B1 = ["construct_boundary_a", "construct_boundary_s"]
B2 = ["construct_boundary_a2", "construct_boundary_s2"]
SPARSE = ["construct_conv_matrix", "construct_conv2d_matrix", "construct_strided_conv_matrix", "construct_strided_conv2d_matrix"]
ALL = CONV + list(REC) + MDEC + MREC + PACK + B1 + B2 + SPARSE + ["cwt", "orthogonalize"]
ORTH = ["qr", "gramschmidt"]
PADS = ["full", "valid", "same", "sameshift"]


def nd_of(fn):
    for d in (3, 2):
        if str(d) in fn:
            return d
    return 1


def values(fn):
    """The optional arguments and the values tried for them."""
    nd = nd_of(fn)
    axes = {
        1: ("axis", [-1, 0, -2, 1]),
        2: ("axes", [[-2, -1], [-1, -2], [0, 1], [0, -1], [-3, -1], [-3, -2]]),
        3: ("axes", [[-3, -2, -1], [-1, -2, -3], [0, 1, 2], [-2, -3, -1], [0, -2, -1]]),
    }[nd]
    v = {}
    if fn in CONV + list(REC) + MDEC + MREC + PACK:
        v[axes[0]] = axes[1]
    if fn in CONV and fn != "swt":
        v["mode"] = gen.MODES
    if fn in CONV:
        v["level"] = [None, 1, 2]
    if fn in MDEC:
        v["level"] = [None, 1, 2]
        v["odd_coeff_padding_mode"] = gen.MODES
    if fn in MDEC + MREC + PACK + B1 + B2:
        v["orthogonalization"] = ORTH
    if fn in ("MatrixWavedec2", "MatrixWaverec2", "WaveletPacket2D"):
        v["separable"] = [True, False]
    if fn in PACK:
        v["mode"] = gen.MODES + ["boundary"]
        v["maxlevel"] = [None, 1, 2]
        v["order"] = ["freq", "natural"]
    if fn in B1 + B2:
        v["dtype"] = ["float64", "float32"]
    if fn in B1:
        v["device"] = ["cpu"]
    if fn in SPARSE:
        v["mode"] = PADS
    if fn == "construct_conv2d_matrix":
        v["fully_sparse"] = [True, False]
    if "strided" in fn:
        v["stride"] = [1, 2, 3, 4]
    if fn == "cwt":
        v["sampling_period"] = [1.0, 2.0, 0.5, 0.1]
        v["precision"] = [12, 8, 10, 13, 14]
    if fn == "orthogonalize":
        v["method"] = ORTH
    return v


def positional(fn):
    """Optional arguments that may be given by position, in the documented order."""
    if fn in MDEC or fn == "swt":
        return ["level"]
    if fn == "cwt":
        return ["sampling_period", "precision"]
    if fn in B1:
        return ["device", "orthogonalization", "dtype"]
    if fn == "construct_boundary_a2":
        return ["orthogonalization", "dtype"]
    if "strided" in fn:
        return ["stride"]
    if fn == "orthogonalize":
        return ["method"]
    return []


def text(v):
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (list, tuple)):
        return ",".join(map(str, v))
    return str(v)


def base_case(r, fn):
    nd = nd_of(fn)
    mat = fn in MDEC + MREC
    wn = pick(r, ["haar", "db2", "db3", "sym4", "bior2.2", "rbio1.3"] if fn in CONV or fn in REC else ["haar", "db2", "db3", "sym4"])
    L = {"haar": 2, "db2": 4, "db3": 6, "sym4": 8, "bior2.2": 6, "rbio1.3": 6}[wn]
    lo, hi = {1: (18, 40), 2: (9, 14), 3: (8, 10)}[nd]
    if fn in PACK:
        lo, hi = {1: (16, 33), 2: (9, 13)}[nd]
        if nd == 2:
            wn = pick(r, ["haar", "db2"])
    if mat and nd == 3:
        wn, lo, hi = pick(r, ["haar", "db2"]), 8, 9
    if mat and nd == 2:
        wn, lo, hi = pick(r, ["haar", "db2", "db3"]), 8, 12
    sizes = [r.randint(lo, hi) for _ in range(nd + 1)]
    if fn in ("swt", "iswt"):
        sizes = [4 * r.randint(5, 9) for _ in range(2)]
    if fn in MREC:
        sizes = [4 * ((s + 3) // 4) for s in sizes]
        sizes[0] = sizes[0] if r.random() < 0.7 else 8
    case = {"op": "opt", "fn": fn, "wn": wn, "dt": pick(r, ["float64", "float32"]), "shape": sizes, "salt": r.randint(1, 10**6), "wf": pick(r, ["name", "pywt", "tensor"], [2, 2, 1])}
    if fn in B1 + B2 + ["orthogonalize"]:
        case["shape"] = [2 * r.randint(4, 12)] if nd == 1 else [2 * r.randint(4, 6), 2 * r.randint(4, 6)]
        case["wf"] = pick(r, ["name", "pywt"])
    if fn in SPARSE:
        case["shape"] = [r.randint(5, 12) for _ in range(nd)]
        case["fshape"] = [r.randint(2, 5) for _ in range(nd)]
    if fn == "cwt":
        case.update(wn=pick(r, ["mexh", "morl", "gaus2", "cmor1.5-1.0", "shan1.5-1.0", "haar", "db3"]), shape=[2, 40], scales=[pick(r, [2.0, 3.0, 5.5]) for _ in range(2)], dt="float64")
    return case


def given(r, fn, skip=()):
    v = values(fn)
    kw = {}
    for k in v:
        if k in skip or r.random() < 0.55:
            continue
        kw[k] = pick(r, v[k])
    if fn in PACK and kw.get("maxlevel", 0) is None:
        kw["maxlevel"] = 1
    return kw


def make(r, tier):
    fn = pick(r, ALL)
    c = base_case(r, fn)
    v = values(fn)
    k = pick(r, ["default", "alias", "spell"], [6, 2, 2])
    if k == "alias":
        fn = pick(r, MDEC + MREC + PACK + B1 + B2)
        c = base_case(r, fn)
        kw = given(r, fn, ("orthogonalization",))
        if fn in PACK:
            kw["mode"] = pick(r, ["boundary", "boundary", "zero"])
            kw.setdefault("maxlevel", pick(r, [1, 2]))
        c.update(k="alias", alias="boundary_orthogonalization" if fn in PACK else "boundary", v=pick(r, ORTH + ["nonsense"], [4, 4, 1]), kw=kw)
    elif k == "spell":
        fn = pick(r, [f for f in ALL if positional(f) or f in REC or f in PACK or f in MREC or f.startswith("fs")])
        c = base_case(r, fn)
        kw = given(r, fn)
        args = [a for a in ("axis", "axes") if a in values(fn) and fn not in ("wavedec", "wavedec2", "wavedec3")]
        if positional(fn):
            args.append("positional")
        arg = pick(r, args)
        if arg in ("axis", "axes"):
            kw[arg] = pick(r, values(fn)[arg])
        else:
            n = r.randint(1, len(positional(fn)))
            for a in positional(fn)[:n]:
                kw[a] = pick(r, values(fn)[a])
            for a in positional(fn)[n:]:
                kw.pop(a, None)
            c["npos"] = n
        if fn in PACK:
            kw.setdefault("maxlevel", pick(r, [1, 2]))
        c.update(k="spell", arg=arg, kw=kw)
    else:
        arg = pick(r, list(v))
        kw = given(r, fn, (arg,))
        if fn in PACK:
            if arg == "orthogonalization":
                kw["mode"] = "boundary"
            if arg != "maxlevel":
                kw.setdefault("maxlevel", pick(r, [1, 2]))
        c.update(k="default", arg=arg, kw=kw)
    yield c


# ------------------------------------------------------------------- execution
def call(case, kw, pos=0):
    """One call of the library; returns a list of tensors."""
    import numpy as np
    import ptwt
    import ptwt.matmul_transform as m1
    import ptwt.matmul_transform_2 as m2
    import ptwt.sparse_math as sm
    import torch

    from ..core import build_bank, dtype_of, flat_coeffs
    from ..execute import noise

    fn, dt = case["fn"], case["dt"]
    nd = nd_of(fn)
    kw = {k: tuple(v) if k == "axes" and isinstance(v, list) and not case.get("lists") else v for k, v in kw.items()}
    if "dtype" in kw:
        kw["dtype"] = dtype_of(kw["dtype"])
    order = {"order": kw.pop("order")} if "order" in kw else {}
    ps = [kw.pop(a) for a in positional(fn)[:pos]]
    w = None if fn in SPARSE or fn == "cwt" else build_bank(case["wn"], case["wf"], dt)
    shape = list(case["shape"])
    dense = lambda t: [t.to_dense() if t.is_sparse else t]
    if fn in SPARSE:
        f = noise(case["salt"], case["fshape"], dt)
        return dense(getattr(sm, fn)(f, *shape, *ps, **kw))
    if fn in B1:
        return dense(getattr(m1, fn)(w, *shape, *ps, **kw))
    if fn in B2:
        return dense(getattr(m2, fn)(w, *shape, "cpu", *ps, **kw))
    if fn == "orthogonalize":
        a = m1._construct_a(w, shape[0], dtype=dtype_of(dt)) if hasattr(m1, "_construct_a") else noise(case["salt"], shape * 2, dt).to_sparse()
        L = {"haar": 2, "db2": 4, "db3": 6, "sym4": 8}[case["wn"]]
        return dense(m1.orthogonalize(a, L, *ps, **kw))
    x = noise(case["salt"], shape, dt)
    if fn == "cwt":
        c, f = ptwt.cwt(x, np.array(case["scales"]), case["wn"], *ps, **kw)
        return [c, torch.as_tensor(np.asarray(f)).double()]
    if fn in CONV:
        return flat_coeffs(getattr(ptwt, fn)(x, w, *ps, **kw))
    if fn in REC:
        k2 = {"axis" if nd == 1 else "axes": tuple(case["cax"]) if nd > 1 else case["cax"][0]} if case.get("cax") else {}
        if fn == "waverec" and not k2:
            k2 = {"axis": -1}
        c = getattr(ptwt, REC[fn])(x, build_bank(case["wn"], "pywt", dt), level=2 if nd < 3 else 1, **k2)
        return [getattr(ptwt, fn)(c, w, **kw)]
    if fn in MDEC:
        return flat_coeffs(getattr(ptwt, fn)(w, *ps, **kw)(x))
    if fn in MREC:
        k2 = {"axis" if nd == 1 else "axes": tuple(case["cax"]) if nd > 1 else case["cax"][0]} if case.get("cax") else {}
        c = getattr(ptwt, MDEC[nd - 1])(w, 2 if nd < 3 else 1, orthogonalization="qr", **k2)(x)
        return [getattr(ptwt, fn)(w, **kw)(c)]
    wp = getattr(ptwt, fn)(x, w, **kw)
    lvl = min(2, wp.maxlevel)
    keys = wp.get_level(lvl, **order)
    flat = [k if isinstance(k, str) else "".join(k) for row in keys for k in (row if isinstance(row, list) else [row])]
    out = [torch.tensor([[ord(ch) for ch in k] for k in flat]).double(), torch.tensor([float(wp.maxlevel)]).double()]
    out += [wp[k] for k in sorted(flat)[:6]]
    if case.get("arg") != "order":
        wp.initialize(flat)
        out.append(wp.reconstruct()[""])
    return out


def run(case):
    import warnings

    from ..core import outcome
    from ..execute import deviation, quiet

    kw = dict(case["kw"])
    bits = 40 if case["dt"] == "float64" and kw.get("dtype") != "float32" else 18
    if case["fn"] in B1 + B2 and case["k"] != "default":
        bits = 40 if kw.get("dtype", "float64") == "float64" else 18
    # coefficients of the inverse come from the default axes or from others
    case = dict(case)
    if case["fn"] in list(REC) + MREC and case["k"] != "default":
        a = kw.get("axis", kw.get("axes"))
        case["cax"] = [] if a is None else a if isinstance(a, list) else [a]
    ev = {"id": case["id"], "op": "opt", "k": case["k"], "fn": case["fn"], "tol": 16}

    def get(kw, pos=0, **extra):
        return outcome(lambda: {"st": "ok", "ts": quiet(lambda: call({**case, **extra}, kw, pos))})

    def rel(a, first):
        if a["st"] != "ok":
            return {"st": "err", "exc": a["exc"], "err": -1}
        return {"st": "ok", "exc": "", "err": deviation(first["ts"], a["ts"], bits) if first["st"] == "ok" else -1}

    if case["k"] == "default":
        arg = case["arg"]
        ref = get(kw)
        ev.update(arg=arg, omit={"st": ref["st"], "exc": ref.get("exc", "")})
        ev["alts"] = [{"v": text(v), **rel(get({**kw, arg: v}), ref)} for v in values(case["fn"])[arg]]
        return ev
    if case["k"] == "alias":
        old, new = {case["alias"]: case["v"]}, {"orthogonalization": case["v"]}
        ref = get({**kw, **new})
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            out = get({**kw, **old})
        both = get({**kw, **old, **new})
        ev.update(alias=case["alias"], ref=ref["st"], out=rel(out, ref), warn=int(any(issubclass(c.category, DeprecationWarning) and case["alias"] in str(c.message) for c in caught)))
        ev["both"] = {"st": both["st"], "exc": both.get("exc", "")}
        return ev
    arg = case["arg"]
    ref = get(kw)
    alts = []
    if arg == "positional":
        for n in range(1, case["npos"] + 1):
            alts.append({"v": f"{n} by position", **rel(get(kw, n), ref)})
    else:
        v = kw[arg]
        if isinstance(v, int):
            forms = [("tuple", (v,)), ("list", [v])]
        else:
            forms = [("list", list(v)), ("tuple", tuple(v))]
        for name, f in forms:
            alts.append({"v": name, **rel(get({**kw, arg: f}, lists=True), ref)})
    ev.update(arg=arg, ref=ref["st"], exc=ref.get("exc", ""), alts=alts)
    return ev


def classify(c):
    return f"{c['k']}/{c['fn']}/{c.get('arg', c.get('alias'))}"
