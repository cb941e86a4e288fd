"""Execute a case against the real code and record the observed call."""

from __future__ import annotations

import math

from . import core

from .core import (
    build,
    build_bank,
    build_coeffs,
    dtype_of,
    enc,
    enc_bank,
    enc_coeffs,
    enc_coeffs_raw,
    flat_coeffs,
    outcome,
    raw,
)

OPS = {}


def op(name):
    def deco(f):
        OPS[name] = f
        return f

    return deco


def execute(case):
    return OPS[case["op"]](case)


NDIM = {
    "wavedec": 1,
    "waverec": 1,
    "swt": 1,
    "iswt": 1,
    "wavedec2": 2,
    "waverec2": 2,
    "fswavedec2": 2,
    "fswaverec2": 2,
    "wavedec3": 3,
    "waverec3": 3,
    "fswavedec3": 3,
    "fswaverec3": 3,
}
INVERSE = {
    "wavedec": "waverec",
    "wavedec2": "waverec2",
    "wavedec3": "waverec3",
    "fswavedec2": "fswaverec2",
    "fswavedec3": "fswaverec3",
    "swt": "iswt",
}


def axes_kw(fn, axes):
    """Keyword arguments for the axes of a case ([] = not passed)."""
    if not axes:
        return {}
    if NDIM[fn] == 1:
        return {"axis": axes[0]}
    return {"axes": tuple(axes)}


def call_dec(case, x, w):
    import ptwt

    fn = case["fn"]
    kw = axes_kw(fn, case.get("axes", []))
    if case["level"] >= 0:
        kw["level"] = case["level"]
    if fn != "swt" and case.get("mode"):
        kw["mode"] = case["mode"]
    return getattr(ptwt, fn)(x, w, **kw)


def call_rec(fn, c, w, axes):
    import ptwt

    return getattr(ptwt, fn)(c, w, **axes_kw(fn, axes))


def base(case):
    return {
        "id": case["id"],
        "op": case["op"],
        "fn": case["fn"],
        "axes": case.get("axes", []),
        "w": enc_bank(case["w"]),
        "dt": case["dt"],
    }


@op("dec")
def _dec(case):
    x = build(case["x"], case["dt"], case.get("lay", "c"))
    w = build_bank(case["w"], case.get("wf", "pywt"), case["dt"])
    ev = base(case)
    ev.update(mode=case.get("mode") or "reflect", level=case["level"], x=raw(case["x"]))
    if case.get("warm"):
        core.warm(case, w, [x], lambda v: quiet(lambda: call_dec(case, x, v)))
    ev["out"] = outcome(lambda: {"st": "ok", **enc_coeffs(call_dec(case, x, w))})
    return ev


@op("rec")
def _rec(case):
    c = build_coeffs(case["c"], case["dt"], case.get("lay", "c"))
    w = build_bank(case["w"], case.get("wf", "pywt"), case["dt"])
    ev = base(case)
    ev["c"] = enc_coeffs_raw(case["c"])
    if case.get("warm"):
        core.warm(case, w, flat_coeffs(c), lambda v: quiet(lambda: call_rec(case["fn"], c, v, case.get("axes", []))))
    ev["out"] = outcome(
        lambda: {"st": "ok", "v": enc(call_rec(case["fn"], c, w, case.get("axes", [])))}
    )
    return ev


@op("rt")
def _rt(case):
    x = build(case["x"], case["dt"], case.get("lay", "c"))
    w = build_bank(case["w"], case.get("wf", "pywt"), case["dt"])
    ev = base(case)
    ev.update(mode=case.get("mode") or "reflect", level=case["level"], x=raw(case["x"]))

    if case.get("warm"):
        core.warm(case, w, [x], lambda v: quiet(lambda: call_rec(INVERSE[case["fn"]], call_dec(case, x, v), v, case.get("axes", []))))

    def run():
        c = call_dec(case, x, w)
        return {"st": "ok", "v": enc(call_rec(INVERSE[case["fn"]], c, w, case.get("axes", [])))}

    ev["out"] = outcome(run)
    return ev


# ------------------------------------------------------------- packet trees
def pk_keys(wp):
    return [list(k) for k in wp.keys()]


def pk_new(st, held):
    import ptwt

    w = build_bank(st["w"], st.get("wf", "pywt"), st["dt"])
    kw = {"mode": st["mode"]} if st.get("mode") else {}
    if st["axes"]:
        if st["nd"] == 1:
            kw["axis"] = st["axes"][0]
        else:
            kw["axes"] = tuple(st["axes"])
    if st["nd"] == 2 and st["sep"]:
        kw["separable"] = True
    if st.get("orth"):
        kw["orthogonalization"] = st["orth"]
    if st["maxlevel"] >= 0:
        kw["maxlevel"] = st["maxlevel"]
    data = build(st["x"], st["dt"], st.get("lay", "c")) if st["hasdata"] else None
    if data is not None:
        held[st["oid"]] = data
    cls = ptwt.WaveletPacket if st["nd"] == 1 else ptwt.WaveletPacket2D
    return cls(data, w, **kw)


@op("pkh")
def _pkh(case):
    """A history of calls on packet trees."""
    evs = [{"id": case["id"], "op": "reset"}]
    objs = {}
    dead = set()
    held = {}
    for st in case["steps"]:
        oid = st["oid"]
        if st["do"] == "copy" and (st["src"] in dead or st["src"] not in objs):
            dead.add(oid)  # the later steps belong to a tree that does not exist
        if oid in dead or (st["do"] not in ("new", "copy") and oid not in objs):
            continue
        ev = {"id": case["id"], "op": "pk", "oid": oid, "do": st["do"]}
        do = st["do"]
        if do == "copy":
            import copy
            import pickle

            by = {"copy": copy.copy, "deep": copy.deepcopy, "pickle": lambda t: pickle.loads(pickle.dumps(t))}[st.get("by", "copy")]
            ev["src"] = st["src"]
            held.pop(st["src"], None)  # its root is shared with the copy from now on

            def run():
                objs[oid] = by(objs[st["src"]])
                m = objs[oid].maxlevel
                return {"st": "ok", "b": -1 if m is None else int(m)}

            ev["out"] = outcome(run)
            ev["keys"] = pk_keys(objs[oid]) if oid in objs else []
            evs.append(ev)
            continue
        if do == "new":
            for k in ("nd", "axes", "sep", "dt", "hasdata", "maxlevel"):
                ev[k] = st[k]
            ev["mode"] = st.get("mode") or "reflect"
            ev["w"] = enc_bank(st["w"])
            ev["x"] = raw(st["x"]) if st["hasdata"] else {"s": [], "d": [0]}

            def run():
                objs[oid] = pk_new(st, held)
                m = objs[oid].maxlevel
                return {"st": "ok", "b": -1 if m is None else int(m)}

        else:
            wp = objs[oid]
            p = "".join(st.get("p", []))
            if do == "pop" and p not in wp:  # reading and removing: judged for stored nodes
                do = ev["do"] = "peek"
            if do in ("get", "set", "del", "has", "peek", "pop"):
                ev["p"] = st["p"]
            if do == "transform":
                ev["x"] = raw(st["x"])
                ev["maxlevel"] = st["maxlevel"]

                t = build(st["x"], st["dt"], st.get("lay", "c"))
                how = st.get("how", "")
                if how == "same" and oid in held and 0 not in held[oid].stride() and held[oid].shape == t.shape and held[oid].dtype == t.dtype:
                    # the very tensor object of the last call, with new content
                    held[oid].copy_(t)
                    t = held[oid]
                held[oid] = t

                def run():
                    kw = {"maxlevel": st["maxlevel"]} if st["maxlevel"] >= 0 else {}
                    r = wp.transform(t, **kw)
                    assert r is wp
                    return {"st": "ok", "b": int(wp.maxlevel)}

            elif do == "get":
                run = lambda: {"st": "ok", "v": enc(wp[p])}
            elif do == "set":
                ev["x"] = raw(st["x"]) if "x" in st else None
                if "x" not in st:  # same shape as the stored node
                    shp = list(wp[p].shape) if p in wp else None
                    if shp is None:
                        continue
                    n = 1
                    for s in shp:
                        n *= s
                    x = {"s": shp, "d": [((k * 7919 + st["salt"] * 31) % (2 * st["mag"] + 1)) - st["mag"] for k in range(n)]}
                    ev["x"] = raw(x)
                else:
                    x = st["x"]

                def run():
                    wp[p] = build(x, st["dt"])
                    return {"st": "ok"}

            elif do == "del":

                def run():
                    del wp[p]
                    return {"st": "ok"}

            elif do == "has":
                run = lambda: {"st": "ok", "b": bool(p in wp)}
            elif do == "peek":

                def run():
                    v = wp.get(p)
                    return {"st": "ok", "b": v is not None, "v": enc(v) if v is not None else {"s": [], "d": [], "dt": ""}}

            elif do == "pop":
                run = lambda: {"st": "ok", "v": enc(wp.pop(p))}
            elif do == "update":
                new = []
                for i, q in enumerate(st["ps"]):
                    if "".join(q) in wp and q not in [n[0] for n in new]:
                        shp = list(wp["".join(q)].shape)
                        n = math.prod(shp)
                        new.append((q, {"s": shp, "d": [((k * 7919 + (st["salt"] + i) * 31) % (2 * st["mag"] + 1)) - st["mag"] for k in range(n)]}))
                ev["ps"] = [q for q, _ in new]
                ev["xs"] = [raw(x) for _, x in new]

                def run():
                    wp.update({"".join(q): build(x, st["dt"]) for q, x in new})
                    return {"st": "ok"}

            elif do == "init":
                ev["ps"] = st["ps"]

                def run():
                    wp.initialize(["".join(q) for q in st["ps"]])
                    return {"st": "ok"}

            elif do == "rec":

                def run():
                    r = wp.reconstruct()
                    assert r is wp
                    return {"st": "ok", "v": enc(wp[""]) if "" in wp else {"s": [], "d": [], "dt": ""}}

            elif do == "dump":
                # read every stored node once more, in insertion order
                for k in list(wp.keys()):
                    e2 = {"id": case["id"], "op": "pk", "oid": oid, "do": "get", "p": list(k)}
                    e2["out"] = outcome(lambda k=k: {"st": "ok", "v": enc(wp[k])})
                    e2["keys"] = pk_keys(wp)
                    evs.append(e2)
                continue
        ev["out"] = outcome(run)
        if oid in objs:
            ev["keys"] = pk_keys(objs[oid])
        else:
            ev["keys"] = []
            evs.append(ev)
            break
        evs.append(ev)
        if ev["out"]["st"] == "err" and (do in ("rec", "init") or ev["out"]["exc"] not in ("KeyError", "ValueError")):
            dead.add(oid)
    return evs


# ------------------------------------------------------------ packet orders
@op("order")
def _order(case):
    import ptwt

    cls = ptwt.WaveletPacket if case["nd"] == 1 else ptwt.WaveletPacket2D
    ev = {k: case[k] for k in ("id", "op", "nd", "level", "order")}

    def call():
        how = case.get("how", "kw")
        if how == "default":  # the frequency order is the default
            return cls.get_level(case["level"])
        if how == "instance":
            return cls(None, "haar").get_level(case["level"], case["order"])
        if how == "direct":
            f = {(1, "freq"): lambda n: cls.get_level(n, "freq"), (1, "natural"): lambda n: cls.get_level(n, "natural")}
            if case["nd"] == 2:
                f = {(2, "freq"): cls.get_freq_order, (2, "natural"): cls.get_natural_order}
            return f[case["nd"], case["order"]](case["level"])
        return cls.get_level(case["level"], order=case["order"])

    def run():
        if case.get("warm"):  # a caller modifies the list it was given
            got = call()
            got.append("zz")
            got.reverse()
        ps = call()
        ps = [[list(p) for p in row] if isinstance(row, list) else list(row) for row in ps]
        return {"st": "ok", "ps": ps}

    ev["out"] = outcome(run)
    return ev


# ----------------------------------------------------------- sparse matrices
def trip(a, dt):
    import torch

    return torch.sparse_coo_tensor(
        torch.tensor([a["r"], a["c"]], dtype=torch.long).reshape(2, -1),
        torch.tensor([float(v) for v in a["v"]], dtype=dtype_of(dt)),
        size=tuple(a["s"]),
    )


def enc_trip(a):
    return {"s": a["s"], "r": a["r"], "c": a["c"], "v": [v % 32749 for v in a["v"]]}


@op("sp")
def _sp(case):
    import torch

    from ptwt import sparse_math as sm

    fn, dt = case["fn"], case["dt"]
    ev = {"id": case["id"], "op": "sp", "fn": fn, "dt": dt}
    for k in ("n", "mode", "stride", "h", "w", "i", "off", "rows", "cols"):
        if k in case:
            ev[k] = case[k]
    for k in ("A", "B", "R"):
        if k in case:
            ev[k] = enc_trip(case[k])
    for k in ("f", "X"):
        if k in case:
            ev[k] = raw(case[k])

    def call():
        lay = case.get("lay", "c")
        if fn == "conv1":
            f = build(case["f"], dt, lay)
            if case["stride"]:
                return sm.construct_strided_conv_matrix(f, case["n"], case["stride"], mode=case["mode"])
            return sm.construct_conv_matrix(f, case["n"], mode=case["mode"])
        if fn == "conv2":
            f = build(case["f"], dt, lay)
            if case["stride"]:
                return sm.construct_strided_conv2d_matrix(f, case["h"], case["w"], case["stride"], mode=case["mode"])
            return sm.construct_conv2d_matrix(
                f, case["h"], case["w"], mode=case["mode"], fully_sparse=case["fully"]
            )
        if fn == "kron":
            return sm.sparse_kron(trip(case["A"], dt), trip(case["B"], dt))
        if fn == "cat":
            return sm.cat_sparse_identity_matrix(trip(case["A"], dt), case["n"])
        if fn == "row":
            return sm.sparse_replace_row(trip(case["A"], dt), case["i"], trip(case["R"], dt))
        if fn == "diag":
            return sm.sparse_diag(build(case["f"], dt, lay), case["off"], case["rows"], case["cols"])
        a = trip(case["A"], dt)
        if case["dense"]:
            a = a.to_dense()
        return sm.batch_mm(a, build(case["X"], dt, lay))

    ev["out"] = outcome(lambda: {"st": "ok", "v": enc(call())})
    return ev


# -------------------------------------------------------- learnable wavelets
@op("loss")
def _loss(case):
    ev = {"id": case["id"], "op": "loss", "cls": case["cls"], "w": enc_bank(case["w"]), "dt": case["dt"], "grad": "d" in case}
    if "d" in case:
        ev["d"] = enc_bank(case["d"])

    def run():
        import torch

        w = build_bank(case["w"], case["cls"], case["dt"])
        ls = []

        def rec(name, t):
            ls.append({"n": name, "v": enc(t), "neg": bool(t.item() < 0)})
            if "d" in case:
                ps = [w.dec_lo, w.dec_hi, w.rec_lo, w.rec_hi]
                gs = torch.autograd.grad(t, ps, retain_graph=True, allow_unused=True)
                ls[-1]["gw"] = {k: enc_grad(g, q) for k, g, q in zip(("dl", "dh", "rl", "rh"), gs, ps)}

        for name in case["order"]:
            if name == "pr":
                rec(name, w.perfect_reconstruction_loss()[0])
            elif name == "alias":
                rec(name, w.alias_cancellation_loss()[0])
            elif name == "pf_alias":
                rec(name, w.pf_alias_cancellation_loss()[0])
            elif name == "orth":
                rec(name, w.rec_lo_orthogonality_loss())
            elif name == "filt_orth":
                rec(name, w.filt_bank_orthogonality_loss())
            elif name == "product":
                rec(name, w.product_filter_loss())
            else:
                rec(name, w.wavelet_loss())
        return {"st": "ok", "ls": ls}

    ev["out"] = outcome(run)
    return ev


# ------------------------------------------------------------- default levels
MATRIX = {"matrix1": 1, "matrix2": 2, "matrix2s": 2, "matrix3": 3}


def noise(salt, shape, dt="float64"):
    """Reproducible real data."""
    import torch

    g = torch.Generator().manual_seed(salt)
    return torch.randn(shape, generator=g, dtype=torch.float64).to(dtype_of(dt))


def digest(ts):
    import zlib

    h = 0
    for t in ts:
        h = zlib.crc32(str(tuple(t.shape)).encode() + t.detach().contiguous().numpy().tobytes(), h)
    return [h >> 16, h & 0xFFFF]


def matrix_obj(fn, w, level, axes=(), inverse=False, orth="qr", mode=None):
    import ptwt

    kw = {"orthogonalization": orth}
    if axes:
        kw["axis" if fn == "matrix1" else "axes"] = axes[0] if fn == "matrix1" else tuple(axes)
    if fn in ("matrix2", "matrix2s"):
        kw["separable"] = fn == "matrix2s"
    if mode:
        kw["odd_coeff_padding_mode"] = mode
    dec = {"matrix1": ptwt.MatrixWavedec, "matrix2": ptwt.MatrixWavedec2, "matrix2s": ptwt.MatrixWavedec2, "matrix3": ptwt.MatrixWavedec3}
    rec = {"matrix1": ptwt.MatrixWaverec, "matrix2": ptwt.MatrixWaverec2, "matrix2s": ptwt.MatrixWaverec2, "matrix3": ptwt.MatrixWaverec3}
    if inverse:
        return rec[fn](w, **kw)
    return dec[fn](w, level, **kw)


@op("lvl")
def _lvl(case):
    import ptwt

    fn = case["fn"]
    ev = {k: case[k] for k in ("id", "op", "fn", "axes", "level0")}
    ev["s"] = case["shape"]
    w = build_bank(case["wn"], case["wf"], case["dt"])
    import pywt

    ev["L"] = len(pywt.Wavelet(case["wn"]).dec_lo) if isinstance(case["wn"], str) else len(case["wn"]["dl"])
    x = noise(case["salt"], case["shape"], case["dt"])

    def run():
        if fn in MATRIX:
            o = matrix_obj(fn, w, None, case["axes"])
            for s in case["before"]:
                o(noise(1, s, case["dt"]))
            c = o(x)
            n = len(c) - 1
            other = digest(flat_coeffs(matrix_obj(fn, w, n, case["axes"])(x))) if n > 0 else []
            return {"st": "ok", "n": n, "g": digest(flat_coeffs(c)), "h": other}
        if fn.startswith("packet"):
            cls = ptwt.WaveletPacket if fn == "packet1" else ptwt.WaveletPacket2D
            kw = {"mode": case["mode"]}
            if case["axes"]:
                kw.update({"axis": case["axes"][0]} if fn == "packet1" else {"axes": tuple(case["axes"])})
            if case["before"]:
                wp = cls(noise(1, case["before"][0], case["dt"]), w, **kw)
                for s in case["before"][1:]:
                    wp.transform(noise(1, s, case["dt"]), maxlevel=1)
                wp.transform(x)
            else:
                wp = cls(x, w, **kw)
            n = wp.maxlevel
            p = "ad" * n
            v = cls(x, w, maxlevel=n, **kw)
            return {"st": "ok", "n": n, "g": digest([wp[p[:n]]]), "h": digest([v[p[:n]]])}
        c0 = dict(case, level=-1)
        c = call_dec(c0, x, w)
        n = len(c) - 1
        c1 = dict(case, level=n)
        return {"st": "ok", "n": n, "g": digest(flat_coeffs(c)), "h": digest(flat_coeffs(call_dec(c1, x, w)))}

    ev["out"] = outcome(run)
    return ev


# ----------------------------------------------------- boundary-filter objects
def mat_base(case):
    ev = base(case)
    ev["mode"] = case.get("mode") or "zero"
    return ev


def quiet(f):
    """Run f with the library's warnings on stderr suppressed."""
    import contextlib
    import io

    with contextlib.redirect_stderr(io.StringIO()):
        return f()


@op("mdec")
def _mdec(case):
    ev = mat_base(case)
    ev.update(level=case["level"], x=raw(case["x"]))
    w = build_bank(case["w"], case.get("wf", "pywt"), case["dt"])
    x = build(case["x"], case["dt"], case.get("lay", "c"))

    def run():
        o = matrix_obj(
            case["fn"], w, None if case["level"] < 0 else case["level"], case["axes"], orth=case["orth"], mode=case["mode"]
        )
        return {"st": "ok", **enc_coeffs(quiet(lambda: o(x)))}

    ev["out"] = outcome(run)
    return ev


@op("mrec")
def _mrec(case):
    ev = mat_base(case)
    ev["c"] = enc_coeffs_raw(case["c"])
    w = build_bank(case["w"], case.get("wf", "pywt"), case["dt"])
    c = build_coeffs(case["c"], case["dt"], case.get("lay", "c"))

    def run():
        o = matrix_obj(case["fn"], w, None, case["axes"], inverse=True, orth=case["orth"])
        return {"st": "ok", "v": enc(quiet(lambda: o(c)))}

    ev["out"] = outcome(run)
    return ev


# ------------------------------------------- axes, batch and layout (real data)
def fx(t, bits=18):
    """Fixed-point encoding of a real tensor."""
    import numpy as np
    import torch

    a = t.detach()
    if a.is_complex():
        a = torch.view_as_real(a.resolve_conj().contiguous())
    a = a.double().cpu().numpy()
    with np.errstate(all="ignore"):
        q = np.rint(a * 2.0**bits)
        q = np.where(np.isfinite(q) & (np.abs(q) < 2.0**30), q, 2.0**30)
    return {"s": [int(v) for v in a.shape], "d": [int(v) for v in q.reshape(-1)]}


def bands(c, e=fx):
    """Coefficient structure -> named bands."""
    out = []
    for j, d in enumerate(c):
        if isinstance(d, dict):
            out += [{"k": f"{j}:{k}", "v": e(v)} for k, v in d.items()]
        elif isinstance(d, tuple):
            out += [{"k": f"{j}:{'HVD'[i]}", "v": e(v)} for i, v in enumerate(d)]
        else:
            out.append({"k": f"{j}", "v": e(d)})
    return out


def relayout(t, lay):
    """The same tensor in another memory layout."""
    import torch

    if lay == "c" or t.dim() == 0:
        return t.contiguous()
    if lay == "t":
        perm = list(range(t.dim()))[::-1]
        return t.permute(perm).contiguous().permute(perm)
    if lay == "s":
        big = torch.full([2 * s + 1 for s in t.shape], 7.0, dtype=t.dtype)
        v = big[tuple(slice(1, 2 * s + 1, 2) for s in t.shape)]
        v.copy_(t)
        return v
    if lay == "e":  # broadcast over the first dimension where possible
        return t
    flat = torch.full([t.numel() + 5], 3.0, dtype=t.dtype)
    v = flat[4 : 4 + t.numel()].view(t.shape)
    v.copy_(t)
    return v


def map_coeffs(c, f):
    """Apply f to every tensor of a coefficient structure."""
    import ptwt

    out = []
    for d in c:
        if isinstance(d, dict):
            out.append({k: f(v) for k, v in d.items()})
        elif isinstance(d, tuple):
            out.append(ptwt.WaveletDetailTuple2d(*[f(v) for v in d]))
        else:
            out.append(f(d))
    return out if isinstance(c, list) else tuple(out)


def split_batch(t, axes):
    """Unbatched contiguous tensors, transformed axes last in the given order."""
    rank = t.dim()
    ax = [a % rank for a in axes]
    bd = [i for i in range(rank) if i not in ax]
    p = t.permute(bd + ax)
    k = len(bd)
    return [v.contiguous() for v in p.reshape([-1] + list(p.shape[k:]))] if k else [p.contiguous()]


@op("ax")
def _ax(case):
    """One call with axes/batch/layout and the calls on the single batch entries."""
    import ptwt

    fn, dt, axes = case["fn"], case["dt"], case["axes"]
    nd = case["nd"]
    x = noise(case["salt"], case["shape"], dt)
    xa = axes or list(range(-nd, 0))
    w = case["wn"]

    def wav():
        return build_bank(w, case.get("wf", "name"), dt)

    def call(t, ax):
        if fn.startswith("matrix"):
            o = matrix_obj(fn, wav(), case["level"], ax, orth=case["orth"], mode=case["mode"])
            c = quiet(lambda: o(t))
            if not case["inverse"]:
                return bands(c)
            c = map_coeffs(c, lambda v: relayout(v, case["lay"]) if ax else v)
            r = matrix_obj(fn, wav(), None, ax, inverse=True, orth=case["orth"])
            return [{"k": "x", "v": fx(quiet(lambda: r(c)))}]
        if fn.startswith("packet"):
            cls = ptwt.WaveletPacket if nd == 1 else ptwt.WaveletPacket2D
            kw = {"axis": ax[0]} if ax and nd == 1 else {"axes": tuple(ax)} if ax else {}
            if nd == 2:
                kw["separable"] = case["sep"]
            wp = cls(t, wav(), mode=case["mode"], maxlevel=case["level"], **kw)
            out = [{"k": p, "v": fx(wp[p])} for p in case["paths"]]
            if case["inverse"]:
                wp.reconstruct()
                out.append({"k": "x", "v": fx(wp[""])})
            return out
        if fn == "cwt":
            c, f = ptwt.cwt(t, case["scales"], w, precision=case["precision"])
            # one band per scale; complex rows carry their parts in the last axis
            return [{"k": f"{k}{p}", "v": fx(v)} for k in range(len(c)) for p, v in (("r", c[k].real), ("i", c[k].imag if c.is_complex() else c[k] * 0))]
        kw = axes_kw(fn, ax)
        if fn == "swt":
            return bands(ptwt.swt(t, wav(), level=case["level"], **kw))
        c = getattr(ptwt, fn)(t, wav(), level=case["level"], mode=case["mode"], **kw)
        if not case["inverse"]:
            return bands(c)
        c = map_coeffs(c, lambda v: relayout(v, case["lay"]) if ax else v)
        return [{"k": "x", "v": fx(getattr(ptwt, INVERSE[fn])(c, wav(), **kw))}]

    ev = {"id": case["id"], "op": "ax", "fn": fn, "s": case["shape"], "axes": xa, "tol": case["tol"]}
    parts = [call(p, []) for p in split_batch(x, xa)]
    ev["parts"] = parts
    ev["out"] = outcome(lambda: {"st": "ok", "bands": call(relayout(x, case["lay"]), axes)})
    return ev


# -------------------------------- orthogonality and inversion of boundary filters
def limbs(m):
    """Matrix entries in fixed point with 24 fractional bits, two limbs."""
    import numpy as np

    dt = str(m.dtype).replace("torch.", "")
    if m.is_sparse or m.layout is not __import__("torch").strided:
        m = m.to_dense()
    a = m.detach().double().numpy()
    with np.errstate(all="ignore"):
        q = np.rint(a * 2.0**24)
        q = np.where(np.isfinite(q) & (np.abs(q) < 2.0**27), q, 2.0**27).astype(np.int64)
    return {"s": list(a.shape), "dt": dt, "hi": (q >> 12).reshape(-1).tolist(), "lo": (q & 4095).reshape(-1).tolist()}


def flen_of(w):
    import pywt

    return len(pywt.Wavelet(w).dec_lo) if isinstance(w, str) else len(w["dl"])


@op("bmat")
def _bmat(case):
    from ptwt.matmul_transform import construct_boundary_a, construct_boundary_s
    from ptwt.matmul_transform_2 import construct_boundary_a2, construct_boundary_s2

    w = build_bank(case["wn"], case["wf"], case["dt"])
    dt = dtype_of(case["dt"])
    sz = case["sizes"]
    ev = {"id": case["id"], "op": "bmat", "fn": case["fn"], "dt": case["dt"], "tol": case["tol"]}
    n = 1
    for s in sz:
        n *= s
    ev["n"] = n

    def run():
        if case["fn"] == "op":  # operators published by the objects
            nd = len(sz)
            fn = "matrix1" if nd == 1 else "matrix2"
            a = matrix_obj(fn, w, case["level"], orth=case["orth"])
            s = matrix_obj(fn, w, None, inverse=True, orth=case["orth"])
            s(a(noise(5, sz, case["dt"])))
            return {"st": "ok", "A": limbs(a.sparse_fwt_operator), "S": limbs(s.sparse_ifwt_operator)}
        if len(sz) == 1:
            a = construct_boundary_a(w, sz[0], orthogonalization=case["orth"], dtype=dt)
            s = construct_boundary_s(w, sz[0], orthogonalization=case["orth"], dtype=dt)
        else:
            a = construct_boundary_a2(w, sz[0], sz[1], "cpu", orthogonalization=case["orth"], dtype=dt)
            s = construct_boundary_s2(w, sz[0], sz[1], "cpu", orthogonalization=case["orth"], dtype=dt)
        return {"st": "ok", "A": limbs(a), "S": limbs(s)}

    ev["out"] = outcome(lambda: quiet(run))
    return ev


@op("mrt")
def _mrt(case):
    """Analysis object, then synthesis object."""
    w = build_bank(case["wn"], case["wf"], case["dt"])
    x = build(case["x"], case["dt"], case.get("lay", "c"))
    ev = {k: case[k] for k in ("id", "op", "fn", "axes", "dt", "level")}
    ev.update(x=raw(case["x"]), xi=case["x"]["d"], L=flen_of(case["wn"]))

    def run():
        a = matrix_obj(case["fn"], w, None if case["level"] < 0 else case["level"], case["axes"], orth=case["orth"], mode=case["mode"])
        s = matrix_obj(case["fn"], w, None, case["axes"], inverse=True, orth=case["orth"])
        c = a(x)
        en = sum(float((t.double() ** 2).sum()) for t in flat_coeffs(c))
        en /= core.SCALE**2
        en = round(en) if abs(en - round(en)) < 0.1 else -1
        return {"st": "ok", "n": len(c) - 1, "en": en, "v": enc(s(c))}

    ev["out"] = outcome(lambda: quiet(run))
    return ev


@op("mop")
def _mop(case):
    """Published sparse operator against the coefficients of the object."""
    import torch

    fn, nd = case["fn"], MDIM_OF[case["fn"]]
    w = build_bank(case["wn"], case["wf"], case["dt"])
    x = noise(case["salt"], case["shape"], case["dt"])
    ev = {"id": case["id"], "op": "mop", "fn": fn, "axes": [], "s": case["shape"], "L": flen_of(case["wn"]), "level": case["level"], "tol": case["tol"]}
    a = matrix_obj(fn, w, None if case["level"] < 0 else case["level"], orth=case["orth"], mode=case["mode"])
    for s in case["before"]:
        quiet(lambda: a(noise(3, s, case["dt"])))
    ev["bands"] = bands(quiet(lambda: a(x)))
    flat = x.reshape([-1] + case["shape"][-nd:])
    ev["nb"] = len(flat)
    if nd == 2:
        flat = flat.transpose(-2, -1)
    flat = flat.reshape(len(flat), -1)

    def run():
        m = a.sparse_fwt_operator
        if m.shape[1] != flat.shape[1]:
            return {"st": "ok", "v": {"s": [-1], "d": []}}
        return {"st": "ok", "v": fx(torch.sparse.mm(m, flat.T))}

    ev["out"] = outcome(run)
    return ev


@op("mopi")
def _mopi(case):
    """Published sparse operator of a synthesis object against what the object restores."""
    import torch

    fn, nd = case["fn"], MDIM_OF[case["fn"]]
    w = build_bank(case["wn"], case["wf"], case["dt"])
    s = matrix_obj(fn, w, None, inverse=True, orth=case["orth"])

    def coeffs(salt, shape):
        a = matrix_obj(fn, w, case["level"], orth=case["orth"], mode=case["mode"])
        return quiet(lambda: a(noise(salt, shape, case["dt"])))

    for shape in case["before"]:
        quiet(lambda: s(coeffs(3, shape)))
    ev = {"id": case["id"], "op": "mopi", "fn": fn, "L": flen_of(case["wn"]), "tol": case["tol"], "J": -1, "s": [0] * nd, "nb": 0, "r": fx(torch.zeros([1] * nd))}
    if not case["called"] and not case["before"]:
        ev["out"] = outcome(lambda: {"st": "ok", "v": fx(s.sparse_ifwt_operator)})
        return ev
    c = coeffs(case["salt"], case["shape"])
    r = quiet(lambda: s(c))
    ev.update(J=len(c) - 1, r=fx(r), s=[2 * n for n in (c[-1] if nd == 1 or len(c) == 1 else c[-1][0]).shape[-nd:]])
    cols = []
    for t in flat_coeffs(c):
        t = t.reshape([-1] + list(t.shape[-nd:]))
        ev["nb"] = len(t)
        cols.append((t.transpose(-2, -1) if nd == 2 else t).reshape(len(t), -1))
    flat = torch.cat(cols, -1)

    def run():
        m = s.sparse_ifwt_operator
        if m.shape[1] != flat.shape[1]:
            return {"st": "ok", "v": {"s": [-1], "d": []}}
        return {"st": "ok", "v": fx(torch.sparse.mm(m, flat.T))}

    ev["out"] = outcome(run)
    return ev


MDIM_OF = {"matrix1": 1, "matrix2": 2, "matrix2s": 2, "matrix3": 3}


# --------------------------------------------------- histories of cached objects
class Injected(RuntimeError):
    pass


def fault_mode(k):
    """Torch function mode that fails at the k-th torch operation.

    Reading an attribute (shape, length, dtype, device) or switching the gradient mode is no
    operation: it cannot fail.
    """
    from torch.overrides import TorchFunctionMode

    class Mode(TorchFunctionMode):
        n = 0

        def __torch_function__(self, func, types, args=(), kwargs=None):
            counts = getattr(func, "__name__", "") not in ("__get__", "__len__", "dim", "size", "_set_grad_enabled", "set_grad_enabled")
            self.n += counts
            if self.n == k and counts:
                raise Injected("injected failure")
            return func(*args, **(kwargs or {}))

    return Mode()


@op("hist")
def _hist(case):
    """Interleaved calls of several boundary-filter objects, some failing."""

    def make(o):
        w = build_bank(o["w"], o["wf"], "float64" if o["wf"] != "tensor" else o["wdt"])
        return matrix_obj(o["fn"], w, None if o["level"] < 0 else o["level"], o["axes"], inverse=o["inverse"], orth=o["orth"], mode=None if o["inverse"] else o["mode"])

    objs = [make(o) for o in case["objs"]]
    specs = list(case["objs"])
    evs = []
    for st in case["steps"]:
        o = specs[st["o"]]
        if st["bad"] == "copy":
            import copy
            import pickle

            ob = objs[st["o"]]
            objs.append(copy.deepcopy(ob) if st["kind"] == "deep" else pickle.loads(pickle.dumps(ob)))
            specs.append(o)
            continue
        obj = objs[st["o"]]
        inv = o["inverse"]
        if inv:
            arg = lambda: build_coeffs(st["c"], st["dt"])
        else:
            arg = lambda: build(st["x"], st["dt"])
        if st["bad"] != "no":
            fresh = make(o)
            a = arg()
            if st["bad"] == "early":
                a = map_coeffs(a, lambda v: v.to(dtype_of("int64"))) if inv else a.to(dtype_of("int64"))
                outcome(lambda: quiet(lambda: obj(a)))
                continue
            m = fault_mode(0)
            with m:
                outcome(lambda: quiet(lambda: fresh(a)))
            k = max(1, m.n - int(st["frac"] * 8)) if st["bad"] == "late" else 1 + int(st["frac"] * m.n)
            with fault_mode(k):
                outcome(lambda: quiet(lambda: obj(a)))
            continue
        ev = {"id": case["id"], "op": "mcall", "inv": inv, "fn": o["fn"], "axes": o["axes"], "w": enc_bank(o["w"]), "dt": st["dt"], "mode": o["mode"], "level": o["level"]}
        if inv:
            ev["c"] = enc_coeffs_raw(st["c"])
        else:
            ev["x"] = raw(st["x"])

        def call(ob, a):
            import torch

            if st.get("ctx", "plain") == "plain":
                return quiet(lambda: ob(a))
            with torch.no_grad() if st["ctx"] == "nograd" else torch.inference_mode():
                return quiet(lambda: ob(a))

        def run(ob):
            import torch

            a = arg()
            leaves = flat_coeffs(a) if inv else [a]
            if st.get("grad"):
                for t in leaves:
                    t.requires_grad_(True)
            r = call(ob, a)
            res = [r] if inv else flat_coeffs(r)
            g = []
            if st.get("grad") and any(t.requires_grad for t in res):
                cot = [torch.arange(1, t.numel() + 1, dtype=t.dtype).reshape(t.shape) for t in res]
                g = digest([t.detach() for t in torch.autograd.grad(res, leaves, cot, allow_unused=True) if t is not None])
            if st.get("grad"):
                r = r.detach() if inv else map_coeffs(r, lambda t: t.detach())
            if inv:
                return {"st": "ok", "v": enc(r), "g": digest([r]) + g}
            return {"st": "ok", **enc_coeffs(r), "g": digest(flat_coeffs(r)) + g}

        ev["out"] = outcome(lambda: run(obj))
        f = outcome(lambda: run(make(o)))
        ev["fresh"] = {"st": f["st"], "exc": f.get("exc", ""), "g": f.get("g", [])}
        evs.append(ev)
    return evs


@op("again")
def _again(case):
    """A packet tree transformed again with other data (also after failures)."""
    import ptwt

    nd = case["nd"]
    cls = ptwt.WaveletPacket if nd == 1 else ptwt.WaveletPacket2D

    def make(x=None, **kw):
        if case["axes"]:
            kw.update({"axis": case["axes"][0]} if nd == 1 else {"axes": tuple(case["axes"])})
        if nd == 2:
            kw["separable"] = case["sep"]
        return cls(x, build_bank(case["wn"], case["wf"], "float64"), mode=case["mode"], orthogonalization=case["orth"], **kw)

    def look(wp, st):
        import torch

        ctx = st.get("ctx", "plain")
        if ctx == "plain":
            return look_at(wp, st)
        with torch.no_grad() if ctx == "nograd" else torch.inference_mode():
            return look_at(wp, st)

    def look_at(wp, st):
        import torch

        if callable(wp):
            wp = wp()
        out = []
        x = wp[""]
        for p in st["paths"]:
            out.append({"p": p, "g": digest([wp[p]])})
        if x.requires_grad and any(wp[p].requires_grad for p in st["paths"]):
            tot = sum((wp[p] * torch.arange(1, wp[p].numel() + 1, dtype=x.dtype).reshape(wp[p].shape)).sum() for p in st["paths"])
            out.append({"p": "gradient", "g": digest(torch.autograd.grad(tot, [x], retain_graph=True))})
        if st["rec"]:
            wp.initialize(wp.get_level(wp.maxlevel, "natural") if nd == 1 else wp.get_natural_order(wp.maxlevel))
            wp.reconstruct()
            out.append({"p": "", "g": digest([wp[""]])})
        return {"st": "ok", "ml": int(wp.maxlevel), "nodes": out, "keys": sorted(wp.keys())}

    evs = []
    wp = make()
    for st in case["steps"]:
        x = noise(st["salt"], st["shape"], st["dt"])
        x.requires_grad_(bool(st.get("grad")))
        ml = {"maxlevel": st["ml"]} if st["ml"] >= 0 else {}
        if st["bad"]:  # the call fails somewhere
            m = fault_mode(0)
            with m:
                outcome(lambda: quiet(lambda: look(lambda: make().transform(x, **ml), st)))
            with fault_mode(1 + int(st["frac"] * m.n)):
                outcome(lambda: quiet(lambda: look(lambda: wp.transform(x, **ml), st)))
            continue
        ev = {"id": case["id"], "op": "again"}
        ev["out"] = outcome(lambda: quiet(lambda: look(lambda: wp.transform(x, **ml), st)))
        f = outcome(lambda: quiet(lambda: look(lambda: make(x, **ml), st)))
        ev["fresh"] = {k: f.get(k, "") for k in ("st", "exc", "ml", "nodes", "keys")}
        evs.append(ev)
    return evs


# ------------------------------------------------------- forms of the wavelet
def deviation(a, b, bits, least=1e-300):
    """Largest difference of two lists of tensors, relative to the largest entry."""
    import math

    if len(a) != len(b) or any(u.shape != v.shape or u.dtype != v.dtype for u, v in zip(a, b)):
        return -1
    m = max([float(u.abs().max()) for u in a if u.numel()] + [least])
    d = max([float((u - v).abs().max()) for u, v in zip(a, b) if u.numel()] + [0.0])
    q = d / m * 2.0**bits
    return min(2**30, math.ceil(q)) if math.isfinite(q) else 2**30


@op("forms")
def _forms(case):
    import pywt

    import ptwt

    fn, dt, wn = case["fn"], case["dt"], case["wn"]
    x = noise(case["salt"], case["shape"], dt)

    def wav(form):
        if form == "obj":
            return pywt.ContinuousWavelet(wn) if wn in pywt.wavelist(kind="continuous") or "-" in wn else pywt.Wavelet(wn)
        if form.startswith(("tensor", "plain", "from")) and form[-2:] in ("64", "32"):
            return build_bank(wn, form[:-2], "float" + form[-2:])
        return build_bank(wn, form, dt)

    def call(form):
        w = wav(form)
        if fn == "cwt":
            c, f = ptwt.cwt(x, case["scales"], w)
            return [c, noise(1, [1]) * 0 + __import__("torch").as_tensor(f).double()]
        if fn in MATRIX:
            c = matrix_obj(fn, w, case["level"], orth=case["orth"])(x)
            if not case["inverse"]:
                return flat_coeffs(c)
            return [matrix_obj(fn, w, None, inverse=True, orth=case["orth"])(c)]
        if fn.startswith("packet"):
            cls = ptwt.WaveletPacket if fn == "packet1" else ptwt.WaveletPacket2D
            kw = {"separable": True} if fn == "packet2s" else {}
            wp = cls(x, w, mode=case["mode"], maxlevel=case["level"], orthogonalization=case["orth"], **kw)
            p = ("d" if fn == "packet1" else "h") * case["level"]
            out = [wp[p], wp["a"]]
            if case["inverse"]:
                wp.initialize(wp.get_level(case["level"], "natural"))
                out.append(wp.reconstruct()[""])
            return out
        c = call_dec(case, x, w)
        if case["inverse"]:
            return [call_rec(INVERSE[fn], c, w, [])]
        return flat_coeffs(c)

    if fn == "cwt":
        forms = ["name", "obj"]
    else:
        forms = (["name"] if isinstance(wn, str) else []) + ["pywt", "user", "usertuple", "tensor", "from"]
        # taps of the other precision: rounded once, or exactly representable
        if dt == "float32":
            forms += ["tensor64", "from64"]
        elif not isinstance(wn, str):
            forms.append("tensor32")
        if fn not in MATRIX and not fn.startswith("packet"):
            forms.append("plain")
            if dt == "float32":
                forms.append("plain64")
    ev = {"id": case["id"], "op": "forms", "fn": fn, "dt": dt, "tol": 16}
    first, alts = None, []
    for f in forms:

        def run(f=f):
            ts = quiet(lambda: call(f))
            return {"st": "ok", "ts": ts}

        o = outcome(run)
        if o["st"] == "ok":
            first = first if first is not None else o["ts"]
            alts.append({"form": f, "st": "ok", "exc": "", "err": deviation(first, o["ts"], 44 if dt == "float64" else 21)})
        else:
            alts.append({"form": f, "st": "err", "exc": o["exc"], "err": -1})
    ev["alts"] = alts
    return ev


@op("f32")
def _f32(case):
    wf = case["wf"]
    dt = "float32"
    if wf.endswith("64"):
        wf, dt = wf[:-2], "float64"
    ev = base(case)
    ev["wi"] = {k: list(v) for k, v in case["w"].items()}
    w = build_bank(case["w"], wf, dt)
    if "x" in case:
        ev.update(mode=case["mode"], level=case["level"], x=raw(case["x"]))
        x = build(case["x"], "float32")
        ev["out"] = outcome(lambda: {"st": "ok", **enc_coeffs(call_dec(case, x, w))})
    else:
        ev["c"] = enc_coeffs_raw(case["c"])
        c = build_coeffs(case["c"], "float32")
        ev["out"] = outcome(lambda: {"st": "ok", "v": enc(call_rec(case["fn"], c, w, []))})
    return ev


# --------------------------------------------------------------------- gradients
def leaf(case_x, dt, lay):
    return build(case_x, dt, lay).requires_grad_(True)


def ct_like(t, r, mag, mul):
    """Random integer cotangent of a tensor: (event part, tensor)."""
    x = {"s": list(t.shape), "d": [mul * r.randint(-mag, mag) for _ in range(t.numel())]}
    return x, build(x, str(t.dtype).replace("torch.", ""))


def enc_grad(g, like):
    import torch

    return enc(torch.zeros_like(like) if g is None else g)


@op("grad")
def _grad(case):
    import random

    import torch

    rec, fn, dt, lay = case["kind"] == "rec", case["fn"], case["dt"], case.get("lay", "c")
    mat = fn.startswith("matrix")
    ev = mat_base(case) if mat else base(case)
    ev["mode"] = case.get("mode") or "reflect"
    ev.update(kind=case["kind"], taps=case["taps"], wdt=case["wdt"], d=enc_bank(case["d"]))
    w = build_bank(case["w"], case["wf"], case["wdt"], grad=case["taps"])
    if rec:
        ev["c"] = enc_coeffs_raw(case["c"])
        arg = build_coeffs(case["c"], dt, lay)
        ins = [t.requires_grad_(True) for t in flat_coeffs(arg)]
    else:
        ev.update(level=case["level"], x=raw(case["x"]))
        arg = build(case["x"], dt, lay).requires_grad_(True)
        ins = [arg]

    def call(a):
        if mat:
            if rec:
                return quiet(lambda: matrix_obj(fn, w, None, case["axes"], inverse=True, orth=case["orth"])(a))
            return quiet(lambda: matrix_obj(fn, w, case["level"], case["axes"], orth=case["orth"], mode=case["mode"])(a))
        return call_rec(fn, a, w, case["axes"]) if rec else call_dec(case, a, w)

    got = {}

    def run():
        got["c"] = c = call(arg)
        return {"st": "ok", "v": enc(c)} if rec else {"st": "ok", **enc_coeffs(c)}

    ev["out"] = outcome(run)
    ev["back"] = {"st": "none", "exc": ""}
    if ev["out"]["st"] != "ok":
        return ev
    with torch.no_grad():
        plain = outcome(lambda: {"g": digest([call(arg)] if rec else flat_coeffs(call(arg)))})
    outs = [got["c"]] if rec else flat_coeffs(got["c"])
    ev["same"] = int(plain.get("g") == digest(outs))
    r = random.Random(case["salt"])
    cts = [ct_like(t, r, case["ctmag"], case["ctm"]) for t in outs]
    it = iter([raw(x) for x, _ in cts])
    if rec:
        ev["ct"] = next(it)
    else:
        ev["ct"] = {"a": next(it), "ds": [{"b": [{"k": b["k"], "v": next(it)} for b in d["b"]]} for d in ev["out"]["ds"]]}
    probe = lambda v: {"s": v["s"], "d": [r.randrange(32749) for _ in v["d"]]}
    if rec:
        c0 = case["c"]
        ev["pc"] = enc_coeffs_raw({"kind": c0["kind"], "a": probe(c0["a"]), "ds": [{"kind": d["kind"], "b": [{"k": b["k"], "v": probe(b["v"])} for b in d["b"]]} for d in c0["ds"]]})
    else:
        ev["px"] = raw(probe(case["x"]))
    taps = []
    if case["taps"]:
        fb = w.filter_bank if hasattr(w, "filter_bank") else w
        taps = list(fb)

    def back():
        use = [(t, c) for t, (_, c) in zip(outs, cts) if t.requires_grad]
        gs = torch.autograd.grad([t for t, _ in use], ins + taps, [c for _, c in use], allow_unused=True) if use else [None] * len(ins + taps)
        es = [enc_grad(g, t) for g, t in zip(gs, ins + taps)]
        it = iter(es)
        if rec:
            ev["g"] = {"a": next(it), "ds": [{"b": [{"k": b["k"], "v": next(it)} for b in d["b"]]} for d in ev["c"]["ds"]]}
        else:
            ev["g"] = {"a": next(it)}
        if case["taps"]:
            ev["gw"] = {k: next(it) for k in ("dl", "dh", "rl", "rh")}
        return {"st": "ok", "exc": ""}

    ev["back"] = outcome(back)
    return ev


@op("adj")
def _adj(case):
    import math

    import torch

    import ptwt

    fn, dt = case["fn"], case["dt"]
    bits = 40 if dt == "float64" else 14

    def build_call():
        """A function of the tensors to differentiate, and their values."""
        x = noise(case["salt"], case["shape"], dt)
        if fn == "cwtpar":
            from ptwt.continuous_transform import _ComplexMorletWavelet, _ShannonWavelet

            cls = {"shan": _ShannonWavelet, "cmor": _ComplexMorletWavelet}[case["cls"]]
            wav = cls(f"{case['cls']}{case['pars'][0]}-{case['pars'][1]}")

            def f(b, c):
                wav.bandwidth_par.data.copy_(b.detach())
                wav.center_par.data.copy_(c.detach())
                return [ptwt.cwt(x, case["scales"], wav, precision=case["precision"])[0]]

            return f, [wav.bandwidth_par, wav.center_par]
        if fn == "cwt":
            return (lambda t: [ptwt.cwt(t, case["scales"], case["wn"], precision=case["precision"])[0]]), [x]
        if fn.startswith("matrix"):
            w = build_bank(case["wn"], case["wf"], dt)
            lev = None if case["level"] < 0 else case["level"]
            a = matrix_obj(fn, w, lev, case["axes"], orth=case["orth"], mode=case["mode"])
            s = matrix_obj(fn, w, None, case["axes"], inverse=True, orth=case["orth"])
            if case["before"] != "no":
                y = noise(case["salt"] + 1, case["shape"], dt).requires_grad_(case["before"] == "grad")
                c = a(y)
                z = s(c)
                if case["before"] == "grad":
                    z.sum().backward()
            if not case["inverse"]:
                return (lambda t: flat_coeffs(a(t))), [x]
            c = a(x)
            vals = [noise(case["salt"] + 5 + i, list(t.shape), dt) for i, t in enumerate(flat_coeffs(c))]

            def f(*ts):
                it = iter(ts)
                return [s(map_coeffs(c, lambda _: next(it)))]

            return f, vals
        nd = 1 if fn == "packet1" else 2
        cls = ptwt.WaveletPacket if nd == 1 else ptwt.WaveletPacket2D
        kw = {"mode": case["mode"], "maxlevel": case["level"], "orthogonalization": case["orth"]}
        if case["axes"]:
            kw.update({"axis": case["axes"][0]} if nd == 1 else {"axes": tuple(case["axes"])})
        if nd == 2:
            kw["separable"] = case["sep"]
        w = build_bank(case["wn"], case["wf"], dt)

        def leaves(wp):
            wp.initialize(["".join(p) for p in gen_paths(nd, case["level"])])
            return wp

        def f(t):
            if case["what"] == "leaf":
                wp = leaves(cls(x * 0, w, **kw))
                wp["".join(case["leaf"])] = t
                return [wp.reconstruct()[""]]
            wp = cls(t, w, **kw)
            if case["what"] == "node":
                return [wp["".join(case["p"])]]
            leaves(wp).reconstruct()
            return [wp[""]]

        if case["what"] == "leaf":
            shp = list(cls(x, w, **kw)["".join(case["leaf"])].shape)
            return f, [noise(case["salt"] + 9, shp, dt)]
        return f, [x]

    def inner(us, vs):
        # real inner product, complex entries as pairs
        s = 0.0
        for u, v in zip(us, vs):
            if u is None:
                continue
            if u.is_complex() or v.is_complex():
                u, v = torch.view_as_real(u.resolve_conj()), torch.view_as_real(v.resolve_conj())
            s += float((u.double() * v.double()).sum())
        return s

    def norm(us):
        return math.sqrt(max(inner(us, us), 1e-300))

    def units(d, scale, b):
        q = abs(d) / scale * 2.0**b
        return min(2**30, math.ceil(q)) if math.isfinite(q) else 2**30

    def run():
        f, vals = build_call()
        if fn == "cwtpar":
            ins = vals
            v0 = [v.detach().clone() for v in vals]
            outs = f(*v0)
        else:
            vals = [v * 0 if case.get("zero", 0) >> i & 1 else v for i, v in enumerate(vals)]
            ins = [relayout(v.clone(), case.get("lay", "c")).requires_grad_(True) for v in vals]
            outs = f(*ins)
        with torch.no_grad():
            plain = f(*[v.detach().clone() for v in vals])
        same = max(units(float((a.detach() - b).abs().max()), float(b.abs().max()) + 1e-300, bits) if a.shape == b.shape and a.dtype == b.dtype else 2**30 for a, b in zip(outs, plain) if a.numel())
        cts = []
        for i, t in enumerate(outs):
            c = noise(case["salt"] + 100 + i, list(t.shape), "float64")
            if t.is_complex():
                c = torch.complex(c, noise(case["salt"] + 200 + i, list(t.shape), "float64"))
            cts.append(c.to(t.dtype))
        use = [(t, c) for t, c in zip(outs, cts) if t.requires_grad]
        gs = torch.autograd.grad([t for t, _ in use], ins, [c for _, c in use], allow_unused=True) if use else [None] * len(ins)
        dev = []
        if fn == "cwtpar":
            for i in range(len(v0)):
                h = 1e-6
                q = []
                for s in (h, -h):
                    p = [v.clone() for v in v0]
                    p[i] = p[i] + s
                    with torch.no_grad():
                        q.append(inner(f(*p), cts))
                num = (q[0] - q[1]) / (2 * h)
                an = float(gs[i]) if gs[i] is not None else 0.0
                dev.append(units(num - an, abs(num) + norm(cts) * 1e-3, 10 + 4))
        else:
            xs = [noise(case["salt"] + 300 + i, list(v.shape), dt) for i, v in enumerate(vals)]
            with torch.no_grad():
                fx_ = f(*xs)
            bad = any(g is not None and (g.shape != v.shape or g.dtype != v.dtype) for g, v in zip(gs, vals))
            a, b = inner(fx_, cts), inner(gs, xs)
            dev.append(2**30 if bad else units(a - b, norm(fx_) * norm(cts), bits))
        return {"st": "ok", "same": same, "dev": dev}

    ev = {"id": case["id"], "op": "adj", "fn": fn, "tol": 16}
    ev["out"] = outcome(lambda: quiet(run))
    return ev


def gen_paths(nd, level):
    from .gen import all_paths

    return all_paths(nd, level)


# ----------------------------------------------------------------------- purity
def snapshot(o, depth=0):
    """A string describing everything a caller can see of an object."""
    import zlib

    import numpy as np
    import pywt
    import torch

    def crc(b):
        return str(zlib.crc32(b))

    if isinstance(o, torch.Tensor):
        head = f"T{tuple(o.shape)}{o.dtype}{o.layout}{o.requires_grad}"
        if o.layout != torch.strided:
            i, v = o._indices(), o._values()
            return head + str(o.is_coalesced()) + crc(i.contiguous().numpy().tobytes()) + crc(v.detach().contiguous().numpy().tobytes())
        g = "" if not o.is_leaf or o.grad is None else snapshot(o.grad)
        d = o.detach().resolve_conj().resolve_neg()
        return head + f"{o.stride()}{o.storage_offset()}{o.data_ptr()}{g}" + crc(d.contiguous().numpy().tobytes())
    if isinstance(o, np.ndarray):
        return f"N{o.shape}{o.dtype}" + crc(np.ascontiguousarray(o).tobytes())
    if isinstance(o, torch.nn.Module):
        return "M" + "".join(f"{n}:{id(p)}{snapshot(p)}" for n, p in o.named_parameters()) + str(o.training)
    if isinstance(o, dict):
        return "D" + "".join(f"{k}:{id(v)}{snapshot(v)};" for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return type(o).__name__ + f"{len(o)}" + "".join(f"{id(v) if not isinstance(v, (int, float)) else ''}{snapshot(v)};" for v in o)
    if isinstance(o, pywt.Wavelet):
        return "W" + repr(o.filter_bank) + o.name
    if isinstance(o, pywt.ContinuousWavelet):
        return "C" + repr([o.name, o.lower_bound, o.upper_bound, o.center_frequency, o.bandwidth_frequency, getattr(o, "fbsp_order", None)])
    if isinstance(o, (int, float, str, bool, type(None))):
        return repr(o)
    if hasattr(o, "__dict__"):
        return type(o).__name__ + snapshot(vars(o))
    return repr(type(o))


def value_of(o):
    """Like snapshot, but only what two equal results share."""
    import numpy as np
    import torch

    if isinstance(o, torch.Tensor):
        t = o.detach()
        if t.layout != torch.strided:
            t = t.to_dense()
        d = digest([torch.view_as_real(t.resolve_conj()) if t.is_complex() else t])
        return f"{o.dtype}{d}"
    if isinstance(o, np.ndarray):
        return f"{o.dtype}{o.tolist()}"
    if isinstance(o, dict):
        return "{" + ",".join(f"{k}:{value_of(o[k])}" for k in sorted(o)) + "}"
    if isinstance(o, (list, tuple)):
        return type(o).__name__ + "(" + ",".join(value_of(v) for v in o) + ")"
    return repr(o)


def crc2(s):
    import zlib

    h = zlib.crc32(s.encode())
    return [h >> 16, h & 0xFFFF]


@op("pu")
def _pu(case):
    import random

    import numpy as np
    import pywt
    import torch

    import ptwt

    live = {}

    def make(o):
        if o["t"] == "tensor":
            t = relayout(noise(o["salt"], o["s"], o["dt"]), o["lay"])
            return t.requires_grad_(True) if o["grad"] else t
        if o["t"] == "wavelet":
            form = o["form"]
            return build_bank(o["wn"], form, o["dt"], grad=o.get("grad", False))
        if o["t"] == "cwavelet":
            if o["form"] == "module":
                from ptwt.continuous_transform import _ComplexMorletWavelet, _ShannonWavelet

                return (_ShannonWavelet if o["wn"].startswith("shan") else _ComplexMorletWavelet)(o["wn"])
            if o["form"] == "name":
                return o["wn"]
            return pywt.Wavelet(o["wn"]) if o["wn"] in ("haar", "db2") else pywt.ContinuousWavelet(o["wn"])
        if o["t"] == "scales":
            v = o["v"]
            return np.array(v) if o["kind"] == "np" else torch.tensor(v, dtype=torch.float64) if o["kind"] == "torch" else list(v)
        if o["t"] == "sparse":
            r = random.Random(o["salt"])
            n = o["nnz"]
            cells = [(i, j) for i in range(o["s"][0]) for j in range(o["s"][1])]
            ij = [r.choice(cells) for _ in range(n)] if o["dup"] else r.sample(cells, n)
            t = torch.sparse_coo_tensor(torch.tensor(ij).T, torch.tensor([float(r.randint(1, 9)) for _ in ij], dtype=torch.float64), size=tuple(o["s"]))
            return t if o["dup"] else t.coalesce()
        raise ValueError(o)

    for n, o in case["objs"].items():
        live[n] = make(o)
    hidden = {}  # objects of the library

    def snaps():
        glob = f"{torch.get_default_dtype()}{torch.is_grad_enabled()}"
        return [{"n": n, "g": crc2(snapshot(o))} for n, o in live.items()] + [{"n": "global", "g": crc2(glob)}]

    def run(st):
        do = st["do"]
        if do == "dec":
            return call_dec(st, live[st["x"]], live[st["w"]])
        if do == "rec":
            return call_rec(INVERSE[st["fn"]], live[st["c"]], live[st["w"]], st["axes"])
        if do == "wrap":
            c = live[st["c"]]
            r = random.Random(len(c) * 7 + 1)

            def entry(d):
                f = lambda v: relayout(v.detach().clone(), st["lay"])
                if isinstance(d, dict):
                    ks = list(d)
                    if st["shuffle"]:
                        r.shuffle(ks)
                    return {k: f(d[k]) for k in ks}
                if isinstance(d, tuple):
                    return tuple(f(v) for v in d) if st["plain"] else ptwt.WaveletDetailTuple2d(*[f(v) for v in d])
                return f(d)

            # the structure of the other dimensions is a tuple
            out = [entry(d) for d in c]
            return out if st["kind"] == "list" or isinstance(c, list) else tuple(out)
        if do == "clone":
            return relayout(noise(st["salt"], list(live[st["c"]].shape), str(live[st["c"]].dtype).replace("torch.", "")), st["lay"])
        if do == "mat":
            if st["obj"] not in hidden:
                hidden[st["obj"]] = matrix_obj(st["fn"], live[st["w"]], None if st["level"] < 0 else st["level"], st["axes"], inverse=st["inverse"], orth=st["orth"], mode=st["mode"])
            return hidden[st["obj"]](live[st["x"]])
        if do == "boundary":
            from ptwt.matmul_transform import construct_boundary_a, construct_boundary_s
            from ptwt.matmul_transform_2 import construct_boundary_a2, construct_boundary_s2

            kw = {"orthogonalization": st["orth"], "dtype": dtype_of(st["dt"])}
            if st["nd"] == 1:
                return (construct_boundary_s if st["syn"] else construct_boundary_a)(live[st["w"]], st["n"][0], **kw)
            return (construct_boundary_s2 if st["syn"] else construct_boundary_a2)(live[st["w"]], st["n"][0], st["n"][1], "cpu", **kw)
        if do == "pknew":
            kw = {"mode": st["mode"], "maxlevel": st["level"]}
            if st["axes"]:
                kw.update({"axis": st["axes"][0]} if st["nd"] == 1 else {"axes": tuple(st["axes"])})
            if st["nd"] == 2:
                kw["separable"] = st["sep"]
            cls = ptwt.WaveletPacket if st["nd"] == 1 else ptwt.WaveletPacket2D
            hidden[st["obj"]] = cls(live[st["x"]], live[st["w"]], **kw)
            return None
        if do == "pkget":
            return hidden[st["obj"]]["".join(st["p"])]
        if do == "pkinit":
            hidden[st["obj"]].initialize(["".join(p) for p in st["ps"]])
            return None
        if do == "pkset":
            hidden[st["obj"]]["".join(st["p"])] = live[st["x"]]
            return None
        if do == "pkrec":
            return hidden[st["obj"]].reconstruct()[""]
        if do == "pktrans":
            hidden[st["obj"]].transform(live[st["x"]], maxlevel=st["level"])
            return None
        if do == "cwt":
            return ptwt.cwt(live[st["x"]], live[st["sc"]], live[st["w"]], sampling_period=st["period"], precision=st["precision"])
        if do == "loss":
            w = live[st["w"]]
            f = {"pr": lambda: w.perfect_reconstruction_loss(), "alias": lambda: w.alias_cancellation_loss(), "pf_alias": lambda: w.pf_alias_cancellation_loss(), "product": lambda: w.product_filter_loss(), "total": lambda: w.wavelet_loss()}
            return f[st["name"]]()
        if do == "sp":
            from ptwt import sparse_math as sm

            fn = st["fn"]
            if fn == "conv1":
                if st["stride"]:
                    return sm.construct_strided_conv_matrix(live[st["f"]], st["n"], st["stride"], mode=st["mode"])
                return sm.construct_conv_matrix(live[st["f"]], st["n"], mode=st["mode"])
            if fn == "conv2":
                return sm.construct_conv2d_matrix(live[st["f"]], st["h"], st["w"], mode=st["mode"])
            if fn == "kron":
                return sm.sparse_kron(live[st["A"]], live[st["B"]])
            if fn == "cat":
                return sm.cat_sparse_identity_matrix(live[st["A"]], st["n"])
            if fn == "row":
                return sm.sparse_replace_row(live[st["A"]], st["i"], live[st["R"]])
            if fn == "diag":
                return sm.sparse_diag(live[st["f"]], st["off"], st["rows"], st["cols"])
            return sm.batch_mm(live[st["A"]], live[st["X"]])
        raise ValueError(do)

    evs = [{"id": case["id"], "op": "reset"}]
    evs.append({"id": case["id"], "op": "pu", "do": "start", "snap": snaps()})
    ops = {}
    for st in case["steps"]:
        ev = {"id": case["id"], "op": "pu", "do": st["do"], "res": st["res"], "mayfail": False}
        key = "" if st["do"].startswith("pk") or st["do"] in ("wrap", "clone") or "fail" in st else repr(sorted((k, v) for k, v in st.items() if k != "res"))
        ev["key"] = key
        got = {}

        def go():
            got["v"] = quiet(lambda: run(st))
            return {"st": "ok"}

        if "fail" in st:
            k = 1 + int(st["fail"] * ops.get(st["do"], 12))
            ev["mayfail"] = True
            with fault_mode(k):
                ev["out"] = outcome(go)
        else:
            ev["mayfail"] = bool(st.get("bad"))
            if any(st.get(k) not in live for k in ("c", "x") if k in st):
                continue
            m = fault_mode(0)
            with m:
                ev["out"] = outcome(go)
            ops[st["do"]] = m.n
        ev["snap"] = snaps()
        if ev["out"]["st"] == "ok":
            live[st["res"]] = got["v"]
            # the snapshot of the result; repeated calls share its value
            ev["out"]["g"] = crc2(snapshot(got["v"]))
            ev["out"]["val"] = crc2(value_of(got["v"]))
        else:
            ev["out"]["g"] = []
            ev["out"]["val"] = []
        evs.append(ev)
    return evs


# ------------------------------------------------------- the argument contract
def describe(o):
    import torch

    if isinstance(o, torch.Tensor):
        return {"t": "tensor", "dt": str(o.dtype).replace("torch.", ""), "s": list(o.shape)}
    return {"t": "other", "dt": "", "s": []}


def describe_entry(d):
    import torch

    if isinstance(d, torch.Tensor):
        return {"kind": "tensor", "ts": [describe(d)], "ks": []}
    if isinstance(d, dict):
        return {"kind": "dict", "ts": [describe(v) for v in d.values()], "ks": list(d)}
    if isinstance(d, tuple):
        return {"kind": "tuple", "ts": [describe(v) for v in d], "ks": []}
    return {"kind": "other", "ts": [describe(d)], "ks": []}


def change_coeffs(c, ch, nd):
    """One change of a list of coefficients."""
    import itertools

    import torch

    import ptwt

    def entry(d, f):
        """f on one tensor (or all of them) of an entry"""
        i = ch["i"]
        if isinstance(d, dict):
            return {k: f(v) if i < 0 or j == i % len(d) else v for j, (k, v) in enumerate(d.items())}
        if isinstance(d, tuple):
            vs = [f(v) if i < 0 or j == i % len(d) else v for j, v in enumerate(d)]
            return ptwt.WaveletDetailTuple2d(*vs) if len(vs) == 3 else tuple(vs)
        return f(d)

    def vals(d):
        return list(d.values()) if isinstance(d, dict) else list(d) if isinstance(d, tuple) else [d]

    what = ch["what"]

    def one(v):
        if not isinstance(v, torch.Tensor):
            return v
        if what == "dt":
            return v.to(dtype_of(ch["dt"]))
        if what in ("crop", "long", "crop1"):
            if v.dim() == 0:
                return v
            a = ch["axis"] % v.dim()
            n = v.shape[a]
            if what == "long":
                return torch.cat([v, v.narrow(a, n - 1, 1)], a)
            return v.narrow(a, 0, n - 1) if n > 1 else torch.cat([v, v], a)
        if what == "unsq":
            return v.unsqueeze(0)
        if what == "sq":
            return v[0] if v.dim() else v
        if what == "low":
            while v.dim() > ch["to"]:
                v = v[0]
            return v
        if what == "batch":
            # another arrangement of the leading dimensions
            if v.dim() > nd + 1:
                b = list(v.shape[:-nd])
                return v.reshape([b[1], b[0], *b[2:], *v.shape[-nd:]]) if b[0] != b[1] else v.reshape([b[0] * b[1], 1, *b[2:], *v.shape[-nd:]])
            return v[:1].repeat([2] + [1] * (v.dim() - 1)) if v.dim() else v
        if what == "obj":
            return {"none": None, "str": "ab", "np": (v.abs() if v.is_complex() else v).double().numpy(), "float": 1.0, "list": [v]}[ch["v"]]
        raise ValueError(what)

    def level(d):
        if what != "kind":
            return entry(d, one)
        vs, k = vals(d), ch["v"]
        names = lambda n: ["".join(p) for p in itertools.product("ad", repeat=n)][1:]
        v0 = vs[0] if vs else None
        if k == "list":
            return vs
        if k == "tensor":
            return v0
        if k in ("tuple", "tuple2", "tuple4", "empty"):
            return tuple({"tuple": vs, "tuple2": vs[:1] * 2, "tuple4": vs[:1] * 4, "empty": []}[k])
        if k == "named":
            return ptwt.WaveletDetailTuple2d(v0, v0, v0)
        ks = names(max(nd, 2))
        ks = {
            "emptydict": [],
            "dict": ks,
            "dictmiss": ks[1:],
            "dictren": ["zz"] + ks[1:],
            "dictextra": ks + ["zz"],
            "dictapprox": ks + ["a" * max(nd, 2)],
            "dict1": ["d"],
            "dict3": names(3 if nd != 3 else 2),
        }[k]
        return {q: v0 for q in ks}

    out = list(c)
    for j in range(len(out)):
        if what == "low" or ch["at"] == -1 or ch["at"] % len(out) == j:
            out[j] = level(out[j])
    return out


@op("gd")
def _gd(case):
    import pywt
    import torch

    import ptwt

    fn, nd = case["fn"], case["nd"]
    wn = case["wn"]
    wf = case["wf"]
    if wf.startswith("tensor"):
        w = ptwt.WaveletTensorTuple.from_wavelet(pywt.Wavelet(wn), torch.float64 if wf == "tensor64" else torch.float32)
    elif wf == "user":
        w = pywt.Wavelet("user", filter_bank=pywt.Wavelet(wn).filter_bank)
    else:
        w = wn if wf == "name" else pywt.Wavelet(wn)
    good = w
    if case.get("uneven"):
        from .core import UserWavelet

        fb = [list(f) for f in pywt.Wavelet(wn).filter_bank]
        i = 2 if case["uneven"] > 0 else 0
        w = UserWavelet([[0.0] + f + [0.0] if i <= k < i + 2 else f for k, f in enumerate(fb)])
    x = noise(case["salt"], case["s"], case["dt"])
    ax = case["axes"]
    axes = case.get("axes2", ax)
    if "xdt" in case:
        x = x.to(dtype_of(case["xdt"]))
    if "low" in case:
        while x.dim() > case["low"]:
            x = x[0]
    mode = case.get("mode2", case["mode"])
    J = case["J"]
    ev = {"id": case["id"], "op": "gd", "call": case["call"], "fn": fn, "nd": nd, "L": case["L"], "mode": mode, "axes": axes or [], "axes0": axes is None, "orth": case["orth"], "uneven": bool(case.get("uneven")), "x": describe(x), "c": [], "free": bool(case["changes"])}
    at = {"at": "new"}
    name = "axis" if nd == 1 else "axes"

    def axk(a):
        if a is None:
            return {}
        return {name: a[0] if nd == 1 and len(a) == 1 else tuple(a)}

    def flat(c):
        out = []
        for d in c:
            out += list(d.values()) if isinstance(d, dict) else list(d) if isinstance(d, tuple) else [d]
        return out

    def guard(f):
        try:
            r = quiet(f)
        except Exception as e:
            if isinstance(e, NameError):
                raise
            return {"st": "err", "exc": type(e).__name__, "value": isinstance(e, ValueError), "at": at["at"], "dts": []}
        return {"st": "ok", "exc": "", "value": False, "at": at["at"], "dts": [str(t.dtype).replace("torch.", "") for t in r]}

    def analysis(x, a, mode, orth, w=w):
        if fn in MATRIX:
            o = matrix_obj2(fn, w, None if J < 0 else J, axk(a), False, orth, mode)
            at["at"] = "call"
            return o(x)
        at["at"] = "call"
        kw = axk(a)
        if J >= 0:
            kw["level"] = J
        if fn != "swt" and mode != "default":
            kw["mode"] = mode
        return getattr(ptwt, fn)(x, w, **kw)

    if case["call"] == "dec":
        ev["out"] = guard(lambda: flat(analysis(x, axes, mode, case["orth"])))
        return ev
    if case["call"] == "pk":

        def tree():
            cls = ptwt.WaveletPacket if nd == 1 else ptwt.WaveletPacket2D
            kw = {"mode": mode, "orthogonalization": case["orth"], **axk(axes)}
            if nd == 2:
                kw["separable"] = case["sep"]
            p = cls(None, w, **kw)
            at["at"] = "call"
            p.transform(x, maxlevel=J)
            out = [p["".join(k)] for k in p.get_level(J)] if nd == 1 else [p[k] for k in cls.get_natural_order(J)]
            p.reconstruct()
            return [*out, p[""]]

        ev["out"] = guard(tree)
        return ev
    try:
        c = quiet(lambda: analysis(x, ax, case["mode"], "qr", good))
    except Exception as e:
        # the base coefficients are those of a well-formed analysis
        ev.update(call="dec", axes=ax or [], axes0=ax is None, mode=case["mode"], orth="qr", uneven=False, free=False)
        ev["out"] = {"st": "err", "exc": type(e).__name__, "value": False, "at": at["at"], "dts": []}
        return ev
    outer = type(c)
    for ch in case["changes"]:
        c = change_coeffs(c, ch, nd)
    c = outer(c)
    ev["c"] = [describe_entry(d) for d in c]
    ev["mode"] = "default"
    at["at"] = "new"

    def synthesis():
        if fn in MATRIX:
            o = matrix_obj2(fn, w, None, axk(axes), True, case["orth"], None)
            at["at"] = "call"
            return [o(c)]
        at["at"] = "call"
        return [getattr(ptwt, INVERSE[fn])(c, w, **axk(axes))]

    ev["out"] = guard(synthesis)
    return ev


def matrix_obj2(fn, w, level, axk, inverse, orth, mode):
    import ptwt

    kw = {"orthogonalization": orth, **axk}
    if fn in ("matrix2", "matrix2s"):
        kw["separable"] = fn == "matrix2s"
    i = "matrix1 matrix2 matrix2s matrix3".split().index(fn)
    if inverse:
        return [ptwt.MatrixWaverec, ptwt.MatrixWaverec2, ptwt.MatrixWaverec2, ptwt.MatrixWaverec3][i](w, **kw)
    if mode != "default":
        kw["odd_coeff_padding_mode"] = mode
    return [ptwt.MatrixWavedec, ptwt.MatrixWavedec2, ptwt.MatrixWavedec2, ptwt.MatrixWavedec3][i](w, level, **kw)


# ------------------------------------------------------- continuous transform
def scales_arg(vals, form):
    """The scales in one of the accepted forms."""
    import numpy as np
    import torch

    if form == "np":
        return np.array(vals, dtype=np.float64)
    if form == "np32":
        return np.array(vals, dtype=np.float32)
    if form == "int":
        return np.array([int(v) for v in vals])
    if form == "torch":
        return torch.tensor(vals, dtype=torch.float64)
    if form == "torchint":
        return torch.tensor([int(v) for v in vals])
    if form == "list":
        return list(vals)
    if form == "tuple":
        return tuple(vals)
    if form == "scalar":
        return float(vals[0])
    if form == "intscalar":
        return int(vals[0])
    if form == "npscalar":
        return np.float64(vals[0])
    raise ValueError(form)


def table_wavelet(lo, hi, psi, x=None):
    """A learnable wavelet whose values are given: psi(grid) or a tensor."""
    import torch
    from ptwt.continuous_transform import _DifferentiableContinuousWavelet

    cplx = psi.is_complex()

    class Table(_DifferentiableContinuousWavelet):
        complex_cwt = cplx
        lower_bound = lo
        upper_bound = hi

        def __call__(self, grid):
            if grid.shape != psi.shape:
                return torch.full(grid.shape, float("nan"), dtype=psi.dtype)
            return psi.clone()

    if x is not None:
        Table.wavefun = lambda self, precision, dtype=torch.float64: (psi.clone(), x.clone())
    return Table("shan1.0-1.0")


def freq_dev(fr, wav, scales, period, precision):
    """Frequencies against the wavelet's central frequency, in units of 2^-44."""
    import numpy as np
    import pywt
    import torch

    want = pywt.central_frequency(wav, precision=precision) / np.array(scales, dtype=np.float64) / period
    fr = np.asarray(fr)
    if fr.shape != want.shape:
        return -1
    return deviation([torch.tensor(fr.astype(np.float64) / want)], [torch.ones(len(want), dtype=torch.float64)], 44)


@op("cwt")
def _cwt(case):
    import torch

    import ptwt
    import pywt

    p, std, stn = case["precision"], case["std"], case["stn"]
    x = build(case["x"], case["dt"], case["lay"])
    scales = [(a / b) ** 2 for a, b in case["scales"]]
    ev = {"id": case["id"], "op": "cwt", "x": raw(case["x"]), "scales": case["scales"], "cplx": case["cplx"]}
    if case["form"] == "discrete":
        fb = [[float(v) for v in case["w"][k]] for k in ("dl", "dh", "rl", "rh")]
        wav = pywt.Wavelet("c", filter_bank=fb)
        wav.orthogonal = True
        _, psi, grid = wav.wavefun(p)
        std, stn = 2**p, 1
        ev["psi"] = {"re": [round(float(v)) for v in psi], "im": []}
        if abs(psi - [round(float(v)) for v in psi]).max() > 1e-9 or abs(grid[1] * std - 1) > 1e-12:
            raise NameError("table of the custom wavelet is not integral")
    else:
        psi = torch.tensor(case["psi"]["re"], dtype=torch.float64)
        if case["cplx"]:
            psi = torch.complex(psi, torch.tensor(case["psi"]["im"], dtype=torch.float64))
        lo = case["lo"] * stn / std
        wav = table_wavelet(lo, lo + (2**p - 1) * stn / std, psi)
        ev["psi"] = case["psi"]
    ev["psi"] = {k: [int(v) for v in vs] for k, vs in ev["psi"].items()}
    ev.update(std=std, stn=stn)

    def run():
        o, fr = ptwt.cwt(x, scales_arg(scales, case["sf"]), wav, sampling_period=case["period"], precision=p)
        o = o.detach()
        norm = torch.tensor([b * std / stn for _, b in case["scales"]], dtype=torch.float64)
        norm = norm.reshape([-1] + [1] * (o.dim() - 1))
        out = {"st": "ok", "cplx": o.is_complex(), "fr": freq_dev(fr, wav, scales, case["period"], p)}
        n = o * norm if o.shape[0] == len(scales) else o
        out["re"] = enc(n.real if o.is_complex() else n)
        out["im"] = enc(n.imag if o.is_complex() else n * 0)
        return out

    ev["out"] = outcome(lambda: quiet(run))
    return ev


@op("cwtn")
def _cwtn(case):
    import pywt
    import torch

    import ptwt
    from ptwt.continuous_transform import _ComplexMorletWavelet, _ShannonWavelet

    wn, p = case["wn"], case["precision"]
    x = noise(case["salt"], case["s"], "float64")
    cont = wn not in pywt.wavelist(kind="discrete")
    ref = pywt.ContinuousWavelet(wn) if cont else pywt.Wavelet(wn)
    fun = ref.wavefun(p)
    psi, grid = torch.tensor(fun[-2]), torch.tensor(fun[-1])
    step = float(grid[1] - grid[0])
    if case["wf"] == "name":
        wav = wn
    elif case["wf"] == "learn":
        wav = {"shan": _ShannonWavelet, "cmor": _ComplexMorletWavelet}[wn[:4]](wn)
    else:
        wav = ref
    kw = {"sampling_period": case["period"], "precision": p}
    if p == 12 and case["salt"] % 2:
        del kw["precision"]  # the default
    if case["period"] == 1.0:
        del kw["sampling_period"]
    scales = case["scales"]
    ev = {
        "id": case["id"],
        "op": "cwtn",
        "s": case["s"],
        "tol": 16,
        "cplx": bool(cont and ref.complex_cwt),
        "reach": [min(10**9, round(s * step * len(grid) * 1000)) for s in scales],
    }
    alts = []
    # flat stretches of the wavelet give zero, up to rounding of the integral
    least = 0.1 * step * float(psi.abs().max()) * float(x.abs().max())

    def run():
        o, fr = ptwt.cwt(relayout(x, case["lay"]), scales_arg(scales, case["sf"]), wav, **kw)
        o = o.detach()
        out = {"st": "ok", "cplx": o.is_complex(), "s": list(o.shape), "fr": freq_dev(fr, ref, scales, case["period"], p)}
        if o.shape[0] != len(scales):
            return out

        def alt(k, t):
            alts.append({"k": k, "err": deviation([o], [t.detach()], 36, least)})

        # the given samples
        alt("table", ptwt.cwt(x, scales_arg(scales, "np"), table_wavelet(0.0, 1.0, psi, grid), precision=p)[0])
        # one scale at a time, in another order
        order = list(range(len(scales)))[::-1]
        rows = {j: ptwt.cwt(x, scales_arg([scales[j]], "np"), wav, precision=p)[0][0] for j in order}
        alt("single scales", torch.stack([rows[j] for j in range(len(scales))]))
        # one batch entry at a time
        flat = x.reshape(-1, x.shape[-1])
        parts = [ptwt.cwt(f[None], scales_arg(scales, "np"), wav, precision=p)[0][:, 0] for f in flat]
        alt("single signals", torch.stack(parts, 1).reshape(o.shape))
        return out

    ev["out"] = outcome(lambda: quiet(run))
    ev["alts"] = alts
    return ev


# ----------------------------------------------------------------- threads
@op("threads")
def _threads(case):
    """Calls made by several threads at the same time; each event is judged on its own."""
    import sys
    import threading

    evs, errors = [], []
    cases = [dict(c, id=case["id"]) for c in case["cases"]]
    gate = threading.Barrier(len(cases))
    err, interval = sys.stderr, sys.getswitchinterval()

    def work(c):
        try:
            gate.wait(30)
            for _ in range(case["rounds"]):
                e = execute(c)
                evs.extend(e if isinstance(e, list) else [e])
        except BaseException as ex:  # noqa: BLE001
            errors.append(ex)

    ts = [threading.Thread(target=work, args=(c,), daemon=True) for c in cases]
    sys.setswitchinterval(1e-6)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(interval)
        sys.stderr = err
    if errors:
        raise errors[0]
    return evs
