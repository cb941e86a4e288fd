"""Convolution transforms, their inverses and round trips traced with torch.jit.trace on
one input (other data, other taps of the same length) and executed on another input: the
observed result is compared entry by entry with what the specification computes for the
second input.  The taps are inputs of the traced function (WaveletTensorTuple) or
constants (names, PyWavelets and user-made objects).  Packet nodes and the continuous
transform with the learnable wavelets are compared with the untraced call."""

from .. import gen
from ..gen import pick

PROP = "C25"
COUNT = {"quick": 1600, "thorough": 20000}
ASSUMPTIONS = [
    "the level is given explicitly; only inputs of the shape and dtype used for tracing; traced functions return flat tuples of tensors",
    "packet trees and the continuous transform: equality with the untraced call up to 2^-36",
]
DEC = ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3", "swt"]
REC = ["waverec", "waverec2", "waverec3", "fswaverec2", "fswaverec3", "iswt"]


def other(r, v, mag=50):
    """Other integers in the shape of a case's tensor."""
    if r.random() < 0.25:  # a shortcut taken for the traced data must not be baked in
        d = [0 if r.random() < 0.5 else 1] * len(v["d"])
        return {"s": v["s"], "d": d}
    return {"s": v["s"], "d": [r.randint(-mag, mag) for _ in v["d"]]}


def make(r, tier):
    k = pick(r, ["dec", "rec", "rt", "pk", "cwt"], [8, 6, 4, 2, 1])
    wf = pick(r, ["tensor", "from", "plain", "pywt", "user"], [5, 3, 1, 1, 1])
    if k == "pk":
        nd = pick(r, [1, 2])
        w = pick(r, ["haar", "db2", "db3", "sym4"])
        yield {"op": "jitpk", "nd": nd, "wn": w, "wf": pick(r, ["tensor", "pywt", "name"]), "dt": pick(r, ["float64", "float32"]), "mode": pick(r, gen.MODES),
               "shape": [2] + [r.randint(16, 24) if nd == 1 else r.randint(10, 14) for _ in range(nd)], "ml": pick(r, [1, 2]), "sep": r.random() < 0.5,
               "salt": r.randint(1, 10**6), "rec": r.random() < 0.5}
        return
    if k == "cwt":
        yield {"op": "jitcwt", "wn": pick(r, ["shan0.1-0.4", "shan1.5-1.0", "cmor1.5-1.0", "cmor0.8-0.7"]), "shape": pick(r, [[40], [2, 33]]),
               "scales": [pick(r, [2.0, 3.0, 5.5, 7.25]) for _ in range(pick(r, [1, 3]))], "salt": r.randint(1, 10**6)}
        return
    if k == "rec":
        c = gen.make_rec(r, pick(r, REC), bad=0)
        L = len(c["w"]["dl"])
        c["c0"] = {"kind": c["c"]["kind"], "a": other(r, c["c"]["a"]), "ds": [{"kind": d["kind"], "b": [{"k": b["k"], "v": other(r, b["v"])} for b in d["b"]]} for d in c["c"]["ds"]]}
    elif k == "dec":
        c = gen.make_dec(r, pick(r, DEC), axes=r.random() < 0.3, default_level=0)
        L = len(c["w"]["dl"])
        c["x0"] = other(r, c["x"])
        c["lt"] = int(c["fn"] != "swt" and r.random() < 0.3)
    else:
        c = gen.make_dec(r, pick(r, DEC), op="rt", bank_fn=lambda q: gen.pr_bank(q), default_level=0)
        L = len(c["w"]["dl"])
        c["x0"] = other(r, c["x"])
    c["w0"] = gen.bank(r, L, 3)
    c["lay"] = "c"
    c["wf"] = wf
    yield c


def traced(f, args):
    import warnings

    import torch

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return torch.jit.trace(f, args, strict=False, check_trace=False)


def run(case):
    import torch

    from ..core import build, build_bank, build_coeffs, enc, enc_coeffs, enc_coeffs_raw, flat_coeffs, outcome, raw
    from ..execute import INVERSE, base, call_dec, call_rec, deviation, map_coeffs, noise, quiet

    op = case["op"]
    if op in ("jitpk", "jitcwt"):
        return compare(case)
    dt, fn = case["dt"], case["fn"]
    as_input = case["wf"] in ("tensor", "from", "plain")
    w = build_bank(case["w"], case["wf"], dt)
    w0 = build_bank(case["w0"], case["wf"], dt) if as_input else w
    rec = op == "rec"
    ev = base(case)
    if rec:
        ev["c"] = enc_coeffs_raw(case["c"])
        a, a0 = build_coeffs(case["c"], dt), build_coeffs(case["c0"], dt)
    else:
        ev.update(mode=case.get("mode") or "reflect", level=case["level"], x=raw(case["x"]))
        a, a0 = build(case["x"], dt), build(case["x0"], dt)

    def refill(c, ts):
        it = iter(ts)
        return map_coeffs(c, lambda _: next(it))

    def body(v, w):
        if rec:
            return call_rec(fn, refill(a0, v), w, case.get("axes", []))
        cc = case
        if case.get("lt") and case["level"] >= 0:
            import ptwt

            from ..execute import axes_kw

            return tuple(flat_coeffs(getattr(ptwt, fn)(v, w, mode=case["mode"] or "reflect", level=torch.tensor(case["level"]), **axes_kw(fn, case.get("axes", [])))))
        c = call_dec(cc, v, w)
        if op == "rt":
            return call_rec(INVERSE[fn], c, w, case.get("axes", []))
        return tuple(flat_coeffs(c))

    def go():
        v0 = tuple(flat_coeffs(a0)) if rec else a0
        v = tuple(flat_coeffs(a)) if rec else a
        if as_input:
            f = traced(lambda v, w: body(v, w), (v0, w0))
            out = f(v, w)
        else:
            f = traced(lambda v: body(v, w), (v0,))
            out = f(v)
        if rec or op == "rt":
            return {"st": "ok", "v": enc(out)}
        return {"st": "ok", **enc_coeffs(refill(call_dec(case, a, w), out))}

    # a call that fails untraced has nothing to trace
    plain = outcome(lambda: {"st": "ok", "v": body(tuple(flat_coeffs(a)) if rec else a, w)})
    ev["out"] = outcome(lambda: quiet(go)) if plain["st"] == "ok" else plain
    return ev


def compare(case):
    import numpy as np
    import ptwt
    import torch

    from ..core import build_bank, outcome
    from ..execute import deviation, noise, quiet

    dt = case.get("dt", "float64")
    ev = {"id": case["id"], "op": "opt", "k": "jit", "fn": case["op"], "tol": 16}
    x, x0 = noise(case["salt"], case["shape"], dt), noise(case["salt"] + 1, case["shape"], dt)
    if case["op"] == "jitcwt":
        from ptwt.continuous_transform import _ComplexMorletWavelet, _ShannonWavelet

        cls = _ShannonWavelet if case["wn"].startswith("shan") else _ComplexMorletWavelet

        def f(v):  # torch cannot embed parameters as constants: the module is made inside
            w = cls(case["wn"])
            return ptwt.cwt(v, torch.tensor(case["scales"]), w)[0]

        args, args0 = (x,), (x0,)
    else:
        cls = ptwt.WaveletPacket if case["nd"] == 1 else ptwt.WaveletPacket2D
        kw = {"separable": case["sep"]} if case["nd"] == 2 else {}
        const = build_bank(case["wn"], case["wf"], dt)

        def f(v, w=const):
            wp = cls(v, w, mode=case["mode"], maxlevel=case["ml"], **kw)
            keys = wp.get_level(case["ml"], "natural")
            if case["rec"]:
                wp.initialize(keys)
                return wp.reconstruct()[""]
            return tuple(wp[k] for k in keys)

        args, args0 = (x,), (x0,)
        if case["wf"] == "tensor":
            args = (x, const)
            args0 = (x0, ptwt.WaveletTensorTuple(*[noise(case["salt"] + 2 + i, [len(t)], dt) for i, t in enumerate(const)]))
    ref = outcome(lambda: quiet(lambda: {"st": "ok", "ts": f(*args)}))
    lst = lambda r: [r] if isinstance(r, torch.Tensor) else list(r)

    def go():
        g = traced(f, args0)
        return {"st": "ok", "exc": "", "err": deviation(lst(ref["ts"]), lst(g(*args)), 40 if dt == "float64" else 18)}

    out = outcome(lambda: quiet(go)) if ref["st"] == "ok" else {"st": "err", "exc": ref["exc"]}
    ev.update(ref=ref["st"], out={"st": out["st"], "exc": out.get("exc", ""), "err": out.get("err", -1)})
    return ev


def classify(c):
    return f"{c['op']}/{c.get('fn', '')}/{c.get('wf', '')}"
