"""The convolution, separable and stationary transforms and their inverses under the
function transforms of torch.  Exact part (integer data, taps, tangents and cotangents):
the directional derivative by forward-mode differentiation (torch.func.jvp, dual
tensors, double backpropagation) is, for the data, the specified transform of the
tangent and, for the taps, the derivative computed by the specification; mixed second
derivatives (data, taps) likewise; torch.vmap over data or coefficients at any dimension,
or over data and taps at once, gives the specified result of every entry.  Packet trees
and the continuous transform are compared with the plain calls."""

from .. import gen
from ..gen import pick

PROP = "C26"
COUNT = {"quick": 5000, "thorough": 80000}
ASSUMPTIONS = [
    "a wrong derivative is missed with probability 1/32749 per call",
    "boundary-filter (sparse) objects are not covered: torch implements neither forward mode nor vmap for sparse products",
    "packet trees and the continuous transform: agreement with plain calls up to 2^-36",
]
DEC = ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3", "swt"]
REC = ["waverec", "waverec2", "waverec3", "fswaverec2", "fswaverec3", "iswt"]
APIS = ["jvp", "jvp", "dual", "double"]


def some(r, v, mag):
    """Integers in the shape of v: mostly random, sometimes zero or constant."""
    k = r.random()
    if k < 0.15:
        return {"s": v["s"], "d": [0] * len(v["d"])}
    if k < 0.2:
        return {"s": v["s"], "d": [1] * len(v["d"])}
    return {"s": v["s"], "d": [r.randint(-mag, mag) for _ in v["d"]]}


def map_case(c, f):
    return {"kind": c["kind"], "a": f(c["a"]), "ds": [{"kind": d["kind"], "b": [{"k": b["k"], "v": f(b["v"])} for b in d["b"]]} for d in c["ds"]]}


def real(r):
    fn = pick(r, ["packet1", "packet2", "cwt"])
    c = {"op": "func", "k": "real", "fn": fn, "how": pick(r, ["jvp", "vmap"]), "salt": r.randint(1, 10**6), "dt": "float64", "zero": r.random() < 0.15}
    if fn == "cwt":
        c.update(wn=pick(r, ["mexh", "morl", "gaus2", "cgau1", "shan1.5-1.0", "cmor1.5-1.0", "haar", "db2", "sym4"]), shape=pick(r, [[], [1], [3], [2, 2]]) + [r.randint(12, 40)],
                 scales=[float(pick(r, [2, 3, 4.5, 7, 16])) for _ in range(pick(r, [1, 2, 3]))], precision=pick(r, [5, 8, 12]))
    else:
        nd = 1 if fn == "packet1" else 2
        lev = pick(r, [1, 2])
        sizes = [r.randint(8, 30) if nd == 1 else r.randint(6, 13) for _ in range(nd)]
        shape, ax = gen.place_axes(r, pick(r, [[], [1], [2], [2, 2]]), sizes)
        wn = pick(r, ["haar", "db2", "sym3"])
        mode = pick(r, gen.MODES)
        L = {"haar": 2, "db2": 4, "sym3": 6}[wn]
        if any(not gen.pad_ok(mode, n, L, lev) for n in sizes):
            mode = "symmetric"
        c.update(wn=wn, wf=pick(r, ["name", "pywt", "tensor"]), shape=shape, axes=ax, mode=mode, level=lev, sep=nd == 2 and r.random() < 0.4,
                 what=pick(r, ["node", "rec"]), p=gen.rand_path(r, nd, lev))
    return c


def make(r, tier):
    k = pick(r, ["jvp", "vmap", "vmapw", "jvpw", "hess", "real"], [5, 4, 2, 3, 3, 2])
    if k == "real":
        yield real(r)
        return
    if k in ("jvpw", "hess"):
        from .c17 import exact

        while True:
            c = exact(r)
            if not c["fn"].startswith("matrix"):
                break
        c["taps"] = True
        c["wf"] = pick(r, ["tensor", "plain"])
        c["wdt"] = c["dt"]
        m = 2 if c["fn"] == "iswt" else 1
        c["op"], c["k"] = "func", k
        if k == "jvpw":
            c["d"] = {f: [m * r.randint(-3, 3) for _ in v] for f, v in c["w"].items()}
        else:
            f = lambda v: some(r, v, c["ctmag"])
            c["v"] = map_case(c["c"], f) if c["kind"] == "rec" else f(c["x"])
        if r.random() < 0.2:  # the point does not matter (jvpw: it does, and is judged)
            z = lambda v: {"s": v["s"], "d": [0] * len(v["d"])}
            c["c" if c["kind"] == "rec" else "x"] = map_case(c["c"], z) if c["kind"] == "rec" else z(c["x"])
        c["lay"] = "c"
        yield c
        return
    if r.random() < 0.45:
        c = gen.make_rec(r, pick(r, REC), axes=r.random() < 0.5, bad=0)
        t0 = c["c"]["a"]
        mx = max([abs(v) for v in t0["d"]] + [1])
        f = lambda v: some(r, v, mx)
        mapped = lambda: map_case(c["c"], f)
        kind = "rec"
    else:
        c = gen.make_dec(r, pick(r, DEC), axes=r.random() < 0.5)
        t0 = c["x"]
        mx = max([abs(v) for v in t0["d"]] + [1])
        mapped = lambda: some(r, c["x"], mx)
        kind = "dec"
    c.update(op="func", k=k, kind=kind, lay="c")
    if k == "jvp":
        c["x0"] = mapped()
        c["api"] = pick(r, APIS)
        c["wf"] = pick(r, ["pywt", "user", "tensor", "from", "plain"])
    else:
        B = pick(r, [1, 2, 3, 5], [1, 3, 3, 1])
        if B * len(t0["d"]) > 500:
            B = 2
        c["xs"] = [mapped() for _ in range(B)]
        c["xs"][0] = c["c"] if kind == "rec" else c["x"]
        rank = len(t0["s"])
        c["at"] = 0 if k == "vmapw" else r.randint(0, rank)
        c["out"] = 0 if k == "vmapw" else r.randint(0, rank)
        c["wf"] = "tensor" if k == "vmapw" else pick(r, ["pywt", "user", "tensor", "plain"])
        if k == "vmapw":
            perm = lambda v: [x * r.choice([1, 1, -1]) for x in r.sample(v, len(v))]
            c["ws"] = [c["w"]] + [{f: perm(v) for f, v in c["w"].items()} for _ in range(B - 1)]
    yield c


def run(case):
    import random

    import torch
    from torch.func import jvp, vmap

    from ..core import build, build_bank, build_coeffs, enc, enc_bank, enc_coeffs, enc_coeffs_raw, flat_coeffs, outcome, raw
    from ..execute import base, call_dec, call_rec, ct_like, enc_grad, map_coeffs, quiet

    if case["k"] == "real":
        return compare(case)
    rec, fn, dt, k = case["kind"] == "rec", case["fn"], case["dt"], case["k"]
    taps = ("dl", "dh", "rl", "rh")
    make_in = lambda v: tuple(flat_coeffs(build_coeffs(v, dt))) if rec else (build(v, dt),)
    like = build_coeffs(case["c"], dt) if rec else None

    def refill(c, ts):
        it = iter(ts)
        return map_coeffs(c, lambda _: next(it))

    shape = []

    def f(w, *ts):
        """The transform as a function of flat tensors."""
        if rec:
            return (call_rec(fn, refill(like, ts), w, case.get("axes", [])),)
        c = call_dec(case, ts[0], w)
        if not shape:
            shape.append(map_coeffs(c, lambda t: None))
        return tuple(flat_coeffs(c))

    def encode(ts):
        if rec:
            return {"st": "ok", "v": enc(ts[0])}
        return {"st": "ok", **enc_coeffs(refill(shape[0], ts))}

    def event(v, w=None):
        ev = base({**case, "op": case["kind"]})
        if w is not None:
            ev["w"] = enc_bank(w)
        if rec:
            ev["c"] = enc_coeffs_raw(v)
        else:
            ev.update(mode=case.get("mode") or "reflect", level=case["level"], x=raw(v))
        return ev

    here = case["c"] if rec else case["x"]
    if k == "jvp":
        w = build_bank(case["w"], case["wf"], dt)
        g = lambda *ts: f(w, *ts)
        e0, e1 = event(case["x0"]), event(here)
        got = {}

        def go():
            x0, v = make_in(case["x0"]), make_in(here)
            if case["api"] == "jvp":
                got["o"], got["t"] = jvp(g, x0, v)
            elif case["api"] == "dual":
                import torch.autograd.forward_ad as fw

                with fw.dual_level():
                    ds = [fw.unpack_dual(o) for o in g(*[fw.make_dual(a, b) for a, b in zip(x0, v)])]
                    got["o"] = [d.primal for d in ds]
                    got["t"] = [torch.zeros_like(d.primal) if d.tangent is None else d.tangent for d in ds]
            else:
                x0 = [a.requires_grad_(True) for a in x0]
                got["o"] = g(*x0)
                cs = [torch.zeros_like(o).requires_grad_(True) for o in got["o"]]
                gs = torch.autograd.grad(got["o"], x0, cs, create_graph=True)
                got["t"] = torch.autograd.grad(gs, cs, v)
            return encode(got["t"])

        e1["out"] = outcome(lambda: quiet(go))
        e0["out"] = e1["out"] if e1["out"]["st"] != "ok" else outcome(lambda: encode(got["o"]))
        return [e0, e1]

    if k in ("vmap", "vmapw"):
        at, to = case["at"], case["out"]
        xs = [make_in(v) for v in case["xs"]]
        stacked = [torch.stack(ts, at) for ts in zip(*xs)]
        if k == "vmap":
            # one event: the stacked call with the axes shifted past the mapped dimension
            w = build_bank(case["w"], case["wf"], dt)
            rank = xs[0][0].dim()
            axes = case.get("axes") or list(range(rank - gen.ND[fn], rank))
            shifted = [a + 1 if a >= at else a for a in [a % rank for a in axes]]
            hs = iter(stacked)
            dec = lambda t: {"s": list(t.shape), "d": [int(v) for v in t.double().flatten().tolist()]}
            if rec:
                ev = event(map_case(case["c"], lambda _: dec(next(hs))))
            else:
                ev = event(dec(stacked[0]))
            ev["axes"] = shifted

            def go():
                outs = vmap(lambda *ts: f(w, *ts), in_dims=at, out_dims=to)(*stacked)
                return encode([o.movedim(to, at) for o in outs])

            ev["out"] = outcome(lambda: quiet(go))
            return [ev]
        evs = [event(v, w) for v, w in zip(case["xs"], case["ws"])]

        def go():
            import ptwt

            banks = [build_bank(w, "tensor", dt) for w in case["ws"]]
            fs = [torch.stack(ts) for ts in zip(*[tuple(b) for b in banks])]
            outs = vmap(lambda a, b, c, d, *ts: f(ptwt.WaveletTensorTuple(a, b, c, d), *ts))(*fs, *stacked)
            return [encode([o[i] for o in outs]) for i in range(len(xs))]

        res = outcome(lambda: {"st": "ok", "r": quiet(go)})
        for i, ev in enumerate(evs):
            ev["out"] = res["r"][i] if res["st"] == "ok" else res
        return evs

    # derivatives with respect to the taps
    w = build_bank(case["w"], case["wf"], dt)
    cls = type(w)
    bank = lambda ts: tuple(ts) if cls is tuple else cls(*ts)
    x = make_in(here)
    ev = event(here)
    ev.update(op="func", kind=case["kind"], k=k, d=enc_bank(case["d"]), wdt=case["wdt"])
    got = {}

    def first():
        got["o"] = f(w, *x)
        return encode(got["o"])

    ev["out"] = outcome(lambda: quiet(first))
    ev["back"] = {"st": "none", "exc": ""}
    if ev["out"]["st"] != "ok":
        return [ev]
    r = random.Random(case["salt"])
    cts = [ct_like(t, r, case["ctmag"], case["ctm"]) for t in got["o"]]

    def structure(es):
        it = iter(es)
        if rec:
            return next(it)
        return {"a": next(it), "ds": [{"b": [{"k": b["k"], "v": next(it)} for b in d["b"]]} for d in ev["out"]["ds"]]}

    ev["ct"] = structure([raw(c) for c, _ in cts])

    def tangent():
        d = build_bank(case["d"], "plain", dt)
        o, t = jvp(lambda *ts: f(bank(ts), *x), tuple(w), tuple(d))
        ev["tan"] = structure([enc(v) for v in t])
        return {"st": "ok", "exc": ""}

    def second():
        ws = [t.detach().clone().requires_grad_(True) for t in w]
        xs = [t.requires_grad_(True) for t in x]
        v = make_in(case["v"])
        os_ = f(bank(ws), *xs)
        gs = torch.autograd.grad(os_, xs, [c for _, c in cts], create_graph=True)
        s = sum((a * b).sum() for a, b in zip(gs, v))
        hs = torch.autograd.grad(s, ws, allow_unused=True) if s.requires_grad else [None] * 4
        ev["gw"] = {n: enc_grad(h, t) for n, h, t in zip(taps, hs, ws)}
        return {"st": "ok", "exc": ""}

    ev["back"] = outcome(lambda: quiet(tangent if k == "jvpw" else second))
    if k == "hess":
        # the second derivative belongs to the data v
        ev["vx" if not rec else "vc"] = raw(case["v"]) if not rec else enc_coeffs_raw(case["v"])
    return [ev]


def compare(case):
    import ptwt
    import torch
    from torch.func import jvp, vmap

    from ..core import build_bank, outcome
    from ..execute import deviation, noise, quiet

    ev = {"id": case["id"], "op": "opt", "k": "jit", "fn": case["fn"], "tol": 16}
    x = noise(case["salt"], case["shape"])
    x0 = torch.zeros_like(x) if case["zero"] else noise(case["salt"] + 1, case["shape"])
    fn = case["fn"]
    if fn == "cwt":
        f = lambda v: (ptwt.cwt(v, case["scales"], case["wn"], precision=case["precision"])[0],)
    else:
        cls, kw = (ptwt.WaveletPacket, {"axis": case["axes"][0] if case["axes"] else None}) if fn == "packet1" else (ptwt.WaveletPacket2D, {"axes": tuple(case["axes"]) or None, "separable": case["sep"]})
        w = build_bank(case["wn"], case["wf"], "float64")

        def f(v):
            wp = cls(v, w, mode=case["mode"], maxlevel=case["level"], **kw)
            if case["what"] == "node":
                return (wp["".join(case["p"])],)
            wp.initialize("".join(p) for p in gen.all_paths(1 if fn == "packet1" else 2, case["level"]))
            return (wp.reconstruct()[""],)
    ref = outcome(lambda: quiet(lambda: {"st": "ok", "ts": f(x)}))

    def go():
        if case["how"] == "jvp":
            t = jvp(f, (x0,), (x,))[1]
            return {"st": "ok", "exc": "", "err": deviation(list(ref["ts"]), list(t), 40)}
        t = vmap(f)(torch.stack([x0, x, x0]))
        return {"st": "ok", "exc": "", "err": deviation(list(ref["ts"]), [v[1] for v in t], 40)}

    out = outcome(lambda: quiet(go)) if ref["st"] == "ok" else {"st": "err", "exc": ref["exc"]}
    ev.update(ref=ref["st"], out={"st": out["st"], "exc": out.get("exc", ""), "err": out.get("err", -1)})
    return ev


def classify(c):
    return f"{c['k']}/{c['fn']}/{c.get('api', c.get('how', ''))}"
