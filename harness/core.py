"""Core of the conformance harness.

Everything here is glue: it builds inputs, calls the public API of ptwt, encodes
what it observed and hands the encoded events to TLC.  The verdicts are computed
by the TLA+ specification (spec/*.tla), never in Python.
"""

from __future__ import annotations

import json
import os
import sys

REPO = os.environ.get("PTWT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

TMP = ""  # scratch directory of the running check

P = 32749  # modulus of spec/Arith.tla


def seed() -> int:
    return int(os.environ.get("VERIF_SEED", "1") or "1")


def tier() -> str:
    return os.environ.get("VERIF_TIER", "quick") or "quick"


def import_ptwt():
    """Import ptwt from the working tree of the repository."""
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    import warnings

    warnings.filterwarnings("ignore")
    import torch

    torch.set_num_threads(1)
    import ptwt

    assert os.path.realpath(ptwt.__file__).startswith(os.path.realpath(src)), ptwt.__file__
    return ptwt


# ----------------------------------------------------------------- encoding
def enc_int(values):
    """Python integers -> residues."""
    return [int(v) % P for v in values]


# Power of two by which the data of the running case is scaled (linear transforms: the
# results are scaled by it too, exactly).
SCALE = 1.0
# Powers of two by which the analysis and the synthesis taps are scaled, and the factor this
# (or its inverse) means for coefficients per level.
TAPS = (1.0, 1.0)
PER_LEVEL = 1.0
# Mode in which the library is called: "plain", "nograd", "infer" (inference mode), or "grad"
# (the data ask for gradients).  No result depends on it.
MODE = "plain"


def in_mode():
    import contextlib

    if MODE in ("plain", "grad"):
        return contextlib.nullcontext()
    import torch

    return torch.no_grad() if MODE == "nograd" else torch.inference_mode()


def settings(case):
    """Set the scaling of a case (exact: powers of two)."""
    global SCALE, TAPS, PER_LEVEL, MODE
    MODE = case.get("ctx", "plain")
    SCALE = 2.0 ** case.get("sc", 0)
    k, op = case.get("wsc", 0), case.get("op")
    TAPS = (2.0**-k, 2.0**k)
    PER_LEVEL = 2.0 ** (-k * case.get("wnd", 1)) if op in ("dec", "rec") else 1.0


class at_level:
    """Coefficients of level j of this case."""

    def __init__(self, j):
        self.f = PER_LEVEL**j

    def __enter__(self):
        global SCALE
        SCALE *= self.f

    def __exit__(self, *a):
        global SCALE
        SCALE /= self.f


def warm(case, w, data, call):
    """Use the very objects of a call, or objects much like them, with other contents once.

    call: wavelet -> the call.  Taps are changed a lot or by one unit.
    """
    import torch

    a, b = (3, 1.0) if sum(case["w"]["dl"]) % 2 else (1, 1.0)
    b *= TAPS[0]
    tensors, lists = mutable_taps(w)
    data = [t for t in data if 0 not in t.stride()]
    other = w
    if not tensors and not lists:
        other = build_bank({k: [v + 1 for v in f] for k, f in case["w"].items()}, case.get("wf", "pywt"), case["dt"])
    with torch.no_grad():
        old = [t.clone() for t in tensors + data]
        olds = [list(v) for v in lists]
        for t in tensors:
            t.mul_(a).add_(b)
        for v in lists:
            v[:] = [a * t + b for t in v]
        for t in data:
            t.copy_(t.reshape(-1).flip(0).reshape(t.shape) * 3 + SCALE)
    try:
        call(other)
    except Exception:  # noqa: BLE001 - the call with the real contents is judged
        pass
    with torch.no_grad():
        for t, o in zip(tensors + data, old):
            t.copy_(o)
    for v, o in zip(lists, olds):
        v[:] = o


def mutable_taps(w):
    """Tensors and lists holding the taps of a wavelet object."""
    if isinstance(w, UserWavelet):
        return [], [f for f in w.filter_bank if isinstance(f, list)]
    if isinstance(w, tuple):
        return list(w), []
    if hasattr(w, "parameters"):
        return list(w.parameters()), []
    return [], []


def enc(t, tol=1e-2):
    """Encode a real tensor whose entries should be integers.

    Entries that are not (within rounding) integers become -1, which is no
    residue and therefore never equals what the specification computes.
    """
    import numpy as np

    if not hasattr(t, "detach"):
        return {"s": [-1], "d": [-1], "dt": type(t).__name__}
    dt = str(t.dtype).replace("torch.", "")
    a = t.detach().resolve_conj()
    if a.is_sparse:
        a = a.to_dense()
    if a.is_complex():
        return {"s": list(a.shape), "d": [-2] * a.numel(), "dt": dt}
    a = a.double().cpu().numpy().reshape(-1) / SCALE
    with np.errstate(all="ignore"):
        r = np.rint(a)
        ok = np.isfinite(a) & (np.abs(a) < 2.0**53) & (np.abs(a - r) <= tol)
        m = np.mod(np.where(ok, r, 0).astype(np.int64), P)
    m = np.where(ok, m, -1)
    return {"s": [int(v) for v in t.shape], "d": [int(v) for v in m], "dt": dt}


def raw(x):
    """Integer data of a case as an event tensor."""
    return {"s": list(x["s"]), "d": enc_int(x["d"])}


def enc_bank(w):
    return {k: enc_int(w[k]) for k in ("dl", "dh", "rl", "rh")}


# ------------------------------------------------------------ building inputs
def dtype_of(name):
    import torch

    return getattr(torch, name)


def build(x, dt="float64", lay="c"):
    """Tensor of a case in the requested dtype and memory layout."""
    import torch

    t = lay_out((torch.tensor(x["d"], dtype=torch.float64) * SCALE).reshape(x["s"]).to(dtype_of(dt)), x, lay)
    if MODE == "grad" and t.is_floating_point():
        t.requires_grad_(True)
    return t


def lay_out(t, x, lay):
    import torch

    if lay == "c" or t.dim() == 0:
        return t
    if lay == "t" and len(set(x["d"])) == 1:  # all strides 0
        return t.reshape(-1)[0].clone().expand(t.shape)
    if lay == "t":  # reversed strides
        perm = list(range(t.dim()))[::-1]
        return t.permute(perm).contiguous().permute(perm)
    if lay == "s":  # every second sample of a larger buffer
        big = torch.full([2 * s + 1 for s in t.shape], 7.0, dtype=t.dtype)
        view = big[tuple(slice(1, 2 * s + 1, 2) for s in t.shape)]
        view.copy_(t)
        return view
    if lay == "o":  # storage offset
        flat = torch.full([t.numel() + 5], 3.0, dtype=t.dtype)
        v = flat[4 : 4 + t.numel()].view(t.shape)
        v.copy_(t)
        return v
    raise ValueError(lay)


class UserWavelet:
    """A user defined class following the documented wavelet protocol."""

    def __init__(self, fb):
        self.dec_lo, self.dec_hi, self.rec_lo, self.rec_hi = fb
        self.filter_bank = tuple(fb)
        self.name = "user"
        self.dec_len = len(self.dec_lo)
        self.rec_len = len(self.rec_lo)

    def __len__(self):
        return len(self.dec_lo)


def build_bank(w, form="pywt", dt="float64", grad=False):
    import pywt
    import torch

    if isinstance(w, str):
        name = w
        if form == "name":
            return name
        wav = pywt.Wavelet(name)
        fb = [list(f) for f in wav.filter_bank]
        if form == "pywt":
            return wav
    else:
        fb = [[float(v) * TAPS[k[0] == "r"] for v in w[k]] for k in ("dl", "dh", "rl", "rh")]
    if form == "pywt":
        return pywt.Wavelet("custom", filter_bank=fb)
    if form == "user":
        return UserWavelet(fb)
    if form == "usertuple":
        return UserWavelet([tuple(f) for f in fb])
    import ptwt

    if form == "from":
        return ptwt.WaveletTensorTuple.from_wavelet(UserWavelet(fb), dtype_of(dt))
    ts = [torch.tensor(f, dtype=dtype_of(dt)) for f in fb]
    if grad:
        for t in ts:
            t.requires_grad_(True)
    if form == "tensor":
        return ptwt.WaveletTensorTuple(*ts)
    if form == "plain":
        return tuple(ts)
    if form == "product":
        from ptwt.wavelets_learnable import ProductFilter

        return ProductFilter(*ts)
    if form == "soft":
        from ptwt.wavelets_learnable import SoftOrthogonalWavelet

        return SoftOrthogonalWavelet(*ts)
    raise ValueError(form)


# ------------------------------------------------- coefficient structures
TUPLE_NAMES = ["H", "V", "D"]


def enc_coeffs(c, e=enc):
    """Encode a coefficient structure without interpreting it."""
    out = {"kind": "list" if isinstance(c, list) else "tuple" if isinstance(c, tuple) else type(c).__name__}
    c = list(c)
    with at_level(len(c) - 1):
        out["a"] = e(c[0])
    out["ds"] = []
    for j, d in enumerate(c[1:]):
        with at_level(len(c) - 1 - j):
            out["ds"].append(enc_detail(d, e))
    return out


def enc_detail(d, e):
    ds = []
    for d in [d]:
        if isinstance(d, dict):
            ds.append({"kind": "dict", "b": [{"k": list(k), "v": e(v)} for k, v in d.items()]})
        elif isinstance(d, tuple):
            named = all(hasattr(d, n) for n in ("horizontal", "vertical", "diagonal"))
            ds.append(
                {
                    "kind": "named" if named else "tuple",
                    "b": [{"k": [TUPLE_NAMES[i] if i < 3 else "?"], "v": e(v)} for i, v in enumerate(d)],
                }
            )
        else:
            ds.append({"kind": "tensor", "b": [{"k": ["d"], "v": e(d)}]})
    return ds[0]


def enc_coeffs_raw(c):
    """Event encoding of the coefficient part of a case."""
    return {
        "kind": c["kind"],
        "a": raw(c["a"]),
        "ds": [
            {"kind": d["kind"], "b": [{"k": b["k"], "v": raw(b["v"])} for b in d["b"]]} for d in c["ds"]
        ],
    }


def build_coeffs(c, dt="float64", lay="c"):
    """Coefficient structure of a case -> objects for the API."""
    import ptwt

    J = len(c["ds"])
    with at_level(J):
        res = [build(c["a"], dt, lay)]
    for j, d in enumerate(c["ds"]):
        with at_level(J - j):
            vs = [build(b["v"], dt, lay) for b in d["b"]]
        if d["kind"] == "dict":
            res.append({"".join(b["k"]): v for b, v in zip(d["b"], vs)})
        elif d["kind"] == "named":
            res.append(ptwt.WaveletDetailTuple2d(*vs))
        elif d["kind"] == "tuple":
            res.append(tuple(vs))
        else:
            res.append(vs[0])
    return res if c["kind"] == "list" else tuple(res)


def flat_coeffs(c):
    """All tensors of a coefficient structure, in order."""
    out = []
    for d in c:
        if isinstance(d, dict):
            out += list(d.values())
        elif isinstance(d, tuple):
            out += list(d)
        else:
            out.append(d)
    return out


def outcome(f):
    """Run f; observed outcome as an event fragment."""
    try:
        with in_mode():
            return f()
    except CaseTimeout:
        raise
    except Exception as ex:  # noqa: BLE001 - every failure of the code is an observation
        tb = ex.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        if isinstance(ex, NameError) and tb.tb_frame.f_code.co_filename.startswith(os.path.join(VERIF, "harness")):
            raise
        return {"st": "err", "exc": type(ex).__name__, "msg": str(ex)[:200]}


class CaseTimeout(BaseException):
    pass


def dump(path, obj):
    with open(path, "w") as f:
        json.dump(obj, f)
