"""The continuous transform.  (1) Wavelets given by integer tables (learnable wavelet
objects, real and complex, and discrete wavelets with integer taps), integer signals,
scales (a/b)^2 in any order and with repetitions, all accepted forms of the scales,
batches and memory layouts: every output sample, the frequencies, realness and the
refusal of scales that are too small are compared with the specification.  (2) Named
continuous, discrete and learnable wavelets at several precisions: the call agrees with
the call of the tabulated wavelet (whose value (1) decides), with calls of its scales one
by one and with calls of its signals one by one."""

from .. import gen
from ..gen import pick

PROP = "C16"
COUNT = {"quick": 12000, "thorough": 100000}
ASSUMPTIONS = [
    "the grid of the exact cases has a step that is a power of two, scales are squares of dyadic rationals",
    "samples of named wavelets are those of PyWavelets at the same precision; agreement up to 2^-32",
    "single precision signals of named wavelets are not covered (the results are double precision)",
]

NAMES = ["mexh", "morl", "gaus1", "gaus2", "gaus5", "gaus8", "cgau1", "cgau2", "cgau5", "cgau8", "shan1.5-1.0", "shan0.5-2.0",
         "cmor1.5-1.0", "cmor0.7-0.5", "fbsp2-1.5-1.0", "fbsp1-0.7-1.2", "haar", "db2", "db3", "db7", "sym4", "coif2", "dmey"]
FORMS = ["np", "np", "torch", "list", "tuple"]


def shape(r, hi):
    n = r.randint(1, hi) if r.random() < 0.85 else pick(r, [1, 2, 3])
    return pick(r, [[], [1], [2], [3], [2, 2]], [4, 1, 2, 1, 1]) + [n]


def fine(r):
    """Scales with large denominators on a fine grid."""
    while True:
        b, stn, std = pick(r, [8, 16, 32, 64]), pick(r, [1, 3, 5]), pick(r, [64, 128, 256])
        a = r.randint(b, 6 * b)
        if 1.01 < (a / b) ** 2 * 1024 * stn / std <= 120:
            break
    cplx = r.random() < 0.3
    tab = lambda: [r.randint(-50, 50) for _ in range(1024)]
    return {"op": "cwt", "dt": "float64", "lay": "c", "period": 1.0, "form": "table", "precision": 10, "cplx": cplx, "stn": stn, "std": std,
            "lo": pick(r, [0, -2]), "psi": {"re": tab(), "im": tab() if cplx else []}, "scales": [[a, b]], "sf": pick(r, ["np", "list", "scalar"]),
            "x": gen.data(r, [pick(r, [1, 3, 10, 25])], 1000)}


def exact(r):
    if r.random() < 0.04:
        return fine(r)
    dt = "float32" if r.random() < 0.25 else "float64"
    discrete = r.random() < 0.25
    case = {"op": "cwt", "dt": dt, "lay": pick(r, ["c", "t", "s", "o"]), "period": pick(r, [1.0, 0.5, 2.0, 0.01, 3.7])}
    small = r.random() < 0.08
    if discrete:
        L = pick(r, [2, 4, 6])
        case.update(form="discrete", precision=pick(r, [2, 4]), cplx=False, stn=1, std=1, lo=0)
        if case["precision"] == 4:
            dt = case["dt"] = "float64"
        mag = 1 if dt == "float32" else 3
        case["w"] = {k: [r.choice([v for v in range(-mag, mag + 1) if v]) for _ in range(L)] for k in ("dl", "dh", "rl", "rh")}
        span = L - 1
        tmag = 1
    else:
        p = r.randint(1, 6)
        stn = pick(r, [1, 1, 1, 2, 4]) if p < 4 else 1
        std = pick(r, [1, 2, 4, 8, 16])
        if small:
            p, stn, std = r.randint(1, 2), 1, pick(r, [8, 16])
        tmag = 3 if dt == "float32" else 50
        cplx = r.random() < 0.5
        tab = lambda: [r.randint(-tmag, tmag) for _ in range(2**p)]
        case.update(form="table", precision=p, cplx=cplx, stn=stn, std=std, lo=pick(r, [0, 0, -(2 ** (p - 1)), -1, 3]))
        case["psi"] = {"re": tab(), "im": tab() if cplx else []}
        if r.random() < 0.1:
            # constant shifts of the integral show up at the ends only
            case["psi"]["re"] = [0] * (2**p - 1) + [1]
        span = (2**p - 1) * stn / std
    # the sampled wavelet has about scale * span entries
    cap = 120 if dt == "float64" else 40
    scs = []
    for _ in range(r.randint(1, 5)):
        for _ in range(200):
            b = pick(r, [1, 1, 2, 4])
            a = r.randint(1, 6 * b)
            m = (a / b) ** 2 * span * (1 + 1 / (2 ** case["precision"] - 1 if not discrete else span * 2 ** case["precision"]))
            if m <= cap and (small or m > 1.001):
                scs.append([a, b])
                break
    if not scs:
        return exact(r)
    if r.random() < 0.4:
        scs.append(pick(r, scs))
    r.shuffle(scs)
    if r.random() < 0.25:
        scs.sort(key=lambda s: s[0] / s[1], reverse=r.random() < 0.7)
    sf = pick(r, FORMS)
    if all(a % b == 0 for a, b in scs) and r.random() < 0.7:
        sf = pick(r, ["int", "torchint", "np", "list"])
    if len(scs) == 1 and r.random() < 0.6:
        sf = "scalar" if scs[0][0] % scs[0][1] or r.random() < 0.5 else pick(r, ["intscalar", "npscalar"])
    if sf == "np" and r.random() < 0.2:
        sf = "np32"
    case["scales"], case["sf"] = scs, sf
    case["x"] = gen.data(r, shape(r, 40 if dt == "float64" else 20), 1000 if dt == "float64" else 5)
    return case


def named(r):
    wn = pick(r, NAMES)
    cont = wn[0] in "mgcsf" and not wn.startswith(("sym", "coif"))
    wf = pick(r, ["name", "obj"])
    if wn[:4] in ("shan", "cmor") and r.random() < 0.5:
        wf = "learn"
    scales = [round(r.uniform(0.9, 12), 3) + 0.00037 for _ in range(r.randint(1, 5))]
    if wn in ("haar", "db2"):  # short supports
        scales = [s + 1 for s in scales]
    if r.random() < 0.3:
        scales.append(pick(r, scales))
    if r.random() < 0.06:
        scales.insert(r.randint(0, len(scales)), 0.001)
    p = pick(r, [3, 5, 8, 10, 12, 13, 14], [2, 2, 4, 2, 4, 1, 1])
    if wf == "learn" and p == 3:
        p = 5
    sf = pick(r, FORMS) if len(scales) > 1 else pick(r, FORMS + ["scalar", "npscalar"])
    s = shape(r, 70)
    if r.random() < 0.04:
        s = [r.randint(200, 1200)]
    return {"op": "cwtn", "wn": wn, "wf": wf, "scales": scales, "sf": sf, "precision": p, "s": s, "salt": r.randint(1, 10**6),
            "lay": pick(r, ["c", "t", "s", "o"]), "period": pick(r, [1.0, 0.5, 0.013, 3.7]), "cont": cont}


def make(r, tier):
    yield exact(r) if r.random() < 0.65 else named(r)


def classify(c):
    return f"{c['op']}/{c.get('form', c.get('wn'))}/{c.get('sf')}"
