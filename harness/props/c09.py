"""Boundary-filter objects and packet trees used repeatedly.  TLC explores the design
model MatrixCache (cache keyed by evened length and dtype, calls failing before, during
and after a build) and emits every history of three calls; the histories are replayed on
real 1-D, 2-D and 3-D analysis and synthesis objects (two interleaved objects with
different banks of the same name), failures being injected at chosen torch calls.  Each
call is judged by the stateless specification and, bit by bit, against a fresh object.
Calls are made in the usual mode (most then differentiated), without gradients and in
inference mode; objects are copied and pickled in between, and original and copy both used on.
Packet trees are transformed again with other shapes, dtypes and maximum levels."""

import json
import os
import random
import re

from .. import core, gen, worker
from ..gen import pick

PROP = "C09"
COUNT = {"quick": 2000, "thorough": 24000}
SCRIPTS = {"quick": 1100, "thorough": 13824}
ASSUMPTIONS = ["failures are injected as exceptions raised by a torch function call"]


def model(tmp, cfg, expect=None):
    """Explore the design model; expect names the invariant a careless variant must break."""
    wd = os.path.join(tmp, cfg)
    os.makedirs(wd)
    rc, out = worker.run_tlc("MatrixCache", os.path.join(core.SPEC, cfg + ".cfg"), wd, heap="4g", workers="4")
    ok = any(f"Invariant {inv} is violated" in out for inv in expect) if expect else rc == 0 and "No error has been found" in out
    g, d = worker.stats(out)
    return out, {"module": "MatrixCache", "cfg": cfg + ".cfg", "ok": ok, "states": d, "transitions": g, "tail": out[-2000:] if not ok else ""}


COHERENT = ["Independence", "CacheCoherent"]


def prepare(tmp, tier):
    """Design models and the histories they allow."""
    res, lists = [], []
    for cfg, least in (("MatrixCache", 5000), ("MatrixCacheCopies", 2000)):
        out, m = model(tmp, cfg)
        scripts = [json.loads(json.loads('"' + t + '"')) for t in re.findall(r'"@@SCRIPT (.*)"$', out, re.M)]
        if cfg == "MatrixCacheCopies":
            scripts = [s for s in scripts if any(c["bad"] == "swap" for c in s["calls"])]
        scripts.sort(key=json.dumps)
        m.update(scripts=len(scripts), ok=m["ok"] and len(scripts) > least)
        res.append(m)
        lists.append(scripts)
    for cfg, inv in (("MatrixCacheCareless", COHERENT), ("MatrixCacheFreezing", ["Usable"]), ("MatrixCacheSharing", COHERENT)):
        res.append(model(tmp, cfg, inv)[1])
    r = random.Random(core.seed())
    n = SCRIPTS[tier]
    out = r.sample(lists[0], min(len(lists[0]), n * 2 // 3)) + r.sample(lists[1], min(len(lists[1]), n // 3))
    with open(os.path.join(tmp, "scripts.json"), "w") as f:
        json.dump(out, f)
    return res


def chain(r, L, top, J):
    """Coefficient sizes per level for a signal length."""
    n = top + top % 2
    ch = []
    for _ in range(J):
        if n < L:
            break
        n += n % 2
        n //= 2
        ch.insert(0, n)
    return ch


def coeffs(r, fn, w, sizes, J, batch, dt, mag):
    nd = gen.MDIM[fn]
    L = len(w["dl"])
    k = min(len(chain(r, L, s, J)) for s in sizes)
    chs = [chain(r, L, s, k) for s in sizes]
    if k == 0:
        a = gen.data(r, batch + sizes, mag)
        return {"kind": "list" if nd == 1 else "tuple", "a": a, "ds": []}
    ds = []
    for j in range(k):
        shp = batch + [c[j] for c in chs]
        if nd == 1:
            ds.append({"kind": "tensor", "b": [{"k": ["d"], "v": gen.data(r, shp, mag)}]})
        elif nd == 2:
            ds.append({"kind": "named", "b": [{"k": q, "v": gen.data(r, shp, mag)} for q in gen.TUPLE2]})
        else:
            ds.append({"kind": "dict", "b": [{"k": q, "v": gen.data(r, shp, mag)} for q in gen.keys_nd(nd)]})
    return {"kind": "list" if nd == 1 else "tuple", "a": gen.data(r, batch + [c[0] for c in chs], mag), "ds": ds}


def obj(r, fn, inverse, level, L=None):
    nd = gen.MDIM[fn]
    L = L or pick(r, [2, 4, 6], [4, 3, 1] if nd < 3 else [3, 1, 0])
    if level < 0:
        level = -1
    mag = max(1, min(40, gen.tap_mag(L * (2 if inverse else 1), 3 * nd, "float64", 50)))
    return {"fn": fn, "inverse": inverse, "level": level, "axes": [], "w": gen.sound_bank(lambda: gen.bank(r, L, mag), fn == "matrix2"), "wf": pick(r, ["pywt", "user"], [3, 1]), "orth": pick(r, ["qr", "gramschmidt"], [3, 1]), "mode": pick(r, ["zero", "constant", "symmetric", "periodic"])}


def sizes_of(r, cls, L, nd, alt=0):
    """Sizes of the length classes short, odd, even, long of the model."""
    even = {1: 2 * L, 2: L + L % 2 + 2, 3: L + 2}[nd]
    n = {"short": max(1, L - 1), "odd": even - 1, "even": even, "long": 2 * even if nd < 3 else 2 * even - 4}[cls]
    s = [n] * nd
    if nd > 1 and alt:  # the same lengths on other axes
        s = [n, even] if alt == 1 else [even, n]
        s = s + [n] * (nd - 2)
    return s


def how(r, st, m):
    """The mode of a call and whether the data asks for gradients."""
    if st["bad"] == "no":
        st["ctx"] = "infer" if m == "infer" else pick(r, ["plain", "nograd"], [4, 1])
        st["grad"] = m != "infer" and st["ctx"] == "plain" and r.random() < 0.6
    return st


def step(r, o, i, cls, dt, bad, slot=None):
    ob = o[i]
    L, nd = len(ob["w"]["dl"]), gen.MDIM[ob["fn"]]
    sz = sizes_of(r, cls, L, nd, r.choice([0, 0, 1, 2]))
    batch = pick(r, [[], [1], [2], [2, 2]], [4, 1, 2, 1])
    st = {"o": i if slot is None else slot, "dt": dt, "bad": bad, "frac": round(r.random(), 4)}
    mag = 50 if dt == "float64" else 1
    if ob["inverse"]:
        J = ob["level"] if ob["level"] > 0 else pick(r, [1, 2])
        st["c"] = coeffs(r, ob["fn"], ob["w"], sz, J, batch, dt, mag)
    else:
        st["x"] = gen.data(r, batch + sz, mag)
    return st


DT = {"f32": "float32", "f64": "float64"}


def amp_ok(ob, dt):
    """float32 calls need small banks to stay exact."""
    return dt == "float64" or ob["exact32"]


def small(r, ob):
    """Replace the bank by one that stays exact in float32."""
    L = len(ob["w"]["dl"])
    ob["w"] = gen.sound_bank(lambda: {k: [r.choice([-1, 1]) for _ in range(L)] for k in ob["w"]}, ob["fn"] == "matrix2")
    nd = gen.MDIM[ob["fn"]]
    return (2 if ob["inverse"] else 1) * L


def instantiate(r, script):
    fn = pick(r, ["matrix1", "matrix2", "matrix2s", "matrix3"], [4, 2, 3, 2])
    inv = r.random() < 0.4
    L = pick(r, [2, 4], [3, 2]) if gen.MDIM[fn] < 3 else 2
    ob = [obj(r, fn, inv, script["level"] or -1, L)]
    if any(c["t"] == "f32" for c in script["calls"]):
        small(r, ob[0])
    two = r.random() < 0.4
    if two:
        ob.append(obj(r, fn, inv, script["level"] or -1, L))
        if any(c["t"] == "f32" for c in script["calls"]):
            small(r, ob[1])
    steps = []
    me, twin = 0, None  # slots of the object in use and of its copy
    for c in script["calls"]:
        if c["bad"] == "copy":
            steps.append({"bad": "copy", "o": me, "kind": pick(r, ["deep", "pickle"])})
            me, twin = len(ob), me
        elif c["bad"] == "swap":
            me, twin = twin, me
        else:
            if two and r.random() < 0.5:
                steps.append(how(r, step(r, ob, 1, c["n"], DT[c["t"]], "no"), pick(r, ["plain", "infer"])))
            steps.append(how(r, step(r, ob, 0, c["n"], DT[c["t"]], c["bad"], me), c["m"]))
    return {"op": "hist", "objs": ob, "steps": steps}


def fixed(tier):
    r = random.Random(f"scripts/{core.seed()}")
    for s in json.load(open(os.path.join(core.TMP, "scripts.json"))):
        yield instantiate(r, s)


ORTH = ["haar", "db2", "db3", "db4", "sym4"]
WL = {"haar": 2, "db2": 4, "db3": 6, "db4": 8, "sym4": 8}


def again(r):
    nd = pick(r, [1, 1, 2])
    w = pick(r, ORTH[:3] if nd == 2 else ORTH)
    L = WL[w]
    mode = pick(r, ["boundary", "boundary", "boundary", "zero", "reflect", "periodic", "symmetric", "constant"])
    c = {"op": "again", "nd": nd, "wn": w, "wf": pick(r, ["name", "pywt"]), "mode": mode, "orth": pick(r, ["qr", "gramschmidt"]), "sep": nd == 2 and (mode != "boundary" or r.random() < 0.9) and r.random() < 0.7}
    if nd == 2 and mode == "boundary" and L > 2:
        c["sep"] = True
    rank = nd + pick(r, [0, 1, 2])
    pos = r.sample(range(rank), nd)
    c["axes"] = [] if r.random() < 0.4 else pos
    slots = c["axes"] or list(range(rank - nd, rank))
    steps = []
    for _ in range(r.randint(2, 4)):
        sz = [pick(r, [2 * L, 2 * L + 1, 4 * L, L + 2, 2 * L + 2, r.randint(L, 5 * L)]) for _ in range(nd)]
        if nd == 2:
            sz = [min(s, 20) for s in sz]
        shape = gen.place([r.randint(1, 3) for _ in range(rank)], sz, slots)
        ml = pick(r, [-1, 1, 2])
        J = ml if ml >= 0 else max(0, min(gen.max_level(s, L) for s in sz))
        J = min(J, 3)
        if ml < 0 and nd == 2 and J > 1:
            ml = J = 1
        paths = ["".join(gen.rand_path(r, nd, J)) for _ in range(3)]
        steps.append({"shape": shape, "dt": pick(r, ["float64", "float32"]), "ml": ml, "salt": r.randint(1, 10**6), "paths": paths, "rec": r.random() < 0.4 and J <= 2, "bad": r.random() < 0.25, "frac": round(r.random(), 4)})
    steps[-1]["bad"] = False
    for s in steps:
        if not s["bad"]:
            s["ctx"] = pick(r, ["plain", "nograd", "infer"], [3, 1, 1])
            s["grad"] = s["ctx"] == "plain" and r.random() < 0.6
    return {**c, "steps": steps}


def make(r, tier):
    if r.random() < 0.4:
        yield again(r)
        return
    ob = []
    f32 = r.random() < 0.4
    fn0 = pick(r, ["matrix1", "matrix2", "matrix2s", "matrix3"], [4, 2, 3, 2])
    for _ in range(pick(r, [1, 2, 3])):
        fn = fn0 if r.random() < 0.7 else pick(r, ["matrix1", "matrix2s"])
        o = obj(r, fn, r.random() < 0.4, pick(r, [-1, 1, 2, 3]), 2 if gen.MDIM[fn] == 3 else None)
        if f32:
            small(r, o)
        ob.append(o)
    steps = []
    slots = list(range(len(ob)))  # copies go to new slots
    for _ in range(r.randint(2, 6)):
        k = r.randrange(len(slots))
        cls = pick(r, ["short", "odd", "even", "long"])
        dt = pick(r, ["float64", "float32"]) if f32 else "float64"
        steps.append(how(r, step(r, ob, slots[k], cls, dt, pick(r, ["no", "early", "mid", "late"], [6, 1, 1, 1]), k), pick(r, ["plain", "infer"], [3, 1])))
        if r.random() < 0.15:
            steps.append({"bad": "copy", "o": k, "kind": pick(r, ["deep", "pickle"])})
            slots.append(slots[k])
    yield {"op": "hist", "objs": ob, "steps": steps}


def classify(c):
    if c["op"] == "again":
        return f"tree/{c['nd']}d/{c['mode']}"
    return "+".join(sorted({("rec-" if o["inverse"] else "dec-") + o["fn"] for o in c["objs"]}))
