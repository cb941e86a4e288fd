"""Packet tree life cycle.  TLC explores the design model PacketLife exhaustively up to
a history length and emits one script per transition of its state graph; every script
is replayed on real 1-D or 2-D trees with random data, bank, mode and axis, and the
recorded calls (results, exceptions, stored keys, values) are validated.  Random
histories on two interleaved trees are added."""

import json
import os
import re

from .. import core, gen, worker
from ..gen import pick

PROP = "C12"
COUNT = {"quick": 2500, "thorough": 20000}
_scripts = {}


def prepare(tmp, tier):
    """Run the design model; returns its summary for the evidence."""
    wd = os.path.join(tmp, "life")
    os.makedirs(wd)
    rc, out = worker.run_tlc("PacketLife", os.path.join(core.SPEC, f"PacketLife_{tier}.cfg"), wd, heap="4g")
    ok = rc == 0 and "No error has been found" in out
    scripts = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'"@@SCRIPT (.*)"$', out, re.M)]
    with open(os.path.join(tmp, "scripts.json"), "w") as f:
        json.dump(scripts, f)
    gen_, dist = worker.stats(out)
    return [
        {
            "module": "PacketLife",
            "cfg": f"PacketLife_{tier}.cfg",
            "ok": ok and len(scripts) > 1000,
            "states": dist,
            "transitions": gen_,
            "scripts": len(scripts),
            "tail": out[-2000:],
        }
    ]


def scripts():
    if core.TMP not in _scripts:
        _scripts[core.TMP] = json.load(open(os.path.join(core.TMP, "scripts.json")))
    return _scripts[core.TMP]


def instantiate(r, script, letters=None):
    nd = 2 if letters else pick(r, [1, 1, 2])
    nrec = sum(1 for s in script if s["do"] == "rec")
    while True:
        new = gen.pk_setup(r, nd, nrec=nrec, maxlev=2)
        n = 8 if nd == 1 else 4
        L = len(new["w"]["dl"])
        if L > 4 or not gen.pad_ok("zero" if new["mode"] == "boundary" else new["mode"], n, L, 2):
            continue
        break
    shape0 = new["x"]["s"]
    rank = len(shape0)
    ax = [a % rank for a in new["axes"]] or list(range(rank - nd, rank))
    sizes = lambda lv: gen.place(shape0, [_down(n, L, lv)] * nd, ax)
    m = {"a": "a", "d": "d"} if nd == 1 else dict(zip("ad", letters or r.sample("ahvd", 2)))
    conv = lambda p: [m.get(c, c) for c in p]
    new["hasdata"] = False
    new["maxlevel"] = -1
    data = {s: gen.data(r, sizes(0), new["dmag"]) for s in ("r1", "r2")}
    steps = [new]
    ml = -1
    for s in script:
        st = {"do": s["do"], "oid": "t", "dt": new["dt"]}
        if "p" in s:
            st["p"] = conv(s["p"])
        if s["do"] == "transform":
            st["x"] = data[s["src"]]
            st["maxlevel"] = ml = s["m"]
            st["how"] = pick(r, ["", "same"])
        elif s["do"] == "init":
            ps = gen.all_paths(nd, ml if s["which"] == "leaves" else 1)
            r.shuffle(ps)
            st["ps"] = ps
        elif s["do"] == "set":
            st["x"] = gen.data(r, sizes(len(s["p"])), new["dmag"])
        steps.append(st)
    steps.append({"do": "dump", "oid": "t"})
    return {"op": "pkh", "steps": steps}


def _down(n, L, k):
    for _ in range(k):
        n = gen.dec_len(n, L)
    return n


def fixed(tier):
    import random

    r = random.Random(f"scripts/{core.seed()}")
    for s in scripts():
        yield instantiate(r, s)
        acts = [t["do"] for t in s]
        if "rec" in acts and "del" in acts and len(s) <= 4:
            # every kind of node takes the part of the deleted one
            for letters in ("ad", "hv", "va", "dh"):
                yield instantiate(r, s, letters)


def make(r, tier):
    """A random history on two trees whose calls interleave."""
    steps = []
    info = {}
    for oid in ("t", "u"):
        nd = pick(r, [1, 2])
        new = gen.pk_setup(r, nd, nrec=1)
        new["oid"] = oid
        if r.random() < 0.2 and new["mode"] != "boundary":
            # the default maximum level
            L = len(new["w"]["dl"])
            rank = len(new["x"]["s"])
            ax = [a % rank for a in new["axes"]] or list(range(rank - nd, rank))
            if max(0, min(gen.max_level(new["x"]["s"][a], L) for a in ax)) <= new["maxlevel"]:
                new["maxlevel"] = -1
        info[oid] = new
        steps.append(new)
    recs = {"t": 0, "u": 0}
    for _ in range(r.randint(3, 14)):
        oid = r.choice(sorted(info))
        new = info[oid]
        if r.random() < 0.05:
            # a copy: both trees go on independently
            to = pick(r, ["c", "d"])
            info[to], recs[to] = info[oid], recs[oid]
            steps.append({"oid": to, "do": "copy", "src": oid, "dt": new["dt"], "by": pick(r, ["copy", "deep", "pickle"])})
            continue
        nd, ml = new["nd"], max(new["maxlevel"], 0)
        p = gen.rand_path(r, nd, ml + 1)
        k = r.random()
        st = {"oid": oid, "dt": new["dt"]}
        if k < 0.4:
            if r.random() < 0.1:
                p = p + [r.choice("xahvd")]
            st.update(do="get", p=p)
        elif k < 0.45:
            st.update(do="has", p=p)
        elif k < 0.49:
            st.update(do=pick(r, ["peek", "pop"]), p=p)
        elif k < 0.52:
            st.update(do="update", ps=[gen.rand_path(r, nd, ml) for _ in range(3)], salt=r.randint(1, 999), mag=new["dmag"])
        elif k < 0.6:
            st.update(do="init", ps=[gen.rand_path(r, nd, ml) for _ in range(3)])
        elif k < 0.72:
            st.update(do="set", p=p[:ml], salt=r.randint(1, 999), mag=new["dmag"])
        elif k < 0.8:
            st.update(do="del", p=p)
        elif k < 0.87:
            # other data, the same data, or the same tensor object with other or the same content
            x = gen.data(r, new["x"]["s"], new["dmag"]) if r.random() < 0.5 else new["x"]
            st.update(do="transform", x=x, maxlevel=new["maxlevel"], how=pick(r, ["", "same"]))
        elif recs[oid] == 0:
            recs[oid] = 1
            if r.random() < 0.8:
                steps.append({"oid": oid, "do": "init", "ps": gen.all_paths(nd, ml)})
            st.update(do="rec")
        else:
            continue
        steps.append(st)
    steps += [{"oid": o, "do": "dump"} for o in sorted(info)]
    yield {"op": "pkh", "steps": steps}


def classify(c):
    n = c["steps"][0]
    return f"{n['nd']}d/{n['mode']}/{'sep' if n['sep'] else ''}/{'script' if not n['hasdata'] else 'random'}"
