"""Reconstruction of 1-D and 2-D packet trees after random assignments to leaves and
inner nodes, with random and with perfect-reconstruction integer banks."""

from .. import gen
from ..gen import pick

PROP = "C13"
COUNT = {"quick": 3000, "thorough": 24000}


def make(r, tier):
    nd = pick(r, [1, 2])
    new = gen.pk_setup(r, nd, nrec=1, pr=r.random() < 0.5)
    ml = new["maxlevel"]
    leaves = gen.all_paths(nd, ml)
    steps = [new]
    full = r.random() < 0.9
    r.shuffle(leaves)
    if full:
        steps.append({"do": "init", "oid": "t", "ps": leaves, "fits": False})
    else:
        steps.append({"do": "init", "oid": "t", "ps": leaves[: r.randint(0, len(leaves) - 1)], "fits": False})
    every = [p for l in range(ml + 1) for p in gen.all_paths(nd, l)]
    for _ in range(r.randint(0, 4)):
        p = r.choice(leaves if r.random() < 0.6 else every)
        k = r.random()
        if k < 0.8:
            steps.append({"do": "set", "oid": "t", "p": p, "dt": new["dt"], "salt": r.randint(1, 999), "mag": new["dmag"]})
        elif p and len(p) < ml:
            steps.append({"do": "del", "oid": "t", "p": p})
    steps.append({"do": "rec", "oid": "t"})
    steps.append({"do": "dump", "oid": "t"})
    yield {"op": "pkh", "steps": steps}


def classify(c):
    n = c["steps"][0]
    return f"{n['nd']}d/{n['mode']}/{'sep' if n['sep'] else ''}/ml{n['maxlevel']}"
