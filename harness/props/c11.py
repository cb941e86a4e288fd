"""Freshly transformed 1-D and 2-D packet trees: nodes read lazily in random orders or
initialised in bulk; every node value is compared with the filtering along its path."""

from .. import gen
from ..gen import pick

PROP = "C11"
COUNT = {"quick": 3000, "thorough": 24000}


def make(r, tier):
    nd = pick(r, [1, 2])
    new = gen.pk_setup(r, nd)
    ml = new["maxlevel"]
    steps = [new]
    every = [p for l in range(ml + 1) for p in gen.all_paths(nd, l)]
    style = pick(r, ["lazy", "bulk", "mixed", "retransform"])
    take = r.sample(every, min(len(every), r.randint(1, 12)))
    if style == "bulk":
        steps.append({"do": "init", "oid": "t", "ps": take, "fits": False})
        steps.append({"do": "dump", "oid": "t"})
    elif style == "lazy":
        steps += [{"do": "get", "oid": "t", "p": p} for p in take]
    else:
        if style == "retransform":
            steps.append({"do": "transform", "oid": "t", "maxlevel": ml, "dt": new["dt"], "x": gen.data(r, new["x"]["s"], new["dmag"])})
        for p in take:
            if r.random() < 0.3:
                steps.append({"do": "init", "oid": "t", "ps": r.sample(every, min(3, len(every))), "fits": False})
            steps.append({"do": "get", "oid": "t", "p": p})
        steps.append({"do": "dump", "oid": "t"})
    yield {"op": "pkh", "steps": steps}


def classify(c):
    n = c["steps"][0]
    return f"{n['nd']}d/{n['mode']}/{'sep' if n['sep'] else ''}/ml{n['maxlevel']}"
