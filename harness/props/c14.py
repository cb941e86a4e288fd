"""Node orders of every level up to 10 (1-D) and 5 (2-D), through every public way of
asking for them, also after a caller modified an earlier result.  The specification
derives the frequency order from the path a tone takes through the filter tree.  The
design model OrderModel checks completeness, the one-letter steps and the reflection
law for all levels up to 8."""

PROP = "C14"
COUNT = {"quick": 0, "thorough": 0}
MODELS = [{"module": "OrderModel", "cfg": "OrderModel.cfg", "workers": 1}]


def fixed(tier):
    top = {1: 10, 2: 5} if tier == "quick" else {1: 13, 2: 7}
    out = []
    for nd in (1, 2):
        for level in range(top[nd] + 1):
            for order in ("freq", "natural"):
                for how in ("kw", "instance", "direct"):
                    out.append({"op": "order", "nd": nd, "level": level, "order": order, "how": how})
                out.append({"op": "order", "nd": nd, "level": level, "order": order, "warm": True})
            out.append({"op": "order", "nd": nd, "level": level, "order": "freq", "how": "default"})
        for order in ("Freq", "", "frequency", "gray"):
            for level in (0, 2):
                out.append({"op": "order", "nd": nd, "level": level, "order": order})
    return out


def make(r, tier):
    raise NotImplementedError


def classify(c):
    return f"{c['nd']}d/{c['order']}"
