"""P05: ravel and unravel."""
from pmbase import *

RULE = ("A field of any type over 1 to 6 (thorough: 8) ranks, ravelled into a new array, a given array or flat iterator (any strides), or in place, and "
        "unravelled again, from the same or another division of the sequence over ranks. Non-trivial: more than one rank or a mesh of several axes longer than 1.")
ASSUMPTIONS = []
BUDGET = {"quick": 25, "thorough": 300}


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dtypes=("f8", "f8", "f4", "c16", "c8"), big=True)
        c["type"] = draw(st.sampled_from(TYPES))
        c["vseed"] = draw(seeds())
        c["out"] = draw(st.sampled_from(["none", "array", "flat", "inplace", "self", "deprecated"]))
        c["layout"] = draw(st.sampled_from(["C", "F", "roll", "step", "mix", "neg"]))
        c["back"] = draw(st.sampled_from(["pm", "field", "deprecated"]))
        c["division"] = draw(st.sampled_from(["same", "random", "one"]))
        return c
    return make()


def check(c, comm):
    import numpy as np
    pm = make_pm(c, comm)
    ty = c["type"]
    shape = cshape(c["N"], ty, c["dtype"])
    dt = c["dtype"] if ty == "real" else ctype(c["dtype"])
    # every value distinct
    full = values(shape, dt, c["vseed"]) + np.arange(np.prod(shape)).reshape(shape)
    full = full.astype(dt)
    f = put(pm.create(type=ty), full)
    k = c["out"]
    if k == "none":
        r = f.ravel()
    elif k == "deprecated":
        r = f.sort()
    elif k in ("array", "flat"):
        a, block, mask = strided(f.shape, dt, c["layout"], guard=-9)
        r = f.ravel(out=a if k == "array" else a.flat)
        require((block[~mask] == np.asarray(-9, dt)).all(), "ravel wrote outside the given array")
        equal(np.array(list(r), dt), a.ravel(), "the iterator returned and the given array")
    elif k == "inplace":
        r = f.ravel(out=Ellipsis)
    else:
        r = f.ravel(out=f.value)
    require(isinstance(r, np.flatiter), "ravel returned a %s", type(r).__name__)
    mine = np.array(r[:], dt)
    require(len(mine) == f.size, "ravel returned %d items for %d local points", len(mine), f.size)
    equal(np.concatenate(comm.allgather(mine)), full.ravel(), "ravelled %s field", ty)
    if k not in ("inplace", "self"):
        equal(f.value, full[f.slices], "the field after ravel")
    # back
    flat = full.ravel()
    if c["division"] == "same":
        part = mine
    else:
        rng = np.random.RandomState(c["vseed"])
        if c["division"] == "one":
            cut = np.zeros(comm.size + 1, int)
            cut[rng.randint(comm.size) + 1:] = len(flat)
        else:
            cut = np.sort(np.concatenate([[0], rng.randint(0, len(flat) + 1, size=comm.size - 1), [len(flat)]]))
        part = flat[cut[comm.rank]:cut[comm.rank + 1]].copy()
    src, block, mask = strided(part.shape, dt, c["layout"] if c["layout"] != "roll" else "C", guard=-9)
    src[...] = part
    if c["back"] == "pm":
        g = pm.unravel(ty, src.flat if c["out"] == "flat" else src)
    else:
        g = pm.create(type=ty, value=-1)
        (g.unravel if c["back"] == "field" else g.unsort)(src)
    require(kind_of(g) == ty, "unravel returned a %s", type(g).__name__)
    equal(gather(g, comm), full, "unravelled %s field", ty)
    equal(src, part, "the sequence after unravel")
    return {"nontrivial": bool(comm.size > 1 or sum(n > 1 for n in shape) > 1), "labels": labels(c) + ["field:" + ty, "out:" + k]}


FAMILIES = [{"name": "ravel", "what": "global C order and its inverse", "strategy": strategy, "max_examples": {"quick": 1500, "thorough": 50000}}]
