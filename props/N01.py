"""N01: white noise of a part of the mesh is that part of the whole."""
from nbase import *

RULE = ("A mesh, a seed, and a list of rectangular parts in full or half storage, each filled into a strided window of a guarded block, in the order "
        "given and possibly twice. Non-trivial: some part is neither empty nor the whole mesh.")
ASSUMPTIONS = ["The reference is the whole mesh filled by one call in full storage; what that holds is the subject of N02 to N04."]
BUDGET = {"quick": 25, "thorough": 300}


def strategy(tier):
    st = S()
    big = tier == "thorough"

    @st.composite
    def make(draw):
        nd = draw(st.sampled_from([3, 3, 3, 3, 2, 1]))
        N = draw(mesh_sizes(nd, 20 if big else 12))
        parts = []
        for _ in range(draw(st.integers(1, 4))):
            half = draw(st.booleans())
            lo, n = [], []
            for d in range(nd):
                m = N[d] // 2 + 1 if half and d == nd - 1 else N[d]
                k = draw(st.sampled_from(["all", "any", "any", "row", "upper", "none"] if not big else ["all", "any", "any", "row", "upper", "none"]))
                if k == "all":
                    a, b = 0, m
                elif k == "row":
                    a = draw(st.integers(0, m - 1))
                    b = a + 1
                elif k == "upper":
                    a = m - draw(st.integers(1, max(1, m // 2)))
                    b = m
                elif k == "none" and draw(st.integers(0, 4)) == 0:
                    a = b = draw(st.integers(0, m))
                else:
                    a = draw(st.integers(0, m - 1))
                    b = draw(st.integers(a + 1, m))
                lo.append(a)
                n.append(b - a)
            parts.append({"start": lo, "size": n, "twice": draw(st.integers(0, 5)) == 0,
                          "layout": draw(st.sampled_from(["C", "C", "F", "roll", "step", "mix", "neg"]))})
        return {"N": N, "seed": draw(noise_seeds()), "unitary": draw(st.booleans()), "c8": draw(st.booleans()), "parts": parts}
    return make()


def check(case, comm):
    import numpy as np
    N, seed, un = case["N"], case["seed"], case["unitary"]
    dt = "c8" if case["c8"] else "c16"
    full = whole(N, seed, un, dt)
    nt = False
    for p in case["parts"]:
        for _ in range(2 if p["twice"] else 1):
            a, block, mask = strided(p["size"], dt, p["layout"], fill=0, guard=-77.5)
            a[...] = np.nan
            fill(a, p["start"], N, seed, un)
            sl = tuple(slice(s, s + n) for s, n in zip(p["start"], p["size"]))
            equal(a, full[sl], "part %s+%s of %s (layout %s)", p["start"], p["size"], N, p["layout"])
            require((block[~mask] == np.asarray(-77.5, dt)).all(), "memory outside part %s+%s was written", p["start"], p["size"])
        nt = nt or (0 < np.prod(p["size"]) < np.prod(N))
    equal(whole(N, seed, un, dt), full, "the whole mesh after filling parts")
    return {"nontrivial": bool(nt), "labels": ["dim:%d" % len(N), "odd" if any(n % 2 for n in N) else "even",
                                               "cubic" if len(set(N)) == 1 else "non-cubic"]}


FAMILIES = [{"name": "parts", "what": "parts of a mesh against the whole", "strategy": strategy, "max_examples": {"quick": 2500, "thorough": 60000}}]
