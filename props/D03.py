"""D03: decompose covers the domains in reach, each rank once."""
from dgrid import *

RULE = ("A case is a grid of domains (uneven and empty ones included), an assignment to ranks, positions on every "
        "rank and a smoothing length per direction, run on 1-4 ranks. Non-trivial: more than one rank and some "
        "particle that is sent to a rank other than its own, or to several.")
ASSUMPTIONS = ["Edges, smoothing and most positions are dyadic, so that the interval arithmetic of the oracle is "
               "exact; for other positions a domain within 1e-6 of the reach may be included or left out.",
               "On a non-periodic grid a particle is sent to the domains it touches; nowhere if it touches none."]
BUDGET = {"quick": 30, "thorough": 420}


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = grid_strategy(draw)
        c["pts"] = pos_strategy(draw)
        c["smooth8"] = smooth_strategy(draw, len(c["edges8"]))
        return c
    return make()


def big_strategy(tier):
    """More particles than are handled at once inside."""
    st = S()

    @st.composite
    def make(draw):
        c = grid_strategy(draw, maxdim=2, maxdom=4)
        c["nranks"] = draw(st.sampled_from([1, 2, 2, 3]))
        c["pts"] = pos_strategy(draw)
        c["pts"]["n"] = draw(st.sampled_from([49151, 49152, 49153, 60000, 98304, 98305, 110000]))
        c["pts"]["spread"] = "one"
        c["smooth8"] = draw(st.integers(0, 12))
        return c
    return make()


MANY = [255, 256, 257, 1000, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537]


def cells_strategy(tier):
    """Very many domains along a direction, in runs per rank as they are by default."""
    st = S()

    @st.composite
    def make(draw):
        c = grid_strategy(draw, maxdim=2, maxdom=2)
        c["nranks"] = draw(st.sampled_from([1, 2, 3, 4, 4]))
        c["cells"] = [draw(st.integers(0, len(c["edges8"]) - 1)), draw(st.sampled_from(MANY))]
        c["pts"] = pos_strategy(draw, bulk=12)
        c["smooth8"] = draw(st.integers(0, 24))
        return c
    return make()


def check(case, comm):
    import numpy as np
    if "cells" in case:
        d, n = case["cells"]
        case = dict(case, edges8=list(case["edges8"]))
        case["edges8"][d] = [8 * i for i in range(n + 1)]
        if len(case["edges8"]) > 1 and len(case["edges8"][1 - d]) > 1:
            case["edges8"][1 - d] = [0, 8 * 16, 8 * 32][:len(case["edges8"][1 - d])]
        if case["pts"]["dtype"] == "f4" and case["pts"]["kind"] == "eps":
            case["pts"] = dict(case["pts"], dtype="f8")
    g, edges = make_grid(case, comm)
    allx, exact = positions(case["pts"], edges, comm)
    x = allx[comm.rank]
    s = np.array(case["smooth8"], "f8") / 8
    p, tr = given_pos(case["pts"], x)
    keep = p.copy()
    layout = g.decompose(p, smoothing=s if s.ndim else float(s), transform=tr)
    equal(p, keep, "decompose changed the positions")
    delta = 0.0 if exact else 1e-6
    off = np.concatenate([[0], np.cumsum([len(a) for a in allx])])
    ids = np.arange(off[comm.rank], off[comm.rank + 1])
    got = layout.exchange(ids)
    multi = False
    hitown = 0
    u, cnt = np.unique(got, return_counts=True)
    require((cnt == 1).all(), "rank %d received particle %s %s times", comm.rank,
            u[cnt != 1][:1], cnt[cnt != 1][:1])
    for src in range(comm.size):
        must, may = reach(allx[src], s, edges, case["periodic"], delta)
        must, may = to_ranks(must, g.DomainAssign, comm.size), to_ranks(may, g.DomainAssign, comm.size)
        mine = np.zeros(len(allx[src]), bool)
        mine[got[(got >= off[src]) & (got < off[src + 1])] - off[src]] = True
        miss = must[:, comm.rank] & ~mine
        extra = mine & ~may[:, comm.rank]
        if miss.any():
            i = int(np.argmax(miss))
            violation("particle at %r with smoothing %s did not reach rank %d (%d of %d)", allx[src][i].tolist(),
                      s.tolist(), comm.rank, int(miss.sum()), len(miss))
        if extra.any():
            i = int(np.argmax(extra))
            violation("particle at %r with smoothing %s was sent to rank %d without touching it (%d of %d)",
                      allx[src][i].tolist(), s.tolist(), comm.rank, int(extra.sum()), len(extra))
        if comm.size > 1 and len(must):
            multi = multi or (must.sum(axis=1) > 1).any() or np.delete(must, src, axis=1).any()
    # every particle is somewhere on a periodic grid
    seen = np.zeros(off[-1], "i8")
    seen[got] = 1
    seen = comm.allreduce(seen)
    if case["periodic"] and len(seen):
        require(seen.min() > 0, "%d particles reached no rank", int((seen == 0).sum()))
    return {"nontrivial": bool(multi),
            "labels": ["ranks:%d" % comm.size, "dim:%d" % len(edges), "kind:" + case["pts"]["kind"],
                       "periodic" if case["periodic"] else "open", "assign:" + case["assign"]]}


def invariance_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = grid_strategy(draw)
        c["pts"] = pos_strategy(draw, bulk=30)
        c["smooth8"] = smooth_strategy(draw, len(c["edges8"]))
        return c
    return make()


def check_invariance(case, comm):
    """Where a particle goes does not depend on the others, order or type."""
    import numpy as np
    g, edges = make_grid(case, comm)
    allx, exact = positions(case["pts"], edges, comm)
    x = allx[comm.rank]
    s = np.array(case["smooth8"], "f8") / 8
    n = len(x)

    def where(x, idx, size):
        """(size, ranks) bool of my particles' destinations."""
        lay = g.decompose(x, smoothing=s)
        got = lay.exchange(np.stack([np.full(len(x), comm.rank, "i8"), idx.astype("i8")], axis=-1))
        allgot = comm.allgather(got)
        out = np.zeros((size, comm.size), "i8")
        for r, a in enumerate(allgot):
            np.add.at(out, (a[a[:, 0] == comm.rank, 1], r), 1)
        return out
    base = where(x, np.arange(n), n)
    rng = np.random.RandomState(case["pts"]["seed"] + comm.rank)
    perm = rng.permutation(n)
    equal(where(x[perm], perm, n), base, "destinations after permuting the particles")
    k = n // 2
    a = where(x[:k], np.arange(k), n)
    b = where(x[k:], np.arange(k, n), n)
    equal(a + b, base, "destinations in two groups")
    if exact:
        equal(where(x.astype("f4"), np.arange(n), n), base, "destinations in single precision")
        equal(where(x.astype("f8"), np.arange(n), n), base, "destinations in double precision")
        if case["periodic"]:
            B = np.array([e[-1] for e in edges])
            y = x.astype("f8") + B * rng.randint(-3, 4, size=x.shape)
            equal(where(y, np.arange(n), n), base, "destinations after shifting by periods")
    return {"nontrivial": bool(n and comm.size > 1), "labels": ["ranks:%d" % comm.size]}


_check = check


def check(case, comm):          # noqa: F811
    if case["family"] == "invariance":
        return check_invariance(case, comm)
    return _check(case, comm)


FAMILIES = [
    {"name": "reach", "what": "ranks reached against interval arithmetic", "strategy": strategy, "weight": 4,
     "max_examples": {"quick": 1500, "thorough": 60000}},
    {"name": "invariance", "what": "order, grouping, type and period shifts", "strategy": invariance_strategy, "weight": 2,
     "max_examples": {"quick": 600, "thorough": 20000}},
    {"name": "cells", "what": "up to 65537 domains along a direction", "strategy": cells_strategy, "weight": 1,
     "max_examples": {"quick": 60, "thorough": 2000}},
    {"name": "many", "what": "more than 49152 particles at once", "strategy": big_strategy, "weight": 1,
     "max_examples": {"quick": 30, "thorough": 1500}},
]
