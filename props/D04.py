"""D04: every point has exactly one primary domain."""
from dgrid import *

RULE = ("A case is a grid (uneven and empty domains, many per rank), an assignment, optionally a load balancing, and "
        "points on every rank. Non-trivial: more than one rank or more than one domain, and at least one point.")
ASSUMPTIONS = ["Points of a non-periodic grid outside [0, edge) count as primary nowhere."]
BUDGET = {"quick": 25, "thorough": 300}


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = grid_strategy(draw)
        c["pts"] = pos_strategy(draw)
        c["smooth8"] = smooth_strategy(draw, len(c["edges8"]))
        c["balance"] = draw(st.booleans())
        return c
    return make()


def big_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = grid_strategy(draw, maxdim=2, maxdom=4)
        c["pts"] = pos_strategy(draw)
        c["pts"]["n"] = draw(st.sampled_from([49151, 49152, 49153, 98305, 110000]))
        c["pts"]["spread"] = "one"
        c["smooth8"] = draw(st.integers(0, 12))
        c["balance"] = draw(st.booleans())
        return c
    return make()


def check(case, comm):
    import numpy as np
    g, edges = make_grid(case, comm)
    if case["balance"]:
        rng = np.random.RandomState(case["aseed"] + 1)
        g.loadbalance(rng.randint(0, 5, size=int(g.size)) ** 2)
    allx, exact = positions(case["pts"], edges, comm)
    B = np.array([e[-1] for e in edges])
    every = np.concatenate(allx)
    p, tr = given_pos(case["pts"], every)
    keep = p.copy()
    pr = g.isprimary(p, transform=tr)
    equal(p, keep, "isprimary changed the positions")
    require(pr.shape == (len(every),) and pr.dtype == bool, "isprimary returned %s %s", pr.dtype, pr.shape)
    count = comm.allreduce(pr.astype("i8"))
    inside = ((every >= 0) & (every < B)).all(axis=1)
    want = np.ones(len(every), "i8") if case["periodic"] else inside.astype("i8")
    if (count != want).any():
        i = int(np.argmax(count != want))
        violation("the point %r is primary on %d ranks, expected %d (box %s)", every[i].tolist(), count[i], want[i], B.tolist())
    # on the rank that owns the domain around it
    if len(every) and (exact or not case["periodic"]):
        x = every.astype("f8")
        if case["periodic"]:
            x = x - np.floor(x / B) * B
        idx = [np.clip(np.searchsorted(e, x[:, d], side="right") - 1, 0, len(e) - 2) for d, e in enumerate(edges)]
        dom = np.ravel_multi_index(idx, g.shape)
        own = (g.DomainAssign[dom] == comm.rank) & (want > 0)
        equal(pr, own, "whether points are primary on rank %d", comm.rank)
    # of the copies of a particle exactly one is primary
    x = allx[comm.rank]
    p, tr = given_pos(case["pts"], x)
    s = np.array(case["smooth8"], "f8") / 8
    lay = g.decompose(p, smoothing=s, transform=tr)
    off = np.concatenate([[0], np.cumsum([len(a) for a in allx])])
    ids, q = lay.exchange(np.arange(off[comm.rank], off[comm.rank + 1]), p)
    mark = np.zeros(off[-1], "i8")
    np.add.at(mark, ids, g.isprimary(q, transform=tr).astype("i8"))
    mark = comm.allreduce(mark)
    if (mark != want).any():
        i = int(np.argmax(mark != want))
        violation("%d copies of the particle at %r are primary with smoothing %s, expected %d", mark[i],
                  every[i].tolist(), s.tolist(), want[i])
    return {"nontrivial": bool(len(every) and (comm.size > 1 or g.size > 1)),
            "labels": ["ranks:%d" % comm.size, "kind:" + case["pts"]["kind"], "periodic" if case["periodic"] else "open",
                       "balanced" if case["balance"] else "plain"]}


FAMILIES = [
    {"name": "primary", "what": "number of primary ranks of points and copies", "strategy": strategy, "weight": 5,
     "max_examples": {"quick": 1500, "thorough": 60000}},
    {"name": "many", "what": "more than 49152 points at once", "strategy": big_strategy, "weight": 1,
     "max_examples": {"quick": 30, "thorough": 1500}},
]
