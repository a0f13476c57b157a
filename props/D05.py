"""D05: load accounting, load balancing, uniform grids."""
from dgrid import *

RULE = ("Load: a grid and positions on every rank. Balance: a grid and a vector of loads. Uniform: a box. "
        "Non-trivial: more than one domain (load), more domains than ranks (balance), more than one rank (uniform).")
ASSUMPTIONS = ["Loads of positions outside a non-periodic grid are left open; those cases use positions inside."]
BUDGET = {"quick": 25, "thorough": 300}


def load_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = grid_strategy(draw)
        c["pts"] = pos_strategy(draw)
        if draw(st.integers(0, 20)) == 0:
            c["pts"].update(n=draw(st.sampled_from([49152, 49153, 100000])), spread="one")
        c["gamma"] = draw(st.sampled_from([1, 2, 3]))
        if draw(st.integers(0, 15)) == 0:
            # very many domains along a direction
            c["edges8"][0] = [0, 8 * draw(st.sampled_from([255, 256, 257, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537]))]
            c["cells"] = c["edges8"][0][1] // 8
            c["pts"]["n"] = min(c["pts"]["n"], 100)
            c["edges8"] = c["edges8"][:2]
        return c
    return make()


def check_load(case, comm):
    import numpy as np
    if "cells" in case:
        case = dict(case, edges8=[[8 * i for i in range(case["cells"] + 1)]] + case["edges8"][1:])
    g, edges = make_grid(case, comm)
    allx, exact = positions(case["pts"], edges, comm)
    B = np.array([e[-1] for e in edges])
    if not case["periodic"]:
        allx = [x[((x >= 0) & (x < B)).all(axis=1)] for x in allx]
    p, tr = given_pos(case["pts"], allx[comm.rank])
    load = g.load(p, transform=tr, gamma=case["gamma"])
    require(np.shape(load) == (int(g.size),), "load has shape %s for %d domains", np.shape(load), g.size)
    every = np.concatenate(allx)
    equal(comm.bcast(np.asarray(load)), load, "load on rank %d and on rank 0", comm.rank)
    one = g.load(p, transform=tr, gamma=1)
    close(float(np.sum(one)), float(len(every)), 0, 1, "total load")
    close(np.asarray(load, "f8"), np.asarray(one, "f8") ** case["gamma"], 1e-12, np.asarray(one, "f8").max(initial=1) ** case["gamma"],
          "load to the power %s", case["gamma"])
    if exact or not case["periodic"]:
        x = every.astype("f8")
        if case["periodic"]:
            x = x - np.floor(x / B) * B
        idx = [np.searchsorted(e, x[:, d], side="right") - 1 for d, e in enumerate(edges)]
        ref = np.bincount(np.ravel_multi_index(idx, g.shape), minlength=int(g.size)) if len(x) else np.zeros(int(g.size))
        equal(np.asarray(one, "f8"), ref.astype("f8"), "load of each domain")
    return {"nontrivial": bool(g.size > 1 and len(every)), "labels": ["ranks:%d" % comm.size, "kind:" + case["pts"]["kind"]]}


def balance_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = grid_strategy(draw, maxdim=3, maxdom=5)
        c["loads"] = draw(st.sampled_from(["zero", "ties", "spread", "one", "power", "real"]))
        c["pts"] = pos_strategy(draw)
        c["pts"]["kind"] = draw(st.sampled_from(["dyadic", "edge", "far"]))
        c["smooth8"] = smooth_strategy(draw, len(c["edges8"]))
        c["again"] = draw(st.booleans())
        return c
    return make()


def check_balance(case, comm):
    import numpy as np
    g, edges = make_grid(case, comm)
    D = int(g.size)
    rng = np.random.RandomState(case["aseed"] + 7)
    k = case["loads"]
    allx, exact = positions(case["pts"], edges, comm)
    x = allx[comm.rank]
    p, tr = given_pos(case["pts"], x)
    if k == "zero":
        load = np.zeros(D)
    elif k == "ties":
        load = rng.randint(0, 3, size=D)
    elif k == "one":
        load = np.zeros(D, int)
        load[rng.randint(D)] = 1000
    elif k == "power":
        load = np.floor(1 / (1e-3 + rng.uniform(size=D)) ** 2)
    elif k == "real" and case["periodic"]:
        load = g.load(p, transform=tr)
    else:
        load = rng.randint(0, 100, size=D)
    before = np.array(g.DomainAssign, copy=True)
    keep = np.array(load, copy=True)
    for _ in range(2 if case["again"] else 1):
        g.loadbalance(load)
    equal(load, keep, "loadbalance changed the loads")
    a = np.asarray(g.DomainAssign)
    require(a.shape == (D,) and a.min() >= 0 and a.max() < comm.size, "assignment %s of %d domains to %d ranks", a, D, comm.size)
    equal(comm.bcast(a), a, "assignment on rank %d and on rank 0", comm.rank)
    if D > comm.size:
        per = np.bincount(a, weights=load, minlength=comm.size)
        # every greedy or exact balance satisfies this
        bound = float(np.sum(load)) / comm.size + float(np.max(load)) * (1 - 1.0 / comm.size)
        require(per.max() <= bound * (1 + 1e-12), "loads per rank %s exceed an even share %.6g by more than the heaviest domain %g",
                per.tolist(), float(np.sum(load)) / comm.size, float(np.max(load)))
    else:
        equal(a, before, "assignment of no more domains than ranks")
    # coverage and delivery under the new assignment
    s = np.array(case["smooth8"], "f8") / 8
    lay = g.decompose(p, smoothing=s, transform=tr)
    off = np.concatenate([[0], np.cumsum([len(y) for y in allx])])
    got = lay.exchange(np.arange(off[comm.rank], off[comm.rank + 1]))
    want = np.concatenate([np.flatnonzero(to_ranks(reach(allx[r], s, edges, case["periodic"])[0], a, comm.size)[:, comm.rank]) + off[r]
                           for r in range(comm.size)])
    equal(got, want, "items received after balancing")
    every = np.concatenate(allx)
    pe, tr = given_pos(case["pts"], every)
    cnt = comm.allreduce(g.isprimary(pe, transform=tr).astype("i8"))
    B = np.array([e[-1] for e in edges])
    inside = np.ones(len(every), "i8") if case["periodic"] else ((every >= 0) & (every < B)).all(axis=1).astype("i8")
    equal(cnt, inside, "number of primary ranks after balancing")
    return {"nontrivial": bool(D > comm.size and comm.size > 1), "labels": ["ranks:%d" % comm.size, "loads:" + k]}


def uniform_strategy(tier):
    st = S()
    return st.fixed_dictionaries({
        "nranks": st.sampled_from([1, 2, 3, 4, 5, 6] if tier == "thorough" else [1, 2, 3, 4]),
        "box": st.lists(st.one_of(st.sampled_from([1.0, 1.0, 2.0, 10.0, 100.0, 0.1]), dyadic(0.125, 20, 8)), min_size=1, max_size=3),
        "periodic": st.booleans(), "list": st.booleans(), "seed": seeds()})


def check_uniform(case, comm):
    import numpy as np
    from pmesh.domain import GridND
    box = case["box"] if case["list"] else np.array(case["box"])
    g = GridND.uniform(box, comm=comm, periodic=case["periodic"])
    require(len(g.edges) == len(case["box"]) and g.periodic == case["periodic"], "dimensions or periodicity lost")
    n = 1
    for e, L in zip(g.edges, case["box"]):
        require(len(e) >= 2, "no domain along a direction of box %s", case["box"])
        require(e[0] == 0 and e[-1] == L, "edges %s do not span %s", e, L)
        d = np.diff(e)
        close(d, np.full(len(d), L / len(d)), 1e-12, L, "sizes of the domains")
        n *= len(d)
    require(1 <= n <= comm.size, "%d domains on %d ranks", n, comm.size)
    require(2 * n > comm.size, "only %d domains on %d ranks", n, comm.size)
    require(len(np.unique(g.DomainAssign)) == n, "domains share ranks: %s", g.DomainAssign)
    x = np.random.RandomState(case["seed"]).uniform(size=(20, len(case["box"]))) * np.array(case["box"]) * 0.999
    cnt = comm.allreduce(g.isprimary(x).astype("i8"))
    equal(cnt, np.ones(20, "i8"), "number of primary ranks")
    return {"nontrivial": comm.size > 1, "labels": ["ranks:%d" % comm.size, "dim:%d" % len(case["box"])]}


def check(case, comm):
    return {"load": check_load, "balance": check_balance, "uniform": check_uniform}[case["family"]](case, comm)


FAMILIES = [
    {"name": "load", "what": "load of each domain", "strategy": load_strategy, "weight": 2,
     "max_examples": {"quick": 700, "thorough": 30000}},
    {"name": "balance", "what": "assignment, share, and delivery after balancing", "strategy": balance_strategy, "weight": 3,
     "max_examples": {"quick": 800, "thorough": 30000}},
    {"name": "uniform", "what": "uniform grids", "strategy": uniform_strategy, "weight": 1,
     "max_examples": {"quick": 400, "thorough": 10000}},
]
