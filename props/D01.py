"""D01: exchange delivers every requested copy, in a stable order."""
from dgrid import *

RULE = ("A case is a grid, an assignment, positions and smoothing giving a layout, and a list of arrays (type, item "
        "shape, memory order), exchanged together and separately on 1-4 ranks. Non-trivial: more than one rank and at "
        "least one item that moves to another rank or has several copies.")
ASSUMPTIONS = ["Expected destinations come from exact interval arithmetic (see D03), order from the statement."]
BUDGET = {"quick": 25, "thorough": 400}

DTYPES = ["f8", "f4", "i4", "i8", "u1", "i2", "c16", "c8", "?", "S5", "struct"]


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = grid_strategy(draw)
        c["pts"] = pos_strategy(draw)
        c["pts"]["kind"] = draw(st.sampled_from(["dyadic", "edge", "far"]))
        c["smooth8"] = smooth_strategy(draw, len(c["edges8"]))
        c["data"] = draw(st.lists(st.fixed_dictionaries({
            "dtype": st.sampled_from(DTYPES),
            "shape": st.lists(st.integers(1, 3), max_size=2),
            "order": st.sampled_from(["C", "F", "step", "list", "neg"])}), min_size=1, max_size=4))
        c["mixed"] = draw(st.booleans())
        return c
    return make()


def payload(d, ids):
    """Values that tell which item and which element they are."""
    import numpy as np
    shape = (len(ids),) + tuple(d["shape"])
    m = int(np.prod(d["shape"])) if d["shape"] else 1
    v = (ids[:, None] * m + np.arange(m)).reshape(shape)
    t = d["dtype"]
    if t == "struct":
        a = np.zeros(shape, [("a", "f4"), ("b", "i8", (2,)), ("c", "S3")])
        a["a"] = v
        a["b"] = np.stack([v, -v], axis=-1)
        a["c"] = v.astype("S3")
        return a
    if t in ("c16", "c8"):
        return (v + 1j * (v % 7)).astype(t)
    if t == "?":
        return (v % 3) == 0
    if t == "S5":
        return v.astype("S5")
    return v.astype(t)


def relayout(d, a):
    import numpy as np
    o = d["order"]
    if o == "F":
        return np.asfortranarray(a)
    if o == "step":
        b = np.repeat(a, 2, axis=0)
        return b[::2]
    if o == "neg":
        return a[::-1].copy()[::-1]
    if o == "list" and d["dtype"] in ("f8", "i8", "c16", "?") and len(a):
        return a.tolist()
    return a


def expected_ids(case, g, edges, comm):
    """Ids received by this rank: by source, and by position within it."""
    import numpy as np
    allx, exact = positions(case["pts"], edges, comm)
    s = np.array(case["smooth8"], "f8") / 8
    off = np.concatenate([[0], np.cumsum([len(a) for a in allx])]).astype("i8")
    want, dest = [], []
    for src in range(comm.size):
        m = to_ranks(reach(allx[src], s, edges, case["periodic"])[0], g.DomainAssign, comm.size)
        want.append(np.flatnonzero(m[:, comm.rank]) + off[src])
        dest.append(m)
    return allx[comm.rank], s, off, np.concatenate(want).astype("i8"), dest


def check(case, comm):
    import numpy as np
    g, edges = make_grid(case, comm)
    x, s, off, want, dest = expected_ids(case, g, edges, comm)
    p, tr = given_pos(case["pts"], x)
    layout = g.decompose(p, smoothing=s, transform=tr)
    me = comm.rank
    ids = np.arange(off[me], off[me + 1])
    equal(layout.exchange(ids), want, "items received, in order")
    require(layout.sendlength == len(ids), "sendlength %s for %d items", layout.sendlength, len(ids))
    require(layout.recvlength == len(want), "recvlength %s for %d items", layout.recvlength, len(want))
    # cost: items sent to other ranks
    cost = [int(np.delete(d.sum(axis=0), r).sum()) for r, d in enumerate(dest)]
    equal(layout.get_exchange_cost(), cost, "exchange cost per rank")
    given = [relayout(d, payload(d, ids)) for d in case["data"]]
    ref = [payload(d, want) for d in case["data"]]
    keep = [np.array(a, copy=True) for a in given]
    for pack in (True, False):
        r = layout.exchange(*given, pack=pack)
        if len(given) == 1:
            r = (r,)
        require(isinstance(r, tuple) and len(r) == len(given), "exchange of %d arrays returned %r", len(given), type(r))
        for d, a, b in zip(case["data"], r, ref):
            if d["order"] != "list":
                require(a.dtype == b.dtype, "exchanged %s came back as %s", b.dtype, a.dtype)
            equal(a, b, "exchanged %s%s (pack=%s)", d["dtype"], d["shape"], pack)
        for d, a, b in zip(case["data"], given, keep):
            equal(np.asarray(a), b, "exchange changed its input (%s)", d["dtype"])
    if case["mixed"] and comm.size > 1:
        # ranks that pass other types follow the first rank
        a = ids.astype("f8" if me == 0 else "f4")
        r = layout.exchange(a, pack=False)
        require(r.dtype == np.dtype("f8"), "mixed types came back as %s", r.dtype)
        equal(r, want.astype("f8"), "exchange of mixed types")
    if case["mixed"]:
        # a wrong length is refused, on every rank
        bad = np.zeros(len(ids) + (1 if me == comm.size - 1 else 0))
        for pack in (True, False):
            try:
                layout.exchange(bad, pack=pack)
            except ValueError:
                pass
            else:
                violation("exchange accepted data of the wrong length")
    moved = any(np.delete(d, r, axis=1).any() for r, d in enumerate(dest)) if comm.size > 1 else False
    return {"nontrivial": bool(moved),
            "labels": ["ranks:%d" % comm.size, "spread:" + case["pts"]["spread"]] + ["type:" + d["dtype"] for d in case["data"]]}


FAMILIES = [{"name": "exchange", "what": "items received against the reference", "strategy": strategy,
             "max_examples": {"quick": 1500, "thorough": 60000}}]
