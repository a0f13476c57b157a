"""D02: gather reduces the copies of each particle at its origin."""
from dgrid import *
import D01

RULE = ("A case is a layout (see D01), data on the copies (type, item shape), a reduction and optionally an output "
        "buffer, on 1-4 ranks. Non-trivial: some particle has more than one copy.")
ASSUMPTIONS = ["A particle with no copies: the sum is 0; for 'any', 'mean', 'local' and other reductions its value "
               "is left open.", "Floating-point sums to 1e-12 (1e-5 in single precision)."]
BUDGET = {"quick": 25, "thorough": 400}

MODES = ["sum", "mean", "any", "all", "local", "add", "maximum", "minimum", "multiply"]


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = grid_strategy(draw, ranks=(1, 2, 2, 3, 3, 4, 4) * 3 + (6,), mindom=draw(st.sampled_from([1, 2, 2])))
        c["pts"] = pos_strategy(draw)
        c["pts"]["kind"] = draw(st.sampled_from(["dyadic", "edge", "far"]))
        c["smooth8"] = smooth_strategy(draw, len(c["edges8"]))
        if draw(st.integers(0, 3)):
            # mostly with copies
            c["pts"]["n"] = max(c["pts"]["n"], 2)
            c["smooth8"] = draw(st.sampled_from([8, 20, 40, 64, 100]))
        c["dtype"] = draw(st.sampled_from(["f8", "f8", "f4", "i4", "i8", "i8", "u8", "c16", "c8", "u1"]))
        c["big"] = draw(st.booleans())      # integers that doubles cannot hold
        c["shape"] = draw(st.lists(st.integers(1, 3), max_size=2))
        c["mode"] = draw(st.sampled_from(MODES))
        c["out"] = draw(st.sampled_from([None, None, "C", "step"]))
        c["layout"] = draw(st.sampled_from(["C", "C", "F", "step", "cols", "neg"]))
        c["roundtrip"] = draw(st.booleans())
        return c
    return make()


def values(case, ids, rank):
    """Data on the copies: depends on item, element and the rank of the copy."""
    import numpy as np
    m = int(np.prod(case["shape"])) if case["shape"] else 1
    e = np.arange(m)
    k = 0 if case["roundtrip"] else rank + 1
    v = ((ids[:, None] * 31 + e * 7 + k * 13) % 41).reshape((len(ids),) + tuple(case["shape"]))
    if case["dtype"] in ("f8", "f4"):
        v = v / 8.0 - 2
    elif case["dtype"] in ("c16", "c8"):
        v = v / 8.0 + 1j * (v % 5 - 2)
    elif case["dtype"] == "u1":
        v = v % 9
    elif case["dtype"] in ("i8", "u8") and case.get("big"):
        v = v + (2 ** 60 if case["dtype"] == "i8" else 2 ** 61) - 11
    elif case["dtype"] != "u8":
        v = v - 11
    return v.astype(case["dtype"])


def laid(a, layout):
    """The same values in another arrangement of memory."""
    import numpy as np
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "step":
        return np.repeat(a, 2, axis=0)[::2]
    if layout == "cols" and a.ndim > 1:
        return np.repeat(a, 2, axis=-1)[..., ::2]
    if layout == "neg":
        return a[::-1].copy()[::-1]
    return a


def check(case, comm):
    import numpy as np
    if case["mode"] in ("maximum", "minimum") and case["dtype"] in ("c16", "c8"):
        case = dict(case, dtype="f8")
    g, edges = make_grid(case, comm)
    x, s, off, want, dest = D01.expected_ids(case, g, edges, comm)
    p, tr = given_pos(case["pts"], x)
    layout = g.decompose(p, smoothing=s, transform=tr)
    me = comm.rank
    mine = dest[me]                              # (n, ranks): where my items have copies
    n = len(mine)
    ids = np.arange(off[me], off[me + 1])
    data = laid(values(case, want, me), case.get("layout", "C"))
    equal(layout.exchange(ids), want, "items received")
    per = [values(case, ids, r) for r in range(comm.size)]      # copies of my items on each rank
    dt = np.dtype(case["dtype"])
    shp = (n,) + tuple(case["shape"])
    ncopy = mine.sum(axis=1)
    mode = case["mode"]
    tolr = 1e-5 if dt in (np.dtype("f4"), np.dtype("c8"), np.dtype("u1")) else 1e-12
    out = None
    if mode == "all":
        shp = (int(ncopy.sum()),) + tuple(case["shape"])
    odt = dt
    if mode == "mean" and dt.kind in "iu":
        odt = np.dtype("f8")
    if case["out"] and mode != "local":
        big = np.full((2 * shp[0] + 1,) + shp[1:], 77, odt)
        out = big[:shp[0]] if case["out"] == "C" else big[1:2 * shp[0] + 1:2]
    keep = data.copy()
    m = getattr(np, mode) if mode in ("add", "maximum", "minimum", "multiply") else mode
    got = layout.gather(data, mode=m, out=out)
    equal(data, keep, "gather changed its input")
    if out is not None and n:
        require(got is out, "gather did not return the given buffer")
    if out is None:
        # one array divided over the ranks: some may have no items
        types = comm.allgather(np.asarray(got).dtype.str)
        require(len(set(types)) == 1, "results of types %s on the ranks, reducing %s by %s", types, dt, mode)
        require(mode == "mean" or types[0] == dt.str, "reducing %s by %s gave %s", dt, mode, types[0])
    require(np.shape(got)[1:] == shp[1:], "gathered items have shape %s", np.shape(got)[1:])
    if mode == "all":
        require(len(got) == len(layout.indices), "gather 'all' returned %d of %d", len(got), len(layout.indices))
        # by destination rank, then by item
        ref = np.concatenate([per[r][mine[:, r]] for r in range(comm.size)]) if n else np.zeros(shp, dt)
        equal(got, ref, "all copies")
        ind = np.concatenate([np.flatnonzero(mine[:, r]) for r in range(comm.size)])
        equal(layout.indices, ind, "indices of all copies")
    else:
        require(len(got) == n, "gather returned %d items for %d", len(got), n)
        have = ncopy > 0
        ex = (slice(None),) + (None,) * len(case["shape"])
        if mode in ("sum", "add", "mean"):
            ref = np.zeros(shp, "c16" if dt.kind == "c" else dt if dt.kind in "iu" and dt.itemsize == 8 else "f8")
            for r in range(comm.size):
                ref += np.where(mine[:, r][ex], per[r], 0)
            if mode == "mean":
                ref = ref[have] / ncopy[have][ex]
                close(np.asarray(got)[have], ref, tolr, 10.0 + np.abs(ref), "mean over copies of %s", dt)
            else:
                if mode == "add":
                    if dt.kind in "iu":
                        equal(got[have], ref[have].astype(dt), "reduction with add of %s", dt)
                    close(got[have], ref[have], tolr, 300.0 + np.abs(ref[have]), "reduction with add of %s", dt)
                elif dt.kind in "iu":
                    equal(got, ref.astype(dt), "sum over copies of %s", dt)
                else:
                    close(got, ref, tolr, 300.0, "sum over copies of %s", dt)
        elif mode in ("maximum", "minimum", "multiply"):
            f = getattr(np, mode)
            for i in np.flatnonzero(have):
                v = f.reduce(np.stack([per[r][i] for r in range(comm.size) if mine[i, r]]), axis=0)
                if mode == "multiply":
                    if dt.kind in "fc":
                        close(got[i], v, tolr, 1.0 + np.abs(v).max(), "product over copies of item %d of %s", i, dt)
                else:
                    equal(got[i], v, "%s over copies of item %d of %s", mode, i, dt)
        elif mode == "any":
            for i in np.flatnonzero(have):
                ok = [per[r][i] for r in range(comm.size) if mine[i, r]]
                require(any(np.array_equal(got[i], v) for v in ok), "'any' of item %d: %r is none of its copies", i, got[i])
        elif mode == "local":
            loc = mine[:, me]
            equal(np.asarray(got)[loc], per[me][loc], "local copies")
        if case["roundtrip"] and mode in ("mean", "any", "maximum", "minimum"):
            close(np.asarray(got)[have].astype("c16"), per[0][have].astype("c16"), tolr, 10.0 + np.abs(per[0][have].astype("c16")), "round trip through exchange and gather (%s)", mode)
    if out is not None and n:
        rest = np.ones(len(big), bool)
        rest[:shp[0]] = rest[:shp[0]] & (case["out"] != "C")
        if case["out"] == "step":
            rest[1:2 * shp[0] + 1:2] = False
        require((big[rest] == 77).all(), "gather wrote outside the given buffer")
    # real round trip, and a refused length
    back = layout.gather(layout.exchange(per[0]), mode="any")
    equal(np.asarray(back)[ncopy > 0], per[0][ncopy > 0], "exchange then gather")
    if case["pts"]["seed"] % 5 == 0:
        try:
            layout.gather(np.zeros(len(want) + (1 if me == 0 else 0)))
        except ValueError:
            pass
        else:
            violation("gather accepted data of the wrong length")
    return {"nontrivial": bool((ncopy > 1).any() or any((d.sum(axis=1) > 1).any() for d in dest)),
            "labels": ["ranks:%d" % comm.size, "mode:" + mode, "type:" + case["dtype"],
                       "uncopied" if any((d.sum(axis=1) == 0).any() for d in dest) else "all copied"]}


FAMILIES = [{"name": "gather", "what": "reductions against the copies of each item", "strategy": strategy,
             "max_examples": {"quick": 1800, "thorough": 60000}}]
