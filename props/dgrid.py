"""Grids of domains, positions in them, and which domains a position reaches:
shared by D01-D05.  Edges, positions and smoothing are dyadic unless said
otherwise, so that the reference is exact."""
from common import *


def grid_strategy(draw, maxdim=3, maxdom=5, ranks=(1, 2, 3, 4, 4) * 4 + (6,), mindom=1):
    st = S()
    nd = draw(st.integers(1, maxdim))
    edges = []
    for _ in range(nd):
        k = draw(st.integers(mindom, maxdom))
        if draw(st.booleans()):
            L = draw(st.sampled_from([1, 2, 3, 4])) * k
            edges.append([8 * L * i // k for i in range(k + 1)])
        else:
            cuts = sorted(draw(st.lists(st.integers(0, 64), min_size=k - 1, max_size=k - 1)))
            edges.append([0] + cuts + [64])
    nr = draw(st.sampled_from(list(ranks)))
    ndom = 1
    for e in edges:
        ndom *= len(e) - 1
    how = draw(st.sampled_from(["default", "default", "random", "reverse"]))
    return {"nranks": nr, "edges8": edges, "periodic": draw(st.booleans()), "assign": how,
            "aseed": draw(st.integers(0, 10 ** 6))}


def pos_strategy(draw, maxn=6, bulk=60):
    st = S()
    return {"seed": draw(seeds()),
            "n": draw(st.one_of(st.integers(0, maxn), st.integers(1, bulk))),
            "spread": draw(st.sampled_from(["all", "all", "one", "some"])),
            "kind": draw(st.sampled_from(["dyadic", "dyadic", "edge", "float", "far", "eps"])),
            "dtype": draw(st.sampled_from(["f8", "f8", "f4"])),
            "extra": draw(st.integers(0, 1)),
            "transform": draw(st.sampled_from([None, None, "scale", "whole"]))}


def smooth_strategy(draw, nd):
    st = S()
    # in eighths; up to a few boxes
    one = st.one_of(st.just(0), st.integers(0, 16), st.integers(0, 80), st.integers(0, 300))
    if draw(st.booleans()):
        return draw(one)
    return [draw(one) for _ in range(nd)]


def make_grid(case, comm):
    import numpy as np
    from pmesh.domain import GridND
    edges = [np.array(e, "f8") / 8 for e in case["edges8"]]
    ndom = int(np.prod([len(e) - 1 for e in edges]))
    a = None
    if case["assign"] == "random":
        a = np.random.RandomState(case["aseed"]).randint(0, comm.size, size=ndom).astype("i4")
    elif case["assign"] == "reverse":
        a = ((ndom - 1 - np.arange(ndom)) % comm.size).astype("i4")
    g = GridND(edges, comm=comm, periodic=case["periodic"], DomainAssign=None if a is None else a.copy())
    if a is not None:
        equal(g.DomainAssign, a, "assignment of domains to ranks")
    else:
        require(len(g.DomainAssign) == ndom and np.min(g.DomainAssign) >= 0 and np.max(g.DomainAssign) < comm.size,
                "default assignment %s for %d domains on %d ranks", g.DomainAssign, ndom, comm.size)
    return g, edges


def positions(spec, edges, comm):
    """-> (positions of all ranks as a list of arrays, in grid units, exact?)"""
    import numpy as np
    rng = np.random.RandomState(spec["seed"])
    nd = len(edges)
    B = np.array([e[-1] for e in edges])
    out = []
    for r in range(comm.size):
        n = spec["n"]
        if spec["spread"] == "one" and r != spec["seed"] % comm.size:
            n = 0
        elif spec["spread"] == "some":
            n = rng.randint(0, n + 1)
        k = spec["kind"]
        if k == "edge":
            x = np.stack([e[rng.randint(0, len(e), size=n)] for e in edges], axis=-1)
            x = x + B * rng.randint(-1, 2, size=(n, nd))
        elif k == "eps":
            x = np.stack([e[rng.randint(0, len(e), size=n)] for e in edges], axis=-1)
            x = x + np.array([0, 1e-18, -1e-18, 1e-13, -1e-13, 1e-7, -1e-7])[rng.randint(0, 7, size=(n, nd))]
        elif k == "float":
            x = rng.uniform(-0.5, 1.5, size=(n, nd)) * B
        elif k == "far":
            x = np.floor(rng.uniform(size=(n, nd)) * B * 16) / 16 + B * rng.randint(-4, 5, size=(n, nd))
        else:
            x = np.floor(rng.uniform(-0.25, 1.25, size=(n, nd)) * B * 16) / 16
        x = x.reshape(n, nd)
        out.append(x.astype(spec["dtype"]))
    return out, spec["kind"] in ("edge", "far", "dyadic")


def given_pos(spec, x):
    """What is passed to the code: extra columns, other units, other memory order."""
    import numpy as np
    tr = None
    if spec["transform"] == "scale":
        x = x * np.array(0.5, x.dtype)
        tr = lambda p: p * np.array(2.0, p.dtype)       # noqa: E731
    elif spec["transform"] == "whole" and spec["kind"] in ("edge", "far", "dyadic"):
        # integers, as mesh points are
        x = (x * 16).astype("i8" if spec["seed"] % 2 else "i4")
        tr = lambda p: np.asarray(p) * 0.0625       # noqa: E731
    if spec["extra"]:
        x = np.concatenate([x, np.full((len(x), 1), 1e9, x.dtype)], axis=1)
    if spec["seed"] % 3 == 0:
        x = np.asfortranarray(x)
    elif spec["seed"] % 7 == 1 and len(x):
        x = x.tolist()          # (exact: single precision fits)
    return x, tr


def reach(x, s, edges, periodic, delta=0.0):
    """(must, may): per particle and domain (C order), whether the extent of the
    particle touches the domain surely and possibly (within delta)."""
    import numpy as np
    nd = len(edges)
    s = np.ones(nd) * np.asarray(s, "f8")
    n = len(x)
    must = np.ones((n, 1), bool)
    may = np.ones((n, 1), bool)
    for d in range(nd):
        e = edges[d]
        B = e[-1]
        c = x[:, d].astype("f8")
        if periodic:
            c = c - np.floor(c / B) * B
        lo, hi = e[:-1], e[1:]
        k = int(math.ceil((s[d] + delta) / B)) + 1 if periodic else 0
        a = np.zeros((n, len(lo)), bool)
        b = np.zeros((n, len(lo)), bool)
        for m in range(-k, k + 1):
            for f, dd in ((a, -delta), (b, delta)):
                l = (c - s[d] - dd)[:, None]
                r = (c + s[d] + dd)[:, None]
                t = (l < hi + m * B) & (r >= lo + m * B) & (lo < hi)
                if dd < 0:
                    t &= r >= l
                elif dd > 0:
                    t = (l <= hi + m * B) & (r >= lo + m * B) & (lo < hi)
                f |= t
        must = (must[:, :, None] & a[:, None, :]).reshape(n, must.shape[1] * len(lo))
        may = (may[:, :, None] & b[:, None, :]).reshape(n, may.shape[1] * len(lo))
    return must, may


def to_ranks(dom, assign, size):
    import numpy as np
    out = np.zeros((len(dom), size), bool)
    for r in range(size):
        sel = assign == r
        if sel.any():
            out[:, r] = dom[:, sel].any(axis=1)
    return out
