"""I01: the invariant index."""
from common import *

RULE = ("cube: a cubic mesh with all its points; mesh: a mesh of any side lengths, a sub-volume, a maximum length and an integer type; large: points of a huge mesh. "
        "Non-trivial: two or more dimensions and sides longer than 2.")
ASSUMPTIONS = ["On odd meshes the points run from -(N-1)/2 to (N-1)/2; the point -(N+1)/2 the documentation of get_index also allows is not asked for."]
BUDGET = {"quick": 20, "thorough": 300}
TOP = {"quick": {1: 300, 2: 40, 3: 14, 4: 7, 5: 5}, "thorough": {1: 3000, 2: 150, 3: 36, 4: 14, 5: 8}}


def cube_strategy(tier):
    st = S()
    top = TOP[tier]
    return st.sampled_from([1, 2, 3, 3, 4, 5]).flatmap(lambda nd: st.fixed_dictionaries(
        {"nd": st.just(nd), "N": st.integers(1, top[nd]), "M": st.integers(1, top[nd]), "half": st.booleans(), "nyqneg": st.booleans()}))


def axis(n, half):
    import numpy as np
    if half:
        return np.arange(n // 2 + 1)
    return np.arange(-((n - 1) // 2), n // 2 + 1)


def allpoints(N, half, dtype="i8"):
    import numpy as np
    g = np.meshgrid(*[axis(n, half and d == len(N) - 1) for d, n in enumerate(N)], indexing="ij")
    return np.stack(g, axis=-1).astype(dtype)


def check_cube(case, comm):
    import numpy as np
    from pmesh.invariant import get_index
    nd, half = case["nd"], case["half"]
    out = []
    for n in (case["N"], case["M"]):
        x = allpoints([n] * nd, half)
        y = x.copy()
        if case["nyqneg"] and n % 2 == 0:
            y[y == n // 2] = -n // 2
        r = get_index(y, n, compressed=half)
        if half and nd and case["nyqneg"] and n % 2 == 0:
            pass                # the Nyquist frequency may be either on every axis
        equal(np.sort(r.ravel()), np.arange(r.size), "indices of all points of a mesh of %d^%d", n, nd)
        linf = np.abs(x).max(axis=-1).ravel()
        order = np.argsort(r.ravel())
        require((np.diff(linf[order]) >= 0).all(), "indices do not grow outwards on a mesh of %d^%d", n, nd)
        out.append((n, x, r))
    (n, x, r), (m, z, s) = sorted(out, key=lambda t: t[0])
    # points of the smaller mesh within the larger
    sl = tuple(slice(axis(n, half and d == nd - 1)[0] - axis(m, half and d == nd - 1)[0],
                     axis(n, half and d == nd - 1)[-1] - axis(m, half and d == nd - 1)[0] + 1) for d in range(nd))
    equal(s[sl], r, "indices of the mesh of %d^%d within that of %d^%d", n, nd, m, nd)
    return {"nontrivial": nd > 1 and case["N"] > 2, "labels": ["dim:%d" % nd, "half" if half else "full", "odd" if case["N"] % 2 else "even"]}


def mesh_strategy(tier):
    st = S()
    top = TOP[tier]
    return st.sampled_from([1, 2, 3, 3, 4]).flatmap(lambda nd: st.fixed_dictionaries(
        {"N": st.lists(st.integers(1, max(2, top[nd] * 2 // 3)), min_size=nd, max_size=nd), "half": st.booleans(), "seed": seeds(),
         "maxlength": st.one_of(st.integers(0, 20), st.integers(0, top[nd] ** nd), st.none()), "beyond": st.integers(0, 3),
         "dtype": st.sampled_from(["i8", "i8", "i4", "i2"]), "layout": st.sampled_from(["C", "F", "step", "neg"])}))


def check_mesh(case, comm):
    import numpy as np
    from pmesh.invariant import get_index
    N, half = case["N"], case["half"]
    nd = len(N)
    rng = np.random.RandomState(case["seed"])
    x = allpoints(N, half)
    r = get_index(x, N if len(set(N)) > 1 else N[0], compressed=half)
    require(r.shape == x.shape[:-1], "shape %s for points %s", r.shape, x.shape)
    require(len(np.unique(r)) == r.size and r.min() == 0, "two points of mesh %s share an index, or none has index 0", N)
    # an enclosing cube holds the same indices
    n = max(N)
    rc = get_index(x, n, compressed=half)
    equal(rc, r, "indices of mesh %s and of the cube of %d", N, n)
    # sub-volume, in another type and layout
    lo = [rng.randint(0, s) for s in x.shape[:-1]]
    hi = [rng.randint(a + 1, s + 1) for a, s in zip(lo, x.shape[:-1])]
    sl = tuple(slice(a, b) for a, b in zip(lo, hi))
    sub, _, _ = strided(x[sl].shape, case["dtype"], case["layout"])
    sub[...] = x[sl]
    keep = sub.copy()
    equal(get_index(sub, N, compressed=half), r[sl], "indices of part %s of mesh %s", sl, N)
    equal(sub, keep, "the points after the call")
    # maximum length
    ml = case["maxlength"]
    if ml is not None:
        equal(get_index(x, N, compressed=half, maxlength=ml), np.where(r < ml, r, -1), "indices below %d of mesh %s", ml, N)
    # outside
    d = rng.randint(nd)
    far = x.reshape(-1, nd)[rng.randint(0, x.reshape(-1, nd).shape[0], size=5)].copy()
    far[:, d] = (N[d] // 2 + 1 + case["beyond"]) * (1 if (half and d == nd - 1) or rng.randint(2) else -1)
    if N[d] % 2:
        far[:, d] += np.sign(far[:, d])         # one more: see ASSUMPTIONS
    equal(get_index(far, N, compressed=half), np.full(5, -1), "points %s outside mesh %s", far.tolist(), N)
    if half and N[-1] > 2:
        neg = x.reshape(-1, nd)[:5].copy()
        neg[:, -1] = -1
        equal(get_index(neg, N, compressed=True), np.full(len(neg), -1), "points in the half that is not stored")
    return {"nontrivial": nd > 1 and max(N) > 2, "labels": ["dim:%d" % nd, "half" if half else "full", "type:" + case["dtype"],
                                                           "maxlength" if ml is not None else "no maxlength"]}


def large_strategy(tier):
    st = S()
    return st.fixed_dictionaries({"nd": st.integers(1, 4), "log": st.integers(3, 30), "n": st.integers(2, 60), "seed": seeds(), "half": st.booleans()})


def check_large(case, comm):
    import numpy as np
    from pmesh.invariant import get_index
    nd, half = case["nd"], case["half"]
    N = 2 ** min(case["log"], 61 // nd)
    rng = np.random.RandomState(case["seed"])
    x = rng.randint(-N // 2 + 1, N // 2 + 1, size=(case["n"], nd)).astype("i8")
    x[::3] //= rng.randint(1, 50, size=x[::3].shape)
    if half:
        x[:, -1] = np.abs(x[:, -1])
    x = np.unique(x, axis=0)
    r = get_index(x, N, compressed=half)
    require(len(np.unique(r)) == len(x), "two points of a mesh of %d^%d share an index", N, nd)
    for p, i in zip(x, r):
        s = int(np.abs(p).max())
        a = (2 * s - 1) ** (nd - 1) * (s if half else 2 * s - 1) if s else 0
        b = (2 * s + 1) ** (nd - 1) * (s + 1 if half else 2 * s + 1)
        require(a <= int(i) < b, "index %d of %s is not in its shell %d..%d", i, p.tolist(), a, b)
    return {"nontrivial": nd > 1, "labels": ["dim:%d" % nd, "half" if half else "full"]}


def check(case, comm):
    return {"cube": check_cube, "mesh": check_mesh, "large": check_large}[case["family"]](case, comm)


FAMILIES = [
    {"name": "cube", "what": "all points of cubic meshes, nesting", "strategy": cube_strategy, "weight": 2, "max_examples": {"quick": 600, "thorough": 20000}},
    {"name": "mesh", "what": "any side lengths, sub-volumes, maximum length, outside", "strategy": mesh_strategy, "weight": 2, "max_examples": {"quick": 1000, "thorough": 30000}},
    {"name": "large", "what": "distinct indices within their shells on huge meshes", "strategy": large_strategy, "weight": 1, "max_examples": {"quick": 400, "thorough": 10000}},
]
