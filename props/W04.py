"""W04: periodicity, affine maps, tiles, guards."""
from common import *
import W02

RULE = ("A case is a window, a mesh, an affine map, positions, and one relation (period shift, cell roll, affine "
        "composition, tile of a larger mesh). Non-trivial: at least one particle reaches the mesh; for tiles, at "
        "least one reaches the tile and the tile is not the whole mesh.")
ASSUMPTIONS = ["Compared to 1e-11 of the kernel maximum plus the effect of rounding a shifted position; "
               "positions within 1e-6 cells of a jump of the kernel are left out."]
BUDGET = {"quick": 25, "thorough": 400}


def base_case(draw, tile=False, maxdim=4):
    st = S()
    win = draw(st.sampled_from(ALLWIN))
    big = win in TABLE + WAVELET
    nd = draw(st.integers(1, 2 if big else maxdim))
    return {"nranks": 1, "win": win, "shape": [draw(st.integers(1, 10 if nd < 3 else 6)) for _ in range(nd)],
            "dtype": draw(st.sampled_from(["f8", "f4"])), "pdtype": "f8",
            "layout": draw(st.sampled_from(["C", "F", "roll", "step", "mix", "neg"])),
            "scale": [draw(st.sampled_from([1.0, 1.0, 0.5, 1.7, 4.0])) for _ in range(nd)],
            "shift": [draw(st.one_of(st.just(0.0), dyadic(-9, 9, 8))) for _ in range(nd)],
            "h": draw(st.lists(st.sampled_from([0.5, 0.9, 1.0, 1.3, 2.0]), min_size=1, max_size=3)),
            "stretch": draw(st.sampled_from(["native", "native", "hsml", "hsmls"])),
            "pts": draw(points(maxn=3, kinds=("uniform", "cell", "half", "far", "edge"), bulk=20)),
            "diff": draw(st.one_of(st.none(), st.none(), st.integers(0, nd - 1)))}


def sym_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = base_case(draw)
        nd = len(c["shape"])
        c["per"] = ["full"] * nd
        c["rel"] = draw(st.sampled_from(["period", "roll", "affine", "rescale", "shift", "reflect"]))
        c["by"] = [draw(st.integers(-7, 7)) for _ in range(nd)]
        c["amount"] = draw(st.sampled_from([0.5, 1.0, 3.0, 1.3]))
        return c
    return make()


def prep(case):
    import numpy as np
    w, tr, kw, pos, g, st, period = W02.setup(case)
    ok = W02.keep(case, g, st)
    if case["rel"] == "reflect":
        ok &= W02.keep(case, -g, st)
    pos, g, st = pos[ok], g[ok], st[ok]
    if "hsml" in kw and not np.isscalar(kw["hsml"]):
        kw["hsml"] = kw["hsml"][ok]
    return w, tr, kw, pos, g, st


def check_sym(case, comm):
    import numpy as np
    from pmesh.window import Affine
    w, tr, kw, pos, g, st = prep(case)
    n = len(pos)
    shape = np.array(case["shape"])
    nd = len(shape)
    rng = np.random.RandomState(case["pts"]["seed"] + 3)
    mass = rng.uniform(0.5, 2, size=n)
    f = rng.uniform(-1, 1, size=shape).astype(case["dtype"])
    scale, shift, by = np.array(case["scale"]), np.array(case["shift"]), np.array(case["by"])

    def paint(p, t, k=kw):
        real, block, mask = strided(shape, case["dtype"], case["layout"], 0, guard=-5)
        w.paint(real, p, mass=mass, transform=t, **k)
        require((block[~mask] == -5).all(), "painting wrote outside the mesh")
        return real

    km = max(float(np.max(W02.kmax(case, st))) if n else 1.0, 1.0)
    # rounding of a position by 1e-13 changes a weight by less than 1e-9
    t = 2e-9 if case["dtype"] == "f8" else 1e-5
    slope = 1.0 if case["diff"] is None else 300.0
    if case["diff"] is not None and case["win"] in WAVELET + TABLE:
        slope = 1e5     # stepwise derivative
    t = t * slope * km
    tot = max(mass.sum(), 1.0)
    a, va = paint(pos, tr), w.readout(f, pos, transform=tr, **kw)
    rel = case["rel"]
    if rel == "period":
        # every particle by its own number of periods
        p2 = pos + rng.randint(-4, 5, size=pos.shape) * (shape / scale)
        close(paint(p2, tr), a, t, tot, "painting particles shifted by whole periods (%s)", case["win"])
        close(w.readout(f, p2, transform=tr, **kw), va, t, f.size, "reading out particles shifted by whole periods")
    elif rel == "roll":
        p2 = pos + by / scale
        close(paint(p2, tr), np.roll(a, tuple(by), tuple(range(nd))), t, tot, "painting shifted by %s cells (%s)",
              case["by"], case["win"])
        close(w.readout(np.roll(f, tuple(by), tuple(range(nd))), p2, transform=tr, **kw), va, t, f.size,
              "reading out shifted by whole cells")
        t2 = tr.shift(by)
        close(paint(pos, t2), np.roll(a, tuple(by), tuple(range(nd))), t, tot, "painting with shifted map")
    elif rel == "affine" and case["diff"] is None:
        t2 = Affine(nd, period=shape)
        close(paint(g, t2), a, t, tot, "painting with the map applied to positions beforehand")
        close(w.readout(f, g, transform=t2, **kw), va, t, f.size, "reading out with the map applied beforehand")
        # the default is the identity without period
        t3 = Affine(nd, scale=np.ones(nd), translate=np.zeros(nd), period=np.zeros(nd, "i8"))
        equal(paint(g, Affine(nd)), paint(g, t3), "painting with the default map")
        equal(paint(g, None), paint(g, t3), "painting without a map")
        equal(w.readout(f, g, **kw), w.readout(f, g, transform=t3, **kw), "reading out without a map")
        if np.all(shift == 0) and np.all(scale == scale[0]):
            close(paint(pos, Affine(nd, scale=float(scale[0]), period=shape)), a, t, tot, "scalar scale")
    elif rel == "rescale":
        am = case["amount"]
        t0 = Affine(nd, scale=scale, translate=shift, period=shape)
        t2 = t0.rescale(am)
        equal(t0.scale, scale, "rescale changed its argument")
        t3 = Affine(nd, scale=scale * am, translate=shift, period=shape)
        equal(t2.scale, t3.scale, "rescaled scale")
        equal(t2.translate, t3.translate, "translate after rescale")
        equal(t2.period, t3.period, "period after rescale")
        equal(paint(pos, t2), paint(pos, t3), "painting with a rescaled map")
    elif rel == "shift":
        am = case["amount"]
        t0 = Affine(nd, scale=scale, translate=shift, period=shape)
        t2 = t0.shift(am)
        t3 = Affine(nd, scale=scale, translate=shift + am, period=shape)
        equal(t2.scale, t3.scale, "scale after shift")
        equal(t2.translate, t3.translate, "shifted translate")
        equal(t2.period, t3.period, "period after shift")
        equal(paint(pos, t2), paint(pos, t3), "painting with a shifted map")
        equal(t0.translate, shift, "shift changed its argument")
    elif rel == "reflect" and case["win"] in BSPLINE + TABLE:
        # the kernels are even: mirror positions and mesh
        t2 = Affine(nd, period=shape)
        k2 = dict(kw)
        k2.pop("diffdir", None)
        a = paint(g, t2, k2)
        b = paint(-g, t2, k2)
        for d in range(nd):
            b = np.roll(np.flip(b, d), 1, d)
        close(b, a, t, tot, "painting mirrored particles (%s)", case["win"])
    return {"nontrivial": bool(n and np.abs(a).max() > 0),
            "labels": ["rel:" + rel, "win:" + case["win"], "dim:%d" % nd]}


def tile_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = base_case(draw)
        nd = len(c["shape"])
        c["per"] = [draw(st.sampled_from(["full", "full", "full", "none"])) for _ in range(nd)]
        c["rel"] = "tile"
        # cuts along each axis
        c["cuts"] = [sorted(draw(st.lists(st.integers(0, s), max_size=2))) for s in c["shape"]]
        return c
    return make()


def check_tile(case, comm):
    import itertools
    import numpy as np
    w, tr, kw, pos, g, st = prep(case)
    n = len(pos)
    shape = case["shape"]
    nd = len(shape)
    rng = np.random.RandomState(case["pts"]["seed"] + 3)
    mass = rng.uniform(0.5, 2, size=n)
    whole = np.zeros(shape, case["dtype"])
    w.paint(whole, pos, mass=mass, transform=tr, **kw)
    f = rng.uniform(-1, 1, size=shape).astype(case["dtype"])
    v = w.readout(f, pos, transform=tr, **kw)
    edges = [[0] + c + [s] for c, s in zip(case["cuts"], shape)]
    km = max(float(np.max(W02.kmax(case, st))) if n else 1.0, 1.0)
    t = (1e-9 if case["dtype"] == "f8" else 1e-5) * km
    if case["diff"] is not None:
        t = t * (1e5 if case["win"] in WAVELET + TABLE else 300)
    acc = np.zeros(n)
    hit = False
    for idx in itertools.product(*[range(len(e) - 1) for e in edges]):
        lo = [edges[d][i] for d, i in enumerate(idx)]
        hi = [edges[d][i + 1] for d, i in enumerate(idx)]
        sl = tuple(slice(a, b) for a, b in zip(lo, hi))
        size = [b - a for a, b in zip(lo, hi)]
        real, block, mask = strided(size, case["dtype"], case["layout"], 0, guard=-5)
        t2 = tr.shift(-np.array(lo))
        w.paint(real, pos, mass=mass, transform=t2, **kw)
        require((block[~mask] == -5).all(), "painting a tile wrote outside it")
        close(real, whole[sl], t, max(mass.sum(), 1.0), "tile %s:%s of the mesh %s (%s)", lo, hi, shape, case["win"])
        hit = hit or (real.size and real.size < whole.size and np.abs(real).max() > 0)
        ff, block, mask = strided(size, case["dtype"], case["layout"], 0, guard=float("nan"))
        ff[...] = f[sl]
        acc += w.readout(ff, pos, transform=t2, **kw)
    close(acc, v, t, f.size, "sum of the read-outs of all tiles (%s)", case["win"])
    return {"nontrivial": bool(n and hit), "labels": ["win:" + case["win"], "dim:%d" % nd, "tiles"]}


def check(case, comm):
    return check_sym(case, comm) if case["family"] == "symmetry" else check_tile(case, comm)


FAMILIES = [
    {"name": "symmetry", "what": "period shifts, cell rolls, affine composition, reflection", "strategy": sym_strategy,
     "weight": 1, "max_examples": {"quick": 1600, "thorough": 80000}},
    {"name": "tiles", "what": "tiles of a mesh against the mesh, with guard cells", "strategy": tile_strategy,
     "weight": 1, "max_examples": {"quick": 1200, "thorough": 80000}},
]
