"""L02: the standalone kernels (cic, tsc, and the painter for any kernel)."""
from common import *

RULE = ("A case is an implementation, a mesh (1-4 dimensions, any memory layout the implementation takes), a "
        "period per side (none, one number, or one per side; equal to, above or below the side), positions "
        "anywhere, scalar or individual weights and a boundary mode. Non-trivial: at least one particle gives a "
        "non-zero weight to a mesh point.")
ASSUMPTIONS = ["The generic painter is defined up to the integral of its kernel, computed here by a finer "
               "quadrature (agreement to 1e-5).",
               "With mode 'raise' a position whose outermost point has weight zero may or may not be refused."]
BUDGET = {"quick": 60, "thorough": 400}

CICS = ["cic", "cic_old"]
GEN = ["linear", "cubic", "lanczos2", "lanczos3", "lanczos4", "lanczos2.5", "lanczos1.5", "kaiser"]


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        impl = draw(st.sampled_from(["cic", "cic", "cic_old", "tsc", "tsc", "gen", "gen"]))
        win = draw(st.sampled_from(GEN)) if impl == "gen" else impl
        nd = draw(st.integers(1, 4 if impl == "cic_old" else 3 if win not in ("lanczos3", "lanczos4", "lanczos2.5", "kaiser") else 2))
        shape = [draw(st.integers(1, 8 if nd < 3 else 5)) for _ in range(nd)]
        pk = draw(st.sampled_from(["none", "side", "scalar", "other", "side"]))
        per = None
        if pk == "side":
            per = list(shape)
        elif pk == "scalar":
            per = draw(st.integers(1, 9))
        elif pk == "other":
            per = [draw(st.integers(1, 10)) for _ in range(nd)]
        return {"nranks": 1, "impl": impl, "win": win, "shape": shape, "period": per,
                "mode": draw(st.sampled_from(["ignore", "ignore", "raise"])),
                "layout": draw(st.sampled_from(["plain", "C", "F", "step", "neg"])) if impl != "tsc" else "plain",
                "dtype": draw(st.sampled_from(["f8", "f8", "f4"])),
                "scale": [draw(st.sampled_from([1.0, 1.0, 0.5, 1.75])) for _ in range(nd)],
                "shift": [draw(st.one_of(st.just(0.0), dyadic(-5, 5, 8))) for _ in range(nd)],
                "tr": draw(st.booleans()),
                "weights": draw(st.sampled_from(["array", "array", "scalar", "default", "f4"])),
                "out": draw(st.booleans()), "fill": draw(st.sampled_from([0.0, 2.0])),
                "pts": draw(points(maxn=3, kinds=("uniform", "cell", "half", "far", "edge", "near"), bulk=12))}
    return make()


_integral = {}


def k1(win, x):
    import numpy as np
    x = np.asarray(x, "f8")
    a = np.abs(x)
    if win in ("cic", "cic_old", "linear"):
        return np.where(a < 1, 1 - a, 0.0)
    if win == "tsc":
        return kernel("quadratic", x)
    if win == "cubic":          # Keys' interpolating cubic, alpha = -1/2
        return np.where(a < 1, 1.5 * a ** 3 - 2.5 * a ** 2 + 1,
                        np.where(a < 2, -0.5 * a ** 3 + 2.5 * a ** 2 - 4 * a + 2, 0.0))
    if win.startswith("lanczos"):
        n = float(win[7:])
        f = lambda y: np.where(np.abs(y) <= n, np.sinc(y) * np.sinc(y / n), 0.0)
    else:
        n = 2
        beta = np.pi * 1.5
        f = lambda y: np.where(np.abs(y) <= n, np.i0(beta * np.sqrt(np.clip(1 - (y / n) ** 2, 0, 1))).reshape(np.shape(y)) / np.i0(beta), 0.0)
    if win not in _integral:
        y = np.linspace(-n, n, 400001)
        _integral[win] = np.trapz(f(y), y)
    return f(x) / _integral[win]


SUPP = {"cic": 1, "cic_old": 1, "tsc": 1.5, "linear": 1, "cubic": 2, "lanczos2": 2, "lanczos3": 3, "lanczos4": 4, "lanczos2.5": 3, "lanczos1.5": 2, "kaiser": 2}


def reference(case, g, period):
    """For each particle: its weights over the mesh, and the largest weight it
    has outside; and whether its closed support stays inside."""
    import numpy as np
    shape, win = case["shape"], case["win"]
    h = SUPP[win]
    W, lost, safe = [], 0.0, True
    for p in g:
        lines, out = [], []
        for d, n in enumerate(shape):
            t = np.arange(int(np.floor(p[d] - h)) - 1, int(np.ceil(p[d] + h)) + 2)
            w = k1(win, p[d] - t)
            inner = np.abs(p[d] - t) <= h + 1e-6
            if period[d]:
                t = t % period[d]
            ok = (t >= 0) & (t < n)
            line = np.zeros(n)
            np.add.at(line, t[ok], w[ok])
            lines.append(line)
            out.append((np.abs(w[~ok]).max(initial=0.0), np.abs(w).max(initial=0.0)))
            if (inner & ~ok).any():
                safe = False
        for d in range(len(shape)):
            lost = max(lost, out[d][0] * np.prod([out[e][1] for e in range(len(shape)) if e != d]))
        v = lines[0]
        for l in lines[1:]:
            v = v[..., None] * l
        W.append(v)
    return np.array(W).reshape([len(g)] + list(shape)), lost, safe


def functions(case):
    import warnings
    warnings.simplefilter("ignore")
    from pmesh import cic, tsc, lanczos
    if case["impl"] == "cic":
        return cic.paint, cic.readout
    if case["impl"] == "cic_old":
        return cic.paint_old, cic.readout_old
    if case["impl"] == "tsc":
        return tsc.paint, tsc.readout
    w = case["win"]
    win = {"linear": lanczos.linear, "cubic": lanczos.cubic, "lanczos2": lanczos.lanczos2, "lanczos3": lanczos.lanczos3}.get(w)
    if w in ("lanczos4", "lanczos2.5", "lanczos1.5"):
        win = lanczos.lanczos(float(w[7:]) if "." in w else int(w[7:]))
    if w == "kaiser":
        win = lanczos.kaiser(2, 1.5)

    def paint(*args, **kw):
        import numpy
        with numpy.errstate(invalid="ignore"):
            return lanczos.paint(*args, window=win, **kw)
    return paint, None


def block_of(shape, dtype, layout, fill, guard=None):
    import numpy as np
    if layout == "plain":
        a = np.full(shape, fill, dtype)
        return a, a, np.ones(a.shape, bool)
    return strided(shape, dtype, layout, fill, guard=guard)


def check_one(case, comm):
    import numpy as np
    paint, readout = functions(case)
    shape = case["shape"]
    nd = len(shape)
    scale, shift = (np.array(case["scale"]), np.array(case["shift"])) if case["tr"] else (np.ones(nd), np.zeros(nd))
    g = make_points(case["pts"], shape)
    if case["win"] == "kaiser":
        # this kernel jumps at its edge
        g = g + 1e-3 * (np.abs(g - np.rint(g)) < 1e-3)
    pos = (g - shift) / scale
    g = pos * scale + shift
    n = len(pos)
    rng = np.random.RandomState(case["pts"]["seed"] + 5)
    if case["weights"] in ("array", "f4"):
        wt = rng.uniform(-1, 2, size=n).astype("f4" if case["weights"] == "f4" else "f8")
    elif case["weights"] == "scalar":
        wt = 2.5
    else:
        wt = 1.0
    kw = {"mode": case["mode"]}
    if case["period"] is not None:
        kw["period"] = case["period"] if np.isscalar(case["period"]) else np.array(case["period"])
    if case["tr"]:
        kw["transform"] = lambda x: x * scale + shift
    period = [0] * nd if case["period"] is None else [case["period"]] * nd if np.isscalar(case["period"]) else case["period"]
    W, lost, safe = reference(case, g, period)
    mesh, block, mask = block_of(shape, case["dtype"], case["layout"], case["fill"], guard=7.0)
    p0 = pos.copy()
    pkw = dict(kw) if case["weights"] == "default" else dict(kw, weights=wt)
    name = "%s (%s)" % (case["impl"], case["win"])
    refused = False
    try:
        r = paint(pos, mesh, **pkw)
    except ValueError as e:
        refused = True
        require(case["mode"] == "raise", "%s: refused with mode ignore: %s", name, e)
        require(not safe, "%s: refused although nothing is outside: %s", name, e)
    require(refused or case["mode"] == "ignore" or lost < 1e-9, "%s: a weight of %g outside the mesh was not refused", name, lost)
    equal(pos, p0, "%s: the positions after painting", name)
    ww = np.ones(n) * wt
    ref = np.tensordot(ww.astype("f8"), W, axes=(0, 0)) + case["fill"]
    t = 1e-11 if case["dtype"] == "f8" else 5e-6
    if case["impl"] == "gen" and case["win"] not in ("linear", "cubic"):
        t += 1e-5
    sc = np.abs(ww).sum() + case["fill"] + 1
    equal(block[~mask], np.full(int((~mask).sum()), 7.0, case["dtype"]), "%s: memory around the mesh", name)
    if not refused:
        require(r is mesh, "%s: paint returned another mesh", name)
        close(mesh, ref, t, sc, "%s: painted mesh", name)
        full = all(p and p <= s for p, s in zip(period, shape))
        if full and case["win"] in ("cic", "cic_old", "tsc", "linear", "cubic"):
            close(mesh.astype("f8").sum() - case["fill"] * mesh.size, ww.sum(), t * mesh.size, sc, "%s: total on a periodic mesh", name)
        if case["impl"] in CICS and (case["period"] is None or list(period) == list(shape)):
            from pmesh.window import CIC, Affine
            m2 = np.full(shape, case["fill"], "f8")
            CIC.paint(m2, pos, mass=ww.astype("f8"), transform=Affine(nd, scale=scale, translate=shift, period=np.array(period)))
            close(mesh, m2, t, sc, "%s: compared with the linear window", name)
    if readout is not None:
        field = block_of(shape, case["dtype"], case["layout"], 0)[0]
        field[...] = rng.normal(size=shape)
        f0 = field.copy()
        rkw = dict(kw)
        if case["out"]:
            rkw["out"] = np.full(n, 3.0)
        try:
            v = readout(field, pos, **rkw)
        except ValueError as e:
            require(case["mode"] == "raise" and not safe, "%s: readout refused although nothing is outside: %s", name, e)
            refused = True
        else:
            require(case["mode"] == "ignore" or lost < 1e-9, "%s: readout outside the mesh was not refused", name)
            if case["out"]:
                require(v is rkw["out"], "%s: readout returned another array", name)
            close(v, np.tensordot(W, field.astype("f8"), axes=len(shape)), t, np.abs(field).max(initial=1.0) + 1, "%s: readout", name)
        equal(field, f0, "%s: the mesh after readout", name)
    return {"nontrivial": bool(n and np.abs(W).max(initial=0) > 1e-6), "labels": ["win:" + case["win"], "dim:%d" % nd, case["mode"], "refused" if refused else "done", "layout:" + case["layout"],
            "period:" + ("none" if case["period"] is None else "scalar" if np.isscalar(case["period"]) else "side" if list(period) == list(shape) else "vector")]}


def many_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        impl = draw(st.sampled_from(["cic", "cic_old", "tsc", "gen"]))
        base = 1 << (20 if impl in ("cic", "tsc") else 16)
        return {"nranks": 1, "impl": impl, "win": "linear" if impl == "gen" else impl, "nd": draw(st.integers(1, 2)),
                "n": base * draw(st.integers(1, 2)) + draw(st.sampled_from([-1, 0, 1, 5, 1000])),
                "cut": draw(st.sampled_from([0.3, 0.5, 0.9])),
                "seed": draw(seeds()), "scalar": draw(st.booleans())}
    return make()


def check_many(case, comm):
    """More particles than the code handles at a time."""
    import numpy as np
    paint, readout = functions(case)
    rng = np.random.RandomState(case["seed"])
    nd, n = case["nd"], case["n"]
    shape = (7, 5)[:nd]
    pos = rng.uniform(-10, 20, size=(n, nd))
    wt = 0.5 if case["scalar"] else rng.uniform(size=n)
    kw = dict(mode="raise", period=np.array(shape))
    a = paint(pos, np.zeros(shape), weights=wt, **kw)
    # reference: total weight per fractional cell, by bincount
    g = pos % np.array(shape)
    ref = np.zeros(shape)
    ww = np.ones(n) * wt
    idx = np.indices((3,) * nd).reshape(nd, -1).T - 1
    base = np.rint(g).astype(int)
    for d in idx:
        t = base + d
        w = ww * np.prod([k1(case["win"], g[:, e] - t[:, e]) for e in range(nd)], axis=0)
        np.add.at(ref, tuple((t % np.array(shape)).T), w) if n < 1000 else ref.ravel().__iadd__(
            np.bincount(np.ravel_multi_index((t % np.array(shape)).T, shape), w, minlength=ref.size))
    close(a, ref, 1e-9, ww.sum(), "%s: %d particles", case["impl"], n)
    if readout is not None:
        f = rng.normal(size=shape)
        v = readout(f, pos, **kw)
        k = int(n * case["cut"])
        close(v, np.concatenate([readout(f, pos[:k], **kw), readout(f, pos[k:], **kw)]), 1e-12, 10.0, "%s: readout at %d positions", case["impl"], n)
        close((v * ww).sum(), (a * f).sum(), 1e-9, ww.sum() * 4, "%s: readout and paint of %d particles", case["impl"], n)
    return {"nontrivial": n > (1 << (20 if case["impl"] in ("cic", "tsc") else 16)), "labels": ["many:" + case["impl"]]}


def check(case, comm):
    return check_many(case, comm) if case["family"] == "many" else check_one(case, comm)


FAMILIES = [
    {"name": "kernels", "what": "weights on the mesh and read out, one by one", "strategy": strategy, "weight": 4,
     "max_examples": {"quick": 1500, "thorough": 40000}},
    {"name": "many", "what": "numbers of particles around the sizes of the internal chunks", "strategy": many_strategy, "weight": 1,
     "max_examples": {"quick": 40, "thorough": 600}},
]
