"""P02: painting and reading on a divided mesh equal the undivided result."""
from pmbase import *

RULE = ("A mesh over 1 to 6 (thorough: 8) ranks, a window, and particles (inside, on cell and rank boundaries, far outside) spread in some way over the ranks, "
        "with mass, smoothing, gradient, earlier contents. Reference: the same call on one rank. Non-trivial: more than one rank and at least one particle.")
ASSUMPTIONS = ["Positions on cell boundaries are exact in binary, so that both runs see the same position; where a window jumps there, both still have to agree.",
               "Sums are compared to 1e-11 (single precision 1e-5) of the sum of absolute masses."]
BUDGET = {"quick": 40, "thorough": 400}


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dims=(2, 2, 3, 3, 3, 4), dtypes=("f8", "f8", "f8", "f4", "f4", "c16", "c8"), ranks=[2, 2, 3, 4, 4, 1] * 3 + [6] if tier == "quick" else [2, 3, 4, 6, 8, 1])
        nd = len(c["N"])
        wins = ALLWIN if nd == 2 else BSPLINE + ["lanczos2", "acg2", "db6"] if nd == 3 else BSPLINE
        c["win"] = draw(st.one_of(st.sampled_from(BSPLINE), st.sampled_from(wins)))
        c["how"] = draw(st.sampled_from(["name", "object", "default"]))
        c["resize"] = draw(st.integers(1, 6)) if draw(st.integers(0, 5)) == 0 and nd < 4 else None
        c["smooth"] = draw(st.sampled_from(["window", "number", "vector", "default"]))
        kinds = ("uniform", "far", "near", "cell", "half", "dyadic", "edge", "same") if c["exact"] else ("uniform", "far", "near")
        c["pts"] = draw(points(maxn=4, kinds=kinds, bulk=30))
        c["pts"]["kind"] = draw(st.sampled_from(kinds))
        c["spread"] = draw(st.sampled_from(["any", "any", "one", "sorted"]))
        c["pdtype"] = draw(st.sampled_from(["f8", "f8", "f4", "i8"])) if c["exact"] and c["pts"]["kind"] in ("cell", "half", "dyadic") else "f8"
        c["mass"] = draw(st.sampled_from(["f8", "scalar", "none", "f4", "i4", "zero-d", "list"]))
        c["hsml"] = draw(st.sampled_from([None, None, None, "scalar", "each"]))
        c["units"] = draw(st.sampled_from([None, None, None, "grid", "half", "shift"]))
        c["hold"] = draw(st.booleans())
        c["out"] = draw(st.booleans())
        c["gradient"] = draw(st.integers(0, nd - 1)) if draw(st.integers(0, 2)) == 0 else None
        c["lseed"] = draw(seeds())
        return c
    return make()


def spread(c, n, comm):
    """Indices of the particles each rank starts with."""
    import numpy as np
    rng = np.random.RandomState(c["lseed"])
    if c["spread"] == "one":
        owner = np.full(n, rng.randint(comm.size))
    elif c["spread"] == "sorted":
        owner = np.sort(rng.randint(0, comm.size, size=n))
    else:
        owner = rng.randint(0, comm.size, size=n)
    return [np.flatnonzero(owner == r) for r in range(comm.size)]


def particles(c):
    import numpy as np
    u = make_points(c["pts"], c["N"])
    s = {"grid": 1.0, "half": 2 * np.array(c["L"]) / np.array(c["N"])}.get(c["units"], np.array(c["L"]) / np.array(c["N"]))
    return (u * s).astype(c["pdtype"])


def masses(c, n):
    import numpy as np
    rng = np.random.RandomState(c["lseed"] + 1)
    m = rng.uniform(-1, 3, size=n)
    k = c["mass"]
    if k == "f4":
        m = m.astype("f4")
    elif k == "i4":
        m = rng.randint(-3, 5, size=n).astype("i4")
    if k == "scalar":
        return 1.75, np.full(n, 1.75)
    if k == "zero-d":
        return np.array(-0.5), np.full(n, -0.5)
    if k == "none":
        return None, np.ones(n)
    return m, m.astype("f8")


def check(c, comm):
    import numpy as np
    w = resampler(c["win"], -1 if c["resize"] is None else c["resize"])
    name = c["win"] if c["resize"] is None and c["how"] == "name" else w
    kw = {"resampler": w} if c["how"] == "default" else {}
    pm, one = make_pm(c, comm, **kw), self_pm(c, **kw)
    use = {} if c["how"] == "default" else {"resampler": name}
    pos = particles(c)
    n = len(pos)
    mine = spread(c, n, comm)[comm.rank]
    mass, fullmass = masses(c, n)
    rng = np.random.RandomState(c["lseed"] + 2)
    reach = w.support * 0.5
    h, h_mine = None, None
    if c["hsml"] == "scalar":
        h = h_mine = 1.5
        reach *= 1.5
    elif c["hsml"] == "each":
        h = rng.uniform(0.5, 2.0, size=n)
        h_mine = h[mine]
        reach *= 2.0
    sm = c["smooth"]
    if h is not None or sm == "number":
        smoothing = reach
    elif sm == "vector":
        smoothing = np.full(pm.ndim, reach)
    elif sm == "default" and c["how"] == "default":
        smoothing = None
    else:
        smoothing = name
    if c["mass"] == "list" and c["hsml"] == "each":
        h, h_mine = h.tolist(), h_mine.tolist()
    before = pos.copy()
    tr = {None: lambda p: None, "grid": lambda p: p.affine_grid, "half": lambda p: p.affine.rescale(0.5), "shift": lambda p: p.affine.shift(0.5)}[c["units"]]
    if c["units"] == "shift":
        # decompose leaves the translation to the width
        lay = pm.decompose(pos[mine], smoothing=reach + 0.5)
    elif c["units"] is None:
        lay = pm.decompose(pos[mine], smoothing=smoothing)
    else:
        lay = pm.decompose(pos[mine], smoothing=smoothing, transform=tr(pm))
    extra = dict(use)
    if c["gradient"] is not None:
        extra["gradient"] = c["gradient"]

    def mk(m, mine=None):
        d = {} if mass is None else {"mass": mass if np.ndim(mass) == 0 or mine is None else mass[mine]}
        if c["mass"] == "list":
            d["mass"] = d["mass"].tolist()
        return d

    def ex(p):
        return dict(extra, transform=tr(p)) if c["units"] is not None else extra
    start = values(c["N"], c["dtype"], c["lseed"] + 3)
    t = 2e-5 if c["dtype"] in ("f4", "c8") else 1e-11
    scale = 1.0 if c["gradient"] is None else float(np.max({"grid": 1.0}.get(c["units"], np.array(c["N"]) / np.array(c["L"]))))
    wmax = max(1.0, float(3.0 * (2.0 if h is not None else 1.0))) * scale

    def run(p, sel, layout, hh):
        o = None
        if c["out"] or c["hold"]:
            o = put(p.create(type="real"), start)
        if c["out"] and c["hsml"] is None and c["lseed"] % 4 == 0:
            # the older name
            o.paint(pos[sel], hold=c["hold"], layout=layout, **mk(mass, sel), **ex(p))
            return o
        a = p.paint(pos[sel], hsml=hh, hold=c["hold"], layout=layout, out=o, **mk(mass, sel), **ex(p))
        if o is not None:
            require(a is o, "paint does not return the field it was given")
        return a
    allof = np.arange(n)
    got = gather(run(pm, mine, lay, h_mine), comm, "painted field")
    ref = gather(run(one, allof, None, h), one.comm)
    size = (np.abs(fullmass).sum() + 1) * wmax * (1 if c["hsml"] != "each" else 4) + (np.abs(start).max(initial=0) if c["hold"] else 0)
    close(got, ref, t, size, "painted mesh on %d ranks and on one", comm.size)
    # mass
    base = TUNED.get(c["win"], c["win"])
    if base in ("nearest", "linear", "quadratic", "cubic") and h is None and c["resize"] is None:
        total = fullmass.sum() if c["gradient"] is None else 0.0
        close(got.real.astype("f8").sum(), total + (start.real.astype("f8").sum() if c["hold"] else 0), t * 10, size * got.size ** 0.5, "total mass")
    # reading out
    f, f1 = put(pm.create(type="real"), start), put(one.create(type="real"), start)
    o = np.full(len(mine), -3.0) if c["out"] else None
    r = f.readout(pos[mine], hsml=h_mine, layout=lay, out=o, **ex(pm))
    if o is not None:
        equal(np.asarray(o), np.asarray(r), "the given output")
    r1 = f1.readout(pos, hsml=h, **ex(one))
    close(np.asarray(r), np.asarray(r1)[mine], t, np.abs(start).max() * wmax * 4, "values read on %d ranks and on one", comm.size)
    equal(f.value, start[f.slices], "the field that was read")
    equal(pos, before, "positions")
    return {"nontrivial": bool(comm.size > 1 and n > 0), "labels": labels(c) + ["window:" + c["win"], "pts:" + c["pts"]["kind"],
                                                                               "gradient" if c["gradient"] is not None else "plain",
                                                                               "units:%s" % c["units"]]}


FAMILIES = [{"name": "paint", "what": "paint and readout against one rank", "strategy": strategy, "max_examples": {"quick": 1500, "thorough": 60000}}]
