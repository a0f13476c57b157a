"""W02: each window weighs mesh points by its documented kernel."""
from common import *

RULE = ("A case is a window, a mesh (1-4 dimensions, shape, period, precision, strides), an affine "
        "map, a smoothing scale or resized support and particle positions. Non-trivial: at least one "
        "particle contributes to a mesh point through a weight strictly between 0 and the maximum, or "
        "through two or more dimensions.")
ASSUMPTIONS = [
    "Oracle: closed forms of the documented kernels in NumPy; for the wavelet windows the cascade algorithm "
    "on filters from a spectral factorisation, cut off where the code's generator script cuts it.",
    "Positions within 1e-6 cells of a jump of a discontinuous kernel are left out.",
]
BUDGET = {"quick": 30, "thorough": 420}


def mesh_case(windows, maxdim=4, hs=True, diff=False, mirror=False):
    st = S()

    @st.composite
    def make(draw):
        win = draw(st.sampled_from(windows))
        big = win in TABLE + WAVELET
        nd = draw(st.integers(1, 2 if big else maxdim))
        shape = [draw(st.integers(1, 9 if nd < 3 else 6)) for _ in range(nd)]
        per = [draw(st.sampled_from(["full", "none", "larger"])) for _ in range(nd)]
        stretch = draw(st.sampled_from(["native", "hsml", "hsml", "resize", "hsmls"])) if hs else "native"
        if stretch == "native" and draw(st.integers(0, 2)) == 0:
            hv = [1.0]
            stretch = "hsml"
        elif stretch == "resize":
            hv = [draw(st.integers(1, 6 if nd < 4 else 4))]
        else:
            hv = [draw(st.one_of(dyadic(0.25, 2.5, 16), st.sampled_from([0.5, 0.9, 1.0, 1.1, 0.75, 1.5, 2.0]),
                                 st.floats(0.3, 2.5).map(lambda x: round(x, 6))))
                  for _ in range(3)]
        return {
            "nranks": 1, "win": win, "shape": shape, "per": per,
            "dtype": draw(st.sampled_from(["f8", "f4"])),
            "pdtype": draw(st.sampled_from(["f8", "f8", "f4"])),
            "layout": draw(st.sampled_from(["C", "F", "roll", "step", "mix", "neg"])),
            "scale": [draw(st.sampled_from([1.0, 1.0, 0.5, 2.0, 1.7, 0.3] + ([-1.0, -0.7] if mirror else []))) for _ in range(nd)],
            "shift": [draw(st.one_of(st.just(0.0), st.integers(-12, 12).map(float), dyadic(-3, 3, 8))) for _ in range(nd)],
            "stretch": stretch, "h": hv,
            "pts": draw(points(maxn=3, kinds=("uniform", "cell", "half", "far", "edge", "near"), bulk=12)),
            "diff": draw(st.integers(0, nd - 1)) if diff and draw(st.booleans()) else None,
        }
    return make()


def setup(case):
    """-> window, transform, kwargs, pos, mesh coordinates, stretch per particle."""
    import numpy as np
    from pmesh.window import Affine
    shape = case["shape"]
    nd = len(shape)
    period = [{"full": s, "none": 0, "larger": 2 * s + 1}[p] for s, p in zip(shape, case["per"])]
    size = [p if p else s for p, s in zip(period, shape)]
    g = make_points(case["pts"], size)
    scale = np.array(case["scale"])
    shift = np.array(case["shift"])
    pos = ((g - shift) / scale).astype(case["pdtype"])
    g = pos.astype("f8") * scale + shift          # what the code will see
    tr = Affine(nd, scale=scale, translate=shift, period=np.array(period))
    kw = {}
    n = len(pos)
    win = case["win"]
    if case["stretch"] == "native":
        w = resampler(win)
        st = np.ones(n)
    elif case["stretch"] == "hsml":
        w = resampler(win)
        kw["hsml"] = case["h"][0]
        st = np.ones(n) * case["h"][0]
    elif case["stretch"] == "hsmls":
        w = resampler(win)
        h = np.resize(np.array(case["h"]), n)
        kw["hsml"] = h
        st = h
    else:
        w = resampler(win, case["h"][0])
        st = np.ones(n) * (case["h"][0] / float(native(win)))
    if case["diff"] is not None:
        kw["diffdir"] = case["diff"]
    return w, tr, kw, pos, g, st, period


def reference(case, g, st, period):
    """(n, *shape) weights."""
    import numpy as np
    shape = case["shape"]
    nd = len(shape)
    out = np.zeros([len(g)] + list(shape))
    for i in range(len(g)):
        acc = np.ones(())
        for d in range(nd):
            df = case["diff"] == d
            w = weights1d(case["win"], g[i, d], shape[d], period[d], st[i], case["scale"][d], df)
            acc = acc[..., None] * w
        out[i] = acc
    return out


def keep(case, g, st):
    import numpy as np
    ok = np.ones(len(g), bool)
    for d in range(g.shape[1]):
        ok &= smooth_frac(g[:, d], case["win"], st, diff=case["diff"] == d)
    return ok


def wtol(case):
    """Accuracy of the weights relative to their maximum."""
    win = case["win"]
    if win in TABLE:
        return 2e-3 if case["diff"] is not None else 2e-6
    if win in WAVELET:
        return 2e-6
    return 1e-11


def kmax(case, st):
    import numpy as np
    nd = len(case["shape"])
    vf = 1.0 / np.asarray(st)
    s = (2.0 * np.maximum(vf, 1e-3)) ** nd
    if case["diff"] is not None:
        s = s * np.maximum(vf, 1) * abs(case["scale"][case["diff"]]) * 4
    # images pile up on meshes smaller than the kernel
    return s * 4


def check_weights(case, comm):
    import numpy as np
    w, tr, kw, pos, g, st, period = setup(case)
    ok = keep(case, g, st)
    pos, g, st = pos[ok], g[ok], st[ok]
    if "hsml" in kw and not np.isscalar(kw["hsml"]):
        kw["hsml"] = kw["hsml"][ok]
    n = len(pos)
    ref = reference(case, g, st, period)
    shape = case["shape"]
    rng = np.random.RandomState(case["pts"]["seed"] + 1)
    mass = rng.uniform(-1, 2, size=n)
    scale = max(float(np.max(kmax(case, st))) if n else 1.0, 1.0)
    t = max(wtol(case), 1e-6 if case["dtype"] == "f4" else 0) * scale
    # all at once
    real, block, mask = strided(shape, case["dtype"], case["layout"], 0, guard=7)
    w.paint(real, pos, mass=mass, transform=tr, **kw)
    want = np.tensordot(mass, ref, axes=(0, 0)) if n else np.zeros(shape)
    close(real, want, t, max(np.abs(mass).sum(), 1.0), "paint %s", case["win"])
    require((block[~mask] == 7).all(), "paint %s wrote outside the mesh", case["win"])
    # read-out of a random field
    f, _, _ = strided(shape, case["dtype"], case["layout"], 0)
    f[...] = rng.uniform(-1, 1, size=shape)
    got = w.readout(f, pos, transform=tr, **kw)
    want = (ref * f.astype("f8")).sum(axis=tuple(range(1, len(shape) + 1)))
    close(got, want, wtol(case), scale * np.prod(shape), "readout %s", case["win"])
    nz = (np.abs(ref) > 0).sum(axis=tuple(range(1, len(shape) + 1)))
    return {"nontrivial": bool(n and (nz.max() > 1 or len(shape) > 1 and nz.max() > 0)),
            "labels": ["win:" + case["win"], "dim:%d" % len(shape), "stretch:" + case["stretch"], case["dtype"]]}


def tuned_strategy(tier):
    return mesh_case(list(TUNED), 4, mirror=True)


def check_tuned(case, comm):
    """The optimised window equals the plain one, smoothing included."""
    import numpy as np
    w, tr, kw, pos, g, st, period = setup(case)
    ok = keep(case, g, st)
    pos, g, st = pos[ok], g[ok], st[ok]
    if "hsml" in kw and not np.isscalar(kw["hsml"]):
        kw["hsml"] = kw["hsml"][ok]
    p = resampler(TUNED[case["win"]])
    if case["stretch"] == "resize":
        p = p.resize(case["h"][0])
    require(p.support == w.support and p.nativesupport == w.nativesupport,
            "support of %s is %s, of its plain form %s", case["win"], w.support, p.support)
    n = len(pos)
    mass = np.random.RandomState(case["pts"]["seed"] + 1).uniform(0.5, 2, size=n)
    a, _, _ = strided(case["shape"], case["dtype"], case["layout"], 0)
    b = np.zeros(case["shape"], case["dtype"])
    w.paint(a, pos, mass=mass, transform=tr, **kw)
    p.paint(b, pos, mass=mass, transform=tr, **kw)
    scale = max(float(np.max(kmax(case, st))) if n else 1.0, 1.0)
    close(a, b, (1e-6 if case["dtype"] == "f4" else 1e-11) * scale, max(np.abs(mass).sum(), 1.0),
          "paint %s against %s", case["win"], TUNED[case["win"]])
    f = np.random.RandomState(case["pts"]["seed"] + 2).uniform(-1, 1, size=case["shape"]).astype(case["dtype"])
    close(w.readout(f, pos, transform=tr, **kw), p.readout(f, pos, transform=tr, **kw), 1e-11,
          scale * f.size, "readout %s against %s", case["win"], TUNED[case["win"]])
    return {"nontrivial": n > 0, "labels": ["win:" + case["win"], "dim:%d" % len(case["shape"])]}


def wavelet_strategy(tier):
    st = S()
    return st.fixed_dictionaries({"nranks": st.just(1), "win": st.sampled_from(WAVELET),
                                  "x": dyadic(-1, 1, 256)})


def check_wavelet(case, comm):
    """Scaling functions: unit sum over integer shifts; orthogonal to them."""
    import numpy as np
    def k(x):
        return painted_kernel(case["win"], np.asarray(x, "f8"))
    ns = native(case["win"])
    sh = np.arange(-16, 17)
    s = k(case["x"] + sh).sum()
    close(s, 1.0, 0.03, 1.0, "sum over mesh points of %s", case["win"])
    y = np.arange(-10, 10, 1.0 / 128)
    a = k(y)
    close(a.sum() / 128.0, 1.0, 0.03, 1.0, "integral of %s", case["win"])
    for m in range(0, 5):
        close((a * k(y + m)).sum() / 128, 1.0 if m == 0 else 0.0, 0.03, 1.0,
              "overlap of %s with itself shifted by %d", case["win"], m)
    far = np.abs(y) > ns / 2.0 + 1e-9
    require((a[far] == 0).all(), "%s reaches beyond its support %s", case["win"], ns)
    return {"nontrivial": True, "labels": ["win:" + case["win"]]}


def scan_strategy(tier):
    st = S()
    return st.fixed_dictionaries({"nranks": st.just(1), "win": st.sampled_from(ALLWIN), "diff": st.booleans(), "offset": st.integers(0, 999),
                                  "side": st.sampled_from([-1, 1, 0])})


def check_scan(case, comm):
    """The whole kernel at once, finer than any table."""
    import numpy as np
    win, diff = case["win"], case["diff"]
    half = native(win) * 0.5
    lo, hi = (-half - 1, half + 1) if case["side"] == 0 else (0.0, half + 1) if case["side"] > 0 else (-half - 1, 0.0)
    n = 40000
    x = lo + (hi - lo) * (np.arange(n) + case["offset"] / 1000.0) / n
    ok = np.ones(n, bool)
    ok &= smooth_frac(x, win, 1.0, diff=diff)
    x = x[ok]
    got = painted_kernel(win, x, diff=diff)
    want = kern(win, x, diff)
    allow = np.full(len(x), wtol(dict(case, diff=None)))
    if win in TABLE and diff:
        # the derivative is that of a line between two entries of a table
        h = 1.5e-3
        allow = np.maximum(np.abs(kern(win, x + h, True) - want), np.abs(kern(win, x - h, True) - want)) * 1.5 + 1e-4
        # the jump of the kernel at its end, and its kink, are no derivative
        edge = (np.abs(np.abs(x) - half) < 2e-3) | (np.abs(x) < 2e-3)
        allow[edge] = np.inf
    elif win in WAVELET and diff:
        allow[:] = 5e-4
    err = np.abs(got - want)
    i = int(np.argmax(err - allow))
    require(err[i] <= allow[i], "%s of %s at %r: got %r, expected %r (allowed %.2g)", "derivative" if diff else "kernel", win, float(x[i]), float(got[i]), float(want[i]), float(allow[i]))
    return {"nontrivial": True, "labels": ["win:" + win, "diff:%s" % diff]}


def check(case, comm):
    return {"scan": check_scan, "weights": check_weights, "weights-table": check_weights, "tuned": check_tuned,
            "wavelet": check_wavelet}[case["family"]](case, comm)


FAMILIES = [
    {"name": "weights", "what": "B-spline windows against closed-form kernels",
     "strategy": lambda tier: mesh_case(BSPLINE, 4, mirror=True), "weight": 4,
     "max_examples": {"quick": 1500, "thorough": 60000}},
    {"name": "tuned", "what": "optimised against plain windows", "strategy": tuned_strategy, "weight": 3,
     "max_examples": {"quick": 1500, "thorough": 60000}},
    {"name": "weights-table", "what": "tabulated windows",
     "strategy": lambda tier: mesh_case(TABLE + WAVELET, 2, mirror=True), "weight": 4,
     "max_examples": {"quick": 1000, "thorough": 40000}},
    {"name": "scan", "what": "the whole of each kernel and derivative", "strategy": scan_strategy, "weight": 2,
     "examples": lambda tier: [{"nranks": 1, "win": w, "diff": d, "offset": 500, "side": 0} for w in ALLWIN for d in (False, True)],
     "max_examples": {"quick": 150, "thorough": 3000}},
    {"name": "wavelet", "what": "identities of the scaling functions", "strategy": wavelet_strategy, "weight": 1,
     "max_examples": {"quick": 200, "thorough": 5000}},
]
