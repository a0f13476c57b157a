"""W03: mass conservation, constants, ramps."""
from common import *
import W02

RULE = ("A case is a window, a fully periodic mesh (1-4 dimensions, down to one cell per side), positions "
        "and an integer stretch. Non-trivial: at least one particle on a mesh of at least two cells.")
ASSUMPTIONS = ["B-splines: to rounding. Stretches that are whole numbers keep the partition of unity exactly; "
               "others only on average, so they are left out.",
               "Lanczos, confined Gaussian and wavelet windows: to the accuracy of their truncation per "
               "dimension, computed once from their closed forms and padded (see SLACK)."]
BUDGET = {"quick": 20, "thorough": 300}

# largest |sum of weights - 1| over a cell, in one dimension (padded)
SLACK = {"lanczos2": 0.0102, "lanczos3": 0.0031, "lanczos4": 0.0014, "lanczos5": 0.0007, "lanczos6": 0.0004,
         "acg2": 0.23, "acg3": 0.095, "acg4": 0.052, "acg5": 0.03, "acg6": 0.0162}
SLACK.update({w: 0.0045 for w in WAVELET})


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        win = draw(st.sampled_from(ALLWIN))
        big = win in TABLE + WAVELET
        nd = draw(st.integers(1, 2 if big else 4))
        return {"nranks": 1, "win": win, "shape": [draw(st.integers(1, 9 if nd < 3 else 6)) for _ in range(nd)],
                "dtype": draw(st.sampled_from(["f8", "f4"])), "pdtype": draw(st.sampled_from(["f8", "f4"])),
                "layout": draw(st.sampled_from(["C", "F", "roll", "step", "neg"])),
                "scale": [draw(st.sampled_from([1.0, 0.5, 1.7])) for _ in range(nd)],
                "shift": [draw(st.one_of(st.just(0.0), dyadic(-9, 9, 8))) for _ in range(nd)],
                "h": draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)),
                "stretch": draw(st.sampled_from(["native", "hsml", "hsmls", "resize"])),
                "pts": draw(points(maxn=3, kinds=("uniform", "cell", "half", "far", "edge"), bulk=20)),
                "diff": draw(st.one_of(st.none(), st.integers(0, nd - 1)))}
    return make()


def check_mass(case, comm):
    import numpy as np
    win = case["win"]
    nd = len(case["shape"])
    c = dict(case, per=["full"] * nd)
    if win in TABLE + WAVELET:
        c.update(stretch="native")
    if c["stretch"] == "resize":
        c["h"] = [native(win) * case["h"][0]]
    w, tr, kw, pos, g, st, period = W02.setup(c)
    n = len(pos)
    mass = np.random.RandomState(case["pts"]["seed"] + 1).uniform(0.5, 2, size=n)
    real, block, mask = strided(case["shape"], case["dtype"], case["layout"], 0)
    w.paint(real, pos, mass=mass, transform=tr, **kw)
    tot = float(real.astype("f8").sum())
    sc = 1.0 if case["diff"] is None else 4.0 * abs(case["scale"][case["diff"]])
    slack = SLACK.get(win, 0.0)
    if win in BSPLINE:
        t = 1e-11
    else:
        t = (1 + slack) ** nd - 1
        if case["diff"] is not None:
            t = 1e9                 # only B-splines have this
    want = mass.sum() if case["diff"] is None else 0.0
    close(tot, want, (t + (1e-5 if case["dtype"] == "f4" else 0)) * sc, max(mass.sum(), 1.0),
          "total on the mesh (%s)", win)
    # constant field, in double precision
    f = np.full(case["shape"], 3.0)
    v = w.readout(f, pos, transform=tr, **kw)
    close(v, np.full(n, 3.0 if case["diff"] is None else 0.0), t * sc, 3.0, "read-out of a constant (%s)", win)
    if (real.astype("f8") < -1e-9).any() and case["diff"] is None and win in BSPLINE:
        violation("%s painted a negative weight", win)
    return {"nontrivial": bool(n and np.prod(case["shape"]) > 1),
            "labels": ["win:" + win, "dim:%d" % nd, "diff" if case["diff"] is not None else "plain", c["stretch"]]}


def ramp_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        nd = draw(st.integers(1, 4))
        return {"nranks": 1, "win": draw(st.sampled_from([w for w in BSPLINE if w not in ("nnb", "nearest")])),
                "slope": [draw(st.integers(-5, 5)) for _ in range(nd)],
                "scale": [draw(st.sampled_from([1.0, 0.5, 1.7, 3.0])) for _ in range(nd)],
                "shift": [draw(dyadic(-9, 9, 8)) for _ in range(nd)],
                "h": draw(st.integers(1, 2)), "dtype": draw(st.sampled_from(["f4", "f8"])),
                "diff": draw(st.one_of(st.none(), st.integers(0, nd - 1))),
                "pts": draw(points(maxn=3, kinds=("uniform", "cell", "half"), bulk=20))}
    return make()


def check_ramp(case, comm):
    """A ramp is read back exactly away from the edges of a non-periodic mesh;
    its derivative is its slope."""
    import numpy as np
    from pmesh.window import Affine
    nd = len(case["scale"])
    N = 14 if nd < 4 else 11
    lo = 5
    g = make_points(case["pts"], [N - 2 * lo] * nd) + lo
    scale, shift = np.array(case["scale"]), np.array(case["shift"])
    pos = (g - shift) / scale
    g = pos * scale + shift
    slope = np.array(case["slope"], "f8")
    f = np.zeros([N] * nd, case["dtype"])
    for d in range(nd):
        f += (slope[d] * np.arange(N)).reshape([-1 if k == d else 1 for k in range(nd)]).astype(case["dtype"])
    w = resampler(case["win"])
    v = w.readout(f, pos, hsml=float(case["h"]), diffdir=case["diff"], transform=Affine(nd, scale=scale, translate=shift))
    base = TUNED.get(case["win"], case["win"])
    if case["diff"] is None:
        want = g.dot(slope)
    else:
        want = np.full(len(g), slope[case["diff"]] * scale[case["diff"]])
        if base == "linear":
            # at a mesh point the derivative jumps between neighbours' zero or slope
            fr = g[:, case["diff"]] % 1
            ok = np.minimum(fr, 1 - fr) > 1e-6
            v, want = v[ok], want[ok]
    close(v, want, 1e-10, 1 + np.abs(slope).sum() * N * 4, "read-out of a ramp (%s)", case["win"])
    return {"nontrivial": bool(len(v) and np.any(slope)), "labels": ["ramp:" + case["win"], "dim:%d" % nd]}


def check(case, comm):
    return check_mass(case, comm) if case["family"] == "mass" else check_ramp(case, comm)


FAMILIES = [
    {"name": "mass", "what": "total mass and constants", "strategy": strategy, "weight": 3,
     "max_examples": {"quick": 2000, "thorough": 100000}},
    {"name": "ramp", "what": "linear fields", "strategy": ramp_strategy, "weight": 1,
     "max_examples": {"quick": 600, "thorough": 30000}},
]
