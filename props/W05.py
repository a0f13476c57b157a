"""W05: differentiated windows."""
from common import *
import W02

RULE = ("A case is a window, a direction, a mesh, an affine map with its own scale per direction, smoothing and "
        "positions. Non-trivial: at least one particle with a non-zero derivative.")
ASSUMPTIONS = ["Against closed forms: positions within 1e-6 cells (1e-4 table steps for wavelets) of a kink are "
               "left out. Against integrals: the mean of the derivative over an interval equals the difference of "
               "plain values, to the accuracy of a 400-point midpoint rule."]
BUDGET = {"quick": 25, "thorough": 400}


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = draw(W02.mesh_case(ALLWIN if draw(st.booleans()) else BSPLINE, 4, diff=True, mirror=True))
        c["diff"] = draw(st.integers(0, len(c["shape"]) - 1))
        c["pts"]["n"] = max(1, c["pts"]["n"])
        if c["pts"]["kind"] in ("cell", "half", "edge") and draw(st.integers(0, 3)):
            c["pts"]["kind"] = "uniform"
        return c
    return make()


def check_closed(case, comm):
    r = W02.check_weights(case, comm)
    r["labels"] = r["labels"] + ["diff:%d" % case["diff"]]
    return r


def tuned_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = draw(W02.mesh_case(list(TUNED), 4, diff=True, mirror=True))
        c["diff"] = draw(st.integers(0, len(c["shape"]) - 1))
        return c
    return make()


def integral_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        win = draw(st.sampled_from(ALLWIN))
        nd = draw(st.integers(1, 2 if win in TABLE + WAVELET else 3))
        return {"nranks": 1, "win": win, "shape": [draw(st.integers(1, 9 if nd < 3 else 5)) for _ in range(nd)],
                "per": [draw(st.sampled_from(["full", "none"])) for _ in range(nd)],
                "dtype": "f8", "pdtype": "f8", "layout": "C",
                "scale": [draw(st.sampled_from([1.0, 0.5, 1.7, 4.0])) for _ in range(nd)],
                "shift": [draw(dyadic(-3, 3, 8)) for _ in range(nd)],
                "stretch": draw(st.sampled_from(["native", "hsml", "resize"])),
                "h": [draw(st.sampled_from([2, 3, 1, 4]))],
                "diff": draw(st.integers(0, nd - 1)), "len": draw(dyadic(0.125, 3, 16)),
                "pts": {"seed": draw(seeds()), "n": draw(st.integers(1, 2)),
                        "kind": draw(st.sampled_from(["uniform", "half", "cell", "far"]))}}
    return make()


def check_integral(case, comm):
    """Mean of the derivative along an interval against the plain difference."""
    import numpy as np
    c = dict(case)
    if c["stretch"] == "hsml":
        c["h"] = [c["h"][0] * 0.75]
    w, tr, kw, pos, g, st, period = W02.setup(c)
    if case["win"] in ("nearest", "nnb"):
        # stepwise constant: the derivative is zero away from the steps
        v = w.readout(np.random.RandomState(case["pts"]["seed"]).uniform(size=c["shape"]), pos, transform=tr, **kw)
        equal(v, np.zeros(len(pos)), "derivative of the nearest window")
        return {"nontrivial": False, "labels": ["win:" + case["win"]]}
    d = case["diff"]
    plain = dict(kw)
    plain.pop("diffdir")
    rng = np.random.RandomState(case["pts"]["seed"] + 9)
    f = rng.uniform(-1, 1, size=c["shape"])
    L = case["len"] / c["scale"][d]
    M = 400
    ends = np.repeat(pos, 2, axis=0)
    ends[1::2, d] += L
    v = w.readout(f, ends, transform=tr, **plain)
    diff = v[1::2] - v[::2]
    mid = np.repeat(pos, M, axis=0)
    mid[:, d] += np.tile((np.arange(M) + 0.5) / M * L, len(pos))
    dv = w.readout(f, mid, transform=tr, **kw).reshape(len(pos), M)
    # midpoint rule: error below the step times the variation of the derivative
    # (both ends are sampled too: a step may hide between them and the first or last midpoint,
    # and two opposite ones between a pair of midpoints)
    de = w.readout(f, ends, transform=tr, **kw).reshape(len(pos), 2)
    al = np.concatenate([de[:, :1], dv, de[:, 1:]], axis=1)
    var = np.abs(np.diff(al, axis=1)).sum(axis=1) + 3 * np.abs(al).max(axis=1)
    n = native(case["win"])
    st1 = st if len(st) else np.ones(1)
    edge = 0.02 / st1 ** len(c["shape"]) * f.size * 4 if case["win"] in WAVELET + TABLE else 0.0
    err = np.abs(dv.mean(axis=1) * L - diff)
    allow = var * abs(L) / M + 1e-9 + edge * 0.5
    bad = err > allow
    if bad.any():
        i = int(np.argmax(err - allow))
        violation("%s: the derivative's integral over %g is %r, the plain difference %r (allowed %.3g)",
                  case["win"], L, float(dv[i].mean() * L), float(diff[i]), float(allow[i]))
    # painted meshes: transposed statement for one particle
    a = np.zeros(c["shape"])
    b = np.zeros(c["shape"])
    acc = np.zeros(c["shape"])
    one = dict(kw)
    onep = dict(plain)
    w.paint(a, ends[:1], transform=tr, **onep)
    w.paint(b, ends[1:2], transform=tr, **onep)
    w.paint(acc, mid[:M], transform=tr, **one)
    vall = var.max() / max(np.abs(f).min(), 0.05)
    lhs, rhs = float((acc * f).sum() * L / M), float(((b - a) * f).sum())
    require(abs(lhs - rhs) <= allow[0] + 1e-9, "%s: integral of the painted derivative %r, difference %r",
            case["win"], lhs, rhs)
    return {"nontrivial": bool(np.abs(diff).max() > 1e-6),
            "labels": ["win:" + case["win"], "dim:%d" % len(c["shape"]), c["stretch"]]}


def check(case, comm):
    return {"closed-form": check_closed, "tuned": W02.check_tuned, "scan": W02.check_scan, "integral": check_integral}[case["family"]](case, comm)


FAMILIES = [
    {"name": "closed-form", "what": "derivative weights against closed forms", "strategy": strategy, "weight": 3,
     "max_examples": {"quick": 1200, "thorough": 60000}},
    {"name": "tuned", "what": "optimised against plain derivatives", "strategy": tuned_strategy, "weight": 2,
     "max_examples": {"quick": 1000, "thorough": 60000}},
    {"name": "integral", "what": "integral of the derivative against plain differences", "strategy": integral_strategy,
     "weight": 2, "max_examples": {"quick": 700, "thorough": 40000}},
    {"name": "scan", "what": "the whole derivative of each window",
     "strategy": lambda tier: W02.scan_strategy(tier).map(lambda c: dict(c, diff=True)), "weight": 1,
     "examples": lambda tier: [{"nranks": 1, "win": w, "diff": True, "offset": 250, "side": 0} for w in ALLWIN],
     "max_examples": {"quick": 60, "thorough": 2000}},
]
