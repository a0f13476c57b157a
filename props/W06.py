"""W06: Fourier windows and compensation."""
from common import *

RULE = ("A case is a window, a support, and frequencies (with argument shape and type). Non-trivial: a window with "
        "an analytic form and a non-zero frequency.")
ASSUMPTIONS = ["Oracle: Gauss-Legendre quadrature, piece by piece, of the kernel read from a mesh at generated "
               "offsets: exact for the polynomial pieces up to |w| times the support of about 60."]
BUDGET = {"quick": 15, "thorough": 200}


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        win = draw(st.sampled_from(BSPLINE + BSPLINE + TABLE + WAVELET))
        k = draw(st.integers(0, 3))
        return {"nranks": 1, "win": win, "support": draw(st.one_of(st.none(), st.integers(1, 8))),
                "w": draw(st.lists(st.one_of(st.floats(-12, 12).map(lambda x: round(x, 5)),
                                             st.sampled_from([0.0, 1e-9, 1e-6, 9.99e-6, 1.01e-5, 2e-5, 1e-3, 3.14159265358979, -3.14159265358979, 6.283185307179586])),
                                   min_size=1, max_size=12)),
                "shape": k, "dtype": draw(st.sampled_from(["f8", "f8", "f4", "list", "i8"])),
                "nd": draw(st.integers(1, 4)), "seed": draw(seeds())}
    return make()


_gl = {}


def transform(win, support, w):
    """Fourier transform at frequencies w of the kernel as painted."""
    import numpy as np
    if 40 not in _gl:
        _gl[40] = np.polynomial.legendre.leggauss(40)
    x, wt = _gl[40]
    n = native(win)
    st = 1.0 if support is None else support / float(n)
    brk = (np.arange(-n, n + 1) * 0.5) * st
    out = np.zeros(len(w))
    norm = 0
    for a, b in zip(brk[:-1], brk[1:]):
        xx = (a + b) * 0.5 + (b - a) * 0.5 * x
        k = painted_kernel(win, xx, resize=support)
        out += (np.cos(np.outer(w, xx)) * (k * wt)).sum(axis=1) * (b - a) * 0.5
    return out


def check(case, comm):
    import numpy as np
    win = case["win"]
    w = np.array(case["w"])
    arg = w
    if case["dtype"] == "f4":
        arg = w.astype("f4")
        w = arg.astype("f8")
    elif case["dtype"] == "i8":
        arg = np.round(w).astype("i8")
        w = arg.astype("f8")
    r = resampler(win, case["support"] or -1)
    k = case["shape"]
    a2 = arg
    if k == 1:
        a2 = arg.reshape(1, -1, 1)
    elif k == 2 and len(arg) % 2 == 0:
        a2 = arg.reshape(2, -1).T
    elif k == 3:
        a2 = arg[0]
        w = w[:1]
    if case["dtype"] == "list":
        a2 = a2.tolist()
    got = r.get_fwindow(a2)
    equal(np.shape(got), np.shape(a2), "shape of the Fourier window")
    flat = (got.T if k == 2 and np.ndim(got) == 2 else got).reshape(-1)
    if win in BSPLINE:
        close(flat, transform(win, case["support"], w), 1e-9, 1.0, "Fourier window of %s", win)
    else:
        equal(flat, np.ones(len(w)), "Fourier window of %s", win)
    equal(r.get_fwindow(np.zeros(1)), np.ones(1), "Fourier window at zero frequency")
    equal(r.get_fwindow(-np.asarray(a2)), got, "Fourier window at the opposite frequency")
    # compensation
    nd = case["nd"]
    rng = np.random.RandomState(case["seed"])
    freq = []
    for d in range(nd):
        m = rng.randint(1, 4)
        freq.append(rng.uniform(-2.9, 2.9, size=m).reshape([m if j == d else 1 for j in range(nd)]))
    shape = np.broadcast(*freq).shape if nd > 1 else freq[0].shape
    v = rng.uniform(-1, 1, size=shape) + 1j * rng.uniform(-1, 1, size=shape)
    keep = v.copy()
    c = r.get_compensation()(freq, v)
    t = 1.0
    for f in freq:
        t = t * (transform(win, case["support"], f.reshape(-1)).reshape(f.shape) if win in BSPLINE else 1.0)
    close(c * t, v, 1e-8, 1 + np.abs(c), "compensation times the window (%s)", win)
    equal(v, keep, "compensation changed its argument")
    return {"nontrivial": bool(win in BSPLINE and np.any(w != 0)), "labels": ["win:" + win, "support:%s" % case["support"]]}


FAMILIES = [{"name": "fourier", "what": "Fourier windows, their symmetry, shape and compensation", "strategy": strategy,
             "max_examples": {"quick": 1500, "thorough": 40000}}]
