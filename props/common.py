"""Shared by the property modules.  The strategies run in the driver, the
helpers below the line in the workers (numpy 1.24, the code under test)."""
import math

# ----------------------------------------------------------------- strategies


def S():
    import hypothesis.strategies as st
    return st


def seeds():
    return S().integers(0, 2 ** 31 - 1)


def dyadic(lo, hi, denom=64):
    """Floats k/denom: exact, and small under shrinking."""
    return S().integers(int(lo * denom), int(hi * denom)).map(lambda k: k / denom)


def points(maxn=8, kinds=("uniform", "cell", "half", "far", "edge"), bulk=40):
    """Where particles are, in units of the mesh (or box): made by make_points."""
    st = S()
    return st.one_of(
        st.fixed_dictionaries({"seed": seeds(), "n": st.integers(0, maxn),
                               "kind": st.sampled_from(list(kinds))}),
        st.fixed_dictionaries({"seed": seeds(), "n": st.integers(1, bulk),
                               "kind": st.sampled_from(list(kinds))}))


# -------------------------------------------------------------------- workers

class HarnessBug(RuntimeError):
    pass


def violation(msg, *args):
    from worker import Violation
    raise Violation(msg % args if args else msg)


def make_points(spec, size):
    """(n, ndim) positions in mesh units for a mesh of `size` cells per side."""
    import numpy as np
    rng = np.random.RandomState(spec["seed"])
    nd = len(size)
    n = spec["n"]
    size = np.asarray(size, "f8")
    u = rng.uniform(size=(n, nd)) * size
    k = spec["kind"]
    if k == "cell":
        u = np.floor(u)
    elif k == "half":
        u = np.floor(u) + 0.5
    elif k == "far":
        u = u + size * rng.randint(-3, 4, size=(n, nd))
    elif k == "near":
        u = u + size * rng.uniform(-0.6, 0.6, size=(n, nd))
    elif k == "edge":
        pick = rng.randint(0, 5, size=(n, nd))
        eps = np.array([0.0, 1e-13, -1e-13, 1e-4, -1e-4])[pick]
        u = rng.randint(0, 2, size=(n, nd)) * size + eps
    elif k == "dyadic":
        u = np.floor(u * 16) / 16
    elif k == "same":
        u = np.repeat(u[:1], n, axis=0)
    return u


def close(a, b, rtol, scale, what, *args):
    """|a - b| <= rtol * scale everywhere."""
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        violation("%s: shape %s, expected %s", what % args if args else what, a.shape, b.shape)
    if a.size == 0:
        return
    d = np.abs(a - b)
    bad = ~(d <= rtol * scale)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape) if d.ndim else ()
        violation("%s: got %r, expected %r at %s (difference %.3g, allowed %.3g; %d of %d differ)",
                  what % args if args else what, a[i], b[i], tuple(int(x) for x in i), float(d[i]), float(np.max(rtol * scale)),
                  int(bad.sum()), a.size)


def equal(a, b, what, *args):
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        violation("%s: shape %s, expected %s", what % args if args else what, a.shape, b.shape)
    if not np.array_equal(a, b):
        if a.dtype.names is None and a.ndim:
            bad = a != b
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            violation("%s: got %r, expected %r at %s (%d of %d differ)", what % args if args else what,
                      a[i], b[i], i, int(bad.sum()), a.size)
        violation("%s: got %r, expected %r", what % args if args else what, a, b)


def require(cond, msg, *args):
    if not cond:
        violation(msg, *args)


def tol(dtype):
    import numpy as np
    return 2e-5 if np.dtype(dtype).itemsize in (4,) and np.dtype(dtype).kind == "f" \
        or np.dtype(dtype) == np.dtype("c8") else 1e-10


def strided(shape, dtype, layout, fill=0, guard=None):
    """An array of the given shape in an unusual memory layout.

    With guard, the array is a window of a larger block whose other elements
    hold the guard value; returns (array, block, mask of the window)."""
    import numpy as np
    shape = tuple(int(s) for s in shape)
    nd = len(shape)
    perm = list(range(nd))
    step = [1] * nd
    pad = 2
    if layout == "C":
        pass
    elif layout == "F":
        perm = perm[::-1]
    elif layout == "roll":
        perm = perm[1:] + perm[:1]
    elif layout == "step":
        step = [2] * nd
    elif layout == "mix":
        perm = perm[::-1]
        step = [1 + (d % 2) for d in range(nd)]
    elif layout == "neg":
        step = [-1] * nd
    else:
        raise HarnessBug(layout)
    big = [abs(step[d]) * shape[d] + 2 * pad for d in range(nd)]
    block = np.empty([big[p] for p in perm], dtype)
    block[...] = fill if guard is None else guard
    view = block.transpose(np.argsort(perm))
    sl = []
    for d in range(nd):
        a, b = pad, pad + abs(step[d]) * shape[d]
        sl.append(slice(a, b, step[d]) if step[d] > 0 else slice(b - 1, a - 1, step[d]))
    arr = view[tuple(sl)]
    assert arr.shape == shape
    mask = np.zeros([big[p] for p in perm], bool)
    mask.transpose(np.argsort(perm))[tuple(sl)] = True
    arr[...] = fill
    return arr, block, mask


# ------------------------------------------------------------ window kernels

NATIVE = {"nearest": 1, "nnb": 1, "linear": 2, "cic": 2, "quadratic": 3, "tsc": 3,
          "cubic": 4, "pcs": 4,
          "lanczos2": 4, "lanczos3": 6, "lanczos4": 8, "lanczos5": 10, "lanczos6": 12,
          "acg2": 2, "acg3": 3, "acg4": 4, "acg5": 5, "acg6": 6}
BSPLINE = ["nearest", "nnb", "linear", "cic", "quadratic", "tsc", "cubic", "pcs"]
TUNED = {"nnb": "nearest", "cic": "linear", "tsc": "quadratic", "pcs": "cubic"}
TABLE = ["lanczos2", "lanczos3", "lanczos4", "lanczos5", "lanczos6",
         "acg2", "acg3", "acg4", "acg5", "acg6"]
WAVELET = ["db6", "db12", "db20", "sym6", "sym12", "sym20"]
ALLWIN = BSPLINE + TABLE + WAVELET

_norm = {}


def kernel(name, x):
    """The documented one-dimensional kernels, in closed form."""
    import numpy as np
    x = np.asarray(x, "f8")
    name = TUNED.get(name, name)
    a = np.abs(x)
    if name == "nearest":
        return ((x < 0.5) & (x >= -0.5)) * 1.0
    if name == "linear":
        return np.where(a < 1, 1 - a, 0.0)
    if name == "quadratic":
        return np.where(a <= 0.5, 0.75 - a * a, np.where(a < 1.5, 0.5 * (1.5 - a) ** 2, 0.0))
    if name == "cubic":
        return np.where(a < 1, (4 - 6 * a ** 2 + 3 * a ** 3) / 6.0,
                        np.where(a < 2, (2 - a) ** 3 / 6.0, 0.0))
    if name.startswith("lanczos"):
        n = int(name[7:])

        def f(y):
            return np.sinc(y) * np.sinc(y / n)
        if name not in _norm:
            y = np.linspace(0, n, 200001)
            _norm[name] = 2 * np.trapz(f(y), y)
        return np.where(a < n, f(a), 0.0) / _norm[name]
    if name.startswith("acg"):
        n = int(name[3:])
        c = (n - 1) / 2.0

        def G(y):
            return np.exp(-0.25 * (y - c) ** 2)

        def g(y):
            y = y + c
            return G(y) - G(-0.5) * (G(y + n) + G(y - n)) / (G(-0.5 + n) + G(-0.5 - n))
        if name not in _norm:
            y = np.linspace(0, n * 0.5, 200001)
            _norm[name] = 2 * np.trapz(g(y), y)
        return np.where(a < n * 0.5, g(a), 0.0) / _norm[name]
    raise HarnessBug(name)


def dkernel(name, x):
    """Derivative of kernel(), by closed form or a fine central difference."""
    import numpy as np
    x = np.asarray(x, "f8")
    name = TUNED.get(name, name)
    a = np.abs(x)
    s = np.sign(x)
    if name == "nearest":
        return 0.0 * x
    if name == "linear":
        return np.where(a < 1, -s, 0.0)
    if name == "quadratic":
        return s * np.where(a <= 0.5, -2 * a, np.where(a < 1.5, -(1.5 - a), 0.0))
    if name == "cubic":
        return s * np.where(a < 1, (-12 * a + 9 * a * a) / 6.0,
                            np.where(a < 2, -0.5 * (2 - a) ** 2, 0.0))
    h = 1e-5
    return (kernel(name, x + h) - kernel(name, x - h)) / (2 * h)


_wav = {}
WSTEP = 1.0 / 256


def wavelet_table(name):
    """Eight rounds of the cascade algorithm, and the coordinate it starts at."""
    import numpy as np
    if name not in _wav:
        from wavelets import FILTER
        support, off, n, h = FILTER[name]
        h = np.array(h)
        a = np.array([1.0])
        for _ in range(8):
            up = np.zeros(2 * len(a))
            up[::2] = a
            a = np.convolve(up, h)[:2 * len(a) + len(h) - 2]
        a = a * 16.0
        a = np.pad((a[1:] + a[:-1]) * 0.5, (0, n))
        _wav[name] = support, a[off:off + n]
    return _wav[name]


def wavelet(name, x, diff=False):
    import numpy as np
    support, t = wavelet_table(name)
    f = (np.asarray(x, "f8") + support * 0.5) / WSTEP
    i = np.floor(f).astype(int)
    ok = (i >= 0) & (i < len(t) - 1)
    i = np.where(ok, i, 0)
    f = f - i
    if diff:
        return np.where(ok, (t[i + 1] - t[i]) / WSTEP, 0.0)
    return np.where(ok, t[i] * (1 - f) + t[i + 1] * f, 0.0)


def painted_kernel(name, x, stretch=None, diff=False, resize=None, scale=1.0):
    """The one-dimensional kernel as the code reads it from a mesh that is 1 at
    one point: weight at separation x."""
    import numpy as np
    from pmesh.window import Affine
    w = resampler(name, -1 if resize is None else resize)
    x = np.asarray(x, "f8")
    canvas = np.zeros(129)
    canvas[64] = 1.0
    ok = np.abs(x) < 60
    out = np.zeros(x.shape)
    tr = Affine(1, scale=scale, translate=64.0)
    out[ok] = w.readout(canvas, (x[ok] / scale)[:, None], hsml=stretch,
                        diffdir=0 if diff else None, transform=tr)
    return out


def kern(name, x, diff=False):
    if name in WAVELET:
        return wavelet(name, x, diff)
    return dkernel(name, x) if diff else kernel(name, x)


def native(name):
    if name in NATIVE:
        return NATIVE[name]
    from wavelets import FILTER
    return FILTER[name][0]


def resampler(name, support=-1):
    """-> the window object by its public name, optionally resized."""
    from pmesh.window import FindResampler
    w = FindResampler(name)
    return w if support in (-1, None) else w.resize(support)


def weights1d(name, g, size, period, stretch, scale=1.0, diff=False):
    """Weight of each of `size` mesh points for a particle at mesh coordinate g.
    stretch is the factor by which the kernel is widened."""
    import numpy as np
    half = native(name) / 2.0 * stretch + 2
    j = np.arange(size)
    out = np.zeros(size)
    vf = 1.0 / stretch
    if period > 0:
        lo = int(math.floor((g - half - size) / period)) - 1
        hi = int(math.ceil((g + half) / period)) + 1
        images = range(lo, hi + 1)
    else:
        images = [0]
    for m in images:
        x = (g - (j + m * period)) * vf
        near = np.abs(x) <= (half * vf + 1)
        if not near.any():
            continue
        if diff:
            out[near] += kern(name, x[near], True) * vf * vf * scale
        else:
            out[near] += kern(name, x[near]) * vf
    return out


def smooth_frac(g, name, stretch, eps=1e-6, diff=False):
    """False for mesh coordinates at a jump of the kernel (or of its
    derivative), where either side's value is right."""
    import numpy as np
    base = TUNED.get(name, name)
    n = native(name)
    g = np.asarray(g, "f8")
    ok = np.ones(g.shape, bool)
    if base in ("quadratic", "cubic") or (base == "linear" and not diff):
        return ok       # continuous where it matters
    if name in WAVELET:
        if diff:
            f = (g / stretch + n * 0.5) / WSTEP
            for j in range(-40, 41):
                f = ((g + j) / stretch + n * 0.5) / WSTEP
                ok &= np.abs(f - np.round(f)) > 1e-4
        # the table ends a little beyond the support; whether mesh points
        # there are visited is left open
        from wavelets import FILTER
        end = -n * 0.5 + FILTER[name][2] * WSTEP
        for lo, hi in ((-n * 0.5 - eps, -n * 0.5 + eps), (n * 0.5 - eps, end + eps)):
            ok &= np.floor(g - lo * stretch) < np.ceil(g - hi * stretch)
        return ok
    # jumps of B-splines at separations (n/2 - k) * stretch; tables at +-n/2 too
    if base == "nearest":
        jumps = [0.5]
    elif base == "linear":
        jumps = [0.0, 1.0]
    else:
        jumps = [n / 2.0, 0.0] if diff else [n / 2.0]
    for jmp in jumps:
        for s in (-1, 1):
            f = g - s * jmp * stretch
            ok &= np.abs(f - np.round(f)) > eps
    return ok
