"""Shared by the properties of pmesh.pm: meshes over ranks, and the global
arrays they stand for."""
from common import *

TYPES = ["real", "transposedcomplex", "untransposedcomplex"]
RANKS = {"quick": [1, 1, 2, 2, 3, 4, 4] * 3 + [6], "thorough": [1, 2, 3, 4, 4, 5, 6, 8]}


def np_prod(N):
    out = 1
    for n in N:
        out *= int(n)
    return out


def sizes(draw, nd, hi=None, lo=1):
    """Side lengths: cubic or not, odd or even, and now and then a side of 1."""
    st = S()
    hi = hi or {2: 12, 3: 8, 4: 5}[nd]
    k = draw(st.sampled_from(["cube", "even", "any", "any"]))
    if k == "cube":
        return [draw(st.integers(max(lo, 2), hi))] * nd
    if k == "even":
        return [2 * draw(st.integers(max(1, lo // 2), hi // 2)) for _ in range(nd)]
    return [draw(st.integers(lo, hi)) for _ in range(nd)]


def meshes(n, nd):
    """Process meshes of n ranks for a mesh of nd dimensions."""
    if nd == 2:
        return [[n]]
    out = [[a, n // a] for a in range(1, n + 1) if n % a == 0]
    out.append([n])
    if nd == 4:
        out += [[a, b, n // a // b] for a in range(1, n + 1) for b in range(1, n + 1) if n % (a * b) == 0]
    return out


def full_meshes(n, nd):
    """Process meshes of as many dimensions as the mesh (see vf/shim.py)."""
    if nd == 1:
        return [[n]]
    return [[a] + rest for a in range(1, n + 1) if n % a == 0 for rest in full_meshes(n // a, nd - 1)]


def pm_case(draw, tier, dims=(2, 3, 3, 3, 4), ranks=None, dtypes=("f8", "f8", "f4"), hi=None, lo=1, big=False, scale=True):
    st = S()
    nd = draw(st.sampled_from(list(dims)))
    n = draw(st.sampled_from(ranks or RANKS[tier]))
    N = sizes(draw, nd, hi, lo)
    if big and draw(st.integers(0, 15)) == 15:
        # more points than 16 bits count
        N = draw(st.sampled_from({2: [[300, 250], [257, 256], [3, 22001]], 3: [[33, 40, 51], [64, 33, 32], [41] * 3, [2, 181, 182]],
                                  4: [[16, 17, 16, 17], [2, 33, 33, 34]]}[nd]))
    exact = draw(st.booleans())
    if exact:
        L = [float(m * draw(st.sampled_from([0.5, 1, 1, 4]))) for m in N]
    elif draw(st.booleans()):
        L = [draw(st.sampled_from([1.0, 10.0, 100.0]))] * nd
    else:
        L = [draw(dyadic(0.5, 30, 8)) for _ in range(nd)]
    unit = draw(st.sampled_from([0] * 8 + [24, -24])) if scale else 0
    L = [l * 2.0 ** unit for l in L]
    np_ = draw(st.sampled_from([None] + meshes(n, nd)))
    if draw(st.integers(0, 4)) == 4:
        np_ = draw(st.sampled_from(full_meshes(n, nd)))
    return {"nranks": n, "N": N, "L": L, "exact": exact, "np": np_, "dtype": draw(st.sampled_from(list(dtypes)))}


def make_pm(c, comm, **kw):
    from pmesh.pm import ParticleMesh
    kw.setdefault("np", c["np"])
    return ParticleMesh(Nmesh=kw.pop("Nmesh", c["N"]), BoxSize=kw.pop("BoxSize", c["L"]), comm=comm, dtype=kw.pop("dtype", c["dtype"]), **kw)


def self_pm(c, **kw):
    """The same mesh on this rank alone."""
    from mpi4py import MPI
    return make_pm(c, MPI.COMM_SELF, np=None, **kw)


def is_complex(dtype):
    import numpy as np
    return np.dtype(dtype).kind == "c"


def ctype(dtype):
    return {"f8": "c16", "f4": "c8", "c16": "c16", "c8": "c8"}[str(dtype)]


def eps(dtype):
    """Of one transform or short sum of values of order one."""
    return 3e-6 if str(dtype) in ("f4", "c8") else 1e-13


def cshape(N, type, dtype="f8"):
    N = [int(n) for n in N]
    if type == "real" or is_complex(dtype):
        return tuple(N)
    return tuple(N[:-1]) + (N[-1] // 2 + 1,)


def kind_of(field):
    return {"RealField": "real", "TransposedComplexField": "transposedcomplex",
            "UntransposedComplexField": "untransposedcomplex"}[type(field).__name__]


def gather(field, comm, what="field"):
    """The whole field, on every rank; its parts must tile the mesh."""
    import numpy as np
    parts = comm.allgather(([int(s.start) for s in field.slices], np.array(field.value, copy=True, order="C")))
    out = np.zeros(tuple(int(x) for x in field.cshape), parts[0][1].dtype)
    cnt = np.zeros(out.shape, "i4")
    for st, v in parts:
        if v.size == 0:
            continue
        sl = tuple(slice(a, a + n) for a, n in zip(st, v.shape))
        require(all(s.stop <= n for s, n in zip(sl, out.shape)), "%s: a part %s reaches beyond the mesh %s", what, sl, out.shape)
        out[sl] = v
        cnt[sl] += 1
    require((cnt == 1).all(), "%s: %d points are held by no rank, %d by several", what, int((cnt == 0).sum()), int((cnt > 1).sum()))
    return out


def values(shape, dtype, seed, kind="normal"):
    """A global array, the same on every rank."""
    import numpy as np
    rng = np.random.RandomState(seed % (2 ** 32))
    if kind == "dyadic":
        v = rng.randint(-64, 65, size=shape) / 16.0
        w = rng.randint(-64, 65, size=shape) / 16.0
    else:
        v = rng.normal(size=shape)
        w = rng.normal(size=shape)
    return (v + 1j * w).astype(dtype) if is_complex(dtype) else v.astype(dtype)


def modes(full):
    """Forward transform as documented: divided by the number of points."""
    import numpy as np
    return np.fft.fftn(full.astype("c16") if is_complex(full.dtype) else full.astype("f8")) / full.size


def half(a, N, dtype="f8"):
    """The stored part of the modes of a real field."""
    if is_complex(dtype):
        return a
    return a[..., :int(N[-1]) // 2 + 1]


def unhalf(h, N):
    """The full modes a Hermitian compressed array stands for."""
    import numpy as np
    N = [int(n) for n in N]
    out = np.zeros(N, h.dtype)
    m = N[-1] // 2 + 1
    out[..., :m] = h
    if N[-1] > m:
        k = np.arange(m, N[-1])
        src = h[..., N[-1] - k]
        for d in range(len(N) - 1):
            src = np.take(src, -np.arange(N[d]) % N[d], axis=d)
        out[..., m:] = np.conj(src)
    return out


def put(field, full):
    """Set the local part of a field from the global array."""
    field.value[...] = full[field.slices]
    return field


def make_field(pm, type, full_real, c):
    """A field of the given type standing for the global configuration-space
    array; complex ones are set from the reference transform."""
    f = pm.create(type=type)
    if type == "real":
        return put(f, full_real)
    return put(f, half(modes(full_real), c["N"], c["dtype"]).astype(ctype(c["dtype"])))


def expected(type, full_real, c):
    if type == "real":
        return full_real
    return half(modes(full_real), c["N"], c["dtype"])


def freqs(n, m=None):
    """Signed frequency of each index, the Nyquist frequency negative."""
    import numpy as np
    i = np.arange(n if m is None else m)
    return np.where(2 * i >= n, i - n, i)


def kgrid(N, L, shape):
    """Wavenumbers of a (stored) mode array, one broadcastable array per axis."""
    import numpy as np
    nd = len(N)
    return [(freqs(int(N[d]), shape[d]) * 2 * np.pi / L[d]).reshape([-1 if e == d else 1 for e in range(nd)]) for d in range(nd)]


def labels(c):
    return ["unpadded" if len(c["np"] or []) == len(c["N"]) else "padded", "ranks:%d" % c["nranks"], "dim:%d" % len(c["N"]), "type:" + c["dtype"],
            "odd" if any(n % 2 for n in c["N"]) else "even"]
