"""P08: Fourier resampling."""
from pmbase import *

RULE = ("A random field of any type on one mesh, resampled to a field of any type on another over 1 to 6 (thorough: 8) ranks, with any two side lengths per axis. "
        "Non-trivial: the meshes differ and at least two modes are kept.")
ASSUMPTIONS = ["Both meshes have the same dimension and communicator, and both hold real or both hold complex values.",
               "Modes at a Nyquist frequency of either mesh are left out when the two meshes have the same size (the code only asks for a plain transform then); they are zero otherwise."]
BUDGET = {"quick": 30, "thorough": 400}


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dtypes=("f8", "f8", "f8", "f4", "c16", "c8"), big=True)
        nd = len(c["N"])
        k = draw(st.sampled_from(["any", "any", "near", "half", "same"] + (["double"] if np_prod(c["N"]) < 60000 else [])))
        hi = {2: 14, 3: 9, 4: 5}[nd]
        if k == "any":
            M = [draw(st.integers(1, hi)) for _ in range(nd)]
        elif k == "near":
            M = [max(1, n + draw(st.integers(-2, 2))) for n in c["N"]]
        elif k == "double":
            M = [2 * n for n in c["N"]]
        elif k == "half":
            M = [max(1, n // 2) for n in c["N"]]
        else:
            M = list(c["N"])
        c["M"] = M
        c["src"] = draw(st.sampled_from(TYPES))
        c["dst"] = draw(st.sampled_from(TYPES))
        c["mdtype"] = c["dtype"] if is_complex(c["dtype"]) else draw(st.sampled_from([c["dtype"], c["dtype"], "f8", "f4"]))
        c["np2"] = draw(st.sampled_from([None] + meshes(c["nranks"], nd) + full_meshes(c["nranks"], nd)[:2]))
        c["vseed"] = draw(seeds())
        c["dirty"] = draw(st.booleans())
        c["back"] = draw(st.booleans())
        return c
    return make()


def resampled(F, N, M):
    """All modes of the result, from all modes of the source, one by one."""
    import numpy as np
    out = np.zeros(M, "c16")
    src, dst = [], []
    for n, m in zip(N, M):
        f = [k for k in range(-max(n, m), max(n, m) + 1) if 2 * abs(k) < min(n, m)]
        src.append(np.array([k % n for k in f]))
        dst.append(np.array([k % m for k in f]))
    out[np.ix_(*dst)] = F[np.ix_(*src)]
    return out, int(np.prod([len(s) for s in src]))


def nyquist(N):
    """Points of the mode array where some axis is at its Nyquist frequency."""
    import numpy as np
    m = np.zeros(N, bool)
    for d, n in enumerate(N):
        i = np.arange(n).reshape([-1 if e == d else 1 for e in range(len(N))])
        m |= 2 * i == n
    return m


def check(c, comm):
    import numpy as np
    N, M, dt = c["N"], c["M"], c["mdtype"]
    pm1 = make_pm(c, comm)
    pm2 = make_pm(c, comm, Nmesh=M, np=c["np2"], dtype=dt)
    full = values(N, c["dtype"], c["vseed"])
    # at equal sizes the Nyquist modes are unspecified: leave them empty
    same = list(N) == list(M)
    if same:
        F = modes(full)
        F[nyquist(N)] = 0
        full = (np.fft.ifftn(F) * F.size).astype(full.dtype) if is_complex(c["dtype"]) else (np.fft.ifftn(F) * F.size).real.astype(full.dtype)
    F = modes(full)
    f = make_field(pm1, c["src"], full, c)
    before = f.value.copy()
    g = pm2.create(type=c["dst"])
    g.value[...] = np.nan if c["dirty"] else 0
    r = f.resample(g)
    require(r is g, "resample returned another object")
    equal(f.value, before, "the source after resample")
    G, kept = resampled(F, N, M)
    t = 1e-12 if "f4" not in (c["dtype"], dt) and "c8" not in (c["dtype"], dt) else 2e-5
    scale = np.abs(F).sum() / np.sqrt(F.size) + np.abs(F).max() + 1e-3
    what = "%s field of mesh %s as %s field of mesh %s" % (c["src"], N, c["dst"], M)

    def verify(h, what):
        if c["dst"] == "real":
            want = np.fft.ifftn(G) * G.size
            require(is_complex(dt) or np.abs(want.imag).max() < 1e-6 * scale * G.size, "the reference is not real")
            close(gather(h, comm), want if is_complex(dt) else want.real, t, np.abs(G).sum() + scale, what)
        else:
            close(gather(h, comm), half(G, M, dt), t, scale * 10, what)
    verify(g, what)
    # what is stored stands for a real field
    if c["dst"] != "real":
        x = gather(g.c2r(), comm)
        want = np.fft.ifftn(G) * G.size
        close(x, want if is_complex(dt) else want.real, t, np.abs(G).sum() + scale, "transform of " + what)
    if c["back"]:
        # and back: only the common modes remain
        h = g.resample(pm1.create(type=c["src"], value=0))
        B, _ = resampled(G, M, N)
        if c["src"] == "real":
            w = np.fft.ifftn(B) * B.size
            close(gather(h, comm), w if is_complex(c["dtype"]) else w.real, 4 * t, np.abs(B).sum() + scale, "and back, " + what)
        else:
            close(gather(h, comm), half(B, N, c["dtype"]), 4 * t, scale * 10, "and back, " + what)
    return {"nontrivial": bool(not same and kept > 1), "labels": labels(c) + [c["src"] + "-" + c["dst"], "same" if same else "up" if all(m >= n for m, n in zip(M, N)) else "down" if all(m <= n for m, n in zip(M, N)) else "mixed"]}


FAMILIES = [{"name": "resample", "what": "modes of the result, one by one", "strategy": strategy, "max_examples": {"quick": 1500, "thorough": 40000}}]
