"""N02: white noise is Hermitian."""
from nbase import *

RULE = "A mesh of any side lengths in 1 to 3 dimensions, a seed, precision and kind of noise. Non-trivial: some side longer than 2 (so that not all modes are self-conjugate)."
ASSUMPTIONS = []
BUDGET = {"quick": 20, "thorough": 300}


def strategy(tier):
    st = S()
    hi = 24 if tier == "thorough" else 14
    return st.sampled_from([3, 3, 3, 3, 2, 1]).flatmap(lambda nd: st.fixed_dictionaries(
        {"N": mesh_sizes(nd, hi), "seed": noise_seeds(), "unitary": st.booleans(), "c8": st.booleans()}))


def check(case, comm):
    import numpy as np
    N, seed, un = case["N"], case["seed"], case["unitary"]
    dt = "c8" if case["c8"] else "c16"
    a = whole(N, seed, un, dt)
    require(np.isfinite(a).all(), "modes left unset: %s", np.argwhere(~np.isfinite(a))[:4].tolist())
    t = 2e-6 if case["c8"] else 1e-12
    if len(N) == 3:
        equal(a, np.conj(mirror(a)), "mode and conjugate of the mirrored mode of %s", N)
    else:
        # these come out of a Fourier transform, up to rounding; an amplitude near 0 has no phase
        close(a, np.conj(mirror(a)), t * 10 if not un else 1e-3, 1, "mode and conjugate of the mirrored mode of %s", N)
    sc = self_conjugate(N)
    close(a[sc].imag, np.zeros(int(sc.sum())), 1e-6 if len(N) < 3 else 0, 1, "imaginary part of self-conjugate modes")
    if len(N) == 3:
        require(a[0, 0, 0] == 0, "the zero mode is %r", a[0, 0, 0])
    r = np.fft.ifftn(a.astype("c16"))
    require(np.abs(r.imag).max() <= (1e-6 if len(N) == 3 else 1e-3), "imaginary part %.3g of the field", np.abs(r.imag).max())
    h = whole(N, seed, un, dt, half=True)
    equal(h, a[..., :N[-1] // 2 + 1], "half storage of %s", N)
    return {"nontrivial": max(N) > 2, "labels": ["dim:%d" % len(N), "odd" if any(n % 2 for n in N) else "even",
                                                 "cubic" if len(set(N)) == 1 else "non-cubic"]}


FAMILIES = [{"name": "hermitian", "what": "Hermitian symmetry, half and full storage, zero mode", "strategy": strategy,
             "max_examples": {"quick": 1500, "thorough": 40000}}]
