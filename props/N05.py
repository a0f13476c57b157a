"""N05: three-dimensional white noise follows the N-GenIC recipe."""
from nbase import *

RULE = ("A mesh of even sides, the first two alike, a part of it in half or full storage, a seed, precision and kind of noise. "
        "Non-trivial: more than two modes a side.")
ASSUMPTIONS = ["The reference is written from the recipe (RANLUX at luxury level 202 in 48-bit integers, one seed per column in rings of growing "
               "frequency, phase before amplitude); values agree to rounding of the logarithm and of sine and cosine.",
               "The recipe is for even cubic meshes; the others are tied to them by N03."]
BUDGET = {"quick": 20, "thorough": 300}


def strategy(tier):
    st = S()
    hi = 12 if tier == "thorough" else 6
    return st.fixed_dictionaries({"n": st.integers(1, hi).map(lambda x: 2 * x), "m": st.integers(1, hi).map(lambda x: 2 * x), "seed": noise_seeds(),
                                  "unitary": st.booleans(), "c8": st.booleans(), "half": st.booleans(),
                                  "lo": st.lists(st.integers(0, 5), min_size=3, max_size=3), "len": st.lists(st.integers(1, 9), min_size=3, max_size=3),
                                  "part": st.booleans()})


class Ranlxd1(object):
    """RANLUX (Luescher 1994) with 48-bit words, 12 and 5 lags, 12 of 202 used;
    many generators side by side, one per seed."""
    MASK = (1 << 48) - 1

    def __init__(self, seeds):
        import numpy as np
        seeds = np.atleast_1d(np.asarray(seeds, "u8"))
        seeds = np.where(seeds == 0, 1, seeds)
        # 31 bits of the seed start a shift register x_n = x_(n-31) + x_(n-13) that fills the words
        bits = [(seeds >> np.uint64(k)) & np.uint64(1) for k in range(31)]
        self.x = []
        for k in range(12):
            word = np.zeros(len(seeds), "i8")
            for m in range(48):
                b = bits[0]
                word = 2 * word + (1 - b.astype("i8"))
                bits = bits[1:] + [b ^ bits[18]]
            self.x.append(word)
        self.carry = np.zeros(len(seeds), "i8")
        self.queue = []

    def step(self):
        # x[0] is the oldest word, x_(n-12); x[7] is x_(n-5)
        d = self.x[7] - self.x[0] - self.carry
        self.carry = (d < 0).astype("i8")
        self.x = self.x[1:] + [d & self.MASK]

    def uniform(self):
        if not self.queue:
            for i in range(202):
                self.step()
            self.queue = list(self.x)
        return self.queue.pop(0) / float(1 << 48)


def columns(n, seed):
    """Seeds of the (n, n) columns."""
    import numpy as np
    r = Ranlxd1([seed])
    t = np.zeros((n, n), "i8")

    def put(i, j):
        t[i, j] = int(0x7fffffff * float(r.uniform()[0]))
    for i in range(n // 2):
        for fi, fj in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
            a = lambda q, s: q if s > 0 else n - 1 - q
            for j in range(i):
                put(a(i, fi), a(j, fj))
            for j in range(i + 1):
                put(a(j, fi), a(i, fj))
    return t


def reference(n, m, seed, unitary):
    """The full (n, n, m) mesh."""
    import numpy as np
    t = columns(n, seed)
    r = Ranlxd1(t.ravel())
    h = np.empty((n, n, m // 2 + 1), "c16")
    for k in range(m // 2 + 1):
        phase = 2 * np.pi * r.uniform()
        u = r.uniform()
        assert (u > 0).all()
        amp = np.ones_like(u) if unitary else np.sqrt(-np.log(u))
        h[:, :, k] = (amp * np.exp(1j * phase)).reshape(n, n)
    # planes that are their own mirror: the lower half rules
    i = np.arange(n)
    upper = (i[:, None] > n // 2) | (((-i[:, None]) % n == i[:, None]) & (i[None, :] > n // 2))
    own = ((-i[:, None]) % n == i[:, None]) & ((-i[None, :]) % n == i[None, :])
    for k in {0, m // 2}:
        p = h[:, :, k]
        h[:, :, k] = np.where(upper, np.conj(mirror(p)), p)
        h[:, :, k] = np.where(own, 1.0 if unitary else h[:, :, k].real, h[:, :, k])
    h[0, 0, 0] = 0
    full = np.empty((n, n, m), "c16")
    full[:, :, :m // 2 + 1] = h
    k = np.arange(m // 2 + 1, m)
    full[:, :, k] = np.conj(mirror_cols(h[:, :, m - k]))
    return full


def mirror_cols(a):
    import numpy as np
    for d in range(2):
        a = np.take(a, -np.arange(a.shape[d]) % a.shape[d], axis=d)
    return a


def check(case, comm):
    import numpy as np
    n, m, seed, un = case["n"], case["m"], case["seed"], case["unitary"]
    ref = reference(n, m, seed, un)
    N = [n, n, m]
    size = [n, n, m // 2 + 1 if case["half"] else m]
    lo = [0, 0, 0]
    if case["part"]:
        lo = [min(a, s - 1) for a, s in zip(case["lo"], size)]
        size = [min(b, s - a) for a, b, s in zip(lo, case["len"], size)]
    a = np.full(size, np.nan, "c8" if case["c8"] else "c16")
    fill(a, lo, N, seed, un)
    want = ref[tuple(slice(l, l + s) for l, s in zip(lo, size))]
    close(a, want, 1.0, 1e-6 * (1 + np.abs(want)) if case["c8"] else 1e-12 * (1 + np.abs(want)), "modes of seed %d on mesh %s", seed, N)
    return {"nontrivial": bool(n > 2 and m > 2), "labels": ["unitary" if un else "gaussian", "half" if case["half"] else "full", "part" if case["part"] else "whole"]}


FAMILIES = [{"name": "recipe", "what": "modes against the recipe", "strategy": strategy, "max_examples": {"quick": 600, "thorough": 20000}}]
