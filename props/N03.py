"""N03: the large scales of white noise do not depend on the resolution."""
from nbase import *

RULE = ("refine: two meshes in three dimensions, of any side lengths, and two seeds; huge: the corners of a mesh of up to 1024 x 1024 x 5000 and a small one, and any mode of it alone, in a part and its opposite. Non-trivial: the meshes differ and share a mode that is not self-conjugate.")
ASSUMPTIONS = ["Seeds run from 1 to 2^31-1; the generator underneath takes 0 for 1 and ignores higher bits."]
BUDGET = {"quick": 20, "thorough": 300}


def strategy(tier):
    st = S()
    hi = 28 if tier == "thorough" else 14
    return st.fixed_dictionaries({"A": mesh_sizes(3, hi), "B": mesh_sizes(3, hi), "seed": noise_seeds(), "other": noise_seeds(),
                                  "unitary": st.booleans(), "c8": st.booleans(), "half": st.booleans()})


def check(case, comm):
    import numpy as np
    if case.get("family") == "huge":
        return check_huge(case, comm)
    A, B, seed, un, half = case["A"], case["B"], case["seed"], case["unitary"], case["half"]
    dt = "c8" if case["c8"] else "c16"
    a, b = whole(A, seed, un, dt, half), whole(B, seed, un, dt, half)
    ia, ib = [], []
    for d in range(3):
        n = min(A[d], B[d])
        k = np.arange(-((n - 1) // 2) if not (half and d == 2) else 0, (n - 1) // 2 + 1)
        ia.append(k % A[d])
        ib.append(k % B[d])
    equal(b[np.ix_(*ib)], a[np.ix_(*ia)], "shared modes of meshes %s and %s", A, B)
    equal(whole(A, seed, un, dt, half), a, "the same seed again")
    if case["other"] != seed:
        o = whole(A, case["other"], un, dt, half)
        sc = np.broadcast_to(self_conjugate(A, half), a.shape)
        same = (o == a) & ~sc
        require(not same.any() if (~sc).any() else True, "%d of %d modes are alike for seeds %d and %d",
                int(same.sum()), int((~sc).sum()), seed, case["other"])
    nt = A != B and all(min(x, y) >= 1 for x, y in zip(A, B)) and max(min(x, y) for x, y in zip(A, B)) > 2
    return {"nontrivial": bool(nt), "labels": ["cubic" if len(set(A)) == len(set(B)) == 1 else "non-cubic",
                                               "odd" if any(n % 2 for n in A + B) else "even"]}


def huge_strategy(tier):
    st = S()
    side = st.one_of(st.integers(1, 14), st.integers(15, 600), st.sampled_from([64, 127, 128, 129, 255, 256, 257, 500, 512, 1000, 1024]))
    return st.fixed_dictionaries({"A": st.one_of(side.map(lambda n: [n] * 3), st.tuples(side, side, st.one_of(side, st.integers(600, 5000))).map(list)), "B": mesh_sizes(3, 9),
                                  "seed": noise_seeds(), "unitary": st.booleans(), "c8": st.booleans(), "half": st.booleans(),
                                  "at": st.lists(st.floats(0, 1, exclude_max=True, allow_nan=False), min_size=3, max_size=3)})


def check_huge(case, comm):
    import numpy as np
    A, B, seed, un, half = case["A"], case["B"], case["seed"], case["unitary"], case["half"]
    dt = "c8" if case["c8"] else "c16"

    def part(lo, size):
        a = np.full(size, np.nan, dt)
        fill(a, lo, A, seed, un)
        require(np.isfinite(a).all(), "part %s+%s of mesh %s is not filled", lo, size, A)
        return a
    # the large scales, from the corners of the mesh
    b = whole(B, seed, un, dt, False)
    m = [(min(x, y) - 1) // 2 for x, y in zip(A, B)]
    for corner in range(8):
        up = [corner >> d & 1 for d in range(3)]
        if any(u and not k for u, k in zip(up, m)) or (half and up[2]):
            continue
        lo = [n - k if u else 0 for n, k, u in zip(A, m, up)]
        size = [k if u else k + 1 for k, u in zip(m, up)]
        want = b[np.ix_(*[(np.arange(s) - s if u else np.arange(s)) % n for s, u, n in zip(size, up, B)])]
        equal(part(lo, size), want, "shared modes of meshes %s, part %s+%s, and %s", A, lo, size, B)
    # any of the others: a part, a part of it, and the modes opposite to it
    lo = [int(f * n) for f, n in zip(case["at"], A)]
    size = [min(3, n - l) for l, n in zip(lo, A)]
    a = part(lo, size)
    last = [l + s - 1 for l, s in zip(lo, size)]
    equal(part(last, [1, 1, 1]), a[-1:, -1:, -1:], "a mode of mesh %s alone and in a part", A)
    opp = part([-l % n for l, n in zip(last, A)], [1, 1, 1])
    equal(opp[0, 0, 0], np.conj(a[-1, -1, -1]), "modes %s and its opposite of mesh %s", last, A)
    if un and any(lo):
        close(np.abs(a[a != 0]), np.ones((a != 0).sum()), 1e-6, 1, "amplitudes")
    return {"nontrivial": max(A) > 14 and max(B) > 2, "labels": ["cubic" if len(set(A)) == 1 else "non-cubic", "odd" if any(n % 2 for n in A) else "even"]}


FAMILIES = [{"name": "refine", "what": "shared modes of two meshes", "strategy": strategy, "weight": 2, "max_examples": {"quick": 1500, "thorough": 40000}},
            {"name": "huge", "what": "parts of a large mesh and a small one, opposite modes", "strategy": huge_strategy, "weight": 1, "max_examples": {"quick": 300, "thorough": 6000}}]
