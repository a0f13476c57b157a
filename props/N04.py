"""N04: amplitudes, phases and statistics of white noise."""
from nbase import *

RULE = ("amplitude: a mesh in 1 to 3 dimensions and a seed. statistics: a mesh of at least 6 modes a side in three dimensions and a seed; the modes are tested for "
        "exponential power, uniform phase, zero mean and no correlation with the modes they could be confused with (neighbours, mirrored and exchanged axes, next seed), "
        "at thresholds a true Gaussian field exceeds less than once in 1e9 cases. Non-trivial: more than 50 independent modes.")
ASSUMPTIONS = ["A wrong distribution is seen only where it shifts a statistic by more than about 7 / sqrt(number of modes)."]
BUDGET = {"quick": 25, "thorough": 300}


def amp_strategy(tier):
    st = S()
    hi = 24 if tier == "thorough" else 14
    return st.sampled_from([3, 3, 3, 2, 1]).flatmap(lambda nd: st.fixed_dictionaries(
        {"N": mesh_sizes(nd, hi), "seed": noise_seeds()}))


def check_amp(case, comm):
    import numpy as np
    N, seed = case["N"], case["seed"]
    g, u = whole(N, seed, False), whole(N, seed, True)
    sc = np.broadcast_to(self_conjugate(N), u.shape)
    zero = np.zeros(u.shape, bool)
    zero[(0,) * len(N)] = True
    close(np.abs(u[~zero]), np.ones(u.size - 1), 1e-12, 1, "amplitude of unitary modes of %s", N)
    big = ~sc & (np.abs(g) > 1e-6)
    close(u[big], g[big] / np.abs(g[big]), 1e-9, 1, "phases of unitary and Gaussian noise of %s", N)
    require((~sc & (g == 0)).sum() == 0, "empty Gaussian modes")
    for un, x in ((False, g), (True, u)):
        s = whole(N, seed, un, "c8")
        ok = np.ones(s.shape, bool) if not un or len(N) == 3 else np.abs(g) > 1e-3
        close(s[ok], x[ok], 3e-6 if len(N) == 3 else 1e-3, np.maximum(np.abs(x[ok]), 1), "single and double precision of %s", N)
    return {"nontrivial": bool((~sc).sum() > 50), "labels": ["dim:%d" % len(N), "odd" if any(n % 2 for n in N) else "even"]}


def stat_strategy(tier):
    st = S()
    hi = 32 if tier == "thorough" else 20
    return st.fixed_dictionaries({"N": mesh_sizes(3, hi, 6), "seed": noise_seeds(), "unitary": st.sampled_from([False, False, True]),
                                  "c8": st.booleans()})


def ks(x):
    import numpy as np
    x = np.sort(x)
    n = len(x)
    i = np.arange(n)
    return max(np.max((i + 1) / n - x), np.max(x - i / n)) * np.sqrt(n)


def check_stat(case, comm):
    import numpy as np
    N, seed, un = case["N"], case["seed"], case["unitary"]
    dt = "c8" if case["c8"] else "c16"
    h = whole(N, seed, un, dt, half=True).astype("c16")
    n0, n1, n2 = N
    # of each pair of conjugate modes one; none that is its own conjugate
    ind = np.zeros(h.shape, bool)
    ind[:, :, 1:(n2 - 1) // 2 + 1] = True
    f0, f1 = freq(n0)[:, None], freq(n1)[None, :]
    plane = ((f0 > 0) & (2 * f0 != n0)) | (((f0 == 0) | (2 * f0 == -n0)) & (f1 > 0))
    plane = plane | np.zeros_like(ind[:, :, 0])
    ind[:, :, 0] = plane
    if n2 % 2 == 0:
        ind[:, :, n2 // 2] = plane
    for what, sel in (("all", ind), ("those of the zero and Nyquist planes", ind & (np.arange(h.shape[2]) % max(n2 // 2, 1) == 0))):
        d = h[sel]
        M = len(d)
        if M < 20:
            continue
        ph = np.angle(d) / (2 * np.pi) % 1.0
        require(ks(ph) < 3.5, "phases of %s modes of %s, seed %d are not uniform (KS %.2f)", what, N, seed, ks(ph))
        require(abs(d.mean()) < 7 / np.sqrt(M), "mean %s of %s modes of %s, seed %d", d.mean(), what, N, seed)
        require(abs((d * d).mean()) < 10 / np.sqrt(M), "mean square %s of %s modes of %s, seed %d", (d * d).mean(), what, N, seed)
        if not un:
            P = np.abs(d) ** 2
            # the mean of exponential variables: Chernoff bound far below 1e-9 at these widths
            m = P.mean()
            require(M * (m - 1 - np.log(m)) < 25, "mean power %.4f of %d of %s modes of %s, seed %d", m, M, what, N, seed)
            require(ks(1 - np.exp(-P)) < 3.5, "power of %s modes of %s, seed %d is not exponential (KS %.2f)", what, N, seed, ks(1 - np.exp(-P)))
    # correlations
    full = whole(N, seed, un, dt).astype("c16")
    nxt = whole(N, seed + 1 if seed < 2 ** 31 - 1 else 1, un, dt).astype("c16")
    ok = ~np.broadcast_to(self_conjugate(N), full.shape)
    f = [np.arange(n) for n in N]
    ii = np.meshgrid(*f, indexing="ij")

    def look(jj, b, what):
        jj = [j % n for j, n in zip(jj, N)]
        x, y = full, b[jj[0], jj[1], jj[2]]
        good = ok & ok[jj[0], jj[1], jj[2]]
        if b is full:
            diff = (jj[0] != ii[0]) | (jj[1] != ii[1]) | (jj[2] != ii[2])
            conj = ((jj[0] + ii[0]) % n0 == 0) & ((jj[1] + ii[1]) % n1 == 0) & ((jj[2] + ii[2]) % n2 == 0)
            good = good & diff & ~conj
        M = int(good.sum())
        if M < 60:
            return
        # each pair may be counted twice, and again as its conjugates
        lim = 7 * 2 / np.sqrt(M)
        for t, c in (("", (x[good] * np.conj(y[good])).mean()), (" (conjugate)", (x[good] * y[good]).mean())):
            require(abs(c) < lim, "correlation %.3f of modes with %s%s, mesh %s, seed %d", abs(c), what, t, N, seed)
        if not un:
            c = ((np.abs(x[good]) ** 2 - 1) * (np.abs(y[good]) ** 2 - 1)).mean()
            require(abs(c) < 3 * lim, "correlation %.3f of the powers of modes with %s, mesh %s, seed %d", c, what, N, seed)
    i, j, k = ii
    for what, jj in (("the next on axis 0", [i + 1, j, k]), ("the next on axis 1", [i, j + 1, k]), ("the next on axis 2", [i, j, k + 1]),
                     ("those at -k0", [-i, j, k]), ("those at -k1", [i, -j, k]), ("those at -k2", [i, j, -k])):
        look(jj, full, what)
    if n0 == n1:
        look([j, i, k], full, "axes 0 and 1 exchanged")
        look([-j, i, k], full, "axes 0 and 1 exchanged and reflected")
    if n0 == n1 == n2:
        look([k, j, i], full, "axes 0 and 2 exchanged")
    look([i, j, k], nxt, "those of the next seed")
    return {"nontrivial": True, "labels": ["odd" if any(n % 2 for n in N) else "even", "unitary" if un else "gaussian"]}


def check(case, comm):
    return {"amplitude": check_amp, "statistics": check_stat}[case["family"]](case, comm)


FAMILIES = [
    {"name": "amplitude", "what": "unit amplitudes, phases, precision", "strategy": amp_strategy, "weight": 1, "max_examples": {"quick": 800, "thorough": 20000}},
    {"name": "statistics", "what": "distribution and correlations", "strategy": stat_strategy, "weight": 2, "max_examples": {"quick": 800, "thorough": 20000}},
]
