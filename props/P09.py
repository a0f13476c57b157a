"""P09: resampling in configuration space, preview and transposition."""
from pmbase import *

RULE = ("A random real field over 1 to 6 (thorough: 8) ranks, brought to a mesh of any other side lengths by readout or painting with a window, previewed on any axes in any order, or transposed. "
        "Non-trivial: the meshes differ (resampling), axes are dropped or permuted (preview, transposition).")
ASSUMPTIONS = ["Both meshes have the same box, dimension and communicator.",
               "Points at a jump of the window (nearest grid point at half a cell) may be given to either side: such points are left out."]
BUDGET = {"quick": 30, "thorough": 400}
WINS = [None, "cic", "tsc", "pcs", "linear", "quadratic", "cubic", "lanczos2", "lanczos3", "acg4", "db6", "sym6", "nnb"]


def other_mesh(draw, N):
    st = S()
    k = draw(st.sampled_from(["any", "near", "double", "half", "triple"]))
    hi = {2: 16, 3: 9, 4: 5}[len(N)]
    if k == "any":
        return [draw(st.integers(1, hi)) for _ in N]
    if k == "near":
        return [max(1, n + draw(st.integers(-2, 2))) for n in N]
    if k == "double":
        return [2 * n for n in N]
    if k == "half":
        return [max(1, n // 2) for n in N]
    return [3 * n if len(N) == 2 else n + 1 for n in N]


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dtypes=("f8", "f8", "f4", "c16", "c8"), dims=(2, 2, 3, 3, 4))
        c["M"] = other_mesh(draw, c["N"])
        c["win"] = draw(st.sampled_from(WINS))
        c["own"] = draw(st.sampled_from(["cic", "tsc", "pcs"]))
        c["keep"] = draw(st.sampled_from([True, False, None]))
        c["how"] = draw(st.sampled_from(["upsample", "downsample"]))
        c["mdtype"] = draw(st.sampled_from([c["dtype"], "c16" if is_complex(c["dtype"]) else "f8"]))
        c["np2"] = draw(st.sampled_from([None] + meshes(c["nranks"], len(c["N"])) + full_meshes(c["nranks"], len(c["N"]))[:2]))
        c["vseed"] = draw(seeds())
        c["const"] = draw(st.integers(0, 5)) == 0
        return c
    return make()


def matrix(how, win, n, m):
    """Along one axis, of n points to m: the matrix, and which rows (upsampling)
    or columns (downsampling) are at no jump of the window."""
    import numpy as np
    if how == "upsample":
        g = np.arange(m) * (n / m)
        A = np.array([weights1d(win, x, n, n, 1.0) for x in g]).reshape(m, n)
    else:
        g = np.arange(n) * (m / n)
        A = np.array([weights1d(win, x, m, m, 1.0) for x in g]).reshape(n, m).T
    return A, smooth_frac(g, win, 1.0)


def resized(full, how, win, N, M):
    import numpy as np
    out = full.astype("c16" if full.dtype.kind == "c" else "f8")
    ok = np.ones(M, bool)
    for d, (n, m) in enumerate(zip(N, M)):
        A, good = matrix(how, win, n, m)
        out = np.moveaxis(np.tensordot(A, out, axes=(1, d)), 0, d)
        if how == "upsample":
            row = good
        else:
            # a point that a jump may or may not reach
            if good.all():
                row = np.ones(m, bool)
            else:
                row = np.zeros(m, bool)
        ok &= row.reshape([-1 if e == d else 1 for e in range(len(M))])
    return out, ok


def check_resize(c, comm):
    import numpy as np
    N, M = c["N"], c["M"]
    pm1 = make_pm(c, comm, resampler=c["own"])
    pm2 = make_pm(c, comm, Nmesh=M, np=c["np2"], dtype=c["mdtype"], resampler=c["own"])
    full = values(N, c["dtype"], c["vseed"])
    if c["const"]:
        full = full * 0 + np.asarray(1.75, full.dtype)
    f = put(pm1.create(type="real"), full)
    kw = {}
    if c["win"]:
        kw["resampler"] = c["win"]
    if c["keep"] is not None:
        kw["keep_mean"] = c["keep"]
    r = (pm2.upsample if c["how"] == "upsample" else pm2.downsample)(f, **kw)
    require(kind_of(r) == "real" and r.pm is pm2, "%s made a %s of another mesh", c["how"], type(r).__name__)
    equal(f.value, full[f.slices], "the source after %s", c["how"])
    win = c["win"] or c["own"]
    want, ok = resized(full, c["how"], win, N, M)
    ratio = np.prod(np.array(N, "f8") / np.array(M))
    if c["how"] == "upsample" and not c["keep"]:
        want = want * ratio
    if c["how"] == "downsample" and c["keep"]:
        want = want / ratio
    single = "f4" in (c["dtype"], c["mdtype"]) or "c8" in (c["dtype"], c["mdtype"])
    t = 1e-4 if single else 1e-10
    if win in WAVELET:
        t = max(t, 1e-8)
    if win in TABLE:
        t = max(t, 1e-3)        # tabulated kernels
    got = gather(r, comm)
    what = "%s with %s from %s to %s on %d ranks" % (c["how"], win, N, M, comm.size)
    sc = np.abs(full).max() * max(1, 1 / ratio, ratio) * 4 + np.abs(want).max()
    close(got[ok], want[ok], t, sc, what)
    # on one process
    one = put(self_pm(c, resampler=c["own"]).create(type="real"), full)
    p = self_pm(c, Nmesh=M, dtype=c["mdtype"], resampler=c["own"])
    alone = (p.upsample if c["how"] == "upsample" else p.downsample)(one, **kw)
    close(got[ok], np.array(alone.value)[ok], 1e-4 if single else 1e-10, sc, what + " and on one")
    if win in ("cic", "tsc", "pcs", "linear", "quadratic", "cubic") or (win == "nnb" and ok.all()):
        if c["how"] == "downsample":
            close(r.csum() * (ratio if c["keep"] else 1.0), full.astype("c16").sum() if is_complex(c["dtype"]) else full.astype("f8").sum(), max(t, 1e-10), np.abs(full).sum() + 1, "total kept by " + what)
        elif c["const"]:
            close(r.cmean() / (1.0 if c["keep"] else ratio), 1.75, max(t, 1e-10), 2.0, "constant kept by " + what)
    return {"nontrivial": list(N) != list(M) and bool(ok.any()), "labels": labels(c) + [c["how"], "win:" + win]}


def preview_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dtypes=("f8", "f8", "f4", "c16", "c8"), dims=(2, 3, 3, 4))
        nd = len(c["N"])
        perm = draw(st.permutations(range(nd)))
        c["axes"] = draw(st.sampled_from([None, "full", "full", "part", "part", "one"]))
        c["perm"] = list(perm)
        c["keepn"] = draw(st.integers(1, max(1, nd - 1)))
        c["as"] = draw(st.sampled_from(["list", "tuple", "array"]))
        c["type"] = draw(st.sampled_from(TYPES))
        c["vseed"] = draw(seeds())
        k = draw(st.sampled_from([None, None, "same", "int", "list", "turned"]))
        c["M"] = None if k is None else draw(st.permutations(c["N"])) if k == "turned" else list(c["N"]) if k == "same" else draw(st.integers(1, 8)) if k == "int" else other_mesh(draw, c["N"])
        c["method"] = draw(st.sampled_from([None, None, "upsample", "downsample"]))
        c["win"] = draw(st.sampled_from([None, "cic", "tsc", "pcs"]))
        return c
    return make()


def check_preview(c, comm):
    import numpy as np
    N = c["N"]
    nd = len(N)
    pm = make_pm(c, comm)
    full = values(N, c["dtype"], c["vseed"])
    f = make_field(pm, c["type"], full, c)
    before = f.value.copy()
    axes = {None: None, "full": c["perm"], "part": c["perm"][:c["keepn"]], "one": c["perm"][0]}[c["axes"]]
    kw = {}
    if axes is not None:
        kw["axes"] = axes if c["axes"] == "one" else {"list": list, "tuple": tuple, "array": np.array}[c["as"]](axes)
    if c["M"] is not None:
        kw["Nmesh"] = np.array(c["M"]) if c["as"] == "array" and not isinstance(c["M"], int) else c["M"]
    if c["method"]:
        kw["method"] = c["method"]
    if c["win"]:
        kw["resampler"] = c["win"]
    got = f.preview(**kw)
    equal(f.value, before, "the field after preview")
    require(got.dtype == np.dtype(c["dtype"]), "preview of a field of type %s has type %s", c["dtype"], got.dtype)
    want = full.astype("c16" if is_complex(c["dtype"]) else "f8")
    M = [c["M"]] * nd if isinstance(c["M"], int) else c["M"]
    if M is not None and list(M) != list(N):
        how = c["method"] or ("downsample" if any(m < n for m, n in zip(M, N)) else "upsample")
        want, ok = resized(full, how, c["win"] or "cic", N, M)
        if how == "downsample":
            want = want / np.prod(np.array(N, "f8") / np.array(M))
    ax = list(range(nd)) if axes is None else [axes] if c["axes"] == "one" else list(axes)
    drop = [d for d in range(nd) if d not in ax]
    want = want.transpose(ax + drop).sum(axis=tuple(range(len(ax), nd)))
    t = 1e-10 if c["dtype"] in ("f8", "c16") else 1e-4
    close(np.asarray(got), want, t, np.abs(full).sum() + 1, "preview of a %s field of mesh %s, axes %s, Nmesh %s on %d ranks", c["type"], N, axes, M, comm.size)
    return {"nontrivial": bool(c["axes"] is not None and c["perm"] != list(range(nd)) or M is not None and list(M) != list(N)),
            "labels": labels(c) + ["axes:%s" % c["axes"], "resized" if M is not None else "full size"]}


def transpose_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dtypes=("f8", "f8", "f4", "c16", "c8"))
        c["perm"] = list(draw(st.permutations(range(len(c["N"])))))
        c["as"] = draw(st.sampled_from(["list", "tuple", "array"]))
        c["vseed"] = draw(seeds())
        return c
    return make()


def check_transpose(c, comm):
    import numpy as np
    pm = make_pm(c, comm)
    full = values(c["N"], c["dtype"], c["vseed"])
    f = put(pm.create(type="real"), full)
    axes = {"list": list, "tuple": tuple, "array": np.array}[c["as"]](c["perm"])
    g = f.ctranspose(axes)
    equal(g.Nmesh, np.array(c["N"])[c["perm"]], "mesh of the transposed field")
    equal(g.BoxSize, np.array(c["L"])[c["perm"]], "box of the transposed field")
    equal(gather(g, comm), full.transpose(c["perm"]), "field of mesh %s transposed to %s on %d ranks" % (c["N"], c["perm"], comm.size))
    equal(f.value, full[f.slices], "the field after ctranspose")
    return {"nontrivial": c["perm"] != sorted(c["perm"]), "labels": labels(c)}


def check(case, comm):
    return {"resize": check_resize, "preview": check_preview, "transpose": check_transpose}[case["family"]](case, comm)


FAMILIES = [
    {"name": "resize", "what": "upsample and downsample against the window, and one process", "strategy": strategy, "weight": 2, "max_examples": {"quick": 800, "thorough": 30000}},
    {"name": "preview", "what": "whole field, projections, permutations, resized", "strategy": preview_strategy, "weight": 1, "max_examples": {"quick": 600, "thorough": 20000}},
    {"name": "transpose", "what": "permuted axes", "strategy": transpose_strategy, "weight": 1, "max_examples": {"quick": 400, "thorough": 10000}},
]
