"""P10: derivatives, forward and backward."""
from pmbase import *

RULE = ("particles: random particles, window, masses, field and directions over 1 to 6 (thorough: 8) ranks, with the products compared to each other, to dense Jacobians built from the window's formula, and to finite differences. "
        "fields: transforms, inner products and compression on random fields. Non-trivial: at least one particle and a mesh of several points.")
ASSUMPTIONS = ["Where a window or its derivative jumps, the dense Jacobian is not compared (either side's value is right), the duality is.",
               "Without a layout each rank's particles act on that rank's part of the mesh only."]
BUDGET = {"quick": 40, "thorough": 500}
WINS = ["cic", "tsc", "pcs", "linear", "quadratic", "cubic", "lanczos2", "db6", "acg4"]


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dims=(2, 2, 3, 3, 4), hi=None, lo=1, dtypes=("f8", "f8", "f8", "f4"))
        nd = len(c["N"])
        c["op"] = draw(st.sampled_from(["paint", "readout"]))
        c["win"] = draw(st.sampled_from(WINS if nd < 4 else WINS[:6]))
        c["how"] = draw(st.sampled_from(["name", "default"]))
        kinds = ("uniform", "far", "cell", "half", "dyadic") if c["exact"] else ("uniform", "far")
        c["pts"] = draw(points(maxn=3, kinds=kinds, bulk=12))
        c["layout"] = draw(st.sampled_from([True, True, True, False]))
        c["gradient"] = draw(st.integers(0, nd - 1)) if c["op"] == "readout" and draw(st.integers(0, 3)) == 0 else None
        c["mass"] = draw(st.sampled_from(["each", "each", "scalar", "default", "f4"]))
        c["wrt"] = draw(st.sampled_from(["both", "both", "both", "first", "second"]))
        c["out1"] = draw(st.sampled_from(["none", "given", "inplace", "self"]))
        c["out2"] = draw(st.sampled_from(["none", "given", "inplace"]))
        c["units"] = draw(st.sampled_from([None, None, None, "grid", "half"]))
        c["lseed"] = draw(seeds())
        return c
    return make()


def dense(c, u, diff=None):
    """(particles, mesh) weights, or their derivative with position along diff."""
    import numpy as np
    N = c["N"]
    # the unit of the positions, so that N / L of them make one cell
    L = np.array({"grid": N, "half": 2 * np.array(c["L"])}.get(c.get("units"), c["L"]), "f8")
    W = np.ones((len(u),) + tuple(N))
    ok = np.ones(len(u), bool)
    for d in range(len(N)):
        ok &= smooth_frac(u[:, d], c["win"], 1.0, diff=True)
        rows = np.array([weights1d(c["win"], x, N[d], N[d], 1.0, scale=N[d] / L[d], diff=diff == d) for x in u[:, d]]).reshape(len(u), N[d])
        W = W * rows.reshape([len(u)] + [N[d] if e == d else 1 for e in range(len(N))])
    return W, ok


def check_particles(c, comm):
    import numpy as np
    N, nd = c["N"], len(c["N"])
    L = np.array({"grid": N, "half": 2 * np.array(c["L"])}.get(c["units"], c["L"]), "f8")
    rng = np.random.RandomState(c["lseed"])
    u = make_points(c["pts"], N)
    n = len(u)
    owner = rng.randint(0, comm.size, size=n)
    mine = np.flatnonzero(owner == comm.rank)
    X = u * (L / N)
    M = rng.uniform(-1, 3, size=n)
    VP = rng.normal(size=(n, nd)) * (L / N)
    VM = rng.normal(size=n)
    VR = rng.normal(size=n)
    A = rng.normal(size=N)
    B = rng.normal(size=N)
    if c["mass"] in ("scalar", "default"):
        M[:] = 1.0 if c["mass"] == "default" else -0.75
    if c["mass"] == "f4":
        M = M.astype("f4").astype("f8")
    pm = make_pm(c, comm, resampler=c["win"] if c["how"] == "default" else "cic")
    kw = {} if c["how"] == "default" else {"resampler": c["win"]}
    pos = X[mine].copy()
    if c["units"] is not None:
        kw["transform"] = pm.affine_grid if c["units"] == "grid" else pm.affine.rescale(0.5)
    if c["layout"]:
        kw["layout"] = pm.decompose(pos, smoothing=c["win"], transform=kw.get("transform"))
    f, v = put(pm.create(type="real"), A.astype(c["dtype"])), put(pm.create(type="real"), B.astype(c["dtype"]))
    A, B = A.astype(c["dtype"]).astype("f8"), B.astype(c["dtype"]).astype("f8")
    t = 1e-10 if c["dtype"] == "f8" else 2e-4
    if c["win"] in TABLE:
        td = 2e-2
    elif c["win"] in WAVELET:
        td = 1e-6
    else:
        td = t
    grad = c["gradient"]
    first = c["wrt"] in ("both", "first")       # positions
    second = c["wrt"] in ("both", "second")     # masses, or the field
    if grad is not None:
        first, second = False, True
        kw["gradient"] = grad
    big = np.abs(A).max() + np.abs(B).max()
    psum = comm.allreduce
    whole = c["layout"] or comm.size == 1
    W, ok = dense(c, u)
    D = [dense(c, u, d)[0] for d in range(nd)]
    flat = lambda a: a.reshape(n, A.size)
    s = (N / L)
    wmax = 1.0 + max([np.abs(W).max() if n else 0] + [np.abs(x).max() * (L[d] / N[d]) if n else 0 for d, x in enumerate(D)])
    scale = (n + 1) * big * wmax * 20
    what = "%s with %s on %d ranks" % (c["op"], c["win"], comm.size)

    def target(mode, src, shape):
        """An output argument, and the array to look at afterwards."""
        if mode == "none":
            return None
        if mode == "given":
            a, block, mask = strided(shape, "f8", ["C", "F", "step"][c["lseed"] % 3], fill=99, guard=-9)
            return a
        if mode == "self":
            return src
        return Ellipsis

    if c["op"] == "paint":
        massarg = {"each": M[mine].copy(), "f4": M[mine].astype("f4"), "scalar": -0.75, "default": None}[c["mass"]]
        mk = {} if massarg is None else {"mass": massarg}
        vp, vm = VP[mine].copy(), VM[mine].copy()
        out = pm.create(type="real", value=5) if c["out1"] == "given" else None
        j = pm.paint_jvp(pos, v_pos=vp if first else None, v_mass=vm if second else None, out=out, **dict(mk, **kw))
        require(out is None or j is out, "paint_jvp did not use the given output")
        equal(pos, X[mine], "positions after paint_jvp")
        # backward
        o2 = c["out2"] if not (c["out2"] == "inplace" and c["mass"] not in ("each",)) else "none"
        a1 = target(c["out1"], pos, pos.shape) if first else False
        a2 = (massarg if o2 == "inplace" and c["lseed"] % 2 else target(o2, massarg, (len(mine),))) if second else False
        r1, r2 = pm.paint_vjp(v, pos, out_pos=a1, out_mass=a2, **dict(mk, **kw))
        require((r1 is False) == (not first) and (r2 is False) == (not second), "%s: vjp returned %s, %s", what, type(r1), type(r2))
        if first:
            if c["out1"] in ("inplace", "self"):
                require(r1 is pos, "the gradient was not written to the positions")
            elif c["out1"] == "given":
                require(r1 is a1, "the gradient was not written to the given array")
            if c["out1"] in ("none", "given"):
                equal(pos, X[mine], "positions after paint_vjp")
        if second and o2 == "inplace":
            require(r2 is massarg, "the gradient was not written to the masses")
        elif second and isinstance(massarg, np.ndarray):
            equal(massarg, M[mine].astype(massarg.dtype), "masses after paint_vjp")
        left = np.sum(B * gather(j, comm).astype("f8"))
        right = psum((np.sum(np.asarray(r1, "f8") * vp) if first else 0) + (np.sum(np.asarray(r2, "f8") * vm) if second else 0))
        close(left, right, t, scale * np.sqrt(A.size), "%s: <v, J w> and <J^T v, w>", what)
        equal(v.value, B.astype(c["dtype"])[v.slices], "the field after vjp")
        if whole and ok.all():
            want = np.zeros(N)
            if first:
                want += sum(np.tensordot(M * VP[:, d], D[d], 1) for d in range(nd))
            if second:
                want += np.tensordot(VM, W, 1)
            close(gather(j, comm), want, td, scale, "%s: forward product", what)
            if first:
                g = np.stack([flat(D[d]) @ B.ravel() * M for d in range(nd)], -1)[mine]
                close(np.asarray(r1) / s, g / s, td, scale * 5, "%s: gradient with position", what)
            if second:
                close(r2, (flat(W) @ B.ravel())[mine], td, scale * 5, "%s: gradient with mass", what)
    else:
        vp, vr = VP[mine].copy(), VR[mine].copy()
        j = f.readout_jvp(pos, v_self=v if second else None, v_pos=vp if first else None, **kw)
        equal(pos, X[mine], "positions after readout_jvp")
        a1 = target(c["out1"], pos, pos.shape) if first else False
        h = pm.create(type="real", value=7)
        a2 = {"none": None, "given": h, "inplace": Ellipsis}[c["out2"]] if second else False
        r2, r1 = f.readout_vjp(pos, vr, out_self=a2, out_pos=a1, **kw)
        require((r1 is False) == (not first) and (r2 is False) == (not second), "%s: vjp returned %s, %s", what, type(r2), type(r1))
        if first and c["out1"] in ("none", "given"):
            equal(pos, X[mine], "positions after readout_vjp")
        if first and c["out1"] in ("inplace", "self"):
            require(r1 is pos, "the gradient was not written to the positions")
        if second and c["out2"] == "inplace":
            require(r2 is f, "the gradient was not written to the field")
        else:
            equal(f.value, A.astype(c["dtype"])[f.slices], "the field after readout_vjp")
        if second and c["out2"] == "given":
            require(r2 is h, "the gradient was not written to the given field")
        equal(vr, VR[mine], "the cotangent after readout_vjp")
        left = psum(np.sum(vr * np.asarray(j, "f8")))
        right = (psum(np.sum(np.asarray(r1, "f8") * vp)) if first else 0) + (np.sum(gather(r2, comm).astype("f8") * B) if second else 0)
        gs = 1.0 if grad is None else N[grad] / L[grad]
        close(left, right, t, scale * np.sqrt(A.size) * gs, "%s: <v, J w> and <J^T v, w>", what)
        if whole and ok.all():
            want = np.zeros(n)
            P = W if grad is None else D[grad]
            if first:
                want += sum(flat(D[d]) @ A.ravel() * VP[:, d] for d in range(nd))
            if second:
                want += flat(P) @ B.ravel()
            close(j, want[mine], td, scale * 5 * gs, "%s: forward product", what)
            if first:
                g = np.stack([flat(D[d]) @ A.ravel() * VR for d in range(nd)], -1)[mine]
                close(np.asarray(r1) / s, g / s, td, scale * 5, "%s: gradient with position", what)
            if second:
                close(gather(r2, comm), np.tensordot(VR, P, 1), td, scale * gs, "%s: gradient with field", what)
    return {"nontrivial": bool(n > 0 and A.size > 1), "labels": labels(c) + ["op:" + c["op"], "win:" + c["win"], "out:" + c["out1"] + "/" + c["out2"],
            "gradient" if grad is not None else "value", "layout" if c["layout"] else "local", "units:%s" % c["units"]]}


def slope_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dims=(2, 2, 3, 3), dtypes=("f8",), lo=2)
        c["op"] = draw(st.sampled_from(["paint", "readout"]))
        c["win"] = draw(st.sampled_from(["tsc", "pcs", "quadratic", "cubic"]))
        c["pts"] = draw(points(maxn=3, kinds=("uniform", "far", "cell", "half") if c["exact"] else ("uniform", "far"), bulk=12))
        c["lseed"] = draw(seeds())
        return c
    return make()


def check_slope(c, comm):
    """Central differences along a direction of everything at once."""
    import numpy as np
    N, L, nd = c["N"], np.array(c["L"]), len(c["N"])
    rng = np.random.RandomState(c["lseed"])
    u = make_points(c["pts"], N)
    n = len(u)
    mine = np.flatnonzero(rng.randint(0, comm.size, size=n) == comm.rank)
    X, VP = u * (L / N), rng.uniform(-1, 1, size=(n, nd)) * (L / N)
    M, VM = rng.uniform(-1, 3, size=n), rng.normal(size=n)
    A, B = rng.normal(size=N), rng.normal(size=N)
    pm = make_pm(c, comm, resampler=c["win"])
    pos, vp = X[mine], VP[mine]
    h = 1e-5

    def value(e):
        p = pos + e * vp
        lay = pm.decompose(p)
        if c["op"] == "paint":
            return np.array(pm.paint(p, mass=M[mine] + e * VM[mine], layout=lay).value)
        return put(pm.create(type="real"), A + e * B).readout(p, layout=lay)
    fd = (value(h) - value(-h)) / (2 * h)
    lay = pm.decompose(pos)
    if c["op"] == "paint":
        j = pm.paint_jvp(pos, mass=M[mine], v_pos=vp, v_mass=VM[mine], layout=lay).value
    else:
        j = put(pm.create(type="real"), A).readout_jvp(pos, v_pos=vp, v_self=put(pm.create(type="real"), B), layout=lay)
    close(j, fd, 1e-4, (n + 1) * 30.0, "derivative of %s with %s on %d ranks against its slope", c["op"], c["win"], comm.size)
    return {"nontrivial": n > 0, "labels": labels(c) + ["op:" + c["op"], "win:" + c["win"]]}


def field_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dtypes=("f8", "f8", "f4"))
        c["op"] = draw(st.sampled_from(["c2r", "r2c", "cdot", "decompress"]))
        c["type"] = draw(st.sampled_from(TYPES[1:]))
        c["out"] = draw(st.sampled_from(["none", "given", "inplace"]))
        c["metric"] = draw(st.sampled_from([None, "linear", "band"]))
        c["v"] = draw(dyadic(-2, 2, 8))
        c["vseed"] = draw(seeds())
        return c
    return make()


def check_fields(c, comm):
    import numpy as np
    pm = make_pm(c, comm)
    N, ty = c["N"], c["type"]
    x, y = values(N, c["dtype"], c["vseed"]), values(N, c["dtype"], c["vseed"] + 1)
    FX, FY = modes(x), modes(y)
    t = 1e-11 if c["dtype"] == "f8" else 1e-4
    op, out = c["op"], c["out"]
    if op == "c2r":
        # v real; the product is a complex field
        v = put(pm.create(type="real"), x)
        if ty == "transposedcomplex":
            o = {"none": None, "given": pm.create(type=ty, value=3), "inplace": Ellipsis}[out]
        else:
            o = pm.create(type=ty, value=3)
        g = v.c2r_vjp(o) if o is not None else v.c2r_vjp()
        require(kind_of(g) == ty, "c2r_vjp made a %s", type(g).__name__)
        close(gather(g, comm), half(FX * x.size, N), t, np.abs(x).sum() + 1, "c2r_vjp")
        z = make_field(pm, ty, y, c)
        left = np.sum(x.astype("f8") * gather(z.c2r(), comm).astype("f8"))
        close(np.real(g.cdot(z)), left, t, np.abs(x).sum() * (np.abs(y).max() + 1) + 1, "<v, c2r w> and <c2r^T v, w>")
    elif op == "r2c":
        v = make_field(pm, ty, x, c)
        o = {"none": None, "given": pm.create(type="real", value=3), "inplace": Ellipsis}[out]
        g = v.r2c_vjp(o) if o is not None else v.r2c_vjp()
        require(kind_of(g) == "real", "r2c_vjp made a %s", type(g).__name__)
        close(gather(g, comm), x.astype("f8") / x.size, t, np.abs(x).max() + 1, "r2c_vjp")
        w = put(pm.create(type="real"), y)
        q = make_field(pm, ty, x, c)
        left = np.real(q.cdot(w.r2c(pm.create(type=ty))))
        close(g.cdot(w), left, t, (np.abs(x).max() + 1) * (np.abs(y).max() + 1), "<v, r2c w> and <r2c^T v, w>")
    elif op == "cdot":
        kf = max(2 * np.pi / l for l in c["L"])
        m = {None: None, "linear": lambda k: 1 + k / kf, "band": lambda k: 1 / (1 + (k / kf) ** 2)}[c["metric"]]
        kw = {} if m is None else {"metric": m}
        a, d = make_field(pm, ty, x, c), make_field(pm, ty, y, c)
        before = a.value.copy()
        g = a.cdot_vjp(c["v"], **kw)
        equal(a.value, before, "the field after cdot_vjp")
        K = np.sqrt(sum(k ** 2 for k in kgrid(N, c["L"], N)))
        Wt = m(K) if m else np.ones(N)
        s = (np.abs(FX) * np.abs(FY) * Wt).sum() * abs(c["v"]) + 1
        close(np.real(g.cdot(d)), c["v"] * np.real(a.cdot(d, **kw)), t * 10, s, "v <a, w> and <cdot^T v, w>")
        close(gather(g, comm), half(FX * Wt * c["v"], N), t * 10, s, "cdot_vjp")
    else:
        a = make_field(pm, ty, x, c)
        before = a.value.copy()
        o = {"none": None, "given": pm.create(type=ty, value=3), "inplace": Ellipsis}[out]
        g = a.decompress_vjp(o) if o is not None else a.decompress_vjp()
        if out == "given":
            require(g is o, "decompress_vjp did not use the given output")
        if out != "inplace":
            equal(a.value, before, "the field after decompress_vjp")
        idx = np.indices(N)
        selfc = np.ones(N, bool)
        for d in range(len(N)):
            selfc &= (-idx[d]) % N[d] == idx[d]
        want = half(FX * np.where(selfc, 1, 2), N)
        close(gather(g, comm), want, t, np.abs(want).max() + 1e-3, "decompress_vjp")
        # slope of a product along one stored mode
        rng = np.random.RandomState(c["vseed"])
        if out != "inplace":
            sh = cshape(N, ty)
            i = tuple(int(rng.randint(k)) for k in sh)
            z = make_field(pm, ty, y, c)
            for part in (0, 1):
                e1, e2 = z.copy(), z.copy()
                cur = z.cgetitem(i + (part,))
                h = 0.25
                e1.csetitem(i + (part,), cur + h)
                e2.csetitem(i + (part,), cur - h)
                slope = (np.real(a.cdot(e1)) - np.real(a.cdot(e2))) / (2 * h)
                got = g.cgetitem(i + (part,))
                if part == 1 and selfc[i]:
                    got = 0
                close(slope, got, t * 100, np.abs(FX).max() * np.abs(FY).sum() * 4 + 1, "slope along mode %s of mesh %s", i, N)
    return {"nontrivial": bool(np.prod(N) > 1), "labels": labels(c) + ["op:" + op, "field:" + ty]}


def check(case, comm):
    return {"particles": check_particles, "slope": check_slope, "fields": check_fields}[case["family"]](case, comm)


FAMILIES = [
    {"name": "particles", "what": "paint and readout: duality and dense Jacobians", "strategy": strategy, "weight": 3, "max_examples": {"quick": 1200, "thorough": 40000}},
    {"name": "slope", "what": "central differences", "strategy": slope_strategy, "weight": 1, "max_examples": {"quick": 300, "thorough": 10000}},
    {"name": "fields", "what": "transforms, inner products, compression", "strategy": field_strategy, "weight": 1, "max_examples": {"quick": 600, "thorough": 20000}},
]
