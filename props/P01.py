"""P01: coordinates and the uniform particle grid."""
from pmbase import *

RULE = ("A mesh of any side lengths in 2 to 4 dimensions over 1 to 6 (thorough: 8) ranks and any process mesh, including more ranks than rows. "
        "Non-trivial: more than one rank, or sides of different lengths.")
ASSUMPTIONS = ["pfft-python 0.1.12 is wrapped as described in DESIGN.md; it does not do meshes in one dimension; for process meshes of full dimension NumPy transforms stand in."]
BUDGET = {"quick": 30, "thorough": 300}


def coord_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dtypes=("f8", "f8", "f4", "c16", "c8"), big=True)
        c["spoil"] = draw(st.booleans())
        return c
    return make()


def check_coords(c, comm):
    import numpy as np
    pm = make_pm(c, comm)
    nd = len(c["N"])
    t = 1e-6 if c["dtype"] in ("f4", "c8") else 1e-12
    for ty in TYPES:
        f = pm.create(type=ty)
        shape = cshape(c["N"], ty, c["dtype"])
        require(tuple(int(x) for x in f.cshape) == shape, "%s: global shape %s, expected %s", ty, f.cshape, shape)
        require(int(f.csize) == np_prod(shape), "%s: size of the whole field %s, expected %d", ty, f.csize, np_prod(shape))
        require(int(f.size) == np_prod(f.shape) and comm.allreduce(int(f.size)) == np_prod(shape), "%s: size of the part %s of %s", ty, f.size, f.shape)
        require(f.compressed == (ty != "real" and shape[-1] != c["N"][-1]), "%s: compressed is %s", ty, f.compressed)
        f.value[...] = 1
        gather(f, comm, ty)
        require(tuple(f.shape) == tuple(s.stop - s.start for s in f.slices), "%s: slices %s of a part of shape %s", ty, f.slices, f.shape)
        require(all(int(a) == s.start for a, s in zip(f.start, f.slices)) or f.size == 0, "%s: start %s and slices %s", ty, f.start, f.slices)

        def verify(x, i, which):
            require(len(x) == nd and len(i) == nd, "%s: %d coordinate arrays", ty, len(x))
            for d in range(nd):
                want = [1] * nd
                want[d] = f.shape[d]
                require(x[d].shape == tuple(want) and i[d].shape == tuple(want), "%s: coordinates of axis %d have shapes %s and %s", ty, d, x[d].shape, i[d].shape)
                require(i[d].dtype.kind == "i", "%s: indices of type %s", ty, i[d].dtype)
                if f.size == 0:
                    continue
                g = np.arange(f.slices[d].start, f.slices[d].stop)
                equal(i[d].ravel(), g, "%s %s: indices along axis %d", ty, which, d)
                N, L = c["N"][d], c["L"][d]
                fr = freqs(N)[g]
                unit = L / N if ty == "real" else 2 * np.pi / L
                close(x[d].ravel(), fr * unit, t, unit * N, "%s %s: coordinates along axis %d of mesh %s, box %s", ty, which, d, c["N"], c["L"])
        verify(f.x, f.i, "field")
        x, i = pm.create_coords(ty), pm.create_coords(ty, return_indices=True)
        verify(x, i, "create_coords")
        if c["spoil"]:
            for a in list(x) + list(i) + list(f.x) + list(f.i):
                a[...] = -12345
            g = pm.create(type=ty)
            verify(g.x, g.i, "field made after others' coordinates were overwritten")
            verify(pm.create_coords(type(g)), pm.create_coords(type(g), return_indices=True), "create_coords after overwriting")
    return {"nontrivial": comm.size > 1 or len(set(c["N"])) > 1, "labels": labels(c)}


def grid_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dtypes=("f8", "f8", "f4", "c16", "c8"), big=True)
        nd = len(c["N"])
        c["shift"] = draw(st.one_of(st.sampled_from([0, 0.0, 0.5, None]), dyadic(-3, 3, 8), st.lists(dyadic(-1, 1, 16), min_size=nd, max_size=nd)))
        c["gtype"] = draw(st.sampled_from([None, None, "f8", "f4"]))
        c["array"] = draw(st.booleans())
        return c
    return make()


def check_grid(c, comm):
    import numpy as np
    pm = make_pm(c, comm)
    nd = len(c["N"])
    shift = c["shift"]
    if isinstance(shift, list) and c["array"]:
        shift = np.array(shift)
    kw = {} if shift is None else {"shift": shift}
    if c["gtype"]:
        kw["dtype"] = c["gtype"]
    pos = np.asarray(pm.generate_uniform_particle_grid(**kw))
    again, ids = pm.generate_uniform_particle_grid(return_id=True, **kw)
    again = np.asarray(again)
    equal(again, pos, "the grid with and without identities")
    want = np.dtype(c["gtype"]) if c["gtype"] else np.zeros(0, pm.dtype).real.dtype
    require(pos.dtype == want, "grid of type %s, not %s", pos.dtype, want)
    ids = np.asarray(ids)
    f = pm.create(type="real")
    require(pos.shape == (f.size, nd) and ids.shape == (f.size,), "grid of shape %s and identities %s for %d local points", pos.shape, ids.shape, f.size)
    N, L = np.array(c["N"]), np.array(c["L"])
    s = np.broadcast_to(0.5 if c["shift"] is None else c["shift"], nd)
    t = 1e-6 if "f4" in (c["gtype"], c["dtype"]) or c["dtype"] == "c8" else 1e-12
    g = pos.astype("f8") / (L / N) - s
    i = np.round(g).astype(int)
    close(pos, (i + s) * (L / N), t, L + np.abs(s * L / N), "positions off the lattice")
    lo = np.array([x.start for x in f.slices])
    hi = np.array([x.stop for x in f.slices])
    require(((i >= lo) & (i < hi)).all(), "a particle of the grid is not at a local mesh point: %s in %s", i[:3].tolist(), f.slices)
    alli = np.concatenate(comm.allgather(i))
    allid = np.concatenate(comm.allgather(ids))
    n = int(np.prod(N))
    flat = np.ravel_multi_index(tuple(alli.T), c["N"]) if len(alli) else np.zeros(0, int)
    equal(np.sort(flat), np.arange(n), "mesh points that have a particle")
    equal(np.sort(allid), np.arange(n), "identities")
    # the identity depends on the point only
    one = self_pm(c)
    p1, id1 = one.generate_uniform_particle_grid(return_id=True, **kw)
    g1 = np.round(np.asarray(p1, "f8") / (L / N) - s).astype(int)
    table = np.empty(n, "i8")
    table[np.ravel_multi_index(tuple(g1.T), c["N"])] = id1
    equal(allid, table[flat], "identities on %d ranks and on one", comm.size)
    # integer coordinates
    m = pm.mesh_coordinates()
    equal(np.asarray(m).astype(int), i, "mesh_coordinates")
    return {"nontrivial": comm.size > 1 or len(set(c["N"])) > 1, "labels": labels(c) + ["shift:" + type(c["shift"]).__name__]}


def check(case, comm):
    return {"coords": check_coords, "grid": check_grid}[case["family"]](case, comm)


FAMILIES = [
    {"name": "coords", "what": "parts tile the mesh; indices, positions and wavenumbers", "strategy": coord_strategy, "weight": 1, "max_examples": {"quick": 500, "thorough": 10000}},
    {"name": "grid", "what": "uniform particle grid and identities", "strategy": grid_strategy, "weight": 1, "max_examples": {"quick": 500, "thorough": 10000}},
]
