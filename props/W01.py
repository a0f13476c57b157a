"""W01: painting and reading out are adjoint, linear, particle by particle."""
from common import *
import W02

RULE = ("A case is a window, mesh, affine map, smoothing, positions and masses (as W02, all 24 windows, with "
        "or without a differentiation direction). Non-trivial: at least two particles and a non-zero "
        "read-out or painted value.")
ASSUMPTIONS = ["Sums are compared to 1e-11 (1e-5 for single-precision meshes) of the sum of absolute terms.",
               "Kernels are compared with themselves only, so kinks and jumps are included."]
BUDGET = {"quick": 25, "thorough": 400}

STEPS = ["concat", "permute", "single", "hold", "combine", "complex", "out", "masstype", "twice", "canvas", "canvas"]

# meshes of other types of numbers: done right or refused
CANVAS = [">f8", ">f4", "f2", "g", ">c16", "i8", "i4", "G", "readonly", "view"]


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        case = draw(W02.mesh_case(ALLWIN, 4, diff=True))
        case["mass"] = draw(st.sampled_from(["f8", "f4", "i8", "scalar", "none", "zero-d"]))
        case["what"] = draw(st.sampled_from(STEPS))
        case["canvas"] = draw(st.sampled_from(CANVAS))
        return case
    return make()


def masses(case, n):
    import numpy as np
    rng = np.random.RandomState(case["pts"]["seed"] + 1)
    m = rng.uniform(-2, 3, size=n)
    k = case["mass"]
    if k == "f4":
        m = m.astype("f4")
    elif k == "i8":
        m = rng.randint(-4, 5, size=n)
    elif k == "scalar":
        m = 1.75
    elif k == "zero-d":
        m = np.array(-0.5)
    elif k == "none":
        m = None
    full = np.ones(n) * (1.0 if m is None else np.asarray(m, "f8"))
    return m, full


def check(case, comm):
    import numpy as np
    w, tr, kw, pos, g, st, period = W02.setup(case)
    n = len(pos)
    shape = case["shape"]
    rng = np.random.RandomState(case["pts"]["seed"] + 5)
    m, full = masses(case, n)
    t = 1e-5 if case["dtype"] == "f4" else 1e-11
    kmax = max(float(np.max(W02.kmax(case, st))) if n else 1.0, 1e-3)

    def paint(pos, mass, kw=kw, start=None):
        real, _, _ = strided(shape, case["dtype"], case["layout"], 0)
        if start is not None:
            real[...] = start
        r = w.paint(real, pos, mass=mass, transform=tr, **kw)
        require(r is None or r is real, "paint returned %r", type(r))
        return real

    def sub(idx):
        k = dict(kw)
        if "hsml" in k and np.ndim(k["hsml"]):
            k["hsml"] = np.asarray(k["hsml"])[idx]
        return k

    f, _, _ = strided(shape, case["dtype"], case["layout"], 0)
    f[...] = rng.uniform(-1, 1, size=shape)
    keep = np.array(f, copy=True)
    pk = pos.copy()
    real = paint(pos, m)
    val = w.readout(f, pos, transform=tr, **kw)
    require(val.shape == (n,), "readout of %d particles has shape %s", n, val.shape)
    equal(f, keep, "readout changed the field")
    equal(pos, pk, "painting changed the positions")
    # bilinear form both ways
    lhs = float((real.astype("f8") * f.astype("f8")).sum())
    rhs = float((full * val).sum())
    mag = np.abs(full).sum() * kmax * f.size + 1e-300
    close(lhs, rhs, t, mag, "sum of field times painted mass against sum of mass times read-out (%s)", case["win"])
    what = case["what"]
    tot = max(np.abs(full).sum(), 1.0) * kmax
    if what == "concat":
        k = n // 2
        a = paint(pos[:k], full[:k], sub(slice(0, k)))
        b = paint(pos[k:], full[k:], sub(slice(k, None)))
        close(a.astype("f8") + b, real, t, tot, "painting in two groups")
        v = np.concatenate([w.readout(f, pos[:k], transform=tr, **sub(slice(0, k))),
                            w.readout(f, pos[k:], transform=tr, **sub(slice(k, None)))])
        equal(v, val, "read-out in two groups")
    elif what == "permute":
        p = rng.permutation(n)
        close(paint(pos[p], full[p], sub(p)), real, t, tot, "painting in another order")
        equal(w.readout(f, pos[p], transform=tr, **sub(p)), val[p], "read-out in another order")
    elif what == "single":
        acc = np.zeros(shape)
        for i in range(n):
            acc += paint(pos[i:i + 1], full[i:i + 1], sub(slice(i, i + 1)))
            v = w.readout(f, pos[i:i + 1], transform=tr, **sub(slice(i, i + 1)))
            equal(v[0], val[i], "read-out of particle %d alone", i)
        close(acc, real, t, tot, "painting particles one by one")
    elif what == "hold":
        s = rng.uniform(-3, 3, size=shape).astype(case["dtype"])
        close(paint(pos, m, start=s), s.astype("f8") + real, t, tot + 3, "painting onto existing values")
    elif what == "combine":
        m2 = rng.uniform(-2, 2, size=n)
        close(paint(pos, 2 * full - 3 * m2), 2 * real.astype("f8") - 3 * paint(pos, m2).astype("f8"), t,
              20 * tot + 20 * kmax * n, "painting a combination of masses")
        f2 = rng.uniform(-1, 1, size=shape).astype(case["dtype"])
        comb = (2 * f.astype("f8") - 3 * f2.astype("f8"))
        close(w.readout(comb, pos, transform=tr, **kw),
              2 * val - 3 * w.readout(f2, pos, transform=tr, **kw), t, kmax * f.size * 5,
              "read-out of a combination of fields")
    elif what == "complex":
        c = np.zeros(shape, "c8" if case["dtype"] == "f4" else "c16")
        c.imag = 0.25
        w.paint(c, pos, mass=m, transform=tr, **kw)
        close(c.real, real, t, tot, "painting onto a complex mesh")
        require((c.imag == 0.25).all(), "painting onto a complex mesh changed its imaginary part")
        c = f + 1j * rng.uniform(size=shape).astype(case["dtype"])
        close(w.readout(c, pos, transform=tr, **kw), val, t, kmax * f.size, "read-out of a complex mesh")
    elif what == "out":
        for dt, tt in (("f8", 1e-13), ("f4", 1e-5)):
            big = np.full(2 * n + 2, 77, dt)
            out = big[1:1 + 2 * n:2]
            r = w.readout(f, pos, out=out, transform=tr, **kw)
            require(r is out, "readout with out= returned another array")
            close(out, val, tt, kmax * f.size, "read-out into a given %s array", dt)
            rest = np.ones(2 * n + 2, bool)
            rest[1:1 + 2 * n:2] = False
            require((big[rest] == 77).all(), "readout wrote outside the given array")
    elif what == "masstype":
        close(paint(pos, full), real, t, tot, "painting with mass given as %s", case["mass"])
        ro = pos.copy()
        ro.flags.writeable = False
        fm = full.copy()
        fm.flags.writeable = False
        equal(paint(ro, fm), paint(pos, full), "painting read-only arrays")
        kr = dict(kw)
        if np.ndim(kr.get("hsml", 0)):
            kr["hsml"] = np.array(kr["hsml"])
            kr["hsml"].flags.writeable = False
        equal(paint(ro, fm, kr), paint(pos, full), "painting with a read-only smoothing length")
        equal(w.readout(f, ro, transform=tr, **kr), val, "read-out at read-only positions")
        equal(w.readout(f, np.asfortranarray(pos), transform=tr, **kw), val, "read-out at strided positions")
        equal(paint(np.asfortranarray(pos), full), paint(pos, full), "painting strided positions")
    elif what == "canvas":
        kind = case["canvas"]
        room = np.zeros((shape[0] * 4 + 4,) + tuple(shape[1:]), case["dtype"] if kind in ("readonly", "view") else kind)
        room[...] = 3
        c = room[2:2 + 2 * shape[0]:2]
        if kind == "readonly":
            c.flags.writeable = False
        before = room.copy()
        tt = 1e-2 if kind == "f2" else 1e-5 if kind == ">f4" else t
        try:
            w.paint(c, pos, mass=m, transform=tr, **kw)
        except Exception:
            equal(room, before, "a mesh of type %s after painting was refused", kind)
        else:
            require(kind != "readonly" or np.array_equal(room, before), "painting changed a read-only mesh")
            if kind not in ("readonly", "i8", "i4"):
                close(np.asarray(c.real, "f8"), 3.0 + real, tt, tot + 3, "painting onto a mesh of type %s", kind)
            rest = np.ones(len(room), bool)
            rest[2:2 + 2 * shape[0]:2] = False
            require((room[rest] == 3).all(), "painting wrote outside a mesh of type %s", kind)
        c = np.array(f, dtype=c.dtype)
        try:
            v = w.readout(c, pos, transform=tr, **kw)
        except Exception:
            pass
        else:
            if kind not in ("i8", "i4"):
                close(v, val, tt, kmax * f.size, "read-out of a mesh of type %s", kind)
    elif what == "twice":
        real2 = paint(pos, m, start=real)
        close(real2, 2 * real.astype("f8"), t, 2 * tot, "painting twice")
    return {"nontrivial": bool(n >= 2 and (np.abs(real).max(initial=0) > 0 or np.abs(val).max() > 0)),
            "labels": ["what:" + what, "win:" + case["win"], "dim:%d" % len(shape),
                       "diff" if case["diff"] is not None else "plain"]}


FAMILIES = [{"name": "adjoint", "what": "duality and linearity of paint and readout", "strategy": strategy,
             "max_examples": {"quick": 2500, "thorough": 150000}}]
