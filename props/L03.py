"""L03: transfer functions, line integral convolution, helpers over ranks."""
from common import *
import pmbase
import L01

RULE = ("transfer: a legacy mesh holding random modes on 1-4 ranks and a chain of built-in transfer functions; "
        "non-trivial: at least one function, more than one mode. lic: a vector field and a texture on a 2-d or 3-d mesh "
        "over ranks, against a whole-mesh model that follows the lines; non-trivial: lines longer than a step, a vector "
        "field that is not zero. tools: bodies run under the rank-ordering and broadcasting helpers; non-trivial: several ranks.")
ASSUMPTIONS = ["Frequencies are in single precision: modes are compared to 2e-5 of their size.",
               "Lengths and steps of lines are dyadic, so the number of steps does not depend on rounding; windows are "
               "continuous ones, so that rounding does not move a read-out by a cell.",
               "Power spectra: bins with a mode within 1e-4 of their edge are left out, and empty ones.",
               "Inspect (prints modes) is not covered."]
BUDGET = {"quick": 70, "thorough": 400}

TF = ["norm", "nodc", "trilinear", "lanczos", "deriv", "gauss", "const", "laplace", "poisson", "power"]


def transfer_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        n = draw(st.sampled_from(pmbase.RANKS[tier]))
        N = draw(st.integers(2, 9))
        fs = []
        for _ in range(draw(st.integers(1, 3))):
            k = draw(st.sampled_from(TF))
            a = draw(st.integers(0, 2)) if k in ("lanczos", "deriv") else draw(dyadic(0.25, 2, 4)) if k == "gauss" else \
                draw(st.sampled_from([2.0, -0.5, 0.0])) if k == "const" else draw(st.integers(1, 6)) if k == "power" else None
            fs.append([k, a])
        return {"nranks": n, "N": N, "L": draw(st.one_of(st.sampled_from([1.0, 100.0]), st.lists(dyadic(0.5, 20, 8), min_size=3, max_size=3))),
                "np": draw(st.sampled_from([None] + [[a, n // a] for a in range(1, n + 1) if n % a == 0])),
                "dtype": draw(st.sampled_from(["f8", "f8", "f4"])), "fs": fs, "seed": draw(seeds()),
                "mean": draw(st.sampled_from([1.0, -2.0, 30.0])), "chain": draw(st.booleans())}
    return make()


def check_transfer(c, comm):
    import numpy as np
    m = L01.legacy()
    from pmesh.transfer import TransferFunction as T
    N, H = c["N"], c["N"] // 2 + 1
    pm = m.ParticleMesh(c["L"], N, comm=comm, np=c["np"], dtype=c["dtype"])
    so = L01.local(pm, True)
    f = np.random.RandomState(c["seed"]).normal(size=(N, N, N))
    f = np.fft.rfftn(f) / N ** 1.5
    f[0, 0, 0] = c["mean"]
    f = f.astype("c8" if c["dtype"] == "f4" else "c16").astype("c16")
    pm.complex[...] = f[so]
    w = [(L01.freqs(N, H if d == 2 else N) * 2 * np.pi / N).reshape([-1 if e == d else 1 for e in range(3)]) for d in range(3)]
    w2 = w[0] ** 2 + w[1] ** 2 + w[2] ** 2
    funcs, skip = [], np.zeros(f.shape, bool)
    spectra = []
    err = np.zeros(f.shape)
    for k, a in c["fs"]:
        e = 2e-6
        if k == "norm":
            # refers to the amplitude at the time
            if abs(f[0, 0, 0]) < 1e-3:
                continue
            funcs.append(T.NormalizeDC)
            mul = 1.0 / abs(f[0, 0, 0])
        elif k == "nodc":
            funcs.append(T.RemoveDC)
            mul = np.ones(f.shape)
            mul[0, 0, 0] = 0
        elif k == "trilinear":
            funcs.append(T.Trilinear)
            mul = 1.0
            for wi in w:
                mul = mul / np.sinc(wi / (2 * np.pi)) ** 2
        elif k == "lanczos":
            funcs.append(T.SuperLanzcos(a))
            mul = 1j * (8 * np.sin(w[a]) - np.sin(2 * w[a])) / 6
        elif k == "deriv":
            funcs.append(T.SuperLanzcos(a, order=0))
            mul = 1j * w[a]
            # the sign at the Nyquist frequency is a convention
            skip |= np.isclose(np.abs(w[a]), np.pi) & (w2 >= 0)
        elif k == "gauss":
            funcs.append(T.Gaussian(a))
            mul = np.exp(-0.5 * w2 * a * a)
        elif k == "const":
            funcs.append(T.Constant(a))
            mul = a
        elif k == "laplace":
            funcs.append(T.Laplace)
            mul = -w2
        elif k == "poisson":
            funcs.append(T.Poisson)
            mul = np.where(w2 == 0, 0.0, -1.0 / np.where(w2 == 0, 1.0, w2))
        elif k == "power":
            # the modes as they are at the time; each bin with its mean frequency and power over the full mesh
            e = 0.0
            mul = 1.0
            wout, pout = np.zeros(a), np.zeros(a)
            funcs.append(T.PowerSpectrum(wout, pout))
            edges = np.linspace(0, np.pi, a + 1)
            aw = np.sqrt(w2)
            wt = np.where((w[2] == 0) | (np.abs(w[2]) > 3.1415), 1.0, 2.0) + 0 * aw
            for b in range(a):
                ambiguous = (np.abs(aw - edges[b]) < 1e-4) & (aw > 0) | (np.abs(aw - edges[b + 1]) < 1e-4)
                inside = (aw >= edges[b]) & (aw < edges[b + 1])
                if ambiguous.any() or not inside.any():
                    continue
                tw = wt[inside].sum()
                spectra.append((wout, pout, b, (wt * aw)[inside].sum() / tw, (wt * np.abs(f) ** 2)[inside].sum() / tw,
                                (wt * (2 * np.abs(f) * err + err ** 2))[inside].sum() / tw))
        dm = e * (1 + np.abs(mul))
        err = (np.abs(mul) + dm) * err + np.abs(f) * dm
        f = f * mul
        err = err + 4e-6 * np.abs(f)
        if not c["chain"]:
            pm.transfer([funcs.pop()])
    if c["chain"]:
        pm.transfer(funcs)
    for wout, pout, b, ww, pp, pe in spectra:
        close(wout[b], ww, 1.0, 1e-5, "mean frequency of bin %d of %d", b, len(wout))
        close(pout[b], pp, 1.0, pe + 1e-5 * pp + 1e-30, "mean power of bin %d of %d", b, len(wout))
    got = np.array(pm.complex, copy=True)
    ok = ~np.broadcast_to(skip, f.shape)[so]
    close(np.where(ok, got, 0), np.where(ok, f[so], 0), 1.0, (err + 1e-30)[so] if got.size else 1.0, "modes after %s", [k for k, a in c["fs"]])
    return {"nontrivial": bool(N > 2), "labels": ["tf:" + k for k in sorted(set(k for k, a in c["fs"]))] + ["ranks:%d" % c["nranks"], "odd" if N % 2 else "even"]}


KERNELS = {"one": lambda s: 1.0, "hann": lambda s: 0.5 * (1 + math.cos(math.pi * s)), "skew": lambda s: 1.0 + 0.5 * s}


def lic_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        nd = draw(st.sampled_from([2, 2, 3]))
        c = pmbase.pm_case(draw, tier, dims=(nd,), hi=7 if nd == 2 else 4, lo=2)
        c.update(vseed=draw(seeds()), vkind=draw(st.sampled_from(["const", "smooth", "noise", "holes", "jump", "jump"])),
                 norm=draw(st.booleans()), win=draw(st.sampled_from(["linear", "cic", "tsc", "quadratic", "cubic", "pcs"])),
                 where=draw(st.sampled_from(["arg", "pm"])), kernel=draw(st.sampled_from(sorted(KERNELS))),
                 ds=draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, 2.0, 4.0])), steps=draw(st.integers(0, 6)),
                 frac=draw(st.sampled_from([0.0, 0.0, 0.5])), amp=draw(st.sampled_from([1.0, 0.5, 2.0])),
                 texture=draw(st.sampled_from(["noise", "noise", "one", "default"])))
        return c
    return make()


def interp(win, g, N, f):
    import numpy as np
    out = np.zeros(len(g))
    for i, p in enumerate(g):
        v = f
        for d in range(len(N)):
            v = np.tensordot(weights1d(win, p[d], N[d], N[d], 1.0), v, axes=(0, 0))
        out[i] = v
    return out


def check_lic(c, comm):
    import numpy as np
    from pmesh.lic import lic
    N, nd = c["N"], len(c["N"])
    kw = {"resampler": c["win"]} if c["where"] == "pm" else {}
    pm = make_pm(c, comm, kw)
    rng = np.random.RandomState(c["vseed"])
    x = np.indices(N).astype("f8")
    V = []
    for d in range(nd):
        if c["vkind"] == "const":
            v = np.full(N, rng.normal())
        elif c["vkind"] == "smooth":
            v = rng.normal() + np.cos(2 * np.pi * sum(x[e] / N[e] * rng.randint(0, 2) for e in range(nd)) + rng.uniform(0, 6))
        else:
            v = rng.normal(size=N)
        V.append(v * np.ones(N) * 0.5 * c["amp"])
    if c["vkind"] == "holes":
        hole = rng.uniform(size=N) < 0.4
        for v in V:
            v[hole] = 0
    if c["vkind"] == "jump":
        # slow and fast regions
        slow = np.where((x[0] * 2 < N[0]) ^ bool(rng.randint(0, 2)), 0.2, 1.0)
        V = [v * slow for v in V]
    V = [v.astype(c["dtype"]).astype("f8") for v in V]
    if c["texture"] == "default":
        tex = None
    elif c["texture"] == "one":
        tex = np.full(N, 3.0)
    else:
        tex = rng.normal(size=N).astype(c["dtype"]).astype("f8")
    fields = [pmbase.put(pm.create(type="real"), v) for v in V]
    ft = None if tex is None else pmbase.put(pm.create(type="real"), tex)
    length = 2 * c["ds"] * (c["steps"] + c["frac"])
    args = dict(kernel=KERNELS[c["kernel"]], length=length, ds=c["ds"], normalize=c["norm"])
    if c["where"] == "arg":
        args["resampler"] = c["win"]
    if ft is not None:
        args["texture"] = ft
    r = lic(fields, **args)
    require(type(r).__name__ == "RealField", "lic returned a %s", type(r).__name__)
    for v, f in zip(V, fields):
        equal(f.value, v[f.slices].astype(f.value.dtype), "the vectors after lic")
    if ft is not None:
        equal(ft.value, tex[ft.slices].astype(ft.value.dtype), "the texture after lic")
    got = pmbase.gather(r, comm)
    if tex is None:
        # the default texture: some noise, the same on any number of ranks
        from mpi4py import MPI
        one = make_pm(c, MPI.COMM_SELF, kw, np=None)
        f1 = [pmbase.put(one.create(type="real"), v) for v in V]
        want = np.array(lic(f1, **args).value)
        # a line of no length shows the texture itself, and the result is linear in it
        t1 = np.array(lic(f1, **dict(args, length=0.0)).value)
        close(got, want, 1e-9 if c["dtype"] == "f8" else 1e-4, np.abs(want).max() + 1, "lic with its own texture, on %d ranks and on one", comm.size)
        require(t1.std() > 0.05 or t1.size < 16, "the default texture is not noise")
        tex = t1
    U = V
    if c["norm"]:
        a = np.sqrt(sum(v ** 2 for v in V))
        a = np.where(a == 0, 1.0, a)
        U = [v / a for v in V]
    Q = np.indices(N).reshape(nd, -1).T.astype("f8")
    f = tex.ravel().copy()
    n = 0
    for sign in (-1, 1):
        g = Q.copy()
        s = 0.0
        while s < length * 0.5:
            k = KERNELS[c["kernel"]](sign * s / (length * 0.5))
            dx = np.array([interp(c["win"], g, N, u) for u in U]).T * c["ds"] * sign
            f += interp(c["win"], g + 0.5 * dx, N, tex) * k * c["ds"]
            g += dx
            s += c["ds"]
            n += 1
    t = 1e-10 if c["dtype"] == "f8" else 2e-4
    close(got, f.reshape(N), t, (np.abs(tex).max() + 1) * (1 + n * c["ds"]), "lic")
    return {"nontrivial": bool(n > 1 and any(np.abs(u).max() > 0 for u in U)), "labels": pmbase.labels(c) + ["lic:" + c["vkind"], "texture:" + c["texture"]]}


def make_pm(c, comm, kw, **more):
    return pmbase.make_pm(c, comm, **dict(kw, **more))


def tools_strategy(tier):
    st = S()
    return st.fixed_dictionaries({"nranks": st.sampled_from([2, 3, 4] if tier == "quick" else [2, 3, 4, 6, 8]), "rounds": st.integers(1, 3), "seed": seeds(),
                                  "fail": st.one_of(st.none(), st.integers(0, 3)), "payload": st.sampled_from(["array", "dict", "none", "rank"])})


def check_tools(c, comm):
    import os
    import shutil
    import tempfile
    import time
    import numpy as np
    import warnings
    warnings.simplefilter("ignore")
    from pmesh.tools import Rotator, FromRoot
    rng = np.random.RandomState(c["seed"] + comm.rank)
    d = comm.bcast(tempfile.mkdtemp(prefix="vf-tools-") if comm.rank == 0 else None)
    try:
        path = os.path.join(d, "log")

        def log(msg):
            fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, (msg + "\n").encode())
            os.close(fd)
        raised = 0
        for i in range(c["rounds"]):
            time.sleep(float(rng.choice([0, 0.0005, 0.002])))
            try:
                with Rotator(comm):
                    log("+%d" % comm.rank)
                    time.sleep(float(rng.choice([0, 0.0005, 0.001])))
                    log("-%d" % comm.rank)
                    if c["fail"] == comm.rank:
                        raise KeyError("mine")
            except KeyError:
                raised += 1
        comm.Barrier()
        want = [s + str(r) for i in range(c["rounds"]) for r in range(comm.size) for s in "+-"]
        got = open(path).read().split()
        require(got == want, "bodies under Rotator ran as %s", got)
        require(raised == (c["rounds"] if c["fail"] == comm.rank else 0), "rank %d saw %d exceptions", comm.rank, raised)
        calls = []

        @FromRoot(comm)
        def value(a, b=0):
            calls.append((a, b))
            return {"array": np.arange(5) * a + b, "dict": {"a": [a, b]}, "none": None, "rank": comm.rank}[c["payload"]]
        for i in range(c["rounds"]):
            v = value(comm.rank + 10, b=i)
            if c["payload"] == "array":
                equal(v, np.arange(5) * 10 + i, "the value from the root")
            else:
                require(v == {"dict": {"a": [10, i]}, "none": None, "rank": 0}[c["payload"]], "rank %d got %r from the root", comm.rank, v)
        require(calls == ([(10, i) for i in range(c["rounds"])] if comm.rank == 0 else []), "rank %d called the function with %s", comm.rank, calls)
    finally:
        comm.Barrier()
        if comm.rank == 0:
            shutil.rmtree(d, ignore_errors=True)
    return {"nontrivial": comm.size > 1, "labels": ["ranks:%d" % comm.size, "fail" if c["fail"] is not None else "plain"]}


def check(case, comm):
    return {"transfer": check_transfer, "lic": check_lic, "tools": check_tools}[case["family"]](case, comm)


FAMILIES = [
    {"name": "transfer", "what": "modes after chains of built-in transfer functions", "strategy": transfer_strategy, "weight": 2,
     "max_examples": {"quick": 600, "thorough": 20000}},
    {"name": "lic", "what": "line integrals against a whole-mesh model", "strategy": lic_strategy, "weight": 3,
     "max_examples": {"quick": 350, "thorough": 8000}},
    {"name": "tools", "what": "order of ranks, value of the root", "strategy": tools_strategy, "weight": 1,
     "max_examples": {"quick": 60, "thorough": 1000}},
]
