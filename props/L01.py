"""L01: the legacy particle mesh as a state machine over ranks."""
from common import *
import pmbase

RULE = ("A case is a legacy mesh (side 2-9, box a number or one per side, cic or tsc brush, both precisions) on 1-4 "
        "ranks (8 in the thorough tier) with a process mesh, and a history of operations: clear, paint, r2c, transfer, "
        "push, pop, c2r, readout. Every rank's part is compared with a whole-mesh model after each operation. "
        "Non-trivial: particles were painted or the mesh was set, and a transform or a readout took place.")
ASSUMPTIONS = ["The real and the complex array share memory, so only the one last written is meaningful.",
               "Coordinates are stored in single precision; whatever they multiply is compared to 1e-5.",
               "Reading out uses the cic kernel for both brushes, as the code does."]
BUDGET = {"quick": 40, "thorough": 400}


def strategy(tier):
    st = S()

    REAL = ["paint", "paint", "set", "readout", "readout", "r2c", "r2c", "clear"]
    CPLX = ["transfer", "push", "push", "c2r", "c2r", "c2r"]

    def op(draw, state):
        """An operation that is meaningful now: (real or complex, painted, pushed)."""
        if state["deep"]:
            # several saved states at a time
            if not state["full"]:
                k = draw(st.sampled_from(["set", "set", "paint"]))
            elif state["kind"] == "real":
                k = draw(st.sampled_from(["r2c", "r2c", "r2c"] + ["pop"] * min(1, state["depth"])))
            else:
                k = draw(st.sampled_from(["transfer", "transfer", "push", "push", "push", "c2r"] + ["pop"] * min(3, state["depth"])))
        elif state["kind"] == "real":
            k = draw(st.sampled_from((REAL if state["full"] else ["paint", "set"]) + ["pop"] * min(2, state["depth"])))
        else:
            k = draw(st.sampled_from(CPLX + ["pop"] * min(2, state["depth"]) + ["clear"]))
        state["depth"] += (k == "push") - (k == "pop")
        if k in ("paint", "set"):
            state["full"] = True
        if k == "clear":
            state["full"], state["kind"] = False, "real"
        if k in ("r2c", "pop"):
            state["kind"], state["full"] = "complex", True
        if k == "c2r":
            state["kind"] = "real"
        o = {"op": k}
        if k in ("paint", "readout"):
            o["pts"] = draw(points(maxn=6, kinds=("uniform", "cell", "half", "far", "edge", "near"), bulk=30))
            o["mass"] = draw(st.sampled_from(["array", "scalar", "default"]))
            o["cluster"] = draw(st.sampled_from([False, False, True]))
        elif k == "set":
            o["seed"] = draw(seeds())
        elif k in ("transfer", "c2r"):
            n = draw(st.integers(0 if k == "c2r" else 1, 2))
            o["tf"] = [draw(st.one_of(
                st.tuples(st.just("gauss"), dyadic(0.25, 2, 4)), st.tuples(st.just("const"), st.sampled_from([2.0, -0.5])),
                st.tuples(st.just("own"), st.integers(0, 2)), st.tuples(st.just("diff"), st.integers(0, 2)),
                st.tuples(st.just("nodc"), st.just(0)))) for _ in range(n)]
        return o

    @st.composite
    def make(draw):
        n = draw(st.sampled_from(pmbase.RANKS[tier]))
        state = {"kind": "real", "full": False, "depth": 0, "deep": draw(st.integers(0, 2)) == 0}
        N = draw(st.integers(2, 9))
        npm = draw(st.sampled_from([None] + [[a, n // a] for a in range(1, n + 1) if n % a == 0]))
        L = draw(st.one_of(st.sampled_from([1.0, float(N), 100.0]), st.lists(dyadic(0.5, 20, 8), min_size=3, max_size=3)))
        return {"nranks": n, "N": N, "L": L, "np": npm, "dtype": draw(st.sampled_from(["f8", "f8", "f4"])),
                "brush": draw(st.sampled_from(["cic", "tsc"])),
                "ops": [op(draw, state) for _ in range(draw(st.integers(2, 14 if state["deep"] else 10)))]}
    return make()


def legacy():
    """The legacy module on the plain (unwrapped) transform library."""
    import warnings
    warnings.simplefilter("ignore")
    import pfft
    import pmesh.particlemesh as m
    if hasattr(pfft, "_vf_plain"):
        m.pfft = pfft._vf_plain
    return m


def freqs(N, m=None):
    import numpy as np
    i = np.arange(N if m is None else m)
    return np.where(2 * i >= N, i - N, i)


def spread(win, g, N, mass):
    import numpy as np
    out = np.zeros((N,) * 3)
    for p, w in zip(g, mass):
        l = [weights1d(win, p[d], N, N, 1.0) for d in range(3)]
        out += w * l[0][:, None, None] * l[1][None, :, None] * l[2][None, None, :]
    return out


def interp(win, g, N, f):
    import numpy as np
    out = []
    for p in g:
        l = [weights1d(win, p[d], N, N, 1.0) for d in range(3)]
        out.append(np.einsum("ijk,i,j,k->", f, *l))
    return np.array(out).reshape(len(g))


def local(pm, out=False):
    p = pm.partition
    a, n = (p.local_o_start, p.local_no) if out else (p.local_i_start, p.local_ni)
    return tuple(slice(int(x), int(x) + int(y)) for x, y in zip(a, n))


def check(c, comm):
    import numpy as np
    m = legacy()
    N = c["N"]
    pm = m.ParticleMesh(c["L"], N, paintbrush=c["brush"], comm=comm, np=c["np"], dtype=c["dtype"])
    L = np.ones(3) * c["L"]
    t0 = 1e-11 if c["dtype"] == "f8" else 1e-5
    si, so = local(pm), local(pm, True)
    H = N // 2 + 1

    # the parts tile the mesh, and hold their own coordinates
    for what, shape, sl, arr in (("real", (N, N, N), si, pm.real), ("complex", (N, N, H), so, pm.complex)):
        cnt = np.zeros(shape, "i4")
        cnt[sl] += 1
        require(arr.shape == cnt[sl].shape, "the %s part has shape %s, its slices are %s", what, arr.shape, sl)
        cnt = comm.allreduce(cnt)
        require((cnt == 1).all(), "the %s parts do not tile the mesh", what)
    equal(pm.real, np.zeros(pm.real.shape), "a new canvas")
    for d in range(3):
        i = freqs(N)
        o = freqs(N, H if d == 2 else N)
        sh = [1, 1, 1]
        sh[d] = -1
        for name, got, full, sl in (("r", pm.r[d], i * 1.0, si), ("x", pm.x[d], i * L[d] / N, si),
                                    ("w", pm.w[d], o * 2 * np.pi / N, so), ("k", pm.k[d], o * 2 * np.pi / L[d], so)):
            want = full[sl[d]].reshape(sh)
            got = np.array(got, "f8")
            if d == 2 and name in "wk":
                # the sign of the Nyquist frequency is a convention here
                nyq = (2 * np.abs(o) == N)[sl[d]].reshape(sh)
                got, want = np.where(nyq, np.abs(got), got), np.where(nyq, np.abs(want), want)
            close(got, want, 1e-6, np.abs(full).max() + 1e-3, "%s[%d]", name, d)

    state, model = "real", np.zeros((N, N, N))
    stack = []
    loose = t0
    looses = []
    mag = 0.0       # the largest value a chain of transfer functions started from: what is left
                    # of it after a cancellation is only as accurate as that
    did = painted = 0
    kinds = set()

    def tf(name, arg):
        """-> (the transfer function, its model)"""
        from pmesh.transfer import TransferFunction as T
        w = [(freqs(N, H if d == 2 else N) * 2 * np.pi / N).reshape([-1 if e == d else 1 for e in range(3)]) for d in range(3)]
        if name == "gauss":
            return T.Gaussian(arg), lambda f: f * np.exp(-0.5 * arg ** 2 * (w[0] ** 2 + w[1] ** 2 + w[2] ** 2))
        if name == "const":
            return T.Constant(arg), lambda f: f * arg
        if name == "diff":
            return T.SuperLanzcos(arg), lambda f: f * 1j * (8 * np.sin(w[arg]) - np.sin(2 * w[arg])) / 6
        if name == "nodc":
            def nodc(f):
                f = f.copy()
                f[0, 0, 0] = 0
                return f
            return T.RemoveDC, nodc

        def own(pm_, comp):
            require(pm_ is pm and comp is pm.complex, "the transfer function was given something else")
            comp[...] *= np.cos(pm_.k[arg] * L[arg] / N)
        return own, lambda f: f * np.cos(w[arg])

    def compare(what):
        # together, so that no rank is left waiting
        msg = None
        try:
            if state == "real":
                close(pm.real, model[si], loose, max(np.abs(model).max(), mag) + 1e-30, what)
            else:
                close(pm.complex, model[so], loose, max(np.abs(model).max(), mag) + 1e-30, what)
        except Exception as e:
            msg = str(e)
        bad = [m for m in comm.allgather(msg) if m is not None]
        require(not bad, "%s", bad[0] if bad else "")

    for o in c["ops"]:
        k = o["op"]
        kinds.add(k)
        what = "after %s" % k
        if k in ("paint", "readout", "set", "clear", "r2c") and state != "real":
            if k in ("set", "clear"):
                state = "real"
            else:
                continue
        if k in ("push", "transfer", "c2r") and state != "complex":
            continue
        if k == "pop" and not stack:
            continue
        if k in ("paint", "readout"):
            g = make_points(o["pts"], [N] * 3)
            n = len(g)
            rng = np.random.RandomState(o["pts"]["seed"] + 9)
            owner = np.zeros(n, int) if o["cluster"] else rng.randint(0, comm.size, size=n)
            mine = owner == comm.rank
            pos = g * L / N
            g = pos * N / L
            mass = rng.uniform(0.5, 2, size=n) if o["mass"] == "array" else np.full(n, 2.0 if o["mass"] == "scalar" else 1.0)
            layout = pm.decompose(pos[mine])
            lpos = layout.exchange(pos[mine])
            if k == "paint":
                if o["mass"] == "array":
                    pm.paint(lpos, layout.exchange(mass[mine]))
                elif o["mass"] == "scalar":
                    pm.paint(lpos, 2.0)
                else:
                    pm.paint(lpos)
                dens = N ** 3 / np.prod(L)
                model = model + dens * spread(c["brush"], g, N, mass)
                painted += n
                compare(what)
                continue
            v = layout.gather(pm.readout(lpos), mode="sum")
            close(v, interp("cic", g[mine], N, model), loose, max(np.abs(model).max(), mag) + 1e-30, "readout")
            did += n
            continue
        if k == "set":
            model = np.random.RandomState(o["seed"]).normal(size=(N, N, N)).astype(c["dtype"]).astype("f8")
            pm.real[...] = model[si]
            loose, mag = t0, 0.0
            painted += 1
        elif k == "clear":
            pm.clear()
            model = np.zeros((N, N, N))
            loose, mag = t0, 0.0
        elif k == "r2c":
            pm.r2c()
            model = np.fft.rfftn(model) / N ** 3
            mag /= N ** 1.5
            state = "complex"
            did += 1
        elif k == "push":
            pm.push()
            stack.append((model.copy(), np.array(pm.complex, copy=True)))
            looses.append((loose, mag))
        elif k == "pop":
            pm.pop()
            if len(stack) > 1:
                kinds.add("pop-deep" if any(not np.array_equal(stack[-1][1], e[1]) for e in stack) else "pop-same")
            model, exact = stack.pop()
            loose, mag = looses.pop()
            state = "complex"
            equal(pm.complex, exact, "the state restored by pop")
        elif k in ("transfer", "c2r"):
            pairs = [tf(*a) for a in o["tf"]]
            if k == "transfer":
                pm.transfer([a for a, b in pairs])
            elif pairs:
                pm.c2r([a for a, b in pairs])
            else:
                pm.c2r()
            for a, b in pairs:
                mag = max(mag, np.abs(model).max())
                model = b(model)
                loose = max(loose, 2e-5)
            if k == "c2r":
                # a Nyquist mode with an imaginary part has no real counterpart;
                # transforming back drops that part
                model = np.fft.irfftn(model, s=(N, N, N)) * N ** 3
                mag *= N ** 1.5
                state = "real"
                did += 1
        compare(what)
    if painted and state == "real" and kinds <= {"paint", "readout"}:
        tot = comm.allreduce(float(pm.real.sum(dtype="f8")))
        close(tot, model.sum(), t0 * 10, model.sum(), "total")
    return {"nontrivial": bool(painted and did), "labels": ["ranks:%d" % c["nranks"], c["brush"], "odd" if N % 2 else "even", c["dtype"]] + ["op:" + k for k in sorted(kinds)]}


FAMILIES = [{"name": "history", "what": "every rank's arrays after each operation", "strategy": strategy, "max_examples": {"quick": 700, "thorough": 20000}}]
