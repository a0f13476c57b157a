"""A01: the differentiable engine (pmesh.abopt)."""
from pmbase import *

RULE = ("A random programme of 1 to 8 (thorough: 16) statements on real fields, modes, positions and values, over 1 to 6 (thorough: 8) ranks; its outcome and its forward derivative are compared to a dual-number model, "
        "its backward derivative by transposition. Non-trivial: at least two statements and an output that depends on an input.")
ASSUMPTIONS = ["The abopt package installed here imports two names from scipy that moved; the harness puts them back before importing it.",
               "Inputs and outputs are real fields, positions, values and scalars: the gradient with respect to modes follows a convention of its own (P10).",
               "abopt works in place: the inputs of a derivative programme are copies."]
BUDGET = {"quick": 30, "thorough": 400}
OPS = ["r2c", "r2c", "c2r", "c2r", "transfer", "transfer", "lowpass", "paint", "paint", "readout", "residual", "component", "assign", "add", "add", "multiply", "multiply",
       "multiply", "scale", "get_x", "scalar"]
WINS = ["cic", "tsc", "pcs", "nearest"]


def engine_modules():
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import scipy.optimize._linesearch as new
        import scipy.optimize.linesearch as old
        for n in ("_cubicmin", "_quadmin"):
            if n not in vars(old):
                setattr(old, n, getattr(new, n))
        from abopt.legacy import vmad2
        from pmesh import abopt
    return abopt, vmad2


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dims=(2, 2, 3), dtypes=("f8",), hi=6, scale=False)
        c["win"] = draw(st.sampled_from(WINS[:3]))
        c["n"] = draw(st.integers(0, 9))
        c["grid"] = draw(st.sampled_from([False, False, True]))
        c["vseed"] = draw(seeds())
        c["steps"] = [[draw(st.sampled_from(OPS)), draw(st.integers(0, 11)), draw(st.integers(0, 11)), draw(st.integers(0, 11))]
                      for _ in range(draw(st.integers(1, 8 if tier == "quick" else 16)))]
        c["out"] = draw(st.integers(0, 11))
        return c
    return make()


def transfers(nd, odd):
    """Transfer functions of real fields: even ones are real, odd ones imaginary."""
    def k2(k):
        return sum(x ** 2 for x in k)
    return [lambda k: 1 / (1 + k2(k)), lambda k: 1j * odd(k, 0) / (1 + k2(k)), lambda k: 0.5 - k[-1] ** 2, lambda k: 1j * odd(k, nd - 1) * 0.25, lambda k: 1.5,
            lambda k: (1 + 0.5j * odd(k, nd // 2)) / (1 + k2(k))]


def check(c, comm):
    import numpy as np
    import warnings
    abopt, vmad2 = engine_modules()
    from mpi4py import MPI
    pm = make_pm(c, comm, resampler=c["win"])
    one = make_pm(c, MPI.COMM_SELF, np=None, resampler=c["win"])
    nd, N, L = len(c["N"]), c["N"], np.array(c["L"])
    size = int(np.prod(N))
    rng = np.random.RandomState(c["vseed"] % 2 ** 32)
    if c["grid"]:
        q = np.asarray(pm.generate_uniform_particle_grid(shift=0.0, dtype="f8"))
        eng = abopt.ParticleMeshEngine(pm, q)
        counts = np.array(comm.allgather(len(q)))
        Q = np.concatenate(comm.allgather(q))
    else:
        Q = rng.uniform(-0.2, 1.2, size=(c["n"], nd)) * L
        cut = np.sort(np.concatenate([[0], rng.randint(0, c["n"] + 1, size=comm.size - 1), [c["n"]]]))
        counts = np.diff(cut)
        q = Q[cut[comm.rank]:cut[comm.rank + 1]].copy()
        eng = abopt.ParticleMeshEngine(pm, q)
    n = len(Q)
    a = int(counts[:comm.rank].sum())
    mine = slice(a, a + len(q))
    shape_c = cshape(N, "transposedcomplex")
    ks = [(freqs(m, s) * 2 * np.pi / l).reshape([-1 if e == d else 1 for e in range(nd)]) for d, (m, s, l) in enumerate(zip(N, shape_c, c["L"]))]
    selfdual = np.ones(shape_c, bool)
    for d in range(nd):
        i = np.arange(shape_c[d])
        selfdual &= ((i == 0) | (2 * i == N[d])).reshape([-1 if e == d else 1 for e in range(nd)])
    # a difference has no Nyquist modes; a derivative of modes that are given would leave their conjugates behind
    TF = transfers(nd, lambda k, d: k[d])
    TFZ = transfers(nd, lambda k, d: np.sin(k[d] * (L[d] / N[d])))
    # the modes that come before their conjugate, and those that are their own
    index = np.arange(np.prod(N)).reshape(N)
    dual = index[np.ix_(*[-np.arange(m) % m for m in N])]
    free = half(index <= dual, N)
    every = index[..., :shape_c[-1]]
    seen = np.zeros(size, bool)
    seen[every.ravel()] = True
    free = free | ~seen[dual[..., :shape_c[-1]]]

    def local(kind, v):
        if kind == "real":
            return put(pm.create(type="real"), v)
        if kind == "complex":
            return put(pm.create(type="complex"), v)
        if kind in ("pos", "val"):
            return v[mine].copy()
        return v

    def whole(kind, v, like, what):
        """The whole of an engine's value; the engine's ZERO stands for any zero."""
        if v is vmad2.ZERO:
            return np.zeros_like(like)
        if kind in ("real", "complex"):
            require(kind_of(v).endswith(kind), "%s is a %s", what, type(v).__name__)
            return gather(v, comm, what)
        if kind in ("pos", "val"):
            parts = comm.allgather(np.asarray(v))
            require(all(p.shape == (k,) + like.shape[1:] for p, k in zip(parts, counts)), "%s: parts of shapes %s", what, [p.shape for p in parts])
            return np.concatenate(parts)
        return np.asarray(v)

    def fresh(kind):
        if kind == "real":
            return rng.normal(size=N)
        if kind == "pos":
            return rng.uniform(-0.3, 1.3, size=(n, nd)) * L
        if kind == "val":
            return rng.normal(size=n)
        return rng.normal()

    def r2c(x):
        return half(modes(x), N)

    def c2r(x):
        return np.fft.irfftn(x, s=N, axes=range(nd)) * size

    def paint(x, mass=None, grad=None):
        if not n:
            return np.zeros(N)
        return one.paint(x, mass=1.0 if mass is None else mass, gradient=grad).value * (size / n)

    def readout(m, x, grad=None):
        f = one.create(type="real")
        f.value[...] = m
        return f.readout(x, gradient=grad)

    names = {}          # name -> [kind, value, tangent, stretch]
    inputs = {}
    code = vmad2.CodeSegment(eng)
    uses = [0]
    deps = {}           # the inputs each of them depends on
    used = []

    def pick(kinds, i):
        kinds = kinds.split()
        have = [k for k, v in names.items() if v[0] in kinds]
        have = have[-3:][::-1]
        if (not have or i % 4 == 0) and kinds[0] != "scal":
            k = "in%d" % len(inputs)
            new_kinds = [x for x in kinds if x != "scal"]
            kind = new_kinds[i // 4 % len(new_kinds)]
            if kind == "complex":
                # the modes of a real field; all of them follow from those stored
                v, t = r2c(rng.normal(size=N)), r2c(rng.normal(size=N))
                code.decompress(complex=k)
            else:
                v, t = fresh(kind), rng.normal(size=np.shape(fresh(kind)))
            inputs[k] = (kind, v, t)
            names[k] = [kind, v, t, 0]
            deps[k] = {k}
        elif have:
            k = have[i // 4 % len(have)]
        else:
            return None
        used.append(k)
        return k

    def new():
        uses[0] += 1
        return "v%d" % uses[0]
    done = 0
    for op, i, j, k in c["steps"]:
        out = new()
        used.clear()
        if op == "r2c":
            x = pick("real", i)
            _, v, t, s = names[x]
            code.r2c(real=x, complex=out)
            names[out] = ["complex", r2c(v), r2c(t), s + 1]
        elif op == "c2r":
            x = pick("complex", i)
            if x is None:
                continue
            _, v, t, s = names[x]
            code.c2r(complex=x, real=out)
            names[out] = ["real", c2r(v), c2r(t), s + 1]
        elif op == "transfer":
            x = pick("complex", i)
            if x is None:
                continue
            _, v, t, s = names[x]
            tf = (TFZ if any(inputs[y][0] == "complex" for y in deps[x]) else TF)[j % len(TF)]
            code.transfer(complex=x, tf=tf)
            f = np.broadcast_to(tf(ks), shape_c)
            f = np.where(selfdual & (np.imag(f) != 0), 0, f)
            names[x] = ["complex", v * f, t * f, s + 1]
        elif op == "lowpass":
            x = pick("real", i)
            _, v, t, s = names[x]
            Neff = j
            kx = one.create(type="transposedcomplex").x
            if any((abs(kx[d].ravel()) <= Neff // 2 * (2 * np.pi / L[d])).tolist() != (abs(freqs(N[d], shape_c[d])) <= Neff // 2).tolist() for d in range(nd)):
                continue        # a mode at the cut is kept or not by rounding
            code.lowpass(real=x, Neff=Neff)
            f = np.ones(shape_c)
            for d in range(nd):
                f = f * (np.abs(freqs(N[d], shape_c[d])) <= Neff // 2).reshape([-1 if e == d else 1 for e in range(nd)])
            names[x] = ["real", c2r(r2c(v) * f), c2r(r2c(t) * f), s + 1]
        elif op == "paint":
            x = pick("pos", i)
            _, v, t, s = names[x]
            if n == 0 or s > 2:
                continue
            lay = new()
            code.decompose(x=x, layout=lay)
            code.paint(x=x, layout=lay, mesh=out)
            names[out] = ["real", paint(v), sum(paint(v, t[:, d], d) for d in range(nd)), s + 1]
        elif op == "readout":
            x, m = pick("pos", i), pick("real", j)
            if names[x][3] > 2:
                continue
            _, v, t, s = names[x]
            _, mv, mt, ms = names[m]
            lay = new()
            code.decompose(x=x, layout=lay)
            code.readout(x=x, layout=lay, mesh=m, value=out)
            names[out] = ["val", readout(mv, v), readout(mt, v) + sum(readout(mv, v, d) * t[:, d] for d in range(nd)), max(s, ms) + 1]
        elif op == "residual":
            x = pick("real val", i)
            kind, v, t, s = names[x]
            data = fresh(kind)
            code.residual(model=x, residual=out, data=local(kind, data), sigma=0.5 + j)
            names[out] = [kind, (v - data) / (0.5 + j), t / (0.5 + j), s + 1]
        elif op == "component":
            x, y = pick("pos", i), pick("val", j)
            _, v, t, s = names[x]
            _, w, u, r = names[y]
            v, t = v.copy(), t.copy()
            v[:, k % nd], t[:, k % nd] = w, u
            code.assign_component(attribute=x, value=y, dim=k % nd)
            names[x] = ["pos", v, t, max(s, r) + 1]
        elif op == "assign":
            x = pick("real pos val", i)
            kind, v, t, s = names[x]
            code.assign(x=x, y=out)
            names[out] = [kind, v, t, s + 1]
        elif op in ("add", "multiply"):
            x = pick("real pos val complex scal" if op == "add" else "real pos val scal", i)
            kind, v, t, s = names[x]
            y = pick(kind, j)
            if y is None:
                continue
            _, w, u, r = names[y]
            if op == "multiply" and s + r > 6:
                continue
            getattr(code, op)(x1=x, x2=y, y=out)
            names[out] = [kind, v + w, t + u, max(s, r) + 1] if op == "add" else [kind, v * w, t * w + v * u, s + r + 1]
        elif op == "scale":
            x = pick("real pos val scal", i)
            kind, v, t, s = names[x]
            f = [0.5, 0.1, -1.0][j % 3]
            code.multiply(x1=x, x2=vmad2.Literal(f), y=out)
            names[out] = [kind, v * f, t * f, s + 1]
        elif op == "get_x":
            x = pick("pos", i)
            _, v, t, s = names[x]
            code.get_x(s=x, x=out)
            names[out] = ["pos", v + Q, t, s + 1]
        elif op == "scalar":
            x = pick("real pos val", i)
            kind, v, t, s = names[x]
            if s > 5:
                continue
            code.to_scalar(x=x, y=out)
            names[out] = ["scal", (v ** 2).sum(), 2 * (v * t).sum(), 2 * s + 1]
        o = out if out in names else x
        deps[o] = set().union(*[deps[y] for y in used])
        done += 1
    outs = [x for x in names if names[x][0] != "complex" and (x.startswith("v") or names[x][3] > 0)]
    if not outs:
        return {"nontrivial": False, "labels": ["no output"]}
    # any of them, more often the last ones
    out = outs[-1 - c["out"] % len(outs)] if c["out"] % 3 else outs[-1]
    kind, V, T, _ = names[out]
    text = "programme %s, output %s (%s)" % ([str(x) for x in code.nodes], out, kind)
    init = {k: local(kd, v) for k, (kd, v, t) in inputs.items()}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got, tape = code.compute(out, init=dict(init), return_tape=True)
        scale = np.abs(V).max() + np.abs(T).max() + 1 if np.size(V) else 1
        close(whole(kind, got, V, out), V, 1e-8, scale, "value of %s", text)
        for k, (kd, v, t) in inputs.items():
            equal(whole(kd, init[k], v, k), v, "input %s after computing with a tape, %s", k, text)
        # forward
        F = tape.get_jvp().compute(out + "_", init={k + "_": local(kd, t) for k, (kd, v, t) in inputs.items()})
        close(whole(kind, F, T, out), T, 1e-8, scale, "forward derivative of %s", text)
        # backward: <w, J t> = <J^T w, t>, for all inputs and for each alone
        w = np.asarray(fresh("val" if kind == "pos" else kind)) if kind != "pos" else rng.normal(size=(n, nd))
        # (abopt knows no gradient for an input that does not take part)
        inputs = {k: v for k, v in inputs.items() if k in deps[out]}
        B = tape.get_vjp().compute(["_" + k for k in inputs], init={"_" + out: local(kind, w) if kind != "scal" else float(w)})
        right, mag = 0.0, 0.0
        for (k, (kd, v, t)), b in zip(inputs.items(), B):
            b = whole(kd, b, v, "gradient with respect to " + k)
            if kd == "complex":
                # of two modes that follow from each other only one counts
                b = np.conj(b) * free
            right += (b * t).sum().real
            mag += np.abs(b * t).sum()
        left = (w * T).sum()
        close(right, left, 1e-8, mag + np.abs(w * T).sum() + scale, "transposition of %s: <J^T w, t>", text)
        # again from the same tape
        B2 = tape.get_vjp().compute(["_" + k for k in inputs], init={"_" + out: local(kind, w) if kind != "scal" else float(w)})
        for (k, (kd, v, t)), b, b2 in zip(inputs.items(), B, B2):
            close(whole(kd, b2, v, k), whole(kd, b, v, k), 1e-12, scale, "gradient a second time, %s", text)
    return {"nontrivial": bool(done >= 2 and np.abs(T).max() > 0) if np.size(T) else False, "labels": labels(c) + ["out:" + kind] + sorted(set("op:" + s[0] for s in c["steps"]))}


def vector_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dims=(2, 2, 3), dtypes=("f8",), hi=6, scale=False)
        c["n"] = draw(st.integers(1, 9))
        c["vseed"] = draw(seeds())
        c["kind"] = draw(st.sampled_from(["real", "complex", "pos", "val"]))
        c["a"] = draw(st.sampled_from(["zero", "one", "same", "number"]))
        c["c"] = draw(st.sampled_from(["number", "same", "zero"]))
        c["p"] = draw(st.sampled_from([1, 1, 2, 0.5]))
        return c
    return make()


def check_vectors(c, comm):
    """a + b c^p and inner products; modes count as pairs of real numbers."""
    import numpy as np
    import warnings
    abopt, vmad2 = engine_modules()
    pm = make_pm(c, comm)
    kind, n, nd, p = c["kind"], c["n"], len(c["N"]), c["p"]
    rng = np.random.RandomState(c["vseed"] % 2 ** 32)
    cut = np.sort(np.concatenate([[0], rng.randint(0, n + 1, size=comm.size - 1), [n]]))
    mine = slice(cut[comm.rank], cut[comm.rank + 1])
    q = rng.uniform(size=(n, nd))[mine]
    eng = abopt.ParticleMeshEngine(pm, q)
    shape = {"real": tuple(c["N"]), "complex": cshape(c["N"], "transposedcomplex"), "pos": (n, nd), "val": (n,)}[kind]

    def local(v):
        if kind in ("real", "complex"):
            return put(pm.create(type=kind), v)
        return v[mine].copy()

    def verify(r, want, what):
        what = what + " of " + kind
        if kind in ("real", "complex"):
            require(not isinstance(r, np.ndarray) and kind_of(r).endswith(kind), "%s is a %s", what, type(r).__name__)
            close(gather(r, comm), want, 1e-12, np.abs(want).max() + 1, what)
        else:
            require(isinstance(r, np.ndarray), "%s is a %s", what, type(r).__name__)
            close(np.asarray(r), want[mine], 1e-12, np.abs(want).max() + 1 if want.size else 1, what)
    dt = "c16" if kind == "complex" else "f8"
    B = values(shape, dt, c["vseed"] + 1)
    A = {"zero": 0, "one": 1, "number": -1.5, "same": values(shape, dt, c["vseed"] + 2)}[c["a"]]
    C = {"number": 2.5, "zero": 0, "same": values(shape, dt, c["vseed"] + 3)}[c["c"]]
    if c["c"] == "same":
        C = np.abs(C.real) + (1j * np.abs(C.imag) if kind == "complex" else 0)
    b = local(B)
    a = local(A) if c["a"] == "same" else A
    x = local(C) if c["c"] == "same" else C

    def parts(v, f):
        if kind != "complex":
            return f(*v)
        out = np.zeros(shape, "c16")
        out.real = f(*[w.real if np.ndim(w) else w for w in v])
        out.imag = f(*[w.imag if np.ndim(w) else w for w in v])
        return out
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        verify(eng.vs.addmul(a, b, x, p), parts([A, B, C], lambda a, b, c: a + b * c ** p), "addmul(%s, b, %s, %s)" % (c["a"], c["c"], p))
        verify(eng.vs.zeros_like(b), np.zeros(shape, dt), "zeros_like")
        verify(eng.vs.ones_like(b), parts([B], lambda b: np.ones(shape)), "ones_like")
        r = eng.vs.copy(b)
        verify(r, B, "copy")
        b2 = local(values(shape, dt, c["vseed"] + 4))
        B2 = values(shape, dt, c["vseed"] + 4)
        d = eng.vs.dot(b, b2)
        if kind == "complex":
            F, F2 = unhalf(B, c["N"]), unhalf(B2, c["N"])
            want = (F * np.conj(F2)).sum().real
        else:
            want = (B * B2).sum()
        all_d = comm.allgather(np.real(d))
        require(all(np.array_equal(x, all_d[0]) for x in all_d), "dot differs between ranks: %s", all_d)
        close(np.real(d), want, 1e-11, np.abs(B).sum() * np.abs(B2).max() * 2 + 1 if B.size else 1, "dot of %s" % kind)
        verify(b, B, "operand after use")
    return {"nontrivial": comm.size > 1 or nd > 1, "labels": labels(c) + ["vector:" + kind]}


def check_any(case, comm):
    return {"programme": check_programme, "vectors": check_vectors}[case["family"]](case, comm)


check_programme, check = check, check_any
FAMILIES = [{"name": "programme", "what": "values, forward and backward derivatives of random programmes", "strategy": strategy, "weight": 4, "max_examples": {"quick": 1000, "thorough": 40000}},
            {"name": "vectors", "what": "the vector space of optimisers", "strategy": vector_strategy, "weight": 1, "max_examples": {"quick": 300, "thorough": 8000}}]
