"""P07: apply, slabs, norms and arithmetic."""
from pmbase import *

RULE = ("A field of any type over 1 to 6 (thorough: 8) ranks, and functions of coordinates and values, or expressions. Non-trivial: more than one rank or a mesh with different side lengths.")
ASSUMPTIONS = ["The function given to apply is a pure function of its arguments, point by point."]
BUDGET = {"quick": 30, "thorough": 400}

RKINDS = ["relative", "absolute", "index", "default"]
CKINDS = ["wavenumber", "circular", "index", "default"]


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dtypes=("f8", "f8", "f8", "f4", "c16", "c8"))
        ty = c["type"] = draw(st.sampled_from(TYPES))
        c["kind"] = draw(st.sampled_from(RKINDS if ty == "real" else CKINDS))
        c["vseed"] = draw(seeds())
        c["func"] = draw(st.sampled_from(["linear", "linear", "norm", "norm", "scalar", "inplace", "value"]))
        c["p"] = draw(st.sampled_from([None, 2, 1, 4, 0.5, 3]))
        c["zeromode"] = draw(st.sampled_from([None, None, 1, 1.0, 0.25, -3.0]))
        c["out"] = draw(st.sampled_from(["none", "inplace", "field", "self", "array", "array"]))
        c["layout"] = draw(st.sampled_from(["C", "F", "roll", "step", "mix", "neg"]))
        c["coef"] = [draw(dyadic(-2, 2, 8)) for _ in range(len(c["N"]) + 1)]
        return c
    return make()


def coords(kind, ty, c, shape):
    """Coordinates of every stored point of the whole mesh."""
    import numpy as np
    N, L, nd = c["N"], c["L"], len(c["N"])
    out = []
    for d in range(nd):
        i = np.arange(shape[d])
        f = freqs(N[d], shape[d])
        v = {"index": i, "relative": f * L[d] / N[d], "absolute": f * L[d] / N[d],
             "wavenumber": f * 2 * np.pi / L[d], "circular": f * 2 * np.pi / N[d]}[kind]
        out.append((v * 1.0).reshape([-1 if e == d else 1 for e in range(nd)]))
    return out


def normp(x, p, zero):
    import numpy as np
    n = sum(abs(a) ** (2 if p is None else p) for a in x) + 0.0
    if zero is not None:
        n = np.where(n == 0, zero, n)
    return n


def check_apply(c, comm):
    import numpy as np
    pm = make_pm(c, comm)
    ty = c["type"]
    shape = cshape(c["N"], ty, c["dtype"])
    dt = c["dtype"] if ty == "real" else ctype(c["dtype"])
    full = values(shape, dt, c["vseed"])
    f = put(pm.create(type=ty), full)
    kind = c["kind"]
    k = {"default": "relative" if ty == "real" else "wavenumber"}.get(kind, kind)
    X = coords(k, ty, c, shape)
    coef, p, zero, fn = c["coef"], c["p"], c["zeromode"], c["func"]
    kw = {}
    if p is not None:
        kw["p"] = p
    if zero is not None:
        kw["zeromode"] = zero
    seen = [0]

    def func(x, y):
        b = np.broadcast(*(list(x) + [y]))
        if len(x) != len(c["N"]) or b.shape != y.shape:
            raise AssertionError("coordinates of shapes %s for a slab %s" % ([a.shape for a in x], y.shape))
        seen[0] += y.size
        if fn == "linear":
            return coef[-1] * y + sum(a * q for a, q in zip(coef, x))
        if fn == "norm":
            return y * coef[-1] + x.normp(**kw)
        if fn == "scalar":
            return 2.5
        if fn == "value":
            return abs(y) ** 2
        y[...] = y * 2 + x[0]           # works on the slab itself
        return y
    B = np.broadcast_to
    if fn == "linear":
        want = coef[-1] * full + B(sum(a * q for a, q in zip(coef, X)), shape)
    elif fn == "norm":
        want = full * coef[-1] + B(normp(X, p, zero), shape)
    elif fn == "scalar":
        want = np.full(shape, 2.5)
    elif fn == "value":
        want = abs(full) ** 2
    else:
        want = full * 2 + B(X[0], shape)
    args = {} if kind == "default" else {"kind": kind}
    o = c["out"]
    block = mask = None
    if fn == "inplace" and o not in ("inplace", "self"):
        o = "inplace"       # that function changes its source by itself
    if o == "none":
        r = f.apply(func, **args)
    elif o == "inplace":
        r = f.apply(func, out=Ellipsis, **args)
    elif o == "self":
        r = f.apply(func, out=f, **args)
    elif o == "field":
        h = pm.create(type=ty, value=-7)
        r = f.apply(func, out=h, **args)
    else:
        h, block, mask = strided(f.shape, dt, c["layout"], guard=-9)
        r = f.apply(func, out=h, **args)
    require(seen[0] == f.size, "the function saw %d values of %d", seen[0], f.size)
    scale = np.abs(want).max() + np.abs(full).max() * 3 + sum(np.abs(x).max() for x in X) * 2 + 1 if want.size else 1
    if fn == "norm":
        scale = scale + np.abs(normp(X, p, zero)).max() * 4
    t = 1e-12 if c["dtype"] not in ("f4", "c8") else 1e-5
    what = "%s of kind %s on a %s field, mesh %s" % (fn, kind, ty, c["N"])
    if o == "array":
        close(h, want[f.slices], t, scale, "apply into an array, " + what)
        require((block[~mask] == np.asarray(-9, dt)).all(), "apply wrote outside the given array")
    else:
        if o in ("inplace", "self"):
            h = f
        elif o == "none":
            h = r
            require(h is not f, "apply without out returned its source")
        require(kind_of(h) == ty, "apply made a %s", type(h).__name__)
        close(gather(h, comm), want, t, scale, "apply, " + what)
        close(np.array(np.asarray(r)), want[f.slices], t, scale, "the value returned by apply, " + what)
    if o in ("none", "field", "array"):
        equal(f.value, full[f.slices], "the source after apply, " + what)
    return {"nontrivial": bool(comm.size > 1 or len(set(c["N"])) > 1), "labels": labels(c) + ["field:" + ty, "kind:" + kind, "func:" + fn, "out:" + o]}


def check_slabs(c, comm):
    """Iterating over slabs visits each point once, with matching coordinates."""
    import numpy as np
    pm = make_pm(c, comm)
    ty = c["type"]
    shape = cshape(c["N"], ty, c["dtype"])
    dt = c["dtype"] if ty == "real" else ctype(c["dtype"])
    full = values(shape, dt, c["vseed"])
    f = put(pm.create(type=ty), full)
    X = coords("relative" if ty == "real" else "wavenumber", ty, c, shape)
    t = 1e-12 if c["dtype"] not in ("f4", "c8") else 1e-6
    count = np.zeros(shape, int)
    n = 0
    for s, x, i in zip(f.slabs, f.slabs.x, f.slabs.i):
        n += 1
        idx = tuple(np.broadcast_to(a, s.shape) for a in i)
        equal(np.array(s), full[idx], "values of a slab of a %s field, mesh %s", ty, c["N"])
        np.add.at(count, idx, 1)
        for d in range(len(shape)):
            want = np.broadcast_to(X[d], shape)[idx]
            sc = np.abs(X[d]).max() + 1e-300
            close(np.broadcast_to(x[d], s.shape), want, t, sc, "coordinate %d of a slab of a %s field, mesh %s", d, ty, c["N"])
            close(np.broadcast_to(s.x[d], s.shape), want, t, sc, "attribute x of a slab of a %s field, mesh %s", ty, c["N"])
            equal(np.broadcast_to(s.i[d], s.shape), idx[d], "attribute i of a slab of a %s field, mesh %s", ty, c["N"])
        for q in (s, x, i):
            equal(q.BoxSize, c["L"], "box of a slab")
            equal(q.Nmesh, c["N"], "mesh of a slab")
        w = normp([X[d] for d in range(len(shape))], c["p"], c["zeromode"])
        kw = {}
        if c["p"] is not None:
            kw["p"] = c["p"]
        if c["zeromode"] is not None:
            kw["zeromode"] = c["zeromode"]
        a = x.normp(**kw)
        close(np.broadcast_to(a, s.shape), np.broadcast_to(w, shape)[idx], t * 100, np.abs(w).max() + 1e-300, "norm of the coordinates of a slab")
        s[...] = s * 2
    want = np.zeros(shape, int)
    want[f.slices] = 1
    equal(count, want, "visits of each point")
    equal(f.value, (full * 2)[f.slices], "the field after its slabs were doubled")
    return {"nontrivial": bool(comm.size > 1 or len(set(c["N"])) > 1), "labels": labels(c) + ["field:" + ty]}


OPS = {
    "f+g": lambda f, g, a: f + g, "f-g": lambda f, g, a: f - g, "f*g": lambda f, g, a: f * g, "f/g": lambda f, g, a: f / g,
    "f+2": lambda f, g, a: f + 2, "2-f": lambda f, g, a: 2 - f, "3*f": lambda f, g, a: 3 * f, "1/f": lambda f, g, a: 1 / f, "f/4": lambda f, g, a: f / 4,
    "f+a": lambda f, g, a: f + a, "a-f": lambda f, g, a: a - f, "a*f": lambda f, g, a: a * f, "f/a": lambda f, g, a: f / a,
    "-f": lambda f, g, a: -f, "abs": lambda f, g, a: abs(f), "f**2": lambda f, g, a: f ** 2, "+f": lambda f, g, a: +f,
    "2.5*f-g/2": lambda f, g, a: 2.5 * f - g / 2,
}
# whose values are not real: arrays where the field is
IMAGINARY = {"1j*f": lambda f, g, a: 1j * f, "f*(1+2j)": lambda f, g, a: f * (1 + 2j), "f+1j*a": lambda f, g, a: f + 1j * a,
             "f-1j": lambda f, g, a: f - 1j, "exp(1j*f)": lambda f, g, a: __import__("numpy").exp(1j * f), "a*1j/f": lambda f, g, a: a * 1j / f}
# functions of one and of two numbers, of real values and of complex ones
UNARY = ["negative", "positive", "absolute", "exp", "square", "conjugate", "sin", "cos", "tanh", "expm1", "sign_", "rint", "reciprocal"]
REAL1 = ["fabs", "floor", "ceil", "trunc", "cbrt", "arctan", "sinh", "spacing_"]
BINARY = ["add", "subtract", "multiply", "true_divide"]
REAL2 = ["maximum", "minimum", "fmax", "arctan2", "hypot", "copysign", "fmod_", "remainder_", "floor_divide_"]
RELATION = ["not_equal", "equal"]
REAL0 = ["less", "greater_equal", "isfinite", "signbit"]
TWO = ["modf", "frexp", "divmod_"]


def op_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dtypes=("f8", "f8", "f8", "f4", "c16", "c8"))
        c["type"] = draw(st.sampled_from(TYPES))
        c["vseed"] = draw(seeds())
        real = c["type"] == "real" and not is_complex(c["dtype"])
        k = draw(st.sampled_from(["expr", "expr", "unary", "unary", "binary", "binary", "relation", "two", "reduce", "outer", "at", "iadd", "setitem", "expr", "out", "compare", "imaginary"]))
        op = [k]
        if k == "expr":
            op.append(draw(st.sampled_from(sorted(OPS))))
        elif k == "imaginary":
            op.append(draw(st.sampled_from(sorted(IMAGINARY))))
        elif k == "unary":
            op.append(draw(st.sampled_from(UNARY + (REAL1 if real else []))))
        elif k in ("binary", "out", "at", "reduce", "outer"):
            op.append(draw(st.sampled_from(BINARY[:3] if k in ("at", "reduce", "outer") else BINARY + (REAL2 if real else []))))
        elif k == "relation":
            op.append(draw(st.sampled_from(RELATION + (REAL0 if real else []))))
        elif k == "two":
            if not real:
                op = ["expr", "f*g"]
            else:
                op.append(draw(st.sampled_from(TWO)))
        c["op"] = op
        # operands: fields, arrays, numbers, of any type and order
        c["other"] = draw(st.sampled_from(["field", "field", "copy", "array", "fortran", "float", "int", "np", "0d", "row", "f4"]))
        c["swap"] = draw(st.booleans())
        c["out"] = draw(st.sampled_from(["none", "none", "field", "array", "self", "other"]))
        c["axis"] = draw(st.integers(0, 3))
        c["method"] = draw(st.sampled_from(["reduce", "reduce", "accumulate"]))
        c["keep"] = draw(st.booleans())
        c["iops"] = draw(st.lists(st.sampled_from(["iadd", "isub", "imul", "itruediv"]), min_size=1, max_size=4))
        return c
    return make()


def check_ops(c, comm):
    import numpy as np
    pm = make_pm(c, comm)
    ty, (k, *name) = c["type"], c["op"]
    name = name[0] if name else k
    shape = cshape(c["N"], ty, c["dtype"])
    dt = c["dtype"] if ty == "real" else ctype(c["dtype"])
    F = values(shape, dt, c["vseed"])
    G = values(shape, dt, c["vseed"] + 1)
    G = np.where(np.abs(G) < 0.1, 1, G).astype(dt)
    F = np.where(np.abs(F) < 0.1, -1, F).astype(dt)
    f, g = put(pm.create(type=ty), F), put(pm.create(type=ty), G)
    sl = f.slices
    a = G[sl].copy()
    t = 1e-12 if c["dtype"] not in ("f4", "c8") and c["other"] != "f4" else 4e-6
    u = getattr(np, name.rstrip("_"), None)
    what = "%s %s of %s fields" % (k, name, ty)

    def verify(r, want, what=what, part=False):
        """r is a field with these values (of this rank, or all of them)."""
        require(not isinstance(r, np.ndarray), "%s: an array, not a field", what)
        require(kind_of(r) == ty and r.pm is pm, "%s made a %s of another mesh", what, type(r).__name__)
        require(r is not f and r is not g and not np.shares_memory(r.value, f.value) and not np.shares_memory(r.value, g.value), "%s returned memory of its operand", what)
        want = np.asarray(want)
        m = np.abs(want)
        m = m[np.isfinite(m)].max() if np.isfinite(m).any() else 0
        if part:
            close(r.value, want, t, m + 1, what)
        else:
            close(gather(r, comm), want, t, m + 1, what)

    def verify_array(r, want):
        require(isinstance(r, (np.ndarray, np.generic)), "%s: a %s, not an array", what, type(r).__name__)
        require(r.shape == want.shape, "%s: shape %s, expected %s", what, r.shape, want.shape)
        close(r, want, t, (np.abs(want).max() if want.size else 0) + 1, what)

    def other():
        """The second operand, and the values it stands for, everywhere."""
        o = c["other"]
        if o == "field":
            return g, G
        if o == "copy":
            return g.copy(), G
        if o == "array":
            return a, G
        if o == "fortran":
            return np.asfortranarray(a), G
        if o == "row":
            return a[:1, ..., :1] * 0 + 3, 3
        if o == "f4":
            lo = G.astype("c8" if np.dtype(dt).kind == "c" else "f4")
            return lo[sl].copy(), lo
        v = {"float": 2.5, "int": 3, "np": np.dtype(dt).type(1.5), "0d": np.array(0.75, dt)}[o]
        return v, v
    if k == "expr":
        verify(OPS[name](f, g, a), OPS[name](F, G, G))
    elif k == "imaginary":
        r, want = IMAGINARY[name](f, g, a), IMAGINARY[name](F, G, G)
        if is_complex(dt):
            verify(r, want)
        else:
            verify_array(r, want[sl])
    elif k == "unary":
        want = u(F)
        if np.dtype(want.dtype) == bool:
            verify_array(u(f), want[sl])
        else:
            verify(u(f), want)
    elif k == "relation":
        if u.nin == 1:
            r, want = u(f), u(F)
        else:
            G2 = np.where(G > 0, F, G) if not is_complex(dt) else np.where(G.real > 0, F, G)
            r, want = u(f, put(pm.create(type=ty), G2)), u(F, G2)
        require(isinstance(r, np.ndarray) and r.dtype == bool, "%s returned a %s", what, type(r).__name__)
        equal(r, want[sl], what)
    elif k == "compare":
        r = (f == g, f != 2)
        require(all(isinstance(x, np.ndarray) and x.dtype == bool for x in r), "%s returned %s", what, [type(x).__name__ for x in r])
        equal(r[0], (F == G)[sl], what)
        equal(r[1], (F != 2)[sl], what)
    elif k == "two":
        x = (f,) if u.nin == 1 else (f, g)
        X = (F,) if u.nin == 1 else (F, G)
        r, want = u(*x), u(*X)
        require(len(r) == 2, "%s returned %d things", what, len(r))
        for i, (p, w) in enumerate(zip(r, want)):
            if u is np.divmod:
                # next to a multiple, rounding of the division decides
                continue
            verify(p, w, "%s (part %d)" % (what, i))
        if u is np.divmod:
            verify(r[0] * g + r[1], F)
    elif k in ("binary", "out"):
        x, X = other()
        args, ARGS = ((x, f), (X, F)) if c["swap"] else ((f, x), (F, X))
        want = u(*ARGS)
        near = name in ("fmod_", "remainder_", "floor_divide_")
        o = c["out"] if k == "out" else "none"
        if o == "none":
            r = u(*args)
            if near:
                require(kind_of(r) == ty, what)
            else:
                verify(r, want)
        else:
            h = {"field": lambda: pm.create(type=ty, value=-5), "array": lambda: np.zeros_like(a), "self": lambda: f, "other": lambda: g}[o]()
            r = u(*args, out=h)
            require(r is h, "%s with out (%s) returned another object", what, o)
            v = h if o == "array" else h.value
            w = np.broadcast_to(want, shape)[sl]
            if not near:
                close(v, w, t, (np.abs(w).max() if w.size else 0) + 1, "%s with out (%s)", what, o)
            if o in ("self", "other"):
                if o == "self" and x is not g:
                    equal(g.value, G[sl], "a field that is no operand of %s", what)
                return {"nontrivial": True, "labels": labels(c) + ["field:" + ty, "op:" + k]}
    elif k == "reduce":
        ax = c["axis"] % len(shape)
        if f.shape[ax] == 0 or f.size == 0:
            return {"nontrivial": False, "labels": ["empty"]}
        kw = {"keepdims": True} if c["method"] == "reduce" and c["keep"] else {}
        r = getattr(u, c["method"])(f, axis=ax, **kw)
        want = getattr(u, c["method"])(F[sl], axis=ax, **kw)
        t *= 20
        if want.shape == f.shape:
            verify(r, want, part=True)
        else:
            verify_array(r, want)
    elif k == "outer":
        if f.size > 300:
            return {"nontrivial": False, "labels": ["large"]}
        v = np.arange(3).astype(dt)
        verify_array(u.outer(f, v), u.outer(F[sl], v))
    elif k == "at":
        h = pm.create(type=ty, value=f)
        want = F[sl].copy()
        if f.size:
            # (indices along the first axis; NumPy's tuples of indices are turned down)
            i = np.random.RandomState(c["vseed"] % 2 ** 32).randint(0, f.shape[0], size=5)
            require(u.at(h, i, 2) is None, "%s returned something", what)
            u.at(want, i, 2)
        close(h.value, want, t, (np.abs(want).max() if want.size else 0) + 1, what)
    elif k == "iadd":
        # every name for the field sees all that is done to it in place
        import operator
        h, W, A = f, F, np.abs(F)
        x, X = other()
        for op in c["iops"]:
            if op == "itruediv":
                y, Y = 2, 2
            else:
                y, Y = x, X
            h = getattr(operator, op)(h, y)
            W = {"iadd": lambda: W + Y, "isub": lambda: W - Y, "imul": lambda: W * Y, "itruediv": lambda: W / Y}[op]()
            A = {"iadd": lambda: A + np.abs(Y), "isub": lambda: A + np.abs(Y), "imul": lambda: A * np.abs(Y), "itruediv": lambda: A / 2}[op]()
        what = " ".join(c["iops"])
        close(gather(h, comm), W, t, A + 1, "%s of %s fields", what, ty)
        close(gather(f, comm), W, t, A + 1, "the field itself after %s of %s fields", what, ty)
        equal(g.value, G[sl], "the right operand of an in-place operator")
        return {"nontrivial": True, "labels": labels(c) + ["op:" + k]}
    else:
        h = pm.create(type=ty, value=f)
        h[...] += g
        h[...] *= 2
        close(gather(h, comm), (F + G) * 2, t, np.abs(F + G) * 2 + 1, "item assignment of %s fields", ty)
        equal(h[...], h.value, "the whole of a field as an item")
        equal(np.asarray(h), h.value, "a field as an array")
    equal(f.value, F[sl], "the left operand after %s", what)
    equal(g.value, G[sl], "the right operand after %s", what)
    equal(a, G[sl], "the array after %s", what)
    return {"nontrivial": bool(comm.size > 1 or len(set(c["N"])) > 1), "labels": labels(c) + ["field:" + ty, "op:" + k]}


def check(case, comm):
    return {"apply": check_apply, "slabs": check_slabs, "ops": check_ops}[case["family"]](case, comm)


FAMILIES = [
    {"name": "apply", "what": "functions of coordinates and values, into every kind of output", "strategy": strategy, "weight": 3, "max_examples": {"quick": 1500, "thorough": 40000}},
    {"name": "slabs", "what": "slab iteration and norms of coordinates", "strategy": strategy, "weight": 1, "max_examples": {"quick": 700, "thorough": 20000}},
    {"name": "ops", "what": "arithmetic and ufuncs", "strategy": op_strategy, "weight": 2, "max_examples": {"quick": 1000, "thorough": 20000}},
]
