"""P06: collective reductions."""
from pmbase import *

RULE = ("Two fields of a mesh of any side lengths over 1 to 6 (thorough: 8) ranks, and a metric. Non-trivial: a mesh of more than two points.")
ASSUMPTIONS = ["Only the real part of the inner product of complex fields is specified (the code says the imaginary part is not).",
               "Inner products of meshes of complex configuration-space values are left out for real fields: whether they conjugate is not documented."]
BUDGET = {"quick": 25, "thorough": 300}


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dtypes=("f8", "f8", "f4", "c16", "c8"), big=True)
        c["type"] = draw(st.sampled_from(TYPES))
        c["vseed"] = draw(seeds())
        c["metric"] = draw(st.sampled_from([None, "linear", "square", "exp", "band"]))
        c["zero"] = draw(st.integers(0, 9)) == 0
        c["other"] = draw(st.sampled_from(["field", "array", "itself"]))
        return c
    return make()


METRIC = {"linear": lambda k: 1.0 + k, "square": lambda k: k ** 2, "exp": None, "band": None}


def metric(c):
    import numpy as np
    kf = max(2 * np.pi / l for l in c["L"])
    return {None: None, "linear": lambda k: 1.0 + k / kf, "square": lambda k: k * k, "exp": lambda k: np.exp(-k / kf),
            "band": lambda k: 1.0 / (1.0 + (k / kf) ** 2)}[c["metric"]]


def same(v, comm, what):
    import numpy as np
    a = comm.allgather(v)
    require(all(np.array_equal(x, a[0]) for x in a), "%s differs between ranks: %s", what, a)


def check(c, comm):
    import numpy as np
    pm = make_pm(c, comm)
    ty, N = c["type"], c["N"]
    a, b = values(N, c["dtype"], c["vseed"]), values(N, c["dtype"], c["vseed"] + 1)
    if c["zero"]:
        b = b * 0
    A, B = a.astype("c16"), b.astype("c16")
    # sums of single precision carry a rounding error per term
    t = 1e-5 if c["dtype"] in ("f4", "c8") else 1e-11
    if ty == "real":
        f, g = put(pm.create(type=ty), a), put(pm.create(type=ty), b)
        s, m = f.csum(), f.cmean()
        same(s, comm, "csum")
        close(s, A.sum() if is_complex(c["dtype"]) else A.sum().real, t, np.abs(A).sum() + 1, "csum")
        close(m, (A.mean() if is_complex(c["dtype"]) else A.mean().real), t, np.abs(A).mean() + 1, "cmean")
        if c["dtype"] == "f4":
            s8 = f.csum(dtype="f8")
            close(s8, A.sum().real, 1e-11, np.abs(A).sum() + 1, "csum in double precision")
            close(f.cmean(dtype="f8"), A.mean().real, 1e-11, np.abs(A).mean() + 1, "cmean in double precision")
        if not is_complex(c["dtype"]):
            o = {"field": g, "array": g.value, "itself": f}[c["other"]]
            y = B if c["other"] != "itself" else A
            d = f.cdot(o)
            same(d, comm, "cdot")
            close(d, (A * y).sum().real, t, np.abs(A * y).sum() + 1, "cdot of real fields")
            close(f.cnorm(), (A * A).sum().real, t, np.abs(A * A).sum(), "cnorm of a real field")
            close(f.r2c().cdot(g.r2c()).real, (A * B).sum().real / A.size, t * 10, np.sqrt((np.abs(A) ** 2).sum() * (np.abs(B) ** 2).sum()) / A.size + 1e-6,
                  "inner product of the transforms and of the fields")
        equal(f.value, a[f.slices], "the field after reductions")
        equal(g.value, b[g.slices], "the other field after reductions")
    else:
        FA, FB = modes(A), modes(B)
        f, g = make_field(pm, ty, a, c), make_field(pm, ty, b, c)
        if is_complex(c["dtype"]):
            FA, FB = FA.astype("c16"), FB.astype("c16")
        fv, gv = f.value.copy(), g.value.copy()
        w = metric(c)
        k2 = sum(k ** 2 for k in kgrid(N, c["L"], N))
        W = w(np.sqrt(k2)) if w else np.ones(N)
        o = {"field": g, "array": g.value, "itself": f}[c["other"]]
        FY = FA if c["other"] == "itself" else FB
        kw = {} if w is None else {"metric": w}
        d = f.cdot(o, **kw)
        same(d, comm, "cdot")
        terms = FA * np.conj(FY) * W
        close(d if is_complex(c["dtype"]) else np.real(d), terms.sum() if is_complex(c["dtype"]) else terms.sum().real, t, np.abs(terms).sum() + 1e-9, "cdot of %s fields with metric %s, mesh %s", ty, c["metric"], N)
        n = f.cnorm(**kw)
        same(n, comm, "cnorm")
        P = np.abs(FA) ** 2 * W
        close(np.real(n), P.sum(), t, P.sum() + 1e-9, "cnorm of a %s field with metric %s, mesh %s", ty, c["metric"], N)
        close(np.imag(n), 0.0, t, P.sum() + 1e-9, "imaginary part of cnorm")
        n1 = f.cnorm(norm=lambda x: abs(x), **kw)
        P1 = np.abs(FA) * W
        close(np.real(n1), P1.sum(), t, P1.sum() + 1e-9, "cnorm with another norm")
        equal(f.value, fv, "the field after reductions")
        equal(g.value, gv, "the other field after reductions")
        other = "untransposedcomplex" if ty == "transposedcomplex" else "transposedcomplex"
        try:
            f.cdot(pm.create(type=other, value=0))
        except TypeError:
            pass
        else:
            violation("cdot accepts a field of another layout")
    return {"nontrivial": bool(np.prod(N) > 2), "labels": labels(c) + ["field:" + ty, "metric:%s" % c["metric"]]}


FAMILIES = [{"name": "reduce", "what": "sums, means, norms and inner products", "strategy": strategy, "max_examples": {"quick": 1500, "thorough": 50000}}]
