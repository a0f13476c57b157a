"""P04: setting and reading modes by global index."""
from pmbase import *

RULE = ("A field of some type and layout over 1 to 6 (thorough: 8) ranks and a sequence of sets and reads of modes (whole, real or imaginary part; negative, "
        "self-conjugate and unstored indices), followed by a model of the full Hermitian mode array; the whole field is compared after every set. "
        "Non-trivial: at least two operations on a mesh of more than two points.")
ASSUMPTIONS = []
BUDGET = {"quick": 30, "thorough": 300}


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dtypes=("f8", "f8", "f4", "c16", "c8"))
        c["type"] = draw(st.sampled_from(["real"] + TYPES[1:] * 3))
        c["vseed"] = draw(seeds())
        ops = []
        nd = len(c["N"])
        for _ in range(draw(st.integers(1, 8 if tier == "quick" else 20))):
            idx = [draw(st.one_of(st.integers(-n, n - 1), st.sampled_from([0, n // 2, -(n // 2), -1, n - 1]))) for n in c["N"]]
            idx = [min(max(i, -n), n - 1) for i, n in zip(idx, c["N"])]
            ops.append({"op": draw(st.sampled_from(["set", "set", "get"])), "i": idx, "part": draw(st.sampled_from([None, None, 0, 1])),
                        "y": [draw(dyadic(-8, 8, 8)), draw(dyadic(-8, 8, 8))], "as": draw(st.sampled_from(["list", "tuple", "array"])),
                        "kind": draw(st.sampled_from(["python", "numpy", "float", "int"]))})
        c["ops"] = ops
        return c
    return make()


def check(c, comm):
    import numpy as np
    pm = make_pm(c, comm)
    N = c["N"]
    ty = c["type"]
    full = values(N, c["dtype"], c["vseed"], "dyadic")
    cplx = ty != "real"
    if cplx:
        # of type complex meshes too: these operations keep any field Hermitian
        A = modes(full.real.astype("f8"))
        h = half(A, N, c["dtype"]).astype(ctype(c["dtype"]))
        A = h.copy() if is_complex(c["dtype"]) else unhalf(h, N)
        f = put(pm.create(type=ty), h)
    else:
        A = full.copy()
        f = put(pm.create(type=ty), full)
    stored = cshape(N, ty, c["dtype"])
    n = 0
    for o in c["ops"]:
        idx = tuple(i % m for i, m in zip(o["i"], N))
        dual = tuple(-i % m for i, m in zip(idx, N))
        part = o["part"] if cplx else None
        arg = list(o["i"]) + ([part] if part is not None else [])
        arg = {"list": list, "tuple": tuple, "array": np.array}[o["as"]](arg)
        keep = np.array(arg)
        if o["op"] == "get":
            v = f.cgetitem(arg)
            want = A[idx] if part is None else (A[idx].real, A[idx].imag)[part]
            require(v == want, "rank %d reads %r at %s, expected %r", comm.rank, v, arg, want)
            n += 1
            continue
        y = complex(*o["y"]) if cplx and part is None else o["y"][0]
        if o["kind"] == "numpy":
            y = (np.complex128 if isinstance(y, complex) else np.float64)(y)
        elif o["kind"] == "float":
            y = float(o["y"][0])
        elif o["kind"] == "int":
            y = int(o["y"][0])
        ret = f.csetitem(arg, y)
        equal(np.array(arg), keep, "the index after the call")
        if not cplx:
            A[idx] = y
            want = y
        elif part is None:
            want = np.real(y) if dual == idx else y
            A[idx] = want
            A[dual] = np.conj(want)
        else:
            want = 0 if part == 1 and dual == idx else y
            if part == 0:
                A.real[idx] = want
                A.real[dual] = want
            else:
                A.imag[idx] = want
                A.imag[dual] = -want
        require(ret == want, "csetitem(%s, %r) returned %r on rank %d, stored %r", arg, y, ret, comm.rank, want)
        equal(gather(f, comm), A[tuple(slice(0, m) for m in stored)], "the field after csetitem(%s, %r)", arg, y)
        n += 1
    return {"nontrivial": bool(n >= 2 and np.prod(N) > 2), "labels": labels(c) + ["field:" + ty]}


FAMILIES = [{"name": "modes", "what": "sequences of csetitem and cgetitem against a model", "strategy": strategy, "max_examples": {"quick": 1500, "thorough": 50000}}]
