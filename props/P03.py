"""P03: Fourier transforms and conversions."""
from pmbase import *

RULE = ("transform: one field through every plan. history: a random sequence of conversions, transforms (in place, into a new or a given field), copies, "
        "linear combinations and overwrites on up to four fields, followed by a model that holds the global array each field stands for. "
        "Non-trivial: more than one point, and at least two steps in a history.")
ASSUMPTIONS = ["NumPy's FFT is the reference.", "A field whose memory was given away (in place, or as `out`) is not used again."]
BUDGET = {"quick": 35, "thorough": 400}
DT = ("f8", "f8", "f4", "c16", "c8")


def transform_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dtypes=DT, big=True)
        c["vseed"] = draw(seeds())
        c["plan"] = draw(st.sampled_from(["estimate"] * 7 + ["measure"]))
        return c
    return make()


def check_transform(c, comm):
    import numpy as np
    pm = make_pm(c, comm, plan_method=c.get("plan", "estimate"))
    full = values(c["N"], c["dtype"], c["vseed"])
    M = half(modes(full), c["N"], c["dtype"])
    t = eps(c["dtype"]) * 4
    for ty in TYPES[1:]:
        r = put(pm.create(type="real"), full)
        f = r.r2c(pm.create(type=ty))
        require(kind_of(f) == ty, "r2c returned a %s", type(f).__name__)
        close(gather(f, comm, ty), M, t, 1, "modes (%s)", ty)
        equal(r.value, full[r.slices], "the real field after r2c out of place (%s)", ty)
        k = np.array(f.value, copy=True)
        b = f.c2r()
        close(gather(b, comm), full, t, np.sqrt(full.size) + 4, "c2r of r2c (%s)", ty)
        equal(f.value, k, "the complex field after c2r out of place (%s)", ty)
        # from given modes
        g = put(pm.create(type=ty), M.astype(ctype(c["dtype"])))
        close(gather(g.c2r(), comm), full, t, np.sqrt(full.size) + 4, "backward transform (%s)", ty)
        # in place
        if ty == "transposedcomplex":
            h = r.r2c(Ellipsis)
            close(gather(h, comm), M, t, 1, "modes (in place)")
        else:
            h = r.cast(ty, out=r)
            close(gather(h, comm), M, t, 1, "modes (in place, %s)", ty)
        b = h.c2r(Ellipsis)
        close(gather(b, comm), full, t, np.sqrt(full.size) + 4, "c2r in place (%s)", ty)
    d = put(pm.create(type="real"), full).r2c()
    close(gather(d, comm), M, t, 1, "modes (default)")
    return {"nontrivial": full.size > 1, "labels": labels(c)}


def history_strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dtypes=DT, big=True)
        c["vseed"] = draw(seeds())
        c["plan"] = draw(st.sampled_from(["estimate"] * 7 + ["measure"]))
        steps = []
        for _ in range(draw(st.integers(2, 10 if tier == "quick" else 25))):
            op = draw(st.sampled_from(["cast", "cast", "cast", "castinto", "castinto", "castself", "r2c", "c2r", "r2cself", "c2rself", "copy", "add", "scale", "new", "drop"]))
            steps.append([op, draw(st.integers(0, 3)), draw(st.integers(0, 3)), draw(st.sampled_from(TYPES))])
        c["steps"] = steps
        return c
    return make()


def check_history(c, comm):
    import numpy as np
    pm = make_pm(c, comm, plan_method=c.get("plan", "estimate"))
    dt = c["dtype"]
    t = eps(dt) * 10
    live = []           # [field, model: the configuration-space array]

    def new(ty, seed):
        a = values(c["N"], dt, seed)
        live.append([make_field(pm, ty, a, c), a.astype("c16" if is_complex(dt) else "f8")])
    new("real", c["vseed"])
    new(c["steps"][0][3], c["vseed"] + 1)
    amp = [4.0]

    def verify(n, op):
        for j, (f, a) in enumerate(live):
            ty = kind_of(f)
            want = a if ty == "real" else half(modes(a), c["N"], dt)
            s = (np.abs(a).max() + 1) * (np.sqrt(a.size) if ty == "real" else 1)
            close(gather(f, comm), want, t, s, "step %d (%s): field %d (%s)", n, op, j, ty)
    done = 0
    for n, (op, i, j, ty) in enumerate(c["steps"]):
        if not live:
            new(ty, c["vseed"] + n)
        i %= len(live)
        j %= len(live)
        f, a = live[i]
        k = kind_of(f)
        if op == "cast":
            live.append([f.cast(ty), a])
            require(kind_of(live[-1][0]) == ty, "cast to %s returned %s", ty, type(live[-1][0]).__name__)
        elif op == "castinto":
            if i == j:
                continue
            g = f.cast(ty, out=live[j][0])
            require(kind_of(g) == ty, "cast to %s returned %s", ty, type(g).__name__)
            live[j] = [g, a]
        elif op == "castself":
            live[i] = [f.cast(ty, out=f), a]
            require(kind_of(live[i][0]) == ty, "cast to %s returned %s", ty, type(live[i][0]).__name__)
        elif op in ("r2c", "r2cself"):
            if k != "real":
                continue
            if op == "r2cself":
                live[i] = [f.r2c(Ellipsis if n % 2 else f), a]
            else:
                live.append([f.r2c(), a])
        elif op in ("c2r", "c2rself"):
            if k == "real":
                continue
            if op == "c2rself":
                live[i] = [f.c2r(Ellipsis if n % 2 else f), a]
            else:
                live.append([f.c2r(), a])
        elif op == "copy":
            live.append([f.copy(), a])
        elif op == "add":
            g, b = live[j]
            if kind_of(g) != k:
                continue
            live.append([f + g, a + b])
        elif op == "scale":
            f.value[...] *= 0.5
            live[i][1] = a * 0.5
        elif op == "new":
            new(ty, c["vseed"] + 100 + n)
        elif op == "drop":
            del live[i]
        del live[:-4]
        done += 1
        verify(n, op)
    return {"nontrivial": bool(done >= 2 and np.prod(c["N"]) > 1), "labels": labels(c)}


def check(case, comm):
    return {"transform": check_transform, "history": check_history}[case["family"]](case, comm)


FAMILIES = [
    {"name": "transform", "what": "normalisation, inverse, layouts, in and out of place", "strategy": transform_strategy, "weight": 1, "max_examples": {"quick": 500, "thorough": 15000}},
    {"name": "history", "what": "sequences of conversions against a model", "strategy": history_strategy, "weight": 2, "max_examples": {"quick": 700, "thorough": 30000}},
]
