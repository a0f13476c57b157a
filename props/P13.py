"""P13: meshes come and go, at different times on different ranks."""
from pmbase import *

RULE = ("A history of making equal and different meshes over a communicator, of letting go of them (or only of their fields) at once, late, or in reference cycles, on some ranks before others, and of using those that are left. "
        "Transforms of every living mesh are compared to NumPy; the lowest free communicator handle is compared before and after. Non-trivial: more than one rank, and some rank let go of a mesh before another.")
ASSUMPTIONS = ["A rank that does not answer in time hangs.",
               "Open MPI numbers communicators from the lowest free handle on, so that leaked ones move it."]
TIMEOUT = 25
BUDGET = {"quick": 25, "thorough": 300}

POOL = [([4, 4, 4], "f8"), ([4, 4, 4], "f4"), ([4, 6, 4], "f8"), ([6, 4, 4], "f8"), ([4, 6], "f8"), ([6, 4], "f8"), ([4, 4, 4], "c16")]
OPS = ["make"] * 8 + ["drop"] * 5 + ["cycle"] * 3 + ["gc", "gc", "use", "use", "field", "same"]


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        n = draw(st.sampled_from([1, 2, 2, 3, 4, 4] if tier == "quick" else [2, 3, 4, 4, 5, 8]))
        pool = draw(st.lists(st.sampled_from(POOL), min_size=1, max_size=2))
        twin = draw(st.sampled_from(["none", "dup"] + ["pairs"] * 2 * (n % 2 == 0 and n > 2)))
        m = 2 if twin == "pairs" else n
        specs = [{"N": N, "dtype": t, "np": draw(st.sampled_from([None] + meshes(m, len(N)) + full_meshes(m, len(N))[:3]))} for N, t in pool]
        steps = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 7), st.integers(0, 255)).map(list), min_size=3, max_size=14 if tier == "quick" else 40))
        return {"nranks": n, "specs": specs, "steps": steps, "vseed": draw(seeds()), "twin": twin}
    return make()


_own = {}


def handle(comm):
    """The lowest free communicator handle."""
    d = comm.Dup()
    h = d.py2f()
    d.Free()
    return h


def check(case, comm):
    import gc
    import numpy as np
    from pmesh.pm import ParticleMesh
    # the meshes have communicators of their own: ranks out of step there do
    # not disturb what is compared here
    if comm.size not in _own:
        a, b = comm.Dup(), comm.Dup()
        _own[comm.size] = {"none": [a, a], "dup": [a, b]}
        if comm.size % 2 == 0:
            # pairs of ranks, grouped in two ways that give each rank the same number
            h = comm.size // 2
            up = comm.rank % 2
            _own[comm.size]["pairs"] = [comm.Split(comm.rank // 2, up), comm.Split((comm.rank // 2 + up) % h, up)]
        # whatever the first mesh of all sets up for good
        for N in [2] * 3, [2] * 2:
            for dtype in "f8", "f4", "c16":
                for m in None, [1] * (len(N) - 1) + [comm.size]:
                    ParticleMesh(Nmesh=N, comm=comm, dtype=dtype, np=m)
    me, size = comm.rank, comm.size
    specs = case["specs"]
    owns = _own[size][case["twin"]]
    full = [values(s["N"], s["dtype"], case["vseed"]) for s in specs]

    def build(k, n):
        s = specs[k]
        return ParticleMesh(Nmesh=s["N"], BoxSize=float(n % 3 + 1), comm=owns[n % 2], np=s["np"], dtype=s["dtype"],
                            resampler=["cic", "tsc"][n % 2])

    def probe(k, pm, what):
        s = specs[k]
        f = put(pm.create(type="real"), full[k])
        comm = pm.comm
        want = half(modes(full[k]), s["N"], s["dtype"])
        for ty in TYPES[1:]:
            c = f.r2c(pm.create(type=ty))
            close(gather(c, comm, what), want, eps(s["dtype"]) * 4, 1, "%s: transform (%s)", what, ty)
            close(gather(c.c2r(), comm, what), full[k], eps(s["dtype"]) * 20, np.sqrt(full[k].size), "%s: transform (%s) and back", what, ty)

    gc.collect()
    gc.disable()
    try:
        before = comm.allgather(handle(comm))
        alive = []          # what all ranks hold: [spec, mesh or None, field or None]
        late = []           # what only some ranks still hold
        apart = 0
        for n, (op, a, who) in enumerate(case["steps"]):
            what = "step %d (%s)" % (n, op)
            if not alive and op not in ("make", "same", "gc"):
                op = "make"
            mine = who >> me & 1
            some = 0 < sum(who >> r & 1 for r in range(size)) < size
            if op == "make":
                k = a % len(specs)
                pm = build(k, n)
                probe(k, pm, what)
                alive.append([k, pm, None])
                pm = None
                if len(alive) > 5:
                    late.append(alive.pop(0))
            elif op == "same":
                # equal ones share what the first has
                k = a % len(specs)
                many = [build(k, 2 * q) for q in range(2)]
                h = handle(comm)
                many += [build(k, 2 * q) for q in range(2, 5)]
                got = comm.allgather([h, handle(comm)])
                require(all(x == y for x, y in got), "%s: equal meshes alive together take communicators of their own: free handles %s", what, got)
                for pm in many:
                    probe(k, pm, what)
                many = pm = None
            elif op == "field":
                e = alive[a % len(alive)]
                if e[1] is not None:
                    e[2] = put(e[1].create(type="real"), full[e[0]])
                    e[1] = None
            elif op == "use":
                e = alive[a % len(alive)]
                probe(e[0], e[1] if e[1] is not None else e[2].pm, what)
            elif op in ("drop", "cycle"):
                e = alive.pop(a % len(alive))
                apart += some
                if mine and op == "cycle":
                    e.append(e)
                elif not mine:
                    late.append(e)
                e = None
            elif op == "gc" and mine:
                gc.collect()
                if me % 2:
                    del late[:]
            for e in alive:
                if e[2] is not None:
                    equal(e[2].value, full[e[0]][e[2].slices], "%s: a field whose mesh was let go of", what)
            e = None
        for k in range(len(specs)):
            probe(k, build(k, 0), "in the end")
        for e in alive:
            probe(e[0], e[1] if e[1] is not None else e[2].pm, "in the end, one made earlier")
        e = None
        del alive[:], late[:]
        gc.collect()
        after = comm.allgather(handle(comm))
        require(after == before, "communicators are left behind by meshes that are gone: lowest free handles %s, before %s", after, before)
    finally:
        gc.enable()
    return {"nontrivial": bool(size > 1 and apart), "labels": ["ranks:%d" % size, "communicators:" + case["twin"]] + sorted(set(s[0] for s in case["steps"]))}


FAMILIES = [{"name": "churn", "what": "meshes made and let go of on some ranks before others", "strategy": strategy,
             "max_examples": {"quick": 800, "thorough": 20000}}]
