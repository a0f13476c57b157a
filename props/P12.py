"""P12: derived meshes and fields, along histories."""
from pmbase import *

RULE = ("A random history of making, reshaping, respawning and dropping particle meshes (from a small pool of settings, so that equal ones recur and share plans) and of creating, copying, converting, "
        "changing and dropping fields on them, over 1 to 6 (thorough: 8) ranks and sub-communicators. After every step every live mesh and field is compared to a model. Non-trivial: at least 4 steps took place.")
ASSUMPTIONS = ["Every rank goes through the same history (the operations are collective).",
               "A new resolution keeps a process mesh of fewer dimensions than the mesh has; the others need a newer PFFT binding than the one installed here."]
BUDGET = {"quick": 35, "thorough": 400}
# some differ in the order of their sides only
SHAPES = {2: [[4, 4], [4, 6], [5, 3], [6, 4]], 3: [[4, 4, 4], [4, 6, 2], [2, 4, 6], [2, 2, 7]]}
WINS = ["cic", "tsc", "pcs", "nnb", "lanczos2"]
OPS = ["pm", "pm", "reshape", "reshape", "reshape", "flat", "resize", "respawn", "respawn", "field", "field", "field", "copy", "copy", "castown", "cast", "inplace", "base",
       "scale", "scale", "apply", "spoil", "droppm", "droppm", "dropfield", "gc"]


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        n = draw(st.sampled_from(RANKS[tier]))
        steps = []
        for _ in range(draw(st.integers(3, 14 if tier == "quick" else 40))):
            op = draw(st.sampled_from(OPS))
            steps.append([op] + [draw(st.integers(0, 23)) for _ in range(5)])
        return {"nranks": n, "steps": steps, "vseed": draw(seeds()), "dims": draw(st.sampled_from([2, 3, 3]))}
    return make()


_half = {}


def half_comm(comm, lower=False):
    """Every other rank, or the lower and the upper ranks."""
    if (comm.size, lower) not in _half:
        _half[comm.size, lower] = comm.Split(comm.rank * 2 // comm.size if lower else comm.rank % 2, comm.rank)
    return _half[comm.size, lower]


def check(c, comm):
    import gc
    import numpy as np
    from mpi4py import MPI
    from pmesh.pm import ParticleMesh
    from pmesh.window import FindResampler
    comms = [comm, MPI.COMM_SELF, half_comm(comm), half_comm(comm, True)]
    pms = []            # [pm, spec]
    fields = []         # [field, spec, array in configuration space]
    took = 0

    def spec_mesh(a, b, d, e, com):
        nd = c["dims"]
        N = SHAPES[nd][a % 4]
        L = [[1.0] * nd, [float(n) for n in N], [2.0, 3.5, 1.25][:nd], [10.0] * nd][b % 4]
        choices = [None] + meshes(com.size, nd) + full_meshes(com.size, nd)[:2]
        return {"N": list(N), "L": L, "dtype": ["f8", "f8", "f4", "c16", "c8"][d % 5], "np": choices[e % len(choices)], "win": WINS[(a + b + d) % 5], "comm": com}

    def direct(s):
        return ParticleMesh(Nmesh=s["N"], BoxSize=s["L"], comm=MPI.COMM_SELF, dtype=s["dtype"], resampler=s["win"])

    def verify_pm(pm, s, what):
        equal(pm.Nmesh, s["N"], "%s: mesh", what)
        equal(pm.BoxSize, s["L"], "%s: box", what)
        require(pm.ndim == len(s["N"]), "%s: %d dimensions", what, pm.ndim)
        require(pm.dtype == np.dtype(s["dtype"]), "%s: type %s, expected %s", what, pm.dtype, s["dtype"])
        require(pm.comm is s["comm"], "%s: communicator of %d ranks, expected %d", what, pm.comm.size, s["comm"].size)
        if s["np"] is not None:
            equal(np.array(pm.np), s["np"], "%s: process mesh", what)

    def verify_division(pm, what):
        """The mesh is divided over ranks as the process mesh says."""
        parts = pm.comm.allgather([[int(x.start), int(x.stop)] for x in pm.create(type="real").slices])
        parts = [p for p in parts if all(b > a for a, b in p)]
        for d in range(pm.ndim):
            n = int(pm.np[d]) if d < len(pm.np) else 1
            got = sorted(set(tuple(p[d]) for p in parts))
            require(len(got) <= n, "%s: %d parts along direction %d of process mesh %s", what, len(got), d, list(pm.np))
        require(pm.comm.size == 1 or max(pm.np) == 1 or max(pm.Nmesh[:len(pm.np)]) == 1 or len(parts) > 1 or all(N == 1 for N, q in zip(pm.Nmesh, pm.np) if q > 1),
                "%s: process mesh %s divides nothing", what, list(pm.np))

    def probe(pm, s, what):
        """Behaves as one made directly."""
        verify_pm(pm, s, what)
        verify_division(pm, what)
        rng = np.random.RandomState(c["vseed"] % 1000)
        pos = rng.uniform(0, 1, size=(3, len(s["N"]))) * s["L"]
        if True:
            p = pos[pm.comm.rank::pm.comm.size]
            got = gather(pm.paint(p, layout=pm.decompose(p)), pm.comm, what)
            close(got, direct(s).paint(pos).value, 1e-5 if s["dtype"] in ("f4", "c8") else 1e-11, 4.0, "%s: painting with the default window", what)
        full = values(s["N"], s["dtype"], c["vseed"])
        r = put(pm.create(type="real"), full)
        close(gather(r.r2c(), pm.comm, what), half(modes(full), s["N"], s["dtype"]), eps(s["dtype"]) * 4, 1, "%s: transform", what)

    def add_pm(pm, s, what):
        probe(pm, s, what)
        pms.append([pm, s])
        del pms[:-6]

    def add_field(f, s, a):
        fields.append([f, s, a])
        del fields[:-6]

    def verify(what):
        for k, (pm, s) in enumerate(pms):
            verify_pm(pm, s, "%s: mesh %d" % (what, k))
        for k, (f, s, a) in enumerate(fields):
            ty = kind_of(f)
            want = a if ty == "real" else half(modes(a), s["N"], s["dtype"])
            sc = (np.abs(a).max() + 1) * (np.sqrt(a.size) if ty == "real" else 1)
            close(gather(f, f.pm.comm, what), want, eps(s["dtype"]) * 20, sc, "%s: field %d (%s)", what, k, ty)
            equal(f.Nmesh, s["N"], "%s: mesh of field %d", what, k)
            equal(f.BoxSize, s["L"], "%s: box of field %d", what, k)

    def new_field(pm, s, ty, how, seed):
        a = values(s["N"], s["dtype"], seed)
        A = a if ty == "real" else half(modes(a), s["N"], s["dtype"]).astype(ctype(s["dtype"]))
        if how % 3 == 0:
            # (all ways to name a type)
            f = put(pm.create(mode=ty) if how % 2 else pm.create(type(pm.create(ty))), A)
        elif how % 3 == 1:
            sl = pm.create(type=ty).slices
            v = A[sl].copy()
            f = pm.create(type="complex" if ty == "transposedcomplex" and how % 2 else ty, value=v)
            v[...] = -77
        else:
            g = put(pm.create(type=ty), A)
            f = pm.create(type=ty, value=g)
            g.value[...] = -77
        require(kind_of(f) == ty and f.pm is pm, "create(%s) made a %s", ty, type(f).__name__)
        add_field(f, s, a.astype("c16" if is_complex(s["dtype"]) else "f8"))

    s0 = spec_mesh(0, 0, 0, 0, comm)
    for n, (op, i, j, k, l, m) in enumerate(c["steps"]):
        what = "step %d (%s)" % (n, op)
        com = comms[[0, 0, 0, 1, 2, 3][i % 6]]
        if not pms and op in ("reshape", "resize", "respawn", "field"):
            op = "pm"
        if not fields and op in ("copy", "castown", "cast", "inplace", "base", "scale", "apply", "spoil", "dropfield"):
            op = "field" if pms else "pm"
        if op == "pm":
            s = spec_mesh(j, k, l, m, com)
            add_pm(ParticleMesh(Nmesh=s["N"], BoxSize=s["L"], comm=com, dtype=s["dtype"], np=s["np"], resampler=s["win"]), s, what)
        elif op == "flat":
            # two of three dimensions
            s = {"N": list(SHAPES[3][j % 4]), "L": [2.0, 3.5, 1.25], "dtype": ["f8", "f4", "c16"][k % 3], "np": [com.size], "win": WINS[l % 5], "comm": com}
            pm = ParticleMesh(Nmesh=s["N"], BoxSize=s["L"], comm=com, dtype=s["dtype"], np=s["np"], resampler=s["win"])
            t = dict(s, N=list(SHAPES[2][m % 4]), L=[2.0, 3.5])
            p2 = pm.reshape(Nmesh=t["N"])
            add_pm(p2, t, what)
        elif op in ("reshape", "resize"):
            pm, s = pms[i % len(pms)]
            t = dict(s)
            nd = len(s["N"])
            kw = {}
            if op == "resize" or j % 4 == 1:
                t["N"] = list(SHAPES[nd][k % 4])
                kw["Nmesh"] = t["N"] if l % 2 else np.array(t["N"])
            elif j % 4 == 2:
                kw["Nmesh"] = 2 + k % 5
                t["N"] = [kw["Nmesh"]] * nd
            elif j % 4 == 3 and nd == 2:
                # to three dimensions, on the same process mesh
                t["N"] = list(SHAPES[3][k % 4])
                kw["Nmesh"] = t["N"]
                t["L"] = [1.5, 2.0, 3.0]
                kw["BoxSize"] = t["L"]
            elif j % 4 == 3 and nd == 3 and len(pm.np) == 1:
                # to two dimensions
                t["N"] = list(SHAPES[2][k % 4])
                kw["Nmesh"] = t["N"]
                t["L"] = t["L"][:2]
                nd = 2
            if "BoxSize" not in kw and op == "reshape":
                if m % 3 == 1:
                    t["L"] = [[1.0, 2.5, 4.0], [3.0, 3.0, 3.0]][l % 2][:nd]
                    kw["BoxSize"] = np.array(t["L"]) if l % 2 else t["L"]
                elif m % 3 == 2:
                    kw["BoxSize"] = 6.5
                    t["L"] = [6.5] * nd
            t["np"] = list(pm.np)
            p2 = pm.reshape(**kw) if op == "reshape" else pm.resize(kw["Nmesh"])
            require(p2 is not pm, "%s returned the mesh itself", what)
            add_pm(p2, t, what)
        elif op == "respawn":
            pm, s = pms[i % len(pms)]
            com = comms[j % 4]
            t = dict(s, comm=com)
            ch = [None] + meshes(com.size, len(s["N"])) + full_meshes(com.size, len(s["N"]))[:2]
            t["np"] = ch[k % len(ch)]
            add_pm(pm.respawn(com, np=t["np"]) if t["np"] is not None or l % 2 else pm.respawn(com), t, what)
        elif op == "field":
            pm, s = pms[i % len(pms)]
            new_field(pm, s, TYPES[j % 3], k, c["vseed"] + n)
        elif op == "droppm":
            if pms:
                del pms[i % len(pms)]
            pm = p2 = s = t = None
        elif op == "gc":
            gc.collect()
        else:
            x = i % len(fields)
            f, s, a = fields[x]
            ty = kind_of(f)
            if op == "copy":
                g = f.copy()
                require(g is not f and not np.shares_memory(g.value, f.value), "a copy shares its original's memory")
                add_field(g, s, a)
            elif op == "castown":
                g = f.cast(ty)
                require(g is not f and not np.shares_memory(g.value, f.value), "a field cast to its own type shares memory")
                add_field(g, s, a)
            elif op == "cast":
                g = f.cast(TYPES[j % 3])
                require(kind_of(g) == TYPES[j % 3], "cast made a %s", type(g).__name__)
                add_field(g, s, a)
            elif op == "inplace":
                g = f.cast(TYPES[j % 3], out=f)
                fields[x] = [g, s, a]
            elif op == "base":
                # a new field in the memory of this one
                t2 = TYPES[j % 3]
                a = values(s["N"], s["dtype"], c["vseed"] + 7 * n)
                A = a if t2 == "real" else half(modes(a), s["N"], s["dtype"]).astype(ctype(s["dtype"]))
                g = put(f.pm.create(type=t2, base=f._base), A)
                fields[x] = [g, s, a.astype("c16" if is_complex(s["dtype"]) else "f8")]
            elif op == "scale":
                f.value[...] *= 0.5
                fields[x][2] = a * 0.5
            elif op == "apply":
                f.apply(lambda k, y: y * 2, out=Ellipsis)
                fields[x][2] = a * 2
            elif op == "spoil":
                for z in list(f.x) + list(f.i):
                    z[...] = -5
                q = f.pm.create(type=ty)
                require(all((z >= 0).all() for z in q.i), "coordinates of a new field follow those of another")
            elif op == "dropfield":
                del fields[x]
            f = g = q = None
        took += 1
        verify(what)
    nf = len(fields)
    return {"nontrivial": took >= 4, "labels": ["ranks:%d" % comm.size, "dim:%d" % c["dims"], "fields:%d" % min(nf, 3), "meshes:%d" % min(len(pms), 3)]}


FAMILIES = [{"name": "history", "what": "meshes and fields against a model", "strategy": strategy, "max_examples": {"quick": 700, "thorough": 30000}}]
