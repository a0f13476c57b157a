"""P11: white noise through a particle mesh."""
from pmbase import *
import nbase

RULE = ("White noise of a seed on a mesh of any side lengths over 1 to 6 (thorough: 8) ranks, any process mesh, field type, precision, mean and kind. Reference: the modes as the generator makes them for the whole mesh at once. "
        "Non-trivial: a side longer than 2.")
ASSUMPTIONS = ["In two dimensions the modes come out of a Fourier transform, up to rounding."]
BUDGET = {"quick": 25, "thorough": 300}


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dims=(3, 3, 3, 2), dtypes=("f8", "f8", "f8", "f4", "c16", "c8"), hi=None, big=True)
        if len(c["N"]) == 3 and draw(st.booleans()):
            c["N"] = [draw(st.integers(2, 12))] * 3
        c["seed"] = draw(nbase.noise_seeds())
        c["unitary"] = draw(st.booleans())
        c["mean"] = draw(st.sampled_from([None, None, 0, 1, 1.0, -2.5, 1e3]))
        c["type"] = draw(st.sampled_from(TYPES + ["complex", None, "class"]))
        c["base"] = draw(st.booleans())
        c["mode"] = draw(st.integers(0, 4)) == 0
        return c
    return make()


def check(c, comm):
    import numpy as np
    from pmesh import pm as mod
    pm = make_pm(c, comm)
    N, un, dt = c["N"], c["unitary"], c["dtype"]
    kw = {}
    if c["mean"] is not None:
        kw["mean"] = c["mean"]
    if un:
        kw["unitary"] = True
    if c["base"]:
        kw["base"] = pm.create(type="real", value=4)._base
    if c["type"] is not None:
        kw["mode" if c["mode"] and c["type"] != "class" else "type"] = mod.UntransposedComplexField if c["type"] == "class" else c["type"]
    f = pm.generate_whitenoise(c["seed"], **kw)
    ty = {None: "transposedcomplex", "complex": "transposedcomplex", "class": "untransposedcomplex"}.get(c["type"], c["type"])
    require(kind_of(f) == ty, "asked for %s, got a %s", c["type"], type(f).__name__)
    full = nbase.whole(N, c["seed"], un, ctype(dt)).astype("c16")
    mean = c["mean"] or 0
    full[(0,) * len(N)] = mean
    got = gather(f, comm)
    t = 1e-10 if dt not in ("f4", "c8") else 1e-4
    what = "white noise of seed %d, mesh %s, on %d ranks" % (c["seed"], N, comm.size)
    if un and len(N) == 2:
        t = max(t, 1e-3)         # an amplitude near 0 has no phase
    if ty == "real":
        x = np.fft.ifftn(full) * full.size
        s = np.abs(x).max() + np.sqrt(full.size) + 1
        if not is_complex(dt):
            require(np.isrealobj(got), "the real field is complex")
        close(got, x.real if not is_complex(dt) else x, t, s, what)
        close(np.real(f.cmean()), mean, t, s, "mean of " + what)
    else:
        close(got, half(full, N, dt), t, np.abs(full).max() + 1, what)
        require(got[(0,) * len(N)] == np.asarray(mean, ctype(dt)), "zero mode %r, mean %r", got[(0,) * len(N)], mean)
        if un:
            a = np.abs(got)
            a[(0,) * len(N)] = 1
            close(a, np.ones(a.shape), 1e-10 if dt not in ("f4", "c8") else 1e-5, 1, "amplitudes of a unitary field")
        # its transform is real, of that mean
        r = f.c2r()
        if is_complex(dt):
            close(np.imag(gather(r, comm)), np.zeros(N), t * 10, np.abs(full).sum() + 1, "imaginary part of " + what)
        close(np.real(r.cmean()), mean, t, np.abs(full).sum() + 1, "mean of " + what)
        if not is_complex(dt):
            close(gather(r.r2c(pm.create(type=ty)), comm), half(full, N, dt), t * 10, np.abs(full).max() * np.sqrt(full.size) + 1, "there and back: " + what)
    # again, on the same mesh
    g = pm.generate_whitenoise(c["seed"], **{k: v for k, v in kw.items() if k != "base"})
    equal(gather(g, comm), got, "the same call again")
    return {"nontrivial": max(N) > 2, "labels": labels(c) + ["field:" + ty, "unitary" if un else "gaussian", "mean:%s" % (c["mean"] is not None)]}


FAMILIES = [{"name": "noise", "what": "every division of the mesh against the whole", "strategy": strategy, "max_examples": {"quick": 1200, "thorough": 30000}}]
