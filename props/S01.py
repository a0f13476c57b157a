"""S01: a whole simulation, from white noise to particles, against NumPy."""
from pmbase import *
import nbase

RULE = ("A simulation over 1 to 6 (thorough: 8) ranks: white noise, shaped; a uniform grid of particles, displaced by its gradient; steps of painting (onto the same or a finer mesh, interlaced or not), "
        "transforming, deconvolving the window, taking the force in Fourier space or from the gradient of the window, reading it at the particles, kicking and drifting them, with particles that leave the box, "
        "wrapped back or not, and that stay on their rank or move to the one that owns them. Reference: the same in NumPy on one undivided mesh with the documented kernels. Non-trivial: more than one rank.")
ASSUMPTIONS = ["The modes of the white noise come from the generator itself (N01 to N05 judge it).",
               "Modes at Nyquist frequencies are left out of displacements and forces, since they have no well-defined gradient."]
BUDGET = {"quick": 45, "thorough": 400}
WIN = ["cic", "linear", "tsc", "quadratic", "pcs", "cubic"]
SUPPORT = {"cic": 2, "linear": 2, "tsc": 3, "quadratic": 3, "pcs": 4, "cubic": 4}


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = pm_case(draw, tier, dims=(2, 3, 3), dtypes=("f8", "f8", "f8", "f4"), hi=None, lo=2, scale=False)
        nd = len(c["N"])
        c["win"] = draw(st.sampled_from(WIN))
        c["seed"] = draw(nbase.noise_seeds())
        c["unitary"] = draw(st.booleans()) and nd == 3
        c["type"] = draw(st.sampled_from(["transposedcomplex", "untransposedcomplex"]))
        c["slope"] = draw(st.sampled_from([0.0, -1.0, -2.0, 1.0]))
        c["amp"] = draw(st.sampled_from([0.1, 0.5, 2.0]))
        c["shift"] = draw(st.sampled_from([0.5, 0.0, 0.25]))
        c["fine"] = draw(st.sampled_from([1, 1, 2])) if nd == 3 or max(c["N"]) < 9 else 1
        c["coarse"] = draw(st.booleans()) and c["fine"] > 1
        c["np2"] = draw(st.sampled_from([None] + meshes(c["nranks"], nd)))
        c["steps"] = draw(st.lists(st.fixed_dictionaries({
            "force": st.sampled_from(["fourier", "fourier", "gradient"]), "interlace": st.booleans(), "compensate": st.booleans(), "dt": st.sampled_from([0.1, 0.5]),
            "wrap": st.booleans(), "migrate": st.sampled_from(["no", "no", "home", "deal"]), "inplace": st.booleans(), "keep": st.booleans(), "via": st.sampled_from(["", "", "ravel", "preview"])}),
            min_size=1, max_size=3 if tier == "quick" else 5))
        c["mass"] = draw(st.sampled_from(["unit", "each", "each"]))
        c["pseed"] = draw(seeds())
        if c["dtype"] == "f4" and c["win"] in ("cic", "linear"):
            for s in c["steps"]:        # whose gradient jumps
                s["force"] = "fourier"
        return c
    return make()


# the reference -----------------------------------------------------------

def shape1(win, g, n, diff=False):
    """Weights of n mesh points for each mesh coordinate of g."""
    import numpy as np
    g = np.mod(g, n)[:, None]
    j = np.arange(n)[None, :]
    m = int(np.ceil(3.0 / n)) + 1
    return sum(kern(win, g - (j + k * n), diff) for k in range(-m, m + 1))


EIN = {2: ("pi,pj,p->ij", "ij,pi,pj->p"), 3: ("pi,pj,pk,p->ijk", "ijk,pi,pj,pk->p")}


def weights(win, x, N, L, shift=0.0, diff=None):
    return [shape1(win, x[:, d] * (float(N[d]) / L[d]) + shift, N[d], diff == d) * (float(N[d]) / L[d] if diff == d else 1.0) for d in range(len(N))]


def paint(win, x, m, N, L, shift=0.0):
    import numpy as np
    return np.einsum(EIN[len(N)][0], *weights(win, x, N, L, shift), m, optimize=True)


def read(win, x, f, L, diff=None):
    import numpy as np
    return np.einsum(EIN[f.ndim][1], f, *weights(win, x, f.shape, L, 0.0, diff), optimize=True)


def inner(k, N, L):
    """False at Nyquist frequencies."""
    import numpy as np
    return np.prod(np.broadcast_arrays(*[abs(2 * ki * l / (2 * np.pi)) < n - 0.5 for ki, n, l in zip(k, N, L)]), axis=0).astype(bool)


def ksum(k):
    kk = sum(ki ** 2 for ki in k)
    kk = kk + 0.0
    kk[kk == 0] = 1.0
    return kk


def order(win):
    return SUPPORT[win]


def invlap(k, v, N, L, norm):
    return v * inner(k, N, L) / ksum(k) * norm


def deriv(k, v, d, N, L, norm):
    return 1j * k[d] * invlap(k, v, N, L, norm)


def window(win, w):
    import numpy as np
    return np.sinc(w / (2 * np.pi)) ** SUPPORT[win]


def cut(full, N):
    """Modes of a mesh kept on a coarser one of even ratio (Nyquist ones are dropped later)."""
    import numpy as np
    return full[np.ix_(*[freqs(n) for n in N])]


def check(c, comm):
    import numpy as np
    N, L, nd, dt, win = c["N"], np.array(c["L"], "f8"), len(c["N"]), c["dtype"], c["win"]
    from pmesh.window import FindResampler
    single = dt == "f4"
    pm = make_pm(c, comm, resampler=win)
    N2 = [n * c["fine"] for n in N]
    fpm = pm.reshape(Nmesh=N2) if c["fine"] > 1 else pm
    cell = L / np.array(N)
    norm = float(np.min(cell)) ** 2
    # --- initial conditions
    full = nbase.whole(N, c["seed"], c["unitary"], ctype(dt)).astype("c16")
    full[(0,) * nd] = 0
    K = kgrid(N, L, N)
    kf = 2 * np.pi / L.max()
    full = full * (ksum(K) / kf ** 2) ** (c["slope"] * 0.5)
    psi_k = [deriv(K, full, d, N, L, norm) for d in range(nd)]
    psi = [(np.fft.ifftn(p) * p.size).real for p in psi_k]
    grid = (np.stack(np.meshgrid(*[np.arange(n) for n in N], indexing="ij"), axis=-1).reshape(-1, nd) + c["shift"]) * cell
    # a little off the grid, where the gradients of kernels jump
    rng = np.random.RandomState(c["pseed"])
    off = rng.uniform(0.01, 0.09, size=grid.shape) * cell
    rx = grid + off
    rms = np.sqrt(np.mean([p ** 2 for p in psi])) + 1e-300
    amp = c["amp"] * float(cell.min()) / rms if rms > 1e-12 * norm else 0.0
    rv = np.stack([amp * read(win, rx, p, L) for p in psi], axis=-1)
    rx = rx + rv
    n = len(rx)
    mass = rng.uniform(0.5, 2, size=n) if c["mass"] == "each" else np.ones(n)

    noise = pm.generate_whitenoise(c["seed"], unitary=c["unitary"], type=c["type"])
    noise = noise.apply(lambda k, v: v * (ksum(k) / kf ** 2) ** (c["slope"] * 0.5))
    q, ident = pm.generate_uniform_particle_grid(shift=c["shift"], dtype="f8", return_id=True)
    x = q + off[ident]
    lay = pm.decompose(x)
    v = np.zeros(x.shape)
    for d in range(nd):
        p = noise.apply(lambda k, y: deriv(k, y, d, N, L, norm)).c2r()
        v[:, d] = amp * p.readout(x, layout=lay)
    x = x + v

    t = 1e-9 if not single else 2e-3
    moves = 1.0 * c["amp"] + 1
    wrapped = False

    def compare(what):
        every = comm.allgather((ident, x, v))
        who = np.concatenate([e[0] for e in every])
        require(np.array_equal(np.sort(who), np.arange(n)), "%s: particles are lost or doubled: %s", what, np.sort(who).tolist()[:50])
        o = np.argsort(who)
        close(np.concatenate([e[2] for e in every])[o] / cell.max(), rv / cell.max(), t, moves, "%s: velocities, in cells", what)
        d = np.concatenate([e[1] for e in every])[o] - rx
        if wrapped:
            d = (d + L / 2) % L - L / 2
        close(d / cell.max(), np.zeros(d.shape), t, moves + float((rx / cell.max()).max()) * 1e-3, "%s: positions, in cells", what)

    compare("initial conditions on %d ranks" % comm.size)
    for number, s in enumerate(c["steps"]):
        what = "step %d (%s) on %d ranks" % (number, " ".join("%s=%s" % kv for kv in sorted(s.items())), comm.size)
        # --- reference
        rho = paint(win, rx, mass, N2, L)
        rk = np.fft.fftn(rho) / rho.size
        W = [freqs(m).reshape([-1 if e == d else 1 for e in range(nd)]) * (2 * np.pi / m) for d, m in enumerate(N2)]
        if s["interlace"]:
            r2 = paint(win, rx, mass, N2, L, 0.5)
            rk = 0.5 * rk + 0.5 * np.fft.fftn(r2) / r2.size * np.exp(0.5j * sum(W))
        if s["compensate"]:
            for w in W:
                rk = rk / window(win, w)
        NF = N if c["coarse"] else N2
        if c["coarse"]:
            rk = cut(rk, N)
        KF = kgrid(NF, L, NF)
        fnorm = norm / (mass.sum() / rho.size) * s["dt"]
        if s["force"] == "fourier":
            F = np.stack([read(win, rx, (np.fft.ifftn(deriv(KF, rk, d, NF, L, fnorm)) * np_prod(NF)).real, L) for d in range(nd)], axis=-1)
        else:
            phi = (np.fft.ifftn(invlap(KF, rk, NF, L, fnorm)) * np_prod(NF)).real
            F = np.stack([read(win, rx, phi, L, d) for d in range(nd)], axis=-1)
        # --- pmesh
        mine = mass[ident] if c["mass"] == "each" else 1.0
        wide = SUPPORT[win] * 0.5 + (0.5 if s["interlace"] else 0)
        lay = fpm.decompose(x, smoothing=wide if s["interlace"] else None)
        f = fpm.create(type="real")
        g = fpm.paint(x, mass=mine, layout=lay, out=f)
        require(g is f, "paint does not return the field it was given")
        size = mass.sum()
        close(gather(f, comm, "density"), rho, t, size / rho.size * 50 + mass.max(), "%s: density", what)
        close(np.real(f.csum()), size, t, size, "%s: mass on the mesh", what)
        if s["via"] == "ravel":
            # to a mesh that is divided otherwise, and back
            other = make_pm(c, comm, Nmesh=N2, np=c["np2"], resampler=win)
            o = other.create(type="real")
            o.unravel(f.ravel())
            equal(gather(o, comm), gather(f, comm), "%s: density on a mesh divided by %s", what, c["np2"])
            f.unravel(o.ravel())
        elif s["via"] == "preview":
            close(f.preview(axes=(0,)), rho.sum(axis=tuple(range(1, nd))), t, size, "%s: mass along the first axis", what)
        fk = f.r2c(out=Ellipsis) if s["inplace"] else f.r2c(fpm.create(type=c["type"]))
        if s["interlace"]:
            f2 = fpm.paint(x, mass=mine, layout=lay, transform=fpm.affine.shift(0.5))
            f2 = f2.r2c(fpm.create(type=kind_of(fk)))
            fk = fk * 0.5 + f2.apply(lambda w, y: y * (0.5 * np.exp(0.5j * sum(w))), kind="circular")
        if s["compensate"]:
            def comp(w, y):
                for wi in w:
                    y = y / FindResampler(win).get_fwindow(wi)
                return y
            fk = fk.apply(comp, kind="circular", out=Ellipsis)
        fp, lf = fpm, lay
        if c["coarse"]:
            low = pm.create(type=c["type"])
            fk.resample(low)
            fk = low
            fp, lf = pm, pm.decompose(x)
        got = np.zeros(v.shape)
        if s["force"] == "fourier":
            for d in range(nd):
                got[:, d] = fk.apply(lambda k, y: deriv(k, y, d, NF, L, fnorm)).c2r().readout(x, layout=lf)
        else:
            p = fk.apply(lambda k, y: invlap(k, y, NF, L, fnorm)).c2r(out=Ellipsis)
            for d in range(nd):
                got[:, d] = p.readout(x, layout=lf, gradient=d)
        # --- both
        if s["keep"]:
            v = v + got / 2
            x = x + v
        else:
            v += got / 2
            x += v
        rv = rv + F / 2
        rx = rx + rv
        moves += float(np.abs(rv).max() / cell.max())
        if s["wrap"]:
            x = x % L if s["keep"] else np.mod(x, L, out=x)
            wrapped = True
        if s["migrate"] == "home":
            home = fpm.decompose(x, smoothing=0.0)
            x, v, ident = [np.array(a) for a in home.exchange(x, v, ident)]
        elif s["migrate"] == "deal":
            # the particles, dealt out anew in the order they lie in
            every = [np.concatenate(a) for a in zip(*comm.allgather((x, v, ident)))]
            x, v, ident = [a[comm.rank::comm.size] for a in every]
        compare(what)
    return {"nontrivial": comm.size > 1, "labels": labels(c) + ["window:" + win, "fine:%d" % c["fine"]] + sorted(set("force:" + s["force"] for s in c["steps"])) +
            sorted(set("migrate:" + s["migrate"] for s in c["steps"])) + ["interlaced"] * any(s["interlace"] for s in c["steps"])}


FAMILIES = [{"name": "simulate", "what": "a whole simulation against NumPy", "strategy": strategy, "max_examples": {"quick": 600, "thorough": 30000}}]
