"""P27, P28: dynamics steps, spectra, response functions and spin parameters"""
from .common import *
from vsym.registry import scenario

import openms.qmd.propagator as qp
import openms.qmd.bomd as bomd
import openms.lib.misc as misc
import openms.models.aggregates as agg
import openms.maxwell.hyperbolic as hyp
import openms.spindy.spin as spin


# ------------------------------------------------------------------ P27
@scenario("P27", "rk4", quick=[dict(kind="linear", n=1), dict(kind="linear", n=2), dict(kind="time"), dict(kind="stages")],
          about="one Runge-Kutta step is exact through fourth order: for any linear system it is the exponential series through the fourth power, for any cubic time dependence the exact integral, "
                "and for any right-hand side the classical four-stage combination",
          bounds="1-2 components, any (complex) coefficients, start and step; a nonlinear right-hand side with arbitrary quadratic dependence on time and state")
def rk4(ctx):
    c = ctx.cfg
    n = ctx.np
    h, t0 = ctx.real("h"), ctx.real("t0")
    if c["kind"] == "linear":
        N = c["n"]
        A, y = ctx.cplx("A", (N, N)), ctx.cplx("y", (N,))
        r = qp.rk4(lambda t, x: n.dot(A, x), t0, y.copy(), h)
        ref, term = y, y
        for k in range(1, 5):
            term = n.dot(A, term) * h / k
            ref = ref + term
        ctx.eq("exponential", r, ref, tol=1e-7)
    elif c["kind"] == "time":
        a = ctx.real("a", (4,))
        y = ctx.real("y")
        r = qp.rk4(lambda t, x: a[0] + a[1] * t + a[2] * t ** 2 + a[3] * t ** 3, t0, y, h)
        t1 = t0 + h
        ctx.eq("integral", r - y, sum(a[k] * (t1 ** (k + 1) - t0 ** (k + 1)) / (k + 1) for k in range(4)), tol=1e-7)
    else:
        a = ctx.real("a", (6,))
        y = ctx.real("y", (2,))

        def f(t, x):
            return n.array([a[0] + a[1] * t * x[1] + a[2] * x[0] * x[1], a[3] * t + a[4] * x[0] + a[5] * x[0] * x[0]])
        keep = y.copy()
        r = qp.rk4(f, t0, y, h)
        k1 = f(t0, keep)
        k2 = f(t0 + h / 2, keep + k1 * h / 2)
        k3 = f(t0 + h / 2, keep + k2 * h / 2)
        k4 = f(t0 + h, keep + k3 * h)
        ctx.eq("four-stages", r, keep + (k1 + 2 * k2 + 2 * k3 + k4) * h / 6, tol=1e-6)
        ctx.eq("start-unchanged", y, keep)


def molecules(ctx, nmol, nst=1, veloc=True):
    n = ctx.np
    out = []
    for k in range(nmol):
        sym = ["H", "Li", "He"][k % 3]
        kw = dict(veloc=ctx.real("v%d" % k, (2, 3))) if veloc else {}
        m = misc.Molecule(atom="%s 0 0 0; H 0 0 %d" % (sym, k + 1), basis="sto-3g", unit="Bohr", nstates=nst, verbose=0, spin=None if sym == "He" else 0, **kw)
        m.coords = ctx.real("x%d" % k, (2, 3))
        m.mass = ctx.pos("m%d" % k, (2,), lo=1, hi=4)
        for s in range(nst):
            m.states[s].forces = ctx.real("F%d_%d" % (k, s), (2, 3))
        out.append(m)
    return out


@scenario("P27", "verlet", quick=[dict(nmol=1), dict(nmol=2), dict(nmol=2, nst=2, state=1)],
          about="a half kick adds dt/2 F/m of the chosen state to every atom of every molecule and nothing else, a drift adds dt v; kick, drift, kick with a position-dependent force is undone by "
                "the same step with reversed velocities",
          bounds="1-2 molecules of 2 atoms, 1-2 states; any coordinates, velocities, masses, forces and time step; linear forces for the reversibility")
def verlet(ctx):
    c = ctx.cfg
    n = ctx.np
    st, nst = c.get("state", 0), c.get("nst", 1)
    mols = molecules(ctx, c["nmol"], nst)
    dt = ctx.real("dt")
    md = bomd.BaseMD(mols, None, dt=dt, seed=1)
    x0, v0 = [m.coords.copy() for m in mols], [m.veloc.copy() for m in mols]
    ctx.eq("initial-velocities", n.array(v0), n.array([ctx.real("v%d" % k, (2, 3)) for k in range(len(mols))]))
    md.next_velocity_many_molecule(st) if st else md.next_velocity_many_molecule()
    for k, m in enumerate(mols):
        F = ctx.real("F%d_%d" % (k, st), (2, 3))
        ctx.eq("kick", (m.veloc - v0[k]) * m.mass.reshape(2, 1), dt / 2 * F)
        ctx.eq("kick-keeps-positions", m.coords, x0[k])
    v1 = [m.veloc.copy() for m in mols]
    md.next_position()
    for k, m in enumerate(mols):
        ctx.eq("drift", m.coords - x0[k], dt * v1[k])
        ctx.eq("drift-keeps-velocities", m.veloc, v1[k])
    # reversibility with linear forces
    K, f0 = ctx.real("K", (6, 6)), ctx.real("f0", (6,))

    def force():
        for m in mols:
            m.states[st].forces = (f0 - n.dot(K, m.coords.reshape(6))).reshape(2, 3)

    def step():
        force()
        md.next_velocity_many_molecule(st)
        md.next_position()
        force()
        md.next_velocity_many_molecule(st)
    xa, va = [m.coords.copy() for m in mols], [m.veloc.copy() for m in mols]
    step()
    for m in mols:
        m.veloc = -m.veloc
    step()
    for k, m in enumerate(mols):
        ctx.eq("reversible-position", m.coords, xa[k], tol=1e-5)
        ctx.eq("reversible-velocity", -m.veloc, va[k], tol=1e-5)


@scenario("P27", "kinetic", quick=[dict(nmol=1), dict(nmol=2)],
          about="kinetic energy is half the mass-weighted squared velocity, and the temperature of a set of molecules is twice the total kinetic energy per degree of freedom, from current velocities",
          bounds="1-2 molecules of 2 atoms, any velocities and masses")
def kinetic(ctx):
    c = ctx.cfg
    n = ctx.np
    mols = molecules(ctx, c["nmol"])
    md = bomd.BaseMD(mols, None, dt=1.0, seed=1)
    e = lambda: sum(n.sum(m.mass.reshape(2, 1) * m.veloc * m.veloc) for m in mols) / 2
    T = md.temperature_many_molecule()
    ctx.eq("temperature", T * sum(m.ndof for m in mols), 2 * e() * misc.au2K, tol=1e-4)
    ctx.eq("kinetic", sum(m.ekin for m in mols), e())
    for m in mols:
        m.veloc = m.veloc * ctx.real("scale")
    ctx.eq("temperature-later", md.temperature_many_molecule() * sum(m.ndof for m in mols), 2 * e() * misc.au2K, tol=1e-4)
    ctx.true("degrees-of-freedom", all(m.ndof == 6 for m in mols))


# ------------------------------------------------------------------ P28
def lor(x, x0, g, A=1):
    return A * g / ((x - x0) ** 2 + g ** 2)


@scenario("P28", "aggregate", quick=[dict(N=2), dict(N=3, nexc=2), dict(N=3, nexc=5), dict(N=1)],
          about="the exciton Hamiltonian of the chain has the drawn site energies and nearest-neighbour hopping; energies come sorted with their own eigenvectors; transition dipoles are the sums of the "
                "eigenvectors; the absorption is the dipole-squared weighted sum of Lorentzians over the lowest (or the selected) states",
          bounds="1-3 sites, any site energies, hopping, width and (stubbed) eigenvectors; one or two photon energies")
def aggregate(ctx):
    c = ctx.cfg
    n = ctx.np
    N = c["N"]
    t, eps, sig = ctx.real("t"), ctx.real("eps"), ctx.pos("sig")
    draws = []

    def gauss(mu, s):
        draws.append((mu, s, ctx.real("d%d" % len(draws))))
        return draws[-1][2]
    import random
    ctx.patch(random, "gauss", gauss)
    W, V = ctx.real("W", (N,)), ctx.real("V", (N, N))
    mats = []

    def eig(A, *a, **k):
        mats.append(A.copy())
        return W.copy(), V.copy()
    ctx.patch(np.linalg, "eig", eig)
    ctx.patch(np.linalg, "eigh", eig)
    m = agg.DMA(N, Nexc=c.get("nexc", 5), epsilon=eps, hopping=t, sigma=sig)
    m.A = m.A * ctx.num(1)
    m.En = m.En * ctx.num(1)
    m.kernel()
    H = n.zeros((N, N))
    for i in range(N):
        H[i, i] = draws[i][2]
        if i:
            H[i, i - 1] = t
            H[i - 1, i] = t
    ctx.eq("hamiltonian", mats[-1], H)
    for mu, s, _ in draws:
        ctx.eq("centre", mu, eps)
        ctx.eq("spread", s, sig * n.abs(t))
    ctx.true("draws", len(draws) == N)
    for i in range(N - 1):
        ctx.ge("sorted", m.evals[i + 1], m.evals[i])
    # energies keep their eigenvectors: every weighted sum is unchanged by the sorting
    for k in range(3):
        ctx.eq("own-eigenvector", n.dot(m.evecs, m.evals ** k), n.dot(V, W ** k))
    ctx.eq("lowest", m.energies(), m.evals[:min(c.get("nexc", 5), N)])
    ev, m.evals = m.evals, m.evals + 1
    ctx.eq("lowest-follows-the-spectrum", m.energies(), ev[:min(c.get("nexc", 5), N)] + 1)
    m.evals = ev
    g, x = ctx.pos("g", (), lo=Fraction(1, 10), hi=1), ctx.real("x", (2,))
    s = m.linearabs(x, gamma=g)
    d = [n.sum(m.evecs[:, u]) for u in range(N)]
    ctx.eq("dipoles", m.excdipole1, n.array(d))
    M = min(c.get("nexc", 5), N)
    ctx.eq("absorption", s, n.array([sum(lor(y, m.evals[u], g, d[u] * d[u]) for u in range(M)) for y in x]))
    s = m.linearabs(x, selected=[N - 1], gamma=g)
    ctx.eq("selected", s, n.array([lor(y, m.evals[N - 1], g, d[N - 1] ** 2) for y in x]))


@scenario("P28", "bright_states", quick=[dict(N=2), dict(N=3)], thorough=[dict(N=4)],
          about="sorting the transition dipoles lists every state once, brightest first, with the summed strength and a cutoff of a tenth of the largest dipole",
          bounds="2-3 (thorough 4) states with any dipoles, not all of them dark")
def bright_states(ctx):
    n = ctx.np
    N = ctx.cfg["N"]
    m = blank(agg.DMA)
    d = ctx.real("d", (N,))
    ctx.assume(d[0] > Fraction(1, 10) if ctx.mode == "sym" else d[0] > 0.1)
    m.Nsite, m.excdipole1 = N, d.copy()
    ctx.patch(agg, "print", lambda *a, **k: None)
    m.sortdipole()
    idx = [int(i) for i in m.dipsortidx]
    ctx.true("every-state-once", sorted(idx) == list(range(N)))
    for a, b in zip(idx, idx[1:]):
        ctx.ge("brightest-first", n.abs(d[a]), n.abs(d[b]))
    ctx.eq("cutoff", 10 * m.dip_cutoff, n.abs(d[idx[0]]))
    ctx.eq("total", m.totdip, n.sum(d * d))
    ctx.eq("dipoles", m.excdipole1, d)


@scenario("P28", "two_dimensional", quick=[dict(ns=1, nuv=1), dict(ns=2, nuv=2)],
          about="the two-dimensional spectrum is bleach plus emission minus excited-state absorption along detection, times absorption along excitation, with detection along the rows",
          bounds="1-2 states, 1-2 double excitations, 2 energies; any energies, dipoles and width")
def two_dimensional(ctx):
    c = ctx.cfg
    n = ctx.np
    S_, U = c["ns"], c["nuv"]
    e = ctx.real("e", (2,))
    ev, d1 = ctx.real("ev", (S_ + 1,)), ctx.real("d1", (S_ + 1,))
    e2, d2 = ctx.real("e2", (S_, U)), ctx.real("d2", (S_, U))
    g = ctx.pos("g", (), lo=Fraction(1, 10), hi=1)
    st = list(range(1, S_ + 1))
    s = agg.tdes(e, st, ev, d1, U, e2, d2, g)
    for a in range(2):
        for b in range(2):
            ref = sum((2 * lor(e[a], ev[j], g, d1[j] ** 2) - sum(lor(e[a], e2[v, u], g, d2[v, u] ** 2) for u in range(U))) * lor(e[b], ev[j], g, d1[j] ** 2) for v, j in enumerate(st))
            ctx.eq("spectrum", s[a, b], ref)


@scenario("P28", "conductivity", quick=[dict(n=1), dict(n=2), dict(n=2, density=True)],
          about="the interband part of each component's conductivity is its strength times a step at its own transition frequency plus i/pi ln|(w-w_j)/(w+w_j)|, on top of a Drude term "
                "proportional to 1/(w + i damping) that does not depend on the interband strengths; the plasmon frequency scales as the square root of density over mass",
          bounds="1-2 components, 2 frequencies away from the transitions; any frequencies, strengths and damping")
def conductivity(ctx):
    c = ctx.cfg
    n = ctx.np
    N = c["n"]
    wp = ctx.pos("wp", (N,), lo=Fraction(1, 2), hi=2)
    wj, s = ctx.pos("wj", (N,), lo=Fraction(1, 2), hi=2), ctx.real("s", (N,))
    eta = ctx.pos("eta", (), lo=Fraction(1, 10), hi=1)
    if ctx.mode == "sym":
        class Str:
            def __format__(self, f):
                return ""
        ctx.patch(hyp, "format_array_line", lambda x: "")
    kw = dict(interband_freqs=wj, interband_strengths=s, damping=eta)
    if c.get("density"):
        rho, m = ctx.pos("rho", (), lo=1, hi=4), ctx.pos("m", (N,), lo=1, hi=4)
        h = hyp.hyperbolicBase(density=rho, mass=m, **kw)
        h1 = hyp.hyperbolicBase(density=rho * 4, mass=m, **kw)
        for k in range(N):
            ctx.eq("plasmon-scaling", h1.plasmon_freqs[k], 2 * h.plasmon_freqs[k])
            ctx.eq("plasmon", h.plasmon_freqs[k] ** 2 * m[k], Fraction(1) * rho * hyp.hbar ** 2 * hyp.e_SI ** 2 * 1e27 / (hyp.epsilon0 * hyp.e_mass), tol=1e-6)
        wp = h.plasmon_freqs
    else:
        h = hyp.hyperbolicBase(plasmon_freqs=wp, **kw)
    ws = [ctx.pos("w%d" % i, (), lo=Fraction(1, 10), hi=3) for i in range(2)]
    for w in ws:
        for k in range(N):
            ctx.assume((w < wj[k]) | (w > wj[k]) if ctx.mode == "sym" else abs(w - wj[k]) > 1e-3)
    sg = h.get_conductivity(ws)
    h.interband_strengths = s * 0
    s0 = h.get_conductivity(ws)
    for i, w in enumerate(ws):
        for k in range(N):
            inter = sg[i, k] - s0[i, k]
            ctx.eq("interband-log", n.imag(inter) * n.pi, s[k] * n.log(n.abs(w - wj[k]) / (w + wj[k])), tol=1e-6)
            ctx.eq("interband-step", n.real(inter), s[k] * (1 if bool(w > wj[k]) else 0), tol=1e-6)
            ctx.eq("drude", s0[i, k] * (w + 1j * eta), s0[0, k] * (ws[0] + 1j * eta), tol=1e-6)


@scenario("P28", "line_shapes", quick=[dict()],
          about="the normalised Gaussian and the Lorentzian line shapes are their formulas for positive widths and refuse negative ones",
          bounds="any position, centre, weight and width")
def line_shapes(ctx):
    n = ctx.np
    x, x0, a = ctx.real("x"), ctx.real("x0"), ctx.real("a")
    s = ctx.pos("s", (), lo=Fraction(1, 4), hi=2)
    ctx.eq("gaussian", misc.gaussian1d(x, a, s, x0) * s * n.sqrt(2 * n.pi), a * n.exp(-((x - x0) / s) ** 2 / 2), tol=1e-6)
    ctx.eq("lorentzian", misc.Lorentz1d(x, a, s, x0) * ((x - x0) ** 2 + s * s), a * s, tol=1e-6)
    ctx.true("negative-width", misc.gaussian1d(x, a, -s, x0) == -1 and misc.Lorentz1d(x, a, -s, x0) == -1)


@scenario("P28", "spin_parameters", quick=[dict(kind="zfs"), dict(kind="g"), dict(kind="check"), dict(kind="check", N=2)],
          about="the zero-field splitting tensor of D and E is traceless with D and E as its axial and rhombic parts, a full tensor is taken as it is; scalar, diagonal and full g factors give the matching tensor; a "
                "tensor is reduced to a number exactly when it is that number times the identity",
          bounds="any D, E and g values")
def spin_parameters(ctx):
    n = ctx.np
    if ctx.cfg["kind"] == "zfs":
        D, E = ctx.real("D"), ctx.real("E")
        s = spin.Spin(D=D, E=E, gfactor=2.0)
        Z = s._zfs
        ctx.eq("trace", n.trace(Z), 0)
        ctx.eq("axial", Z[2, 2] - (Z[0, 0] + Z[1, 1]) / 2, D)
        ctx.eq("rhombic", (Z[0, 0] - Z[1, 1]) / 2, E)
        ctx.eq("diagonal", n.array([Z[i, j] for i in range(3) for j in range(3) if i != j]), 0)
        ctx.eq("remembered", n.array([s.D, s.E]), n.array([D, E]))
        T = ctx.sym("T", 3)
        ctx.eq("tensor", spin.zfs_tensor(T), T)
        ctx.true("multiplicity", s.ndim == 2 and spin.Spin(spin=1.5, gfactor=2.0).ndim == 4)
    elif ctx.cfg["kind"] == "check":
        N = ctx.cfg.get("N", 1)
        d = ctx.real("d", (N, 3))
        T = n.zeros((N, 3, 3))
        for k in range(N):
            for i in range(3):
                T[k, i, i] = d[k, i]
        T = T if N > 1 else T[0]
        keep = T.copy()
        same = all(bool(d[k, 0] == d[k, i]) for k in range(N) for i in (1, 2))
        r, scalar = spin.check_gfactor(T)
        ctx.eq("argument", T, keep)
        ctx.true("isotropic", bool(scalar) == same)
        ctx.eq("value", r, (d[:, 0] if N > 1 else d[0, 0]) if same else keep)
        o = ctx.real("o", lo=Fraction(1, 10), hi=1)
        T[..., 0, 2] = T[..., 0, 2] + o
        r, scalar = spin.check_gfactor(T)
        ctx.true("off-diagonal", not bool(scalar))
        ctx.eq("off-diagonal-value", r, T)
        r, scalar = spin.check_gfactor(d[0])
        ctx.true("vector", bool(scalar))
        ctx.eq("vector-value", r, d[0])
    else:
        g, v, T = ctx.real("g"), ctx.real("v", (3,)), ctx.real("T", (3, 3))
        ctx.eq("tensor", spin.Spin(gfactor=T)._gfactor, T)
        ctx.eq("diagonal", spin.Spin(gfactor=v)._gfactor, n.diag(v))
        ctx.eq("scalar", spin.Spin(gfactor=g)._gfactor, g * n.eye(3))
