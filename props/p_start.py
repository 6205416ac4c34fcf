"""P29: what a freshly built AFQMC calculation starts from"""
from .common import *
from vsym.registry import scenario

import openms.qmc.qmc as qmc
import openms.qmc.tools as tools
import openms.qmc.trial as tr
import openms.qmc.generic_walkers as gw


def system(ctx, c, X, C):
    nao = X.shape[0]
    na, nb = c["na"], c["nb"]
    S = ctx.sym("S", nao)
    T = ctx.sym("T", nao)
    V = ctx.sym("V", nao)
    mol = NS(verbose=0, stdout=Null(), nelectron=na + nb, spin=na - nb, nelec=(na, nb), nao_nr=lambda: nao, intor=lambda *a, **k: S,
             energy_nuc=lambda *a: enuc, nao=nao)
    enuc = ctx.real("enuc")
    L = ctx.sym("L", (1, nao, nao))
    occ = np.zeros(nao)
    occ[:max(na, nb)] = 2
    mf = NS(get_ovlp=lambda *a: S, mo_coeff=C, mo_occ=occ, mol=mol)

    def lowdin(s):
        ctx.eq("overlap-of-the-system", s, S)
        return X.copy()
    ctx.patch(qmc.lo.orth, "lowdin", lowdin)
    ctx.patch(qmc.scf.hf, "get_hcore", lambda *a: T + V)
    asked = []

    def chols(m, *a, thresh=None, g=None, **k):
        asked.append((m, g))
        return L.copy() if g is None else ctx.np.concatenate((L, g), axis=0)
    ctx.patch(tools, "chols_full", chols)
    ctx.patch(tools, "chols_blocked", chols)
    if ctx.mode == "sym":
        ctx.ex.stubs["eigh"] = lambda A, b=None: (ctx.np.zeros(A.shape[0]), A)
    return mol, mf, T + V, L, enuc, S


def basis(ctx, c):
    nao = c["nao"]
    if c.get("X") == "general":
        X = ctx.real("X", (nao, nao))
        ctx.assume(X[0, 0] * X[1, 1] - X[0, 1] * X[1, 0] >= Fraction(1, 10))
    elif c.get("X") == "scaled":
        X = ctx.arr(np.zeros((nao, nao)))
        x = ctx.pos("x", (nao,))
        for i in range(nao):
            X[i, (i + 1) % nao] = x[i]
    else:
        X = ctx.arr(np.eye(nao))
    return X


def rot(nao, k):
    U = [[Fraction(3, 5), Fraction(-4, 5)], [Fraction(4, 5), Fraction(3, 5)]]
    if nao == 3:
        U = [[Fraction(1, 3), Fraction(2, 3), Fraction(2, 3)], [Fraction(2, 3), Fraction(1, 3), Fraction(-2, 3)], [Fraction(2, 3), Fraction(-2, 3), Fraction(1, 3)]]
    return U


@scenario("P29", "start_of_run", quick=[dict(nao=2, na=1, nb=1, uhf=False, X="general"), dict(nao=2, na=1, nb=1, uhf=True, X="scaled"), dict(nao=3, na=2, nb=1, uhf=True, X="scaled"),
                                       dict(nao=2, na=1, nb=1, uhf=False, X="scaled", modes=(2, 2)), dict(nao=2, na=1, nb=1, uhf=True, X="scaled", modes=(3,)), dict(nao=2, na=1, nb=1, uhf=True, X="scaled", modes=(3,), off=True),
                                       dict(nao=2, na=1, nb=1, uhf=False, X="scaled", OAO=False), dict(nao=3, na=2, nb=1, uhf=True, X="one", OAO=False, block=True)],
          about="building a calculation: the trial holds each spin's lowest orbitals in the orthogonalised basis, the integrals are in that same basis, every walker is an independent copy of the trial (electrons "
                "and bosons) with unit weight, the energy of the initial population is the mean-field energy of the trial, and the propagator has the given time step, order, scheme and couplings",
          bounds="2-3 orbitals, 1-2 electrons per spin, 2 walkers, time step 0.005 (100 steps), 0-2 modes of 2-3 Fock states (moving, or frozen in the vacuum); any integrals, couplings, frequencies and basis; trial orbitals fixed in the orthogonalised basis; bosonic trial amplitudes fixed (P13 decides them)")
def start_of_run(ctx):
    c = ctx.cfg
    n = ctx.np
    nao, na, nb = c["nao"], c["na"], c["nb"]
    OAO = c.get("OAO", True)
    X = basis(ctx, c)
    U = n.array(rot(nao, 0)) if ctx.mode == "sym" else np.array(rot(nao, 0), dtype=float)
    C = n.dot(X, U) if OAO else X
    B = X if OAO else C                                      # the basis everything has to be expressed in
    mol, mf, h, L, enuc, S = system(ctx, c, X, C)
    kw, modes, off = {}, c.get("modes", ()), c.get("off", False)
    if modes:
        om = ctx.pos("om", (len(modes),))
        g = ctx.sym("g", (len(modes), nao, nao))
        kw = dict(boson_freq=om, nphoton=modes[0], gmat=g)
        v = {2: [Fraction(3, 5), Fraction(4, 5)], 3: [Fraction(2, 7), Fraction(3, 7), Fraction(6, 7)], 4: [Fraction(1, 5), Fraction(2, 5), Fraction(2, 5), Fraction(4, 5)]}[modes[0] * len(modes)]
        if off:                                              # frozen bosons: the vacuum
            v = [Fraction(1)] + [Fraction(0)] * (modes[0] * len(modes) - 1)
        amp = n.array(v) if ctx.mode == "sym" else np.array(v, dtype=float)

        def coherent(z, states):
            ctx.true("boson-sizes", list(states) == [modes[0]] * len(modes))
            ctx.true("boson-displacements", len(z) == len(modes))
            return amp.copy()
        ctx.patch(tr, "initialize_boson_trial_with_z", coherent)
    dt, total = 0.005, 0.5
    q = qmc.QMCbase(mol, mf=mf, dt=dt, total_time=total, num_walkers=2, taylor_order=4, uhf=c["uhf"], OAO=OAO, block_decompose_eri=c.get("block", False), verbose=0,
                    **(dict(propagator_options=dict(turnoff_bosons=True)) if off else {}), **kw)
    ncomp = 2 if c["uhf"] else 1
    t, w, p = q.trial, q.walkers, q.propagator
    occ = U if OAO else n.array(np.eye(nao))
    ctx.eq("alpha-orbitals", t.psia, occ[:, :na])
    ctx.true("electron-numbers", t.nalpha == na and t.nbeta == nb)
    tot = [n.dot(occ[:, :k], occ[:, :k].T) for k in ((na, nb) if ncomp > 1 else (na, na))]
    ctx.eq("trial-density", t.Gf[0], tot[0])
    if ncomp > 1:
        ctx.eq("beta-orbitals", t.psib, occ[:, :nb])
        ctx.eq("trial-density-beta", t.Gf[1], tot[1])
    hb = n.dot(B.T, n.dot(h, B))
    Lb = [n.dot(B.T, n.dot(L[0], B))]
    gb = []
    if modes:
        gb = [n.dot(B.T, n.dot(g[a], B)) for a in range(len(modes))]
        hb = hb + sum(n.dot(x, x) for x in gb) / 2
    for s in range(ncomp):
        ctx.eq("one-body", q.h1e[s], hb)
    ctx.true("number-of-fields", q.ltensor.shape[0] == 1 + len(modes))
    for k, M in enumerate(Lb + gb):
        ctx.eq("fields", q.ltensor[k], M)
    ctx.eq("nuclear", q.nuc_energy, enuc)
    # settings
    ctx.eq("time-step", p.dt, dt)
    ctx.true("number-of-steps", q.nsteps == 100)
    ctx.true("expansion-order", p.taylor_order == 4)
    ctx.true("scheme", p.energy_scheme == "hybrid")
    ctx.true("population", w.nwalkers == 2 and w.global_nwalkers == 2)
    ctx.eq("weights", w.weights, n.ones(2))
    ctx.eq("total-weight", w.total_weight, 2)
    for z in range(2):
        ctx.eq("walker-alpha", w.phiwa[z], t.psia)
        if ncomp > 1:
            ctx.eq("walker-beta", w.phiwb[z], t.psib)
    # energy of the population = mean-field energy
    E = enuc * 1
    for s in range(2):
        E = E + n.sum(hb * tot[s])
    for M in Lb + gb:
        m = [n.sum(M * tot[s]) for s in range(2)]
        E = E + (m[0] + m[1]) * (m[0] + m[1]) / 2
        for s in range(2):
            Y = n.dot(M, tot[s])
            E = E - n.sum(Y * Y.T) / 2
    if modes:
        i0, bos = 0, ctx.num(0)
        psi = t.boson_psi
        ctx.eq("boson-trial", psi, amp)
        nst = [modes[0]] * len(modes)
        for a, d in enumerate(nst):
            v = psi[i0:i0 + d]
            i0 += d
            bos = bos + sum(om[a] * k * v[k] * v[k] for k in range(d))
            x = sum(2 * v[k] * v[k + 1] * n.sqrt(n.array(k + 1)) for k in range(d - 1))
            bos = bos + x * n.sqrt(om[a] / 2) * n.sum(gb[a] * (tot[0] + tot[1]))
        if not off:
            E = E + bos
        ctx.eq("boson-walkers", w.boson_phiw[1], psi)
        ctx.eq("coupling", p.geb, n.array([gb[a] * n.sqrt(om[a] / 2) for a in range(len(modes))]))
        ctx.true("bare-fields", p.nbarefields == 1 + len(modes))
    e = p.local_energy(q.h1e, q.ltensor, w, t, enuc=q.nuc_energy)
    ctx.eq("initial-energy", e[0], E * e[1])
    # independence
    a0 = w.phiwa[1].copy()
    p0 = t.psi.copy()
    w.phiwa[0] = w.phiwa[0] * 2
    w.weights[0] = 5
    ctx.eq("independent-walkers", w.phiwa[1], a0)
    ctx.eq("trial-untouched", t.psi, p0)
    ctx.eq("independent-weights", w.weights[1], 1)
    if modes:
        b1, bp = w.boson_phiw[1].copy(), t.boson_psi.copy()
        w.boson_phiw[0] = w.boson_phiw[0] * 3
        ctx.eq("independent-bosons", w.boson_phiw[1], b1)
        ctx.eq("boson-trial-untouched", t.boson_psi, bp)

