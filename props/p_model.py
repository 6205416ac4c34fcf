"""P24: the integrals handed to the cavity CC and FCI solvers, and the lattice models"""
from .common import *
from .p_hf import fake_mol, symfill, tr, bo, qh
from vsym.registry import scenario
import openms.lib.ov_blocks as ovb
import openms.models.hubbard as hub
import openms.models.hh_model as hh


def mo4(ctx, V, A, B, C, D):
    return ctx.np.einsum("pqrs,pi,qj,rk,sl->ijkl", V, A, B, C, D, optimize=True)


@scenario("P24", "basis_change", quick=[dict(nao=2, nmo=2), dict(nao=3, nmo=2)],
          about="operators handed to the solvers are transformed with the orbitals on both sides, the bra conjugated",
          bounds="2-3 basis functions, 2 orbitals, any complex matrix and orbitals")
def basis_change(ctx):
    c = ctx.cfg
    n = ctx.np
    A, C = ctx.cplx("A", (c["nao"], c["nao"])), ctx.cplx("C", (c["nao"], c["nmo"]))
    ctx.eq("transformed", bo.transform_ao2mo(A, C), n.dot(n.conj(C).T, n.dot(A, C)))
    a, b = ctx.real("a", (2, 1)), ctx.real("b", (3, 2))
    M = n.zeros((5, 3))
    M[:2, :1] = a
    M[2:, 1:] = b
    ctx.eq("spin-blocks", ovb.block_diag(a, b), M)


@scenario("P24", "fci_integrals", quick=[dict(nmode=1), dict(nmode=2), dict(nmode=1, chol=True), dict(nmode=2, lists=True)], thorough=[dict(nmode=3), dict(nmode=1, nao=3)],
          about="the integrals prepared for the FCI are those of the cavity Hamiltonian in the orthogonalised orbitals: one- and two-electron part with the dipole self energy, "
                "couplings scaled by each mode's own sqrt(omega/2), and the initial density in the same orbitals",
          bounds="2 orbitals, 1-3 modes, any integrals, frequencies, polarisations and orthogonalising matrix (the overlap is its inverse square)")
def fci_integrals(ctx):
    c = ctx.cfg
    n = ctx.np
    N, nao = c["nmode"], c.get("nao", 2)
    C = symfill(ctx, ctx.real("C", (nao * (nao + 1) // 2,), lo=Fraction(1, 5), hi=2), nao)
    Ci = n.linalg.inv(C)
    mol, M = fake_mol(ctx, nao)
    M.ovlp = n.dot(Ci, Ci)
    D = symfill(ctx, ctx.real("D", (nao * (nao + 1) // 2,)), nao)
    w = ctx.pos("omega", (N,), lo=Fraction(1, 2), hi=2)
    vec = ctx.real("vec", (N, 3), lo=Fraction(1, 10), hi=2)
    from pyscf import lo, scf, ao2mo
    ctx.patch(lo.orth, "lowdin", lambda s: C.copy())
    ctx.patch(scf.hf, "get_init_guess", lambda m, *a, **k: D.copy())
    ctx.patch(mol, "build", lambda *a, **k: mol)
    eri = M.eri
    if ctx.mode == "sym":
        ctx.patch(ao2mo, "kernel", lambda e, c_, **k: mo4(ctx, e, c_, c_, c_, c_))
        ctx.patch(ao2mo, "restore", lambda s, e, nb, tao=None: __import__("vsym.shim").shim.unpack_eri(e, nb))
    if c.get("chol"):
        L = ctx.sym("L", (2, nao, nao))
        th = []
        ctx.patch(bo, "chols_full", lambda m, thresh=None, **k: (th.append(thresh), L.copy())[1])
        eri = n.einsum("xpq,xrs->pqrs", L, L)
    kw = dict(chol_thresh=1e-5) if c.get("chol") else {}
    win, vin = (list(w), [list(v) for v in vec]) if c.get("lists") and ctx.mode == "num" else (w.copy(), vec.copy())
    enuc, ovlp, hcore, e2, Hep, dm0 = bo.get_integrals4fci(mol, win, vin, **kw)
    o = [Fraction(0), Fraction(0), Fraction(2, 5) * (nao - 1)]
    cc = mol.atom_coords()[:, 2].mean()
    o = [o[0], o[1], Fraction(cc).limit_denominator(10 ** 6) if ctx.mode == "sym" else cc]
    r = M.dip()
    g = [-sum(vec[a, k] * (r[k] - o[k] * M.ovlp) for k in range(3)) for a in range(N)]
    gl = [n.dot(n.dot(C, x), C) for x in g]
    ctx.eq("couplings", Hep, n.array([n.sqrt(w[a] / 2) * gl[a] for a in range(N)]), tol=1e-5)
    ctx.eq("overlap", ovlp, n.dot(n.dot(C, M.ovlp), C))
    ctx.eq("one-electron", hcore, n.dot(n.dot(C, M.h), C) + sum(n.dot(x, x) for x in gl) / 2, tol=1e-5)
    ctx.eq("two-electron", e2.reshape((nao,) * 4), mo4(ctx, eri, C, C, C, C) + sum(n.einsum("pq,rs->pqrs", x, x) for x in gl), tol=1e-5)
    SC = n.dot(M.ovlp, C)
    ctx.eq("initial-density", dm0, n.dot(n.dot(SC.T, D), SC))
    ctx.eq("nuclear", enuc, ctx.num(0) + (Fraction(mol.energy_nuc()) if ctx.mode == "sym" else mol.energy_nuc()), tol=1e-9)
    if c.get("chol"):
        ctx.true("threshold", th == [1e-5])


def spin_fock(ctx, V, P):
    """J - K of a spin-orbital density over <pq|rs> = V (physicist order, spin orbitals)"""
    return ctx.np.einsum("prqs,sr->pq", V, P) - ctx.np.einsum("prsq,sr->pq", V, P)


def so4(ctx, U, n_):
    """physicist integrals over spin orbitals from chemist spatial integrals"""
    o = ctx.np.zeros((2 * n_,) * 4)
    for a in (0, n_):
        for b in (0, n_):
            for p, q, r, s in np.ndindex(*(n_,) * 4):
                o[p + a, r + b, q + a, s + b] = U[p, q, r, s]
    return o


def check_blocks(ctx, label, B, T, o, v, names):
    for nm in names:
        ix = [o if x == "o" else v for x in nm]
        ctx.eq("%s-%s" % (label, nm), getattr(B, nm), T[np.ix_(*ix)])


FULL1 = ("oo", "ov", "vo", "vv")
TWO = ("vvvv", "vvvo", "vovv", "vvoo", "vovo", "oovv", "vooo", "ooov", "oooo")
FULL2 = TWO + ("vvov", "ovvv", "ovvo", "voov", "ovov", "ovoo", "oovo")


@scenario("P24", "cc_integrals", quick=[dict(nmode=1), dict(nmode=2, uhf=True), dict(nmode=1, nao=3, uhf=True), dict(nmode=1, fresh=True), dict(nmode=1, uhf=True, again=True)], thorough=[dict(nmode=2, nao=3), dict(nmode=3, uhf=True)],
          about="a photon object attached to a mean field provides the spin-orbital Fock matrix, the antisymmetrised integrals with the dipole self energy and the electron-photon couplings "
                "in the molecular orbitals, each block taken from the right orbitals, without changing the mean field",
          bounds="2-3 orbitals, 1-3 modes, any orbitals and integrals; restricted and unrestricted references; a photon object that has or has not been through an SCF")
def cc_integrals(ctx):
    c = ctx.cfg
    n = ctx.np
    N, nao = c["nmode"], c.get("nao", 2)
    mol, M = fake_mol(ctx, nao)
    w = ctx.pos("omega", (N,), lo=Fraction(1, 2), hi=2)
    gf = ctx.pos("gfac", (N,), lo=Fraction(1, 10), hi=1)
    vec = np.zeros((N, 3))
    for a in range(N):
        vec[a, a % 3] = 1.0
    h = ctx.sym("h", nao)
    hold = h.copy()
    Ca = ctx.real("Ca", (nao, nao))
    Cb = ctx.real("Cb", (nao, nao)) if c.get("uhf") else Ca
    if c.get("uhf"):
        na, nb_ = nao - 1, 1
        occ = n.array([[float(i < na) for i in range(nao)], [float(i < nb_) for i in range(nao)]])
        C_ = n.array([Ca, Cb])
    else:
        na = nb_ = 1
        occ = np.array([2.0 if i < na else 0.0 for i in range(nao)])
        C_ = Ca.copy()
    q = bo.Photon(mol, omega=w, vec=ctx.arr(vec), gfac=gf)
    g = ctx.sym("g", (N, nao, nao))
    if c.get("fresh"):
        o = mol.atom_coords()[:, 2].mean()
        o = Fraction(o).limit_denominator(10 ** 6) if ctx.mode == "sym" else o
        r = M.dip()
        g = n.array([-gf[a] * (r[a % 3] - (o * M.ovlp if a % 3 == 2 else 0 * M.ovlp)) for a in range(N)])
    else:
        q.gmat = g.copy()
    U = M.eri + sum(n.einsum("pq,rs->pqrs", g[a], g[a]) for a in range(N))

    def get_jk(mol=None, dm=None, hermi=1, with_j=True, with_k=True, omega=None, **k):
        d = dm.reshape(-1, nao, nao)
        j = n.array([n.einsum("pqrs,sr->pq", U, y) for y in d]).reshape(dm.shape)
        x = n.array([n.einsum("psrq,sr->pq", U, y) for y in d]).reshape(dm.shape)
        return j, x
    q._mf = NS(mo_coeff=C_, mo_occ=occ, get_hcore=lambda *a, **k: h, get_jk=get_jk, get_ovlp=lambda *a: M.ovlp, energy_nuc=lambda: 0)
    X = ctx.sym("X", nao)
    dens = []
    q.add_oei_ao = lambda dm, *a, **k: (dens.append(dm), X.copy())[1]
    if ctx.mode == "sym":
        from pyscf import ao2mo
        ctx.patch(ao2mo, "general", lambda e, cs, compact=True, **k: mo4(ctx, e, *cs))
    if c.get("again"):          # integrals of other orbitals and couplings were asked for before
        q._mf.mo_coeff = n.array([n.eye(nao) * 2, n.eye(nao) + ctx.num(Fraction(1, 3))])
        q.gmat = n.array([n.eye(nao)] * N)
        q.kernel()
        q.fock(), q.g_fock(), q.get_I(), q.get_I(full=True), q.gint(), q.mfG()
        q._mf.mo_coeff = C_
        q.gmat = g.copy()
        q.get_mos()
    q.kernel()
    P = n.zeros((2 * nao, 2 * nao))
    P[:nao, :nao] = n.dot(Ca[:, :na], Ca[:, :na].T)
    P[nao:, nao:] = n.dot(Cb[:, :nb_], Cb[:, :nb_].T)
    F = spin_fock(ctx, so4(ctx, U, nao), P)
    for s in (0, nao):
        F[s:s + nao, s:s + nao] += hold + X
    Fo = q.fock()
    ctx.eq("fock", Fo, F, tol=1e-5)
    ctx.eq("density-of-the-cavity-term", dens[-1], P[:nao, :nao] + P[nao:, nao:])
    ctx.eq("mean-field-unchanged", h, hold)
    # spin orbital coefficient matrix: alpha orbitals, beta orbitals
    C = n.zeros((2 * nao, 2 * nao))
    C[:nao, :nao] = Ca
    C[nao:, nao:] = Cb
    o = list(range(na)) + [nao + i for i in range(nb_)]
    v = list(range(na, nao)) + [nao + i for i in range(nb_, nao)]
    check_blocks(ctx, "fock", q.g_fock(), n.dot(C.T, n.dot(F, C)), o, v, FULL1)
    V = mo4(ctx, so4(ctx, U, nao), C, C, C, C)
    A = V - V.transpose(0, 1, 3, 2)
    ctx.eq("antisymmetrised", q.get_I(full=True), A, tol=1e-5)
    check_blocks(ctx, "integrals", q.get_I(), A, o, v, TWO)
    G = n.zeros((N, 2 * nao, 2 * nao))
    for a in range(N):
        for s in (0, nao):
            G[a, s:s + nao, s:s + nao] = n.sqrt(w[a] / 2) * g[a]
    ctx.eq("spin-couplings", q.gmatso, G, tol=1e-5)
    for B in q.gint():
        for nm in FULL1:
            ix = [o if x == "o" else v for x in nm]
            ctx.eq("couplings-" + nm, getattr(B, nm), n.array([n.dot(C.T, n.dot(G[a], C))[np.ix_(*ix)] for a in range(N)]), tol=1e-5)
    for x in q.mfG():
        ctx.eq("mean-coupling", x, n.array([tr(ctx, G[a], P) for a in range(N)]), tol=1e-5)
    ctx.eq("mean-field-unchanged", h, hold)


def lattice(ctx, L, bc, twice=False):
    """nearest-neighbour hopping -1"""
    t = ctx.np.zeros((L, L))
    for i in range(L - 1):
        t[i, i + 1] += -1
        t[i + 1, i] += -1
    if bc == "p":
        if L > 2 or twice:
            t[0, L - 1] += -1
            t[L - 1, 0] += -1
    return t


@scenario("P24", "lattice", quick=[dict(L=3, N=3, bc="p"), dict(L=3, N=2, bc=None), dict(L=2, N=2, bc="p"), dict(L=2, N=2, bc=None, hh=True), dict(L=2, N=2, bc="p", hh=True),
                                  dict(L=3, N=2, bc="p", hh=True, gij=True), dict(L=3, N=4, bc=None, hh=True, shift=False), dict(L=2, N=2, bc=None, again=True), dict(L=2, N=2, bc="p", hh=True, again=True)],
          thorough=[dict(L=4, N=4, bc="p"), dict(L=4, N=3, bc=None), dict(L=4, N=4, bc="p", hh=True, gij=True), dict(L=3, N=2, bc=None, hh=True, gij=True)],
          about="the Hubbard and Hubbard-Holstein models provide the integrals of their documented Hamiltonian: hopping with the boundary condition, on-site repulsion, mean-field energy, "
                "orbital blocks of the Fock matrix, antisymmetrised integrals in spin-resolved and spin-orbital form, local and bond phonon couplings with the displaced-phonon shift",
          bounds="2-4 sites, any filling listed, open and periodic chains, any U, frequency, couplings and orbital coefficients")
def lattice_(ctx):
    c = ctx.cfg
    n = ctx.np
    L, N, bc = c["L"], c["N"], c["bc"]
    U = ctx.real("U", ())
    Ca, Cb = ctx.real("Ca", (L, L)), ctx.real("Cb", (L, L))
    shift = c.get("shift", True)
    if c.get("hh"):
        w, gl = ctx.pos("w", (), lo=Fraction(1, 2), hi=2), ctx.real("gl", ())
        gij = ctx.real("gij", ()) if c.get("gij") else None
        m = hh.HHModel(L, L, N, U, w, gl, bc=bc, ca=Ca.copy(), cb=Cb.copy(), gij=gij, shift=shift)
        na = nb_ = N // 2
    else:
        m = hub.Hubbard1D(L, N, U, bc, Ca.copy(), Cb.copy())
        nb_ = N // 2
        na = N - nb_
    lattice_values(ctx, m, na, nb_, U, Ca, Cb, Ca, Cb, bc, bc, w=w if c.get("hh") else None, gl=gl if c.get("hh") else None, gij=gij if c.get("hh") else None)
    if c.get("again"):      # the same model with another repulsion, boundary condition and orbitals: nothing may be remembered
        m.U = U = ctx.real("U2", ())
        m.bc = b2 = None if bc else "p"
        m.ca, m.cb = ctx.real("Ca2", (L, L)), ctx.real("Cb2", (L, L))
        P = (Ca, Cb)
        if not c.get("hh"):
            P = m.ca, m.cb
            m.pa, m.pb = n.dot(m.ca[:, :na], m.ca[:, :na].T), n.dot(m.cb[:, :nb_], m.cb[:, :nb_].T)
        lattice_values(ctx, m, na, nb_, U, m.ca.copy(), m.cb.copy(), *P, b2, bc, w=w if c.get("hh") else None, gl=gl if c.get("hh") else None, gij=gij if c.get("hh") else None)


def lattice_values(ctx, m, na, nb_, U, Ca, Cb, Da, Db, bc, gbc, w, gl, gij):
    c, n = ctx.cfg, ctx.np
    L, N, shift = c["L"], c["N"], c.get("shift", True)
    T = lattice(ctx, L, bc, twice=bool(c.get("hh")))
    ctx.eq("hopping", m.tmatS(), T)
    T2 = n.zeros((2 * L, 2 * L))
    T2[:L, :L] = T
    T2[L:, L:] = T
    ctx.eq("hopping-spin", m.tmat(), T2)
    V = n.zeros((L,) * 4)
    for i in range(L):
        V[i, i, i, i] = U
    ctx.eq("repulsion", m.umatS(), V)
    VS = so4(ctx, V, L)
    VA = VS - VS.transpose(0, 1, 3, 2)
    us = m.umat()
    ctx.eq("repulsion-spin", us - us.transpose(0, 1, 3, 2), VA)
    P = n.zeros((2 * L, 2 * L))
    P[:L, :L] = n.dot(Da[:, :na], Da[:, :na].T)
    P[L:, L:] = n.dot(Db[:, :nb_], Db[:, :nb_].T)
    G = n.zeros((2 * L, 2 * L))
    for i in range(L):      # n_up n_down mean field
        G[i, i] = U * P[L + i, L + i]
        G[L + i, L + i] = U * P[i, i]
    F = T2 + G
    ctx.eq("fock", m.fock(), F)
    E = tr(ctx, P, T2) + U * sum(P[i, i] * P[L + i, L + i] for i in range(L))
    C = n.zeros((2 * L, 2 * L))
    C[:L, :L] = Ca
    C[L:, L:] = Cb
    o = list(range(na)) + [L + i for i in range(nb_)]
    v = list(range(na, L)) + [L + i for i in range(nb_, L)]
    if c.get("hh"):
        g = n.zeros((L, 2 * L, 2 * L))
        for I in range(L):
            for s in (0, L):
                g[I, I + s, I + s] += gl
                if gij is not None:
                    for i in range(L - 1 if gbc is None else L):
                        j = (i + 1) % L
                        g[I, i + s, j + s] = g[I, j + s, i + s] = gij
        xi = [tr(ctx, g[I], P) / w if shift else ctx.num(0) for I in range(L)]
        E = E - w * sum(x * x for x in xi)
        F = F - 2 * sum(xi[I] * g[I] for I in range(L))
        ctx.eq("frequencies", m.omega(), n.array([w] * L))
        for x in m.mfG():
            ctx.eq("mean-coupling", x, n.array([ctx.num(0) if shift else tr(ctx, g[I], P) for I in range(L)]))
        for B in m.gint():
            for nm in FULL1:
                ix = [o if x == "o" else v for x in nm]
                ctx.eq("couplings-" + nm, getattr(B, nm), n.array([n.dot(C.T, n.dot(g[I], C))[np.ix_(*ix)] for I in range(L)]))
        ctx.eq("couplings-all", m.gint_tot(), n.array([n.dot(C.T, n.dot(g[I], C)) for I in range(L)]))
    ctx.eq("energy", m.hf_energy(), E)
    FM = n.dot(C.T, n.dot(F, C))
    check_blocks(ctx, "fock", m.g_fock(), FM, o, v, FULL1)
    h = n.dot(C.T, n.dot(T2, C))
    ctx.eq("core", m.g_hcore_tot(), h)
    ha, hb = m.u_hcore_tot()
    ctx.eq("core-spin", ha, h[:L, :L])
    ctx.eq("core-spin", hb, h[L:, L:])
    W = mo4(ctx, VA, C, C, C, C)
    check_blocks(ctx, "integrals", m.g_aint(), W, o, v, TWO)
    if c.get("hh"):
        eo, ev = m.energies()
        ctx.eq("energies", eo, n.array([FM[i, i] for i in o]))
        ctx.eq("energies", ev, n.array([FM[i, i] for i in v]))
        return
    ctx.eq("integrals-all", m.g_aint_tot(), W)
    W0 = m.g_int_tot()
    ctx.eq("integrals-bare", W0 - W0.transpose(0, 1, 3, 2), W)
    Va, Vb, Vab = m.u_aint_tot()
    ctx.eq("integrals-spin", Va, W[:L, :L, :L, :L])
    ctx.eq("integrals-spin", Vb, W[L:, L:, L:, L:])
    ctx.eq("integrals-spin", Vab, W[:L, L:, :L, L:])
    Va, Vb, Vab2 = m.u_int_tot()
    ctx.eq("integrals-spin-bare", Vab2, W[:L, L:, :L, L:])
    for X, C1 in ((Va, Ca), (Vb, Cb)):
        ctx.eq("integrals-spin-bare", X, mo4(ctx, V, C1, C1, C1, C1))
    oa, va, ob, vb = list(range(na)), list(range(na, L)), list(range(nb_)), list(range(nb_, L))
    if va and vb:
        A, B, AB = m.u_aint()
        check_blocks(ctx, "spin-a", A, W[:L, :L, :L, :L], oa, va, TWO)
        check_blocks(ctx, "spin-b", B, W[L:, L:, L:, L:], ob, vb, TWO)
        X = W[:L, L:, :L, L:]
        for nm in FULL2:
            ix = [(oa, va, ob, vb)[(0 if x == "o" else 1) + (2 if k % 2 else 0)] for k, x in enumerate(nm)]
            ctx.eq("spin-ab-" + nm, getattr(AB, nm), X[np.ix_(*ix)])
        fa, fb = m.u_fock()
        check_blocks(ctx, "fock-a", fa, FM[:L, :L], oa, va, FULL1)
        check_blocks(ctx, "fock-b", fb, FM[L:, L:], ob, vb, FULL1)
