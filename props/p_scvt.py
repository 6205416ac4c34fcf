"""P17, P18: strong-coupling and variational-transformation QED-HF: energy, Fock matrix, limits and variational gradients"""
from .common import *
from .p_hf import build, photon_state, blocks, x_exp, symfill, tr, jk_ref, e_ref, qh, sc, vt, bo, fake_mol
from .p_boson import disp_ref
from vsym.registry import scenario

import openms.qmc.tools as qtools


def setup(ctx, cls, nb, U="id", chol=0, f=None, r=None, cs=False, dse=True, nao=2):
    """one cavity mode, dipole basis U, arbitrary eta; the two-electron integrals in full or factorised form"""
    n = ctx.np
    eri = L = None
    if chol:
        L = n.array([ctx.sym("L%d" % k, nao) for k in range(chol)])
        eri = n.einsum("xpq,xrs->pqrs", L, L)
    kw = {}
    if f is not None:
        kw["f"] = f
    mf, q, M = build(ctx, cls, nao, 1, nb, dse, cs, r=r, eri=eri, **kw)
    if r is not None:
        q.squeezed_var = r
    if U == "id":
        U = n.eye(nao) if ctx.mode == "num" else sarr(np.eye(nao))
    else:
        a, d, b = ctx.pos("ua", lo=Fraction(1, 2), hi=2), ctx.pos("ud", lo=Fraction(1, 2), hi=2), ctx.real("ub")
        U = n.array([[a, ctx.num(0)], [b, d]])
        Ui = n.array([[1 / a, ctx.num(0)], [-b / (a * d), 1 / d]])
        M.ovlp = n.dot(Ui.T, Ui)
    mf.eta = ctx.real("eta", (1, nao), lo=-1, hi=1)
    mf.eta_grad = n.zeros((1, nao))
    mf.ao2dipole = n.array([U])
    mf.dm_do = n.zeros((1, nao, nao))
    if nb > 1:
        photon_state(ctx, q)
    else:
        q.boson_coeff = n.array([[ctx.num(1)]])
        q.e_boson = ctx.num(0)
    if chol:
        ctx.patch(qtools, "chols_blocked", lambda *a, **k: L.copy())
        mf.cholesky_DO(U)
    else:
        mf.eri_DO = mf.construct_eri_DO(U)
    return mf, q, M, U


def used_before(ctx, mf, q, M, U):
    """the same object has already evaluated other orbital displacements, another photon state, dipole basis and density"""
    n = ctx.np
    h = ctx.num(Fraction(1, 2))
    keep = [(o, k, getattr(o, k)) for o, k in ((mf, "eta"), (mf, "ao2dipole"), (mf, "ltensor"), (q, "boson_coeff"), (q, "e_boson"), (q, "couplings_var"), (q, "z_alpha"))]
    z0 = n.array(list(q.z_alpha)) if q.z_alpha is not None else None
    mf.eta = n.array([[h, -h / 4]])
    W = n.array([[h, ctx.num(0)], [h / 2, 3 * h]])
    mf.ao2dipole = n.array([W])
    if mf.ltensor is None:
        mf.eri_DO = mf.construct_eri_DO(W)
    nb = int(q.nboson_states[0])
    b = n.zeros((nb, nb))
    for k in range(nb):
        b[k, 0] = h / (k + 2)
    q.boson_coeff = b
    q.e_boson = h * 3
    if type(mf) is vt.RHF:
        q.couplings_var = n.array([h / 2])
        q.update_couplings()
    e = run_energy(mf, n.array([[3 * h, h / 3], [h / 3, h]]))
    C = n.array([[h, h], [-h, h / 2]])
    mf.make_rdm1_org(C, np.array([2.0, 0.0]), nfock=2)
    for o, k, v in keep:
        setattr(o, k, v)
    q.z_alpha = z0
    if type(mf) is vt.RHF:
        q.update_couplings()
    if mf.ltensor is None:
        mf.eri_DO = mf.construct_eri_DO(U)


def run_energy(mf, D):
    mf.get_h1e_DO(mf.mol, dm=D)
    h = mf.get_hcore(mf.mol, D)
    v = mf.get_veff(mf.mol, D)
    h = mf.get_hcore(mf.mol, D)
    return mf.energy_elec(D, h, v)[0], h, v


def dressing(ctx, mf, q, x):
    c = q.boson_coeff[:, 0]
    m = len(c)
    return sum((c[i] * c[j] * disp_ref(ctx, i, j, x) for i in range(m) for j in range(m)), ctx.num(0)) * ctx.np.exp(-x * x / 2)


def sc_ref(ctx, mf, q, M, Dt, U, eta):
    """energy of the transformed state, dipole-basis density Dt"""
    n = ctx.np
    nao = len(eta)
    w = q.omega[0]
    t = n.exp(q.squeezed_var[0]) / w
    h = n.dot(n.dot(U.T, M.h), U)
    g = q.couplings_var[0] * n.sqrt(w / 2) * n.diagonal(n.dot(n.dot(U.T, q.gmat[0]), U)) - eta
    eri = M.eri
    for _ in range(4):
        eri = n.tensordot(eri, U, axes=([0], [0]))
    R = range(nao)
    fc = {}

    def F(x):
        k = str(x) if ctx.mode == "sym" else x
        if k not in fc:
            fc[k] = dressing(ctx, mf, q, t * x)
        return fc[k]
    e = sum((h[p, s] * Dt[p, s] * F(eta[p] - eta[s]) for p in R for s in R), ctx.num(0))
    pop = dressing(ctx, mf, q, ctx.num(0))
    e = e + sum(g[p] * g[p] * Dt[p, p] for p in R) / w * pop
    gd = sum(g[p] * Dt[p, p] for p in R)
    e = e + (gd * gd - sum(g[p] * g[s] * Dt[p, s] * Dt[p, s] for p in R for s in R) / 2) / w
    for p in R:
        for s in R:
            for u in R:
                for v in R:
                    e = e + eri[p, s, u, v] / 2 * F(eta[p] - eta[s] + eta[u] - eta[v]) * (Dt[p, s] * Dt[u, v] - Dt[p, v] * Dt[u, s] / 2)
    return e


def res_ref(ctx, mf, q, M, D, z):
    """residual coupling of the partially transformed Hamiltonian"""
    n = ctx.np
    f = q.couplings_var[0]
    s = (1 - f) * (1 - f) if q.add_dse else (1 - f) * (1 - f) - 1
    pop = tr(ctx, D, M.ovlp) / mf.mol.nelectron
    g = q.gmat[0]
    gd = tr(ctx, g, D)
    e = s * (-z * gd + z * z / 2 * pop + gd * gd / 2 - tr(ctx, g, D, g, D) / 4)
    if q.add_dse:
        e = e - s * tr(ctx, q.q_lambda_ao[0], D) / 2
    x = x_exp(ctx, q.boson_coeff[:, 0], len(q.boson_coeff))
    return e + (1 - f) * n.sqrt(q.omega[0] / 2) * x * (gd - z * pop)


def dens(ctx, y, U, N=None):
    n = ctx.np
    Dt = n.array([[N - y[1], y[0]], [y[0], y[1]]]) if N is not None else symfill(ctx, y, 2)
    return Dt, n.dot(n.dot(U, Dt), U.T)


@scenario("P17", "energy", quick=[dict(m="sc", nb=1, U="gen"), dict(m="sc", nb=1, chol=1, U="gen"), dict(m="sc", nb=2), dict(m="vt", nb=1), dict(m="vt", nb=2, chol=1),
                                  dict(m="vt", nb=1, sq=True), dict(m="vt", nb=1, cs=True), dict(m="vt", nb=1, dse=False),
                                  dict(m="sc", nb=2, U="gen", again=True), dict(m="vt", nb=2, again=True), dict(m="vt", nb=1, cs=True, again=True), dict(m="sc", nb=2, chol=1, again=True)],
          thorough=[dict(m="sc", nb=3), dict(m="sc", nb=2, chol=2), dict(m="vt", nb=1, U="gen"), dict(m="vt", nb=3, chol=1), dict(m="vt", nb=1, sq=True, chol=1)],
          about="the SC/VT-QED-HF energy is the expectation value of the transformed Hamiltonian (dressed one- and two-electron integrals, transformed dipole self-energy, residual "
                "coupling, photon energy) in the current state, for full and factorised integrals",
          bounds="2 dipole orbitals in a general non-orthogonal basis, 1 mode, 1-3 Fock states, 1-2 factor vectors, any eta, coupling fraction, squeezing, density and photon state; also after the same object evaluated another state")
def energy(ctx):
    c = ctx.cfg
    n = ctx.np
    kw = {}
    if c["m"] == "vt":
        kw["f"] = ctx.real("f", (1,), lo=Fraction(1, 10), hi=Fraction(9, 10))
        if c.get("sq"):
            kw["r"] = ctx.real("r", (1,), lo=Fraction(1, 10), hi=Fraction(1, 2))
    mf, q, M, U = setup(ctx, sc.RHF if c["m"] == "sc" else vt.RHF, c["nb"], c.get("U", "id"), c.get("chol", 0), cs=c.get("cs", False), dse=c.get("dse", True), **kw)
    Dt, D = dens(ctx, ctx.real("D", (3,)), U)
    if c.get("again"):
        used_before(ctx, mf, q, M, U)
    e, h, v = run_energy(mf, D)
    if c["m"] == "sc":
        ctx.eq("no-displacement-of-the-mode", (1 - q.couplings_var[0]), 0)
    pop = tr(ctx, D, M.ovlp) / mf.mol.nelectron
    ref = sc_ref(ctx, mf, q, M, Dt, U, mf.eta[0]) + q.e_boson * pop
    if c["m"] == "vt":
        ref = ref + res_ref(ctx, mf, q, M, D, tr(ctx, q.gmat[0], D) if c.get("cs") else q.z_alpha[0])
    ctx.eq("energy", e, ref)


@scenario("P17", "fock", quick=[dict(m="sc", nb=1), dict(m="sc", nb=1, U="gen"), dict(m="sc", nb=2, chol=1), dict(m="vt", nb=1), dict(m="vt", nb=2), dict(m="vt", nb=1, cs=True, chol=1)],
          thorough=[dict(m="vt", nb=3), dict(m="vt", nb=3, chol=1), dict(m="vt", nb=1, U="gen"), dict(m="vt", nb=1, dse=False), dict(m="sc", nb=3)],
          about="the SC/VT Fock matrix is symmetric and is the derivative of the energy with respect to the density matrix",
          bounds="2 orbitals, 1 mode, 1-3 Fock states; with a self-consistent displacement only particle-conserving variations")
def fock(ctx):
    c = ctx.cfg
    n = ctx.np
    kw = {}
    if c["m"] == "vt":
        kw["f"] = ctx.real("f", (1,), lo=Fraction(1, 10), hi=Fraction(9, 10))
    cs = c.get("cs", False)
    mf, q, M, U = setup(ctx, sc.RHF if c["m"] == "sc" else vt.RHF, c["nb"], c.get("U", "id"), c.get("chol", 0), cs=cs, dse=c.get("dse", True), **kw)
    N = mf.mol.nelectron if cs else None
    x = ctx.real("D", (2 if cs else 3,))
    G = ctx.grad(lambda y: run_energy(mf, dens(ctx, y, U, N)[1])[0], x)
    D = dens(ctx, x, U, N)[1]
    e, h, v = run_energy(mf, D)
    F = mf.get_fock(h, M.ovlp, v, D)
    ctx.eq("symmetric", F, F.T)
    Ft = n.dot(n.dot(U.T, F), U)
    if cs:
        ctx.eq("offdiagonal", G[0], Ft[0, 1] + Ft[1, 0])
        ctx.eq("diagonal", G[1], Ft[1, 1] - Ft[0, 0])
        return
    k = 0
    for i in range(2):
        for j in range(i + 1):
            ctx.eq("fock", G[k], Ft[i, j] * (1 if i == j else 2))
            k += 1


@scenario("P17", "photon_problem", quick=[dict(nb=2), dict(nb=3), dict(nb=2, chol=1)], thorough=[dict(nb=3, chol=1), dict(nb=4)],
          about="the effective photon Hamiltonian handed to the photon update reproduces the electronic energy as a quadratic form of the photon state, so electrons and photon minimise the same energy",
          bounds="2 orbitals, 1 mode, 2-4 Fock states")
def photon_problem(ctx):
    c = ctx.cfg
    n = ctx.np
    mf, q, M, U = setup(ctx, sc.RHF, c["nb"], "id", c.get("chol", 0))
    Dt, D = dens(ctx, ctx.real("D", (3,)), U)
    e, h, v = run_energy(mf, D)
    H = bo.unpack_symmetric(q.Hph_sc, c["nb"], fac=2.0)
    ctx.eq("symmetric", H, H.T)
    cb = q.boson_coeff[:, 0]
    w = q.omega[0]
    g = mf.g_dipole[0]
    gd = sum(g[p] * Dt[p, p] for p in range(2))
    rest = (gd * gd - sum(g[p] * g[s] * Dt[p, s] * Dt[p, s] for p in range(2) for s in range(2)) / 2) / w + q.e_boson * tr(ctx, D, M.ovlp) / mf.mol.nelectron
    ctx.eq("same-energy", n.dot(cb, n.dot(H, cb)), e - rest)


@scenario("P17", "limits", quick=[dict(to="sc", nb=1), dict(to="sc", nb=3), dict(to="qed", nb=1), dict(to="qed", nb=2, cs=True), dict(to="qed", nb=1, chol=1)],
          thorough=[dict(to="qed", nb=3), dict(to="sc", nb=2, chol=1)],
          about="a full transformation makes VT-QED-HF equal SC-QED-HF, no transformation makes it equal QED-HF: energy and Fock matrix, for any state",
          bounds="2 orbitals, 1 mode, 1-3 Fock states")
def limits(ctx):
    c = ctx.cfg
    n = ctx.np
    one = ctx.num(1 if c["to"] == "sc" else 0)
    mf, q, M, U = setup(ctx, vt.RHF, c["nb"], "id", c.get("chol", 0), f=n.array([one]), cs=c.get("cs", False))
    Dt, D = dens(ctx, ctx.real("D", (3,)), U)
    if c["to"] == "qed":
        mf.eta = n.array([[ctx.num(0), ctx.num(0)]])
        if c["nb"] > 1:     # normalised photon state
            cb = q.boson_coeff[:, 0]
            t = ctx.real("bt", (c["nb"] - 1,))
            nrm = n.sqrt(1 + sum(x * x for x in t))
            cb[0] = 1 / nrm
            for k in range(1, c["nb"]):
                cb[k] = t[k - 1] / nrm
    e, h, v = run_energy(mf, D)
    if c["to"] == "sc":
        # the same state in the strong-coupling class
        m2 = sc.RHF(mf.mol, qed=q)
        q.use_cs = False
        m2.eta, m2.eta_grad, m2.ao2dipole, m2.dm_do = mf.eta, mf.eta_grad, mf.ao2dipole, mf.dm_do.copy()
        m2.ltensor = mf.ltensor
        if mf.ltensor is None:
            m2.eri_DO = mf.eri_DO
        e2, h2, v2 = run_energy(m2, D)
    else:
        m2 = qh.RHF(mf.mol, qed=q)
        q.use_cs = c.get("cs", False)
        h2 = m2.get_hcore(m2.mol, D)
        v2 = m2.get_veff(m2.mol, D)
        e2 = m2.energy_elec(D, h2, v2)[0]
    ctx.eq("energy", e, e2)
    ctx.eq("fock", h + v, h2 + v2)


@scenario("P18", "eta_gradient", quick=[dict(m="sc", nb=1), dict(m="sc", nb=2, chol=1), dict(m="sc", nb=3), dict(m="vt", nb=1, chol=1), dict(m="sc", nb=1, sq=True)],
          thorough=[dict(m="vt", nb=3), dict(m="sc", nb=3, chol=1), dict(m="sc", nb=1, nao=3), dict(m="vt", nb=2, sq=True)],
          about="the gradient used to optimise the orbital displacements is the derivative of the energy with respect to them, in every implementation of it",
          bounds="2 (thorough: 3) orbitals, 1 mode, 1-3 Fock states, full or factorised integrals")
def eta_gradient(ctx):
    c = ctx.cfg
    n = ctx.np
    kw = {}
    nao = c.get("nao", 2)
    if c["m"] == "vt":
        kw["f"] = ctx.real("f", (1,), lo=Fraction(1, 10), hi=Fraction(9, 10))
    if c.get("sq"):
        kw["r"] = ctx.real("r", (1,), lo=Fraction(1, 10), hi=Fraction(1, 2))
    mf, q, M, U = setup(ctx, sc.RHF if c["m"] == "sc" else vt.RHF, c["nb"], "id", c.get("chol", 0), nao=nao, **kw)
    if nao == 2:
        Dt, D = dens(ctx, ctx.real("D", (3,)), U)
    else:
        D = symfill(ctx, ctx.real("D", (6,)), nao)
    if c["nb"] > 1:    # the transformed self-energy is exact for a normalised photon state
        normalise(ctx, q, c["nb"])
    eta = mf.eta[0].copy()

    def E(y):
        mf.eta = n.array([list(y)])
        return run_energy(mf, D)[0]
    G = ctx.grad(E, eta)
    run_energy(mf, D)
    mf.eta = n.array([list(eta)])
    mf.get_h1e_DO(mf.mol, dm=D)
    mf.get_eta_gradient(mf.dm_do, mf.g_dipole, D)
    ctx.eq("eta-gradient", mf.eta_grad[0], G)
    if c["m"] == "vt":
        mf.eta_grad = n.zeros((1, nao))
        run_energy(mf, D)
        q.optimize_varf = q.optimize_vsq = True
        mf.grad_var_params_together(mf.dm_do, mf.g_dipole, dm=D)
        ctx.eq("combined-eta-gradient", mf.eta_grad[0], G)


def normalise(ctx, q, nb):
    n = ctx.np
    cb = q.boson_coeff[:, 0]
    t = ctx.real("bt", (nb - 1,))
    nrm = n.sqrt(1 + sum(x * x for x in t))
    cb[0] = 1 / nrm
    for k in range(1, nb):
        cb[k] = t[k - 1] / nrm


@scenario("P18", "coupling_gradient", quick=[dict(nb=1), dict(nb=2), dict(nb=1, chol=1), dict(nb=1, dse=False)],
          thorough=[dict(nb=3), dict(nb=3, chol=1), dict(nb=1, cs=True)],
          about="the gradient of the coupling fraction is the derivative of the energy with the displacements following the fraction",
          bounds="2 orbitals, 1 mode, 1-3 Fock states, full or factorised integrals, coupling fraction away from 0 and 1")
def coupling_gradient(ctx):
    c = ctx.cfg
    n = ctx.np
    f = ctx.real("f", (1,), lo=Fraction(1, 10), hi=Fraction(9, 10))
    mf, q, M, U = setup(ctx, vt.RHF, c["nb"], "id", c.get("chol", 0), f=f, dse=c.get("dse", True), cs=c.get("cs", False))
    Dt, D = dens(ctx, ctx.real("D", (3,)), U)
    if c["nb"] > 1:
        normalise(ctx, q, c["nb"])
    x = mf.eta[0].copy()            # eta = f x

    def E(y):
        q.couplings_var = n.array([y[0]])
        q.update_couplings()
        mf.eta = n.array([[y[0] * x[0], y[0] * x[1]]])
        return run_energy(mf, D)[0]
    G = ctx.grad(E, f)
    q.optimize_varf = True
    for name, g in (("separate", "grad_var_params"), ("combined", "grad_var_params_together")):
        E(f)
        mf.vlf_grad = n.zeros(1)
        mf.get_h1e_DO(mf.mol, dm=D)
        getattr(mf, g)(mf.dm_do, mf.g_dipole, dm=D)
        ctx.eq(name + "-coupling-gradient", mf.vlf_grad[0], G[0])


@scenario("P18", "squeezing_gradient", quick=[dict(nb=1), dict(nb=1, chol=1), dict(nb=3)], thorough=[dict(nb=2, chol=1), dict(nb=3, chol=1)],
          about="the gradient of the squeezing parameter is the derivative of the energy, including the photon energy of the current state",
          bounds="2 orbitals, 1 mode, 1-3 Fock states, full or factorised integrals")
def squeezing_gradient(ctx):
    c = ctx.cfg
    n = ctx.np
    f = ctx.real("f", (1,), lo=Fraction(1, 10), hi=Fraction(9, 10))
    r = ctx.real("r", (1,), lo=Fraction(1, 10), hi=Fraction(1, 2))
    nb = c["nb"]
    mf, q, M, U = setup(ctx, vt.RHF, nb, "id", c.get("chol", 0), f=f, r=r)
    Dt, D = dens(ctx, ctx.real("D", (2,)), U, mf.mol.nelectron)
    if nb > 1:
        normalise(ctx, q, nb)
    p = [q.boson_coeff[k, 0] * q.boson_coeff[k, 0] for k in range(nb)]

    def E(y):
        q.squeezed_var = n.array([y[0]])
        q.e_boson = sum(p[k] * q.omega[0] * ((2 * k + 1) * n.cosh(2 * y[0]) - 1) / 2 for k in range(nb))
        return run_energy(mf, D)[0]
    G = ctx.grad(E, r)
    q.e_boson_grad_r = n.array([sum(p[k] * q.omega[0] * (2 * k + 1) * n.sinh(2 * r[0]) for k in range(nb))])
    q.optimize_varf = q.optimize_vsq = True
    for name, g in (("separate", "grad_var_params"), ("combined", "grad_var_params_together")):
        E(r)
        mf.vsq_grad = n.zeros(1)
        mf.get_h1e_DO(mf.mol, dm=D)
        getattr(mf, g)(mf.dm_do, mf.g_dipole, dm=D)
        ctx.eq(name + "-squeezing-gradient", mf.vsq_grad[0], G[0])


def diis_stub(seen):
    class D:
        def update(self, s, d, f, mf, h1e, vhf, var=None, var_grad=None):
            v = np.hstack([np.asarray(f).ravel(), np.asarray(var).ravel()])
            g = None if var_grad is None else np.asarray(var_grad).ravel()
            seen.append((v, g))
            return v.copy() if not isinstance(v, SArr) else v.copy()
    return D()


@scenario("P19", "packing", quick=[dict(f=True, r=True), dict(f=True, r=False), dict(f=False, r=True), dict(f=False, r=False), dict(m="sc", f=False, r=False), dict(f=True, r=True, nmode=2)],
          about="packing the variational parameters for the accelerator and unpacking them returns every parameter to its place whichever of them are optimised, gradients in the same order",
          bounds="2 orbitals, 1-2 modes, every combination of optimised parameter kinds")
def packing(ctx):
    c = ctx.cfg
    n = ctx.np
    N = c.get("nmode", 1)
    mf, q, M = build(ctx, sc.RHF if c.get("m") == "sc" else vt.RHF, 2, N, 1, True, False)
    mf.eta = ctx.real("eta", (N, 2))
    mf.eta_grad = ctx.real("deta", (N, 2))
    f, r = ctx.real("f", (N,)), ctx.real("r", (N,))
    q.couplings_var, q.squeezed_var = f.copy(), r.copy()
    q.update_couplings()
    mf.vlf_grad, mf.vsq_grad = ctx.real("df", (N,)), ctx.real("dr", (N,))
    q.optimize_varf, q.optimize_vsq = c["f"], c["r"]
    eta = mf.eta.copy()
    grads = [mf.eta_grad.copy()] + ([mf.vlf_grad.copy()] if c["f"] else []) + ([mf.vsq_grad.copy()] if c["r"] else [])
    v, g = mf.pre_update_var_params()
    want = n.hstack([eta.ravel()] + ([f] if c["f"] else []) + ([r] if c["r"] else []))
    ctx.eq("variables", n.asarray(v).ravel(), want)
    ctx.eq("gradients-in-order", n.asarray(g).ravel(), n.hstack([x.ravel() for x in grads]))

    def check(lab, F, w):
        k = 2 * N
        ctx.eq(lab + "-eta", mf.eta.ravel(), w[:k])
        if c["f"]:
            ctx.eq(lab + "-fraction", q.couplings_var, w[k:k + N])
            ctx.eq(lab + "-residual", q.couplings_res, 1 - w[k:k + N])
            k += N
        else:
            ctx.eq(lab + "-fraction", q.couplings_var, f)
        ctx.eq(lab + "-squeezing", q.squeezed_var, w[k:k + N] if c["r"] else r)
        ctx.true(lab + "-shapes", mf.eta.shape == (N, 2) and q.couplings_var.shape == (N,) and q.squeezed_var.shape == (N,))
    F = ctx.real("F", (2, 2))
    new = ctx.real("new", (len(want),))
    back = mf.set_params(n.hstack([F.ravel(), new]), fock_shape=(2, 2))
    ctx.eq("fock", back, F)
    check("unpacked", back, new)
    new2 = ctx.real("new2", (len(want),))
    mf.set_var_params([new2])
    check("given", None, new2)
    # plain descent step
    e0, f0, r0 = mf.eta.copy(), q.couplings_var.copy(), q.squeezed_var.copy()
    mf.update_var_params()
    p = mf.precond
    p = Fraction(p).limit_denominator(1000) if ctx.mode == "sym" else p
    ctx.eq("descent-eta", mf.eta, e0 - p * mf.eta_grad)
    if c.get("m") != "sc":
        ctx.eq("descent-fraction", q.couplings_var, f0 - p * mf.vlf_grad if c["f"] else f0)
        ctx.eq("descent-squeezing", q.squeezed_var, r0 - p * mf.vsq_grad if c["r"] else r0)
        ctx.eq("descent-residual", q.couplings_res, 1 - (f0 - p * mf.vlf_grad if c["f"] else f0))


@scenario("P19", "error_vector", quick=[dict(orth=True), dict(orth=False), dict(orth=True, var=False), dict(orth=True, uhf=True), dict(orth=False, uhf=True), dict(orth=True, kpts=True),
                                        dict(orth=False, kpts=True), dict(orth=True, sym=True), dict(orth=False, cplx=True), dict(orth=True, cplx=True), dict(orth=True, cplx=True, kpts=True)],
          about="the accelerator's error vector is the orbital gradient [F D S - S D F] (in the orthonormal basis if given) followed by the parameter gradient, and its iterate is the "
                "Fock matrix followed by the parameters",
          bounds="2 orbitals, restricted, two spin blocks or two blocks with their own overlap (k-points), real or complex, optional orbital symmetry labels, 3 extra parameters")
def error_vector(ctx):
    import openms.mqed.diis as dm
    c = ctx.cfg
    n = ctx.np
    def herm(name):
        if not c.get("cplx"):
            return ctx.sym(name, 2)
        m = ctx.cplx(name, (2, 2))
        return (m + m.conj().T) / 2
    mat = (lambda name: ctx.cplx(name, (2, 2))) if c.get("cplx") else (lambda name: ctx.real(name, (2, 2)))
    S, D, F = herm("S"), herm("D"), herm("F")
    C = mat("C") if c["orth"] else None
    two = c.get("uhf") or c.get("kpts")
    if two:
        D = n.array([D, herm("D2")])
        F = n.array([F, herm("F2")])
        S = n.array([S, herm("S2")]) if c.get("kpts") else S
        C = None if C is None else n.array([C, mat("C2")])
    g = ctx.real("g", (3,)) if c.get("var", True) else None
    lab = np.array([0, 1])
    if c.get("sym"):
        from pyscf import lib as plib
        class Tagged(type(C)):
            pass
        C = C.view(Tagged)
        C.orbsym = lab
    e = dm.get_err_vec(S, D, F, C, g)

    def one(s, d, f, o):
        x = n.dot(n.dot(s, d), f)
        if o is not None:
            x = n.dot(n.dot(o.conj().T, x), o)
        x = x.conj().T - x
        if c.get("sym"):
            x = x * (lab[:, None] == lab)
        return x.ravel()
    ref = n.hstack([one(S[k] if c.get("kpts") else S, D[k], F[k], None if C is None else C[k]) for k in range(2)]) if two else one(S, D, F, C)
    if g is not None:
        ref = n.hstack([ref, g])
    ctx.eq("error", e, ref)
    got = {}
    from pyscf import lib
    ctx.patch(lib.diis.DIIS, "update", lambda self, x, xerr=None: (got.update(x=x, e=xerr), x)[1])
    d = dm.SCF_DIIS()
    d.Corth = C
    var = ctx.real("var", (3,))
    d.update(S, D, F, None, None, None, var=var, var_grad=g)
    ctx.eq("iterate", got["x"], n.hstack([F.ravel(), var]))
    ctx.eq("error-passed", got["e"], ref)


@scenario("P19", "basis_rotation", quick=[dict(n=2), dict(n=3, m=2), dict(n=2, cplx=True)],
          about="the basis rotation used throughout is U^+ A U (U^T A U in the real-orbital solver), also for rectangular and complex U, and leaves its arguments alone; the l2 norm squares to the sum of squares",
          bounds="2-3 basis functions, any real or complex matrices")
def basis_rotation(ctx):
    import openms.lib.mathlib as ml
    c = ctx.cfg
    n = ctx.np
    k, m = c["n"], c.get("m", c["n"])
    mat = ctx.cplx if c.get("cplx") else ctx.real
    for name, fn in (("lib", ml.unitary_transform), ("sc", sc.unitary_transform)):
        U, A = mat("U" + name, (k, m)), mat("A" + name, (k, k))
        u, a = U.copy(), A.copy()
        ref = n.einsum("pi,pq,qj->ij", U.conj() if name == "lib" else U, A, U)
        ctx.eq("rotation-" + name, fn(U, A), ref)
        ctx.eq("arguments", U, u)
        ctx.eq("arguments", A, a)
    if not c.get("cplx"):
        v = ctx.real("v", (k,))
        w = ml.get_l2_norm(v)
        ctx.eq("norm", w * w, n.sum(v * v))
        ctx.ge("norm-sign", w, 0)


@scenario("P19", "accelerated_fock", quick=[dict(m="vt", f=True, r=True), dict(m="vt", f=False, r=False), dict(m="sc", f=False, r=False), dict(m="vt", f=True, r=False, start=2)],
          about="one accelerated step takes one descent step, hands Fock matrix, parameters and gradients to the accelerator and takes all of them back from its answer",
          bounds="2 orbitals, 1 mode; the accelerator is a stub returning an arbitrary answer")
def accelerated(ctx):
    c = ctx.cfg
    n = ctx.np
    mf, q, M = build(ctx, sc.RHF if c["m"] == "sc" else vt.RHF, 2, 1, 1, True, False)
    mf.eta, mf.eta_grad = ctx.real("eta", (1, 2)), ctx.real("deta", (1, 2))
    q.couplings_var, q.squeezed_var = ctx.real("f", (1,)), ctx.real("r", (1,))
    mf.vlf_grad, mf.vsq_grad = ctx.real("df", (1,)), ctx.real("dr", (1,))
    q.optimize_varf, q.optimize_vsq = c["f"], c["r"]
    e0 = mf.eta.copy()
    H, V, D = ctx.sym("H", 2), ctx.sym("V", 2), ctx.sym("D", 2)
    mf.get_hcore = lambda *a, **k: H.copy()
    mf.diis_start_cycle = c.get("start", 1)
    nv = 2 + int(c["f"]) + int(c["r"])
    step = Fraction(mf.precond).limit_denominator(1000) if ctx.mode == "sym" else mf.precond
    ans = ctx.real("ans", (4 + nv,))
    seen = []

    class D_:
        def update(self, s, d, f, *a, **k):
            seen.append((np.asarray(f).ravel(), np.asarray(k["var"]).ravel(), np.asarray(k["var_grad"]).ravel()))
            return ans.copy()
    F0 = mf.get_fock(H, M.ovlp, V, D, mf.diis_start_cycle - 1, D_())
    ctx.true("not-before-start", not seen)
    ctx.eq("plain-fock", F0, H + V)
    started = e0 - step * mf.eta_grad if 0 <= mf.diis_start_cycle - 1 else e0
    ctx.eq("descent-before-start", mf.eta, started)
    mf.eta = e0.copy()
    q.couplings_var, q.squeezed_var = ctx.real("f", (1,)), ctx.real("r", (1,))
    F1 = mf.get_fock(H, M.ovlp, V, D, mf.diis_start_cycle, D_())
    ctx.true("called-once", len(seen) == 1)
    ctx.eq("fock-in", seen[0][0], (H + V).ravel())
    want = [(e0 - step * mf.eta_grad).ravel()] + ([ctx.real("f", (1,)) - step * mf.vlf_grad] if c["f"] else []) + ([ctx.real("r", (1,)) - step * mf.vsq_grad] if c["r"] else [])
    ctx.eq("variables-in", seen[0][1], n.hstack(want))
    want = [mf.eta_grad.ravel()] + ([mf.vlf_grad] if c["f"] else []) + ([mf.vsq_grad] if c["r"] else [])
    ctx.eq("gradients-in", seen[0][2], n.hstack(want))
    ctx.eq("fock-out", F1.ravel(), ans[:4])
    ctx.eq("eta-out", mf.eta.ravel(), ans[4:6])
    k = 6
    if c["f"]:
        ctx.eq("fraction-out", q.couplings_var, ans[k:k + 1])
        k += 1
    if c["r"]:
        ctx.eq("squeezing-out", q.squeezed_var, ans[k:k + 1])


@scenario("P19", "dipole_basis", quick=[dict(nao=2), dict(nao=2, chol=1), dict(nao=3, deg="low"), dict(nao=3, deg="high")],
          about="the starting dipole basis diagonalises the mode's coupling in the orthonormal orbitals of the bare Fock matrix, the displacements are its eigenvalues, degenerate "
                "eigenvectors are fixed by the bare Fock matrix, and the two-electron integrals are those of that basis",
          bounds="2-3 orbitals, 1 mode; eigensolvers are stubs; eigenvalues distinct or one degenerate pair")
def dipole_basis(ctx):
    c = ctx.cfg
    n = ctx.np
    nao = c["nao"]
    L = eri = None
    if c.get("chol"):
        L = n.array([ctx.sym("L%d" % k, nao) for k in range(c["chol"])])
        eri = n.einsum("xpq,xrs->pqrs", L, L)
    mf, q, M = build(ctx, vt.RHF, nao, 1, 1, True, False, f=ctx.real("f", (1,), lo=Fraction(1, 10), hi=Fraction(9, 10)), eri=eri, frozen=("ovlp",) if nao > 2 else ())
    D = ctx.sym("D", nao)
    C = ctx.real("C", (nao, nao)) if nao == 2 else n.eye(nao)
    if nao > 2:
        C = sarr(np.eye(nao)) if ctx.mode == "sym" else C
    seen = []

    def bare(h, s):
        seen.append((h, s))
        return ctx.real("mo_e", (nao,)), C.copy()
    mf._eigh = bare
    if nao == 2:
        V = ctx.real("V", (2, 2))
        ev = ctx.real("ev", (2,))
        ctx.assume(ev[1] - ev[0] > Fraction(1, 10))
    else:
        a, b = ctx.real("ea"), ctx.pos("gap", lo=Fraction(1, 10), hi=1)
        ev = n.array([a, a, a + b] if c["deg"] == "low" else [a, a + b, a + b])
        V = ctx.real("V", (3, 3))
        R = ctx.real("R", (2, 2))
    calls = []

    def eig(A, b):
        calls.append(A)
        if len(calls) == 1:
            return ev.copy(), V.copy()
        return ctx.real("de", (2,)), R.copy()
    ctx.stub_eigh(eig)
    if nao > 2:
        mf._eri = M.eri
        ctx.patch(sc.RHF, "construct_eri_DO", lambda self, U: U)
    if c.get("chol"):
        ctx.patch(qtools, "chols_blocked", lambda *a, **k: L.copy())
        mf.CD_anyway = True
    mf.initialize_eta(D)
    J, K = jk_ref(ctx, M, D)
    bareF = M.h + J - K / 2
    ctx.true("bare-orbitals-solved", len(seen) >= 1)
    ctx.eq("bare-fock", seen[0][0], bareF)
    ctx.eq("bare-overlap", seen[0][1], M.ovlp)
    G = q.gmat[0] * n.sqrt(q.omega[0] / 2) * q.couplings_var[0]
    ctx.eq("coupling-diagonalised", calls[0], n.dot(n.dot(C.T, G), C))
    ctx.eq("displacements", mf.eta[0], ev)
    W = V
    if nao > 2:
        lo = 0 if c["deg"] == "low" else 1
        ctx.true("degeneracy-resolved", len(calls) == 2)
        if len(calls) == 2:
            W = V.copy()
            W[:, lo:lo + 2] = n.dot(V[:, lo:lo + 2], R)
            dip = -sum(M.dip()[k] for k in range(3))
            o = Fraction(str(round(float(mf.mol.atom_coords()[:, 2].mean()), 12))) if ctx.mode == "sym" else mf.mol.atom_coords()[:, 2].mean()
            o = Fraction(float(mf.mol.atom_coords()[:, 2].mean())).limit_denominator(10 ** 6) if ctx.mode == "sym" else o
            X = bareF + (dip + o * M.ovlp) / 1000
            ctx.eq("fixed-by-bare-fock", calls[1], n.dot(n.dot(V[:, lo:lo + 2].T, X), V[:, lo:lo + 2]), tol=1e-5)
    U = n.dot(C, W)
    ctx.eq("dipole-basis", mf.ao2dipole[0], U)
    if nao > 2:
        return
    if c.get("chol"):
        ctx.eq("factors", mf.ltensor, n.array([n.dot(n.dot(U.T, x), U) for x in L]))
        return
    eri = M.eri
    for _ in range(4):
        eri = n.tensordot(eri, U, axes=([0], [0]))
    ctx.eq("integrals", mf.eri_DO, eri)
    # density in that basis: the expectation value of any operator is unchanged
    ctx.eq("density", mf.get_dm_do(D, U), n.dot(n.dot(n.dot(U.T, M.ovlp), D), n.dot(M.ovlp, U)))


@scenario("P19", "cholesky_orbitals", quick=[dict(rank=2, perm=[0, 1]), dict(rank=2, perm=[1, 0]), dict(rank=1, perm=[1, 0])],
          about="the Cholesky-orthogonalised guess solves the projected eigenproblem P^T F P c = e P^T S P c with S's own factorisation, so its orbitals are orthonormal in the overlap",
          bounds="2 orbitals, full or reduced rank, any pivot order; the pivoted factorisation of LAPACK is a stub")
def cholesky_orbitals(ctx):
    import openms.lib.mathlib as ml
    c = ctx.cfg
    n = ctx.np
    k = c["rank"]
    Lc = n.array([[ctx.pos("l0", lo=Fraction(1, 2), hi=2), ctx.num(0)], [ctx.real("l1"), ctx.pos("l2", lo=Fraction(1, 2), hi=2) if k == 2 else ctx.num(0)]])
    perm = np.array(c["perm"])
    Pm = np.zeros((2, 2))
    for i in range(2):
        Pm[perm[i], i] = 1
    Pn = ctx.arr(Pm)
    S = n.dot(n.dot(Pn, n.dot(Lc, Lc.T)), Pn.T)
    junk = ctx.real("junk")

    def dpstrf(A, lower=0, tol=0.0, **kw):
        ctx.eq("factorised-matrix", A, S)
        ctx.true("lower", lower == 1)
        out = Lc.copy()
        out[0, 1] = junk
        return out, perm.astype(np.int32) + 1, k, 0
    ctx.patch(ml, "lapack", NS(dpstrf=dpstrf))
    mf, q, M = build(ctx, sc.RHF, 2, 1, 1, True, False)
    M.ovlp = S
    ctx.patch(sc.scipy_helper, "remove_linear_dep", lambda *a, **k: None)
    F = ctx.sym("F", 2)
    seen = []
    V = ctx.real("V", (k, k), nonzero=True)
    ctx.stub_eigh(lambda A, b: (seen.append((A, b)), (ctx.real("e", (k,)), V.copy()))[1])
    mf.get_cholesky()
    e, C = sc.cholesky_diag_fock_rao(mf, F)
    A, b = seen[0]
    P = Pn[:, :k]
    ctx.eq("projected-fock", A, n.dot(n.dot(P.T, F), P))
    ctx.eq("projected-overlap", b, n.dot(n.dot(P.T, S), P))
    ctx.true("dimension", mf.n_oao == k)
    # columns are +- the eigenvectors, back in the original basis
    W = n.dot(P, V)
    for j in range(k):
        ctx.eq("orbitals", n.outer(C[:, j], C[:, j]), n.outer(W[:, j], W[:, j]))


@scenario("P21", "original_frame", quick=[dict(m="qed", nf=3), dict(m="sc", nf=3), dict(m="vt", nf=3), dict(m="sc", nf=2, U="gen"), dict(m="vt", nf=2, sq=True), dict(m="sc", nf=2, U="gen", again=True), dict(m="vt", nf=2, again=True), dict(m="qed", nf=2, again=True)], thorough=[dict(m="vt", nf=5), dict(m="qed", nf=6)],
          about="the density matrix in the original frame attaches to each dipole orbital the Fock amplitudes of a coherent state with displacement eta/omega (for QED-HF z/sqrt(2 omega)): "
                "its photon part is the occupation-weighted average, independent of the orthogonality of the basis",
          bounds="2 orbitals, 2-6 Fock states, 1 mode, photon ground state of the transformed frame; with a squeezing parameter F the displacement is exp(F) eta/omega, the one the Franck-Condon factors of the energy use")
def original_frame(ctx):
    from math import factorial
    c = ctx.cfg
    n = ctx.np
    nf = c["nf"]
    cls = dict(qed=qh.RHF, sc=sc.RHF, vt=vt.RHF)[c["m"]]
    kw = dict(f=ctx.real("f", (1,), lo=Fraction(1, 10), hi=Fraction(9, 10))) if c["m"] == "vt" else {}
    if c.get("sq"):
        kw["r"] = ctx.real("r", (1,), lo=Fraction(-1, 2), hi=Fraction(1, 2))
    if c["m"] == "qed":
        mf, q, M = build(ctx, cls, 2, 1, 1, True, False, frozen=())
        U = None
    else:
        mf, q, M, U = setup(ctx, cls, 1, c.get("U", "id"), **kw)
    C = ctx.real("C", (2, 2))
    occ = np.array([2.0, 0.0])
    D = 2 * n.outer(C[:, 0], C[:, 0])
    if c.get("again"):          # asked before, in another state
        if U is None:
            z = q.z_alpha
            q.z_alpha = n.array([ctx.num(Fraction(1, 3))])
            mf.mo_coeff, mf.mo_occ = n.eye(2) + ctx.num(Fraction(1, 4)), occ
            mf.make_rdm1_org(mf.mo_coeff, occ, nfock=nf)
            mf.make_boson_nocc_org(nfock=nf)
            q.z_alpha = z
        else:
            used_before(ctx, mf, q, M, U)
            mf.mo_coeff, mf.mo_occ = C, occ
            eta = mf.eta
            mf.eta = n.array([[ctx.num(Fraction(1, 3)), ctx.num(Fraction(1, 5))]])
            mf.make_boson_nocc_org(nfock=nf)
            mf.eta = eta
    tot, re_, rb = mf.make_rdm1_org(C, occ, nfock=nf)
    w = q.omega[0]

    def amp(x, k):
        r = n.exp(-x * x / 2) / n.sqrt(ctx.num(factorial(k)))
        for _ in range(k):
            r = r * x
        return r
    if c["m"] == "qed":
        x = q.z_alpha[0] / n.sqrt(2 * w)
        A = [amp(x, k) for k in range(nf)]
        ref = [[D * A[i] * A[j] for j in range(nf)] for i in range(nf)]
        N = tr(ctx, D, M.ovlp)
        photon = [[A[i] * A[j] for j in range(nf)] for i in range(nf)]
        norm = sum(a * a for a in A)
    else:
        x = mf.eta[0] / w * n.exp(kw["r"][0] if c.get("sq") else ctx.num(0))
        A = [n.array([amp(x[p], k) for p in range(2)]) for k in range(nf)]
        Dt = n.dot(n.dot(n.dot(U.T, M.ovlp), D), n.dot(M.ovlp, U))
        ref = [[n.dot(n.dot(U, Dt * n.outer(A[i], A[j])), U.T) for j in range(nf)] for i in range(nf)]
        photon = [[sum(Dt[p, p] * A[i][p] * A[j][p] for p in range(2)) for j in range(nf)] for i in range(nf)]
        norm = sum(photon[i][i] for i in range(nf))
    for i in range(nf):
        ctx.eq("electron-density", sum(tot[k, :, k, :] for k in range(nf)), re_)
        for j in range(nf):
            ctx.eq("blocks", tot[i, :, j, :], ref[i][j])
            ctx.eq("photon-density", rb[i, j] * norm, photon[i][j])
    ctx.patch(mf, "make_rdm1_org", lambda *a, **k: (tot, re_, rb))
    ctx.eq("photon-number", mf.make_boson_nocc_org(nfock=nf), sum(k * rb[k, k] for k in range(nf)))
