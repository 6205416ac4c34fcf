"""P15-P21: cavity Hartree-Fock (QED-HF, SC-QED-HF, VT-QED-HF) over a molecule with symbolic integrals"""
from .common import *
from vsym.registry import scenario
from vsym.poly import S as Sc

import openms.lib.boson as bo
import openms.mqed.qedhf as qh
import openms.mqed.scqedhf as sc
import openms.mqed.vtqedhf as vt
from pyscf import gto
from pyscf.gto.mole import PTR_COMMON_ORIG

SMALL = Fraction(7, 10)


def fake_mol(ctx, nao, eri=None, orb=None, frozen=("ovlp",), enuc=None):
    """a real PySCF molecule whose one- and two-electron integrals are inputs"""
    n = ctx.np
    mol = gto.M(atom=[("H", (0, 0, 0.8 * k)) for k in range(nao)], basis="sto-3g", verbose=0, spin=nao % 2)
    if nao % 2:
        mol.nelectron = nao - 1
        mol.spin = 0
    M = NS(kin=ctx.sym("kin", nao), nuc=ctx.sym("nuc", nao), r=None, rr=None)
    M.ovlp = n.eye(nao) if "ovlp" in frozen else ctx.sym("S", nao)
    if "ovlp" in frozen and ctx.mode == "sym":
        M.ovlp = sarr(np.eye(nao))
    M.eri = ctx.eri8("eri", nao) if eri is None else eri
    M.h = M.kin + M.nuc
    M.calls = []

    def dip():
        if M.r is None:
            M.r = ctx.sym("r", (3, nao, nao))
        return M.r

    def quad():
        if M.rr is None:
            q = ctx.sym("rr", (6, nao, nao))
            k = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (0, 1): 3, (0, 2): 4, (1, 2): 5}
            M.rr = n.array([[q[k[min(a, b), max(a, b)]] for b in range(3)] for a in range(3)])
        return M.rr
    M.dip, M.quad = dip, quad

    def intor(name, comp=None, aosym="s1", **k):
        o = [Fraction(float(x)).limit_denominator(10 ** 6) if ctx.mode == "sym" else float(x) for x in mol._env[PTR_COMMON_ORIG:PTR_COMMON_ORIG + 3]]
        M.calls.append((name, o))
        name = name.replace("_sph", "").replace("_cart", "")
        if name == "int1e_ovlp":
            return M.ovlp.copy()
        if name == "int1e_kin":
            return M.kin.copy()
        if name == "int1e_nuc":
            return M.nuc.copy()
        if name == "int1e_r":
            return n.array([dip()[c] - o[c] * M.ovlp for c in range(3)])
        if name == "int1e_rr":
            R, Q = dip(), quad()
            return n.array([Q[a][b] - o[a] * R[b] - o[b] * R[a] + o[a] * o[b] * M.ovlp for a in range(3) for b in range(3)])
        if name == "int2e":
            if aosym in ("s1", 1):
                return M.eri.copy()
            il = [(i, j) for i in range(nao) for j in range(i + 1)]
            if aosym in ("s4", 4):
                return n.array([[M.eri[a + b] for b in il] for a in il])
            return n.array([M.eri[il[a] + il[b]] for a in range(len(il)) for b in range(a + 1)])
        raise KeyError(name)
    mol.intor = intor
    mol.intor_symmetric = intor
    if ctx.mode == "sym":
        import pyscf.ao2mo.addons as ad
        from vsym import shim
        ctx.patch(ad, "restore", lambda s, e, nb, tao=None: shim.unpack_eri(e, nb))
    return mol, M


def build(ctx, cls, nao=2, nmode=1, nb=1, dse=True, cs=True, f=None, r=None, eri=None, frozen=("ovlp",), gsym=True, **kw):
    """a mean-field object of the real class; couplings, frequencies, integrals and the photon state are inputs"""
    n = ctx.np
    mol, M = fake_mol(ctx, nao, eri, frozen=frozen)
    w = ctx.pos("omega", (nmode,), lo=Fraction(1, 2), hi=2)
    gfac = ctx.pos("gfac", (nmode,), lo=Fraction(1, 10), hi=1)
    vec = np.zeros((nmode, 3))
    for a in range(nmode):
        vec[a, a % 3] = 1.0
    opt = dict(omega=w, vec=ctx.arr(vec), gfac=gfac, nboson_states=nb, add_dse=dse, **kw)
    if not cs:
        opt["z_alpha"] = ctx.real("z", (nmode,))
    if f is not None:
        opt["couplings_var"] = f
    if r is not None:
        opt["squeezed_var"] = r
    mf = cls(mol, **opt)
    q = mf.qed
    if gsym:
        q.gmat = ctx.sym("g", (nmode, nao, nao))
        q.q_lambda_ao = ctx.sym("q", (nmode, nao, nao))
    return mf, q, M


def photon_state(ctx, q):
    """arbitrary photon coefficients and photon energy of the current state"""
    n = ctx.np
    tot = sum(int(x) for x in q.nboson_states)
    c = ctx.real("bc", (tot,))
    q.boson_coeff = n.zeros((tot, tot))
    for k, m in blocks(q):      # the state of a mode is the first column of its block
        q.boson_coeff[k:k + m, k] = c[k:k + m]
    q.e_boson = ctx.real("eb")
    return c


def blocks(q):
    out, k = [], 0
    for m in q.nboson_states:
        out.append((k, int(m)))
        k += int(m)
    return out


def x_exp(ctx, c, m):
    """<b + b^dagger> of real coefficients c[0..m-1]"""
    return sum((2 * ctx.np.sqrt(ctx.num(j + 1)) * c[j] * c[j + 1] for j in range(m - 1)), ctx.num(0))


def symfill(ctx, x, nao):
    D = ctx.np.zeros((nao, nao))
    k = 0
    for i in range(nao):
        for j in range(i + 1):
            D[i, j] = x[k]
            D[j, i] = x[k]
            k += 1
    return D


def tr(ctx, *A):
    n = ctx.np
    r = A[0]
    for a in A[1:]:
        r = n.dot(r, a)
    return n.trace(r)


def jk_ref(ctx, M, D):
    n = ctx.np
    return n.einsum("pqrs,rs->pq", M.eri, D), n.einsum("prqs,rs->pq", M.eri, D)


def e_ref(ctx, mf, q, M, D, z, res=None):
    """energy of the cavity mean-field state from the operator form"""
    n = ctx.np
    N = mf.mol.nelectron
    J, K = jk_ref(ctx, M, D)
    pop = tr(ctx, D, M.ovlp) / N
    e = tr(ctx, M.h, D) + tr(ctx, J, D) / 2 - tr(ctx, K, D) / 4
    for a in range(q.nmodes):
        g = q.gmat[a]
        gd = tr(ctx, g, D)
        e = e - z[a] * gd + z[a] * z[a] / 2 * pop
        if q.add_dse:
            e = e - tr(ctx, q.q_lambda_ao[a], D) / 2 + gd * gd / 2 - tr(ctx, g, D, g, D) / 4
        k, m = blocks(q)[a]
        x = x_exp(ctx, q.boson_coeff[k:k + m, k], m)
        e = e + n.sqrt(q.omega[a] / 2) * x * (gd - z[a] * pop) * (1 if res is None else res[a])
    return e + q.e_boson * pop


@scenario("P15", "energy", quick=[dict(nmode=1, nb=1, cs=True, dse=True), dict(nmode=1, nb=2, cs=False, dse=True), dict(nmode=2, nb=[1, 2], cs=False, dse=True),
                                  dict(nmode=2, nb=1, cs=True, dse=False), dict(nmode=1, nb=3, cs=False, dse=False),
                                  dict(nmode=1, nb=2, cs=False, dse=True, again=True), dict(nmode=2, nb=1, cs=True, dse=True, again=True)],
          thorough=[dict(nmode=3, nb=[2, 1, 3], cs=False, dse=True), dict(nmode=1, nb=1, cs=True, dse=True, nao=3)],
          about="the QED-HF energy is the bare Hartree-Fock energy plus photon energy, bilinear coupling and dipole self-energy of the "
                "displaced cavity Hamiltonian, for any density, couplings and photon state",
          bounds="2 (thorough: 3) orbitals with arbitrary symmetric integrals, 1-3 modes, 1-3 Fock states per mode, orthonormal or general overlap")
def energy(ctx):
    c = ctx.cfg
    n = ctx.np
    nao = c.get("nao", 2)
    mf, q, M = build(ctx, qh.RHF, nao, c["nmode"], c["nb"], c["dse"], c["cs"], frozen=("ovlp",) if nao > 2 else ())
    photon_state(ctx, q)
    D = symfill(ctx, ctx.real("D", (nao * (nao + 1) // 2,)), nao)
    if c.get("again"):          # the same object evaluated another density, displacement and photon state before
        z0, b0, e0 = q.z_alpha, q.boson_coeff, q.e_boson
        h = ctx.num(Fraction(1, 3))
        q.z_alpha = n.array([h] * q.nmodes)
        q.boson_coeff = b0 * 0 + h
        q.e_boson = h
        D0 = n.array([[5 * h, h / 2], [h / 2, h]])
        mf.energy_elec(D0)
        mf.get_fock(dm=D0)
        mf.get_bare_veff(mf.mol, D0)
        q.z_alpha, q.boson_coeff, q.e_boson = z0, b0, e0
    z = q.z_alpha if not c["cs"] else n.array([tr(ctx, q.gmat[a], D) for a in range(q.nmodes)])
    e, e2 = mf.energy_elec(D)
    ctx.eq("energy", e, e_ref(ctx, mf, q, M, D, z))
    J, K = jk_ref(ctx, M, D)
    ref2 = tr(ctx, J, D) / 2 - tr(ctx, K, D) / 4
    if c["dse"]:
        ref2 = ref2 + sum(tr(ctx, g, D) ** 2 / 2 - tr(ctx, g, D, g, D) / 4 for g in q.gmat)
    ctx.eq("two-electron-part", e2, ref2)
    ctx.eq("displacement", q.z_alpha, z)
    ctx.eq("bare-potential", mf.get_bare_veff(mf.mol, D), J - K / 2)


@scenario("P15", "incomplete_basis", quick=[dict(nmode=1), dict(nmode=2)],
          about="without the complete-basis assumption the one-electron part of the dipole self-energy is half the square of the coupling operator inside the basis (with the inverse overlap) for every mode",
          bounds="2 orbitals with any positive-definite overlap, 1-2 modes; the eigendecomposition of the overlap is an input")
def incomplete_basis(ctx):
    c = ctx.cfg
    n = ctx.np
    t, ev = ctx.real("t"), ctx.pos("ev", (2,), lo=Fraction(1, 2), hi=2)
    co, si = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    V = n.array([[co, -si], [si, co]])
    S_ = n.dot(V * ev, V.T)
    Si = n.dot(V / ev, V.T)
    if ctx.mode == "sym":
        ctx.stub_eigh(lambda A, b=None: (ev.copy(), V.copy()))
    N = c["nmode"]
    q = blank(bo.Photon)
    g = ctx.sym("g", (N, 2, 2))
    z, eb = ctx.real("z", (N,)), ctx.real("eb")
    q.__dict__.update(verbose=0, stdout=Null(), nmodes=N, gmat=g, q_lambda_ao=ctx.sym("q", (N, 2, 2)), use_cs=False, z_alpha=z, add_dse=True, complete_basis=False, e_boson=eb,
                      couplings_res=n.ones(N), couplings_var=n.zeros(N), omega=ctx.pos("w", (N,)), nboson_states=[1] * N, boson_coeff=n.eye(N), _mol=NS(nelectron=2), _mf=NS(get_ovlp=lambda m: S_))
    ref = eb * S_ / 2
    for a in range(N):
        ref = ref - z[a] * g[a] + z[a] * z[a] / 2 * S_ / 2 + n.dot(g[a], n.dot(Si, g[a])) / 2
    ctx.eq("one-electron", q.add_oei_ao(n.eye(2), s1e=S_), ref)
    ctx.eq("own-overlap", q.add_oei_ao(n.eye(2)), ref)


@scenario("P15", "fock_is_gradient", quick=[dict(nmode=1, nb=2, dse=True), dict(nmode=2, nb=1, dse=True), dict(nmode=1, nb=1, dse=False), dict(nmode=1, nb=1, dse=True, cs=True)],
          thorough=[dict(nmode=1, nb=1, dse=True, nao=3), dict(nmode=2, nb=[2, 2], dse=True)],
          about="the Fock matrix is the derivative of the energy with respect to the density matrix",
          bounds="2 (thorough: 3) orbitals, 1-2 modes; with a self-consistent displacement: orthonormal orbitals and particle-conserving variations")
def fock_gradient(ctx):
    c = ctx.cfg
    n = ctx.np
    nao, cs = c.get("nao", 2), c.get("cs", False)
    mf, q, M = build(ctx, qh.RHF, nao, c["nmode"], c["nb"], c["dse"], cs)
    photon_state(ctx, q)
    x = ctx.real("D", (nao * (nao + 1) // 2 - (1 if cs else 0),))

    def dens(x):
        if cs:          # fixed electron number
            y = n.array([mf.mol.nelectron - x[1]] + list(x))
            return symfill(ctx, y, nao)
        return symfill(ctx, x, nao)
    D = dens(x)
    G = ctx.grad(lambda y: mf.energy_elec(dens(y))[0], x)
    F = mf.get_fock(dm=D)
    ctx.eq("symmetric", F, F.T)
    if cs:
        ctx.eq("offdiagonal", G[0], F[0, 1] + F[1, 0])
        ctx.eq("diagonal", G[1], F[1, 1] - F[0, 0])
        return
    k = 0
    for i in range(nao):
        for j in range(i + 1):
            ctx.eq("fock", G[k], F[i, j] * (1 if i == j else 2))
            k += 1


@scenario("P15", "jk_build", quick=[dict(nmode=1, n=1), dict(nmode=2, n=2), dict(nmode=1, n=1, mem=False), dict(nmode=2, n=1, res=True), dict(nmode=1, n=1, res=True, dse=False)],
          about="Coulomb and exchange matrices are the bare ones plus the dipole self-energy ones for every mode and every density matrix, also when the "
                "integrals are not kept in memory; with residual couplings each mode is scaled by its squared residual coupling",
          bounds="2 orbitals, 1-2 modes, 1-2 density matrices; the integral-direct engine of PySCF is a stub returning J and K")
def jk_build(ctx):
    c = ctx.cfg
    n = ctx.np
    nao = 2
    kw = dict(f=ctx.real("f", (c["nmode"],), lo=Fraction(1, 10), hi=Fraction(9, 10))) if c.get("res") else {}
    mf, q, M = build(ctx, vt.RHF if c.get("res") else qh.RHF, nao, c["nmode"], 1, c.get("dse", True), True, **kw)
    D = n.array([symfill(ctx, ctx.real("D%d" % k, (3,)), nao) for k in range(c["n"])])
    if c["n"] == 1:
        D = D[0]
    Ds = D.reshape((-1, nao, nao))
    dj = n.array([sum(tr(ctx, g, d) * g for g in q.gmat) for d in Ds])
    dk = n.array([sum(n.dot(n.dot(g, d), g) for g in q.gmat) for d in Ds])
    if c.get("res"):
        s = [(1 - q.couplings_var[a]) ** 2 if q.add_dse else (1 - q.couplings_var[a]) ** 2 - 1 for a in range(q.nmodes)]
        vj, vk = mf.get_dse_jk(D, residue=True)
        ctx.eq("residual-j", vj.reshape((-1, nao, nao)), n.array([sum(x * tr(ctx, g, d) * g for x, g in zip(s, q.gmat)) for d in Ds]))
        ctx.eq("residual-k", vk.reshape((-1, nao, nao)), n.array([sum(x * n.dot(n.dot(g, d), g) for x, g in zip(s, q.gmat)) for d in Ds]))
        if q.add_dse:
            vj, vk = q.get_dse_jk(D, residue=True)
            ctx.eq("photon-residual-j", vj.reshape((-1, nao, nao)), n.array([sum(x * tr(ctx, g, d) * g for x, g in zip(s, q.gmat)) for d in Ds]))
            ctx.eq("photon-residual-k", vk.reshape((-1, nao, nao)), n.array([sum(x * n.dot(n.dot(g, d), g) for x, g in zip(s, q.gmat)) for d in Ds]))
        return
    if c.get("mem") is False:
        from pyscf.scf import hf
        mf._is_mem_enough = lambda *a: False
        mf._eri = None

        def direct(self, mol=None, dm=None, hermi=1, with_j=True, with_k=True, omega=None):
            r = [jk_ref(ctx, M, d) for d in dm.reshape((-1, nao, nao))]
            return tuple(n.array([x[k] for x in r]).reshape(dm.shape) for k in (0, 1))
        ctx.patch(hf.SCF, "get_jk", direct)
        ctx.patch(hf.RHF, "get_jk", direct)
    q.couplings_res = ctx.real("res", (c["nmode"],))
    vj, vk = q.get_dse_jk(D)
    ctx.eq("photon-self-energy-j", vj.reshape((-1, nao, nao)), dj)
    ctx.eq("photon-self-energy-k", vk.reshape((-1, nao, nao)), dk)
    bare = [jk_ref(ctx, M, d) for d in Ds]
    vj, vk = mf.get_jk(mf.mol, D)
    ctx.eq("coulomb", vj.reshape((-1, nao, nao)), n.array([b[0] for b in bare]) + dj)
    ctx.eq("exchange", vk.reshape((-1, nao, nao)), n.array([b[1] for b in bare]) + dk)
    vj, vk = mf.get_bare_jk(mf.mol, D)
    ctx.eq("bare-coulomb", vj.reshape((-1, nao, nao)), n.array([b[0] for b in bare]))
    ctx.eq("bare-exchange", vk.reshape((-1, nao, nao)), n.array([b[1] for b in bare]))
    if c["n"] == 1:
        v = mf.get_veff(mf.mol, D)
        ctx.eq("potential", v.reshape((-1, nao, nao)), n.array([b[0] - b[1] / 2 for b in bare]) + dj - dk / 2)
        D2 = symfill(ctx, ctx.real("E", (3,)), nao)
        if c.get("mem") is False:
            mf._eri, mf.direct_scf = None, True
        w = mf.get_veff(mf.mol, D2, D, v)
        J, K = jk_ref(ctx, M, D2)
        ref = J - K / 2 + sum(tr(ctx, g, D2) * g - n.dot(n.dot(g, D2), g) / 2 for g in q.gmat)
        ctx.eq("incremental-potential", w, ref)
        ctx.eq("energy-of-shift", q.z_alpha, n.array([tr(ctx, g, D2) for g in q.gmat]))


@scenario("P15", "fock_options", quick=[dict(shift=True), dict(shift=False)],
          about="level shifting raises exactly the virtual space and leaves the Fock matrix alone when off; the Fock matrix is core plus potential",
          bounds="2 orbitals, 1 mode; no DIIS")
def fock_options(ctx):
    c = ctx.cfg
    n = ctx.np
    mf, q, M = build(ctx, qh.RHF, 2, 1, 1, True, True, frozen=())
    photon_state(ctx, q)
    D = symfill(ctx, ctx.real("D", (3,)), 2)
    ls = ctx.pos("ls", lo=Fraction(1, 10), hi=1) if c["shift"] else 0.0
    mf.level_shift = ls
    mf.diis = None
    v = mf.get_veff(mf.mol, D)
    h = mf.get_hcore(mf.mol, D)
    F = mf.get_fock(h, M.ovlp, v, D, 3, None)
    ref = h + v
    if c["shift"]:
        ref = ref + ls * (M.ovlp - n.dot(n.dot(M.ovlp, D / 2), M.ovlp))
    ctx.eq("fock", F, ref)
    # mixing with the previous Fock matrix before the accelerator starts, not after
    mf.level_shift = 0.0
    old = symfill(ctx, ctx.real("old", (3,)), 2)
    a = ctx.pos("damp", lo=Fraction(1, 10), hi=Fraction(9, 10))
    mf.diis_start_cycle = 5
    mf.damp = a
    for cyc, mixed in ((0, True), (3, True), (5, False)):
        F = mf.get_fock(h, M.ovlp, v, D, cyc, None, fock_last=old)
        ctx.eq("damping", F, (1 - a) * (h + v) + a * old if mixed else h + v)
    ctx.eq("damping-first-cycle", mf.get_fock(h, M.ovlp, v, D, 0, None, fock_last=None), h + v)
