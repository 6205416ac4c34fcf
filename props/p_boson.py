"""P16: the photon subspace of the cavity Hartree-Fock methods"""
from .common import *
from .p_hf import fake_mol, build, photon_state, blocks, x_exp, symfill, tr, qh, sc, vt, bo
from vsym.registry import scenario
from math import factorial as fac


def ham_ref(ctx, q, a, za):
    """photon Hamiltonian of mode a: displaced, squeezed oscillator with a linear coupling za (b + b^dagger)"""
    n = ctx.np
    m = int(q.nboson_states[a])
    H = n.zeros((m, m))
    r = q.squeezed_var[a]
    for k in range(m):
        H[k, k] = q.omega[a] * ((2 * k + 1) * n.cosh(2 * r) - 1) / 2
        if k + 1 < m:
            H[k, k + 1] = H[k + 1, k] = za * n.sqrt(ctx.num(k + 1))
    return H


@scenario("P16", "photon_state", quick=[dict(nb=[2]), dict(nb=[2, 2]), dict(nb=[1, 2], res=True), dict(nb=[2], squeeze=True), dict(nb=[2], extra=True), dict(nb=[3])],
          thorough=[dict(nb=[3, 2]), dict(nb=[2, 1, 2]), dict(nb=[2, 2], res=True), dict(nb=[2], squeeze=True, res=True), dict(nb=[4])],
          about="every mode's photon state is the lowest eigenvector of that mode's displaced Hamiltonian (with its own frequency, residual coupling, squeezing and effective "
                "electronic part) up to sign, the photon energy and its squeezing derivative are the expectation values in those states",
          bounds="1-3 modes with 1-4 Fock states; the dense eigensolver is a stub returning an arbitrary answer; sign choice explored by forking")
def photon_state_(ctx):
    c = ctx.cfg
    n = ctx.np
    nb = c["nb"]
    N = len(nb)
    kw = {}
    if c.get("res"):
        kw["f"] = ctx.real("f", (N,), lo=Fraction(1, 10), hi=Fraction(9, 10))
    if c.get("squeeze"):
        kw["r"] = ctx.real("r", (N,), lo=Fraction(1, 10), hi=Fraction(1, 2))
    mf, q, M = build(ctx, vt.RHF if c.get("res") else qh.RHF, 2, N, nb, True, False, **kw)
    D = symfill(ctx, ctx.real("D", (3,)), 2)
    za = [n.sqrt(q.omega[a] / 2) * (tr(ctx, q.gmat[a], D) - q.z_alpha[a]) * ((1 - q.couplings_var[a]) if c.get("res") else 1) for a in range(N)]
    tot = sum(nb)
    if c.get("extra"):      # effective electronic part, packed lower triangle
        P = ctx.real("hph", (tot * (tot + 1) // 2,))
        q.Hph_sc = P
    V, calls = {}, []

    def eig(A, b):
        a = len(calls)
        m = A.shape[0]
        calls.append(np.array(A, dtype=object if ctx.mode == "sym" else float))
        V[a] = ctx.real("v%d_" % a, (m, m), nonzero=True)
        return ctx.real("e%d_" % a, (m,)), V[a].copy()
    ctx.stub_eigh(eig)
    q.update_boson_coeff(D)
    ctx.true("one-problem-per-mode", [A.shape[0] for A in calls] == list(nb))
    e, grads = ctx.num(0), []
    for a, (k, m) in enumerate(blocks(q)):
        H = ham_ref(ctx, q, a, za[a])
        if c.get("extra"):
            for i in range(m):
                for j in range(i + 1):
                    v = P[i * (i + 1) // 2 + j]
                    H[i, j] += v if i == j else v / 2
                    if i != j:
                        H[j, i] += v / 2
        ctx.eq("hamiltonian", calls[a], H)
        x, v = q.boson_coeff[k:k + m, k], V[a][:, 0]
        # same state up to an overall sign
        ctx.eq("state-of-mode", n.outer(x, x), n.outer(v, v))
        H0 = ham_ref(ctx, q, a, ctx.num(0))
        e = e + sum(v[i] * v[i] * H0[i, i] for i in range(m))
        grads.append(sum(v[i] * v[i] * q.omega[a] * (2 * i + 1) * n.sinh(2 * q.squeezed_var[a]) for i in range(m)))
        pdm = q.get_boson_dm(a)
        ctx.eq("density-matrix", pdm, n.outer(v, v))
        ctx.eq("coupling-expectation", q.get_bdag_minus_b_expval(a), x_exp(ctx, v, m))
    ctx.eq("photon-energy", q.e_boson, e)
    ctx.eq("squeezing-derivative", n.array(list(q.e_boson_grad_r)), n.array(grads))
    occ = q.get_boson_occ()
    b = q.boson_coeff
    q.boson_coeff = 2 * b
    ctx.eq("occupation-follows-the-state", n.array(list(q.get_boson_occ())), 4 * n.array(list(occ)))
    q.boson_coeff = b
    ctx.eq("occupation", n.array(list(occ)), n.array([sum(i * V[a][i, 0] * V[a][i, 0] for i in range(m)) for a, (k, m) in enumerate(blocks(q))]))


def disp_ref(ctx, m, n_, x):
    """<m| exp(x (b^dagger - b)) |n> without exp(-x^2/2)"""
    s = ctx.num(0)
    for k in range(min(m, n_) + 1):
        t = ctx.num(Fraction((-1) ** (n_ - k), fac(m - k) * fac(n_ - k) * fac(k)))
        for _ in range(m + n_ - 2 * k):
            t = t * x
        s = s + t
    return s * ctx.np.sqrt(ctx.num(fac(m) * fac(n_)))


@scenario("P16", "displacement", quick=[dict(m=1), dict(m=2), dict(m=3), dict(m=4)], thorough=[dict(m=5), dict(m=6)],
          about="the dressing factor is the expectation value of the displacement operator exp(x(b^+ - b)) in the photon state, in both implementations, for any displacement "
                "and state, and its derivative is the exact derivative",
          bounds="1-4 (thorough: 6) Fock states, any displacement; Laguerre polynomials expanded exactly")
def displacement(ctx):
    n = ctx.np
    m = ctx.cfg["m"]
    mf, q, M = build(ctx, sc.RHF, 2, 1, m, True, True)
    c = ctx.real("c", (m,))
    pdm = n.outer(c, c)
    x = ctx.real("x", (2, 1), lo=-2, hi=2)

    def ref(x):
        return sum((pdm[i, j] * disp_ref(ctx, i, j, x) for i in range(m) for j in range(m)), ctx.num(0)) * n.exp(-x * x / 2)
    R = n.array([[ref(x[i, 0])] for i in range(2)])
    ctx.eq("matrix-contraction", q.displacement_matrix(0, x, pdm), R)
    D = q.disp_mat_1e
    k = 0
    for i in range(m):
        for j in range(i + 1):
            f = n.exp(-x[1, 0] * x[1, 0] / 2)
            ref1 = disp_ref(ctx, i, j, x[1, 0]) * f
            ctx.eq("packed-elements", D[k, 1, 0], ref1 if i == j else ref1 + disp_ref(ctx, j, i, x[1, 0]) * f)
            k += 1
    if hasattr(q, "displacement_exp_val"):
        ctx.eq("direct-value", q.displacement_exp_val(0, x, pdm), R)
        ctx.eq("direct-value-other-state", q.displacement_exp_val(0, x, 3 * pdm), 3 * R)
    ctx.eq("other-displacement", q.displacement_matrix(0, x[::-1], 2 * pdm), 2 * R[::-1])
    q.displacement_matrix(0, x, pdm)
    G = ctx.grad(lambda y: ref(y), x[0, 0])
    der = q.displacement_deriv_kernel(0, x, pdm)
    ctx.eq("derivative", der[0, 0], G)
    ctx.eq("squeezing-chain-rule", q.displacement_deriv_vsq(0, x, pdm), der * x)
    ctx.eq("coupling-chain-rule", q.displacement_deriv_vt(0, x, pdm), der * x)
    # a 4-index displacement is treated element by element
    y = x[:, 0].reshape(2, 1, 1)
    ctx.eq("two-body-shape", q.displacement_matrix(0, y, pdm)[:, 0, 0], R[:, 0])


@scenario("P20", "couplings", quick=[dict(nmode=1), dict(nmode=2, gfac=True), dict(nmode=1, shift=True), dict(nmode=1, nuc=False), dict(nmode=2, lists=True), dict(nmode=2, tiny=True),
                                 dict(nmode=2, nb=[2, 3], given=True)],
          thorough=[dict(nmode=3), dict(nmode=2, gfac=True, shift=True), dict(nmode=2, nb=[1, 3])],
          about="couplings follow from the given frequencies, polarisation vectors and strengths: unit polarisation, strength = given factor or vector length, dipole coupling and dipole "
                "self-energy integrals about the charge centre moved by the requested shift; a given displacement is kept, residual couplings are one minus "
                "the given ones, the initial photon state is normalised in each mode's own space; inputs of the caller are not modified",
          bounds="2 orbitals, 1-3 modes, any polarisation vectors, strengths, frequencies and integrals")
def couplings(ctx):
    c = ctx.cfg
    n = ctx.np
    N = c["nmode"]
    nao = 2
    mol, M = fake_mol(ctx, nao, frozen=())
    w = ctx.pos("omega", (N,), lo=Fraction(1, 2), hi=2)
    vec = ctx.real("vec", (N, 3), lo=Fraction(1, 10), hi=2) if not c.get("tiny") else ctx.real("vec", (N, 3), lo=Fraction(1, 5000), hi=Fraction(1, 2500))
    lam = [n.sqrt(sum(vec[a, k] * vec[a, k] for k in range(3))) for a in range(N)]
    opt = dict(omega=w, vec=vec.copy(), nboson_states=c.get("nb", 1))
    if c.get("lists"):
        opt["omega"], opt["vec"] = (list(w), [list(v) for v in vec]) if ctx.mode == "num" else (w, vec.copy())
    gf = lam
    if c.get("gfac"):
        gf = opt["gfac"] = ctx.real("gfac", (N,), lo=-1, hi=1)
        gf = list(gf)
    o = [0.0, 0.0, 0.6]      # charge centre of the two atoms, 0.8 apart
    mol.atom_charges = lambda: np.array([1, 3])
    o = [x * mol.atom_coords()[1][2] / 0.8 for x in o]
    if c.get("nuc") is False:
        opt["add_nuc_dipole"] = False
        o = [0.0] * 3
    if c.get("shift"):
        s = np.array([0.25, -0.5, 1.0])
        opt["origin_shift"] = s
        o = [a - b for a, b in zip(o, s)]
    if c.get("given"):
        z = opt["z_alpha"] = ctx.real("z", (N,))
        f = opt["couplings_var"] = ctx.real("f", (N,))
    vin = opt["vec"]
    q = bo.Photon(mol, **opt)
    q._mf = NS(get_ovlp=lambda *a: M.ovlp)
    ctx.eq("callers-vector", n.array([list(v) for v in vin]), vec)
    ctx.eq("unit-polarisation", n.array([q.vec[a] * lam[a] for a in range(N)]), vec)
    ctx.eq("strength", n.array(list(q.couplings)), n.array(gf))
    ctx.eq("bilinear", n.array(list(q.couplings_bilinear)), n.array([gf[a] * n.sqrt(w[a] / 2) for a in range(N)]))
    ctx.eq("self", n.array(list(q.couplings_self)), n.array([gf[a] * gf[a] / 2 for a in range(N)]))
    q.get_gmatao()
    q.get_q_dot_lambda()
    r, rr = M.dip(), M.quad()
    o = [Fraction(x).limit_denominator(10 ** 6) if ctx.mode == "sym" else x for x in o]
    pol = [sum(vec[a, k] * (r[k] - o[k] * M.ovlp) for k in range(3)) / lam[a] for a in range(N)]
    Q = [sum(vec[a, i] * vec[a, j] * (rr[i][j] - o[i] * r[j] - o[j] * r[i] + o[i] * o[j] * M.ovlp) for i in range(3) for j in range(3)) / (lam[a] * lam[a]) for a in range(N)]
    ctx.eq("dipole-coupling", q.gmat, n.array([-gf[a] * pol[a] for a in range(N)]), tol=1e-5)
    ctx.eq("self-energy-integrals", q.q_lambda_ao, n.array([-gf[a] * gf[a] * Q[a] for a in range(N)]), tol=1e-5)
    ctx.eq("dipole-coupling-again", q.get_gmat_ao(), q.gmat, tol=1e-5)
    ctx.eq("self-energy-integrals-again", q.get_q_lambda_ao(), q.q_lambda_ao, tol=1e-5)
    for a in range(N):
        ctx.eq("electron-boson-coupling", q.get_geb_ao(a), -gf[a] * n.sqrt(w[a] / 2) * pol[a], tol=1e-5)
        ctx.eq("polarised-dipole", q.get_polarized_dipole_ao(a), -pol[a], tol=1e-5)
    D = symfill(ctx, ctx.real("D", (3,)), nao)
    q.update_cs(D)
    ctx.eq("coherent-displacement", n.array(list(q.z_alpha)), z if c.get("given") else n.array([tr(ctx, D, g) for g in q.gmat]))
    if c.get("given"):
        ctx.eq("residual-couplings", n.array(list(q.couplings_res)), 1 - f)
        q.couplings_var = f * f
        q.update_couplings()
        ctx.eq("residual-couplings", n.array(list(q.couplings_res)), 1 - f * f)
    off = 0
    for a in range(N):
        m = int(q.nboson_states[a])
        col = n.array(list(q.boson_coeff[:, off]))
        ctx.eq("initial-photon-state-normalised", n.dot(col[off:off + m], col[off:off + m]), 1)
        ctx.eq("initial-photon-state-of-its-mode", n.dot(col, col), 1)
        off += m
    ctx.true("fock-sizes", list(q.nboson_states) == (c["nb"] if isinstance(c.get("nb", 1), list) else [1] * N))
