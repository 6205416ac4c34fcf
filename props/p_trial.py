"""P02 Green's functions and overlaps, P03 electronic local energies, P04 electron-boson local energies"""
from .common import *
from . import oracle as O
from vsym.registry import scenario

import openms.qmc.trial as tr
import openms.qmc.estimators as est


def concrete(ctx, a, seed):
    """fixed simple rational matrix (concretised input)"""
    r = np.random.RandomState(seed) if False else None
    vals = [1, 2, -1, 3, 1, -2, 2, 1, -3, 1, 2, 3, -1, 1, 2]
    out = np.empty(a, dtype=float)
    for k, i in enumerate(np.ndindex(*a)):
        out[i] = vals[(k + seed * 3) % len(vals)] / 2 + (1 if i[-1] == i[-2] else 0)
    return ctx.arr(out)


def make(ctx, nao, na, nb, ncomp, nw, tsym=True, wsym=True, nchol=1, boson=None, half=True, treal=False):
    t = blank(tr.TrialHF)
    t.verbose, t.stdout = 0, Null()
    t.ncomponents, t.nalpha, t.nbeta, t.nao = ncomp, na, nb, nao
    t._numdets = 1
    t.header = "SD_RHF" if ncomp == 1 else "SD_UHF"
    mk = (ctx.real if treal else ctx.cplx)
    t.psia = mk("Ta", (nao, na)) if tsym else concrete(ctx, (nao, na), 1)
    t.psib = (mk("Tb", (nao, nb)) if tsym else concrete(ctx, (nao, nb), 2)) if ncomp > 1 else t.psia
    t.psi = ctx.np.hstack([t.psia, t.psib]) if ncomp > 1 else t.psia
    t.half_rotated = False
    t.boson_psi = None
    w = NS(nwalkers=nw, phiwa=ctx.cplx("Wa", (nw, nao, na)) if wsym else ctx.arr(
        np.array([np.asarray(concrete(NS(arr=lambda x: x), (nao, na), 3 + z)) for z in range(nw)])) + 1j * ctx.arr(np.ones((nw, nao, na)) / 4),
        phiwb=None, logshift=ctx.np.zeros(nw), boson_phiw=None)
    if ncomp > 1:
        w.phiwb = ctx.cplx("Wb", (nw, nao, nb)) if wsym else ctx.arr(
            np.array([np.asarray(concrete(NS(arr=lambda x: x), (nao, nb), 5 + z)) for z in range(nw)])) - 1j * ctx.arr(np.ones((nw, nao, nb)) / 3)
    if boson:
        nf = sum(boson)
        t.boson_psi = ctx.cplx("bt", (nf,))
        w.boson_phiw = ctx.cplx("bw", (nw, nf))
    return t, w


CF = [dict(nao=2, na=1, nb=1, ncomp=2, nw=2), dict(nao=3, na=2, nb=1, ncomp=2, nw=1), dict(nao=2, na=1, nb=1, ncomp=1, nw=2),
      dict(nao=2, na=2, nb=1, ncomp=2, nw=1)]


@scenario("P02", "green_function_and_overlap", quick=CF,
          thorough=[dict(nao=3, na=2, nb=2, ncomp=1, nw=2), dict(nao=4, na=2, nb=1, ncomp=2, nw=1), dict(nao=3, na=1, nb=2, ncomp=2, nw=2)],
          about="overlap = det(T^+W) per spin channel (squared when one channel stands for two), half-rotated Green's "
                "function = W (T^+W)^-1, full one = <T|c+_p c_q|W>/<T|W>",
          bounds="2-4 orbitals, 1-2 electrons per spin, 1-2 walkers; all trial/walker entries arbitrary complex")
def gf_overlap(ctx):
    c = ctx.cfg
    t, w = make(ctx, c["nao"], c["na"], c["nb"], c["ncomp"], c["nw"])
    n = ctx.np
    ov = t.ovlp_with_walkers(w)
    ov2 = t.ovlp_with_walkers_gf(w)
    for z in range(c["nw"]):
        Sa = n.dot(n.conj(t.psia).T, w.phiwa[z])
        ref = O.det(ctx, Sa)
        if c["ncomp"] > 1:
            ref = ref * O.det(ctx, n.dot(n.conj(t.psib).T, w.phiwb[z]))
        else:
            ref = ref * ref
        ctx.eq("overlap", ov[z], ref)
        ctx.eq("overlap-with-gf", ov2[z], ref)
        for sp, T, W, Gh, G in (("a", t.psia, w.phiwa, w.Ghalfa, w.Ga),) + (
                (("b", t.psib, w.phiwb, w.Ghalfb, w.Gb),) if c["ncomp"] > 1 else ()):
            # Ghalf (T^+ W) = W, i.e. Ghalf = W (T^+W)^-1
            ctx.eq("half-rotated-" + sp, n.dot(Gh[z], n.dot(n.conj(T).T, W[z])), W[z])
            ref = O.gf_ref(ctx, T, W[z])
            ctx.eq("full-" + sp, G[z], ref)
    # the other entry points agree
    w2 = NS(**w.__dict__)
    So = [n.einsum("zpi,pj->zij", w.phiwa, n.conj(t.psia))]
    if c["ncomp"] > 1:
        So.append(n.einsum("zpi,pj->zij", w.phiwb, n.conj(t.psib)))
    tr.calc_walker_gf(w2, t, So)
    ctx.eq("precomputed-overlap-route", w2.Ga, w.Ga)
    ctx.eq("numpy-kernel", tr.trial_walker_ovlp_gf_base(w.phiwa, t.psia)[1], w.Ghalfa)
    ctx.eq("numpy-overlap-kernel", tr.trial_walker_ovlp_base(w.phiwa, t.psia), So[0])
    G2, Gh2 = est.GF(t.psia, w.phiwa[0])
    ctx.eq("estimator-gf", G2, w.Ga[0])
    ctx.eq("estimator-ghalf", Gh2, w.Ghalfa[0].T)
    if c["ncomp"] > 1:
        psi = n.hstack([t.psia, t.psib])
        phi = n.hstack([w.phiwa[0], w.phiwb[0]])
        G3, _ = est.GF_so(psi, phi, c["na"], c["nb"])
        ctx.eq("spin-resolved-estimator-a", G3[0], w.Ga[0])
        ctx.eq("spin-resolved-estimator-b", G3[1], w.Gb[0])


@scenario("P02", "green_function_definition", quick=[dict(nao=3, na=2), dict(nao=2, na=1), dict(nao=3, na=1)],
          thorough=[dict(nao=4, na=2)],
          about="the Green's function is the ratio of Fock-space matrix elements of the two determinants",
          bounds="2-3 orbitals (thorough 4), 1-2 particles, arbitrary complex walker, arbitrary real trial")
def gf_definition(ctx):
    c = ctx.cfg
    nao, na = c["nao"], c["na"]
    t, w = make(ctx, nao, na, na, 1, 1, treal=True)
    ov = t.ovlp_with_walkers_gf(w)
    ops = O.fermion_ops(nao)
    vT = O.slater_vector(ctx, t.psia, ops)
    vW = O.slater_vector(ctx, w.phiwa[0], ops)
    s = O.vdot(ctx, vT, vW)
    ctx.eq("overlap", ov[0], s * s)
    for p in range(nao):
        for q in range(nao):
            x = O.apply(ctx, ops[p].T @ ops[q], vW)
            ctx.eq("matrix-element", w.Ga[0][p, q] * s, O.vdot(ctx, vT, x))


@scenario("P02", "green_function_invariance", quick=[dict(nao=3, na=2), dict(nao=2, na=2)],
          about="an invertible mixing of a walker's orbitals leaves its Green's function unchanged and multiplies the "
                "overlap by the determinant; trace = particle number; projector",
          bounds="2-3 orbitals, 2 particles; arbitrary complex walker and mixing")
def gf_invariance(ctx):
    c = ctx.cfg
    t, w = make(ctx, c["nao"], c["na"], c["na"], 1, 1, treal=True)
    n = ctx.np
    R = ctx.cplx("R", (c["na"], c["na"]))
    ov = t.ovlp_with_walkers_gf(w)
    G = w.Ga[0]
    w2 = NS(**w.__dict__)
    w2.phiwa = n.array([n.dot(w.phiwa[0], R)])
    ov2 = t.ovlp_with_walkers_gf(w2)
    ctx.eq("overlap-scales", ov2[0], ov[0] * O.det(ctx, R) ** 2)
    ctx.eq("gf-unchanged", w2.Ga[0], G)
    ctx.eq("trace", n.trace(G), c["na"])


@scenario("P02", "boson_green_function", quick=[dict(modes=(2,)), dict(modes=(2, 3))],
          about="bosonic overlap and Green's function of the Fock-space walker",
          bounds="1-2 modes, up to 3 Fock states each; arbitrary complex amplitudes")
def boson_gf(ctx):
    c = ctx.cfg
    t, w = make(ctx, 2, 1, 1, 2, 2, boson=c["modes"])
    n = ctx.np
    t.ovlp_with_walkers_gf(w)
    for z in range(2):
        s = O.vdot(ctx, t.boson_psi, w.boson_phiw[z])
        ctx.eq("boson-overlap", t.boson_ovlp_with_walkers(w)[z], s)
        ctx.eq("boson-gf", w.boson_Gf[z] * s, n.outer(w.boson_phiw[z], n.conj(t.boson_psi)))
        ctx.eq("boson-gf-trace", n.trace(w.boson_Gf[z]), 1)


@scenario("P02", "logshift", quick=[dict(ncomp=1), dict(ncomp=2)],
          about="the stored log-scale of a walker divides its overlap",
          bounds="2 orbitals, one particle per spin, arbitrary shift")
def logshift(ctx):
    t, w = make(ctx, 2, 1, 1, ctx.cfg["ncomp"], 1, treal=True)
    n = ctx.np
    s0 = t.ovlp_with_walkers(w)
    w.logshift = ctx.real("ls", (1,))
    s1 = t.ovlp_with_walkers(w)
    s2 = t.ovlp_with_walkers_gf(w)
    f = n.exp(w.logshift[0])
    if ctx.cfg["ncomp"] == 1:
        f = f * f
    ctx.eq("ovlp", s1[0] * f, s0[0])
    ctx.eq("ovlp-gf", s2[0] * f, s0[0])


# ------------------------------------------------------------------ P03
def energy_ref(ctx, Ga, Gb, h, L):
    n = ctx.np
    e1 = n.einsum("pq,pq->", h, Ga) + n.einsum("pq,pq->", h, Gb)
    e2 = ctx.num(0)
    for g in range(L.shape[0]):
        tr_ = n.einsum("pq,pq->", L[g], Ga) + n.einsum("pq,pq->", L[g], Gb)
        e2 = e2 + tr_ * tr_ / 2
        for G in (Ga, Gb):
            M = n.dot(L[g], G.T)
            e2 = e2 - n.trace(n.dot(M, M)) / 2
    return e1, e2


@scenario("P03", "half_rotated_local_energy",
          quick=[dict(nao=2, na=1, nb=1, ncomp=2, nw=2, t=True, w=False), dict(nao=3, na=2, nb=1, ncomp=2, nw=2, t=False, w=True),
                 dict(nao=3, na=2, nb=1, ncomp=2, nw=1, t=True, w=False), dict(nao=3, na=2, nb=2, ncomp=1, nw=2, t=False, w=True),
                 dict(nao=2, na=1, nb=1, ncomp=1, nw=2, t=True, w=False)],
          thorough=[dict(nao=4, na=2, nb=2, ncomp=2, nw=2, t=False, w=True), dict(nao=3, na=1, nb=2, ncomp=2, nw=2, t=True, w=False),
                    dict(nao=2, na=1, nb=1, ncomp=2, nw=2, t=True, w=True)],
          about="energies from half-rotated integrals equal the Wick expression with the full Green's function, for "
                "restricted and unrestricted trials, and both exchange kernels",
          bounds="2-4 orbitals, 1-2 electrons per spin, 2 Cholesky vectors, 1-2 walkers; in each configuration either the "
                 "trial or the walkers are symbolic, the other is a fixed matrix; integrals always symbolic")
def local_energy(ctx):
    c = ctx.cfg
    t, w = make(ctx, c["nao"], c["na"], c["nb"], c["ncomp"], c["nw"], tsym=c["t"], wsym=c["w"], treal=True)
    n = ctx.np
    nchol = 2
    h = ctx.sym("h", c["nao"])
    L = ctx.sym("L", (nchol, c["nao"], c["nao"]))
    enuc = ctx.real("enuc")
    t.ovlp_with_walkers_gf(w)
    Gas, Gbs = w.Ga, (w.Gb if c["ncomp"] > 1 else w.Ga)
    t.half_rotate_integrals(n.array([h, h]), L)
    t.ovlp_with_walkers_gf(w)
    f = est.local_energy_SD_UHF if c["ncomp"] > 1 else est.local_energy_SD_RHF
    e1, e2 = f(t, w, enuc)
    vb = t.get_vbias(w, L)
    for z in range(c["nw"]):
        r1, r2 = energy_ref(ctx, Gas[z], Gbs[z], h, L)
        ctx.eq("one-body", e1[z], r1 + enuc)
        ctx.eq("two-body", e2[z], r2)
        ctx.eq("force-bias-field", vb[z], n.einsum("npq,pq->n", L, Gas[z] + Gbs[z]))
    ctx.eq("exchange-kernels-agree", est.exx_rltensor_Ghalf(t.rltensora, w.Ghalfa),
           est.exx_rltensor_Ghalf_kernel(t.rltensora, w.Ghalfa))


@scenario("P03", "energy_kernels", quick=[dict(spin=1), dict(spin=2)],
          about="every variant of the Coulomb and exchange kernels (plain, compiled, banded, low rank) equals the defining contraction",
          bounds="2 walkers, 2 fields, 2-3 orbitals; arbitrary complex rotated integrals and Green's functions")
def energy_kernels(ctx):
    n = ctx.np
    R = ctx.cplx("R", (2, 3, 2))
    G = ctx.cplx("G", (2, 3, 2))
    two = ctx.cfg["spin"] == 2
    R2 = ctx.cplx("S", (2, 3, 1)) if two else None
    G2 = ctx.cplx("H", (2, 3, 1)) if two else None
    for nm in ("ecoul_rltensor_uhf", "ecoul_rltensor_Ghalf", "ecoul_rltensor_Ghalf_numba"):
        f = getattr(est, nm, None)
        if f is None:
            continue
        r = f(R, G, R2, G2)
        for z in range(2):
            ref = ctx.num(0)
            for l in range(2):
                x = n.sum(R[l] * G[z])
                if two:
                    x = x + n.sum(R2[l] * G2[z])
                ref = ref + x * x / 2
            ctx.eq(nm, r[z], ref)
    for nm in ("exx_rltensor_Ghalf", "exx_rltensor_Ghalf_kernel", "exx_rltensor_Ghalf_numba"):
        f = getattr(est, nm, None)
        if f is None:
            continue
        r = f(R, G)
        for z in range(2):
            ref = ctx.num(0)
            for l in range(2):
                m = n.dot(R[l].T, G[z])
                ref = ref + n.trace(n.dot(m, m)) / 2
            ctx.eq(nm, r[z], ref)
    r = est.e_rh1e_Ghalf(R[0], G)
    for z in range(2):
        ctx.eq("one-body", r[z], n.sum(R[0] * G[z]))
    f = getattr(est, "_banded_LT_dot_G", None)
    if f is not None:
        L = ctx.cplx("L", (3, 3))
        for i in range(3):
            for j in range(3):
                if abs(i - j) > 1:
                    L[i, j] = ctx.num(0)
        ctx.eq("banded", f(L, G[0], 1, n), n.dot(L.T, G[0]))


@scenario("P03", "full_integral_local_energy", quick=[dict(nao=2, nw=2, nchol=2)], thorough=[dict(nao=3, nw=1, nchol=1)],
          about="the Cholesky, precomputed and four-index expressions of the local energy agree for any Green's function",
          bounds="2-3 orbitals, 2 Cholesky vectors, 2 walkers, arbitrary complex Green's functions")
def full_energy(ctx):
    c = ctx.cfg
    n = ctx.np
    nao, nw = c["nao"], c["nw"]
    h = ctx.sym("h", nao)
    L = ctx.sym("L", (c["nchol"], nao, nao))
    eri = n.einsum("npr,nqs->prqs", L, L)
    G = ctx.cplx("G", (nw, nao, nao))
    ref = []
    for z in range(nw):
        r1, r2 = energy_ref(ctx, G[z], G[z], h, L)
        ref.append(r1 + r2)
    ref = n.array(ref)
    ctx.eq("cholesky", est.local_eng_elec_chol_new(h, L, G), ref)
    TL = n.einsum("npr,zps->znrs", L, G)
    vb = n.einsum("npq,zpq->zn", L, G)
    ctx.eq("precomputed", est.local_eng_elec_chol(TL, h, vb, G), ref)
    G2 = n.array([[G[z], G[z]] for z in range(nw)])
    hh = n.array([h, h])
    ctx.eq("four-index", est.local_eng_elec(hh, eri, G2, spin_fac=1.0) * 1.0,
           n.array([_full_ref(ctx, G2[z], hh, eri) for z in range(nw)]))


def _full_ref(ctx, G2, hh, eri):
    # documented convention of the four-index routine: spin_fac=1 leaves a factor two
    n = ctx.np
    e = n.einsum("Spq,Spq->", hh, G2)
    D = G2[0] + G2[1]
    e = e + 2 * n.einsum("prqs,pr,qs->", eri, D, D)
    for s in range(2):
        e = e - n.einsum("prqs,ps,qr->", eri, G2[s], G2[s])
    return e


@scenario("P03", "energy_is_fock_space_expectation", quick=[dict(nao=2, na=1, nb=1), dict(nao=3, na=2, nb=1)],
          about="local energy = <T|H|W>/<T|W> with H the second-quantised Hamiltonian on the full Fock space",
          bounds="2 orbitals (1 up, 1 down) with symbolic walkers; 3 orbitals (2 up, 1 down) with fixed walker; 1 Cholesky "
                 "vector; integrals symbolic", limit=400)
def energy_fock(ctx):
    c = ctx.cfg
    nao, na, nb = c["nao"], c["na"], c["nb"]
    n = ctx.np
    t, w = make(ctx, nao, na, nb, 2, 1, tsym=False, wsym=(nao == 2))
    h = ctx.sym("h", nao)
    L = ctx.sym("L", (1, nao, nao))
    t.half_rotate_integrals(n.array([h, h]), L)
    ov = t.ovlp_with_walkers_gf(w)
    e1, e2 = est.local_energy_SD_UHF(t, w, ctx.num(0))
    ops = O.fermion_ops(2 * nao)

    def so(A, B):
        Z = n.zeros((2 * nao, na + nb))
        if ctx.mode == "num":
            Z = Z.astype(complex)
        Z[:nao, :na] = A
        Z[nao:, na:] = B
        return Z
    vT = O.slater_vector(ctx, so(t.psia, t.psib), ops)
    vW = O.slater_vector(ctx, so(w.phiwa[0], w.phiwb[0]), ops)
    s = O.vdot(ctx, vT, vW)

    def onebody(M, v):
        out = n.zeros(len(v))
        if ctx.mode == "num":
            out = out.astype(complex)
        for p in range(nao):
            for q in range(nao):
                for sp in (0, nao):
                    out = out + M[p, q] * O.apply(ctx, ops[p + sp].T @ ops[q + sp], v)
        return out
    ctx.eq("overlap", ov[0], s)
    ctx.eq("one-body", e1[0] * s, O.vdot(ctx, vT, onebody(h, vW)))
    # 1/2 sum (pr|qs) p+ q+ s r = 1/2 (L.L - sum_{pq}(L L)_{pq} p+ q)
    x = onebody(L[0], onebody(L[0], vW)) - onebody(n.dot(L[0], L[0]), vW)
    ctx.eq("two-body", e2[0] * s, O.vdot(ctx, vT, x) / 2)


# ------------------------------------------------------------------ P04
@scenario("P04", "electron_boson_energy",
          quick=[dict(modes=(2,), ncomp=2), dict(modes=(3,), ncomp=1), dict(modes=(2, 2), ncomp=2), dict(modes=(2, 3), ncomp=2), dict(modes=(2, 3, 2), ncomp=2)],
          thorough=[dict(modes=(2, 2, 3), ncomp=2), dict(modes=(4, 3), ncomp=2)],
          about="electron-boson local energy = sum over modes of <g_a> <b+b^dagger>_a on that mode's own Fock block",
          bounds="1-3 modes, 2-4 Fock states each, 2 orbitals, 2 walkers; arbitrary couplings and Green's functions")
def eb_energy(ctx):
    c = ctx.cfg
    n = ctx.np
    modes = list(c["modes"])
    nm, nf, nao, nw = len(modes), sum(modes), 2, 2
    omega = ctx.pos("omega", (nm,))
    g = ctx.sym("g", (nm, nao, nao))
    Ga = ctx.cplx("Ga", (nw, nao, nao))
    Gb = ctx.cplx("Gb", (nw, nao, nao)) if c["ncomp"] > 1 else None
    B = ctx.cplx("B", (nw, nf, nf))
    e = est.local_eng_eboson(omega, modes, g, [Ga, Gb], B)
    for z in range(nw):
        ref = ctx.num(0)
        off = 0
        for m in range(nm):
            x = n.einsum("pq,pq->", g[m], Ga[z])
            if Gb is not None:
                x = x + n.einsum("pq,pq->", g[m], Gb[z])
            a = O.boson_a(ctx, modes[m])
            ref = ref + x * n.einsum("ij,ij->", a + a.T, B[z][off:off + modes[m], off:off + modes[m]])
            off += modes[m]
        ctx.eq("coupling-energy", e[z], ref)


@scenario("P04", "boson_energy", quick=[dict(modes=(2,)), dict(modes=(3, 3)), dict(modes=(2, 3)), dict(modes=(2, 3, 2))], thorough=[dict(modes=(2, 2, 2)), dict(modes=(4, 2, 3))],
          about="bosonic local energy = sum over modes and Fock states of omega_a n <n|G|n>",
          bounds="1-3 modes, 2-4 Fock states each, arbitrary frequencies and Green's functions")
def b_energy(ctx):
    c = ctx.cfg
    n = ctx.np
    modes = list(c["modes"])
    nm, nf = len(modes), sum(modes)
    omega = ctx.pos("omega", (nm,))
    B = ctx.cplx("B", (2, nf, nf))
    e = est.local_eng_boson(omega, modes, B)
    for z in range(2):
        ref = ctx.num(0)
        off = 0
        for m in range(nm):
            for k in range(modes[m]):
                ref = ref + omega[m] * k * B[z][off + k, off + k]
            off += modes[m]
        ctx.eq("boson-energy", e[z], ref)


@scenario("P03", "mixed_rank_exchange", quick=[dict(sign=1, bw=1), dict(sign=-1, bw=1)], thorough=[dict(sign=1, bw=0), dict(sign=-1, bw=2)],
          about="exchange energy over a plan of low-rank and banded Cholesky matrices equals the defining contraction; the measured "
                "half-bandwidth covers every stored element",
          bounds="3 orbitals, one rank-1 matrix (fixed direction, symbolic scale, given singular vectors of either sign) and one banded "
                 "full-rank matrix, 2 walkers with arbitrary complex Green's functions")
def mixed_rank(ctx):
    import openms.qmc.tools as tools
    c = ctx.cfg
    n = ctx.np
    F = Fraction
    u = [F(2, 3), F(-1, 3), F(2, 3)]
    if ctx.mode == "num":
        u = [float(x) for x in u]
    s = ctx.pos("s", (1,))[0]
    s2 = ctx.pos("t", (3,))
    for x in [s] + list(s2):
        ctx.assume(x - ctx.num(F(1, 1000)) > 0)
    L1 = n.array([[ctx.num(c["sign"]) * s * u[p] * u[q] for q in range(3)] for p in range(3)])
    L2 = ctx.sym("L", 3)
    for i in range(3):
        for j in range(3):
            if abs(i - j) > c["bw"]:
                L2[i, j] = ctx.num(0)
    G = ctx.cplx("G", (2, 3, 3))
    svds = []

    def svd(A, full_matrices=True, **k):
        if same(A, L1):
            U = n.array([[ctx.num(u[0]), ctx.num(F(1, 3)), ctx.num(0)], [ctx.num(u[1]), ctx.num(F(2, 3)), ctx.num(0)],
                         [ctx.num(u[2]), ctx.num(0), ctx.num(1)]])
            svds.append(1)
            return U, n.array([s, ctx.num(0), ctx.num(0)]), n.array([[ctx.num(c["sign"]) * U[j, i] for j in range(3)] for i in range(3)])
        svds.append(2)
        return ctx.arr(np.eye(3)), s2.copy(), ctx.arr(np.eye(3))
    ctx.patch(n.linalg, "svd", svd)
    L = n.array([L1, L2])
    plan, meta = tools.build_Ltensor_plan(L, c["bw"], backend=n)
    r = est.exx_mixed_rank_sparsity(L, G, plan, meta, backend=n)
    for z in range(2):
        ref = ctx.num(0)
        for l in range(2):
            m = n.dot(L[l].T, G[z])
            ref = ref + n.trace(n.dot(m, m)) / 2
        ctx.eq("exchange", r[z], ref)
    P = ctx.pos("B", (3, 3))
    for x in P.ravel():
        ctx.assume(x - ctx.num(F(1, 1000)) > 0)
    B = n.array([[[P[i, j] if abs(i - j) <= c["bw"] else ctx.num(0) for j in range(3)] for i in range(3)]])
    ctx.true("half-bandwidth covers the stored elements", int(tools.get_blksize(B, 1e-6)) >= c["bw"])
