"""P09 integral preparation for QMC, P10 bilinear decoupling and electron-boson propagation,
P11 walker orthonormalisation, P12 run-time averages and error analysis, P13 bosonic trial states"""
from .common import *
from . import oracle as O
from vsym.registry import scenario

import openms.qmc.tools as tools
import openms.qmc.qmc as qmc
import openms.qmc.propagators as pr
import openms.qmc.trial as tr
import openms.qmc.trial_boson as tb
import openms.qmc.generic_walkers as gw
from openms.lib.boson import Boson
from .p_prop import prop
from .p_trial import make, concrete


# ------------------------------------------------------------------ P09
ORTH = {1: [[1]], 2: [[Fraction(3, 5), Fraction(4, 5)], [Fraction(-4, 5), Fraction(3, 5)]]}


def rat_orth(n):
    """a fixed rational orthogonal matrix (product of Givens rotations)"""
    Q = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    tr_ = [(Fraction(3, 5), Fraction(4, 5)), (Fraction(5, 13), Fraction(12, 13)), (Fraction(8, 17), Fraction(15, 17))]
    k = 0
    for i in range(n):
        for j in range(i + 1, n):
            c, s = tr_[k % 3]
            k += 1
            for r in range(n):
                a, b = Q[r][i], Q[r][j]
                Q[r][i], Q[r][j] = c * a - s * b, s * a + c * b
    return np.array(Q, dtype=object)


def num_or_sym(ctx, Q):
    return ctx.arr(Q if ctx.mode == "sym" else Q.astype(float))


@scenario("P09", "full_factorisation", quick=[dict(nao=1, g=0), dict(nao=2, g=0), dict(nao=2, g=1), dict(nao=2, g=2)],
          about="the vectors returned by the full factorisation reproduce the two-electron integrals plus the coupling (dipole "
                "self-energy) products passed in; components above the threshold are never dropped",
          bounds="1-2 orbitals, 0-2 coupling matrices; the target matrix has an arbitrary spectrum in [1/10, 1000] (threshold 1/100) in a fixed "
                 "orthogonal frame, coupling matrices arbitrary; the library SVD is represented by that decomposition")
def chols_full(ctx):
    c = ctx.cfg
    n = ctx.np
    nao = c["nao"]
    d = nao * nao
    U = num_or_sym(ctx, rat_orth(d))
    s = ctx.pos("s", (d,), lo=Fraction(1, 10), hi=1000)
    M = n.dot(U * s, U.T)
    g = ctx.real("g", (c["g"], nao, nao)) if c["g"] else None
    eri = M.reshape(nao, nao, nao, nao)
    if g is not None:
        eri = eri - n.einsum("npq,nrs->pqrs", g, g)
    if ctx.mode == "sym":
        def svd(A, *a, **k):
            ctx.eq("factorised-matrix", A, M)
            return U, s, U.T
        ctx.patch(tools.scipy.linalg, "svd", svd)
    else:
        pass
    given = eri.copy()
    L = tools.chols_full(NS(verbose=0), eri=given, thresh=0.01, g=g)
    ctx.eq("given-integrals-unchanged", given, eri)
    got = n.einsum("npq,nrs->pqrs", L, L)
    ctx.eq("reconstruction", got, M.reshape(nao, nao, nao, nao), tol=1e-8)


class Mol2:
    """minimal stand-in for the molecule interface used by the pivoted factorisation"""

    def __init__(self, eri, shells, verbose=0, nctr=None):
        self.eri, self.verbose = eri, verbose
        self.ctr = nctr or [1] * len(shells)
        self.ang = [(s - 1) // 2 for s in shells]
        self.sh = shells = [s * k for s, k in zip(shells, self.ctr)]
        self.nbas = len(shells)
        self.off = [sum(shells[:i]) for i in range(len(shells) + 1)]

    def nao_nr(self):
        return self.off[-1]

    def bas_angular(self, i):
        return self.ang[i]

    def bas_nctr(self, i):
        return self.ctr[i]

    def intor(self, name, shls_slice=None, **k):
        e = self.eri
        if shls_slice is None:
            return e.copy()
        s = shls_slice
        o = self.off
        return e[o[s[0]]:o[s[1]], o[s[2]]:o[s[3]], o[s[4]]:o[s[5]], o[s[6]]:o[s[7]]].copy()


@scenario("P09", "pivoted_factorisation",
          quick=[dict(roles="e", piv=((0, 0),)), dict(roles="g", piv=((0, 1),)), dict(roles="eg", piv=((0, 0), (1, 1))),
                 dict(roles="ge", piv=((1, 1), (0, 1))), dict(roles="gg", piv=((0, 1), (0, 0))), dict(roles="ee", piv=((0, 1), (1, 1))),
                 dict(roles="ge", piv=((0, 0), (1, 1))),
                 dict(roles="egg", piv=((0, 0), (1, 1), (0, 1))), dict(roles="gge", piv=((1, 1), (0, 0), (0, 1))),
                    dict(roles="eee", piv=((0, 0), (1, 1), (0, 1)))],
          about="the pivoted factorisation reproduces the integrals plus the coupling products, mode by mode",
          bounds="2 orbitals in one shell each; target of rank 1-3 with arbitrary entries inside boxes that fix the pivot order named in "
                 "the configuration; each rank-one piece belongs to the bare integrals (e) or to a coupling mode (g)", limit=300)
def chols_blocked(ctx):
    c = ctx.cfg
    n = ctx.np
    nao = 2
    piv = [tuple(p) for p in c["piv"]]
    vs = []
    for k, role in enumerate(c["roles"]):
        big = ctx.pos("p%d" % k, lo=40 // 6 ** k, hi=50 // 6 ** k)
        v = n.zeros((nao, nao))
        if ctx.mode == "num":
            v = v.astype(float)
        for i in range(nao):
            for j in range(i + 1):
                if (j, i) == piv[k]:
                    x = big
                elif (j, i) in piv[:k]:
                    continue
                else:
                    # below every later pivot, so that the pivot order is the named one
                    x = ctx.real("x%d_%d%d" % (k, i, j), lo=Fraction(-1, 2), hi=Fraction(1, 2))
                v[i, j] = x
                v[j, i] = x
        vs.append(v)
    e = [v for v, r in zip(vs, c["roles"]) if r == "e"]
    g = [v for v, r in zip(vs, c["roles"]) if r == "g"]
    M = sum(n.einsum("pq,rs->pqrs", v, v) for v in vs)
    eri = sum((n.einsum("pq,rs->pqrs", v, v) for v in e), n.zeros((nao,) * 4))
    mol = Mol2(eri, [1] * nao)
    L = tools.chols_blocked(mol, thresh=ctx.num(Fraction(1, 10 ** 8)), max_chol_fac=3, g=n.array(g) if g else None)
    got = n.einsum("npq,nrs->pqrs", L, L)
    ctx.eq("reconstruction", got, M, tol=1e-6)


@scenario("P09", "pivoted_threshold", quick=[dict(big=40), dict(big=1)], thorough=[dict(big=3, third=True)],
          about="the pivoted factorisation stops only when no diagonal element is off by more than the threshold, whatever the size of the integrals",
          bounds="2 orbitals; one piece of given size plus a second one of any size from far below to far above the threshold, with fixed directions")
def chols_threshold(ctx):
    c = ctx.cfg
    n = ctx.np
    t = ctx.pos("t", lo=Fraction(1, 10 ** 9), hi=Fraction(1, 10))
    thresh = Fraction(1, 10 ** 5)
    a, b = np.array([[2, .5], [.5, 1]]), np.array([[0, .25], [.25, 1]])
    A, B = ctx.arr(a), ctx.arr(b)
    M = c["big"] * n.einsum("pq,rs->pqrs", A, A) + t * n.einsum("pq,rs->pqrs", B, B)
    if c.get("third"):
        C = ctx.arr(np.array([[0, .5], [.5, 0]]))
        M = M + ctx.pos("u", lo=Fraction(1, 10 ** 9), hi=Fraction(1, 10)) * n.einsum("pq,rs->pqrs", C, C)
    L = tools.chols_blocked(Mol2(M, [1, 1]), thresh=ctx.num(thresh), max_chol_fac=3)
    got = n.einsum("npq,nrs->pqrs", L, L)
    slack = thresh + (0 if ctx.mode == "sym" else 1e-9)
    for p in range(2):
        for q in range(2):
            ctx.ge("left-out", ctx.num(slack) - (M[p, q, p, q] - got[p, q, p, q]), 0)


@scenario("P09", "pivoted_shell_layout", quick=[dict(shells=(1, 3)), dict(shells=(3, 1)), dict(shells=(1, 1), nctr=(2, 2)), dict(shells=(1, 1, 1), nctr=(1, 2, 1))],
          about="with shells of several functions the pivot column is taken from the right shell offset",
          bounds="4 orbitals in two or three shells (s, p, general contractions), integrals of rank one given by a fixed matrix with a symbolic scale")
def chols_shell(ctx):
    n = ctx.np
    nao = 4
    t = ctx.pos("scale", lo=Fraction(1, 2), hi=3)
    base = np.array([[3, 1, 2, 1], [1, 5, 1, 2], [2, 1, 4, 1], [1, 2, 1, 7]], dtype=float)
    l = t * ctx.arr(base)
    eri = n.einsum("pq,rs->pqrs", l, l)
    mol = Mol2(eri, list(ctx.cfg["shells"]), nctr=ctx.cfg.get("nctr"))
    L = tools.chols_blocked(mol, thresh=ctx.num(Fraction(1, 10 ** 10)), max_chol_fac=1)
    got = n.einsum("npq,nrs->pqrs", L, L)
    ctx.eq("reconstruction", got, eri, tol=1e-6)


def fock_h(ctx, nao, h, Ls):
    """sum h c+c + 1/2 sum_n (L_n L_n) in second quantisation = one-body + 1/2 (L.L - one(LL))"""
    n = ctx.np
    ops = O.fermion_ops(2 * nao)
    dim = 1 << (2 * nao)

    def one(M):
        out = n.zeros((dim, dim))
        if ctx.mode == "num":
            out = out.astype(complex)
        for a in range(nao):
            for b in range(nao):
                for s in (0, nao):
                    out = out + M[a, b] * ctx.arr(ops[a + s].T @ ops[b + s])
        return out
    H = one(h)
    for L in Ls:
        X = one(L)
        H = H + (n.dot(X, X) - one(n.dot(L, L))) / 2
    return H, one


@scenario("P09", "coupled_integrals", quick=[dict(nm=1, merge=False, ncomp=1), dict(nm=2, merge=False, ncomp=2), dict(nm=1, merge=True, ncomp=2),
                                            dict(nm=1, merge=False, ncomp=1, dec=1), dict(nm=1, merge=False, ncomp=1, dec=2)],
          about="integrals handed to the propagator describe h + two-electron + 1/2 (coupling operator)^2 exactly once, and the "
                "electron-boson coupling is sqrt(omega/2) times the dipole coupling",
          bounds="2 orbitals with both spins, 1-2 modes, one bare Cholesky vector; arbitrary integrals, couplings, frequencies; "
                 "identity orbital transformation")
def coupled_integrals(ctx):
    c = ctx.cfg
    n = ctx.np
    nao, nm = 2, c["nm"]
    om = ctx.pos("om", (nm,))
    g = ctx.sym("g", (nm, nao, nao))
    h = ctx.sym("h", nao)
    L = ctx.sym("L", (1, nao, nao))
    q = blank(qmc.QMCbase)
    q.verbose, q.stdout = 0, Null()
    q.OAO, q.fbinteraction, q.merge_g2eri, q.ncomponents = True, True, c["merge"], c["ncomp"]
    q.chol_thresh, q.block_decompose_eri = 1e-8, False
    q.mol = q.system = NS(gmat=g, boson_freq=om, nmodes=nm, intor=lambda *a, **k: ctx.arr(np.eye(nao)), verbose=0)
    q.propagator_options = {"decouple_bilinear": bool(c.get("dec")), "decouple_scheme": c.get("dec", 1), "turnoff_bosons": False}
    q.trial = NS(Gf=n.zeros((2, nao, nao)))
    enuc = ctx.real("enuc")
    ctx.patch(qmc.scf.hf, "get_hcore", lambda *a: h)
    ctx.patch(qmc.lo.orth, "lowdin", lambda *a: ctx.arr(np.eye(nao)))
    seen = {}

    def chols(mol, Xmat=None, thresh=None, g=None, block_decompose_eri=False):
        seen["g"] = g
        LL = L if g is None else n.concatenate((L, g), axis=0)
        return h.copy(), LL, enuc
    ctx.patch(qmc.tools, "get_h1e_chols", chols)
    if ctx.mode == "sym":
        ctx.ex.stubs["eigh"] = lambda A, b=None: (n.zeros(A.shape[0]), A)
    h1e, lt = qmc.QMCbase.get_integrals(q)
    ctx.eq("nuclear", q.nuc_energy, enuc)
    nb = q.nbarefields
    ctx.eq("bare-field-count", nb, 1 + nm)
    # reference: h + Coulomb + 1/2 sum (g . c+c)^2
    Href, one = fock_h(ctx, nao, h, [L[0]])
    for a in range(nm):
        X = one(g[a])
        Href = Href + n.dot(X, X) / 2
    for s in range(c["ncomp"]):
        Hgot, _ = fock_h(ctx, nao, h1e[s], [lt[k] for k in range(nb)])
        ctx.eq("hamiltonian", Hgot, Href)
    for a in range(nm):
        ctx.eq("coupling", q.geb[a] * q.geb[a], g[a] * g[a] * om[a] / 2)
        ctx.eq("coupling-direction", q.geb[a] * g[a][0, 0], g[a] * q.geb[a][0, 0])
    if c.get("dec"):
        nf = lt.shape[0] - nb
        ctx.eq("decoupled-field-count", nf, nm * (3 if c["dec"] == 1 else 2))
        ctx.eq("decoupled-fields", lt[nb:], q.chol_bilinear[0])


@scenario("P09", "integral_dump", quick=[dict(norb=1), dict(norb=2), dict(norb=3)], thorough=[dict(norb=4)],
          about="integrals read from a dump file, which holds each symmetry-unique element once, are the complete tensors: (pq|rs) in all eight orders, the one-body part in both, the constant",
          bounds="1-4 orbitals, any integrals")
def integral_dump(ctx):
    import tempfile
    n = ctx.np
    N = ctx.cfg["norb"]
    I = ctx.eri8("I", N)
    h = ctx.sym("h", N)
    e = ctx.real("e")
    tok = []

    def text(x):
        if ctx.mode == "num":
            return repr(float(x))
        tok.append(x)
        return "%d.0" % (1000000 + len(tok))

    def number(s):
        v = float(s)
        return tok[int(v) - 1000001] if v > 1000000 else v
    out = [" &FCI NORB=%4d,NELEC= 2,MS2=0,\n" % N, "  ORBSYM=%s\n" % ("1," * N), "  ISYM=1,\n", " &END\n"]
    pairs = [(i, j) for i in range(N) for j in range(i + 1)]
    for a, (i, j) in enumerate(pairs):
        for k, l in pairs[:a + 1]:
            out.append("%s %4d %4d %4d %4d\n" % (text(I[i, j, k, l]), i + 1, j + 1, k + 1, l + 1))
    for i, j in pairs:
        out.append("%s %4d %4d  0  0\n" % (text(h[i, j]), i + 1, j + 1))
    out.append("%s  0  0  0  0\n" % text(e))
    if ctx.mode == "sym":
        ctx.patch(tools, "float", number)
    with tempfile.TemporaryDirectory() as d:
        f = d + "/FCIDUMP"
        if ctx.mode == "num":       # the format of pyscf
            from pyscf.tools import fcidump
            fcidump.from_integrals(f, np.array(h, dtype=float), np.array(I, dtype=float), N, 2, nuc=float(e), tol=-1, float_format=" %.17g")
        else:
            open(f, "w").writelines(out)
        r = tools.read_fcidump(f, N)
    ctx.eq("one-body", r[0], h)
    ctx.eq("two-body", r[1], I)
    ctx.eq("constant", r[2], e)


# ------------------------------------------------------------------ P10
@scenario("P10", "bilinear_decomposition", quick=[dict(nm=1, scheme=1), dict(nm=1, scheme=2), dict(nm=2, scheme=1), dict(nm=2, scheme=2)],
          about="1/2 sum of squares of the composite fields equals A F (x) B Q for every mode (operators on a product space)",
          bounds="1-2 modes, 2 orbitals (one-body matrices), 2 Fock states per mode; arbitrary couplings and positive factors")
def bilinear(ctx):
    c = ctx.cfg
    n = ctx.np
    nm = c["nm"]
    A = ctx.pos("A", (nm,), lo=Fraction(1, 4))
    B = ctx.pos("B", (nm,), lo=Fraction(1, 4))
    g = ctx.sym("g", (nm, 2, 2), lo=Fraction(1, 1000))
    e, b = tools.bilinear_decomposition(A, B, g, c["scheme"])
    # F acts on the first factor, q_a on the second (independent symbols for the two operators)
    Iq = ctx.arr(np.eye(2))
    for a in range(nm):
        a_ = O.boson_a(ctx, 2)
        q = a_ + a_.T
        tot = n.zeros((4, 4))
        if ctx.mode == "num":
            tot = tot.astype(complex)
        nf = 3 if c["scheme"] == 1 else 2
        for k in range(nf * a, nf * (a + 1)):
            X = n.kron(e[k], Iq) + n.kron(ctx.arr(np.eye(2)), b[k] * q)
            tot = tot + n.dot(X, X) / 2
        ctx.eq("product", tot, n.kron(A[a] * g[a], B[a] * q))


def ebprop(ctx, nm, modes, ncomp, dec=False, dt=None, **k):
    p = prop(pr.PhaselessElecBoson, dt=dt)
    p.boson_quantization, p.decouple_bilinear, p.decouple_scheme, p.turnoff_bosons = "second", dec, 1, False
    p.geb, p.e_boson_shift, p.e_local_boson, p.nbarefields = None, 0.0, 0.0, 0
    for a, b in k.items():
        setattr(p, a, b)
    p.system = NS(nmodes=nm, nboson_states=list(modes), boson_freq=ctx.pos("om", (nm,)))
    return p


@scenario("P10", "boson_operators", quick=[dict(modes=(2,)), dict(modes=(3, 2)), dict(modes=(2, 2)), dict(modes=(2, 3, 2))], thorough=[dict(modes=(4, 3, 2))],
          about="sum_a z_a (b_a + b_a^+) is block diagonal over modes with exact matrix elements; free-boson propagation is "
                "exp(-dt omega n) on each Fock state; Q = <b+b^+> uses weights and each mode's own block",
          bounds="1-3 modes of 2-4 Fock states; arbitrary amplitudes, coefficients, frequencies, weights")
def boson_ops(ctx):
    n = ctx.np
    modes = list(ctx.cfg["modes"])
    nm, nf = len(modes), sum(modes)
    z = ctx.real("z", (nm,))
    M = pr.boson_adag_plus_a(nm, modes, z)
    off = 0
    ref = n.zeros((nf, nf))
    for a in range(nm):
        A = O.boson_a(ctx, modes[a])
        ref[off:off + modes[a], off:off + modes[a]] = z[a] * (A + A.T)
        off += modes[a]
    ctx.eq("displacement-operator", M, ref)
    # free propagation
    dt = ctx.pos("dt")
    p = ebprop(ctx, nm, modes, 2, dt=dt)
    t, w = make(ctx, 2, 1, 1, 2, 2, tsym=False, wsym=False)
    t.boson_psi = ctx.real("bt", (nf,))
    t.mol = NS(nboson_states=modes, nmodes=nm)
    w.boson_phiw = ctx.cplx("bw", (2, nf))
    w.ncomponents = 2
    old = w.boson_phiw
    L = ctx.sym("L", (1, 2, 2))
    h = ctx.sym("h", 2)
    p.build(n.array([h, h]), L, t, None)
    p.propagate_bosons(t, w, dt)
    off = 0
    for a in range(nm):
        for k in range(modes[a]):
            for zz in range(2):
                ctx.eq("free-boson", w.boson_phiw[zz][off + k], old[zz][off + k] * n.exp(-dt * p.system.boson_freq[a] * k))
        off += modes[a]
    # displacement expectation
    wk = blank(gw.Walkers_so)
    wk.verbose, wk.stdout = 0, Null()
    wk.nwalkers, wk.weights = 2, ctx.pos("wt", (2,))
    Q = wk.get_boson_bdag_plus_b(t, old)
    D, per_mode = wk.get_boson_dm(t, old)
    off = 0
    for a in range(nm):
        A = O.boson_a(ctx, modes[a])
        X = A + A.T
        s = slice(off, off + modes[a])
        for zz in range(2):
            v = old[zz][s]
            ctx.eq("density-matrix-block", D[zz][s, s], n.outer(v, n.conj(v)))
            ctx.eq("density-matrix-of-mode", per_mode[a][zz], n.outer(v, n.conj(v)))
            ctx.eq("modes-uncorrelated", D[zz][s, s.stop:], n.zeros((modes[a], nf - s.stop)))
            ctx.eq("modes-uncorrelated", D[zz][s.stop:, s], n.zeros((nf - s.stop, modes[a])))
        acc = ctx.num(0)
        for zz in range(2):
            v = old[zz][off:off + modes[a]]
            acc = acc + wk.weights[zz] * n.einsum("i,ij,j->", n.conj(v), X, v)
        ctx.eq("displacement-expectation", Q[a] * n.sum(wk.weights), acc)
        off += modes[a]


@scenario("P10", "decoupled_boson_step", quick=[dict(nf=2, order=2, scheme=1), dict(nf=2, order=2, scheme=2), dict(nf=3, order=1, scheme=2)],
          thorough=[dict(nf=3, order=3, scheme=1)],
          about="decoupled bosonic half: fields shared with the electrons, mean-field shifted Hamiltonian equals omega n + "
                "<L>L with -<L>^2/2 accounted for, walker -> Taylor exp(i sqrt(dt) (x-xbar) L_B), density-ratio and mean-shift factors",
          bounds="one mode, 2-3 Fock states, Taylor order 1-3, two walkers; fields and couplings symbolic, amplitudes fixed")
def dec_step(ctx):
    c = ctx.cfg
    n = ctx.np
    nf = c["nf"]
    sd = ctx.pos("sd")
    p = ebprop(ctx, 1, [nf], 1, dec=True, dt=sd * sd, taylor_order=c["order"])
    t, w = make(ctx, 2, 1, 1, 1, 2, tsym=False, wsym=False)
    w.ncomponents = 1
    g = ctx.sym("g", (1, 2, 2), lo=Fraction(1, 4))
    L = ctx.sym("L", (1, 2, 2))
    B = ctx.pos("B", (1,), lo=Fraction(1, 4))
    cb = tools.bilinear_decomposition(ctx.arr(np.ones(1)), B, g, c["scheme"])
    nx = cb[1].shape[0]
    lt = n.concatenate((L + 0j, cb[0]), axis=0)
    p.chol_bilinear = cb
    p.nbarefields = 1
    h = ctx.sym("h", 2)
    bt = np.array([2, 1, 1][:nf]) + 1j * np.array([1, 2, 0][:nf])
    t.boson_psi = ctx.arr(bt)
    w.boson_phiw = ctx.arr(np.array([[1, 2, 1][:nf], [3, 1, 2][:nf]]) + 1j * np.array([[1, 0, 1][:nf], [0, 1, 1][:nf]]))
    p.build(n.array([h, h]), lt, t, g)
    a = O.boson_a(ctx, nf)
    q = a + a.T
    rho = n.outer(t.boson_psi, n.conj(t.boson_psi))
    qm = n.sum(q * rho)
    om = p.system.boson_freq[0]
    Hb = n.zeros((nf, nf))
    for k in range(nf):
        Hb[k, k] = om * k
    sh = Hb
    for k in range(nx):
        sh = sh + cb[1][k] * qm * cb[1][k] * q
        ctx.eq("boson-mean-shift", p.boson_mfshift[k], 1j * cb[1][k] * qm)
    ctx.eq("shifted-boson-hamiltonian", p.shifted_Hb, sh)
    # electronic half: half the square of the bare fields only, mean shift of every field
    rf = 2 * n.outer(t.psia[:, 0], n.conj(t.psia[:, 0]))
    se = h - n.dot(L[0], L[0]) / 2
    for k in range(lt.shape[0]):
        se = se + n.sum(lt[k] * rf) * lt[k]
    ctx.eq("shifted-one-body", p.shifted_h1e[0], se)
    # the bound on the bias is another function's business: any rescaling of the components
    sc = ctx.pos("scale", (2, nx), lo=Fraction(1, 4), hi=1)
    p.rescale_fbias = lambda x: x * sc
    # the bosonic half step
    t.ovlp_with_walkers_gf(w)
    xi = ctx.real("xi", (2, nx))
    p.xi_bilinear = xi
    p.geb = g
    old = w.boson_phiw.copy()
    Gf = w.boson_Gf
    cfb, cmf = p.propagate_bosons_bilinear(t, w, p.dt)
    for z in range(2):
        s = O.vdot(ctx, t.boson_psi, old[z])
        v = [cb[1][k] * O.vdot(ctx, t.boson_psi, n.dot(q, old[z])) / s for k in range(nx)]
        xb = [-sd * (1j * v[k] - p.boson_mfshift[k]) * sc[z, k] for k in range(nx)]
        ctx.eq("density-ratio", cfb[z], sum(xi[z][k] * xb[k] - xb[k] * xb[k] / 2 for k in range(nx)))
        ctx.eq("mean-shift-factor", cmf[z], sum(-sd * (xi[z][k] - xb[k]) * p.boson_mfshift[k] for k in range(nx)))
        A = sum(1j * sd * (xi[z][k] - xb[k]) * cb[1][k] for k in range(nx))
        ref, term = old[z], old[z]
        for k in range(1, c["order"] + 1):
            term = A * n.dot(q, term) / k
            ref = ref + term
        ctx.eq("propagated-boson", w.boson_phiw[z], ref)


@scenario("P10", "shared_fields", quick=[dict(nbare=1, nx=3), dict(nbare=2, nx=2)],
          about="the bosonic half of a composite field uses the very random numbers drawn for its electronic half",
          bounds="2 walkers, 1-2 bare fields, 2-3 composite fields; all draws symbolic")
def shared_fields(ctx):
    c = ctx.cfg
    n = ctx.np
    nb, nx = c["nbare"], c["nx"]
    p = ebprop(ctx, 1, [2], 1, dec=True, dt=ctx.num(1), taylor_order=1)
    p.rescale_fbias = lambda x: x
    p.nfields, p.nbarefields = nb + nx, nb
    p.mf_shift = n.zeros(nb + nx)
    t, w = make(ctx, 2, 1, 1, 1, 2, tsym=False, wsym=False)
    w.ncomponents = 1
    L = ctx.sym("L", (nb + nx, 2, 2))
    t.ovlp_with_walkers_gf(w)
    t.half_rotate_integrals(n.array([L[0], L[0]]), L)
    draws = []
    rn = ctx.rand_normal

    def rec():
        draws.append(rn())
        return draws[-1]
    ctx.rand_normal = rec
    p.propagate_walkers_twobody(t, w, L)
    for z in range(2):
        for k in range(nx):
            ctx.eq("same-random-number", p.xi_bilinear[z][k], draws[z * (nb + nx) + nb + k])


@scenario("P10", "coupled_step", quick=[dict(ncomp=2, nm=1), dict(ncomp=1, nm=2), dict(ncomp=2, nm=1, again=True)],
          about="one coupled step: electrons feel h + sum_a <Q_a> g_a of the incoming boson state, bosons feel the coupling "
                "expectation of the incoming electrons, overlaps multiply, Strang splitting of the free-boson part",
          bounds="2 orbitals, 1-2 modes of 2 Fock states, 2 walkers; every one-body exponential is an uninterpreted function of "
                 "its argument; auxiliary-field step replaced by the identity", limit=300)
def coupled_step(ctx):
    c = ctx.cfg
    n = ctx.np
    nm = c["nm"]
    modes = [2] * nm
    nf = sum(modes)
    expm = __import__("scipy.linalg").linalg.expm if ctx.mode == "num" else __import__("vsym.shim", fromlist=["x"]).shim_scipy_linalg.expm
    dt = ctx.pos("dt")
    p = ebprop(ctx, nm, modes, c["ncomp"], dt=dt, taylor_order=1)
    t, w0 = make(ctx, 2, 1, 1, c["ncomp"], 2, tsym=False, wsym=False)
    t.boson_psi = concrete(ctx, (1, nf), 4)[0]
    t.psia = t.psia + 1j * ctx.arr(np.array([[1.0], [0.5]]))     # complex trial orbitals
    t.psib = t.psib - 1j * ctx.arr(np.array([[0.5], [2.0]])) if c["ncomp"] > 1 else t.psia
    t.psi = n.hstack([t.psia, t.psib]) if c["ncomp"] > 1 else t.psia
    t.mol = NS(nboson_states=modes, nmodes=nm)
    w = blank(gw.Walkers_so)
    w.verbose, w.stdout = 0, Null()
    for a, b in w0.__dict__.items():
        setattr(w, a, b)
    w.ncomponents = c["ncomp"]
    w.weights = ctx.arr(np.array([1, 2], dtype=float))
    w.boson_phiw = ctx.arr(np.array([[1, 2, 1, 3][:nf], [3, 1, 2, 1][:nf]], dtype=float)) + 0j
    g = ctx.sym("g", (nm, 2, 2))
    h, hb = ctx.sym("h", 2), ctx.sym("hb", 2)
    p.geb = g
    p.shifted_h1e = n.array([h, hb])
    Hb = n.zeros((nf, nf))
    for a in range(nm):
        Hb[2 * a + 1, 2 * a + 1] = p.system.boson_freq[a]
    p.Hb = Hb
    F = ctx.real("fac", (4, 2))
    fac = []
    bil = p.propagate_bosons_bilinear

    def bilinear(*a, **k):
        bil(*a, **k)
        fac.append(1)
        return F[2].copy(), F[3].copy()
    p.propagate_walkers_twobody = lambda tr_, wk, lt: (F[0].copy(), F[1].copy())
    p.propagate_bosons_bilinear = bilinear
    got = {}
    p.update_weight = lambda wk, o, no, cfb, cmf, es: got.update(o=o, n=no, cfb=cfb, cmf=cmf)
    a0, b0 = w.phiwa.copy(), (w.phiwb.copy() if c["ncomp"] > 1 else None)
    f0 = w.boson_phiw.copy()
    t.ovlp_with_walkers_gf(w)
    Ga = w.Ga.copy()
    Gb = w.Gb.copy() if c["ncomp"] > 1 else Ga
    L = n.zeros((1, 2, 2))
    if c.get("again"):          # a step of other walkers before
        w.phiwa, w.phiwb, w.boson_phiw = 2 * a0[::-1], b0[::-1] + a0, f0[::-1] + 1
        t.ovlp_with_walkers_gf(w)
        p.propagate_walkers(t, w, L, eshift=0.0)
        w.phiwa, w.phiwb, w.boson_phiw = a0.copy(), b0.copy(), f0.copy()
        t.ovlp_with_walkers_gf(w)
        del fac[:]
        got.clear()
    p.propagate_walkers(t, w, L, eshift=0.0)
    # the factors of both subsystems enter the weight
    ctx.eq("density-ratio-of-both", got["cfb"], F[0] + F[2] * len(fac))
    ctx.eq("mean-shift-of-both", got["cmf"], F[1] + F[3] * len(fac))
    # references
    X = ctx.arr(np.array([[0, 1.0], [1.0, 0]]))
    W = n.sum(w.weights)
    hq = [h, hb]
    for a in range(nm):
        Q = ctx.num(0)
        for z in range(2):
            v = f0[z][2 * a:2 * a + 2]
            Q = Q + w.weights[z] * n.einsum("i,ij,j->", n.conj(v), X, v) / W
        hq = [hq[0] + Q * g[a], hq[1] + Q * g[a]]
    E = [expm(-dt / 2 * hq[s]) for s in range(2)]
    rho = sum(w.weights[z] * (Ga[z] + Gb[z]) / W for z in range(2))
    D = n.zeros((nf, nf))
    if ctx.mode == "num":
        D = D.astype(complex)
    for a in range(nm):
        D[2 * a:2 * a + 2, 2 * a:2 * a + 2] = n.sum(rho * g[a]) * X
    Eb = expm(-dt * D)
    for z in range(2):
        ctx.eq("alpha", w.phiwa[z], n.dot(E[0], n.dot(E[0], a0[z])))
        if c["ncomp"] > 1:
            ctx.eq("beta", w.phiwb[z], n.dot(E[1], n.dot(E[1], b0[z])))
        half = n.array([n.exp(-dt / 2 * Hb[k, k]) for k in range(nf)])
        ctx.eq("boson", w.boson_phiw[z], half * n.dot(Eb, half * f0[z]))
        Sa = n.dot(n.conj(t.psia).T, a0[z])
        ref = O.det(ctx, Sa)
        ref = ref * (O.det(ctx, n.dot(n.conj(t.psib).T, b0[z])) if c["ncomp"] > 1 else ref)
        ctx.eq("overlap-before", got["o"][z], ref * O.vdot(ctx, t.boson_psi, f0[z]))
        Sa = n.dot(n.conj(t.psia).T, w.phiwa[z])
        ref = O.det(ctx, Sa)
        ref = ref * (O.det(ctx, n.dot(n.conj(t.psib).T, w.phiwb[z])) if c["ncomp"] > 1 else ref)
        ctx.eq("overlap-after", got["n"][z], ref * O.vdot(ctx, t.boson_psi, w.boson_phiw[z]))


# ------------------------------------------------------------------ P11
@scenario("P11", "orthonormalisation", quick=[dict(nao=2, na=1, nb=1, ncomp=2, nw=2, real=False), dict(nao=2, na=2, nb=1, ncomp=2, nw=1, real=True),
                                             dict(nao=3, na=1, nb=1, ncomp=1, nw=1, real=False)],
          thorough=[dict(nao=3, na=2, nb=1, ncomp=2, nw=1, real=True)],
          about="orbitals become orthonormal and span the same space; the factor taken out multiplies back to the old overlap "
                "magnitude and is accumulated; bosonic amplitudes keep their direction and become unit norm",
          bounds="2-3 orbitals, 1-2 electrons, 1-2 walkers; arbitrary real or complex full-rank walkers", limit=300)
def ortho(ctx):
    c = ctx.cfg
    n = ctx.np
    mk = ctx.real if c["real"] else ctx.cplx
    nw = c["nw"]
    before = ctx.real("lg", (nw,))                          # what earlier calls have accumulated
    w = NS(nwalkers=nw, ncomponents=c["ncomp"], phiwa=mk("wa", (nw, c["nao"], c["na"])),
           phiwb=mk("wb", (nw, c["nao"], c["nb"])) if c["ncomp"] > 1 else None,
           detR_shift=n.zeros(nw), log_detR=before + 0j, detR=n.ones(nw) + 0j, ovlp=ctx.cplx("ov", (nw,)), boson_phiw=ctx.cplx("b", (nw, 2)))
    if ctx.mode == "num" and c["real"]:
        w.phiwa = w.phiwa.astype(complex)
        w.phiwb = w.phiwb.astype(complex) if w.phiwb is not None else None
    old = [w.phiwa.copy(), w.phiwb.copy() if c["ncomp"] > 1 else None]
    ob, oo = w.boson_phiw.copy(), w.ovlp.copy()
    q = blank(qmc.QMCbase)
    q.walkers, q.verbose, q.stdout = w, 0, Null()
    qmc.QMCbase.orthogonalization(q)
    for z in range(nw):
        d2 = ctx.num(1)
        for lab, o, v in (("alpha", old[0], w.phiwa), ("beta", old[1], w.phiwb)):
            if v is None:
                continue
            QQ = n.dot(n.conj(v[z]).T, v[z])
            ctx.eq("orthonormal-" + lab, QQ, ctx.arr(np.eye(QQ.shape[0])), tol=1e-8)
            P = n.dot(v[z], n.dot(n.conj(v[z]).T, o[z]))
            ctx.eq("same-span-" + lab, P, o[z], tol=1e-8)
            d2 = d2 * O.det(ctx, n.dot(n.conj(o[z]).T, o[z]))
        ctx.eq("removed-factor", w.detR[z] * n.conj(w.detR[z]), d2, tol=1e-7)
        ctx.eq("overlap-bookkeeping", w.ovlp[z] * w.detR[z], oo[z], tol=1e-8)
        ctx.eq("accumulated-factor", n.exp(w.log_detR[z] - before[z]), w.detR[z], tol=1e-8)
        ctx.eq("boson-norm", n.sum(w.boson_phiw[z] * n.conj(w.boson_phiw[z])), 1, tol=1e-8)
        x = w.boson_phiw[z]
        ctx.eq("boson-direction", x[0] * ob[z][1], x[1] * ob[z][0], tol=1e-8)


# ------------------------------------------------------------------ P12
@scenario("P12", "run_time_averages", quick=[dict(freq=1, steps=2), dict(freq=2, steps=4), dict(freq=3, steps=3)], thorough=[dict(freq=3, steps=6)],
          about="the energy shift fed back equals the weight-averaged hybrid energy over exactly the steps of the last block",
          bounds="2 walkers, blocks of 1-3 steps, 1-2 blocks; arbitrary positive weights and real energies")
def averages(ctx):
    c = ctx.cfg
    n = ctx.np
    q = blank(qmc.QMCbase)
    q.verbose, q.stdout = 0, Null()
    q.stacked_variables = ["weights", "unscaled_weights", "walker_hybrid_energies", "walker_local_energies"]
    q.property_buffer = n.zeros(4, dtype=complex)
    q.property_calc_freq = c["freq"]
    q.eshift = 0.0
    blk = []
    q.property_stack(NS(weights=n.ones(1)), -1)
    for s in range(c["steps"]):
        w = NS(weights=ctx.pos("w%d" % s, (2,)), weights_org=ctx.pos("u%d" % s, (2,)), ehybrid=ctx.real("e%d" % s, (2,)),
               eloc=ctx.real("l%d" % s, (2,)), _mpi=fake_mpi())
        prev = q.eshift
        q.property_stack(w, s)
        blk.append(w)
        if (s + 1) % c["freq"] == 0:
            num = sum(n.sum(x.ehybrid * x.weights) for x in blk)
            den = sum(n.sum(x.weights) for x in blk)
            ctx.eq("block-average", q.eshift * den, num)
            ctx.eq("buffer-cleared", q.property_buffer, 0)
            blk = []
        else:
            ctx.eq("shift-kept", q.eshift, prev)


@scenario("P12", "mean_of_tail", quick=[dict(n=3, N=10), dict(n=4, N=2), dict(n=5, N=5)], thorough=[dict(n=7, N=3)],
          about="mean and spread of the last 1/N of the series (at least one value)",
          bounds="series of 3-7 arbitrary complex values")
def mean_tail(ctx):
    n = ctx.np
    c = ctx.cfg
    e = ctx.cplx("e", (c["n"],))
    m, s = tools.get_mean_std(e, c["N"])
    k = max(1, c["n"] // c["N"])
    t = [n.real(x) for x in e[c["n"] - k:]]
    mu = sum(t) / k
    ctx.eq("mean", m, mu)
    ctx.eq("variance", s * s, sum((x - mu) * (x - mu) for x in t) / k)
    ctx.ge("spread-non-negative", s, 0)


@scenario("P12", "autocorrelation", quick=[dict(n=2), dict(n=3), dict(n=4)],
          about="normalised autocorrelation is sum_i dx_i dx_{i+k} / sum_i dx_i^2 (no wrap-around), value one at lag zero",
          bounds="series of 2-4 arbitrary real values")
def autocorr(ctx):
    n = ctx.np
    N = ctx.cfg["n"]
    x = ctx.real("x", (N,))
    a = tools.autocorr_func(x)
    mu = n.sum(x) / N
    d = [x[i] - mu for i in range(N)]
    var = sum(v * v for v in d)
    ctx.eq("length", len(a), N)
    for k in range(N):
        ctx.eq("lag", a[k] * var, sum(d[i] * d[i + k] for i in range(N - k)))


@scenario("P12", "blocking", quick=[dict(n=4, bs=2), dict(n=5, bs=2), dict(n=4, bs=1), dict(n=6, bs=3)],
          about="reported mean is the mean of the complete blocks, its error their spread over sqrt(blocks)",
          bounds="4-6 arbitrary values, block size 1-3 (the autocorrelation estimate is replaced by the block size)")
def blocking(ctx):
    n = ctx.np
    c = ctx.cfg
    y = ctx.real("y", (c["n"],), lo=-1, hi=1)
    ctx.patch(tools, "get_autocorr_time", lambda *a, **k: c["bs"] - 0.5 if c["bs"] > 1 else 1.0)
    ctx.patch(tools, "remove_outliers", lambda d, **k: d)
    r = tools.analysis_autocorr(y, name="etot")
    nb = c["n"] // c["bs"]
    b = [sum(y[i * c["bs"] + j] for j in range(c["bs"])) / c["bs"] for i in range(nb)]
    mu = sum(b) / nb
    ctx.eq("mean", r["etot"][0], mu)
    ctx.eq("error", r["etot_error"][0] ** 2 * nb, sum((x - mu) * (x - mu) for x in b) / nb)
    ctx.eq("samples", r["etot_nsamp"][0], nb)
    ctx.eq("block-size", r["ac_sampsize"][0], c["bs"])


@scenario("P12", "autocorrelation_time", quick=[dict(n=3), dict(n=5)], thorough=[dict(n=7)],
          about="the integrated autocorrelation time is 1 + 2 sum of the autocorrelations up to the first lag that is at least c times the time summed so far",
          bounds="series of 3-5 (thorough 7) values with any autocorrelations (zero lag one, full sum zero as for every mean-free series), window factor any in [1, 6]")
def autocorrelation_time(ctx):
    n = ctx.np
    N = ctx.cfg["n"]
    a = ctx.real("a", (N - 2,), lo=-1, hi=1)
    acf = n.ones(N) * ctx.num(1)
    for k in range(N - 2):
        acf[k + 1] = a[k]
    acf[N - 1] = -sum(a[k] for k in range(N - 2)) - 0.5
    ctx.patch(tools, "autocorr_func", lambda *x, **k: acf.copy())
    c = ctx.real("c", lo=1, hi=6)
    got = tools.get_autocorr_time(n.zeros(N), c)
    tau, ref = ctx.num(1), None
    for k in range(N):
        if k:
            tau = tau + 2 * acf[k]
        if not bool(k < c * tau):
            ref = tau
            break
    ctx.true("window-exists", ref is not None)
    ctx.eq("time", got, ref)
    got5 = tools.get_autocorr_time(n.zeros(N))
    tau, ref = ctx.num(1), None
    for k in range(N):
        if k:
            tau = tau + 2 * acf[k]
        if not bool(k < 5 * tau):
            ref = tau
            break
    ctx.eq("default-window-factor", got5, ref)


@scenario("P12", "outliers", quick=[dict(n=3)],
          about="the z-score filter keeps exactly the values within threshold standard deviations, in order",
          bounds="3 arbitrary values, arbitrary threshold in [1/2, 2]")
def outliers(ctx):
    n = ctx.np
    N = ctx.cfg["n"]
    x = ctx.real("x", (N,), lo=-3, hi=3)
    th = ctx.real("th", lo=Fraction(1, 2), hi=2)
    mu = n.sum(x) / N
    var = sum((x[i] - mu) * (x[i] - mu) for i in range(N)) / N
    ctx.assume(var > Fraction(1, 10) if ctx.mode == "sym" else var > 0.1)
    keep = [x[i] for i in range(N) if bool((x[i] - mu) * (x[i] - mu) < th * th * var)]
    r = tools.remove_outliers(x, threshold=th)
    ctx.eq("count", len(r), len(keep))
    if len(r) == len(keep):
        for a, b in zip(r, keep):
            ctx.eq("value", a, b)


@scenario("P12", "outliers_by_quartiles", quick=[dict(order=(2, 0, 3, 1)), dict(order=(4, 1, 0, 3, 2))], thorough=[dict(order=(5, 1, 0, 3, 2, 4))],
          about="the interquartile filter keeps exactly the values within threshold times the interquartile range of the quartiles, in order",
          bounds="4-5 (thorough 6) values in a fixed unsorted order of sizes, threshold 3/2 and 1/2")
def outliers_iqr(ctx):
    n = ctx.np
    order = ctx.cfg["order"]
    N = len(order)
    v = ctx.real("v", (N,), lo=-3, hi=3)
    for i in range(N - 1):
        ctx.assume(v[i + 1] > v[i])
    x = n.array([v[k] for k in order])

    def q(p):
        pos = Fraction(p * (N - 1), 4)
        i = int(pos)
        f = pos - i if ctx.mode == "sym" else float(pos - i)
        return v[i] if pos == i else v[i] + (v[i + 1] - v[i]) * f
    iqr = q(3) - q(1)
    for th in (1.5, 0.5):
        r = tools.remove_outliers(x, method="iqr", threshold=th)
        keep = [a for a in x if bool(a >= q(1) - th * iqr) and bool(a <= q(3) + th * iqr)]
        ctx.true("count", len(r) == len(keep))
        if len(r) == len(keep):
            for a, b in zip(r, keep):
                ctx.eq("value", a, b)



# ------------------------------------------------------------------ P13
@scenario("P13", "coherent_trial", quick=[dict(modes=(2,)), dict(modes=(3, 2))], thorough=[dict(modes=(4, 3))],
          about="the bosonic trial is normalised and its amplitudes satisfy a|alpha> = alpha|alpha> within each mode's truncated "
                "space, modes keeping their relative coherent weights",
          bounds="1-2 modes, 2-4 Fock states; arbitrary real displacements")
def coherent_trial(ctx):
    n = ctx.np
    modes = list(ctx.cfg["modes"])
    z = ctx.real("z", (len(modes),))
    v = tr.initialize_boson_trial_with_z(z, modes)
    ctx.eq("length", len(v), sum(modes))
    ctx.eq("normalised", n.sum(v * v), 1)
    off = 0
    for a, m in enumerate(modes):
        for k in range(m - 1):
            ctx.eq("lowering", n.sqrt(ctx.num(k + 1)) * v[off + k + 1], z[a] * v[off + k])
        if a:
            o2 = sum(modes[:a])
            ctx.eq("relative-weight", v[o2] * n.exp(-z[0] * z[0] / 2), v[0] * n.exp(-z[a] * z[a] / 2))
        off += m


@scenario("P13", "product_fock_trial", quick=[dict(nm=1, nf=3), dict(nm=2, nf=2)], thorough=[dict(nm=2, nf=3)],
          about="multi-mode coherent amplitudes factorise over modes with normalised single-mode coefficients",
          bounds="1-2 modes, 2-3 Fock states; arbitrary real displacements")
def product_trial(ctx):
    n = ctx.np
    nm, nf = ctx.cfg["nm"], ctx.cfg["nf"]
    al = ctx.real("al", (nm,))
    t = tb.TrivialFock(nm, nf)
    t.build(alpha=al)
    ctx.eq("dimension", len(t.boson_psi), nf ** nm)
    import math
    for k, idx in enumerate(np.ndindex(*(nf,) * nm)):
        r = ctx.num(1)
        for a, i in enumerate(idx):
            r = r * n.exp(-al[a] * al[a] / 2) * al[a] ** i / n.sqrt(ctx.num(math.factorial(i)))
        ctx.eq("amplitude", t.boson_psi[k], r)


@scenario("P13", "oscillator_trial", quick=[dict(n=1), dict(n=2)],
          about="gradient and laplacian of the Gaussian trial are its logarithmic derivatives; the local energy of the exact "
                "ground state is zero (zero-point removed), in position and momentum representation",
          bounds="1-2 sites; arbitrary positions, mass, frequency, shift")
def oscillator(ctx):
    n = ctx.np
    N = ctx.cfg["n"]
    m, w = ctx.pos("m"), ctx.pos("w")
    s = ctx.real("s", (N,))
    x = ctx.real("x", (N,))
    h = ctx.real("h", lo=Fraction(1, 2), hi=2)
    for cls, val, kw in ((tb.TrialQ, "qvalue", "qshift"), (tb.TrialP, "pvalue", "pshift")):
        t = blank(type("T", (cls,), {"force_bias": lambda self, w: None}))
        t.mass, t.freq, t.mw = m, w, m * w
        setattr(t, kw, s)
        g = t.gradient(x)
        lap = t.laplacian(x)
        for i in range(N):
            d = n.zeros(N)
            d[i] = h
            f = getattr(t, val)
            ctx.eq("gradient", (n.log(f(x + d)) - n.log(f(x - d))) / (2 * h), g[i], tol=1e-6)
            dg = (t.gradient(x + d)[i] - t.gradient(x - d)[i]) / (2 * h)
            ctx.eq("laplacian", lap[i], g[i] * g[i] + dg)
        setattr(t, kw, 0 * s)
        ctx.eq("ground-state-energy", t.local_energy(x), 0, tol=1e-7)


@scenario("P13", "molecular_trial", quick=[dict(nmo=3, na=2, nb=1, ncomp=2), dict(nmo=3, na=1, nb=1, ncomp=1)],
          about="without orthogonalised atomic orbitals the trial consists of the lowest nalpha / nbeta molecular orbitals",
          bounds="3 orbitals, (2,1) and (1,1) electrons")
def mo_trial(ctx):
    c = ctx.cfg
    n = ctx.np
    t = blank(tr.TrialHF)
    t.verbose, t.stdout, t.OAO = 0, Null(), False
    t.nalpha, t.nbeta, t.ncomponents, t.nao = c["na"], c["nb"], c["ncomp"], c["nmo"]
    occ = np.zeros(c["nmo"])
    occ[:max(c["na"], c["nb"])] = 2
    C = ctx.real("C", (c["nmo"], c["nmo"]))
    t.mf = NS(mo_coeff=C, mo_occ=occ)
    t.build()
    I = np.eye(c["nmo"])
    ctx.eq("alpha-orbitals", t.psia, I[:, :c["na"]])
    if c["ncomp"] > 1:
        ctx.eq("beta-orbitals", t.psib, I[:, :c["nb"]])
        ctx.eq("green-function-beta", t.Gf[1], I[:, :c["nb"]] @ I[:, :c["nb"]].T)
    ctx.eq("green-function", t.Gf[0], I[:, :c["na"]] @ I[:, :c["na"]].T)
    ctx.true("symbolic-input-used", C.shape[0] == c["nmo"])
