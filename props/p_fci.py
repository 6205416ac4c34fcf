"""P23: cavity full configuration interaction"""
import itertools
from .common import *
from vsym.registry import scenario
import openms.mqed.qedfci as qf


class Space:
    """alpha strings x beta strings x Fock states; strings are ordered by their integer representation"""

    def __init__(self, ctx, norb, nelec, nb):
        self.ctx, self.norb, self.nb = ctx, norb, list(nb)
        st = lambda k: sorted(itertools.combinations(range(norb), k), key=lambda o: sum(1 << i for i in o))
        self.A, self.B = st(nelec[0]), st(nelec[1])
        self.dets = [tuple(a) + tuple(norb + i for i in b) for a in self.A for b in self.B]
        self.ix = {d: k for k, d in enumerate(self.dets)}
        self.nd = len(self.dets)
        self.fock = list(itertools.product(*[range(m + 1) for m in nb]))
        self.fx = {f: k for k, f in enumerate(self.fock)}
        self.shape = (len(self.A), len(self.B)) + tuple(m + 1 for m in nb)

    def string(self, ops, d):
        s, d = 1, list(d)
        for p, c in reversed(ops):
            if c:
                if p in d:
                    return None
                k = sum(1 for x in d if x < p)
                d.insert(k, p)
            else:
                if p not in d:
                    return None
                k = d.index(p)
                d.pop(k)
            s *= (-1) ** k
        return tuple(d), s

    def one(self, h):
        """sum_pq,spin h_pq a^+ a as a matrix over determinants"""
        n = self.norb
        M = self.ctx.np.zeros((self.nd, self.nd))
        for j, d in enumerate(self.dets):
            for o in (0, n):
                for p in range(n):
                    for q in range(n):
                        t = self.string([(p + o, 1), (q + o, 0)], d)
                        if t:
                            M[self.ix[t[0]], j] += h[p, q] * t[1]
        return M

    def two(self, v):
        """1/2 sum (pq|rs) p^+ r^+ s q; v(spin1, spin2) are the chemist integrals"""
        n = self.norb
        M = self.ctx.np.zeros((self.nd, self.nd))
        for j, d in enumerate(self.dets):
            for x in (0, 1):
                for y in (0, 1):
                    for p, q, r, s in np.ndindex(n, n, n, n):
                        t = self.string([(p + n * x, 1), (r + n * y, 1), (s + n * y, 0), (q + n * x, 0)], d)
                        if t:
                            M[self.ix[t[0]], j] += v(x, y)[p, q, r, s] * t[1] / 2
        return M

    def vec(self, c):
        return c.reshape(self.nd, len(self.fock))

    def apply(self, c, El=None, G=(), W=None, X=None):
        """El on the electrons, sum_x G_x (b_x + b_x^+), sum W_xy b_x^+ b_y, sum X_x (b_x + b_x^+)"""
        n = self.ctx.np
        v = self.vec(c)
        out = n.zeros(v.shape)
        if El is not None:
            out = out + n.dot(El, v)
        for m in range(len(self.nb)):
            if len(G) or X is not None:
                y = self.cre(v, m) + self.des(v, m)
                if len(G):
                    out = out + n.dot(G[m], y)
                if X is not None:
                    out = out + X[m] * y
            if W is not None:
                y = self.des(v, m)
                for k in range(len(self.nb)):
                    out = out + W[k, m] * self.cre(y, k)
        return out.reshape(-1)

    def cre(self, v, m):
        n = self.ctx.np
        o = n.zeros(v.shape)
        for k, f in enumerate(self.fock):
            g = list(f)
            g[m] += 1
            if tuple(g) in self.fx:
                o[:, self.fx[tuple(g)]] += v[:, k] * n.sqrt(self.ctx.num(g[m]))
        return o

    def des(self, v, m):
        n = self.ctx.np
        o = n.zeros(v.shape)
        for k, f in enumerate(self.fock):
            g = list(f)
            g[m] -= 1
            if g[m] >= 0:
                o[:, self.fx[tuple(g)]] += v[:, k] * n.sqrt(self.ctx.num(f[m]))
        return o


def quiet(ctx):
    if ctx.mode == "sym":
        ctx.patch(qf.ao2mo, "restore", lambda s, e, nb, tao=None: e.reshape((nb,) * 4))


def ham(ctx, norb, nm, w2):
    h = ctx.sym("h", norb)
    v = ctx.eri8("v", norb)
    g = ctx.sym("g", (nm, norb, norb))
    w = ctx.pos("w", (nm,), lo=Fraction(1, 2), hi=2)
    W = ctx.np.zeros((nm, nm))
    for m in range(nm):
        W[m, m] = w[m]
    if w2:
        u = ctx.real("w2", (nm, nm), lo=Fraction(-1, 10), hi=Fraction(1, 10))
        for a in range(nm):
            for b in range(a):
                W[a, b] = W[b, a] = u[a, b]
    return h, v, g, w, W


def cfgs(*l):
    return [dict(norb=a, nelec=b, nb=c, **k) for a, b, c, k in l]


@scenario("P23", "hamiltonian",
          quick=cfgs((2, (1, 1), [1], {}), (2, (1, 1), [1, 1], {}), (2, (1, 1), [2, 1], dict(w2=True)), (2, (1, 1), [2], dict(coh=True)), (2, (1, 0), [1, 2], dict(coh=True, w2=True)),
                     (3, (2, 1), [1], {}), (2, (1, 1), [1, 1], dict(coh=True, roots=2)), (2, (2, 1), [3], {})),
          thorough=cfgs((3, (2, 1), [1, 1], dict(coh=True)), (3, (1, 1), [2], {}), (3, (2, 2), [1], dict(coh=True)), (2, (1, 1), [1, 1, 1], dict(w2=True, coh=True)), (4, (2, 1), [1], {}),
                        (2, (1, 1), [3, 2], {})),
          about="the linear map handed to the eigensolver is the matrix of the electron-boson Hamiltonian (one- and two-electron part, mode frequencies and mode-mode hopping, "
                "electron-boson coupling, optionally in the coherent-state frame) in the product space, and the returned energy is the eigenvalue plus the core and displacement energy",
          bounds="2-3 (thorough 4) orbitals, 1-3 modes, 1-3 photons per mode, symmetric real integrals, arbitrary vector; the eigensolver is a stub returning an arbitrary answer")
def hamiltonian(ctx):
    c = ctx.cfg
    n = ctx.np
    norb, nel, nb = c["norb"], tuple(c["nelec"]), list(c["nb"])
    nm = len(nb)
    quiet(ctx)
    h, v, g, w, W = ham(ctx, norb, nm, c.get("w2"))
    sp = Space(ctx, norb, nel, nb)
    N = sp.nd * len(sp.fock)
    x = ctx.real("c", (N,))
    e0 = ctx.real("e0", ())
    ecore = ctx.real("ecore", ())
    roots = c.get("roots", 1)
    ecis = ctx.real("e", (roots,)) if roots > 1 else ctx.real("e", ())
    dm = ctx.sym("dm", norb)
    cel = [NS(k=k) for k in range(roots)]
    seen = {}
    from pyscf.fci import direct_spin1 as ds
    def elec(h1, h2, no, ne, **k):
        seen["el"] = (h1, h2, no, ne, k)
        return e0, (cel if roots > 1 else cel[0])
    ctx.patch(ds, "kernel", elec)

    def rdm1(ci, no, ne, **k):
        seen["dm"] = ci
        return dm.copy()
    ctx.patch(ds, "make_rdm1", rdm1)

    def dav(aop, x0, precond, **k):
        seen["x0"], seen["k"] = x0, k
        seen["y"] = aop(x.copy())
        return ecis, "state"
    ctx.patch(qf.lib, "davidson", dav)
    ctx.patch(qf.lib, "make_diag_precond", lambda *a, **k: None)
    ctx.patch(qf, "print", lambda *a, **k: None)
    hin, vin = h.copy(), v.copy()
    init = ctx.real("x0", sp.shape)
    kw = dict(init_ci=init.copy()) if not c.get("coh") else {}
    E0, E, st = qf.kernel(hin, vin, norb, nel, nm, np.array(nb), g.copy(), (W if c.get("w2") else w).copy(), ecore=ecore, nroots=roots, coherent_state=bool(c.get("coh")), **kw)
    ctx.true("state", st == "state")
    ctx.eq("electronic-integrals", seen["el"][0], h)
    ctx.eq("electronic-integrals-2", seen["el"][1].reshape((norb,) * 4), v)
    ctx.eq("electronic-core", seen["el"][4]["ecore"], ecore)
    ctx.true("roots", seen["k"].get("nroots") == roots)
    ctx.eq("callers-integrals", hin, h)
    ctx.eq("callers-integrals", vin, v)
    ctx.eq("electronic-energy", E0, e0)
    if kw:
        ctx.eq("initial-state", seen["x0"], init.reshape(-1))
    G = [sp.one(g[m]) for m in range(nm)]
    hh, X, ez = h, None, ctx.num(0)
    if c.get("coh"):
        ctx.true("density-of-the-ground-state", seen["dm"] is cel[0])
        z = -n.linalg.solve(W, n.array([sum(g[m, p, q] * dm[q, p] for p in range(norb) for q in range(norb)) for m in range(nm)]))
        X = n.dot(W, z)
        ez = sum(z[a] * W[a, b] * z[b] for a in range(nm) for b in range(nm))
        hh = h + 2 * sum(z[m] * g[m] for m in range(nm))
    El = sp.one(hh) + sp.two(lambda a, b: v)
    ctx.eq("hamiltonian", seen["y"], sp.apply(x, El, G, W, X))
    ctx.eq("energy", E, ecis + ecore + ez)


@scenario("P23", "contractions", quick=cfgs((2, (1, 1), [1], {}), (2, (1, 1), [2, 1], dict(w2=True)), (3, (2, 1), [1], {}), (2, (1, 0), [2, 2], {}), (2, (2, 1), [1], {}), (3, (1, 2), [1], {})),
          thorough=cfgs((3, (1, 1), [2], {}), (3, (2, 2), [1], {}), (3, (2, 1), [1, 2], dict(w2=True)), (2, (1, 1), [1, 1, 1], dict(w2=True))),
          about="each contraction (one-electron, two-electron with common or spin-resolved integrals, on-site repulsion, electron-boson, boson-boson with displacement, single photon "
                "creation and annihilation) is the corresponding operator, and the density matrices are its expectation values",
          bounds="2-3 orbitals, 1-3 modes, 1-2 photons per mode, arbitrary vectors and integrals")
def contractions(ctx):
    c = ctx.cfg
    n = ctx.np
    norb, nel, nb = c["norb"], tuple(c["nelec"]), list(c["nb"])
    nm = len(nb)
    quiet(ctx)
    h, v, g, w, W = ham(ctx, norb, nm, c.get("w2"))
    h = ctx.real("hgen", (norb, norb))
    sp = Space(ctx, norb, nel, nb)
    ctx.true("shape", tuple(qf.fboson_ci_shape(norb, nel, nm, np.array(nb))) == sp.shape)
    x = ctx.real("c", sp.shape)
    a = (norb, nel, nm, np.array(nb))
    flat = lambda y: y.reshape(-1)
    ctx.eq("one-electron", flat(qf.contract_1e(h, x.copy(), *a)), sp.apply(x, sp.one(h)))
    # E_pq E_rs (not normal ordered)
    pair = lambda vv: sp.two(vv)
    EE = sp.two(lambda s, t: v * 2) + sp.one(n.einsum("pqqs->ps", v))
    ctx.eq("two-electron", flat(qf.contract_2e(v.copy(), x.copy(), *a)), sp.apply(x, EE))
    ctx.eq("two-electron-spin0", flat(qf.contract_2e_spin0(v.copy(), x.copy(), *a)), sp.apply(x, EE))
    if norb == 2:
        # the alpha-beta integrals need not be symmetric in the exchange of their pairs
        va, vab, vb = v, ctx.eri8("vab", norb) + ctx.sym("pa", norb)[:, :, None, None] * ctx.sym("pb", norb), ctx.eri8("vb", norb)
        vba = vab.transpose(2, 3, 0, 1)
        M = sp.two(lambda s, t: 2 * (va if s == t == 0 else vb if s == t else vab if s == 0 else vba))
        only = lambda m, o: (lambda n_: _spin_one(ctx, sp, m, o))(0)
        M = M + only(n.einsum("pqqs->ps", va), 0) + only(n.einsum("pqqs->ps", vb), 1)
        ctx.eq("two-electron-spin-resolved", flat(qf.contract_2e([va.copy(), vab.copy(), vb.copy()], x.copy(), *a)), sp.apply(x, M))
    u = ctx.real("u", ())
    U = n.zeros((norb,) * 4)
    for i in range(norb):
        U[i, i, i, i] = u
    ctx.eq("on-site", flat(qf.contract_2e_hubbard(u, x.copy(), *a)), sp.apply(x, sp.two(lambda s, t: U)))
    ua, ub = ctx.real("ua", ()), ctx.real("ub", ())
    ctx.eq("on-site-spin-resolved", flat(qf.contract_2e_hubbard((ua, u, ub), x.copy(), *a)), sp.apply(x, sp.two(lambda s, t: U)))
    h2 = qf.absorb_h1e(h, v.copy(), norb, nel, Fraction(1, 2) if ctx.mode == "sym" else 0.5)
    ctx.eq("absorbed", flat(qf.contract_2e(h2, x.copy(), *a)), sp.apply(x, sp.one(h) + sp.two(lambda s, t: v)))
    G = [sp.one(g[m]) for m in range(nm)]
    ctx.eq("electron-boson", flat(qf.contract_eb(g.copy(), x.copy(), *a)), sp.apply(x, None, G))
    z = ctx.real("z", (nm,))
    WW = W if c.get("w2") else w
    ctx.eq("boson-boson", flat(qf.contract_bb(WW.copy(), x.copy(), *a)), sp.apply(x, None, (), W))
    ctx.eq("boson-boson-displaced", flat(qf.contract_bb(WW.copy(), x.copy(), *a, zalpha=z.copy())), sp.apply(x, None, (), W, n.dot(W, z)))
    for m in range(nm):
        ctx.eq("create", flat(qf.cre_boson(x.copy(), *a, m)), flat(sp.cre(sp.vec(x), m)))
        ctx.eq("annihilate", flat(qf.des_boson(x.copy(), *a, m)), flat(sp.des(sp.vec(x), m)))
    # density matrices
    xv = flat(x)
    D = n.zeros((norb, norb))
    unit = lambda p, q: n.array([[ctx.num(int((i, j) == (p, q))) for j in range(norb)] for i in range(norb)])
    E = {(p, q): sp.one(unit(p, q)) for p in range(norb) for q in range(norb)}
    av = lambda M: n.dot(xv, sp.apply(x, M))
    for p, q in E:
        D[p, q] = av(E[p, q])
    ctx.eq("density-matrix", qf.make_rdm1e(x.copy(), norb, nel), D)
    d1, d2 = qf.make_rdm12e(x.copy(), norb, nel)
    D2 = n.zeros((norb,) * 4)
    for p, q, r, s in np.ndindex(*D2.shape):
        D2[p, q, r, s] = av(n.dot(E[p, q], E[r, s])) - (D[p, s] if q == r else 0)
    ctx.eq("density-matrix-12", d1, D)
    ctx.eq("pair-density-matrix", d2, D2)
    P = n.zeros((nm, nm))
    for i in range(nm):
        for j in range(nm):
            P[i, j] = n.dot(flat(sp.des(sp.vec(x), i)), flat(sp.des(sp.vec(x), j)))
    ctx.eq("photon-density-matrix", qf.make_rdm1p(x.copy(), *a), P)


def _spin_one(ctx, sp, m, spin):
    """one-body operator on a single spin species"""
    n = sp.norb
    M = ctx.np.zeros((sp.nd, sp.nd))
    for j, d in enumerate(sp.dets):
        for p in range(n):
            for q in range(n):
                t = sp.string([(p + n * spin, 1), (q + n * spin, 0)], d)
                if t:
                    M[sp.ix[t[0]], j] += m[p, q] * t[1]
    return M
