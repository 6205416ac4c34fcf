"""P05 force-bias bound, P06 mean-field shift, P07 propagation and importance factors, P08 weight update"""
from .common import *
from . import oracle as O
from vsym.registry import scenario

import openms.qmc.propagators as pr
import openms.qmc.trial as tr
from .p_trial import make


def prop(cls=None, dt=None, **k):
    p = blank(cls or pr.Phaseless)
    pr.PropagatorBase.__init__(p, dt=0.01)
    p.verbose, p.stdout = 0, Null()
    p.dt = dt if dt is not None else 0.01
    for a, b in k.items():
        setattr(p, a, b)
    return p


# ------------------------------------------------------------------ P05
@scenario("P05", "force_bias_bound", quick=[dict(nw=1, nf=1, cx=True), dict(nw=1, nf=3, cx=False), dict(nw=2, nf=1, cx=False)],
          thorough=[dict(nw=2, nf=2, cx=False)],
          about="after rescaling no component exceeds the configured bound in modulus, its direction is kept, "
                "components within the bound are untouched, and the trigger counter counts exactly the changed ones",
          bounds="1-2 walkers, 1-3 fields; arbitrary (complex or real) bias and arbitrary positive bound")
def fbias(ctx):
    c = ctx.cfg
    n = ctx.np
    B = ctx.pos("bound", lo=Fraction(1, 10 ** 6))
    x = (ctx.cplx if c["cx"] else ctx.real)("x", (c["nw"], c["nf"]))
    p = prop(bias_bound=B, nfbound=5)
    y = p.rescale_fbias(x.copy())
    cnt = 0
    for i in np.ndindex(c["nw"], c["nf"]):
        m2 = (x[i] * n.conj(x[i])).real
        big = bool(m2 > B * B)
        cnt += big
        if not big:
            ctx.eq("unchanged-within-bound", y[i], x[i])
        else:
            y2 = (y[i] * n.conj(y[i])).real
            ctx.ge("bounded", B * B - y2 + ctx.num(Fraction(1, 10 ** 9)), 0)
            # same direction: y conj(x) is real and non-negative
            z = y[i] * n.conj(x[i])
            ctx.eq("same-direction", n.imag(z), 0)
            ctx.ge("same-sense", n.real(z), 0)
            ctx.eq("saturated", y2, B * B, tol=1e-9)
    ctx.eq("trigger-count", p.nfbound, cnt + 5)


@scenario("P05", "default_bound", about="the default bound is one", bounds="default construction")
def fbias_default(ctx):
    p = pr.Phaseless(0.01)
    ctx.eq("bound", p.bias_bound, 1)
    x = ctx.real("x", (1, 1))
    p.verbose, p.stdout = 0, Null()
    y = p.rescale_fbias(x.copy())
    ctx.ge("bounded", 1 - y[0, 0] * y[0, 0] + ctx.num(Fraction(1, 10 ** 9)), 0)


# ------------------------------------------------------------------ P06
def build(ctx, c, cls=None, dt=None, **kw):
    t, w = make(ctx, c["nao"], c["na"], c["nb"], c["ncomp"], c["nw"], tsym=c.get("t", False), wsym=c.get("w", False), treal=True)
    h = ctx.sym("h", c["nao"])
    hb = ctx.sym("hb", c["nao"]) if c["ncomp"] > 1 else h
    L = ctx.sym("L", (c["nchol"], c["nao"], c["nao"]))
    p = prop(cls, dt=dt if dt is not None else ctx.pos("dt"), **kw)
    h1e = ctx.np.array([h, hb])
    return p, t, w, h1e, L


@scenario("P06", "shifted_one_body", quick=[dict(nao=2, na=1, nb=1, ncomp=2, nw=1, nchol=2, t=True), dict(nao=3, na=2, nb=1, ncomp=2, nw=1, nchol=2, t=True),
                                           dict(nao=3, na=2, nb=2, ncomp=1, nw=1, nchol=1, t=True)],
          thorough=[dict(nao=4, na=2, nb=2, ncomp=2, nw=1, nchol=3, t=True)],
          about="mean-field shift is i<L>, shifted one-body term = h - LL/2 + <L>L, half-step propagator is its exponential",
          bounds="2-4 orbitals, 1-3 Cholesky vectors; arbitrary symmetric integrals, real trial, time step")
def mfshift(ctx):
    c = ctx.cfg
    n = ctx.np
    p, t, w, h1e, L = build(ctx, c)
    p.build(h1e, L, t)
    Da = n.dot(t.psia, t.psia.T)
    Db = n.dot(t.psib, t.psib.T) if c["ncomp"] > 1 else Da
    # reference with plain loops
    nao = c["nao"]
    for g in range(c["nchol"]):
        m = ctx.num(0)
        for a in range(nao):
            for b in range(nao):
                m = m + L[g][a, b] * (Da[a, b] + Db[a, b])
        ctx.eq("mf-shift", p.mf_shift[g], 1j * m)
    for s in range(2):
        for a in range(nao):
            for b in range(nao):
                x = h1e[s][a, b]
                for g in range(c["nchol"]):
                    m = n.sum(L[g] * (Da + Db))
                    x = x + m * L[g][a, b]
                    for r in range(nao):
                        x = x - L[g][a, r] * L[g][r, b] / 2
                ctx.eq("shifted-h1e", p.shifted_h1e[s][a, b], x)


@scenario("P06", "hamiltonian_identity", quick=[dict(nao=2, na=1, nb=1, ncomp=2, nw=1, nchol=2), dict(nao=2, na=1, nb=1, ncomp=1, nw=1, nchol=1)],
          about="sum h c+c + 1/2 sum L_pr L_qs c+c+cc  ==  shifted one-body + 1/2 sum (L - <L>)^2 - 1/2 sum <L>^2 as operators",
          bounds="2 spatial orbitals with both spins (16-dimensional Fock space), 1-2 Cholesky vectors, arbitrary integrals")
def ham_identity(ctx):
    c = ctx.cfg
    n = ctx.np
    p, t, w, h1e, L = build(ctx, c)
    h1e = n.array([h1e[0], h1e[0]])
    p.build(h1e, L, t)
    nao = c["nao"]
    ops = O.fermion_ops(2 * nao)
    dim = 1 << (2 * nao)

    def one(M):
        out = n.zeros((dim, dim))
        if ctx.mode == "num":
            out = out.astype(complex)
        for a in range(nao):
            for b in range(nao):
                for s in (0, nao):
                    out = out + M[a, b] * ctx.arr(ops[a + s].T @ ops[b + s])
        return out
    H = one(h1e[0])
    for g in range(c["nchol"]):
        for a, r, q, s_ in np.ndindex(nao, nao, nao, nao):
            for s in (0, nao):
                for s2 in (0, nao):
                    M = ops[a + s].T @ ops[q + s2].T @ ops[s_ + s2] @ ops[r + s]
                    if M.any():
                        H = H + L[g][a, r] * L[g][q, s_] / 2 * ctx.arr(M)
    R = one(p.shifted_h1e[0])
    I = ctx.arr(np.eye(dim))
    for g in range(c["nchol"]):
        m = -1j * p.mf_shift[g]
        X = one(L[g]) - m * I
        R = R + n.dot(X, X) / 2 - m * m / 2 * I
    ctx.eq("operator-identity", R, H)


@scenario("P06", "one_body_step", quick=[dict(nao=2, na=1, nb=1, ncomp=2, nw=2, nchol=1, w=True), dict(nao=2, na=1, nb=1, ncomp=1, nw=2, nchol=1, w=True)],
          about="half-step propagator = expm(-dt/2 * shifted one-body) and multiplies each spin's orbitals of every walker",
          bounds="2 orbitals, 2 walkers; arbitrary walkers, integrals, time step")
def onebody(ctx):
    c = ctx.cfg
    n = ctx.np
    import scipy.linalg
    expm = scipy.linalg.expm if ctx.mode == "num" else __import__("vsym.shim", fromlist=["x"]).shim_scipy_linalg.expm
    p, t, w, h1e, L = build(ctx, c)
    w.ncomponents = c["ncomp"]
    p.build(h1e, L, t)
    a0, b0 = w.phiwa.copy(), (w.phiwb.copy() if c["ncomp"] > 1 else None)
    p.propagate_walkers_onebody(w)
    E = [expm(-p.dt / 2 * p.shifted_h1e[s]) for s in range(2)]
    for z in range(2):
        ctx.eq("alpha", w.phiwa[z], n.dot(E[0], a0[z]))
        if c["ncomp"] > 1:
            ctx.eq("beta", w.phiwb[z], n.dot(E[1], b0[z]))


# ------------------------------------------------------------------ P07
@scenario("P07", "auxiliary_field_step", quick=[dict(nao=2, na=1, nb=1, ncomp=2, nw=2, nchol=1, order=2, fake=0),
                                               dict(nao=2, na=1, nb=1, ncomp=1, nw=1, nchol=2, order=1, fake=2),
                                               dict(nao=2, na=1, nb=1, ncomp=2, nw=2, nchol=2, order=1, fake=1),
                                               dict(nao=2, na=1, nb=1, ncomp=1, nw=1, nchol=1, order=6, fake=0),
                                               dict(nao=2, na=1, nb=1, ncomp=2, nw=2, nchol=2, order=1, fake=0, again=True)],
          thorough=[dict(nao=3, na=1, nb=2, ncomp=2, nw=2, nchol=2, order=2, fake=0), dict(nao=2, na=1, nb=1, ncomp=2, nw=1, nchol=1, order=6, fake=0)],
          about="two-body step: walker -> Taylor exp(i sqrt(dt) (x-xbar).L) walker, xbar = -sqrt(dt)(i v - i<L>), "
                "exp(cfb) = Gaussian density ratio, exp(cmf) = shift of L by its mean; every walker uses its own fields",
          bounds="2-3 orbitals, 1-2 walkers, 1-2 fields, Taylor order 1-6 (as configured); fields, integrals, time step "
                 "symbolic, walkers and trial fixed matrices; force bias inside its bound")
def hs_step(ctx):
    c = ctx.cfg
    n = ctx.np
    sd = ctx.pos("sqrtdt")
    p, t, w, h1e, L = build(ctx, c, dt=sd * sd, taylor_order=c["order"], num_fake_fields=c["fake"])
    w.ncomponents = c["ncomp"]
    p.rescale_fbias = lambda x: x      # inside the bound (P05 covers the bound itself)
    t.ovlp_with_walkers_gf(w)
    t.half_rotate_integrals(h1e, L)
    Ga, Gb = w.Ga, (w.Gb if c["ncomp"] > 1 else w.Ga)
    m = ctx.real("m", (c["nchol"],))
    p.mf_shift = 1j * m
    p.nfields = c["nchol"]
    p.nbarefields = c["nchol"]
    draws = []
    rn = ctx.rand_normal

    def rec():
        v = rn()
        draws.append(v)
        return v
    ctx.rand_normal = rec
    a0, b0 = w.phiwa.copy(), (w.phiwb.copy() if c["ncomp"] > 1 else None)
    if c.get("again"):          # the same propagator has moved other walkers before
        w.phiwa, w.phiwb = a0[::-1].copy() * 2, b0[::-1].copy() + a0
        t.ovlp_with_walkers_gf(w)
        p.propagate_walkers_twobody(t, w, L)
        w.phiwa, w.phiwb = a0.copy(), b0.copy()
        t.ovlp_with_walkers_gf(w)
        Ga, Gb = w.Ga, w.Gb
        del draws[:]
    cfb, cmf = p.propagate_walkers_twobody(t, w, L)
    nf = c["nchol"] + c["fake"]
    ctx.true("field-count", len(draws) == nf * c["nw"])
    for z in range(c["nw"]):
        xi = [draws[z * nf + g] for g in range(c["nchol"])]
        v = [n.sum(L[g] * (Ga[z] + Gb[z])) for g in range(c["nchol"])]
        xb = [-sd * 1j * (v[g] - m[g]) for g in range(c["nchol"])]
        ctx.eq("density-ratio", cfb[z], sum(xi[g] * xb[g] - xb[g] * xb[g] / 2 for g in range(c["nchol"])))
        ctx.eq("mean-shift-factor", cmf[z], sum(-sd * (xi[g] - xb[g]) * 1j * m[g] for g in range(c["nchol"])))
        A = sum(1j * sd * (xi[g] - xb[g]) * L[g] for g in range(c["nchol"]))
        for lab, old, new in (("alpha", a0, w.phiwa),) + ((("beta", b0, w.phiwb),) if c["ncomp"] > 1 else ()):
            ref, term = old[z], old[z]
            for k in range(1, c["order"] + 1):
                term = n.dot(A, term) / k
                ref = ref + term
            ctx.eq("propagated-" + lab, new[z], ref)


@scenario("P07", "bounded_force_bias_step", quick=[dict(ncomp=1), dict(ncomp=2)],
          about="when the force bias exceeds its bound, the bounded bias is the one that enters the applied fields, the density ratio and "
                "the mean-shift factor alike",
          bounds="2 orbitals, 1 walker, 2 fields, Taylor order 1; the bounding itself is an arbitrary function (P05 decides it); "
                 "fields, integrals, mean shift, time step symbolic")
def bounded_step(ctx):
    c = dict(ctx.cfg, nao=2, na=1, nb=1, nw=1, nchol=2)
    n = ctx.np
    sd = ctx.pos("sqrtdt")
    p, t, w, h1e, L = build(ctx, c, dt=sd * sd, taylor_order=1, num_fake_fields=0)
    w.ncomponents = c["ncomp"]
    xb = ctx.cplx("xb", (1, 2))
    seen = []

    def bound(x):
        seen.append(x)
        return xb.copy()
    p.rescale_fbias = bound
    t.ovlp_with_walkers_gf(w)
    t.half_rotate_integrals(h1e, L)
    Ga, Gb = w.Ga, (w.Gb if c["ncomp"] > 1 else w.Ga)
    m = ctx.real("m", (2,))
    p.mf_shift = 1j * m
    p.nfields = p.nbarefields = 2
    draws = []
    rn = ctx.rand_normal

    def rec():
        draws.append(rn())
        return draws[-1]
    ctx.rand_normal = rec
    a0 = w.phiwa.copy()
    cfb, cmf = p.propagate_walkers_twobody(t, w, L)
    ctx.true("bounded-once", len(seen) == 1)
    for g in range(2):
        ctx.eq("unbounded-bias", seen[0][0][g], -sd * 1j * (n.sum(L[g] * (Ga[0] + Gb[0])) - m[g]))
    ctx.eq("density-ratio", cfb[0], sum(draws[g] * xb[0][g] - xb[0][g] * xb[0][g] / 2 for g in range(2)))
    ctx.eq("mean-shift-factor", cmf[0], sum(-sd * (draws[g] - xb[0][g]) * 1j * m[g] for g in range(2)))
    A = sum(1j * sd * (draws[g] - xb[0][g]) * L[g] for g in range(2))
    ctx.eq("propagated", w.phiwa[0], a0[0] + n.dot(A, a0[0]))


@scenario("P07", "kernels", quick=[dict(order=3)], thorough=[dict(order=6)],
          about="compiled and plain kernels of the one-body product, exponential action and field contraction agree with the "
                "mathematical definition", bounds="2 walkers, 2 orbitals, 1-2 columns; arbitrary complex operators and walkers")
def kernels(ctx):
    n = ctx.np
    op = ctx.cplx("A", (2, 2, 2))
    phi = ctx.cplx("w", (2, 2, 1))
    k = ctx.cfg["order"]
    for nm in ("propagate_HS_kernel", "propagate_exp_op", "propagate_exp_op_numba"):
        f = getattr(pr, nm, None)
        if f is None:
            continue
        r = f(phi.copy(), op, k)
        for z in range(2):
            ref, term = phi[z], phi[z]
            for j in range(1, k + 1):
                term = n.dot(op[z], term) / j
                ref = ref + term
            ctx.eq(nm, r[z], ref)
    for nm in ("propagate_onebody_kernel", "propagate_onebody", "propagate_onebody_numba"):
        f = getattr(pr, nm, None)
        if f is not None:
            r = f(op[0], phi.copy())
            for z in range(2):
                ctx.eq(nm, r[z], n.dot(op[0], phi[z]))
    x = ctx.cplx("x", (2, 2))
    L = ctx.cplx("L", (2, 2, 2))
    fac = ctx.cplx("f")
    for nm in ("build_HS", "tensor_dot_numba"):
        f = getattr(pr, nm, None)
        if f is not None:
            r = f(x, L, fac)
            for z in range(2):
                ctx.eq(nm, r[z], fac * (x[z, 0] * L[0] + x[z, 1] * L[1]))
    Gh = ctx.cplx("G", (2, 2, 1))
    T = ctx.cplx("T", (2, 1))
    r = pr.compute_GF_base(Gh, T)
    for z in range(2):
        ctx.eq("compute_GF_base", r[z], n.dot(T, Gh[z].T))


@scenario("P07", "trotter_order", quick=[dict(ncomp=2), dict(ncomp=1)],
          about="one step = half one-body step, two-body step, half one-body step; the weight update sees the overlap before and "
                "after; the Green's function entering the force bias is that of the incoming walker",
          bounds="2 orbitals, 2 walkers, 1 field, Taylor order 1; half-step operator, integrals and fields symbolic, walkers and trial fixed matrices", limit=400)
def trotter(ctx):
    c = dict(ctx.cfg, nao=2, na=1, nb=1, nw=2, nchol=1, w=False)
    n = ctx.np
    p, t, w, h1e, L = build(ctx, c, dt=ctx.num(1), taylor_order=1, num_fake_fields=0)
    w.ncomponents = c["ncomp"]
    w.weights = ctx.pos("wt", (2,))
    p.rescale_fbias = lambda x: x
    p.mf_shift = ctx.np.zeros(1)
    p.nfields = p.nbarefields = 1
    E = ctx.cplx("E", (2, 2, 2))
    p.exp_h1e = E
    got = {}

    def upd(walkers, ovlp, newovlp, cfb, cmf, eshift=0.0):
        got.update(o=ovlp, n=newovlp, cfb=cfb, cmf=cmf, e=eshift)
    p.update_weight = upd
    draws = []
    rn = ctx.rand_normal

    def rec():
        draws.append(rn())
        return draws[-1]
    ctx.rand_normal = rec
    w0 = NS(**w.__dict__)
    w0.phiwa = w.phiwa.copy()
    w0.phiwb = w.phiwb.copy() if c["ncomp"] > 1 else None
    o0 = t.ovlp_with_walkers_gf(w0)
    t.half_rotate_integrals(h1e, L)
    es = ctx.real("eshift")
    p.propagate_walkers(t, w, L, eshift=es)
    ctx.eq("overlap-before", got["o"], o0)
    ctx.eq("overlap-after", got["n"], t.ovlp_with_walkers(w))
    ctx.eq("energy-shift", got["e"], es)
    for z in range(2):
        G = w0.Ga[z] + (w0.Gb[z] if c["ncomp"] > 1 else w0.Ga[z])
        v = n.sum(L[0] * G)
        B = ctx.arr(np.eye(2)) + 1j * (draws[z] + 1j * v) * L[0]
        ctx.eq("alpha", w.phiwa[z], n.dot(E[0], n.dot(B, n.dot(E[0], w0.phiwa[z]))))
        if c["ncomp"] > 1:
            ctx.eq("beta", w.phiwb[z], n.dot(E[1], n.dot(B, n.dot(E[1], w0.phiwb[z]))))


# ------------------------------------------------------------------ P08
@scenario("P08", "weight_update_hybrid", quick=[dict(nw=1), dict(nw=2)],
          about="hybrid energy is capped to eshift +- bound, the weight factor is |exp(-dt(mean of old and new - eshift))| times "
                "max(0, cos of the phase of the overlap ratio with its mean-field factor); weights stay real and non-negative; "
                "a walker's update depends on that walker only",
          bounds="1-2 walkers; arbitrary complex overlaps and force-bias factors, arbitrary weights, energies, shift and cap; dt=1")
def weight_hybrid(ctx):
    n = ctx.np
    nw = ctx.cfg["nw"]
    eb = ctx.pos("ebound")
    es = ctx.real("eshift")
    p = prop(dt=ctx.num(1), ebound=eb, energy_scheme="hybrid")
    if nw == 1:
        ov, nov = ctx.cplx("ov", (nw,)), ctx.cplx("nov", (nw,))
        cfb = ctx.cplx("cfb", (nw,))
        cmf = ctx.cplx("cmf", (nw,))
    else:
        ov, nov = ctx.pos("ov", (nw,)), ctx.pos("nov", (nw,))
        nov = nov * ctx.arr(np.array([1, 1j]))
        cfb = ctx.real("cfb", (nw,)) * (1 + 0j)
        cmf = ctx.real("cmf", (nw,)) * (1 + 0j)
    w0 = ctx.pos("w", (nw,))
    e0 = ctx.real("eold", (nw,))
    w = NS(weights=w0.copy(), ehybrid=e0, ovlp=None)
    p.update_weight(w, ov.copy(), nov.copy(), cfb.copy(), cmf.copy(), es)
    ctx.eq("weights-real", n.imag(w.weights), 0)
    ctx.ge("weights-non-negative", n.real(w.weights), 0)
    ctx.eq("overlap-stored", w.ovlp, nov)
    eh = n.real(w.ehybrid)
    ctx.ge("energy-cap-upper", es + eb - eh, 0)
    ctx.ge("energy-cap-lower", eh - es + eb, 0)
    for z in range(nw):
        lr = n.log(nov[z] / ov[z]) + cmf[z]
        raw = -n.real(lr + cfb[z])
        lo, hi = es - eb, es + eb
        ref = lo if bool(raw < lo) else (hi if bool(raw > hi) else raw)
        ctx.eq("capped-energy", eh[z], ref)
        c = n.cos(n.imag(lr))
        c = c if bool(c > 0) else ctx.num(0)
        ctx.eq("weight-factor", w.weights[z], w0[z] * n.exp(-((ref + e0[z]) / 2 - es)) * c)


@scenario("P08", "weight_update_local", quick=[dict(nw=1), dict(nw=2)],
          about="local-energy scheme: factor exp(-dt E_local) max(0, cos(phase)); weights real and non-negative",
          bounds="1-2 walkers, arbitrary complex overlaps; dt arbitrary positive")
def weight_local(ctx):
    n = ctx.np
    nw = ctx.cfg["nw"]
    dt = ctx.pos("dt")
    p = prop(dt=dt, energy_scheme="local")
    ov, nov = ctx.cplx("ov", (nw,)), ctx.cplx("nov", (nw,))
    z0 = ctx.np.zeros(nw)
    w0 = ctx.pos("w", (nw,))
    el = ctx.real("eloc", (nw,))
    w = NS(weights=w0.copy(), ehybrid=z0, ovlp=None, eloc=el)
    cfb, cmf = ctx.cplx("cfb", (nw,)), ctx.real("cmf", (nw,)) * 1j if nw == 1 else z0
    p.update_weight(w, ov.copy(), nov.copy(), cfb, cmf, ctx.num(0))
    ctx.ge("weights-non-negative", n.real(w.weights), 0)
    for z in range(nw):
        r = nov[z] / ov[z] * n.exp(cmf[z])
        c = n.real(r)
        c = c / n.abs(r) if bool(c > 0) else ctx.num(0)
        ctx.eq("weight-factor", w.weights[z], w0[z] * n.exp(-dt * el[z]) * c)
    ctx.eq("overlap-stored", w.ovlp, nov)


# ------------------------------------------------------------------ P26 (fields of a debugging run)
@scenario("P26", "debug_fields", quick=[dict(nw=3, size=2, fake=0), dict(nw=3, size=2, fake=1), dict(nw=2, size=1, fake=0)], thorough=[dict(nw=5, size=3, fake=2)],
          about="in the mode that compares parallel with serial runs every walker gets the very random numbers it gets in a serial run, whatever rank it lives on",
          bounds="2-5 walkers on 1-3 ranks, 2 fields, 0-2 unused fields; all draws symbolic")
def debug_fields(ctx):
    c = ctx.cfg
    n = ctx.np
    size, tot = c["size"], c["nw"]
    box = {}

    def fields(r, size, debug):
        counts = [tot // size + (1 if i < tot % size else 0) for i in range(size)]
        nw = counts[r]
        t, w = make(ctx, 2, 1, 1, 1, nw, tsym=False, wsym=False)
        w.ncomponents, w.global_nwalkers, w.walker_counter = 1, tot, counts
        w.displs = [sum(counts[:i]) for i in range(size)]
        com = fake_comm(size, r)

        def scatter(send, recv, root=0):
            if r == root:
                box["send"] = send
            data, cnt, dis = box["send"][:3]
            ctx.true("send-buffer", sum(cnt) == len(data) and cnt[r] == len(recv))
            recv[...] = data[dis[r]:dis[r] + cnt[r]]
        com.Scatterv = scatter
        w._mpi = NS(size=size, rank=r, comm=com)
        p = prop(nfields=2, nbarefields=0, num_fake_fields=c["fake"], debug_mpi=debug, taylor_order=1, mf_shift=n.zeros(2))
        t.get_vbias = lambda *a, **k: n.zeros((nw, 2))
        got = []
        p.propagate_HS = lambda wk, lt, x: got.append(x)
        k = [0]
        names = {}

        def draw():
            k[0] += 1
            return ctx.real("xi%d" % k[0])
        ctx.rand_normal = draw
        p.propagate_walkers_twobody(t, w, n.zeros((2, 2, 2)))
        ctx.true("one-application", len(got) == 1)
        return got[0]
    ref = fields(0, 1, False)
    z = 0
    for r in range(size):
        x = fields(r, size, True)
        for y in x:
            ctx.eq("walker-fields", y, ref[z])
            z += 1
    ctx.true("every-walker", z == tot)
