"""P14 energy estimates over walkers and ranks"""
from .common import *
from . import oracle as O
from vsym.registry import scenario

import openms.qmc.propagators as pr
import openms.qmc.estimators as est
import openms.qmc.generic_walkers as gw
import openms.qmc.qmc as qmc
from .p_prop import prop
from .p_qmc import ebprop
from .p_trial import make


def stub_energy(ctx, e1, e2, rank, nw):
    """electronic energies of a walker batch as given values (they are P03's subject)"""
    def f(trial, walkers, *a, **k):
        r = walkers._mpi.rank
        return e1[r * nw:(r + 1) * nw].copy(), e2[r * nw:(r + 1) * nw].copy()
    return f


@scenario("P14", "energy_over_ranks", quick=[dict(size=1, ncomp=1, boson=False), dict(size=2, ncomp=2, boson=False), dict(size=2, ncomp=1, boson=True),
                                            dict(size=3, ncomp=2, boson=True), dict(size=1, ncomp=2, boson=True), dict(size=2, ncomp=2, boson=True, off=True)],
          about="every rank reports the same energy: sum of weight times real local energy over all walkers of all ranks divided by the sum of "
                "all weights; each component likewise; with bosons the bosonic and coupling energies are included once",
          bounds="1-3 ranks of 2 walkers run in lock step (collectives meet in order), arbitrary weights and local energies; "
                 "2 orbitals, one mode of 2 Fock states")
def energy_ranks(ctx):
    c = ctx.cfg
    n = ctx.np
    size, nw, boson = c["size"], 2, c["boson"]
    N = size * nw
    wt = ctx.pos("w", (N,))
    e1, e2 = ctx.cplx("e1", (N,)), ctx.cplx("e2", (N,))
    eb, eg = ctx.cplx("eb", (N,)), ctx.cplx("eg", (N,))
    enuc = ctx.real("enuc")
    f = stub_energy(ctx, e1, e2, 0, nw)
    ctx.patch(pr, "local_energy_SD_UHF", f)
    ctx.patch(pr, "local_energy_SD_RHF", f)
    if boson:
        cur = {}
        ctx.patch(pr, "local_eng_boson", lambda *a, **k: eb[cur["r"] * nw:(cur["r"] + 1) * nw].copy())
        ctx.patch(pr, "local_eng_eboson", lambda *a, **k: eg[cur["r"] * nw:(cur["r"] + 1) * nw].copy())

    def body(mpi):
        p = ebprop(ctx, 1, [2], c["ncomp"], dt=1.0) if boson else prop(pr.Phaseless, dt=1.0)
        if boson:
            cur["r"] = mpi.rank
            p.turnoff_bosons = bool(c.get("off"))
            p.update_GF = lambda *a: None
            p.nbarefields = 1
        t = NS(ovlp_with_walkers_gf=lambda w: None, ncomponents=c["ncomp"])
        w = NS(weights=wt[mpi.rank * nw:(mpi.rank + 1) * nw].copy(), ncomponents=c["ncomp"], nwalkers=nw, _mpi=mpi,
               eloc=None, boson_Gf=None, Ga=None, Gb=None)
        return list(p.local_energy(None, n.zeros((1, 2, 2)), w, t, enuc=enuc)), w.eloc
    res = run_ranks(size, body)
    W = n.sum(wt)
    re = n.real
    tot = [e1[i] + e2[i] + enuc for i in range(N)]
    if boson and not c.get("off"):
        tot = [tot[i] + eb[i] + eg[i] for i in range(N)]
    for r, (e, eloc) in enumerate(res):
        ctx.eq("total-energy", e[0] * W, e[1] * sum(wt[i] * re(tot[i]) for i in range(N)))
        ctx.eq("weight-norm", e[1], W)
        ctx.eq("one-body", e[2], sum(wt[i] * re(e1[i]) for i in range(N)))
        ctx.eq("two-body", e[3], sum(wt[i] * re(e2[i]) for i in range(N)))
        if boson:
            ctx.eq("boson", e[4], sum(wt[i] * re(eb[i]) for i in range(N)))
            ctx.eq("coupling", e[5], sum(wt[i] * re(eg[i]) for i in range(N)))
        for z in range(nw):
            ctx.eq("walker-energy", eloc[z], tot[r * nw + z])


@scenario("P14", "block_average_over_ranks", quick=[dict(size=2, freq=1), dict(size=2, freq=2), dict(size=3, freq=1)],
          about="the energy shift after a block is the same on every rank and is the weight-averaged hybrid energy over all walkers of all ranks",
          bounds="2-3 ranks of 1-2 walkers in lock step, blocks of 1-2 steps, two blocks; arbitrary weights and energies")
def block_ranks(ctx):
    c = ctx.cfg
    n = ctx.np
    size, freq, nw = c["size"], c["freq"], 2 if c["freq"] == 1 else 1
    steps = 2 * freq
    w = ctx.pos("w", (steps, size, nw))
    u = ctx.pos("u", (steps, size, nw))
    e = ctx.real("e", (steps, size, nw))

    def body(mpi):
        q = blank(qmc.QMCbase)
        q.verbose, q.stdout = 0, Null()
        q.stacked_variables = ["weights", "unscaled_weights", "walker_hybrid_energies", "walker_local_energies"]
        q.property_buffer = n.zeros(4, dtype=complex)
        q.property_calc_freq = freq
        q.eshift = 0.0
        out = []
        for s in range(steps):
            q.property_stack(NS(weights=w[s, mpi.rank], weights_org=u[s, mpi.rank], ehybrid=e[s, mpi.rank], eloc=e[s, mpi.rank], _mpi=mpi), s)
            out.append(q.eshift)
        return out
    res = run_ranks(size, body)
    for out in res:
        for b in range(2):
            sl = slice(b * freq, (b + 1) * freq)
            ctx.eq("shift", out[(b + 1) * freq - 1] * n.sum(w[sl]), n.sum(w[sl] * e[sl]))


@scenario("P14", "weight_control_over_ranks", quick=[dict(size=2), dict(size=3)],
          about="after weight control the total weight over all ranks equals the reference population and the recorded total is the "
                "total over all ranks before",
          bounds="2-3 ranks of 2 walkers in lock step, arbitrary weights; resampling replaced by the identity")
def wc_ranks(ctx):
    c = ctx.cfg
    n = ctx.np
    size, nw = c["size"], 2
    wt = ctx.pos("w", (size, nw), hi=1, lo=Fraction(1, 10))
    import openms.qmc.population_control as pc
    ctx.patch(pc, "population_control_factory", lambda w, method=None: None)

    def body(mpi):
        w = blank(gw.Walkers_so)
        w.verbose, w.stdout = 0, Null()
        w._mpi, w.nwalkers, w.global_nwalkers = mpi, nw, nw * size
        w.total_weight0 = w.total_weight = nw * size * 10
        w.weights = wt[mpi.rank].copy()
        w.weights_org = w.weights.copy()
        w.weight_control(4, freq=5, method="comb")
        return w.weights, w.total_weight, w.raw_norm
    res = run_ranks(size, body)
    tot = sum(n.sum(r[0]) for r in res)
    ctx.eq("reference-population", tot, nw * size * 10)
    for r in res:
        ctx.eq("recorded-total", r[1], n.sum(wt))
        ctx.eq("raw-norm", r[2], n.sum(wt))
