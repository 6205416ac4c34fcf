"""P01 population control"""
from .common import *
from vsym.registry import scenario

import openms.qmc.population_control as pc
import openms.qmc.generic_walkers as gw


def _mk(ctx, cfg, boson=True, ncomp=2):
    """a walker object in an arbitrary state, without running the constructor"""
    N, nao, na, nb, nf = cfg["N"], 2, 1, 1, 2
    w = blank(gw.Walkers_so)
    w.verbose, w.stdout = 0, Null()
    w.nwalkers = w.global_nwalkers = N
    w.nalpha, w.nbeta, w.ncomponents = na, nb, ncomp
    w._mpi = fake_mpi()
    w.walker_counter, w.displs = [N], [0]
    w.total_weight0 = N
    w.total_weight = N
    w.phiwa = ctx.cplx("a", (N, nao, na))
    w.phiwb = ctx.cplx("b", (N, nao, nb)) if ncomp > 1 else None
    w.phiw = None
    w.boson_phiw = ctx.cplx("f", (N, nf)) if boson else None
    w.weights = ctx.pos("w", (N,))
    w.weights_org = w.weights.copy()
    w.weight_min, w.weight_max = 0.1, 10.0
    w.ehybrid, w.eloc = ctx.cplx("eh", (N,)), ctx.cplx("el", (N,))
    return w


def _index_of(new, old):
    """which old rows does every new row equal"""
    return [[k for k in range(len(old)) if same(new[i], old[k])] for i in range(len(new))]


METHODS = ["branching", "reconfiguration", "comb"]


@scenario("P01", "population_control_preserves",
          quick=[dict(method=m, N=n) for m in METHODS for n in (2, 3)],
          thorough=[dict(method=m, N=4) for m in METHODS],
          about="every registered resampling method, through the public entry point on a full walker object",
          bounds="2-3 walkers (thorough 4), arbitrary positive weights and random numbers, 2 orbitals, 2 Fock amplitudes")
def pop_preserve(ctx):
    cfg = ctx.cfg
    w = _mk(ctx, cfg)
    N = cfg["N"]
    a0, b0, f0, w0 = w.phiwa.copy(), w.phiwb.copy(), w.boson_phiw.copy(), w.weights.copy()
    e0, l0 = w.ehybrid.copy(), w.eloc.copy()
    pc.population_control_factory(w, method=cfg["method"])
    ctx.true("walker-count", len(w.weights) == N and w.phiwa.shape == a0.shape and w.phiwb.shape == b0.shape
             and w.boson_phiw.shape == f0.shape)
    ctx.eq("total-weight", ctx.np.sum(w.weights), ctx.np.sum(w0))
    ie, il = _index_of(w.ehybrid, e0), _index_of(w.eloc, l0)
    ia, ib, ic = _index_of(w.phiwa, a0), _index_of(w.phiwb, b0), _index_of(w.boson_phiw, f0)
    ctx.true("only-clones-of-existing-walkers", all(ia) and all(ib) and all(ic))
    ctx.true("components-stay-together", all(x == y == z for x, y, z in zip(ia, ib, ic)))
    ctx.true("energies-follow-their-walker", all(x == y == z for x, y, z in zip(ia, ie, il)))
    ctx.ge("weights-non-negative", w.weights, 0)
    if cfg["method"] in ("reconfiguration", "comb"):
        ctx.eq("uniform-weights", w.weights * N, ctx.np.sum(w0))


@scenario("P01", "population_control_unbiased",
          quick=[dict(method=m, N=n) for m in METHODS + ["systematic_resampling"] for n in (2, 3)],
          thorough=[dict(method=m, N=4) for m in METHODS + ["systematic_resampling"]],
          about="expected weight carried by the copies of each walker equals its weight before, exactly integrated "
                "over the random draws",
          bounds="2-3 walkers (thorough 4), arbitrary positive weights; draws integrated exactly")
def pop_unbiased(ctx):
    cfg = ctx.cfg
    N = cfg["N"]
    wts = ctx.pos("w", (N,))
    if ctx.mode == "sym":
        # one ordering; the others follow by relabelling except for ties, which the other harness covers
        pass
    fn = pc.control_func_dict[cfg["method"]] if cfg["method"] in METHODS else getattr(pc, cfg["method"])
    tags = [ctx.arr(np.eye(N, dtype=int)[i] * 1.0) for i in range(N)]

    def run():
        new, nw = fn([t.copy() for t in tags], wts.copy())
        ctx.true("walker-count", len(new) == N and len(nw) == N)
        ctx.eq("total-weight", sum(nw[k] for k in range(N)), ctx.np.sum(wts))
        out = []
        for i in range(N):
            out.append(sum((nw[k] * new[k][i] for k in range(len(new))), ctx.num(0)))
        return out
    mean, mass = ctx.expect(run, draws=max(1, N // 2) if cfg["method"] == "branching" else 1)
    ctx.eq("probabilities-sum-to-one", mass, 1)
    for i in range(N):
        ctx.eq("unbiased", mean[i], wts[i], tol=3e-2 if cfg["method"] == "branching" and N > 3 else 4e-3)


@scenario("P01", "weight_control_step",
          quick=[dict(method="comb", N=2), dict(method="reconfiguration", N=2), dict(method="branching", N=2)],
          thorough=[dict(method=m, N=3) for m in METHODS],
          about="periodic weight control: renormalises to the reference population before resampling, clips outliers",
          bounds="2 walkers (thorough 3), arbitrary weights, arbitrary running total weight; steps on and off the period")
def weight_control(ctx):
    cfg = ctx.cfg
    N = cfg["N"]
    for step, freq in ((4, 5), (0, 1), (3, 5)):
        w = _mk(ctx, cfg)
        w.total_weight = ctx.pos("tw", lo=1)
        w0 = w.weights.copy()
        bound = w.total_weight / 10
        clipped = w0.copy()
        if step > 0:
            for i in range(N):
                if bool(w0[i] > bound):
                    clipped[i] = bound
        tw = w.total_weight
        ctx.assume(ctx.np.sum(clipped) > Fraction(1, 1000) if ctx.mode == "sym" else np.sum(clipped) > 1e-3)
        w.weight_control(step, freq=freq, method=cfg["method"])
        if (step + 1) % freq:
            ctx.eq("off-period-only-clips", w.weights, clipped)
            ctx.eq("off-period-total", w.total_weight, tw)
        else:
            ctx.eq("renormalised-total", ctx.np.sum(w.weights), N)
            ctx.eq("recorded-total-weight", w.total_weight, ctx.np.sum(clipped))
            ctx.eq("recorded-raw-weights", w.weights_org, clipped)
            ctx.eq("raw-norm", w.raw_norm, ctx.np.sum(clipped))


@scenario("P01", "pack_unpack_round_trip",
          quick=[dict(N=3, boson=b, ncomp=c) for b in (True, False) for c in (1, 2)],
          about="packing the walkers for resampling and unpacking them is the identity",
          bounds="3 walkers, all four layouts")
def pack_roundtrip(ctx):
    cfg = ctx.cfg
    w = _mk(ctx, cfg, cfg["boson"], cfg["ncomp"])
    a0, b0, f0 = w.phiwa.copy(), None if w.phiwb is None else w.phiwb.copy(), \
        None if w.boson_phiw is None else w.boson_phiw.copy()
    perm = [2, 0, 0]
    p = w._pack_walkers()
    ctx.true("one-entry-per-walker", len(p) == cfg["N"])
    w._unpack_walkers([p[i] for i in perm])
    ctx.eq("alpha", w.phiwa, a0[perm])
    if b0 is not None:
        ctx.eq("beta", w.phiwb, b0[perm])
    if f0 is not None:
        ctx.eq("boson", w.boson_phiw, f0[perm])


@scenario("P01", "rank_partition",
          quick=[dict(size=s) for s in (1, 2, 3, 4)], thorough=[dict(size=s) for s in (5, 6, 7)],
          about="the walkers are split over the ranks without loss, contiguous and balanced",
          bounds="1-4 ranks (thorough 7), any number of walkers up to 12")
def rank_partition(ctx):
    size = ctx.cfg["size"]
    N = ctx.rand_int(1, 13)
    import openms.__mpi__ as m
    counters = []
    for rank in range(size):
        ctx.patch(m, "MPIWrapper", lambda *a, **k: fake_mpi(size, rank))
        ctx.patch(m, "original_print", lambda *a, **k: None)
        trial = NS(verbose=0, stdout=Null(), nalpha=1, nbeta=1, ncomponents=2)
        w = gw.BaseWalkers(trial, nwalkers=N)
        counters.append(w.nwalkers)
        ctx.true("same-table-on-every-rank", list(w.walker_counter)[rank] == w.nwalkers)
        ctx.true("offset", w.displs[rank] == sum(counters[:rank]))
        ctx.true("arrays-sized", len(w.weights) == w.nwalkers and len(w.ovlp) == w.nwalkers)
        ctx.eq("initial-total-weight", w.total_weight0, N)
    ctx.true("nothing-lost", sum(counters) == N)
    ctx.true("balanced", max(counters) - min(counters) <= 1)
