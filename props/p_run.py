"""P25, P26: the run drivers (SCF loops and the AFQMC time loop) around arbitrary building blocks"""
from .common import *
from vsym.registry import scenario

import openms.mqed.qedhf as qh
import openms.mqed.scqedhf as sc
import openms.mqed.vtqedhf as vt
import openms.qmc.qmc as qmc
import openms.qmc.generic_walkers as gw


class Blocks:
    """building blocks of an SCF on one orbital: every value handed out is an arbitrary function of the state it may depend on"""

    def __init__(self, ctx, fam, cs):
        self.ctx, self.fam, self.cs = ctx, fam, cs
        self.k, self.memo = {}, {}
        co = ctx.real("co", (24,))
        self.co = [co[i] for i in range(24)]
        self.energies, self.grads, self.pars, self.eigs, self.focks = [], [], [], [], []
        self.cs_at = []                 # photon state when an energy was evaluated
        self.p = self.new("p")          # variational parameters
        self.pg = None
        self.z = self.new("z")          # displacement of the photon frame
        self.c = self.new("c")          # photon state
        self.hph = self.new("hph")      # effective photon Hamiltonian
        self.K = None                   # dressed integrals: values for (p, dm) at the time they were built

    def new(self, name):
        i = self.k[name] = self.k.get(name, -1) + 1
        return self.ctx.real("%s%d" % (name, i))

    def M(self, x):
        a = self.ctx.np.zeros((1, 1))
        a[0, 0] = x
        return a

    def zfun(self, d):
        return self.co[0] * d

    def cfun(self, d, z, hph):
        return self.co[1] * d + self.co[2] * z + self.co[3] * hph

    def hfun(self, d, p, K, z, c):
        o = self.co
        if self.fam == "qed":
            return o[4] + o[5] * z + o[6] * c
        return o[4] + o[5] * z + o[6] * c + o[7] * K[0] + o[8] * K[1] + o[9] * p

    def vfun(self, d, p, K, z, c):
        o = self.co
        if self.fam == "qed":
            return o[10] * d
        return d * (o[10] + o[11] * p + o[12] * K[0] + o[13] * c)

    def hphfun(self, d, K):
        return self.co[14] * d + self.co[15] * K[0]

    def value(self, name, args, kind=None):
        """an arbitrary function: a new value for new arguments, the same for the same"""
        for a, x in self.memo.setdefault(name, []):
            if all(same(p, q) for p, q in zip(a, args)):
                return x
        x = (kind or self.ctx.real)("%s_%d" % (name, len(self.memo[name])))
        self.memo[name].append((args, x))
        return x


class FakePhoton:
    def __init__(self, B):
        self.B = B
        self.use_cs = B.cs
        self.nmodes = 1
        self.optimize_varf = self.optimize_vsq = False
        self.z_alpha = np.zeros(1)
        self.squeezed_var = np.zeros(1)
        self.couplings_var = np.zeros(1)

    def update_cs(self, dm):
        if self.use_cs:
            self.B.z = self.B.zfun(dm[0, 0])
        return self

    def update_boson_coeff(self, dm):
        B = self.B
        B.c = B.cfun(dm[0, 0], B.z, B.hph)
        return self

    def print_summary(self):
        pass


def scf_object(ctx, fam, cs, max_cycle, conv_check=True):
    B = Blocks(ctx, fam, cs)
    cls = {"qed": qh.RHF, "sc": sc.RHF, "vt": vt.RHF}[fam]
    mf = blank(cls)
    d = mf.__dict__
    d.update(verbose=0, stdout=Null(), mol=NS(nelectron=2, verbose=0, stdout=Null(), nao_nr=lambda: 1, symmetry=None), max_cycle=max_cycle, diis=None, chkfile=None, check_convergence=None,
             init_guess="minao", conv_tol=None, conv_tol_grad=None, conv_check=conv_check, callback=None, converged=False, e_tot=0, mo_energy=None, mo_coeff=None, mo_occ=None, qed=FakePhoton(B), disp=None,
             level_shift=0, damp=0, diis_start_cycle=1, diis_file=None, diis_space=8, diis_space_rollback=0, scf_summary={}, cycles=0, nao=1, L=None, P=None, n_oao=1, direct_scf=False, _eri=None)
    n = ctx.np
    scal = lambda m: m[0, 0]

    def get_h1e_DO(mol=None, dm=None):
        B.K = (B.p, scal(dm))

    def get_hcore(mol=None, dm=None, dress=True):
        if dm is not None and B.cs and fam != "sc":      # the cavity terms refresh the displacement themselves
            B.z = B.zfun(scal(dm))
        return B.M(B.hfun(None if dm is None else scal(dm), B.p, B.K, B.z, B.c))

    def get_veff(mol=None, dm=None, dm_last=0, vhf_last=0, hermi=1):
        if B.cs and fam != "sc":
            B.z = B.zfun(scal(dm))
        if fam != "qed":
            B.hph = B.hphfun(scal(dm), B.K)
        return B.M(B.vfun(scal(dm), B.p, B.K, B.z, B.c))

    def energy_tot(dm=None, h1e=None, vhf=None):
        a = (scal(dm), scal(h1e), scal(vhf))
        e = B.value("e", a)
        B.energies.append((e, a))
        B.cs_at.append(B.c)
        return e

    def grad_var_params(*a, **k):
        B.pg = B.new("pg")

    def get_fock(h1e=None, s1e=None, vhf=None, dm=None, cycle=-1, diis=None, *a, **k):
        f = h1e + vhf
        if cycle is not None and cycle > -1:
            B.p = B.p - B.pg if B.pg is not None else B.p
            B.focks.append((k.get("fock_last"), f))
        return f

    def eig(f, s):
        B.eigs.append(f)
        return n.array([B.new("eps")]), B.M(B.new("C"))

    def get_occ(e=None, c=None):
        return n.array([ctx.num(2)])

    def make_rdm1(c=None, occ=None, **k):
        return B.M(occ[0] * c[0, 0] * c[0, 0])

    def get_grad(c, occ, fock=None):
        g = B.value("g", (c[0, 0], occ[0], scal(fock)))
        B.grads.append(g)
        return n.array([g])

    def norm_var_params():
        if fam == "qed":
            return 0
        x = B.value("npar", (B.pg,), B.ctx.pos)
        B.pars.append(x)
        return x
    for f in (get_h1e_DO, get_hcore, get_veff, energy_tot, grad_var_params, get_fock, eig, get_occ, make_rdm1, get_grad, norm_var_params):
        d[f.__name__] = f
    d["get_ovlp"] = lambda *a: np.ones((1, 1))
    d["_eigh"] = eig
    d["get_init_guess"] = lambda *a, **k: B.M(B.new("D"))
    d["get_bare_hcore"] = lambda *a, **k: B.M(B.co[17])
    d["get_bare_veff"] = lambda mol=None, dm=None, *a, **k: B.M(B.co[18] * scal(dm))
    for nm in ("get_cholesky", "init_var_params", "set_var_params", "pre_kernel", "check_sanity", "dump_chk", "post_kernel", "dump_flags", "build", "update_var_params"):
        d[nm] = lambda *a, **k: mf
    if fam != "qed":
        d["dm_do"] = d["g_dipole"] = None
        ctx.patch(sc, "cholesky_diag_fock_rao", lambda m, f: eig(f, None))
    return mf, B


def absv(ctx, x):
    return ctx.np.abs(x)


@scenario("P25", "scf_loop", quick=[dict(fam="qed", cs=True, cycles=2), dict(fam="qed", cs=False, cycles=2), dict(fam="sc", cs=False, cycles=2), dict(fam="vt", cs=True, cycles=2),
                                    dict(fam="qed", cs=True, cycles=2, check=False), dict(fam="sc", cs=False, cycles=2, check=False), dict(fam="sc", cs=False, cycles=2, guess=True), dict(fam="vt", cs=False, cycles=0),
                                    dict(fam="qed", cs=True, cycles=1, wrap=True), dict(fam="sc", cs=False, cycles=1, wrap=True),
                                    dict(fam="qed", cs=True, cycles=3), dict(fam="sc", cs=False, cycles=3), dict(fam="vt", cs=False, cycles=3)],
          thorough=[dict(fam="vt", cs=False, cycles=4), dict(fam="qed", cs=True, cycles=4), dict(fam="sc", cs=False, cycles=4)],
          about="whatever the integrals, gradients and eigensolutions: a run that reports convergence returns the energy of exactly the orbitals, variational parameters, displacement and photon "
                "state it ends with; it stops in the first cycle whose energy change and gradient (orbitals and parameters) both meet their thresholds, and only then reports convergence",
          bounds="one orbital, up to 3 (thorough: 4) cycles, no accelerator; Fock builds, eigensolutions, gradients and photon updates are arbitrary functions of the current state")
def scf_loop(ctx):
    c = ctx.cfg
    n = ctx.np
    check = c.get("check", True)
    mf, B = scf_object(ctx, c["fam"], c["cs"], c["cycles"], check)
    tol = ctx.pos("tol", (), lo=Fraction(1, 100), hi=1)
    tolg = ctx.pos("tolg", (), lo=Fraction(1, 100), hi=1)
    mod = qh if c["fam"] == "qed" else sc
    dm0 = None if c.get("guess") else B.M(B.new("D"))
    kw = dict(dm0=dm0) if dm0 is not None else {}
    if c.get("wrap"):
        mf.__dict__.update(conv_tol=tol, conv_tol_grad=tolg)
        r = mf.kernel(**kw)
        conv, e, eps, C, occ = mf.converged, mf.e_tot, mf.mo_energy, mf.mo_coeff, mf.mo_occ
        ctx.eq("returned-energy", r, e)
    else:
        conv, e, eps, C, occ = mod.kernel(mf, conv_tol=tol, conv_tol_grad=tolg, conv_check=check, dump_chk=False, **kw)
    conv = bool(conv)
    calls = B.energies[1:] if c.get("guess") and c["fam"] != "qed" else B.energies
    E = [x for x, _ in calls]
    state = lambda d, K, z: n.array([d, B.hfun(d, B.p, K, z, B.c), B.vfun(d, B.p, K, z, B.c)])
    if c["cycles"] == 0:
        ctx.true("no-cycles", not conv)
        d = dm0[0, 0]
        ctx.eq("energy", e, E[-1])
        ctx.eq("energy-of-the-guess", n.array(list(calls[-1][1])), state(d, (B.p, d), B.z))
        return
    ncyc = len(E) - 1 - (1 if conv and check else 0)
    ctx.true("cycles", 1 <= ncyc <= c["cycles"] and mf.cycles == ncyc)
    par = lambda k: B.pars[k] if c["fam"] != "qed" else ctx.num(0)

    def met(k):
        de, g = E[k + 1] - E[k], absv(ctx, B.grads[k]) + par(k)
        return conj([absv(ctx, de) < tol, g < tolg])
    for k in range(ncyc - 1):
        ctx.true("stops-at-once", ~met(k) if not isinstance(met(k), (bool, np.bool_)) else not met(k))
    last = met(ncyc - 1)
    if conv:
        ctx.true("convergence-earned", last)
    else:
        ctx.true("convergence-missed", ~last if not isinstance(last, (bool, np.bool_)) else not last)
        ctx.true("all-cycles-used", ncyc == c["cycles"])
    d = 2 * C[0, 0] * C[0, 0]
    if conv and check:
        z = B.zfun(d) if c["cs"] else B.z
        K = (B.p, d)
        if c["cs"]:
            ctx.eq("displacement", B.z, z)
        ctx.eq("energy-of-the-result", n.array(list(calls[-1][1])), state(d, K, z), tol=1e-6)
    else:
        # without the final diagonalisation the photon state may lag one cycle behind, nothing else may
        z, K, ph = B.zfun(d) if c["cs"] else B.z, (B.p, d), B.cs_at[-1]
        ctx.eq("energy-of-the-last-cycle", n.array(list(calls[-1][1])), n.array([d, B.hfun(d, B.p, K, z, ph), B.vfun(d, B.p, K, z, ph)]), tol=1e-6)
    for k in range(1, len(B.focks)):        # what damping mixes in
        ctx.true("previous-fock-known", B.focks[k][0] is not None)
        ctx.eq("previous-fock", B.focks[k][0], B.focks[k - 1][1])
    ctx.eq("orbitals", n.array([eps[0], C[0, 0]]), n.array([ctx.real("eps%d" % B.k["eps"]), ctx.real("C%d" % B.k["C"])]))
    ctx.eq("occupation", occ[0], 2)
    ctx.eq("last-energy", e, E[-1])


# ------------------------------------------------------------------ P26
class Stream:
    """a global random generator: unseeded it starts from unknown entropy, each seed selects its own sequence"""

    def __init__(self, ctx, tag):
        self.ctx, self.key, self.n, self.tag = ctx, ("entropy", tag), 0, tag
        self.used = []

    def seed(self, *a):
        k = a[0] if a else None
        if k is None:
            self.key = ("entropy", self.tag, self.n)
        else:
            self.key = tuple(int(x) for x in np.atleast_1d(np.asarray(k)))
        self.n = 0

    def draw(self):
        self.n += 1
        name = "rng_" + "_".join(str(k) for k in self.key) + "_%d" % self.n
        self.used.append(name)
        return self.ctx.real(name)


class FakeProp:
    debug_mpi = False

    def __init__(self, run):
        self.run = run

    def build(self, h1e, lt, trial, geb):
        self.run.log.append(("build", (h1e, lt, trial, geb)))

    def propagate_walkers(self, trial, walkers, lt, eshift=0, verbose=0, **k):
        r = self.run
        r.who.append((self, trial, walkers, lt))
        r.log.append(("propagate", len(r.shifts)))
        r.shifts.append(eshift)
        a = r.stream.draw() if r.stream else r.ctx.real("a%d" % len(r.shifts))
        walkers.s = walkers.s + a + r.kap * eshift
        i = len(r.shifts)
        walkers.weights = r.ctx.pos("w%d" % i, (2,))
        walkers.ehybrid = r.ctx.real("e%d" % i, (2,))
        walkers.eloc = r.ctx.real("l%d" % i, (2,))

    def local_energy(self, h1e, lt, walkers, trial, enuc=0, **k):
        r = self.run
        r.who.append((self, trial, walkers, lt))
        i = len(r.meas)
        r.log.append(("measure", len(r.shifts)))
        m = [r.mu * walkers.s, r.ctx.pos("norm%d" % i), r.ctx.num(0), r.ctx.num(0)]
        r.meas.append((len(r.shifts), walkers.s, walkers.weights.copy(), enuc, m))
        return m

    def dump_flags(self):
        pass

    def __getattr__(self, k):
        if k.startswith("wt_"):
            return 0.0
        raise AttributeError(k)


class Run:
    def __init__(self, ctx, stream=None):
        self.ctx, self.log, self.shifts, self.meas, self.stream = ctx, [], [], [], stream
        self.kap, self.mu = ctx.real("kap"), ctx.real("mu")
        self.who = []


def driver(ctx, run, nsteps, renorm, freq, control, dt, mpi=None):
    n = ctx.np
    q = blank(qmc.QMCbase)
    w = NS(s=ctx.real("s0"), weights=n.ones(2), weights_org=n.ones(2), ehybrid=n.zeros(2), eloc=n.zeros(2), _mpi=fake_mpi(), raw_norm=1.0, nwalkers=2, boson_phiw=None, ncomponents=1,
           dump_flags=lambda *a: None)

    def wc(step, freq=5, method=None, **k):
        run.log.append(("control", step, freq, method))
        if (step + 1) % freq == 0:
            w.weights = w.weights * run.ctx.pos("wc%d" % step)
            w.s = w.s * run.ctx.real("wcs%d" % step)
    w.weight_control = wc
    tr_ = NS(dump_flags=lambda *a: None)
    prop = FakeProp(run)
    q.__dict__.update(verbose=0, stdout=Null(), _mpi=mpi or fake_mpi(), random_seed=7, h1e="h1e", ltensor="lt", geb="geb", trial=tr_, propagator=prop, walkers=w, dt=dt, nsteps=nsteps, print_freq=10,
                      renorm_freq=renorm, stablize_freq=renorm, pop_control_freq=control, pop_control_method="m", property_calc_freq=freq, nuc_energy=ctx.real("enuc"), eshift=ctx.num(0),
                      stacked_variables=["weights", "unscaled_weights", "walker_hybrid_energies", "walker_local_energies"], property_buffer=n.zeros(4, dtype=complex), OAO=True, system=None, mol=None,
                      uhf=False, use_so=False, ncomponents=1, total_time=1.0, taylor_order=6, energy_scheme="hybrid", batched=True, block_decompose_eri=False, chol_thresh=1e-6, nblocks=1, eq_time=0, eq_steps=0,
                      propagator_options={}, walker_options={}, mf=None, fbinteraction=False, hybrid_energy=None)
    for k in ("propagator", "observables", "weight_control", "ortho", "io", "tot"):
        q.__dict__["wt_" + k] = 0.0
    q.dump_flags = lambda *a, **k: None

    def ortho(*a, **k):
        run.log.append(("ortho", len(run.shifts)))
    q.orthogonalization = q.orthonormalization = ortho
    return q, w, prop


@scenario("P26", "time_loop", quick=[dict(steps=4, renorm=2, freq=2, control=2), dict(steps=5, renorm=3, freq=1, control=2), dict(steps=3, renorm=1, freq=3, control=1), dict(steps=4, renorm=4, freq=3, control=9),
                                     dict(steps=4, renorm=2, freq=2, control=2, fn=True), dict(steps=2, renorm=2, freq=1, control=2, given=True),
                                     dict(steps=2, renorm=1, freq=2, control=2, fn=True, given=True)],
          thorough=[dict(steps=8, renorm=3, freq=2, control=4), dict(steps=6, renorm=2, freq=3, control=2)],
          about="every step propagates the population once with the current energy shift, then controls the weights, then accumulates averages; on the measurement schedule the recorded energy is numerator "
                "over denominator of the estimator on the population of that step; the shift fed back is the weighted hybrid energy over the block just finished; walkers are orthonormalised "
                "before the run and at least once in every scheduled number of propagations",
          bounds="3-8 steps, schedules of 1-4 steps, any time step, weights and energies; propagation, weight control and estimator are arbitrary functions of the population")
def time_loop(ctx):
    c = ctx.cfg
    n = ctx.np
    dt = ctx.pos("dt", (), lo=Fraction(1, 100), hi=1)
    r = Run(ctx)
    q, w, prop = driver(ctx, r, c["steps"], c["renorm"], c["freq"], c["control"], dt)
    p2, t2 = prop, q.trial
    if c.get("given"):                                     # propagator and trial handed to this run
        p2, t2 = FakeProp(r), NS(dump_flags=lambda *a: None)
        times, en = qmc.kernel(q, p2, t2) if c.get("fn") else q.kernel(p2, t2)
    else:
        times, en = qmc.kernel(q) if c.get("fn") else q.kernel()
    b = [x for x in r.log if x[0] == "build"]
    ctx.true("built-with-own-integrals", len(b) >= 1 and all(x[1][0] == "h1e" and x[1][1] == "lt" and x[1][2] is t2 and x[1][3] == "geb" for x in b))
    ctx.true("propagator-and-trial-of-the-run", len(r.who) > 0 and all(a is p2 and t is t2 and v is w and l == "lt" for a, t, v, l in r.who))
    ctx.true("one-propagation-per-step", len(r.shifts) == c["steps"])
    # replay of the schedule
    s, sh, blk = ctx.real("s0"), ctx.num(0), []
    exp, k = [], 0
    for i in range(c["steps"]):
        ctx.eq("shift", r.shifts[i], sh)
        s = s + ctx.real("a%d" % (i + 1)) + r.kap * r.shifts[i]
        wt = ctx.pos("w%d" % (i + 1), (2,))
        if (i + 1) % c["control"] == 0:
            wt = wt * ctx.pos("wc%d" % i)
            s = s * ctx.real("wcs%d" % i)
        blk.append((wt, ctx.real("e%d" % (i + 1), (2,))))
        if (i + 1) % c["freq"] == 0:
            sh = sum(n.sum(a * e) for a, e in blk) / sum(n.sum(a) for a, e in blk)
            blk = []
            exp.append((i + 1, s, wt))
    ctx.true("measurements", len(r.meas) == len(exp) == len(en) == len(times))
    for j, ((i, s_, wt, enuc, m), (i2, s2, w2)) in enumerate(zip(r.meas, exp)):
        ctx.true("measured-at", i == i2)
        ctx.eq("population-measured", s_, s2)
        ctx.eq("weights-measured", wt, w2)
        ctx.eq("nuclear-energy", enuc, q.nuc_energy)
        ctx.eq("energy", en[j] * m[1], m[0])
        if j:
            ctx.eq("times", times[j] - times[j - 1], dt * c["freq"])
    ctl = [x for x in r.log if x[0] == "control"]
    if not c.get("fn"):
        ctx.true("control", [x[1:] for x in ctl] == [(i, c["control"], "m") for i in range(c["steps"])])
    since, ok, seen = 0, True, False
    for x in r.log:
        if x[0] == "ortho":
            since, seen = 0, True
        elif x[0] == "propagate":
            since += 1
            ok = ok and seen and since <= c["renorm"]
    ctx.true("orthonormalised-in-time", ok)


@scenario("P26", "seeds", quick=[dict(size=1), dict(size=2), dict(size=3)],
          about="a run is reproducible from its seed on every rank whatever the generator's state before it, and different ranks draw from different sequences",
          bounds="1-3 ranks, 2 steps; the global generator is modelled as one unknown sequence per seed")
def seeds(ctx):
    c = ctx.cfg
    out = []
    for again in range(2):
        for rank in range(c["size"]):
            st = Stream(ctx, "%d%d" % (again, rank))
            r = Run(ctx, st)
            q, w, prop = driver(ctx, r, 2, 1, 1, 1, ctx.num(1), mpi=fake_mpi(c["size"], rank))
            ctx.stream = st
            q.kernel()
            out.append(st.used)
            ctx.true("draws", len(st.used) == 2)
    N = c["size"]
    for rank in range(N):
        for x, y in zip(out[rank], out[N + rank]):
            ctx.eq("reproducible", ctx.real(x), ctx.real(y))
        for other in range(rank):
            ctx.true("own-sequence", not set(out[rank]) & set(out[other]))


@scenario("P26", "options", quick=[dict()],
          about="the settings of one calculation do not change another one's: walker and propagator options given to an object are its own, and objects created afterwards start from the defaults",
          bounds="any number of walkers and option values; three objects")
def options(ctx):
    c = ctx.cfg
    ctx.patch(qmc.QMCbase, "build", lambda self: None)
    mol = NS(nmodes=0)
    default = dict(gw.default_walker_options)
    x = ctx.real("opt")
    a = qmc.QMCbase(mol, num_walkers=17, walker_options={"extra": x}, propagator_options={"other": x}, verbose=0)
    b = qmc.QMCbase(mol, num_walkers=None, verbose=0)
    d = qmc.QMCbase(mol, num_walkers=23, verbose=0)
    left = dict(gw.default_walker_options)
    gw.default_walker_options.clear()
    gw.default_walker_options.update(default)
    ctx.true("defaults-unchanged", set(left) == set(default) and all(same(left[k], default[k]) for k in default if not isinstance(default[k], str) and default[k] is not None))
    ctx.true("own-number", a.walker_options.get("nwalkers") == 17 and d.walker_options.get("nwalkers") == 23)
    ctx.true("default-number", b.walker_options.get("nwalkers") == default.get("nwalkers"))
    ctx.eq("own-option", a.walker_options["extra"], x)
    ctx.eq("own-propagator-option", a.propagator_options["other"], x)
    ctx.true("no-leak", "extra" not in b.walker_options and "other" not in b.propagator_options and "extra" not in d.walker_options)


@scenario("P26", "serial_communicator", quick=[dict()],
          about="without MPI the stand-in communicator is a single rank: every reduction, gather, scatter, broadcast and matched send/receive hands back exactly the data it was given",
          bounds="2x2 arrays, any contents")
def serial_communicator(ctx):
    n = ctx.np
    from openms import __mpi__ as m
    comm = m.FakeComm()
    x = ctx.cplx("x", (2, 2))
    keep = x.copy()
    for name in ("Gather", "Gatherv", "Allgather", "Allreduce", "Reduce", "Scatter", "Scatterv"):
        r = ctx.cplx("r", (2, 2)).copy()
        getattr(comm, name)(x, r)
        ctx.eq("buffer-" + name, r, keep)
    ctx.eq("bcast", comm.bcast(x), keep)
    ctx.eq("Bcast", comm.Bcast(x), keep)
    g = comm.gather(x)
    ctx.true("gather-length", len(g) == 1)
    ctx.eq("gather", g[0], keep)
    s = comm.allreduce(x, op=None)
    ctx.eq("allreduce", s, keep)
    s *= 0
    ctx.eq("untouched", x, keep)
    ctx.eq("scatter", comm.scatter(n.array([x])), keep)
    y = ctx.cplx("y", (2, 2))
    ctx.eq("bcast-again", comm.bcast(y), y)
    ctx.eq("Bcast-again", comm.Bcast(y), y)
    ctx.eq("gather-again", comm.gather(y)[0], y)
    ctx.eq("allreduce-again", comm.allreduce(y, op=None), y)
    ctx.eq("scatter-again", comm.scatter(n.array([y])), y)
    comm.Isend(x, dest=0, tag=1).wait()
    comm.Isend(y, dest=0, tag=2).wait()
    for tag, ref in ((2, y), (1, keep)):
        r = ctx.cplx("r", (2, 2)).copy()
        comm.Recv(r, source=0, tag=tag)
        ctx.eq("receive", r, ref)
    for c in (comm, comm.Split(0, 0)):
        ctx.true("one-rank", c.Get_size() == 1 and c.Get_rank() == 0 and c.size == 1 and c.rank == 0)
    w = m.MPIWrapper()
    ctx.true("wrapper", w.size == w.comm.Get_size() and w.rank == w.comm.Get_rank())
