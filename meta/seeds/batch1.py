import sys; sys.path.insert(0, "/verif/meta")
from mkseed import seed
Q = "openms/qmc/"
seed("b01-branch-prob", "P01", Q + "population_control.py",
 [("if p < sort_walker_info[end]['weight'] / w_se", "if p < sort_walker_info[start]['weight'] / w_se")],
 "branching control with a walker above 2 or below 0.1 paired with a partner of different weight, averaged over draws",
 "the pair keeps the light walker with the heavy one's probability: the expected weight of each walker is changed (population biased)",
 '''
import numpy as np
from openms.qmc import population_control as pc
w = np.array([0.05, 1.0, 1.1, 3.0])
n = 2000
acc = np.zeros(4)
for r in (np.arange(n) + 0.5) / n:
    np.random.rand = lambda *a: r
    nw, nwt = pc.control_func_dict["branching"](["a", "b", "c", "d"], w.copy())
    for x, y in zip(nw, nwt):
        acc["abcd".index(x)] += y
acc /= n
print(acc)
assert np.allclose(acc, w, atol=5e-3), acc
''')
seed("b02-beta-green-conj", "P02", Q + "trial.py",
 [('''        if not trial.half_rotated:
            walker.Gb = backend.einsum("pi, nqi->npq", trial.psib.conj(), walker.Ghalfb)

        ovlp =''', '''        if not trial.half_rotated:
            walker.Gb = backend.einsum("pi, nqi->npq", trial.psib, walker.Ghalfb)

        ovlp =''')],
 "an unrestricted trial whose beta orbitals are complex, without half rotation",
 "the beta Green's function uses the unconjugated trial",
 '''
import numpy as np
from types import SimpleNamespace as NS
from openms.qmc import trial as T
r = np.random.RandomState(0)
c = lambda *s: r.rand(*s) + 1j * r.rand(*s)
pa, pb, wa, wb = c(4, 2), c(4, 2), c(3, 4, 2), c(3, 4, 2)
t = NS(psia=pa, psib=pb, ncomponents=2, half_rotated=False, boson_psi=None)
w = NS(phiwa=wa, phiwb=wb, logshift=np.zeros(3))
T.calc_trial_walker_ovlp_gf(w, t)
for z in range(3):
    for G, p, x in ((w.Ga, pa, wa), (w.Gb, pb, wb)):
        ref = (x[z] @ np.linalg.inv(p.conj().T @ x[z]) @ p.conj().T).T
        assert np.allclose(G[z], ref), "Green's function"
''')
seed("b03-cfb-before-bound", "P07", Q + "propagators.py",
 [('''        xbar = self.rescale_fbias(xbar)  # bound of vbias
        xshift = xi - xbar  # [nwalker, nchol]
''', '''        cfb = backend.sum((xi - 0.5 * xbar) * xbar, axis=1)
        xbar = self.rescale_fbias(xbar)  # bound of vbias
        xshift = xi - xbar  # [nwalker, nchol]
'''), ('''        cfb = backend.sum((xi - 0.5 * xbar) * xbar, axis=1)
        # factors due to MF shift and force bias
''', '''        # factors due to MF shift and force bias
''')],
 "a walker whose force bias exceeds the bound, so that the fields drawn differ from the unbounded bias",
 "the importance factor belongs to the unbounded shift while the walker is propagated with the bounded one",
 '''
import numpy as np
from types import SimpleNamespace as NS
from openms.qmc.propagators import Phaseless
from openms.qmc import propagators
nw, nf, n = 2, 3, 3
p = Phaseless(dt=0.04)
p.__dict__.update(dt=0.04, nfields=nf, num_fake_fields=0, nbarefields=nf, debug_mpi=False, bias_bound=1.0, verbose=0, stdout=None,
                  mf_shift=np.array([0.3j, -0.2j, 0.1j]),
                  wt_random=0., wt_fbias=0., wt_fbias_rescale=0., wt_hs=0., wt_twobody=0.)
seen = {}
p.propagate_HS = lambda w, l, x: seen.update(x=x.copy())
bias = np.array([[12.0, 0.5 - 8j, 0.2], [0.1, 0.2, 0.3j]])
trial = NS(get_vbias=lambda w, l: bias)
w = NS(nwalkers=nw, ncomponents=1, phiwa=np.ones((nw, n, 1)), phiwb=None, _mpi=NS(rank=0, size=1))
np.random.seed(3)
xi = np.random.normal(0.0, 1.0, nf * nw).reshape(nw, nf)
np.random.seed(3)
cfb, cmf = p.propagate_walkers_twobody(trial, w, np.zeros((nf, n, n)))
xbar = xi - seen["x"]
assert np.abs(xbar).max() < 1 + 1e-9
assert np.allclose(cfb, ((xi - 0.5 * xbar) * xbar).sum(1)), "importance factor does not match the fields used"
''')
seed("b05-rank-norm", "P14", Q + "propagators.py",
 [("            e2 = walkers._mpi.comm.allreduce(e2, op=MPI.SUM)\n", "            e2 = walkers._mpi.comm.allreduce(e1, op=MPI.SUM)\n")],
 "more than one rank", "on several ranks the reported two-body energy is a reduction of the one-body energy",
 '''
import numpy as np
from types import SimpleNamespace as NS
from openms.qmc import propagators as P
p = P.Phaseless(dt=0.04)
p.__dict__.update(verbose=0, stdout=None)
E1, E2 = np.array([1.0, 2.0]), np.array([-3.0, 0.5])
P.local_energy_SD_UHF = P.local_energy_SD_RHF = lambda t, w, **k: (E1.copy(), E2.copy())
other = {}
class C:
    def allreduce(self, x, op=None): return 2 * x      # a second rank with the same walkers
def run(size):
    w = NS(weights=np.array([0.7, 1.9]), ncomponents=2, _mpi=NS(size=size, comm=C(), rank=0), Ghalfa=None)
    t = NS(ovlp_with_walkers_gf=lambda w: None, half_rotated=True, ncomponents=2, numdets=1)
    return np.array([x for x in p.local_energy(None, None, w, t, enuc=0.25)], dtype=complex)
one, two = run(1), run(2)
assert np.allclose(two, 2 * one), (one, two)
''')
seed("b07-short-tail", "P12", Q + "tools.py",
 [("m = max(1, len(energies) // N)", "m = len(energies) // N")],
 "a series shorter than N (the tail length rounds to zero)",
 "the tail statistics silently average the whole series including the equilibration part",
 '''
from openms.qmc.tools import get_mean_std
m, s = get_mean_std([10.0, 5.0, 1.0], N=10)
assert abs(m - 1.0) < 1e-12 and abs(s) < 1e-12, (m, s)
m, s = get_mean_std(list(range(40)), N=10)
assert abs(m - 37.5) < 1e-12
''')
seed("b08-local-phase-abs", "P08", Q + "propagators.py",
 [("[max(0, backend.cos(backend.angle(iovlp))) for iovlp in ovlp_ratio]", "[abs(backend.cos(backend.angle(iovlp))) for iovlp in ovlp_ratio]")],
 "the local-energy weight scheme and a walker whose overlap ratio has negative real part",
 "walkers that crossed the phase boundary survive instead of being removed",
 '''
import numpy as np
from types import SimpleNamespace as NS
from openms.qmc.propagators import Phaseless
p = Phaseless(dt=0.04)
p.__dict__.update(dt=0.01, energy_scheme="local", ebound=14.0, verbose=0, stdout=None)
w = NS(weights=np.array([1.0, 1.0]), eloc=np.array([0.3, 0.2]), ehybrid=np.zeros(2), ovlp=None)
p.update_weight(w, np.array([1.0, 1.0 + 0j]), np.array([0.9, -0.8 + 0.1j]), np.zeros(2), np.zeros(2), 0.0)
assert w.weights[0] > 0.9 and w.weights[1] == 0, w.weights
''')
seed("b10-rho-normalisation", "P10", Q + "propagators.py",
 [("""walkers.weights, walkers.Gf)
                / backend.sum(walkers.weights)""", """walkers.weights, walkers.Gf)
                / walkers.nwalkers""")],
 "walker weights whose sum differs from the number of walkers (between two population controls)",
 "bosons feel a coupling expectation scaled by the mean weight instead of the average over walkers",
 '''
import numpy as np
from types import SimpleNamespace as NS
from openms.qmc.propagators import PhaselessElecBoson as P
p = P(dt=0.04)
p.__dict__.update(decouple_bilinear=False, verbose=0, stdout=None)
r = np.random.RandomState(1)
w = NS(nwalkers=2, ncomponents=1, weights=np.array([0.4, 0.7]), Ghalfa=r.rand(2, 3, 1) + 0j, boson_phiw=None,
       get_boson_bdag_plus_b=lambda t, b: np.zeros(1))
p.update_GF(NS(psia=np.array([[1.0], [0], [0]], dtype=complex)), w)
assert abs(np.trace(w.rho) - 2 * np.average(w.Ghalfa[:, 0, 0], weights=w.weights)) < 1e-12, w.rho
''')
seed("b11-comb-offset", "P01", Q + "population_control.py",
 [("offset = np.random.uniform(0, 1.0 / N)", "offset = np.random.uniform(0, 1.0) / len(cumulative_sum) / 2")],
 "the comb method, averaged over its draws",
 "the comb starts only in the first half tooth: walkers get expected weights different from their own",
 '''
import numpy as np
from openms.qmc import population_control as pc
w = np.array([0.3, 1.0, 0.7])
n = 3000
acc = np.zeros(3)
class U:
    r = 0
for U.r in (np.arange(n) + 0.5) / n:
    np.random.uniform = lambda a=0, b=1.0, size=None: a + (b - a) * U.r
    nw, nwt = pc.control_func_dict["comb"](["a", "b", "c"], w.copy())
    for x, y in zip(nw, nwt):
        acc["abc".index(x)] += y
acc /= n
assert np.allclose(acc, w, atol=5e-3), acc
''')
