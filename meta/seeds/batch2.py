import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mkseed import seed
Q, M = "openms/qmc/", "openms/mqed/"
seed("c01-photon-rdm-cutoff", "P23", M + "qedfci.py",
 [('''    t1 = numpy.zeros((nmode,) + cishape)
    for imode in range(nmode):
        nboson = boson_states[imode]
''', '''    t1 = numpy.zeros((nmode,) + cishape)
    for imode in range(nmode):
        nboson = min(boson_states)
''')],
 "two modes with different photon cutoffs and population in the upper levels of the larger one",
 "the photon density matrix leaves out the levels of a mode above the smallest cutoff",
 '''
import numpy as np
from openms.mqed import qedfci as f
r = np.random.RandomState(1)
norb, nelec, bs = 2, (1, 1), [1, 3]
shape = (2, 2) + tuple(b + 1 for b in bs)
v = r.rand(*shape)
got = f.make_rdm1p(v, norb, nelec, 2, bs)
ref = np.zeros((2, 2))
def ann(v, ax):
    out = np.zeros_like(v)
    n = v.shape[ax]
    for k in range(n - 1):
        s0 = [slice(None)] * v.ndim; s1 = list(s0)
        s0[ax] = k; s1[ax] = k + 1
        out[tuple(s0)] = v[tuple(s1)] * np.sqrt(k + 1)
    return out
t = [ann(v, 2), ann(v, 3)]
for a in range(2):
    for b in range(2):
        ref[a, b] = np.sum(t[a] * t[b])
print(got, ref)
assert np.allclose(got, ref)
''')
seed("c02-dse-cross-modes", "P24", M + "qedfci.py" if False else "openms/lib/boson.py",
 [("    eri   += numpy.einsum('Xpq, Xrs -> pqrs', gmat_lo, gmat_lo)\n", "    gsum   = gmat_lo.sum(axis=0)\n    eri   += numpy.einsum('pq, rs -> pqrs', gsum, gsum)\n")],
 "a cavity with two modes (for one mode the two expressions agree)",
 "the dipole self-energy handed to the FCI contains products of different modes",
 '''
import numpy as np
from pyscf import gto
from openms.lib import boson
w = np.array([0.5, 0.7])
g = np.array([[0.1, 0, 0.05], [0, 0.02, 0.2]])
def eri(gm):
    mol = gto.M(atom="H 0 0 0; F 0 0.3 1.0", basis="sto-3g", verbose=0)
    return boson.get_integrals4fci(mol, w, gm)[3].reshape(6 ** 4)
e0 = eri(g * 0)
both, first, second = eri(g) - e0, eri(g * np.array([[1], [0]])) - e0, eri(g * np.array([[0], [1]])) - e0
print(abs(both - first - second).max())
assert np.allclose(both, first + second, atol=1e-8)
''')
seed("c06-frame-bra-ket", "P21", M + "scqedhf.py",
 [("                rho_tmp = rho_DO * numpy.outer(zm, zn)\n", "                rho_tmp = rho_DO * numpy.outer(zn, zm)\n")],
 "the off-diagonal photon blocks of the density matrix (traces are unaffected)",
 "bra and ket photon numbers are exchanged in the density matrix of the original frame",
 '''
import numpy as np
from types import SimpleNamespace as NS
from math import factorial
from openms.mqed import scqedhf
mf = object.__new__(scqedhf.RHF)
r = np.random.RandomState(2)
U = np.linalg.qr(r.rand(3, 3))[0]
mf.__dict__.update(ao2dipole=[U], eta=np.array([[0.3, -0.2, 0.5]]), qed=NS(omega=np.array([0.8])), mol=None, verbose=0)
type(mf).get_ovlp = lambda self, mol=None: np.eye(3)
C = np.linalg.qr(r.rand(3, 3))[0]
occ = np.array([2, 0, 0])
out = mf.make_rdm1_org(C, occ, nfock=3)
tot = [x for x in out if np.ndim(x) == 4][0]
dm = 2 * np.outer(C[:, 0], C[:, 0])
d = mf.get_dm_do(dm, U)
z = mf.eta[0] / 0.8
zm = lambda m: np.exp(-z * z / 2) * z ** m / np.sqrt(factorial(m))
from openms.lib.mathlib import *
for m in range(3):
    for n in range(3):
        ref = U @ (d * np.outer(zm(m), zm(n))) @ U.T
        assert np.allclose(tot[m, :, n, :], ref), (m, n)
''')
seed("c08-occupation-offset", "P16", "openms/lib/boson.py",
 [('''            mdim = self.nboson_states[mode]
            idx = 0
            if mode > 0:
                idx = sum(self.nboson_states[:mode])
            bc = self.boson_coeff[idx:idx+mdim, idx].copy()

            bc = bc * bc''', '''            mdim = self.nboson_states[mode]
            idx = 0
            if mode > 0:
                idx = mode * mdim
            bc = self.boson_coeff[idx:idx+mdim, idx].copy()

            bc = bc * bc''')],
 "several modes with different numbers of Fock states",
 "the occupation of a later mode is read from a wrong place",
 '''
import numpy as np
from types import SimpleNamespace as NS
from openms.lib import boson
n = [3, 2]
c = np.zeros((5, 5))
c[:3, 0] = [0.8, 0.6, 0.0]
c[3:, 3] = [0.6, 0.8]
o = NS(nmodes=2, nboson_states=n, boson_coeff=c)
occ = boson.Boson.get_boson_occ(o)
assert np.allclose(occ, [0.36, 0.64]), occ
''')
seed("c09-couplings-first-mode", "P20", "openms/lib/boson.py",
 [("                gmat[mode] *= self.couplings[mode]\n", "                gmat[mode] *= self.couplings[0]\n")],
 "two modes of different coupling strength",
 "every mode gets the coupling strength of the first",
 '''
import numpy as np
from pyscf import gto
from openms.lib import boson
mol = gto.M(atom="H 0 0 0; F 0 0 1.0", basis="sto-3g", verbose=0)
q = boson.Photon(mol, omega=np.array([0.5, 0.7]), vec=np.array([[0, 0, 0.1], [0, 0, 0.3]]))
q.gmat = None
q.get_gmatao()
assert np.allclose(q.gmat[1], 3 * q.gmat[0], atol=1e-10)
''')
seed("c10-rare-orthonormalisation", "P26", Q + "qmc.py",
 [("            if (step + 1) % self.renorm_freq == 0:\n", "            if (step + 1) % (self.renorm_freq * self.property_calc_freq) == 0:\n")],
 "a measurement interval larger than one step",
 "walkers are orthonormalised only every renorm_freq measurements instead of steps",
 '''
from pyscf import gto
from openms.qmc.afqmc import AFQMC
mol = gto.M(atom="H 0 0 0; H 0 0 1.4", unit="Bohr", basis="sto-3g", verbose=0)
q = AFQMC(mol, dt=0.01, total_time=0.1201, num_walkers=4, energy_scheme="hybrid", renorm_freq=2, property_calc_freq=3, verbose=0)
log = []
o, p = q.orthogonalization, q.propagator.propagate_walkers
q.orthogonalization = lambda *a, **k: (log.append("o"), o(*a, **k))[1]
q.propagator.propagate_walkers = lambda *a, **k: (log.append("p"), p(*a, **k))[1]
q.kernel()
print("".join(log))
assert log.count("p") == 12
assert "ppp" not in "".join(log)
''')
seed("c11-parameter-gradient-ignored", "P25", M + "scqedhf.py",
 [("        norm_gorb += norm_eta\n\n        norm_ddm", "        norm_ddm")],
 "orbitals that converge before the variational displacements",
 "an SC/VT run reports convergence while its variational parameters are still moving",
 '''
import numpy as np
from pyscf import gto
from openms.mqed import scqedhf
mol = gto.M(atom="H 0 0 0; F 0 0 1.2", basis="sto-3g", verbose=0)
mf = scqedhf.RHF(mol, cavity_mode=np.array([[0, 0, 0.2]]), cavity_freq=np.array([0.5]))
mf.conv_tol = mf.conv_tol_grad = 1e-3
mf.verbose = 0
mf.kernel()
print(mf.converged, mf.cycles, mf.norm_var_params())
assert (not mf.converged) or mf.norm_var_params() < 1e-3
''')
seed("c12-kick-ground-state", "P27", "openms/qmd/bomd.py",
 [("            force = mol.states[current_state].forces\n", "            force = mol.states[0].forces\n")],
 "dynamics on an excited state",
 "the ground-state forces drive the dynamics of every state",
 '''
import numpy as np
from openms.lib.misc import Molecule
from openms.qmd import bomd
m = Molecule(atom="H 0 0 0; H 0 0 1", basis="sto-3g", verbose=0, nstates=2)
m.veloc = np.zeros((2, 3))
for k in range(2):
    m.states[k].forces = np.full((2, 3), float(k + 1))
md = bomd.BaseMD([m], None, dt=2.0, seed=1)
for s in range(2):
    m.veloc = np.zeros((2, 3))
    md.next_velocity_many_molecule(s)
    assert np.allclose(m.veloc * m.mass.reshape(-1, 1), s + 1), (s, m.veloc)
''')
seed("c13-selected-states", "P28", "openms/models/aggregates.py",
 [("            spectrum = linear_spec(elist, selected, self.evals, self.excdipole1, gamma)\n",
   "            spectrum = linear_spec(elist, range(len(selected)), self.evals, self.excdipole1, gamma)\n")],
 "a selection of states that does not start at the lowest",
 "the spectrum of the lowest states is returned instead of the selected ones'",
 '''
import numpy as np
from openms.models.aggregates import DMA
m = DMA(3, Nexc=3, epsilon=0.0, hopping=0.1, sigma=0.01)
m.kernel()
x = np.linspace(-0.3, 0.3, 11)
s = np.asarray(m.linearabs(x, selected=[2], gamma=0.02))
d = m.evecs[:, 2].sum()
ref = d * d * 0.02 / ((x - m.evals[2]) ** 2 + 0.02 ** 2)
assert np.allclose(s, ref), (s, ref)
''')
