"""P22: cavity coupled-cluster residuals against the similarity-transformed Hamiltonian"""
import itertools
import math
import random
from .common import *
from vsym.registry import scenario
from openms.lib.ov_blocks import make_two_e_blocks_full, one_e_blocks

import openms.mqed.qedcc_equations as eq_plain
import openms.mqed.myqedcc_equations as eq_my
import openms.mqed.myqedcc_equations_opt as eq_opt

MAIN = ("plain", "intermediates", "optimised")
IMPL = dict(plain=(eq_plain, "qedccsd_sn_u2n"), intermediates=(eq_my, "new_qedccsd_sn_u2n"), optimised=(eq_opt, "new_qedccsd_sn_u2n"))


def unfused(mod):
    """the term-by-term forms kept next to the optimised ones (first photon order)"""
    def run(*a):
        im = mod.Imds(*a)
        im.build(*a)
        return [getattr(mod, "qedccsd_" + k)(*a, im) for k in ("T1", "T2", "Sn", "U1n", "U2n")]
    return run


for _n, _m in (("intermediates", eq_my), ("optimised", eq_opt)):
    IMPL[_n + "-terms"] = (_m, unfused(_m))


# ---- the reference: vectors over (determinant, photon numbers), dictionaries of coefficients -----------
class Space:
    def __init__(self, no, n, nm, one):
        self.no, self.n, self.nm = no, n, nm
        self.det0 = tuple(range(no))
        self.one = one

    def exc(self, p, q, d):
        """a_p^+ a_q on a determinant"""
        if q not in d:
            return None
        s = (-1) ** d.index(q)
        r = [x for x in d if x != q]
        if p in r:
            return None
        s *= (-1) ** sum(1 for x in r if x < p)
        return tuple(sorted(r + [p])), s

    def strings(self, ops, d):
        """product of a^+_p (p, 1) and a_p (p, 0), leftmost first, on a determinant"""
        s = 1
        d = list(d)
        for p, c in reversed(ops):
            if c:
                if p in d:
                    return None
                k = sum(1 for x in d if x < p)
                d.insert(k, p)
            else:
                if p not in d:
                    return None
                k = d.index(p)
                d.pop(k)
            s *= (-1) ** k
        return tuple(d), s

    def level(self, d):
        return sum(1 for x in d if x >= self.no)


def add(v, k, x):
    if k in v:
        v[k] = v[k] + x
    else:
        v[k] = x


def raise_(b, J):
    """b^dagger_J... on a photon state; coefficient squared is returned to stay rational: states are (b^dagger)^n |0>"""
    b = list(b)
    for j in J:
        b[j] += 1
    return tuple(b)


class Ref:
    """photon states are unnormalised (b^dagger)^n|0>, on which b^dagger has coefficient 1 and b has coefficient n"""

    def __init__(self, sp, F, V, w, g, T1, T2, Sn, U1, U2, kmax):
        self.sp, self.kmax = sp, kmax
        no, n, nm = sp.no, sp.n, sp.nm
        nz = lambda x: not (isinstance(x, S) and not x.d) and not (not isinstance(x, S) and x == 0)
        self.T = []          # (coef, [(p, q), ...], J)
        for a, i in np.ndindex(n - no, no):
            if nz(T1[a, i]):
                self.T.append((T1[a, i], [(a + no, i)], ()))
        pairs = [(a, b, i, j) for a in range(n - no) for b in range(a) for i in range(no) for j in range(i)]
        for a, b, i, j in pairs:
            if nz(T2[a, b, i, j]):
                self.T.append((T2[a, b, i, j], [(a + no, i), (b + no, j)], ()))
        for k in range(len(Sn)):
            for J in itertools.product(range(nm), repeat=k + 1):
                if nz(Sn[k][J]):
                    self.T.append((Sn[k][J] / math.factorial(k + 1), [], J))
        for k in range(len(U1)):
            for J in itertools.product(range(nm), repeat=k + 1):
                for a, i in np.ndindex(n - no, no):
                    if nz(U1[k][J + (a, i)]):
                        self.T.append((U1[k][J + (a, i)] / math.factorial(k + 1), [(a + no, i)], J))
                if U2[k] is not None:
                    for a, b, i, j in pairs:
                        x = U2[k][J + (a, b, i, j)]
                        if nz(x):
                            self.T.append((x / math.factorial(k + 1), [(a + no, i), (b + no, j)], J))
        # merge equal operators
        m = {}
        for c, e, J in self.T:
            add(m, (tuple(e), tuple(sorted(J))), c)
        self.T = [(c, list(e), J) for (e, J), c in m.items()]
        self.F, self.V, self.w, self.g = F, V, w, g

    def applyT(self, v, maxlev, maxb):
        out = {}
        sp = self.sp
        for (d, b), x in v.items():
            for c, e, J in self.T:
                if sp.level(d) + len(e) > maxlev or sum(b) + len(J) > maxb:
                    continue
                dd, s = d, 1
                for p, q in e:
                    r = sp.exc(p, q, dd)
                    if r is None:
                        break
                    dd, s2 = r
                    s *= s2
                else:
                    add(out, (dd, raise_(b, J)), c * x * s)
        return out

    def expT(self, v, sign, maxlev, maxb):
        tot, term, k = dict(v), dict(v), 0
        while term:
            k += 1
            term = {q: x * Fraction(sign, k) if isinstance(x, S) else x * sign / k for q, x in self.applyT(term, maxlev, maxb).items()}
            for q, x in term.items():
                add(tot, q, x)
        return tot

    def applyH(self, v, maxlev, maxb):
        """normal-ordered Hamiltonian {F} + {V} + sum w b^+b + {g}(b + b^+)"""
        sp, F, V, w, g = self.sp, self.F, self.V, self.w, self.g
        no, n, nm = sp.no, sp.n, sp.nm
        out = {}
        cache = {}

        def ones(d):
            r = []
            for p in range(n):
                for q in range(n):
                    t = sp.exc(p, q, d)
                    if t is not None:
                        dd, s = t
                        r.append((p, q, dd, s))
            return r

        def nform(M, d):
            """sum M_pq {a_p^+ a_q} acting on d"""
            r = {}
            for p, q, dd, s in ones(d):
                add(r, dd, M[p, q] * s)
            for i in range(no):
                add(r, d, -M[i, i])
            return r
        f = np.array([[sum((V[p, i, q, i] for i in range(no)), 0 * V[0, 0, 0, 0]) for q in range(n)] for p in range(n)], dtype=object)
        e0 = sum((V[i, j, i, j] for i in range(no) for j in range(no)), 0 * V[0, 0, 0, 0]) / 2

        def vform(d):
            r = {}
            for p in range(n):
                for q in range(p):
                    for s in d:
                        for t in d:
                            if t < s:
                                z = sp.strings([(p, 1), (q, 1), (t, 0), (s, 0)], d)
                                if z is not None:
                                    add(r, z[0], V[p, q, s, t] * z[1])
            for dd, x in nform(f, d).items():
                add(r, dd, -x)
            add(r, d, -e0)
            return r
        for (d, b), x in v.items():
            if d not in cache:
                h = nform(F, d)
                for dd, y in vform(d).items():
                    add(h, dd, y)
                cache[d] = ({q: y for q, y in h.items() if sp.level(q) <= maxlev},
                            [{q: y for q, y in nform(g[m], d).items() if sp.level(q) <= maxlev} for m in range(nm)])
            h, gs = cache[d]
            if sum(b) <= maxb:
                for q, y in h.items():
                    add(out, (q, b), y * x)
                for m in range(nm):
                    if b[m] and sp.level(d) <= maxlev:
                        add(out, (d, b), w[m] * b[m] * x)
            for m in range(nm):
                for q, y in gs[m].items():
                    if sum(b) + 1 <= maxb:
                        add(out, (q, raise_(b, (m,))), y * x)
                    if b[m] and sum(b) - 1 <= maxb:
                        bb = list(b)
                        bb[m] -= 1
                        add(out, (q, tuple(bb)), y * x * b[m])
        return out

    def residual(self):
        sp, K = self.sp, self.kmax
        top = min(4, sp.no, sp.n - sp.no)
        v = {(sp.det0, (0,) * sp.nm): self.sp.one}
        v = self.expT(v, 1, 4, K + 1)
        v = self.applyH(v, 2, K)
        self.res = self.expT(v, -1, 2, K)
        return self

    def amp(self, e, J):
        """<0| (excitation e, photons J)^dagger |residual>"""
        sp = self.sp
        d, s = sp.det0, 1
        for p, q in e:
            r = sp.exc(p, q, d)
            if r is None:
                return 0 * self.sp.one
            d, s2 = r
            s *= s2
        b = raise_((0,) * sp.nm, J)
        x = self.res.get((d, b))
        if x is None:
            return 0 * self.sp.one
        nrm = 1
        for m in b:
            nrm *= math.factorial(m)
        return x * s * nrm


# ---- inputs ------------------------------------------------------------------------------------------
def antis(x, k):
    """antisymmetrise the trailing (a, b, i, j) axes"""
    x = x - x.swapaxes(k, k + 1)
    return x - x.swapaxes(k + 2, k + 3)


class Inputs:
    """full: every independent entry of every tensor is an input. Otherwise every tensor is a fixed generic matrix times an input of its own
    (each product of tensors, i.e. each diagram, is then a separate monomial)"""

    def __init__(self, ctx, no, nv, nm, full):
        self.ctx, self.no, self.nv, self.nm, self.full = ctx, no, nv, nm, full
        self.rnd = random.Random(17)

    def new(self, name, shape):
        ctx = self.ctx
        if self.full and name in self.full:
            return ctx.real(name, shape)
        c = ctx.real(name, ())
        v = [Fraction(self.rnd.choice([-5, -4, -3, -2, -1, 1, 2, 3, 4, 5]), 3) for _ in range(int(np.prod(shape)))]
        return ctx.arr(np.array([c * x if ctx.mode == "sym" else c * float(x) for x in v], dtype=object if ctx.mode == "sym" else float).reshape(shape))

    def unique(self, name, shape, idx, rule):
        """tensor filled from its independent entries"""
        ent = {}
        for k in idx(shape):
            key, s = rule(k)
            if s:
                ent.setdefault(key, None)
        v = self.new(name, (len(ent),))
        for q, key in enumerate(sorted(ent)):
            ent[key] = v[q]
        out = self.ctx.np.zeros(shape)
        for k in idx(shape):
            key, s = rule(k)
            if s:
                out[k] = ent[key] * s
        return out


def sgn_sorted(t):
    if len(set(t)) != len(t):
        return t, 0
    s, l = 1, list(t)
    for a in range(len(l)):
        for b in range(a + 1, len(l)):
            if l[a] > l[b]:
                s = -s
    return tuple(sorted(l)), s


def tensors(ctx, no, nv, nm, nf1, nf2, u2, full):
    n = no + nv
    In = Inputs(ctx, no, nv, nm, full)
    cls = lambda p, q: ("v" if p >= no else "o") + ("v" if q >= no else "o")

    def sym1(name, lead=()):
        out = ctx.np.zeros(tuple(lead) + (n, n))
        parts = {"oo": (range(no), range(no)), "ov": (range(no), range(no, n)), "vv": (range(no, n), range(no, n))}
        for L in np.ndindex(*lead):
            for c, (A, B) in parts.items():
                ks = [(p, q) for p in A for q in B if p <= q]
                v = In.new(name + c + "".join(map(str, L)), (len(ks),))
                for k, (p, q) in enumerate(ks):
                    out[L + (p, q)] = out[L + (q, p)] = v[k]
        return out
    F, g = sym1("F"), sym1("g", (nm,))
    w = ctx.pos("w", (nm,))
    V = ctx.np.zeros((n,) * 4)
    groups = {}
    for p, q in itertools.combinations(range(n), 2):
        for r, s in itertools.combinations(range(n), 2):
            if (p, q) <= (r, s):
                groups.setdefault("".join(sorted([cls(p, q), cls(r, s)])), []).append((p, q, r, s))
    for c, ks in sorted(groups.items()):
        v = In.new("V" + c, (len(ks),))
        for k, (p, q, r, s) in enumerate(ks):
            for (a, b), s1 in (((p, q), 1), ((q, p), -1)):
                for (e, f), s2 in (((r, s), 1), ((s, r), -1)):
                    V[a, b, e, f] = V[e, f, a, b] = v[k] * (s1 * s2)
    T1 = In.new("T1", (nv, no))

    def double(name, k):
        shp = (nm,) * k + (nv, nv, no, no)

        def rule(x):
            J, (a, b, i, j) = x[:k], x[k:]
            v, s1 = sgn_sorted((a, b))
            o, s2 = sgn_sorted((i, j))
            return tuple(sorted(J)) + v + o, s1 * s2
        return In.unique(name, shp, lambda s: np.ndindex(*s), rule)

    def single(name, k, tail):
        shp = (nm,) * k + tail
        return In.unique(name, shp, lambda s: np.ndindex(*s), lambda x: (tuple(sorted(x[:k])) + x[k:], 1))
    T2 = double("T2", 0)
    Sn = [single("S%d_" % (k + 1), k + 1, ()) for k in range(nf1)]
    U1 = [single("U1%d_" % (k + 1), k + 1, (nv, no)) for k in range(nf2)]
    U2 = [double("U2%d_" % (k + 1), k + 1) if u2 else None for k in range(nf2)]
    return F, V, w, g, T1, T2, Sn, U1, U2


ALLT = ("T1", "T2")
AMP = ("T1", "T2", "S1_", "U11_", "U21_")


Q = lambda impl, no, nv, nm, nf1, nf2, u2, **k: dict(impl=impl, no=no, nv=nv, nm=nm, nf1=nf1, nf2=nf2, u2=u2, **k)


@scenario("P22", "residual",
          quick=[Q(i, *t) for i in MAIN for t in ((2, 2, 1, 1, 1, False), (2, 2, 1, 1, 1, True), (2, 2, 2, 1, 1, True), (2, 2, 2, 2, 2, False), (2, 2, 1, 2, 2, True),
                                                 (3, 3, 1, 1, 1, True), (2, 3, 1, 2, 1, True), (3, 2, 3, 1, 1, False))]
          + [Q(i + "-terms", *t) for i in MAIN[1:] for t in ((3, 3, 1, 1, 1, True), (2, 2, 2, 1, 1, True))]
          + [Q("optimised", 3, 3, 1, 2, 2, True), Q("optimised", 2, 2, 1, 1, 1, False, full=AMP), Q("optimised", 3, 2, 2, 2, 2, True)],
          thorough=[Q(i, *t) for i in MAIN for t in ((1, 1, 1, 2, 2, True), (2, 2, 3, 2, 2, False), (4, 3, 1, 1, 1, False), (3, 3, 2, 1, 1, True))]
          + [Q(i, 3, 3, 1, 2, 2, True) for i in ("plain", "intermediates")] + [Q("intermediates", 3, 2, 2, 2, 2, True)]
          + [Q(i, 2, 3, 2, 2, 2, True) for i in ("intermediates", "optimised")]
          + [Q(i, 2, 2, 1, 1, 1, True, full=AMP) for i in MAIN] + [Q("optimised", 2, 2, 1, 2, 2, True, full=AMP + ("S2_", "U12_", "U22_"))],
          about="the residual tensors of all three implementations equal <mu, n| exp(-T) H exp(T) |0> evaluated in the full determinant x photon space, for cluster operators with "
                "doubles, photon powers, and photon-dressed singles and doubles",
          bounds="1-3 modes, 2-3 occupied and virtual spin orbitals (thorough 4), first and second photon order (with dressed doubles of second order: one mode, the documented "
                 "limit of that equation); integrals and amplitudes: fixed generic tensors each times its own input (so each diagram is its own monomial), or every amplitude entry an input", limit=600)
def residual(ctx):
    c = ctx.cfg
    no, nv, nm, nf1, nf2, u2 = (c[k] for k in ("no", "nv", "nm", "nf1", "nf2", "u2"))
    F, V, w, g, T1, T2, Sn, U1, U2 = tensors(ctx, no, nv, nm, nf1, nf2, u2, c.get("full", ()))
    o, v = slice(0, no), slice(no, no + nv)
    blk = lambda M: one_e_blocks(M[..., o, o].copy(), M[..., o, v].copy(), M[..., v, o].copy(), M[..., v, v].copy())
    I = make_two_e_blocks_full(V.copy(), *([no, nv] * 4))
    H = ctx.np.zeros(nm)
    cp = lambda l: [None if x is None else x.copy() for x in l]
    amps = (T1.copy(), T2.copy(), cp(Sn), cp(U1), cp(U2))
    mod, fn = IMPL[c["impl"]]
    run = getattr(mod, fn) if isinstance(fn, str) else fn
    r1, r2, rs, ru, ru2 = run(blk(F), I, w.copy(), blk(g), blk(g), H, H, nf1, nf2, amps)
    one = ctx.num(1)
    ref = Ref(Space(no, no + nv, nm, one), F, V, w, g, T1, T2, Sn, U1, U2, max(nf1, nf2)).residual()

    def tens(k, rank):
        shp = (nm,) * k + (nv,) * rank + (no,) * rank
        out = ctx.np.zeros(shp)
        for x in np.ndindex(*shp):
            J, V_, O_ = x[:k], x[k:k + rank], x[k + rank:]
            if len(set(V_)) < rank or len(set(O_)) < rank:
                continue
            out[x] = ref.amp([(a + no, i) for a, i in zip(V_, O_)], J)
        return out
    ctx.eq("singles", r1, tens(0, 1))
    ctx.eq("doubles", r2, tens(0, 2))
    for k in range(nf1):
        ctx.eq("photon-%d" % (k + 1), rs[k], tens(k + 1, 0))
    for k in range(nf2):
        ctx.eq("singles-photon-%d" % (k + 1), ru[k], tens(k + 1, 1))
        if u2 and not (nm > 1 and k):      # documented: second-order dressed doubles are single-mode
            ctx.eq("doubles-photon-%d" % (k + 1), ru2[k], tens(k + 1, 2))
