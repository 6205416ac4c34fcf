"""Executor: path exploration, solver queries, replay, evidence."""
from __future__ import annotations
import builtins
import contextlib
import importlib
import math
import os
import random as _random
import sys
import time
import traceback
import types
from fractions import Fraction

import numpy as np

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
import z3  # noqa: E402

from . import poly, shim  # noqa: E402
from .poly import S, SBool, GENS, NotExact, Budget, ZERO, ONE, IMAG, evaluate, clear_inverses, realify  # noqa: E402
from .shim import SArr, sarr, issym, shim_np, harness_np  # noqa: E402

REPO = os.environ.get("VSYM_REPO", "/repo")
COEF_TOL = 1e-9
NUM_TOL = 1e-6


class Infeasible(BaseException):
    pass


class PathLimit(Exception):
    pass


class Stop(BaseException):
    pass


# ---------------------------------------------------------------- z3 translation
class Z3Trans:
    def __init__(self):
        self.v = {}
        self.defs = []
        self.roots = {}

    def gen(self, g):
        z = self.v.get(g)
        if z is not None:
            return z
        G = GENS[g]
        z = z3.Real("g%d" % g)
        self.v[g] = z
        k = G.kind
        if k == "var":
            if G.lo is not None:
                self.defs.append(z >= _q(G.lo))
            if G.hi is not None:
                self.defs.append(z <= _q(G.hi))
            if G.pos and (G.lo is None or G.lo <= 0):
                self.defs.append(z > 0)
            elif G.nonzero and not G.pos:
                self.defs.append(z != 0)
        elif k == "prime":
            self.defs.append(z == G.arg)
        elif k == "e":
            self.defs += [z > _q(Fraction(27182818, 10 ** 7)), z < _q(Fraction(27182819, 10 ** 7))]
        elif k == "inv":
            self.defs.append(z * self.tr(G.arg) == 1)
        elif k == "sqrt":
            a = self.tr(G.arg)
            self.defs += [z * z == a, z >= 0]
        elif k == "cabs":
            q = realify(G.arg)
            self.defs += [z * z == self.tr(q.real * q.real + q.imag * q.imag), z >= 0]
        elif k == "abs":
            a = self.tr(G.arg)
            self.defs.append(z == z3.If(a >= 0, a, -a))
        elif k == "exp":
            a = self.tr(G.arg)
            self.defs += [z > 0, z3.Implies(a <= 0, z <= 1), z3.Implies(a >= 0, z >= 1), z >= 1 + a]
        elif k == "op" or k == "mat":
            if G.lo is not None:
                self.defs.append(z >= _q(G.lo))
            if G.hi is not None:
                self.defs.append(z <= _q(G.hi))
        return z

    def power(self, g, e):
        if isinstance(e, Fraction):
            q = e.denominator
            key = (g, q)
            r = self.roots.get(key)
            if r is None:
                base = self.gen(g)
                r = z3.Real("g%d_r%d" % (g, q))
                self.roots[key] = r
                p = r
                for _ in range(q - 1):
                    p = p * r
                self.defs += [p == base, r > 0]
            n = e.numerator
        else:
            r = self.gen(g)
            n = e
        p = r
        for _ in range(abs(n) - 1):
            p = p * r
        if n < 0:
            key = ("inv", g, e)
            t = self.roots.get(key)
            if t is None:
                t = z3.Real("g%d_i%d_%s" % (g, abs(n), str(e).replace("/", "_").replace("-", "m")))
                self.roots[key] = t
                self.defs.append(t * p == 1)
            return t
        return p

    def tr(self, s):
        if s.has_cx() or any(GENS[g].kind == "cabs" for m in s.d for g, _ in m):
            s = realify(s)
            if s.has_i():
                # the value is real: the imaginary part vanishes identically
                s = s.real
        terms = []
        for m, c in s.d.items():
            t = _q(c)
            first = True
            for g, e in m:
                if GENS[g].kind == "i":
                    raise NotExact("imaginary part in a real comparison")
                p = self.power(g, e)
                t = p if (first and c == 1) else t * p
                first = False
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]


def _q(c):
    c = Fraction(c)
    return z3.Q(c.numerator, c.denominator)


def zbool(tr, b):
    if isinstance(b, (bool, np.bool_)):
        return z3.BoolVal(bool(b))
    if b.parts is not None:
        op, parts = b.parts
        l = [zbool(tr, p) for p in parts]
        return z3.Or(*l) if op == "or" else z3.And(*l)
    if b.op in ("==", "!="):
        d = realify(b.d)
        re, im = d.real, d.imag
        c = tr.tr(re) == 0
        if im.d:
            c = z3.And(c, tr.tr(im) == 0)
        return c if b.op == "==" else z3.Not(c)
    t = tr.tr(realify(b.d).real)
    return {"<": t < 0, "<=": t <= 0, ">": t > 0, ">=": t >= 0}[b.op]


def num_bool(b, env):
    if isinstance(b, (bool, np.bool_)):
        return bool(b)
    if b.parts is not None:
        op, parts = b.parts
        f = any if op == "or" else all
        return f(num_bool(p, env) for p in parts)
    v = evaluate(b.d, env)
    if b.op == "==":
        return abs(v) < 1e-9
    if b.op == "!=":
        return abs(v) >= 1e-9
    v = complex(v).real
    return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[b.op]


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.claims = 0
        self.scalars = 0
        self.nontrivial = 0
        self.maxterms = 0
        self.functions = set()
        self.witness = 0
        self.validated = 0

    def as_dict(self):
        d = dict(self.__dict__)
        d["functions"] = sorted(self.functions)
        d["solver_s"] = round(self.solver_s, 3)
        return d


# ---------------------------------------------------------------- symbolic context
class BaseCtx:
    def __init__(self, cfg):
        self.cfg = cfg or {}
        self._stack = contextlib.ExitStack()

    # patch any attribute for the duration of the scenario
    def patch(self, obj, name, val):
        missing = object()
        if isinstance(obj, dict):
            old = obj.get(name, missing)
            obj[name] = val

            def undo():
                if old is missing:
                    obj.pop(name, None)
                else:
                    obj[name] = old
        else:
            old = obj.__dict__.get(name, missing) if hasattr(obj, "__dict__") else getattr(obj, name, missing)
            setattr(obj, name, val)

            def undo():
                if old is missing:
                    try:
                        delattr(obj, name)
                    except AttributeError:
                        pass
                else:
                    setattr(obj, name, old)
        self._stack.callback(undo)

    def module(self, name):
        return importlib.import_module(name)

    # derived inputs -----------------------------------------------------
    def sym(self, name, n, **k):
        """symmetric n x n (or (...,n,n)) real matrix"""
        shape = n if isinstance(n, tuple) else (n, n)
        A = self.real(name, shape, **k)
        idx = [(i, j) for i in range(shape[-1]) for j in range(i)]
        A = A.copy()
        for i, j in idx:
            A[..., i, j] = A[..., j, i]
        return A

    def herm(self, name, n, **k):
        shape = n if isinstance(n, tuple) else (n, n)
        A = self.cplx(name, shape, **k)
        A = A.copy()
        for i in range(shape[-1]):
            A[..., i, i] = (A[..., i, i] + self.np.conj(A[..., i, i])) / 2
            for j in range(i):
                A[..., i, j] = self.np.conj(A[..., j, i])
        return A

    def eri8(self, name, n, **k):
        """8-fold symmetric two-electron integrals (pq|rs), dense n^4"""
        npair = n * (n + 1) // 2
        v = self.real(name, (npair * (npair + 1) // 2,), **k)
        out = self.np.zeros((n,) * 4)
        pair = {}
        for i in range(n):
            for j in range(i + 1):
                pair[i, j] = pair[j, i] = i * (i + 1) // 2 + j
        for p in range(n):
            for q in range(n):
                for r in range(n):
                    for s in range(n):
                        a, b = pair[p, q], pair[r, s]
                        if a < b:
                            a, b = b, a
                        out[p, q, r, s] = v[a * (a + 1) // 2 + b]
        return out

    def int_choice(self, name, lo, hi):
        raise NotImplementedError


class SymCtx(BaseCtx):
    mode = "sym"

    def __init__(self, ex, cfg):
        super().__init__(cfg)
        self.ex = ex
        self.np = harness_np
        self.inputs = {}
        self.rng_n = 0

    def _var(self, name, **k):
        s = poly.new_var(name, **k)
        self.ex.vars[name] = poly.GEN_INDEX[("var", name)]
        return s

    def real(self, name, shape=(), lo=None, hi=None, nonzero=False):
        if shape == ():
            return self._var(name, lo=lo, hi=hi, nonzero=nonzero)
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self._var(name + "[" + ",".join(map(str, i)) + "]", lo=lo, hi=hi, nonzero=nonzero)
        return out.view(SArr)

    def pos(self, name, shape=(), lo=None, hi=None):
        if shape == ():
            return self._var(name, pos=True, lo=lo, hi=hi)
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self._var(name + "[" + ",".join(map(str, i)) + "]", pos=True, lo=lo, hi=hi)
        return out.view(SArr)

    def cplx(self, name, shape=(), **k):
        re, im = self.real(name + ".re", shape, **k), self.real(name + ".im", shape, **k)
        if shape == ():
            return poly.new_cvar(re, im)
        out = np.empty(re.shape, dtype=object)
        for i in np.ndindex(*re.shape):
            out[i] = poly.new_cvar(re[i], im[i])
        return out.view(SArr)

    def arr(self, x):
        return sarr(x)

    def num(self, x):
        return S.const(x)

    def assume(self, cond):
        self.ex.assume(cond)

    def isfork(self):
        return True

    def eq(self, label, a, b=0, tol=None):
        self.ex.claim_eq(label, a, b)

    def ge(self, label, a, b=0):
        self.ex.claim_ge(label, a, b)

    def true(self, label, cond):
        self.ex.claim_true(label, cond)

    def random_fn(self, k):
        return _RandomFns(self).get(k)

    def expect(self, f, draws=1):
        """exact mean of the list f() over uniform draws, and total probability"""
        return self.ex.expect(f)

    def rand_uniform(self, lo=0, hi=1):
        if self.ex.rand is not None:
            return self.ex.rand_draw(lo, hi)
        v = self._var("rnd%d" % self.rng_n, lo=lo, hi=hi)
        self.rng_n += 1
        self.ex.assume(v < hi)
        return v

    def rand_normal(self):
        v = self._var("rnd%d" % self.rng_n)
        self.rng_n += 1
        return v

    def rand_int(self, lo, hi):
        """integer in [lo,hi) decided by a fork"""
        v = self._var("rnd%d" % self.rng_n, lo=lo, hi=hi)
        self.rng_n += 1
        self.ex.assume(v < hi)
        return int(v.floor())

    def call(self, f, *a, **k):
        return f(*a, **k)

    def grad(self, f, x):
        """exact derivative of the scalar f(x) with respect to every entry of x (plain real variables)"""
        y = S.const(f(x))
        xs = np.asarray(x)
        out = np.empty(xs.shape, dtype=object)
        for i in np.ndindex(*xs.shape):
            (m, c), = S.const(xs[i]).d.items()
            assert len(m) == 1 and m[0][1] == 1 and c == 1 and GENS[m[0][0]].kind == "var"
            out[i] = poly.diff(y, m[0][0])
        return out.view(SArr) if xs.shape else out[()]

    def stub_eigh(self, f):
        """f(A, b) -> (values, vectors): the given answer of the eigensolver"""
        self.ex.stubs["eigh"] = f
        self._stack.callback(lambda: self.ex.stubs.pop("eigh", None))


class NumCtx(BaseCtx):
    mode = "num"

    def __init__(self, env, cfg, rng=None, known=()):
        super().__init__(cfg)
        self.np = np
        self.env = dict(env)
        self.rng = rng or _random.Random(1)
        self.records = []
        self.failures = []
        self.tols = {}
        self.rng_n = 0
        self.known = known

    def _val(self, name, lo, hi, pos=False):
        if name not in self.env:
            if lo is None:
                lo = 0.3 if pos else -1.2
            if hi is None:
                hi = max(lo + 1.3, 1.2)
            v = 0.0
            while abs(v) < 0.05:
                v = lo + (hi - lo) * (self.rng.randrange(3, 998) / 1000.0)
                if abs(hi - lo) < 0.2:
                    break
            self.env[name] = v
        return float(self.env[name])

    def real(self, name, shape=(), lo=None, hi=None, nonzero=False):
        if shape == ():
            return self._val(name, lo, hi)
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape)
        for i in np.ndindex(*shape):
            out[i] = self._val(name + "[" + ",".join(map(str, i)) + "]", lo, hi)
        return out

    def pos(self, name, shape=(), lo=None, hi=None):
        if shape == ():
            return self._val(name, lo, hi, True)
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape)
        for i in np.ndindex(*shape):
            out[i] = self._val(name + "[" + ",".join(map(str, i)) + "]", lo, hi, True)
        return out

    def cplx(self, name, shape=(), **k):
        return self.real(name + ".re", shape, **k) + 1j * self.real(name + ".im", shape, **k)

    def arr(self, x):
        return np.asarray(x)

    def num(self, x):
        return float(x)

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Infeasible()

    def eq(self, label, a, b=0, tol=None):
        a = np.array(a)
        b = np.array(b)
        self.records.append((label, "eq", a, b))
        self.tols[label] = tol
        try:
            a2, b2 = np.broadcast_arrays(a, b)
        except ValueError:
            self.failures.append((label, "shape %s vs %s" % (a.shape, b.shape)))
            return
        if a2.dtype == object or b2.dtype == object:
            a2 = a2.astype(complex)
            b2 = b2.astype(complex)
        scale = max(1.0, float(np.max(np.abs(b2))) if b2.size else 1.0)
        d = np.abs(a2 - b2)
        bad = ~(d <= (tol or NUM_TOL) * scale)
        if np.any(bad):
            k = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape) if d.ndim else ()
            self.failures.append((label, "at %s: got %s, expected %s" % (k, a2[k], b2[k])))

    def ge(self, label, a, b=0):
        a = np.asarray(a, dtype=float) if not np.iscomplexobj(np.asarray(a)) else np.asarray(a).real
        b = np.asarray(b)
        self.records.append((label, "ge", a, b))
        d = a - b
        if np.any(~(d >= -1e-9 * np.maximum(1.0, np.abs(b)))):
            self.failures.append((label, "%s >= %s fails" % (a, b)))

    def true(self, label, cond):
        self.records.append((label, "true", bool(cond), True))
        if not bool(cond):
            self.failures.append((label, "false"))

    def random_fn(self, k):
        return _RandomFns(self).get(k)

    def expect(self, f, draws=1, grid=None):
        """midpoint grid over the draws (tolerances of callers account for it)"""
        n = grid or {1: 2000, 2: 60, 3: 16}[draws]
        tot = None
        for idx in np.ndindex(*([n] * draws)):
            self._grid = [(i + 0.5) / n for i in idx]
            self._gpos = 0
            v = np.array([float(x) for x in f()])
            tot = v if tot is None else tot + v
        self._grid = None
        return list(tot / n ** draws), 1.0

    _grid = None

    def rand_uniform(self, lo=0, hi=1):
        if self._grid is not None:
            u = self._grid[self._gpos] if self._gpos < len(self._grid) else 0.5
            self._gpos += 1
            return lo + (hi - lo) * u
        v = self._val("rnd%d" % self.rng_n, lo, hi)
        self.rng_n += 1
        return min(v, np.nextafter(hi, lo))

    def rand_normal(self):
        v = self._val("rnd%d" % self.rng_n, -1.5, 1.5)
        self.rng_n += 1
        return v

    def rand_int(self, lo, hi):
        v = self._val("rnd%d" % self.rng_n, lo, hi)
        self.rng_n += 1
        return int(min(math.floor(v), hi - 1))

    def grad(self, f, x, h=2e-3):
        """seven-point central differences"""
        xs = np.asarray(x, dtype=float)
        out = np.zeros(xs.shape)
        for i in np.ndindex(*xs.shape):
            v = []
            for k in (-3, -2, -1, 1, 2, 3):
                y = xs.copy()
                y[i] += k * h
                v.append(float(np.real(f(y if xs.shape else float(y)))))
            out[i] = (45 * (v[3] - v[2]) - 9 * (v[4] - v[1]) + (v[5] - v[0])) / (60 * h)
        return out if xs.shape else float(out)

    def stub_eigh(self, f):
        import scipy.linalg
        self.patch(scipy.linalg, "eigh", lambda A, b=None, **k: f(A, b))
        self.patch(np.linalg, "eigh", lambda A, **k: f(A, None))


class _RandomFns:
    """symbolic / replayed draws for numpy.random.*"""

    def __init__(self, ctx):
        self.c = ctx

    def get(self, k):
        f = getattr(self, "f_" + k, None)
        if f is None:
            raise NotExact("numpy.random.%s is not modelled" % k)
        return f

    def _fill(self, size, one):
        if size is None:
            return one()
        if isinstance(size, (int, np.integer)):
            size = (int(size),)
        size = tuple(int(x) for x in size)
        if self.c.mode == "sym":
            out = np.empty(size, dtype=object)
            for i in np.ndindex(*size):
                out[i] = one()
            return out.view(SArr)
        out = np.empty(size)
        for i in np.ndindex(*size):
            out[i] = one()
        return out

    def f_seed(self, *a):
        st = getattr(self.c, "stream", None)
        return st.seed(*a) if st is not None else None

    f_SeedSequence = staticmethod(np.random.SeedSequence)

    def f_random(self, size=None):
        return self._fill(size, self.c.rand_uniform)

    f_random_sample = f_random
    f_ranf = f_random
    f_sample = f_random

    def f_rand(self, *shape):
        return self._fill(shape if shape else None, self.c.rand_uniform)

    def f_uniform(self, low=0.0, high=1.0, size=None):
        u = self._fill(size, self.c.rand_uniform)
        return low + (high - low) * u

    def f_normal(self, loc=0.0, scale=1.0, size=None):
        z = self._fill(size, self.c.rand_normal)
        if isinstance(loc, (int, float)) and loc == 0 and isinstance(scale, (int, float)) and scale == 1:
            return z
        return loc + scale * z

    def f_randn(self, *shape):
        return self._fill(shape if shape else None, self.c.rand_normal)

    def f_standard_normal(self, size=None, **k):
        return self._fill(size, self.c.rand_normal)

    def f_randint(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        if size is None:
            return self.c.rand_int(low, high)
        return np.array([self.c.rand_int(low, high) for _ in range(int(np.prod(size)))]).reshape(size)

    def f_permutation(self, n):
        raise NotExact("permutation")

    def f_choice(self, a, size=None, replace=True, p=None):
        # inverse-CDF model: index i is drawn iff  cdf[i-1] <= u < cdf[i]
        n = int(a) if isinstance(a, (int, np.integer)) else len(a)
        pool = np.arange(n) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if p is None:
            p = [Fraction(1, n) if self.c.mode == "sym" else 1.0 / n] * n

        def one():
            u = self.c.rand_uniform()
            acc = 0
            for i in range(n - 1):
                acc = acc + p[i]
                if bool(u < acc):
                    return pool[i]
            return pool[n - 1]
        if not replace and size is not None:
            raise NotExact("choice without replacement")
        if size is None:
            return one()
        k = int(np.prod(size))
        return np.array([one() for _ in range(k)]).reshape(size)

    def f_default_rng(self, *a, **k):
        return types.SimpleNamespace(random=self.f_random, normal=self.f_normal, uniform=self.f_uniform,
                                     standard_normal=self.f_standard_normal, integers=self.f_randint,
                                     choice=self.f_choice)

    f_RandomState = f_default_rng


# ---------------------------------------------------------------- executor
class Violation(Exception):
    def __init__(self, label, detail, env):
        self.label, self.detail, self.env = label, detail, env


class Executor:
    def __init__(self, stats, known_labels=(), solver_timeout_ms=30000, max_paths=4000, deadline=None):
        self.stats = stats
        self.decisions = []
        self.pos = 0
        self.pc = []
        self.vars = {}
        self.known = set(known_labels)
        self.max_paths = max_paths
        self.timeout = solver_timeout_ms
        self.deadline = deadline
        self.candidates = []      # (label, detail, env)
        self.undecided = []
        self.records = None
        self.nz = []
        self.nzkeys = set()
        self.seen_fail = set()
        self.reached = 0
        self.rng = _random.Random(7)
        self.qr_signs = {}
        self.stubs = {}
        self.rand = None

    # ---- stubs supplied by scenarios
    def expm(self, A):
        f = self.stubs.get("expm")
        if f is None:
            raise NotExact("matrix exponential of a symbolic matrix")
        return f(A)

    def eigh(self, A, b=None):
        f = self.stubs.get("eigh")
        if f is None:
            raise NotExact("eigendecomposition of a symbolic matrix")
        return f(A, b)

    def qr_sign(self, j):
        f = self.stubs.get("qr_sign")
        return f(j) if f else 1

    def note_den(self, o):
        k = o.key()
        if k in self.nzkeys:
            return
        self.nzkeys.add(k)
        self.nz.append(o)

    # ---- solver
    def _solve(self, extra, timeout=None, want_model=False, use_nz=True):
        tr = Z3Trans()
        cs = [zbool(tr, b) for b in self.pc]
        for e in extra:
            cs.append(e(tr) if callable(e) else zbool(tr, e))
        if use_nz:
            for o in self.nz:
                try:
                    if len(o.d) > 40 and o.has_cx():
                        continue
                    o = realify(o)
                    if o.has_i():
                        cs.append(z3.Or(tr.tr(o.real) != 0, tr.tr(o.imag) != 0))
                    else:
                        cs.append(tr.tr(o) != 0)
                except (NotExact, Budget):
                    pass
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        n = 0
        while n < len(tr.defs):
            n = len(tr.defs)
        s.add(*cs)
        s.add(*tr.defs)
        t = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        r = str(r)
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        if r == "sat" and want_model:
            m = s.model()
            env = {}
            for name, g in self.vars.items():
                z = tr.v.get(g)
                v = None
                if z is not None:
                    v = m.eval(z, model_completion=True)
                    env[name] = _zfloat(v)
            return r, env
        return r, None

    # ---- exact expectation over uniform draws (probabilistic execution)
    def expect(self, f):
        """exact mean of f() over the draws made inside it; f returns a list of S"""
        stack = []
        total = None
        mass = ZERO
        n = 0
        while True:
            n += 1
            if n > 4000:
                raise Budget("too many random outcomes")
            self.rand = {"dec": list(stack), "pos": 0, "iv": {}}
            self.ctx.rng_n = 0
            try:
                vals = f()
            finally:
                R = self.rand
                self.rand = None
            p = ONE
            for g, (lo, hi) in R["iv"].items():
                p = p * (hi - lo) / R["len"][g]
            mass = mass + p
            vals = [p * S.const(v) for v in vals]
            total = vals if total is None else [a + b for a, b in zip(total, vals)]
            d = R["dec"]
            while d and d[-1] is False:
                d.pop()
            if not d:
                break
            d[-1] = False
            stack = d
        return total, mass

    def rand_draw(self, lo, hi):
        R = self.rand
        R.setdefault("len", {})
        name = "u%d" % self.ctx.rng_n
        self.ctx.rng_n += 1
        u = poly.new_var("rand_" + name)
        g = poly.GEN_INDEX[("var", "rand_" + name)]
        R["iv"][g] = (S.const(lo), S.const(hi))
        R["len"][g] = S.const(hi) - S.const(lo)
        return u

    def branch_rand(self, b):
        R = self.rand
        gs = [g for g in R["iv"] if any(g == x for m in b.d.d for x, _ in m)]
        if not gs:
            return None
        if len(gs) > 1:
            raise NotExact("comparison of two random draws")
        g = gs[0]
        A, B = {}, {}
        for m, c in b.d.d.items():
            e = [x for x in m if x[0] == g]
            if e and e[0][1] != 1:
                raise NotExact("nonlinear use of a random draw")
            (A if e else B)[tuple(x for x in m if x[0] != g)] = c
        A, B = S(A), S(B)
        t = -B / A
        posA = bool(A > 0)
        lo, hi = R["iv"][g]
        # u < t ?
        if bool(t <= lo):
            less = False
        elif bool(t >= hi):
            less = True
        else:
            if R["pos"] < len(R["dec"]):
                less = R["dec"][R["pos"]]
            else:
                less = True
                R["dec"].append(True)
            R["pos"] += 1
            R["iv"][g] = (lo, t) if less else (t, hi)
        op = b.op
        if op in ("==", "!="):
            return op == "!="
        lt = op in ("<", "<=")
        return (less == lt) if posA else (less != lt)

    def branch(self, b):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget")
        if self.rand is not None and b.parts is None:
            r = self.branch_rand(b)
            if r is not None:
                return r
        if self.pos < len(self.decisions):
            v, _ = self.decisions[self.pos]
            self.pos += 1
            self.pc.append(b if v else negate(b))
            return v
        nb = negate(b)
        rt, _ = self._solve([b], timeout=8000)
        rf, _ = self._solve([nb], timeout=8000) if rt != "unsat" else ("sat", None)
        if rt == "unsat" and rf == "unsat":
            raise Infeasible()
        both = rt != "unsat" and rf != "unsat"
        v = rt != "unsat"
        self.decisions.append((v, both))
        self.pos += 1
        self.pc.append(b if v else nb)
        return v

    def pick_int(self, x, how):
        """concretise floor/trunc(x): fork over the feasible integers"""
        x = x.real
        n = 0
        while True:
            r, env = self._solve([], want_model=True, timeout=8000)
            if r == "unsat":
                raise Infeasible()
            if r == "unknown":
                raise Budget("solver unknown while enumerating an integer")
            full = self.complete(env)
            try:
                val = float(np.real(evaluate(x, full)))
            except Exception:
                val = 0.0
            k = math.floor(val + 1e-12)
            if how == "trunc" and val < 0:
                k = math.ceil(val - 1e-12)
                lo, hi = (x > k - 1), (x <= k) if k < 0 else (x < 1)
                if k == 0:
                    lo, hi = (x > -1), (x < 1)
            elif how == "trunc" and k == 0:
                lo, hi = (x > -1), (x < 1)
            else:
                lo, hi = (x >= k), (x < k + 1)
            c = conj([lo, hi])
            if c is True or (not isinstance(c, bool) and bool(c)):
                return k
            n += 1
            if n > 64:
                raise Budget("too many integer values")

    def complete(self, env):
        e = dict(env)
        for name, g in self.vars.items():
            if name not in e:
                G = GENS[g]
                lo = G.lo if G.lo is not None else (0.25 if G.pos else -1)
                hi = G.hi if G.hi is not None else max(float(lo) + 1.5, 1)
                e[name] = float(lo) + (float(hi) - float(lo)) * self.rng.random()
        return e

    def assume(self, c):
        if isinstance(c, np.ndarray):
            for t in c.ravel():
                self.assume(t)
            return
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise Infeasible()
            return
        self.pc.append(c)

    # ---- claims
    def _rec(self, label, kind, a, b):
        self.stats.claims += 1
        self.reached += 1
        if self.records is not None:
            self.records.append((label, kind, a, b))

    def claim_eq(self, label, a, b):
        A, B = np.asarray(sarr(a)), np.asarray(sarr(b))
        self._rec(label, "eq", A, B)
        try:
            A, B = np.broadcast_arrays(A, B)
        except ValueError:
            return self._fail(label, "shape mismatch %s vs %s" % (A.shape, B.shape), [])
        diffs = []
        pairs = []
        for x, y in zip(A.reshape(-1), B.reshape(-1)):
            self.stats.scalars += 1
            if not isinstance(x, S) or not isinstance(y, S):
                if x is y or x == y:
                    continue
                if isinstance(x, float) or isinstance(y, float):
                    return self._fail(label, "non-finite value", [])
            if not (x.is_num() and y.is_num()):
                self.stats.nontrivial += 1
            self.stats.maxterms = max(self.stats.maxterms, len(x.d), len(y.d))
            d = drop_tiny(clear_inverses(x - y))
            if d.d and (d.has_cx() or any(GENS[g].kind == "cabs" for m in d.d for g, _ in m)):
                d = realify(d)
            if d.d:
                for part in (d.real, d.imag):
                    if not part.d:
                        continue
                    part = drop_tiny(clear_inverses(part))
                    if part.d:
                        diffs.append(part)
            pairs.append((x, y))
        # 1. monomials as free reals (sound over-approximation, linear arithmetic)
        r = self._lra(pairs, diffs)
        if r == "unsat":
            return
        # 2. full nonlinear query under the path condition
        def q(tr):
            return z3.Or(*[z3.Or(tr.tr(d) > _q(Fraction(1, 200)), tr.tr(d) < -_q(Fraction(1, 200))) for d in diffs])
        self._decide(label, [SBool(None, None, ("or", [SBool(d, "!=") for d in diffs]))], q, diffs)

    def _lra(self, pairs, diffs):
        """decide  OR_k lhs_k != rhs_k  with every monomial an independent real"""
        s = z3.Solver()
        s.set("timeout", self.timeout)
        mv = {}

        def lin(d):
            ts = []
            for m, c in d.items():
                v = mv.get(m)
                if v is None:
                    v = mv[m] = z3.Real("m%d" % len(mv))
                ts.append(_q(c) * v)
            return z3.Sum(ts) if ts else z3.RealVal(0)
        cl = []
        if diffs:
            for d in diffs:
                cl.append(lin(d.d) != 0)
        else:
            big = 0
            for x, y in pairs:
                big += len(x.d)
                if big > 20000:
                    # same normal form; hand over the (empty) difference
                    cl.append(lin(drop_tiny(clear_inverses(x - y)).d) != 0)
                    continue
                if x.d == y.d:
                    cl.append(lin(x.d) != lin(y.d))
                else:
                    cl.append(lin(drop_tiny(clear_inverses(x - y)).d) != 0)
        if not cl:
            return "unsat"
        s.add(z3.Or(*cl))
        t = time.time()
        r = str(s.check())
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        return r

    def claim_ge(self, label, a, b):
        A, B = np.asarray(sarr(a)), np.asarray(sarr(b))
        self._rec(label, "ge", A, B)
        A, B = np.broadcast_arrays(A, B)
        neg = []
        for x, y in zip(A.reshape(-1), B.reshape(-1)):
            self.stats.scalars += 1
            d = (x - y).real
            if d.is_num():
                if float(d) < -1e-9:
                    return self._fail(label, "constant %s < 0" % d, [])
                continue
            self.stats.nontrivial += 1
            neg.append(d)
        if not neg:
            return
        self._decide(label, [SBool(None, None, ("or", [SBool(d, "<") for d in neg]))],
                     lambda tr: z3.Or(*[tr.tr(d) < -_q(Fraction(1, 1000)) for d in neg]),
                     None, test=lambda env: any(evaluate(d, env).real < -1e-6 for d in neg))

    def claim_true(self, label, cond):
        self._rec(label, "true", None, None)
        self.stats.scalars += 1
        if isinstance(cond, (bool, np.bool_)):
            # a concrete fact on this path: the solver only has to decide reachability
            if not cond:
                self._fail(label, "condition false on a feasible path", [])
            return
        if isinstance(cond, S):
            cond = SBool(cond, "!=")
        self.stats.nontrivial += 1
        self._decide(label, [negate(cond)], lambda tr: zbool(tr, negate(cond)), None,
                     test=lambda env: not num_bool(cond, env))

    def _fail(self, label, detail, extra):
        r, env = self._solve(extra, want_model=True)
        if r == "unsat":
            return
        if r == "unknown":
            env = self._sample(lambda e: True)
        if env is None:
            self.undecided.append((label, "solver unknown"))
            return
        self._cand(label, detail, env)

    def _cand(self, label, detail, env):
        if label in self.seen_fail:
            return
        self.candidates.append((label, detail, self.complete(env)))
        if sum(1 for c in self.candidates if c[0] == label) >= 3:
            self.seen_fail.add(label)

    def _sample(self, test, n=300):
        for _ in range(n):
            e = self.complete({})
            try:
                if all(num_bool(b, e) for b in self.pc) and test(e):
                    return e
            except Exception:
                continue
        return None

    def _decide(self, label, exact, robust, diffs, test=None):
        if label in self.seen_fail:
            return
        if test is None:
            def test(env):
                return any(abs(evaluate(d, env)) > 1e-3 for d in diffs)
        big = diffs is not None and sum(len(d.d) for d in diffs) > 3000
        tried = False
        if not big:
            box = [lambda tr: z3.And(*[z3.And(tr.gen(g) >= -3, tr.gen(g) <= 3) for g in list(self.vars.values())
                                       if g in tr.v] or [z3.BoolVal(True)])]
            r, env = self._solve([robust] + box, want_model=True, timeout=6000)
            if r == "sat":
                full = self.complete(env)
                self._cand(label, "solver model", full)
                tried = True
            else:
                r, env = self._solve(exact, want_model=True)
                if r == "unsat":
                    return
                if r == "sat":
                    self._cand(label, "solver model (exact)", self.complete(env))
                    tried = True
        # additional points on the same side of the assertion, for replay
        e = self._sample(test)
        if e is not None:
            self._cand(label, "point violating the assertion", e)
            tried = True
        if not tried:
            self.undecided.append((label, "solver unknown"))


def _zfloat(v):
    try:
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            a = v.approx(30)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    except Exception:
        pass
    return float(str(v).replace("?", ""))


def negate(b):
    if isinstance(b, (bool, np.bool_)):
        return not b
    if b.parts is not None:
        op, parts = b.parts
        return SBool(None, None, ("and" if op == "or" else "or", [negate(p) for p in parts]))
    return SBool(b.d, {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[b.op])


def conj(parts):
    ps = []
    for p in parts:
        if isinstance(p, (bool, np.bool_)):
            if not p:
                return False
            continue
        ps.append(p)
    if not ps:
        return True
    return SBool(None, None, ("and", ps))


def disj(parts):
    ps = []
    for p in parts:
        if isinstance(p, (bool, np.bool_)):
            if p:
                return True
            continue
        ps.append(p)
    if not ps:
        return False
    return SBool(None, None, ("or", ps))


def drop_tiny(s):
    if not s.d:
        return s
    mx = max(abs(float(c)) for c in s.d.values())
    if mx < COEF_TOL:
        return ZERO
    t = COEF_TOL * 1e-2
    return S({m: c for m, c in s.d.items() if abs(float(c)) > t}) if any(
        abs(float(c)) <= t for c in s.d.values()) else s


# ---------------------------------------------------------------- module patching
def _np_fn_table():
    tab = {}
    for k in dir(np):
        if k.startswith("_"):
            continue
        try:
            v = getattr(np, k)
        except Exception:
            continue
        if callable(v) and not isinstance(v, type):
            try:
                hash(v)
            except TypeError:
                continue
            tab.setdefault(id(v), k)
    return tab


_NPTAB = _np_fn_table()


def _replacement(v, name):
    import scipy
    import scipy.linalg
    import scipy.special
    if v is np:
        return shim_np
    if v is math:
        return shim.shim_math
    if v is np.fft:
        return shim_np.fft
    if v is np.linalg:
        return shim._linalg
    if v is np.random:
        return shim_np.random
    if v is scipy:
        return shim.shim_scipy
    if v is scipy.linalg:
        return shim.shim_scipy_linalg
    if v is scipy.special:
        return shim.shim_scipy_special
    if isinstance(v, types.ModuleType):
        if v.__name__ in ("pyscf.lib", "pyscf.scf.hf"):
            return shim.pyscf_proxy(v)
        return None
    t = type(v)
    if t.__module__.startswith("numba") and hasattr(v, "py_func"):
        return v.py_func
    if id(v) in _NPTAB and callable(v):
        k = _NPTAB[id(v)]
        if getattr(np, k) is v:
            return getattr(shim_np, k)
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) and getattr(v, "__module__", "") :
        mod = v.__module__ or ""
        if mod.startswith("scipy.linalg") and v.__name__ in shim.shim_scipy_linalg.__dict__:
            return getattr(shim.shim_scipy_linalg, v.__name__)
        if mod.startswith("numpy.linalg") and v.__name__ in shim._linalg.__dict__:
            return getattr(shim._linalg, v.__name__)
        if mod == "math" and v.__name__ in shim.shim_math.__dict__:
            return getattr(shim.shim_math, v.__name__)
        if mod.startswith("pyscf") and v.__name__ == "einsum":
            return shim.s_einsum
        if mod.startswith("pyscf") and v.__name__ == "dot":
            return shim.s_dot
    return None


@contextlib.contextmanager
def symbolic_modules(prefix="openms", extra=()):
    """replace numpy & friends inside every loaded openms module"""
    saved = []
    mods = [m for n, m in list(sys.modules.items())
            if m is not None and (n == prefix or n.startswith(prefix + ".") or n in extra)]
    for m in mods:
        d = m.__dict__
        for k, v in list(d.items()):
            if k.startswith("__"):
                continue
            r = _replacement(v, k)
            if r is not None:
                saved.append((d, k, v, True))
                d[k] = r
        for k, v in (("float", shim.symfloat), ("complex", shim.symcomplex)):
            if k not in d:
                saved.append((d, k, None, False))
                d[k] = v
        # numba dispatchers held in dicts / class attributes
        for k, v in list(d.items()):
            if isinstance(v, type) and getattr(v, "__module__", "").startswith(prefix):
                for kk, vv in list(vars(v).items()):
                    if hasattr(vv, "py_func") and type(vv).__module__.startswith("numba"):
                        saved.append((v, kk, vv, "attr"))
                        setattr(v, kk, vv.py_func)
    b = sys.modules.get("openms.lib.backend")
    try:
        yield
    finally:
        for d, k, v, had in reversed(saved):
            if had == "attr":
                setattr(d, k, v)
            elif had:
                d[k] = v
            else:
                d.pop(k, None)


@contextlib.contextmanager
def local_numpy_imports():
    """function-local `import numpy` resolves to the stand-in"""
    import scipy.special
    import scipy.linalg
    rep = {"numpy": shim_np, "scipy.special": shim.shim_scipy_special, "scipy.linalg": shim.shim_scipy_linalg}
    old = {k: sys.modules[k] for k in rep}
    sys.modules.update(rep)
    try:
        yield
    finally:
        sys.modules.update(old)


@contextlib.contextmanager
def numeric_random(ctx):
    """replayed draws for numpy.random.* on the real code"""
    saved = {}
    fns = _RandomFns(ctx)
    for k in dir(fns):
        if k.startswith("f_") and hasattr(np.random, k[2:]):
            saved[k[2:]] = getattr(np.random, k[2:])
            setattr(np.random, k[2:], getattr(fns, k))
    try:
        yield
    finally:
        for k, v in saved.items():
            setattr(np.random, k, v)


# ---------------------------------------------------------------- running a scenario
def run_numeric(fn, cfg, env, rng=None):
    ctx = NumCtx(env, cfg, rng)
    err = None
    import warnings
    with contextlib.ExitStack() as st:
        st.enter_context(warnings.catch_warnings())
        warnings.simplefilter("ignore")
        if not cfg.get("_real_random"):
            st.enter_context(numeric_random(ctx))
        st.enter_context(ctx._stack)
        try:
            fn(ctx)
        except Infeasible:
            err = "infeasible"
        except Exception as e:
            err = e
            ctx.tb = traceback.format_exc()
    return ctx, err


def interface_error(e):
    """an exception that says the harness' stand-in objects no longer match the code's
    interface (an attribute or parameter the stand-in lacks), not that a value is wrong"""
    if isinstance(e, AttributeError):
        # an object built by its own constructor lacks an attribute its own code uses: the code's fault
        o = getattr(e, "obj", None)
        own = (type(o).__module__ or "").startswith("openms.") and "_vsym_stub" not in getattr(o, "__dict__", {"_vsym_stub": 1})
        return not own
    if isinstance(e, TypeError):
        m = str(e)
        return "unexpected keyword argument" in m or "positional argument" in m or "required keyword" in m
    return False


def in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO):
            return True
        tb = tb.tb_next
    return False


def run_scenario(fn, cfg, known_labels=(), deadline_s=300, seed=1, max_paths=4000):
    """returns dict with status in {ok, violation, undecided}"""
    t0 = time.time()
    stats = Stats()
    deadline = t0 + deadline_s
    ex = Executor(stats, known_labels, max_paths=max_paths, deadline=deadline)
    result = {"status": "ok", "violations": [], "known": [], "undecided": [], "samples": []}
    first_records = []
    decisions = []
    npath = 0
    profile_on = True
    encoding_error = None
    with contextlib.ExitStack() as base:
        while True:
            npath += 1
            ex.decisions = list(decisions)
            ex.pos = 0
            ex.pc = []
            ex.nz = []
            ex.nzkeys = set()
            ex.stubs = {}
            ctx = SymCtx(ex, cfg)
            ex.ctx = ctx
            ex.records = []
            poly.set_exec(ex)
            infeasible = False
            import warnings
            with contextlib.ExitStack() as st:
                st.enter_context(warnings.catch_warnings())
                warnings.simplefilter("ignore")
                st.enter_context(symbolic_modules())
                st.enter_context(local_numpy_imports())
                st.enter_context(ctx._stack)
                if profile_on:
                    def prof(frame, event, arg):
                        if event == "call":
                            f = frame.f_code
                            if f.co_filename.startswith(REPO + "/openms"):
                                stats.functions.add("%s:%s" % (f.co_filename[len(REPO) + 1:], f.co_qualname))
                    sys.setprofile(prof)
                try:
                    fn(ctx)
                except Infeasible:
                    infeasible = True
                except (NotExact, Budget, RecursionError, MemoryError) as e:
                    encoding_error = (type(e).__name__, str(e), traceback.format_exc())
                except Exception as e:
                    tb = traceback.format_exc()
                    # the real code raised: confirm on the unpatched code
                    sys.setprofile(None)
                    r, env = ex._solve([], want_model=True)
                    if r == "unknown":
                        env = ex._sample(lambda e_: True)
                        r = "sat" if env is not None else r
                    if r == "sat":
                        ex._cand("no-exception", "%s: %s" % (type(e).__name__, e), env)
                        ex.candidates[-1] = ex.candidates[-1] + (tb,) if len(ex.candidates) and \
                            ex.candidates[-1][0] == "no-exception" else ex.candidates[-1]
                    elif r == "unknown":
                        encoding_error = (type(e).__name__, str(e), tb)
                finally:
                    sys.setprofile(None)
            profile_on = npath < 3
            poly.set_exec(None)
            if not infeasible:
                stats.paths += 1
                if len(first_records) < 3 and not encoding_error:
                    first_records.append((list(ex.records), list(ex.pc), list(ex.nz)))
            if encoding_error:
                break
            if time.time() > deadline:
                encoding_error = ("Budget", "time budget after %d paths" % npath, "")
                break
            # next path
            d = ex.decisions
            while d and not (d[-1][1] and d[-1][0]):
                d.pop()
            if not d:
                break
            d[-1] = (False, True)
            decisions = d
            if npath > max_paths:
                encoding_error = ("Budget", "more than %d paths" % max_paths, "")
                break
    # ---- replay candidates on the real, unpatched code
    done = set()
    unreproduced = {}
    for cand in ex.candidates:
        label, detail, env = cand[:3]
        if label in done:
            continue
        nctx, err = run_numeric(fn, cfg, env)
        bad = list(nctx.failures)
        if isinstance(err, Exception) and not interface_error(err):
            bad.append(("no-exception", "%s: %s" % (type(err).__name__, err)))
        hit = [b for b in bad if b[0] == label]
        newhit = [b for b in bad if b[0] not in known_labels]
        if label in known_labels:
            if hit:
                result["known"].append({"label": label, "detail": hit[0][1]})
                done.add(label)
            else:
                unreproduced[label] = detail
            continue
        if newhit:
            result["violations"].append({"label": newhit[0][0], "detail": newhit[0][1], "inputs": nctx.env,
                                         "asserted": label})
            done.add(label)
        else:
            unreproduced[label] = (detail + " | " + (cand[3][-600:] if len(cand) > 3 else "")) + " err=%r" % (err,)
    for l, dt in unreproduced.items():
        if l not in done:
            result["undecided"].append((l, "counterexample did not reproduce: %s" % dt))
    for l, dt in ex.undecided:
        if l not in done and l not in known_labels:
            result["undecided"].append((l, dt))
    # ---- validate the encoding against the real code, and use the real code as a
    #      second opinion when the symbolic run could not complete
    if encoding_error:
        for k in range(12):
            nctx, err = run_numeric(fn, cfg, {}, _random.Random(seed * 100 + k))
            bad = [b for b in nctx.failures if b[0] not in known_labels]
            if isinstance(err, Exception) and "no-exception" not in known_labels and not interface_error(err):
                bad.append(("no-exception", "%s: %s" % (type(err).__name__, err)))
            if bad:
                result["violations"].append({"label": bad[0][0], "detail": bad[0][1], "inputs": nctx.env,
                                             "asserted": "(encoding stopped: %s)" % encoding_error[1]})
                break
        result["undecided"].append(("encoding", "%s: %s" % encoding_error[:2]))
        result["trace"] = encoding_error[2]
    elif not result["violations"]:
        for recs, pc, nz in first_records[:2]:
            msg = validate(fn, cfg, ex, recs, pc, seed, stats, known_labels)
            if msg:
                result["undecided"].append(("encoding-validation", msg))
                break
    # ---- vacuity: some path must be feasible and reach the assertions
    if not encoding_error and not ex.candidates:
        if stats.paths == 0 or ex.reached == 0:
            result["undecided"].append(("vacuity", "no feasible path reached an assertion"))
        else:
            ok = False
            for recs, pc, nz in first_records:
                ex.pc, ex.nz = pc, nz
                if not pc and not nz:
                    ok = True
                    stats.witness += 1
                    break
                r, _ = ex._solve([], timeout=10000)
                if r == "sat":
                    ok = True
                    stats.witness += 1
                    break
                if r == "unknown" and ex._sample(lambda e: True) is not None:
                    ok = True
                    stats.witness += 1
                    break
            if not ok:
                result["undecided"].append(("vacuity", "no witness satisfying the path condition"))
    if result["violations"]:
        result["status"] = "violation"
    elif result["undecided"]:
        result["status"] = "undecided"
    for recs, pc, nz in first_records[:1]:
        for label, kind, a, b in recs[:2]:
            if a is not None:
                result["samples"].append("%s: %s" % (label, str(np.asarray(a).reshape(-1)[:1])[:300]))
    result["stats"] = stats.as_dict()
    result["wall_s"] = round(time.time() - t0, 2)
    return result


def validate(fn, cfg, ex, recs, pc, seed, stats, known_labels):
    """push a concrete point through the real code and through the encoding"""
    if cfg.get("_novalidate"):
        return None
    tested = 0
    last = None
    for k in range(40):
        rng = _random.Random(seed * 1000 + k)
        nctx, err = run_numeric(fn, cfg, {}, rng)
        if err == "infeasible":
            continue
        env = nctx.env
        full = ex.complete(env)
        try:
            if not all(num_bool(b, full) for b in pc):
                continue
        except Exception:
            continue
        if isinstance(err, Exception):
            last = "real code raised on a concrete point: %r\n%s" % (err, getattr(nctx, "tb", "")[-800:])
            continue
        if len(nctx.records) != len(recs):
            last = "claim count differs (%d real, %d encoded)" % (len(nctx.records), len(recs))
            continue
        bad = None
        memo = {}
        for (l1, k1, a1, b1), (l2, k2, a2, b2) in zip(nctx.records, recs):
            if l1 != l2:
                bad = "claim order differs"
                break
            if a2 is None:
                continue
            if l1 in known_labels:
                continue
            for c, s_ in ((a1, a2), (b1, b2)):
                c = np.asarray(c)
                flat = s_.reshape(-1)
                cf = c.reshape(-1)
                if len(flat) != len(cf):
                    bad = "%s: shapes differ (%s real, %s encoded)" % (l1, c.shape, s_.shape)
                    break
                n = len(flat)
                idx = range(n) if n <= 24 else [int(t * n / 24) for t in range(24)]
                for i in idx:
                    try:
                        v = evaluate(flat[i], full, memo)
                    except (NotExact, OverflowError, ZeroDivisionError):
                        continue
                    w = complex(cf[i])
                    if not abs(v - w) <= max(1e-5, 2 * (nctx.tols.get(l1) or 0)) * max(1.0, abs(w)):
                        bad = "%s[%d]: encoded %s, real %s" % (l1, i, v, w)
                        break
                if bad:
                    break
            if bad:
                break
        if bad:
            last = bad
            tested += 1
            if tested >= 3:
                return last
            continue
        stats.validated += 1
        return None
    return last if tested >= 1 else None
