"""Exact symbolic scalars used to execute the real OpenMS functions symbolically.

A value is a finite sum  sum_k c_k * prod_g g**e_g  with rational c_k, where the
generators g are real input variables, the imaginary unit, prime numbers raised to
a fractional power, and defined terms (inverse, square root, exponential,
logarithm, absolute value, trigonometric terms).  The representation is
normalised on the fly (i*i = -1, sqrt(q)**2 = q, exp(a)*exp(b) = exp(a+b)).
Comparisons produce SBool objects, whose truth value is decided by the running
executor (see core.py), which forks on both feasible outcomes.
"""
from __future__ import annotations
import math
from fractions import Fraction
import numpy as np

# ---------------------------------------------------------------- generators
GENS = []          # id -> Gen
GEN_INDEX = {}     # key -> id
CX = {}            # complex-valued generator (other than i) -> conjugate generator


class Gen:
    __slots__ = ("id", "kind", "name", "arg", "pos", "lo", "hi", "nonzero")

    def __init__(self, kind, name, arg=None, pos=False, lo=None, hi=None, nonzero=False):
        self.kind, self.name, self.arg = kind, name, arg
        self.pos, self.lo, self.hi, self.nonzero = pos, lo, hi, nonzero
        self.id = len(GENS)
        GENS.append(self)

    def __repr__(self):
        return self.name


def _gen(kind, key, name, **kw):
    k = (kind, key)
    g = GEN_INDEX.get(k)
    if g is None:
        g = Gen(kind, name, **kw).id
        GEN_INDEX[k] = g
    return g


I_GEN = _gen("i", "i", "i")
E_GEN = _gen("e", "e", "e", pos=True)      # exp(1)

_POWK = frozenset(("var", "exp", "e", "cvar", "cabs"))


def new_var(name, pos=False, lo=None, hi=None, nonzero=False):
    g = _gen("var", name, name, pos=pos, lo=lo, hi=hi, nonzero=nonzero or pos)
    return S({((g, 1),): 1})


def new_cvar(re, im):
    """complex variable re + i*im kept as one generator (with its conjugate);
    expanded into real and imaginary parts only where those are needed (realify)"""
    (gr, _), = next(iter(re.d))
    (gi, _), = next(iter(im.d))
    k = (gr, gi)
    z = _gen("cvar", k, "(%s+i*%s)" % (GENS[gr].name, GENS[gi].name), arg=(re, im, 1))
    zc = _gen("cvar", k + ("conj",), "(%s-i*%s)" % (GENS[gr].name, GENS[gi].name), arg=(re, im, -1))
    CX[z], CX[zc] = zc, z
    return S({((z, 1),): 1})


def realify(s):
    """expand complex variables and complex inverses into real generators and i"""
    if not CX:
        return s
    memo = {}

    def sub(g, e):
        k = (g, e)
        r = memo.get(k)
        if r is None:
            G = GENS[g]
            if G.kind == "cvar":
                re, im, sg = G.arg
                base = re + IMAG * im * sg
                if e < 0:
                    nrm = re * re + im * im
                    base = (re - IMAG * im * sg) * nrm.inv()
            else:
                q = realify(G.arg)
                cj = q.conjugate()
                base = cj * (q * cj).inv()
            r = memo[k] = base ** abs(e)
        return r
    out = ZERO
    plain = {}
    groups = {}
    for m, c in s.d.items():
        cx = tuple(t for t in m if t[0] in CX)
        if not cx:
            plain[m] = c
        else:
            groups.setdefault(cx, {})[tuple(t for t in m if t[0] not in CX)] = c
    out = S(plain)
    for cx, d in groups.items():
        t = S(d)
        for g, e in cx:
            t = t * sub(g, e)
        out = out + t
    # absolute values of complex terms: even powers
    if any(GENS[g].kind == "cabs" and abs(e) > 1 for m in out.d for g, e in m):
        r = ZERO
        for m, c in out.d.items():
            t = S({tuple((g, (e % 2 if GENS[g].kind == "cabs" else e)) for g, e in m
                         if not (GENS[g].kind == "cabs" and e % 2 == 0)): c})
            for g, e in m:
                if GENS[g].kind == "cabs" and e // 2:
                    q = realify(GENS[g].arg)
                    q = q * q.conjugate()
                    t = t * (q ** (e // 2))
            r = r + t
        out = r
    return out


def reset_gens():
    global I_GEN, E_GEN
    GENS.clear()
    GEN_INDEX.clear()
    CX.clear()
    I_GEN = _gen("i", "i", "i")
    E_GEN = _gen("e", "e", "e", pos=True)


# ---------------------------------------------------------------- numbers
class NotExact(Exception):
    pass


def to_rat(x):
    """Concrete python/numpy number -> int/Fraction (floats read as short decimals
    or simple fractions)."""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x == int(x) if math.isfinite(x) else False:
            return int(x)
        if not math.isfinite(x):
            raise NotExact("non-finite float %r in symbolic value" % x)
        if abs(x) > 1e-4:
            f = Fraction(x).limit_denominator(720)
            if abs(float(f) - x) <= 4e-16 * abs(x):
                return f
        f = Fraction(repr(x))
        return f
    raise TypeError("not a number: %r" % type(x))


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def _isnum(x):
    return isinstance(x, (int, float, complex, Fraction, np.number, np.bool_))


ONE_M = ()


def mono_mul(a, b):
    """multiply monomials (sorted tuples); returns (coef, mono, extra S or None)"""
    if not a:
        return 1, b, None
    if not b:
        return 1, a, None
    out = []
    ia = ib = 0
    la, lb = len(a), len(b)
    coef = 1
    extra = None
    while ia < la and ib < lb:
        ga, ea = a[ia]
        gb, eb = b[ib]
        if ga < gb:
            out.append(a[ia]); ia += 1
        elif gb < ga:
            out.append(b[ib]); ib += 1
        else:
            e = ea + eb
            ia += 1; ib += 1
            k = GENS[ga].kind
            if k in _POWK:
                if type(e) is Fraction and e.denominator == 1:
                    e = e.numerator
                if e != 0:
                    out.append((ga, e))
            elif k == "i":
                e &= 3
                if e == 1:
                    out.append((ga, 1))
                elif e == 2:
                    coef = -coef
                elif e == 3:
                    coef = -coef
                    out.append((ga, 1))
            elif k == "prime":
                p = GENS[ga].arg
                fl = math.floor(e)
                r = e - fl
                coef = coef * (Fraction(p) ** fl if fl < 0 else p ** fl)
                if r != 0:
                    out.append((ga, r))
            elif k == "sqrt" or k == "abs":
                q, r = divmod(e, 2)
                if r:
                    out.append((ga, r))
                base = GENS[ga].arg if k == "sqrt" else GENS[ga].arg * GENS[ga].arg
                base = base ** int(q)
                extra = base if extra is None else extra * base
            elif k == "sign":
                if e & 1:
                    out.append((ga, 1))
            elif k == "op" and e >= 2 and GENS[ga].arg[0] == "sin":
                # sin^2 = 1 - cos^2
                q, r = divmod(e, 2)
                if r:
                    out.append((ga, r))
                c = opaque("cos", GENS[ga].arg[2])
                base = (ONE - c * c) ** int(q)
                extra = base if extra is None else extra * base
            else:
                if e != 0:
                    out.append((ga, e))
    if ia < la:
        out.extend(a[ia:])
    if ib < lb:
        out.extend(b[ib:])
    return coef, tuple(out), extra


class Budget(Exception):
    pass


MAXTERMS = 400000
WRAP = [lambda x: x]      # set by the array stand-in


def _elementwise(o, f):
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(*o.shape):
        out[i] = f(S.const(o[i]))
    return WRAP[0](out)


class S:
    __slots__ = ("d", "_k")
    __array_priority__ = 10000

    def __init__(self, d):
        self.d = d
        self._k = None

    # ---- construction
    @staticmethod
    def const(x):
        if isinstance(x, S):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            d = {}
            r, im = to_rat(float(x.real)), to_rat(float(x.imag))
            if r:
                d[ONE_M] = r
            if im:
                d[((I_GEN, 1),)] = im
            return S(d)
        c = to_rat(x)
        return S({ONE_M: c} if c else {})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items(), key=lambda t: _mkey(t[0])))
        return self._k

    # ---- predicates
    def is_const(self):
        d = self.d
        return not d or (len(d) == 1 and ONE_M in d)

    def is_num(self):
        """no free variables (may contain i, primes, e)"""
        for m in self.d:
            for g, _ in m:
                if GENS[g].kind not in ("i", "prime", "e"):
                    return False
        return True

    def cval(self):
        return self.d.get(ONE_M, 0)

    def has_i(self):
        """may be non-real"""
        for m in self.d:
            for g, _ in m:
                if g == I_GEN or g in CX:
                    return True
        return False

    def has_cx(self):
        if CX:
            for m in self.d:
                for g, _ in m:
                    if g in CX:
                        return True
        return False

    def is_mono(self):
        return len(self.d) == 1

    # ---- arithmetic
    @staticmethod
    def _co(o):
        if type(o) is S:
            return o
        if isinstance(o, SBool):
            return S.const(1 if bool(o) else 0)
        if _isnum(o):
            return S.const(o)
        return None

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = S._co(o)
        if o is None:
            return NotImplemented
        a, b = self.d, o.d
        if not b:
            return self
        if not a:
            return o
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = _norm(v)
        return S(r)

    def __radd__(self, o):
        if isinstance(o, np.ndarray):
            return _elementwise(o, lambda x: x + self)
        return self.__add__(o)

    def __neg__(self):
        return S({m: -c for m, c in self.d.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = S._co(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return _elementwise(o, lambda x: x - self)
        o = S._co(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = S._co(o)
        if o is None:
            return NotImplemented
        a, b = self.d, o.d
        if not a or not b:
            return ZERO
        if len(b) == 1 and ONE_M in b:
            c = b[ONE_M]
            if c == 1:
                return self
            return S({m: _norm(v * c) for m, v in a.items()})
        if len(a) == 1 and ONE_M in a:
            c = a[ONE_M]
            if c == 1:
                return o
            return S({m: _norm(v * c) for m, v in b.items()})
        r = {}
        extras = None
        for ma, ca in a.items():
            for mb, cb in b.items():
                f, m, ex = mono_mul(ma, mb)
                c = ca * cb
                if f != 1:
                    c = c * f
                if ex is not None:
                    t = ex * S({m: _norm(c)})
                    extras = t if extras is None else extras + t
                    continue
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    v = v + c
                    if v == 0:
                        del r[m]
                    else:
                        r[m] = v
        if len(r) > MAXTERMS:
            raise Budget("polynomial exceeds %d terms" % MAXTERMS)
        r = S({m: _norm(c) for m, c in r.items() if c != 0})
        if extras is not None:
            r = r + extras
        return r

    def __rmul__(self, o):
        if isinstance(o, np.ndarray):
            return _elementwise(o, lambda x: x * self)
        return self.__mul__(o)

    def inv(self):
        d = self.d
        if not d:
            return undef()
        if len(d) == 1:
            (m, c), = d.items()
            coef = Fraction(1) / c
            out = []
            res = None
            for g, e in m:
                k = GENS[g].kind
                if k in _POWK:
                    out.append((g, -e))
                elif k == "i":
                    coef = -coef
                    out.append((g, 1))
                elif k == "prime":
                    coef = coef / GENS[g].arg
                    out.append((g, 1 - e))
                elif k == "inv" or k == "cinv":
                    t = GENS[g].arg ** e
                    res = t if res is None else res * t
                elif k == "sqrt":
                    # 1/sqrt(q) = sqrt(q)/q
                    t = S({((g, 1),): 1}) * GENS[g].arg.inv()
                    t = t ** e
                    res = t if res is None else res * t
                elif k == "sign":
                    out.append((g, e))
                else:
                    t = inv_gen(S({((g, 1),): 1})) ** e
                    res = t if res is None else res * t
            r = S({tuple(out): _norm(coef)})
            return r if res is None else r * res
        if self.has_i():
            if not self.has_cx() and len(d) <= 2:
                # complex: multiply by the conjugate
                cj = self.conjugate()
                nrm = self * cj
                return cj * nrm.inv()
            mcontent = _mono_content(d)
            if mcontent is not None:
                cont = S({mcontent: 1})
                q = self * cont.inv()
            else:
                cont, q = ONE, self
            if len(q.d) == 1:
                return cont.inv() * q.inv()
            lead = q.key()[0][1]
            q = q * (Fraction(1) / lead)
            return cont.inv() * cinv_gen(q) * (Fraction(1) / lead)
        # pull out the content so that a*q and q share one generator
        mcontent = _mono_content(d)
        if mcontent is not None:
            cont = S({mcontent: 1})
            q = self * cont.inv()
        else:
            cont, q = ONE, self
        lead = q.key()[0][1]
        q = q * (Fraction(1) / lead)
        return cont.inv() * inv_gen(q) * (Fraction(1) / lead)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = S._co(o)
        if o is None:
            return NotImplemented
        if o.is_const():
            c = o.cval()
            if c == 0:
                return undef()
            return S({m: _norm(Fraction(v) / c) for m, v in self.d.items()})
        _note_den(o)
        if not self.d:
            return ZERO
        if self is o:
            return ONE
        return self * o.inv()

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return _elementwise(o, lambda x: x / self)
        o = S._co(o)
        if o is None:
            return NotImplemented
        return o.__truediv__(self)

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (S._co(o) / self).floor()

    def __mod__(self, o):
        return self - o * (self // o)

    def __pow__(self, e):
        if isinstance(e, np.ndarray):
            return NotImplemented
        if isinstance(e, S):
            if e.is_const():
                e = e.cval()
            else:
                return (self.log() * e).exp()
        if isinstance(e, (complex, np.complexfloating)) and e.imag == 0:
            e = float(e.real)
        e = to_rat(e)
        if isinstance(e, Fraction):
            if e.denominator == 2:
                r = self.sqrt()
                return r ** e.numerator
            if self.is_mono():
                (m, c), = self.d.items()
                if c == 1 and all(GENS[g].pos and GENS[g].kind == "var" for g, _ in m):
                    return S({tuple((g, _norm(x * e)) for g, x in m): 1})
            raise NotExact("fractional power %s" % e)
        if e < 0:
            _note_den(self)
            return self.inv() ** (-e)
        r = ONE
        b = self
        while e:
            if e & 1:
                r = r * b
            e >>= 1
            if e:
                b = b * b
        return r

    def __rpow__(self, o):
        o = S._co(o)
        return o ** self

    # ---- complex structure
    def conjugate(self):
        if not self.has_i():
            return self
        if self.has_cx():
            r = {}
            for m, c in self.d.items():
                out = []
                for g, e in m:
                    if g == I_GEN:
                        c = -c
                        out.append((g, e))
                    else:
                        out.append((CX.get(g, g), e))
                r[tuple(sorted(out))] = c
            return S(r)
        r = {}
        for m, c in self.d.items():
            for g, _ in m:
                if g == I_GEN:
                    c = -c
                    break
            r[m] = c
        return S(r)

    conj = conjugate

    @property
    def real(self):
        if not self.has_i():
            return self
        if self.has_cx():
            return (self + self.conjugate()) * Fraction(1, 2)
        return S({m: c for m, c in self.d.items() if not any(g == I_GEN for g, _ in m)})

    @property
    def imag(self):
        if not self.has_i():
            return ZERO
        if self.has_cx():
            return (self - self.conjugate()) * IMAG * Fraction(-1, 2)
        return S({tuple(t for t in m if t[0] != I_GEN): c for m, c in self.d.items()
                  if any(g == I_GEN for g, _ in m)})

    # ---- functions (names used by numpy's object loops)
    def sqrt(self):
        if not self.d:
            return ZERO
        if self.has_cx():
            self = realify(self)
            if not self.d:
                return ZERO
        if len(self.d) == 1:
            (m, c), = self.d.items()
            out = []
            okm = True
            leftover = []
            for g, e in m:
                G = GENS[g]
                if G.kind in ("var", "exp", "e", "cabs") and G.pos:
                    out.append((g, _norm(Fraction(e) / 2)))
                elif G.kind == "sqrt" and e == 1:
                    okm = False
                elif G.kind == "var" and e % 2 == 0 if not isinstance(e, Fraction) else False:
                    leftover.append((g, e // 2))
                else:
                    okm = False
            if okm and c > 0:
                r = sqrt_rat(c) * S({tuple(out): 1})
                for g, e in leftover:
                    r = r * abs(S({((g, e),): 1}))
                return r
            if okm and c < 0 and not leftover:
                return sqrt_rat(-c) * S({tuple(out): 1}) * IMAG
        if self.has_i():
            return opaque("csqrt", self, cplx=True)
        q = self
        lead = abs(q.key()[0][1])
        # normalise the scale by the square class of the leading coefficient
        q2 = q * (Fraction(1) / lead)
        mc = _mono_content(q2.d)
        pref = ONE
        if mc is not None:
            keep = []
            for g, e in mc:
                G = GENS[g]
                if G.kind in ("var", "exp", "e") and G.pos:
                    keep.append((g, e))
            if keep:
                cont = S({tuple(keep): 1})
                q2 = q2 * cont.inv()
                pref = cont.sqrt()
        g = _gen("sqrt", q2.key(), "sqrt(%s)" % q2, arg=q2)
        GENS[g].arg = q2
        return sqrt_rat(lead) * pref * S({((g, 1),): 1})

    def exp(self):
        if self.has_cx():
            self = realify(self)
        r = ONE
        rest = []
        for m, c in self.d.items():
            if m == ONE_M:
                r = r * S({((E_GEN, c),): 1})
                continue
            if any(g == I_GEN for g, _ in m):
                rest.append((m, c))
                continue
            if len(m) == 1 and GENS[m[0][0]].kind == "log" and m[0][1] == 1 \
                    and not isinstance(c, Fraction):
                r = r * GENS[m[0][0]].arg ** c
                continue
            g = _gen("exp", m, "exp(%s)" % S({m: 1}), arg=S({m: 1}), pos=True)
            r = r * S({((g, c),): 1})
        if rest:
            p = S({tuple(t for t in m if t[0] != I_GEN): c for m, c in rest})
            r = r * (p.cos() + IMAG * p.sin())
        return r

    def log(self):
        if self.is_const() and self.cval() == 1:
            return ZERO
        if self.has_cx():
            self = realify(self)
        if self.is_mono():
            (m, c), = self.d.items()
            if c == 1 and m and all(GENS[g].kind in ("exp", "e") for g, _ in m):
                r = ZERO
                for g, e in m:
                    a = GENS[g].arg if GENS[g].kind == "exp" else ONE
                    r = r + a * e
                return r
        if self.has_i():
            return abs(self).log() + IMAG * angle(self)
        if any(GENS[g].kind == "abs" for m in self.d for g, _ in m):
            # the logarithm of a modulus, written without the modulus
            q = self * self
            if not any(GENS[g].kind == "abs" for m in q.d for g, _ in m):
                return opaque("log", q) * Fraction(1, 2)
        return opaque("log", self)

    def cos(self):
        if self.has_cx():
            self = realify(self)
        if not self.d:
            return ONE
        s = self
        if s.key()[0][1] < 0:
            s = -s
        z = _angle_arg(s)
        if z is not None:
            return z.real / abs(z)
        return opaque("cos", s)

    def sin(self):
        if self.has_cx():
            self = realify(self)
        if not self.d:
            return ZERO
        s = self
        if s.key()[0][1] < 0:
            return -((-s).sin())
        z = _angle_arg(s)
        if z is not None:
            return z.imag / abs(z)
        return opaque("sin", s)

    def tan(self):
        return self.sin() / self.cos()

    def cosh(self):
        return (self.exp() + (-self).exp()) / 2

    def sinh(self):
        return (self.exp() - (-self).exp()) / 2

    def tanh(self):
        return self.sinh() / self.cosh()

    def arctan2(self, o):
        return angle(S.const(o) + IMAG * self)

    def __abs__(self):
        if self.has_i():
            if self.has_cx() and self.imag.d == {}:
                r = realify(self)
                if not r.has_i():
                    return abs(r)
            if len(self.d) > 4 or (self.has_cx() and len(self.d) > 1):
                lead = self.key()[0][1]
                q = self * (Fraction(1) / lead)
                # the conjugate has the same modulus
                qc = q.conjugate()
                qc = qc * (Fraction(1) / qc.key()[0][1])
                if qc.key() < q.key():
                    q = qc
                g = _gen("cabs", q.key(), "|%s|" % q, arg=q, pos=True)
                return S({((g, 1),): abs(lead)})
            if self.has_cx():
                return abs(realify(self))
            if not self.real.d:
                return abs(self.imag)
            return (self.real * self.real + self.imag * self.imag).sqrt()
        if not self.d:
            return self
        if self.is_const():
            return S.const(abs(self.cval()))
        if self.is_mono():
            (m, c), = self.d.items()
            if all((GENS[g].pos or GENS[g].kind in ("prime", "sqrt", "abs", "exp", "e")) for g, _ in m):
                return S({m: abs(c)})
        s = self
        l = s.key()[0][1]
        if l < 0:
            s = -s
        l = abs(l)
        s = s * (Fraction(1) / l)
        g = _gen("abs", s.key(), "|%s|" % s, arg=s)
        return S({((g, 1),): l})

    fabs = __abs__
    absolute = __abs__

    def square(self):
        return self * self

    # ---- comparisons / truth
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if o is None:
            return op == "!="
        if isinstance(o, float) and math.isinf(o):
            if op in ("<", "<="):
                return o > 0
            if op in (">", ">="):
                return o < 0
            return op == "!="
        o = S._co(o)
        if o is None:
            return NotImplemented
        d = self - o
        if d.is_num():
            if op in ("==", "!="):
                z = complex(d)
                r = abs(z) < 1e-13
                return r if op == "==" else not r
            v = complex(d).real
            if d.is_const():
                v = d.cval()
            return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op]
        return SBool(d, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    # ---- conversions
    def evalf(self, env=None):
        return evaluate(self, env or {})

    def __complex__(self):
        if self.is_num():
            return complex(self.evalf())
        raise NotExact("symbolic value converted to complex: %s" % self)

    def __float__(self):
        if self.is_num():
            return float(complex(self.evalf()).real)
        raise NotExact("symbolic value converted to float: %s" % self)

    def __int__(self):
        if self.is_num():
            return int(float(self))
        return EXEC.pick_int(self, "trunc")

    def __index__(self):
        if self.is_const() and isinstance(self.cval(), int):
            return self.cval()
        raise TypeError("symbolic value used as an index")

    def floor(self):
        if self.is_num():
            return S.const(math.floor(float(self)))
        return S.const(EXEC.pick_int(self, "floor"))

    __floor__ = floor

    def ceil(self):
        return -((-self).floor())

    __ceil__ = ceil

    def __trunc__(self):
        return int(self)

    def __round__(self, n=0):
        if not n:
            return (self + Fraction(1, 2)).floor()
        return self

    rint = __round__

    def __str__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in list(self.key())[:12]:
            t = "*".join(GENS[g].name + ("" if e == 1 else "^%s" % e) for g, e in m)
            out.append("%s%s" % (c if (c != 1 or not t) else "", ("*" if c != 1 else "") + t if t else ""))
        s = " + ".join(out)
        if len(self.d) > 12:
            s += " + ...[%d terms]" % len(self.d)
        return s

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    # numpy-scalar look-alikes
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("symbolic scalars cannot be pickled")

    def astype(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def ravel(self):
        from .shim import sarr
        return sarr([self])

    def is_integer(self):
        return self.is_const() and isinstance(self.cval(), int)


def _mkey(m):
    return tuple((g, e) for g, e in m)


def _mono_content(d):
    """largest monomial in var/exp gens dividing every term (min exponents)"""
    it = iter(d)
    first = next(it)
    cur = {g: e for g, e in first if GENS[g].kind in _POWK}
    if not cur:
        # negative exponents may still appear in others
        cur = {}
    allg = set()
    for m in d:
        for g, e in m:
            if GENS[g].kind in _POWK:
                allg.add(g)
    cont = {}
    for g in allg:
        mn = None
        for m in d:
            e = 0
            for gg, ee in m:
                if gg == g:
                    e = ee
                    break
            mn = e if mn is None else min(mn, e)
        if mn != 0:
            cont[g] = mn
    if not cont:
        return None
    return tuple(sorted(cont.items()))


def inv_gen(q):
    g = _gen("inv", q.key(), "1/(%s)" % q, arg=q)
    return S({((g, 1),): 1})


def cinv_gen(q):
    qc = q.conjugate()
    g = _gen("cinv", q.key(), "1/(%s)" % q, arg=q)
    if g not in CX:
        c = qc.key()[0][1]
        gc = _gen("cinv", qc.key(), "1/(%s)" % qc, arg=qc)
        CX[g], CX[gc] = gc, g
    return S({((g, 1),): 1})


def _angle_arg(s):
    """s == angle(z) exactly -> z"""
    if len(s.d) == 1:
        (m, c), = s.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            G = GENS[m[0][0]]
            if G.kind == "op" and G.arg[0] == "angle":
                return G.arg[2]
    return None


MATFN = {}


def opaque_mat(fname, A, scalar=False):
    """matrix function as an uninterpreted function of the (normalised) entries"""
    key = tuple(x.key() for x in A.reshape(-1))
    cplx = any(x.has_i() for x in A.reshape(-1))
    if scalar:
        g = _gen("mat", (fname, (), "re", key), "%s(A%d)" % (fname, hash(key) % 9973), arg=(fname, (), "re", A), lo=0)
        return S({((g, 1),): 1})
    out = np.empty(A.shape, dtype=object)
    for idx in np.ndindex(*A.shape):
        g = _gen("mat", (fname, idx, "re", key), "%s(A%d)%s" % (fname, hash(key) % 9973, list(idx)),
                 arg=(fname, idx, "re", A))
        v = S({((g, 1),): 1})
        if cplx:
            gi = _gen("mat", (fname, idx, "im", key), "Im %s(A%d)%s" % (fname, hash(key) % 9973, list(idx)),
                      arg=(fname, idx, "im", A))
            v = new_cvar(v, S({((gi, 1),): 1}))
        out[idx] = v
    return out


_UNDEF = [0]


def undef():
    """x/0 in an array: numpy yields inf/nan and carries on; any value is possible here"""
    _UNDEF[0] += 1
    g = _gen("op", ("undef", _UNDEF[0]), "undef%d" % _UNDEF[0], arg=("undef", "", ZERO))
    return S({((g, 1),): 1})


def opaque(kind, arg, cplx=False):
    if cplx:
        gr = _gen("op", (kind, "re", arg.key()), "Re %s(%s)" % (kind, arg), arg=(kind, "re", arg))
        gi = _gen("op", (kind, "im", arg.key()), "Im %s(%s)" % (kind, arg), arg=(kind, "im", arg))
        return S({((gr, 1),): 1}) + IMAG * S({((gi, 1),): 1})
    if kind == "log":
        g = _gen("log", arg.key(), "log(%s)" % arg, arg=arg)
    else:
        lo, hi = (-1, 1) if kind in ("cos", "sin") else (None, None)
        g = _gen("op", (kind, "", arg.key()), "%s(%s)" % (kind, arg), arg=(kind, "", arg), lo=lo, hi=hi)
    return S({((g, 1),): 1})


def angle(z):
    z = S.const(z)
    if z.has_cx():
        z = realify(z)
    if not z.has_i():
        if z.is_num():
            return S.const(0) if float(z) >= 0 else S.const(math.pi)
        return S.const(0) if bool(z >= 0) else S.const(math.pi)
    lead = abs(z.key()[0][1])
    return opaque("angle", z * (Fraction(1) / lead))


def sqrt_rat(c):
    """sqrt of a positive rational as coef * prod prime^(1/2)"""
    c = Fraction(c)
    n = c.numerator * c.denominator      # sqrt(n/d) = sqrt(n*d)/d
    coef = Fraction(1, c.denominator)
    r = math.isqrt(n)
    if r * r == n:
        return S({ONE_M: _norm(coef * r)})
    if n > 10 ** 12:
        return S.const(math.sqrt(float(c)))
    out = []
    p = 2
    while p * p <= n:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        if e:
            coef *= p ** (e // 2)
            if e & 1:
                out.append((prime_gen(p), Fraction(1, 2)))
        p += 1
    if n > 1:
        out.append((prime_gen(n), Fraction(1, 2)))
    return S({tuple(sorted(out)): _norm(coef)})


def prime_gen(p):
    return _gen("prime", p, str(p), arg=p, pos=True)


ZERO = S({})
ONE = S({ONE_M: 1})
IMAG = S({((I_GEN, 1),): 1})


class SBool:
    """d op 0, undecided"""
    __slots__ = ("d", "op", "neg", "parts")

    def __init__(self, d, op, parts=None):
        self.d, self.op, self.parts = d, op, parts

    def __bool__(self):
        if EXEC is None:
            raise NotExact("branch on a symbolic condition outside an execution")
        return EXEC.branch(self)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return bool(self) and bool(o)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return bool(self) or bool(o)

    __ror__ = __or__

    def __invert__(self):
        return not bool(self)

    def logical_not(self):
        return not bool(self)

    def all(self):
        return bool(self)

    any = all

    def _n(self):
        return S.const(1 if bool(self) else 0)

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __str__(self):
        return "%s %s 0" % (self.d, self.op)

    __repr__ = __str__


class _NoExec:
    pass


EXEC = None
DENS = None


def set_exec(e):
    global EXEC
    EXEC = e


def _note_den(o):
    if EXEC is not None:
        EXEC.note_den(o)


# ---------------------------------------------------------------- evaluation
def evaluate(s, env, memo=None):
    """numeric value (complex/float) of s; env maps var name -> float"""
    if memo is None:
        memo = {}

    def gv(g):
        v = memo.get(g)
        if v is not None:
            return v
        G = GENS[g]
        k = G.kind
        if k == "var":
            v = env[G.name]
        elif k == "i":
            v = 1j
        elif k == "e":
            v = math.e
        elif k == "prime":
            v = float(G.arg)
        elif k == "cvar":
            re, im, sg = G.arg
            v = evaluate(re, env, memo) + 1j * sg * evaluate(im, env, memo)
        elif k == "cabs":
            v = abs(evaluate(G.arg, env, memo))
        elif k == "inv" or k == "cinv":
            v = 1 / evaluate(G.arg, env, memo)
        elif k == "sqrt":
            x = evaluate(G.arg, env, memo)
            v = np.sqrt(x) if not (isinstance(x, float) and x < 0) else complex(np.sqrt(complex(x)))
        elif k == "exp":
            v = np.exp(evaluate(G.arg, env, memo))
        elif k == "log":
            v = np.log(evaluate(G.arg, env, memo))
        elif k == "abs":
            v = abs(evaluate(G.arg, env, memo))
        elif k == "op":
            kind, part, arg = G.arg
            x = evaluate(arg, env, memo)
            if kind == "cos":
                v = np.cos(x)
            elif kind == "sin":
                v = np.sin(x)
            elif kind == "angle":
                v = float(np.angle(x))
            elif kind == "csqrt":
                z = np.sqrt(complex(x))
                v = z.real if part == "re" else z.imag
            elif kind == "clog":
                z = np.log(complex(x))
                v = z.real if part == "re" else z.imag
            elif kind == "erf":
                v = math.erf(x)
            elif kind == "undef":
                v = float("nan")
            else:
                raise NotExact(kind)
        elif k == "mat":
            fname, idx, part, A = G.arg
            mk = ("mat", fname, id(A))
            M = memo.get(mk)
            if M is None:
                X = np.array([evaluate(x, env, memo) for x in A.reshape(-1)]).reshape(A.shape)
                M = memo[mk] = MATFN[fname](X)
            v = M[idx]
            v = float(np.real(v)) if part == "re" else float(np.imag(v))
        else:
            raise NotExact("eval %s" % k)
        memo[g] = v
        return v

    tot = 0.0
    for m, c in s.d.items():
        t = float(c)
        for g, e in m:
            b = gv(g)
            if isinstance(e, Fraction):
                e = float(e)
            t = t * (b if e == 1 else b ** e)
        tot = tot + t
    return tot


# ---------------------------------------------------------------- clearing
def clear_inverses(s):
    """multiply by (nonzero) denominators until no inverse generator and no
    negative exponent is left; result is zero iff s is zero where defined"""
    guard = 0
    while True:
        guard += 1
        if guard > 60:
            raise Budget("clearing inverses")
        mx = {}
        mnv = {}
        for m in s.d:
            for g, e in m:
                G = GENS[g]
                if G.kind == "inv" or G.kind == "cinv":
                    if e > mx.get(g, 0):
                        mx[g] = e
                elif e < 0 and e < mnv.get(g, 0):
                    mnv[g] = e
        if mnv:
            f = S({tuple(sorted((g, -e) for g, e in mnv.items())): 1})
            s = s * f
            continue
        if not mx:
            return s
        # clear the most recently created inverse first (its argument can only
        # contain older generators)
        g = max(mx)
        top = mx[g]
        q = GENS[g].arg
        pows = [ONE]
        for _ in range(top):
            pows.append(pows[-1] * q)
        groups = {}
        for m, c in s.d.items():
            e = 0
            rest = m
            for gg, ee in m:
                if gg == g:
                    e = ee
                    rest = tuple(t for t in m if t[0] != g)
                    break
            groups.setdefault(e, {})[rest] = c
        acc = ZERO
        for e, d in groups.items():
            acc = acc + S(d) * pows[top - e]
        s = acc


def diff(s, gid, memo=None):
    """formal partial derivative of s with respect to the real variable generator gid"""
    memo = {} if memo is None else memo

    def dgen(g):
        r = memo.get(g)
        if r is not None:
            return r
        G = GENS[g]
        k = G.kind
        if k == "var":
            r = ONE if g == gid else ZERO
        elif k in ("i", "prime", "e"):
            r = ZERO
        elif k == "cvar":
            re, im, sg = G.arg
            r = diff(re, gid, memo) + IMAG * diff(im, gid, memo) * sg
        else:
            a = G.arg if k in ("exp", "inv", "cinv", "sqrt", "log", "cabs", "abs") else (G.arg[2] if k == "op" else None)
            if isinstance(a, S):
                da = diff(a, gid, memo)
                if not da.d:
                    r = ZERO
                elif k == "exp":
                    r = da * S({((g, 1),): 1})
                elif k in ("inv", "cinv"):
                    x = S({((g, 1),): 1})
                    r = -(x * x) * da
                elif k == "sqrt":
                    r = da * S({((g, 1),): 1}) * a.inv() / 2
                elif k == "log":
                    r = da * a.inv()
                elif k == "op" and G.arg[0] == "cos":
                    r = -a.sin() * da
                elif k == "op" and G.arg[0] == "sin":
                    r = a.cos() * da
            if r is None:
                raise NotExact("derivative of %s" % G.name)
        memo[g] = r
        return r
    out = ZERO
    acc = {}
    for m, c in s.d.items():
        for j, (g, e) in enumerate(m):
            dg = dgen(g)
            if not dg.d:
                continue
            rest = m[:j] + (((g, _norm(e - 1)),) if e != 1 else ()) + m[j + 1:]
            t = acc.setdefault(g, {})
            t[rest] = _norm(t.get(rest, 0) + c * e)
    for g, d in acc.items():
        out = out + S({m: c for m, c in d.items() if c}) * dgen(g)
    return out
