"""Independent reference constructions: second-quantised operators as matrices on
small occupation-number spaces (Jordan-Wigner fermions, truncated bosons)."""
import itertools
import math
import numpy as np
from fractions import Fraction
from vsym.shim import s_einsum


def fermion_ops(n):
    """annihilation matrices c_0..c_{n-1} on the 2^n space (basis index = bitmask)"""
    dim = 1 << n
    ops = []
    for p in range(n):
        c = np.zeros((dim, dim), dtype=int)
        for s in range(dim):
            if s >> p & 1:
                sgn = (-1) ** bin(s & ((1 << p) - 1)).count("1")
                c[s ^ (1 << p), s] = sgn
        ops.append(c)
    return ops


def slater_vector(ctx, C, ops):
    """prod_i (sum_p C[p,i] c^dag_p) |0>  (column 0 acts first... leftmost = column 0)"""
    dim = ops[0].shape[0]
    v = ctx.np.zeros(dim)
    if ctx.mode == "num":
        v = v.astype(complex)
    v[0] = ctx.num(1)
    for i in reversed(range(C.shape[1])):
        w = ctx.np.zeros(dim)
        if ctx.mode == "num":
            w = w.astype(complex)
        for p in range(C.shape[0]):
            cd = ops[p].T
            for a, b in zip(*np.nonzero(cd)):
                w[a] = w[a] + C[p, i] * v[b] * int(cd[a, b])
        v = w
    return v


def apply(ctx, M, v):
    """integer sparse matrix on a vector"""
    w = ctx.np.zeros(M.shape[0])
    if ctx.mode == "num":
        w = w.astype(complex)
    for a, b in zip(*np.nonzero(M)):
        w[a] = w[a] + v[b] * (int(M[a, b]) if M.dtype.kind == "i" else M[a, b])
    return w


def vdot(ctx, a, b):
    return sum((ctx.np.conj(x) * y for x, y in zip(a, b)), ctx.num(0))


def boson_a(ctx, n):
    """annihilation operator on n Fock states, exact square roots"""
    a = ctx.np.zeros((n, n))
    for k in range(1, n):
        a[k - 1, k] = ctx.np.sqrt(ctx.num(k))
    return a


def gf_ref(ctx, T, W):
    """<T|c^dag_p c_q|W>/<T|W> = [W (T^+ W)^-1 T^+]_{qp}"""
    n = ctx.np
    S = n.dot(n.conj(T).T, W)
    return n.dot(n.dot(W, n.linalg.inv(S)), n.conj(T).T).T


def det(ctx, A):
    """Leibniz determinant, independent of the library's"""
    n = A.shape[0]
    t = ctx.num(0)
    for p in itertools.permutations(range(n)):
        inv = sum(1 for i in range(n) for j in range(i + 1, n) if p[i] > p[j])
        x = ctx.num((-1) ** inv)
        for i in range(n):
            x = x * A[i, p[i]]
        t = t + x
    return t
