"""helpers shared by the harnesses (work in symbolic and in numeric mode)"""
import io
import sys
import types
from fractions import Fraction
import numpy as np
from vsym.poly import S
from vsym.core import conj, disj, SArr, sarr, issym

NS = types.SimpleNamespace


class Null:
    def write(self, *a):
        pass

    def flush(self):
        pass


def blank(cls):
    """an instance of a real class without its constructor: attributes it lacks are the harness' business"""
    o = object.__new__(cls)
    o.__dict__["_vsym_stub"] = True
    return o


def fake_comm(size=1, rank=0):
    c = NS()
    c.allreduce = lambda x, op=None: x
    c.reduce = lambda x, op=None, root=0: x
    c.bcast = lambda x, root=0: x
    c.gather = lambda x, root=0: [x]
    c.allgather = lambda x: [x]
    c.Barrier = lambda: None
    c.barrier = lambda: None
    return c


def fake_mpi(size=1, rank=0):
    return NS(size=size, rank=rank, comm=fake_comm(size, rank))


def same(a, b):
    """are two scalars / arrays the same object content (symbolically identical)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return all((S.const(x).d == S.const(y).d) for x, y in zip(a.ravel(), b.ravel()))
    return bool(np.array_equal(a, b))


class Pending(BaseException):
    def __init__(self, kind, x):
        self.kind, self.x = kind, x


class RankComm:
    """one rank of a lock-step simulated communicator: the k-th collective of every rank meets"""

    def __init__(self, rank, size, done):
        self.rank, self.size, self.done, self.k = rank, size, done, 0

    def _meet(self, kind, x):
        if self.k < len(self.done):
            r = self.done[self.k][self.rank]
            self.k += 1
            return r.copy() if hasattr(r, "copy") else r
        raise Pending(kind, x.copy() if hasattr(x, "copy") else x)

    def allreduce(self, x, op=None):
        return self._meet("sum", x)

    def reduce(self, x, op=None, root=0):
        return self._meet("sum", x)

    def allgather(self, x):
        return self._meet("gather", x)

    def gather(self, x, root=0):
        return self._meet("gather", x)

    def bcast(self, x, root=0):
        return self._meet("bcast", x)

    def Barrier(self):
        return self._meet("barrier", 0)

    barrier = Barrier

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size


def run_ranks(size, body):
    """body(mpi) is the program of one rank; returns the list of results (replays up to each collective)"""
    done = []
    for _ in range(60):
        out, pend = [], []
        for r in range(size):
            comm = RankComm(r, size, done)
            try:
                out.append(body(NS(size=size, rank=r, comm=comm)))
            except Pending as p:
                pend.append(p)
        if not pend:
            return out
        if len(pend) != size or len({p.kind for p in pend}) != 1:
            raise RuntimeError("collective operations do not match across ranks (deadlock)")
        kind = pend[0].kind
        if kind == "sum":
            t = pend[0].x
            for p in pend[1:]:
                t = t + p.x
            done.append([t] * size)
        elif kind == "gather":
            done.append([[p.x for p in pend]] * size)
        else:
            done.append([pend[0].x] * size)
    raise RuntimeError("too many collective operations")
