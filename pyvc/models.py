"""Abstract objects: numpy vectors, extended reals, maps of symbolic size, variable bindings."""
from fractions import Fraction
import z3
from . import logic as L
from .values import *
from .values import Model


class XReal(Model):
    """Extended real: kind -1 (-inf), 0 (finite), 1 (+inf)."""
    pyclass = float

    def __init__(self, k, r):
        super().__init__()
        self.k, self.r = k, r


class NdArr(Model):
    """One-dimensional numpy array: values a[0..n-1]; mask (or None) restricts the elements counted."""
    pyclass = "numpy.ndarray"

    def __init__(self, n, a, mask=None):
        super().__init__()
        self.n, self.a, self.mask = n, a, mask      # a: python function z3Int -> z3Real; mask likewise -> Bool

    def lam(self):
        k = z3.Int("k!nd")
        body = self.a(k)
        if self.mask is not None:
            body = z3.If(self.mask(k), body, z3.RealVal(0))
        return z3.Lambda([k], body)


class MapDict(Model):
    """dict name -> slot value of symbolic size: has(s), get(s) as z3 terms over a string s (get: any engine value)."""
    pyclass = dict

    def __init__(self, has, get, seq=None):
        super().__init__()
        self.has, self.get, self.seq = has, get, seq

    def copy(self):
        return MapDict(self.has, self.get, self.seq)


class ChunkTuple(Model):
    """The namedtuple inside a chunk (Chunk.actrchunk), for an abstract chunk id."""
    pyclass = tuple

    def __init__(self, cid):
        super().__init__()
        self.cid = cid


class VarMap(Model):
    """Variable bindings: keys '='+x -> Val, '~='+x -> set of Val (dict of a chunk's bound variables)."""
    pyclass = dict

    def __init__(self, has, val, nhas, nset):
        super().__init__()
        # has: Array(S,B); val: Array(S,Val); nhas: Array(S,B); nset: Array(S, Array(Val,B))
        self.has, self.val, self.nhas, self.nset = has, val, nhas, nset

    def snapshot(self):
        return VarMap(self.has, self.val, self.nhas, self.nset)

    def same(self, o):
        return z3.And(self.has == o.has, self.val == o.val, self.nhas == o.nhas, self.nset == o.nset)


class ValSet(Model):
    """Set of Val with membership array (closed under hasheq by construction of the tests)."""
    pyclass = set

    def __init__(self, arr, owner=None):
        super().__init__()
        self.arr = arr
        self.owner = owner      # (VarMap, name) when the set lives inside a binding map


class MultiSeq(Model):
    pass


VS_SORT = z3.ArraySort(L.Val, L.B)


def fresh_varmap(E, nm):
    return VarMap(E.fresh(nm + "_has", z3.ArraySort(L.S, L.B)), E.fresh(nm + "_val", z3.ArraySort(L.S, L.Val)),
                  E.fresh(nm + "_nhas", z3.ArraySort(L.S, L.B)), E.fresh(nm + "_nset", z3.ArraySort(L.S, VS_SORT)))


class AbsMap(Model):
    """Mapping with python-side behaviour supplied by a contract (name -> object)."""
    pyclass = dict


class NullCM(Model):
    """warnings.catch_warnings()"""
    def __init__(self):
        super().__init__()
        self.saved = 0

    def cm_enter(self, E):
        self.saved = E.warn_error
        return None

    def cm_exit(self, E):
        E.warn_error = self.saved
