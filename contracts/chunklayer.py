"""Abstract chunks in contracts: symbolic chunks, equality, and the specification of one slot of a match."""
from .common import *
from pyvc import abschunk
from pyvc.abschunk import IDX, BVHAS, BVVAL, BVNHAS, BVNSET
from pyvc.models import VarMap, VS_SORT

Val, SV = L.Val, L.SV


def setup(E, eq=True):
    """Abstract chunks with slots; == and hashing through the equality class (proved in C02)."""
    E.abs_chunk_init = abschunk.init
    if eq:
        def ceq(E, args, kwargs):
            a, o = args
            if isinstance(o, ValV):
                o = E.resolve(o)
            if lib.is_chunk(E, o):
                return lib.wrapb(lib.chunk_eq(E, a, o))
            return False
        E.contracts["pyactr.chunks.Chunk.__eq__"] = ceq
    E.contracts["pyactr.chunks.Chunk.__repr__"] = lambda E, a, k: E.fresh_str("chunk")


def achunk(E, nm, nonempty=False):
    """A symbolic chunk with any slots."""
    c = E.fresh(nm, L.I)
    o = lib.chunk_obj(E, c)
    E.fact(L.NSLOTS(c) >= (1 if nonempty else 0))
    return o


def cid(E, o):
    return lib.cid_of(E, o)


def bv_of(o):
    return o.attrs["boundvars"]


# ------------------------------------------------------------------ specification
def value_in(o, nm):
    """The value of chunk o in slot nm; empty if it has none."""
    s = L.SLOT(o, nm)
    v = SV.vals(s)
    return z3.If(z3.Not(L.HASN(o, nm)), Val.empty, z3.If(SV.is_svEmpty(s), Val.empty, z3.If(L.nil(v), Val.empty, v)))


def required(w):
    """The slot demands this value (a missing value or the empty string demands nothing)."""
    return z3.Or(z3.And(Val.is_vstr(w), z3.Length(Val.s(w)) > 0), Val.is_vchk(w), z3.And(Val.is_vnum(w), Val.r(w) != 0))


def wf_content(E, s):
    """What the constructor guarantees about the content of a slot."""
    v = SV.vars(s)
    E.fact(z3.Implies(SV.is_sv(s), z3.And(z3.Or(Val.is_none(v), z3.And(Val.is_vstr(v), z3.Length(Val.s(v)) > 0)), z3.Not(Val.is_vnum(SV.vals(s))),
                                          L.NLEN(SV.negvals(s)) >= 0, L.NLEN(SV.negvars(s)) >= 0)))
    E.fact(L.NLEN(z3.IntVal(0)) == 0)
