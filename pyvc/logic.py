"""Logical vocabulary shared by the library model and the contracts.

Val  : dynamic value of a chunk slot (None, the EmptyValue object, string, chunk, number)
SV   : slot content (EmptyValue object, or the 4-field tuple values/variables/negvalues/negvariables)
Chunks are identified by an integer id; SLOT(id, name) is the content of the named slot
(missing slots count as svEmpty), NAMEAT(id, k) the k-th slot name, NSLOTS(id) their number.
"""
from fractions import Fraction
import z3

I, R, B, S = z3.IntSort(), z3.RealSort(), z3.BoolSort(), z3.StringSort()

Val = z3.Datatype("Val")
Val.declare("none")
Val.declare("empty")
Val.declare("vstr", ("s", S))
Val.declare("vchk", ("c", I))
Val.declare("vnum", ("r", R))
Val = Val.create()

SV = z3.Datatype("SV")
SV.declare("svEmpty")
SV.declare("sv", ("vals", Val), ("vars", Val), ("negvals", I), ("negvars", I))
SV = SV.create()

# neg lists: id -> length / elements; id 0 is the empty tuple
NLEN = z3.Function("NLEN", I, I)
NVAL = z3.Function("NVAL", I, I, Val)      # element of a negvalues list
NVARS = z3.Function("NVARS", I, I, S)      # element of a negvariables list

SLOT = z3.Function("SLOT", I, S, SV)
NSLOTS = z3.Function("NSLOTS", I, I)
NAMEAT = z3.Function("NAMEAT", I, I, S)
HASN = z3.Function("HASN", I, S, B)        # the chunk's type has the slot
CANON = z3.Function("CANON", I, I)         # equality class of a chunk (== is by hash)
CTYPE = z3.Function("CTYPE", I, S)

EXP = z3.Function("EXP", R, R)
LOG = z3.Function("LOG", R, R)
POW = z3.Function("POW", R, R, R)
FIELDOF = z3.Function("FIELDOF", I, S, B)     # the string is a name of the chunk type followed by "_"
SQRT = z3.Function("SQRT", R, R)
ATAN2 = z3.Function("ATAN2", R, R, R)
TAN = z3.Function("TAN", R, R)
PI = z3.Const("PI", R)
ROUND = z3.Function("ROUND", R, I, R)
SUMF = z3.Function("SUMF", z3.ArraySort(I, R), I, R)
UPPER = z3.Function("UPPER", S, S)
ISFLOAT = z3.Function("ISFLOAT", S, B)
STR2REAL = z3.Function("STR2REAL", S, R)
ISINT = z3.Function("ISINT", S, B)
STR2INT = z3.Function("STR2INT", S, I)
REAL2STR = z3.Function("REAL2STR", R, S)
INT2STR = z3.Function("INT2STR", I, S)
REPR = z3.Function("REPR", Val, S)
LOGISTIC = z3.Function("LOGISTIC", R, R, I, R)
GAMMA = z3.Function("GAMMA", R, R, I, R)


def nil(a):
    return z3.Or(Val.is_none(a), Val.is_empty(a))


def nonestr(a):
    return z3.And(Val.is_vstr(a), Val.s(a) == z3.StringVal("None"))


def valeq(a, b):
    """Python == on slot values (EmptyValue equals None and the string 'None')."""
    return z3.Or(z3.And(nil(a), nil(b)),
                 z3.And(Val.is_empty(a), nonestr(b)), z3.And(nonestr(a), Val.is_empty(b)),
                 z3.And(Val.is_vstr(a), Val.is_vstr(b), Val.s(a) == Val.s(b)),
                 z3.And(Val.is_vchk(a), Val.is_vchk(b), CANON(Val.c(a)) == CANON(Val.c(b))),
                 z3.And(Val.is_vnum(a), Val.is_vnum(b), Val.r(a) == Val.r(b)))


def hasheq(a, b):
    """Same key in a set or dict: equal and same hash (hash collisions assumed away)."""
    return z3.Or(z3.And(nil(a), nil(b)),
                 z3.And(Val.is_vstr(a), Val.is_vstr(b), Val.s(a) == Val.s(b)),
                 z3.And(Val.is_vchk(a), Val.is_vchk(b), CANON(Val.c(a)) == CANON(Val.c(b))),
                 z3.And(Val.is_vnum(a), Val.is_vnum(b), Val.r(a) == Val.r(b)))


def rv(x):
    """real constant"""
    if isinstance(x, Fraction):
        return z3.RealVal("%d/%d" % (x.numerator, x.denominator))
    return z3.RealVal(str(x))
