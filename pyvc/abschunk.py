"""Abstract chunks: any number of slots, any contents.

A chunk id c has NSLOTS(c) slots named NAMEAT(c, 0..), no name twice; IDX(c, s) is the position of slot s
if HASN(c, s); SLOT(c, s) is its content (svEmpty when the chunk has no such slot); CTYPE(c) its type name;
BVHAS/BVVAL/BVNHAS/BVNSET(c) its bindings at the start.
"""
import z3
from . import logic as L
from . import lib
from .values import *
from .values import Model
from .models import ChunkTuple, MapDict, VarMap, VS_SORT
from .engine import Unsupported, bexc, PyExc

IDX = z3.Function("IDX", L.I, L.S, L.I)
BVHAS = z3.Function("BVHAS", L.I, z3.ArraySort(L.S, L.B))
BVVAL = z3.Function("BVVAL", L.I, z3.ArraySort(L.S, L.Val))
BVNHAS = z3.Function("BVNHAS", L.I, z3.ArraySort(L.S, L.B))
BVNSET = z3.Function("BVNSET", L.I, z3.ArraySort(L.S, VS_SORT))


def at_fact(E, c, i):
    """Facts about position i of chunk c."""
    nm = L.NAMEAT(c, i)
    E.fact(z3.Implies(z3.And(i >= 0, i < L.NSLOTS(c)), z3.And(L.HASN(c, nm), IDX(c, nm) == i, z3.Length(nm) > 0)))


def name_fact(E, c, s):
    """Facts about slot name s of chunk c."""
    k = IDX(c, s)
    E.fact(z3.Implies(L.HASN(c, s), z3.And(k >= 0, k < L.NSLOTS(c), L.NAMEAT(c, k) == s)))
    E.fact(z3.Implies(z3.Not(L.HASN(c, s)), L.SLOT(c, s) == L.SV.svEmpty))


def names(E, c, suffix=""):
    E.fact(L.NSLOTS(c) >= 0)

    def elem(i):
        at_fact(E, c, i)
        nm = L.NAMEAT(c, i)
        return Sym(z3.Concat(nm, z3.StringVal(suffix))) if suffix else Sym(nm)
    s = SeqV(L.NSLOTS(c), elem, tag=("chunk", c))
    s.cid = c
    return s


def slot_val(E, c, nm):
    t = z3.simplify(L.SLOT(c, nm))
    if z3.is_app(t) and t.decl().name() == "svEmpty":
        return lib.empty_obj(E)
    return SlotV(L.SLOT(c, nm))


def contents(E, c):
    E.fact(L.NSLOTS(c) >= 0)

    def elem(i):
        at_fact(E, c, i)
        return slot_val(E, c, L.NAMEAT(c, i))
    s = SeqV(L.NSLOTS(c), elem, tag=("chunk", c))
    s.cid = c
    return s


def strip_(E, key):
    """slot name from the field name 'slot_'"""
    if isinstance(key, str):
        if not key.endswith("_"):
            return None
        return z3.StringVal(key[:-1])
    parts = lib.flat_concat(E.str_term(key))
    if z3.is_string_value(parts[-1]) and parts[-1].as_string().endswith("_"):
        r = lib.str_slice(E, E.str_term(key), None, -1)
        return E.str_term(r)
    raise Unsupported("field name of unknown form %s" % (key,))


class Tup(ChunkTuple):
    """Chunk.actrchunk of an abstract chunk."""
    def get__fields(self, E):
        return names(E, self.cid, "_")

    def iterate(self, E):
        return contents(E, self.cid)

    def m___len__(self, E):
        E.fact(L.NSLOTS(self.cid) >= 0)
        return Sym(L.NSLOTS(self.cid))

    def m__asdict(self, E):
        sq = names(E, self.cid, "_")
        c = self.cid
        return MapDict(lambda s: _has_field(E, c, s), lambda s: slot_val(E, c, strip_(E, Sym(s))), sq)

    def m___getitem__(self, E, k):
        return lib.getitem(E, contents(E, self.cid), k)

    def getattr_sym(self, E, t):
        nm = strip_(E, Sym(t))
        name_fact(E, self.cid, nm)
        if not E.branch(L.HASN(self.cid, nm)):
            raise bexc("AttributeError", t)
        return slot_val(E, self.cid, nm)

    def getattr(self, E, nm):
        if nm.startswith("_") or nm in ("count", "index"):
            raise Unsupported("attribute %s of a chunk tuple" % nm)
        return self.getattr_sym(E, z3.StringVal(nm))


def _has_field(E, c, s):
    nm = strip_(E, Sym(s))
    name_fact(E, c, nm)
    return L.HASN(c, nm)


def bindings(c):
    return VarMap(BVHAS(c), BVVAL(c), BVNHAS(c), BVNSET(c))


def init(E, o):
    """E.abs_chunk_init: gives an abstract chunk object its parts."""
    c = o.meta["cid"]
    bv = bindings(c)
    bv.uid = o.uid
    o.attrs.update({"actrchunk": Tup(c), "typename": Sym(L.CTYPE(c)), "boundvars": bv,
                    "_Chunk__empty": None, "_Chunk__unused": None, "_Chunk__hash": (None, bindings(c))})

    def ga_sym(E, t):
        name_fact(E, c, t)
        if not E.branch(L.HASN(c, t)):
            raise bexc("AttributeError", t)
        return slot_val(E, c, t)
    o.meta["getattr_sym"] = ga_sym


def dict_from(E, seq, elem):
    """{key(x): value(x) for x in slots of a chunk}, keys being the slot names."""
    base = getattr(seq, "base", seq)
    c = base.cid
    i = E.fresh("di", L.I)
    # the key must be the slot's name (or field name)
    k = None
    pcn = len(E.pc)
    v = elem_key(E, seq, elem, i)
    t = z3.simplify(E.str_term(v))
    suffix = ""
    if t.eq(z3.simplify(L.NAMEAT(c, i))):
        pass
    elif t.eq(z3.simplify(z3.Concat(L.NAMEAT(c, i), z3.StringVal("_")))):
        suffix = "_"
    else:
        raise Unsupported("dictionary over the slots of a chunk with other keys: %s" % t)

    def nm(s):
        return s if not suffix else strip_(E, Sym(s))

    def has(s):
        n = nm(s)
        name_fact(E, c, n)
        f = L.HASN(c, n)
        if seq.guard is not None:
            f = z3.And(f, guard_at(n))
        return f

    def guard_at(n):
        j = IDX(c, n)
        g = seq.guard(j)
        return z3.substitute(g, (L.NAMEAT(c, j), n))

    def get(s):
        n = nm(s)
        name_fact(E, c, n)
        j = IDX(c, n)
        if seq.guard is not None:
            E.fact(z3.Implies(L.HASN(c, n), seq.guard(j) == guard_at(n)))
        r = elem(j)[1]
        return renamed(E, r, j, c, n)
    sq = SeqV(seq.n, lambda j: elem_key(E, seq, elem, j), tag=seq.tag)
    sq.guard = seq.guard
    sq.base = base
    return MapDict(has, get, sq)


def renamed(E, r, j, c, n):
    from .engine import subst_value
    if isinstance(r, (Sym, ValV, SlotV)):
        return subst_value(E, r, L.NAMEAT(c, j), n)
    if isinstance(r, NT):
        return NT(r.cls, [renamed(E, x, j, c, n) for x in r.vals])
    if isinstance(r, SeqV) and isinstance(r.tag, tuple) and r.tag[0] in ("negvals", "negvars"):
        return lib.neg_seq(E, z3.substitute(r.tag[1], (L.NAMEAT(c, j), n)), r.tag[0] == "negvars")
    return r


def elem_key(E, seq, elem, i):
    h = getattr(elem, "key_only", None)
    if h is not None:
        return h(i)
    return elem(i)[0]
