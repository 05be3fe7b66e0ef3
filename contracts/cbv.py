"""Specification of utilities.check_bound_vars: how the content of a slot in an action is resolved.

Proved of the function in C06; used as its contract everywhere else."""
from .chunklayer import *

CBV = "pyactr.utilities.check_bound_vars"
GT, LT = z3.StringVal(">"), z3.StringVal("<")


def truthy(w):
    """truth of a slot value"""
    return z3.Or(Val.is_empty(w), required(w))


def marker(v):
    return z3.And(Val.is_vstr(v), z3.Or(Val.s(v) == GT, Val.s(v) == LT))


class Resolved:
    """The specification for content s (SV) under bindings H (bound variables), V (their values)."""
    def __init__(self, E, s, H, V):
        isv = z3.And(SV.is_sv(s))
        self.s = s
        w, var = SV.vals(s), SV.vars(s)
        self.hasw = z3.And(isv, truthy(w))
        self.hasx = z3.And(isv, Val.is_vstr(var))
        x = z3.Select(V, Val.s(var))
        ng, nv = SV.negvals(s), SV.negvars(s)
        self.ngn = z3.If(isv, L.NLEN(ng), z3.IntVal(0))
        self.nvn = z3.If(isv, L.NLEN(nv), z3.IntVal(0))
        self.neg = z3.Or(self.ngn > 0, self.nvn > 0)
        k = z3.Int("k!rs")
        self.unbound = z3.And(self.hasx, z3.Not(z3.Select(H, Val.s(var))))
        self.negunbound = z3.Exists([k], z3.And(k >= 0, k < self.nvn, z3.Not(z3.Select(H, L.NVARS(nv, k)))))
        both = z3.And(self.hasw, self.hasx)
        self.both = both
        differ = z3.And(both, z3.Not(L.valeq(x, w)))
        mk = z3.Or(marker(w), marker(x))
        self.two = z3.And(differ, z3.Not(mk))
        self.join = z3.And(differ, mk)
        self.strings = z3.And(Val.is_vstr(w), Val.is_vstr(x))
        number = z3.If(marker(w), Val.s(x), Val.s(w))
        self.plain = z3.And(self.join, self.strings, number < LT)      # the other value starts like a number
        self.joined = Val.vstr(z3.Concat(z3.If(marker(w), Val.s(w), Val.s(x)), number))
        self.value = z3.If(self.hasx, x, z3.If(self.hasw, w, Val.none))
        self.x, self.w, self.ng, self.nv, self.V = x, w, ng, nv, V

    def negset(self, v, kg=None, kv=None):
        """v is among the first kg negated values or the bindings of the first kv negated variables."""
        k = z3.Int("k!ns")
        kg = self.ngn if kg is None else kg
        kv = self.nvn if kv is None else kv
        return z3.Or(z3.Exists([k], z3.And(k >= 0, k < kg, L.NVAL(self.ng, k) == v)), z3.Exists([k], z3.And(k >= 0, k < kv, z3.Select(self.V, L.NVARS(self.nv, k)) == v)))


A_H, A_V = z3.ArraySort(L.S, L.B), z3.ArraySort(L.S, Val)
ERR = z3.Function("CBVERR", SV, A_H, A_V, L.B, L.B)
VALUE = z3.Function("CBVVAL", SV, A_H, A_V, Val)
NEGS = z3.Function("CBVNEG", SV, A_H, A_V, L.I)


def slot_term(E, elem):
    """engine slot content -> SV term"""
    if isinstance(elem, SlotV):
        return elem.t
    if elem is None or lib.is_empty(E, elem):
        return SV.svEmpty
    if isinstance(elem, NT):
        return lib.sv_term(E, elem)
    raise Unsupported("slot content %r" % (elem,))


def bindings_of(E, m):
    if isinstance(m, VarMap):
        return m.has, m.val
    if isinstance(m, DictV) and not m.pairs:
        return z3.K(L.S, z3.BoolVal(False)), z3.K(L.S, Val.none)
    raise Unsupported("bindings %r" % (m,))


def resolved(E, s, H, V):
    """Result of check_bound_vars on content s, as SV."""
    return SV.sv(VALUE(s, H, V), Val.none, NEGS(s, H, V), z3.IntVal(0))


def install(E, log=None):
    """Contract of check_bound_vars for callers: an error or a result, determined by content, bindings and mode."""
    def c(E, args, kwargs):
        env = E.bind(F(E, CBV), args, kwargs)
        neg = env.get("negative_impossible", True)
        if not isinstance(neg, bool):
            raise Unsupported("negative_impossible is not a constant")
        s = slot_term(E, env["elem"])
        H, V = bindings_of(E, env["actrvariables"])
        if log is not None:
            log.append((s, H, V, neg))
        if E.branch(ERR(s, H, V, z3.BoolVal(neg))):
            raise engine.PyExc(cls(E, "pyactr.utilities.ACTRError"), ["check_bound_vars"])
        E.fact(z3.And(L.NLEN(NEGS(s, H, V)) >= 0, z3.Implies(z3.BoolVal(neg), NEGS(s, H, V) == 0), L.NLEN(z3.IntVal(0)) == 0))
        return SlotV(resolved(E, s, H, V))
    E.contracts[CBV] = c


def used(E, s):
    """The slot holds anything (a value, a variable or a negation)."""
    v = SV.vals(s)
    return z3.And(SV.is_sv(s), z3.Or(z3.Not(L.nil(v)), z3.And(Val.is_vstr(SV.vars(s)), z3.Length(Val.s(SV.vars(s))) > 0), L.NLEN(SV.negvals(s)) > 0, L.NLEN(SV.negvars(s)) > 0))


class NewChunk:
    def __init__(self, obj, typename, d):
        self.obj, self.typename, self.d = obj, typename, d


def install_chunk(E, log, link=()):
    """Contract of the Chunk constructor: a new chunk of the type with the given slots (C22). log: what was constructed."""
    def c(E, args, kwargs):
        typename = args[0] if args else kwargs.pop("typename")
        d = kwargs.pop("**", None)
        if d is not None and kwargs:
            raise Unsupported("chunk with named and unnamed slots")
        o = lib.chunk_obj(E, E.fresh("newchunk", L.I))
        nc = NewChunk(o, typename, d if d is not None else dict(kwargs))
        log.append(nc)
        for s in link:          # slots of the chunk type that are looked at afterwards
            t = z3.StringVal(s)
            has, val = slot_of_new(E, nc, t)
            c = cid(E, o)
            E.assume(L.HASN(c, t))
            E.assume(L.SLOT(c, t) == z3.If(has, val, SV.svEmpty))
        return o
    E.contracts["pyactr.chunks.Chunk"] = c


def slot_of_new(E, nc, s):
    """(has, SV) of slot s (z3 term) in what was passed to the constructor."""
    if isinstance(nc.d, dict):
        has, val = z3.BoolVal(False), SV.svEmpty
        for k, v in nc.d.items():
            hit = s == z3.StringVal(k)
            has = z3.Or(hit, has)
            val = z3.If(hit, content_term(E, v), val)
        return has, val
    h = nc.d.has(s)
    return h, (content_term(E, nc.d.get(s)))


def content_term(E, v):
    if v is None:
        return SV.svEmpty
    if isinstance(v, str) or (isinstance(v, Sym) and v.t.sort() == L.S):       # a plain text is the value of the slot
        return SV.sv(Val.vstr(E.str_term(v)), Val.none, z3.IntVal(0), z3.IntVal(0))
    return slot_term(E, v)
