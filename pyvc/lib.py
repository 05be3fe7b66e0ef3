"""Semantics of the Python builtins, containers and the few library functions /repo uses.

This file is the trusted model of the language and of math/numpy; it is cross-checked on every run
against CPython executing the same functions (see the bounded replays in refute/).
"""
import ast
import itertools
import math
import re
from fractions import Fraction

import z3

from . import logic as L
from .engine import PyExc, bexc, Unsupported, PathEnd, NeedFork, real_class, Ext, INF
from .models import *
from .values import *
from .values import Model, next_uid

NONE, NUMT = None, (int, Fraction, float)


# ------------------------------------------------------------------ terms
def is_inf(v):
    return isinstance(v, float) and v in (INF, -INF)


def num_term(E, v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return L.rv(v)
    if isinstance(v, Sym):
        if z3.is_bool(v.t):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if v.t.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT):
            return v.t
    if isinstance(v, ValV):
        return num_term(E, resolve(E, v))
    if isinstance(v, XReal) and z3.is_true(z3.simplify(v.k == 0)):
        return v.r
    if isinstance(v, XReal):
        if E.branch(v.k == 0):
            return v.r
        raise Unsupported("arithmetic on an infinite value")
    if isinstance(v, float) and not is_inf(v):
        return L.rv(Fraction(repr(v)))
    raise bexc("TypeError", "number expected, got %r" % (v,))


def real_term(E, v):
    t = num_term(E, v)
    return z3.ToReal(t) if t.is_int() else t


def wrapnum(t):
    t = z3.simplify(t) if (z3.is_int_value(t) or z3.is_rational_value(t)) else t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return Sym(t)


def chunk_cls(E):
    return E.modules["pyactr.chunks"].ns["Chunk"]


def empty_obj(E):
    return chunk_cls(E).ns["_Chunk__emptyvalue"]


def empty_cls(E):
    return chunk_cls(E).ns["EmptyValue"]


def is_chunk(E, v):
    try:
        return isinstance(v, ObjV) and chunk_cls(E) in v.cls.mro()
    except KeyError:
        return False


def is_empty(E, v):
    try:
        return isinstance(v, ObjV) and v.cls is empty_cls(E)
    except KeyError:
        return False


def cid_of(E, o):
    if "cid" not in o.meta:
        o.meta["cid"] = E.fresh("cid", z3.IntSort())
        E.chunk_objs.append((o.meta["cid"], o))
    return o.meta["cid"]


def chunk_obj(E, cid):
    """The engine object of an abstract chunk id (one object per id term)."""
    cid = z3.simplify(cid) if not z3.is_const(cid) else cid
    for t, o in E.chunk_objs:
        if t.eq(cid):
            return o
    o = ObjV(chunk_cls(E))
    o.meta["cid"] = cid
    o.uid = 0 - next_uid()      # exists since before: identity by cid
    E.chunk_objs.append((cid, o))
    ab = getattr(E, "abs_chunk_init", None)
    if ab:
        ab(E, o)
    return o


def val_term(E, v):
    if isinstance(v, ValV):
        return v.t
    if v is None:
        return L.Val.none
    if is_empty(E, v):
        return L.Val.empty
    if is_str(v):
        return L.Val.vstr(E.str_term(v))
    if is_chunk(E, v):
        return L.Val.vchk(cid_of(E, v))
    if isinstance(v, bool) or isinstance(v, Sym) and z3.is_bool(v.t):
        raise Unsupported("boolean slot value")
    if is_num(v):
        return L.Val.vnum(real_term(E, v))
    raise Unsupported("not a slot value: %r" % (v,))


def is_valish(E, v):
    return isinstance(v, ValV) or v is None or is_empty(E, v) or is_str(v) or is_chunk(E, v)


def mkval(E, t):
    """Val term -> engine value (decoded when the constructor is known)."""
    s = z3.simplify(t)
    if z3.is_app(s):
        nm = s.decl().name()
        if nm == "none":
            return None
        if nm == "empty":
            return empty_obj(E)
        if nm == "vstr":
            a = s.arg(0)
            return a.as_string() if z3.is_string_value(a) else Sym(a)
        if nm == "vchk":
            return chunk_obj(E, s.arg(0))
        if nm == "vnum":
            return wrapnum(s.arg(0))
    return ValV(t)


def resolve(E, v):
    """Case split on the dynamic type of a symbolic slot value."""
    if not isinstance(v, ValV):
        return v
    d = mkval(E, v.t)
    if not isinstance(d, ValV):
        return d
    t = v.t
    if E.branch(L.Val.is_vstr(t)):
        return Sym(L.Val.s(t))
    if E.branch(L.Val.is_none(t)):
        return None
    if E.branch(L.Val.is_vchk(t)):
        return chunk_obj(E, L.Val.c(t))
    if E.branch(L.Val.is_empty(t)):
        return empty_obj(E)
    return Sym(L.Val.r(t))


def sv_term(E, v):
    """slot content -> SV term"""
    if isinstance(v, SlotV):
        return v.t
    if v is None or is_empty(E, v):
        return L.SV.svEmpty
    if isinstance(v, NT) and v.cls.fields == ("values", "variables", "negvalues", "negvariables"):
        return L.SV.sv(val_term(E, v.get("values")), val_term(E, v.get("variables")), neg_id(E, v.get("negvalues"), False), neg_id(E, v.get("negvariables"), True))
    raise Unsupported("not a slot content: %r" % (v,))


def neg_id(E, v, isvar):
    if isinstance(v, SeqV) and isinstance(v.tag, tuple) and v.tag[0] in ("negvals", "negvars"):
        return v.tag[1]
    if isinstance(v, (tuple, ListV, SetV)):
        items = list(v) if isinstance(v, tuple) else v.items
        if not items:
            return z3.IntVal(0)
        i = E.fresh("neg", z3.IntSort())
        E.assume(i != 0)
        E.assume(L.NLEN(i) == len(items))
        for k, x in enumerate(items):
            if isvar:
                E.assume(L.NVARS(i, k) == E.str_term(x))
            else:
                E.assume(L.NVAL(i, k) == val_term(E, x))
        return i
    raise Unsupported("neg list %r" % (v,))


def neg_seq(E, i, isvar):
    n = L.NLEN(i)
    E.fact(L.NLEN(z3.IntVal(0)) == 0)
    E.fact(n >= 0)
    if z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() == 0:
        return ()
    if isvar:
        return SeqV(n, lambda k: Sym(L.NVARS(i, k)), tag=("negvars", i))
    return SeqV(n, lambda k: mkval(E, L.NVAL(i, k)), tag=("negvals", i))


def slot_attr(E, o, nm):
    if nm in ("values", "variables", "negvalues", "negvariables", "_fields", "_asdict", "count", "index"):
        if E.branch(L.SV.is_svEmpty(o.t)):
            raise bexc("AttributeError", nm)
        t = z3.simplify(o.t)
        if nm == "values":
            return mkval(E, L.SV.vals(t))
        if nm == "variables":
            v = L.SV.vars(t)
            E.fact(z3.Or(L.Val.is_none(v), z3.And(L.Val.is_vstr(v), z3.Length(L.Val.s(v)) > 0)))
            return mkval(E, v)
        if nm == "negvalues":
            return neg_seq(E, z3.simplify(L.SV.negvals(t)), False)
        if nm == "negvariables":
            return neg_seq(E, z3.simplify(L.SV.negvars(t)), True)
        if nm == "_fields":
            return ("values", "variables", "negvalues", "negvariables")
        return BuiltinMethod(slot_to_nt(E, o), nm)
    if nm == "value":
        if E.branch(L.SV.is_svEmpty(o.t)):
            return None
    raise bexc("AttributeError", nm)


def slot_to_nt(E, o):
    cls = E.modules["pyactr.utilities"].ns["VarvalClass"]
    return NT(cls, [slot_attr(E, o, f) for f in cls.fields])


def slot_resolve(E, o):
    if E.branch(L.SV.is_svEmpty(o.t)):
        return empty_obj(E)
    return slot_to_nt(E, o)


# ------------------------------------------------------------------ truth, equality
def truth(E, v):
    if isinstance(v, bool):
        return v
    if v is None:
        return False
    if isinstance(v, NUMT):
        return v != 0
    if isinstance(v, str):
        return v != ""
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, Sym):
        if z3.is_bool(v.t):
            return E.branch(v.t)
        if v.t.sort() == z3.StringSort():
            return E.branch(z3.Length(v.t) > 0)
        return E.branch(v.t != 0)
    if isinstance(v, (ListV, SetV)):
        return len(v.items) > 0
    if isinstance(v, DictV):
        return len(v.pairs) > 0
    if isinstance(v, ValV):
        return truth(E, resolve(E, v))
    if isinstance(v, (SlotV, NT)):
        return True
    if isinstance(v, SeqV):
        if v.guard is not None:
            j = z3.Int("j!t%d" % E.next_q())
            return E.branch(z3.Exists([j], z3.And(j >= 0, j < v.n, v.guard(j))))
        return E.branch(v.n > 0)
    if isinstance(v, ObjV):
        b = E.class_lookup(v.cls, "__bool__")
        if b is not None and not isinstance(b, Ext):
            return truth(E, E.call(E.bind_member(b, v, v.cls), [], {}))
        ln = E.class_lookup(v.cls, "__len__")
        if ln is not None and not isinstance(ln, Ext):
            return truth(E, E.call(E.bind_member(ln, v, v.cls), [], {}))
        return True
    if isinstance(v, NdArr):
        raise Unsupported("truth of an array")
    if isinstance(v, ValSet):
        x = z3.Const("v!tr%d" % E.next_q(), L.Val)
        return E.branch(z3.Exists([x], z3.Select(v.arr, x)))
    if isinstance(v, Model):
        h = getattr(v, "truth", None)
        if h:
            return h(E)
        h = getattr(v, "m___len__", None)
        if h:
            return truth(E, h(E))
        if isinstance(v, MapDict) and v.seq is not None and v.seq.guard is None:
            return E.branch(v.seq.n > 0)
        if isinstance(v, (VarMap, MapDict)):
            raise Unsupported("truth of %s" % type(v).__name__)
        return True
    return True


def conj(E, fs):
    out = []
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        out.append(f)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def fml(E, r):
    """bool | Sym(Bool) -> bool or z3 term"""
    if isinstance(r, bool):
        return r
    if isinstance(r, Sym) and z3.is_bool(r.t):
        s = z3.simplify(r.t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return r.t
    if z3.is_expr(r) and z3.is_bool(r):
        return r
    return truth(E, r)


def wrapb(f):
    if isinstance(f, bool):
        return f
    s = z3.simplify(f)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return Sym(f)


def py_eq(E, a, b):
    return wrapb(eqf(E, a, b, False))


def keyeq(E, a, b):
    return eqf(E, a, b, True)


def eqf(E, a, b, hashed):
    """Formula of a == b (hashed: as set/dict keys)."""
    if a is b and not isinstance(a, float):
        return True
    if isinstance(a, SlotV) or isinstance(b, SlotV):
        if not isinstance(a, SlotV):
            a, b = b, a
        if isinstance(b, SlotV):
            if a.t.eq(b.t):
                return True
            ra, rb = slot_resolve(E, a), slot_resolve(E, b)
            return eqf(E, ra, rb, hashed)
        if b is None or is_empty(E, b):
            return L.SV.is_svEmpty(a.t)
        if b == "None" and not hashed:
            return L.SV.is_svEmpty(a.t)
        if isinstance(b, NT):
            if E.branch(L.SV.is_svEmpty(a.t)):
                return eqf(E, empty_obj(E), b, hashed)
            return eqf(E, slot_to_nt(E, a), b, hashed)
        if isinstance(b, ValV):
            return eqf(E, a, resolve(E, b), hashed)
        return eqf(E, slot_resolve(E, a), b, hashed)
    if isinstance(a, ValV) or isinstance(b, ValV):
        if is_valish(E, a) and is_valish(E, b):
            return (L.hasheq if hashed else L.valeq)(val_term(E, a), val_term(E, b))
        o, v = (b, a) if isinstance(a, ValV) else (a, b)
        if is_num(o) and not is_boolv(o):
            return L.valeq(val_term(E, a), val_term(E, b))
        return eqf(E, resolve(E, v), o, hashed)
    if isinstance(a, ObjV) or isinstance(b, ObjV):
        return obj_eq(E, a, b, hashed)
    if a is None or b is None:
        return a is None and b is None
    if is_boolv(a) and is_boolv(b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return E.bool_term(a) == E.bool_term(b)
    if (is_num(a) or is_boolv(a)) and (is_num(b) or is_boolv(b)):
        if is_inf(a) or is_inf(b):
            return isinstance(a, float) and isinstance(b, float) and a == b
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return a == b
        x, y = num_term(E, a), num_term(E, b)
        if x.is_int() != y.is_int():
            x, y = real_term(E, a), real_term(E, b)
        return x == y
    if isinstance(a, XReal) or isinstance(b, XReal):
        x, y = to_x(E, a), to_x(E, b)
        return z3.And(x.k == y.k, z3.Or(x.k != 0, x.r == y.r))
    if is_str(a) and is_str(b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return E.str_term(a) == E.str_term(b)
    if is_str(a) or is_str(b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Model) and x.pyclass is str and hasattr(x, "eq"):
                return fml(E, x.eq(E, y))
        return False
    ta, tb = as_seq_items(a), as_seq_items(b)
    if ta is not None and tb is not None:
        if ta[0] != tb[0] or len(ta[1]) != len(tb[1]):
            return False
        return conj(E, [eqf(E, x, y, hashed) for x, y in zip(ta[1], tb[1])])
    if isinstance(a, SetV) and isinstance(b, SetV):
        if len(a.items) != len(b.items):
            return False
        fs = []
        for x in a.items:
            f = contains_f(E, b.items, x, True)
            fs.append(f)
        return conj(E, fs)
    if isinstance(a, DictV) and isinstance(b, DictV):
        if len(a.pairs) != len(b.pairs):
            return False
        fs = []
        for k, v in a.pairs:
            m = [(keyeq(E, k, k2), v2) for k2, v2 in b.pairs]
            alts = [conj(E, [f, eqf(E, v, v2, False)]) for f, v2 in m if f is not False]
            alts = [x for x in alts if x is not False]
            if not alts:
                return False
            if any(x is True for x in alts):
                continue
            fs.append(z3.Or(*alts))
        return conj(E, fs)
    if isinstance(a, VarMap) and isinstance(b, VarMap):
        return a.same(b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Model) and hasattr(x, "eq"):
            return fml(E, x.eq(E, y))
    if isinstance(a, Ext) and isinstance(b, Ext):
        return a.name == b.name
    if isinstance(a, SeqV) or isinstance(b, SeqV):
        s, o = (a, b) if isinstance(a, SeqV) else (b, a)
        items = as_seq_items(o)
        if items is not None and len(items[1]) == 0:
            return s.n == 0
        if is_str(o) or o is None or is_num(o):
            return False
        raise Unsupported("equality of a symbolic sequence")
    if isinstance(a, ValSet) and isinstance(b, ValSet):
        v, t = z3.Const("v!se%d" % E.next_q(), L.Val), z3.String("t!se%d" % E.next_q())
        strings = z3.ForAll([t], z3.Select(a.arr, L.Val.vstr(t)) == z3.Select(b.arr, L.Val.vstr(t)))
        return z3.And(strings, z3.ForAll([v], z3.Or(L.Val.is_vstr(v), z3.Select(a.arr, v) == z3.Select(b.arr, v))))
    if isinstance(a, Model) or isinstance(b, Model):
        if isinstance(a, Model) and isinstance(b, Model) and type(a) is not type(b) or not (isinstance(a, Model) and isinstance(b, Model)):
            if isinstance(a, (VarMap, MapDict, NdArr, ValSet)) or isinstance(b, (VarMap, MapDict, NdArr, ValSet)):
                raise Unsupported("equality of %r and %r" % (type(a).__name__, type(b).__name__))
            return False
        return a is b
    return False


def as_seq_items(v):
    if isinstance(v, tuple):
        return ("tuple", list(v))
    if isinstance(v, NT):
        return ("tuple", list(v.vals))
    if isinstance(v, ListV):
        return (v.kind, list(v.items))
    return None


def obj_eq(E, a, b, hashed):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, ObjV):
            if hashed and is_chunk(E, x):
                # dict/set lookup: equal hash, then __eq__ (which is equality of hashes)
                if is_chunk(E, y):
                    if x is y:
                        return True
                    return chunk_eq(E, x, y)
                if y is None or is_str(y) or is_num(y) or is_empty(E, y) or isinstance(y, (tuple, NT)):
                    return False
            if hashed and is_empty(E, x):
                return y is None or is_empty(E, y)
            m = E.class_lookup(x.cls, "__eq__")
            if m is not None and not isinstance(m, Ext):
                r = E.call(E.bind_member(m, x, x.cls), [y], {})
                if r is NotImplemented or isinstance(r, Ext) and r.name == "builtins.NotImplemented":
                    continue
                return fml(E, r)
    return a is b


def chunk_eq(E, x, y):
    h = getattr(E, "chunk_eq_hook", None)
    if h is not None:
        return h(E, x, y)
    return L.CANON(cid_of(E, x)) == L.CANON(cid_of(E, y))


def contains_f(E, items, x, hashed):
    fs = []
    for it in items:
        f = eqf(E, x, it, hashed)
        if f is True:
            return True
        if f is False:
            continue
        fs.append(f)
    if not fs:
        return False
    return z3.Or(*fs) if len(fs) > 1 else fs[0]


def compare(E, op, a, b):
    if isinstance(op, ast.Eq):
        return py_eq(E, a, b)
    if isinstance(op, ast.NotEq):
        if isinstance(a, ObjV):
            m = E.class_lookup(a.cls, "__ne__")
            if m is not None and not isinstance(m, Ext) and isinstance(m, FuncV) and not m.qual.startswith("<stdlib>"):
                return E.call(E.bind_member(m, a, a.cls), [b], {})
        r = py_eq(E, a, b)
        return (not r) if isinstance(r, bool) else Sym(z3.Not(r.t))
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = is_(E, a, b)
        if isinstance(op, ast.IsNot):
            return (not r) if isinstance(r, bool) else Sym(z3.Not(r.t))
        return r
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(E, b, a)
        if isinstance(op, ast.NotIn):
            return (not r) if isinstance(r, bool) else Sym(z3.Not(r.t))
        return r
    nm = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
    return order(E, nm, a, b)


def is_(E, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Model) and hasattr(x, "is_"):
            return fml(E, x.is_(E, y))
    if isinstance(a, ValV) or isinstance(b, ValV):
        v, o = (a, b) if isinstance(a, ValV) else (b, a)
        if o is None:
            return wrapb(L.Val.is_none(v.t))
        return is_(E, resolve(E, v), o)
    if isinstance(a, SlotV) or isinstance(b, SlotV):
        v, o = (a, b) if isinstance(a, SlotV) else (b, a)
        if o is None:
            return False
        if is_empty(E, o):
            return wrapb(L.SV.is_svEmpty(v.t))
        if isinstance(o, SlotV) and o.t.eq(v.t):
            return True
        raise Unsupported("identity of slot contents")
    if a is b:
        return True
    if a is None or b is None:
        return False
    if is_boolv(a) and is_boolv(b):
        return py_eq(E, a, b)
    if isinstance(a, Ext) and isinstance(b, Ext):
        return a == b
    if isinstance(a, ObjV) and isinstance(b, ObjV):
        if "cid" in a.meta and "cid" in b.meta and not a.meta["cid"].eq(b.meta["cid"]):
            raise Unsupported("identity of abstract chunks")
        return False
    if isinstance(a, (HeapV, Model)) or isinstance(b, (HeapV, Model)):
        return False
    if isinstance(a, (ClassV, NTClass, FuncV)) or isinstance(b, (ClassV, NTClass, FuncV)):
        return False
    raise Unsupported("identity test of %r and %r" % (a, b))


def to_x(E, v):
    if isinstance(v, XReal):
        return v
    if is_inf(v):
        return XReal(z3.IntVal(1 if v > 0 else -1), z3.RealVal(0))
    return XReal(z3.IntVal(0), real_term(E, v))


def zb(f):
    return z3.BoolVal(f) if isinstance(f, bool) else f


def order(E, nm, a, b):
    if (isinstance(a, ValSet) or isinstance(b, ValSet)) and isinstance(a, (SetV, ValSet)) and isinstance(b, (SetV, ValSet)):
        le = lambda x, y: subset(E, x, y)
        x, y = (a, b) if nm in ("lt", "le") else (b, a)
        return le(x, y) if nm in ("le", "ge") else wrapb(z3.And(zb(fml(E, le(x, y))), z3.Not(zb(fml(E, le(y, x))))))
    swap = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}
    if isinstance(a, ValV):
        a = resolve(E, a)
    if isinstance(b, ValV):
        b = resolve(E, b)
    if isinstance(a, ObjV) or isinstance(b, ObjV):
        for x, y, n in ((a, b, nm), (b, a, swap[nm])):
            if isinstance(x, ObjV):
                m = E.class_lookup(x.cls, "__%s__" % n)
                if m is not None and not isinstance(m, Ext):
                    return E.call(E.bind_member(m, x, x.cls), [y], {})
        raise bexc("TypeError", "ordering not supported")
    if isinstance(a, XReal) or isinstance(b, XReal) or is_inf(a) or is_inf(b):
        if is_inf(a) and is_inf(b):
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[nm]
        x, y = to_x(E, a), to_x(E, b)
        if nm in ("gt", "ge"):
            x, y = y, x
        lt = z3.Or(x.k < y.k, z3.And(x.k == 0, y.k == 0, x.r < y.r))
        if nm in ("le", "ge"):
            lt = z3.Or(lt, z3.And(x.k == y.k, z3.Or(x.k != 0, x.r == y.r)))
        return wrapb(lt)
    if (is_num(a) or is_boolv(a)) and (is_num(b) or is_boolv(b)):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[nm]
        x, y = num_term(E, a), num_term(E, b)
        if x.is_int() != y.is_int():
            x, y = real_term(E, a), real_term(E, b)
        return wrapb({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[nm])
    if isinstance(a, NdArr) and (is_num(b)):
        f = {"lt": lambda p, q: p < q, "le": lambda p, q: p <= q, "gt": lambda p, q: p > q, "ge": lambda p, q: p >= q}[nm]
        bt = real_term(E, b)
        return MaskArr(a, lambda k: f(a.a(k), bt))
    if isinstance(b, NdArr) and is_num(a):
        return order(E, swap[nm], b, a)
    if isinstance(a, str) and isinstance(b, str):
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[nm]
    if is_str(a) and is_str(b):
        x, y = E.str_term(a), E.str_term(b)
        return wrapb({"lt": x < y, "le": x <= y, "gt": y < x, "ge": y <= x}[nm])
    if isinstance(a, SetV) and isinstance(b, SetV):
        if nm == "le":
            return wrapb(conj(E, [contains_f(E, b.items, x, True) for x in a.items]))
        if nm == "ge":
            return order(E, "le", b, a)
    if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)):
        xs, ys = as_seq_items(a)[1], as_seq_items(b)[1]
        for x, y in zip(xs, ys):
            if not truth(E, py_eq(E, x, y)):
                return order(E, nm, x, y)
        return order(E, nm, len(xs), len(ys))
    raise bexc("TypeError", "ordering not supported between %r and %r" % (a, b))


class MaskArr(Model):
    pyclass = "numpy.ndarray"

    def __init__(self, arr, f):
        super().__init__()
        self.arr, self.f = arr, f

    def op_invert(self, E):
        return MaskArr(self.arr, lambda k: z3.Not(self.f(k)))


def contains(E, c, x):
    if isinstance(c, ValV):
        c = resolve(E, c)
    if isinstance(c, SetV):
        return wrapb(contains_f(E, c.items, x, True))
    if isinstance(c, DictV):
        return wrapb(contains_f(E, [k for k, _ in c.pairs], x, True))
    if isinstance(c, (tuple, ListV, NT)):
        return wrapb(contains_f(E, as_seq_items(c)[1], x, False))
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if is_str(c) and is_str(x):
        return wrapb(z3.Contains(E.str_term(c), E.str_term(x)))
    if isinstance(c, ObjV):
        m = E.class_lookup(c.cls, "__contains__")
        if m is not None and not isinstance(m, Ext):
            return wrapb(fml(E, E.call(E.bind_member(m, c, c.cls), [x], {})))
        return contains(E, ListV(to_list(E, c)), x)
    if isinstance(c, MapDict):
        return wrapb(c.has(E.str_term(x)))
    if isinstance(c, NdArr):
        if not (is_num(x) or is_boolv(x)):
            raise Unsupported("membership of %r in an array" % (x,))
        j = z3.Int("j!na%d" % E.next_q())
        return wrapb(z3.Exists([j], z3.And(j >= 0, j < c.n, c.a(j) == real_term(E, x), *([c.mask(j)] if c.mask is not None else []))))
    if isinstance(c, VarMap):
        kind, t = split_key(E, x)
        return wrapb(z3.Select(c.has if kind == "=" else c.nhas, t))
    if isinstance(c, ValSet):
        return wrapb(z3.Select(c.arr, val_term(E, x)))
    if isinstance(c, SeqV):
        h = getattr(c, "contains", None)
        if h:
            return wrapb(fml(E, h(E, x)))
        if getattr(c, "vs_arr", None) is not None and c.guard is None and is_valish(E, x):
            return wrapb(z3.Select(c.vs_arr, val_term(E, x)))
        ci = getattr(getattr(c, "base", c), "cid", None)
        if ci is not None and (is_str(x) or isinstance(x, Sym) and x.t.sort() == z3.StringSort()):
            j = z3.Int("j!cc")
            e = c.elem(j)
            fc = suffixed(e.t, j) if isinstance(e, Sym) else None
            if fc is not None:
                return wrapb(L.FIELDOF(fc, E.str_term(x)))
            if isinstance(e, Sym) and e.t.eq(L.NAMEAT(ci, j)):      # slot names of a chunk: only one position can hold the name
                from . import abschunk
                t = E.str_term(x)
                abschunk.name_fact(E, ci, t)
                p = abschunk.IDX(ci, t)
                g = c.guard(p) if c.guard is not None else z3.BoolVal(True)
                return wrapb(z3.And(L.HASN(ci, t), z3.substitute(g, (L.NAMEAT(ci, p), t))))
        j = z3.Int("j!c%d" % E.next_q())
        gd = [c.guard(j)] if c.guard is not None else []
        f = E.speculate(lambda: wrapb(eqf(E, c.elem(j), x, False)), z3.And(j >= 0, j < c.n, *gd), __import__("pyvc.engine", fromlist=["Frame"]).Frame(None))
        if f is None:
            raise Unsupported("membership in a symbolic sequence")
        ff = fml(E, f[0])
        if isinstance(ff, bool):
            return wrapb(z3.Exists([j], z3.And(z3.BoolVal(ff), j >= 0, j < c.n, *gd)))
        return Sym(z3.Exists([j], z3.And(j >= 0, j < c.n, ff, *gd)))
    if isinstance(c, Model) and hasattr(c, "m___contains__"):
        return wrapb(fml(E, c.m___contains__(E, x)))
    if isinstance(c, GenV):
        return contains(E, ListV(to_list(E, c)), x)
    raise bexc("TypeError", "argument of type %r is not iterable" % type(c).__name__)


# ------------------------------------------------------------------ strings
def split_key(E, key):
    """'=x' -> ('=', x); '~=x' -> ('~=', x) for keys of a binding map."""
    if isinstance(key, ValV):
        key = resolve(E, key)
    if isinstance(key, str):
        if key.startswith("~="):
            return "~=", z3.StringVal(key[2:])
        if key.startswith("="):
            return "=", z3.StringVal(key[1:])
        raise Unsupported("binding key %r" % key)
    t = E.str_term(key)
    parts = flat_concat(t)
    if z3.is_string_value(parts[0]):
        p = parts[0].as_string()
        for pre in ("~=", "="):
            if p.startswith(pre):
                rest = ([z3.StringVal(p[len(pre):])] if p[len(pre):] else []) + parts[1:]
                return pre, (rest[0] if len(rest) == 1 else z3.Concat(*rest) if rest else z3.StringVal(""))
    nm = getattr(E, "keysplit", {}).get(t.get_id())
    if nm is not None:
        return nm
    raise Unsupported("binding key of unknown form: %s" % t)


def flat_concat(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for k in range(t.num_args()):
            out.extend(flat_concat(t.arg(k)))
        return out
    return [t]


def str_slice(E, t, lo, hi):
    """t[lo:hi] with concrete lo >= 0 and hi None, structurally simplified."""
    parts = flat_concat(t)
    if hi is None and isinstance(lo, int) and lo >= 0 and z3.is_string_value(parts[0]) and len(parts[0].as_string()) >= lo:
        s = parts[0].as_string()[lo:]
        rest = ([z3.StringVal(s)] if s else []) + parts[1:]
        if len(rest) == 1:
            r = rest[0]
            return r.as_string() if z3.is_string_value(r) else Sym(r)
        if not rest:
            return ""
        return Sym(z3.Concat(*rest))
    if hi is None and isinstance(lo, int) and lo >= 0:
        return Sym(z3.SubString(t, lo, z3.Length(t)))
    if lo is None and hi == -1 or lo == 0 and hi == -1:
        if z3.is_string_value(parts[-1]) and len(parts[-1].as_string()) >= 1:
            s = parts[-1].as_string()[:-1]
            rest = parts[:-1] + ([z3.StringVal(s)] if s else [])
            if len(rest) == 1:
                r = rest[0]
                return r.as_string() if z3.is_string_value(r) else Sym(r)
            return Sym(z3.Concat(*rest))
        return Sym(z3.SubString(t, 0, z3.Length(t) - 1))
    if isinstance(lo, int) and isinstance(hi, int) and 0 <= lo <= hi:
        if z3.is_string_value(parts[0]) and len(parts[0].as_string()) >= hi:
            return parts[0].as_string()[lo:hi]
        return Sym(z3.SubString(t, lo, hi - lo))
    if isinstance(lo, int) and lo > 0 and hi == -1:
        r = str_slice(E, t, None, -1)
        return r[lo:] if isinstance(r, str) else str_slice(E, r.t, lo, None)
    raise Unsupported("string slice")


def to_str(E, v):
    if isinstance(v, str):
        return v
    if v is None or isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Fraction):
        return repr(float(v))
    if isinstance(v, Sym):
        if v.t.sort() == z3.StringSort():
            return v
        if z3.is_int(v.t):
            r = L.INT2STR(v.t)
            E.assume(L.ISFLOAT(r))
            E.assume(L.STR2REAL(r) == z3.ToReal(v.t))
            E.assume(L.ISINT(r))
            E.assume(L.STR2INT(r) == v.t)
            return Sym(r)
        if z3.is_real(v.t):
            return Sym(L.REAL2STR(v.t))
        return "True" if E.branch(v.t) else "False"
    if isinstance(v, ValV):
        return to_str(E, resolve(E, v))
    if is_empty(E, v):
        return "None"
    if is_chunk(E, v):
        return Sym(L.REPR(L.Val.vchk(cid_of(E, v))))
    if isinstance(v, ObjV):
        for nm in ("__str__", "__repr__"):
            m = E.class_lookup(v.cls, nm)
            if m is not None and not isinstance(m, Ext):
                return E.call(E.bind_member(m, v, v.cls), [], {})
    if isinstance(v, NT) and "__repr__" in v.cls.ns:
        return E.call(v.cls.ns["__repr__"], [v], {})
    if isinstance(v, SlotV):
        return Sym(E.fresh("slotrepr", z3.StringSort()))
    if isinstance(v, (tuple, ListV, DictV, SetV, NT, SeqV, Model, FuncV, ClassV, PyExc, GenV)) or is_inf(v):
        return Sym(E.fresh("repr", z3.StringSort()))
    if isinstance(v, (Ext, ClassV, NTClass)):
        return E.fresh_str("typetext")
    raise Unsupported("str of %r" % (v,))


# ------------------------------------------------------------------ arithmetic
def binop(E, op, a, b):
    if isinstance(a, ValV):
        a = resolve(E, a)
    if isinstance(b, ValV):
        b = resolve(E, b)
    if isinstance(a, NdArr) or isinstance(b, NdArr):
        return nd_binop(E, op, a, b)
    if isinstance(a, MaskArr):
        raise Unsupported("mask arithmetic")
    num = (is_num(a) or is_boolv(a) or isinstance(a, XReal)) and (is_num(b) or is_boolv(b) or isinstance(b, XReal))
    if num:
        return arith(E, op, a, b)
    if isinstance(op, ast.Add):
        if is_str(a) and is_str(b):
            return E.concat([a, b])
        if isinstance(a, (tuple, NT)) and isinstance(b, (tuple, NT)):
            return tuple(as_seq_items(a)[1] + as_seq_items(b)[1])
        if isinstance(a, ListV) and isinstance(b, ListV):
            return ListV(a.items + b.items)
        if isinstance(a, SeqV) and isinstance(b, (tuple, ListV)):
            items = as_seq_items(b)[1]
            if not items:
                return a
            raise Unsupported("append to a symbolic sequence")
        if is_str(a) or is_str(b):
            raise bexc("TypeError", "can only concatenate str")
    if isinstance(op, ast.BitOr) and isinstance(a, Model) and hasattr(a, "m___or__"):
        return a.m___or__(E, b)
    if isinstance(op, ast.Mult):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Model) and hasattr(x, "m___mul__"):
                return x.m___mul__(E, y)
        if isinstance(b, (ListV, tuple)) and not isinstance(a, (ListV, tuple)):
            a, b = b, a
        if isinstance(a, (ListV, tuple)):
            items = as_seq_items(a)[1]
            if isinstance(b, int):
                return ListV(items * b) if isinstance(a, ListV) else tuple(items * b)
            if isinstance(b, Sym) and z3.is_int(b.t) and len(items) == 1:
                n = z3.If(b.t > 0, b.t, z3.IntVal(0))
                s = SeqV(n, lambda k: items[0], tag="repeat", pyclass=list if isinstance(a, ListV) else tuple)
                return s
            raise Unsupported("sequence repetition")
        if is_str(a) and isinstance(a, str) and isinstance(b, int):
            return a * b
    if isinstance(op, ast.Mod) and is_str(a):
        return Sym(E.fresh("fmt", z3.StringSort()))
    if isinstance(a, SetV) and isinstance(b, SetV):
        if isinstance(op, ast.BitOr):
            r = SetV(a.items)
            method(E, r, "update", [b], {})
            return r
        if isinstance(op, ast.Sub):
            return SetV([x for x in a.items if not truth(E, wrapb(contains_f(E, b.items, x, True)))])
        if isinstance(op, ast.BitAnd):
            return SetV([x for x in a.items if truth(E, wrapb(contains_f(E, b.items, x, True)))])
    if isinstance(op, ast.BitOr) and isinstance(a, (SetV, ValSet)) and isinstance(b, (SetV, ValSet)):
        arr = [seq_arr(E, x) if isinstance(x, ValSet) else items_arr(E, x.items) for x in (a, b)]
        return ValSet(arr_union(*arr))
    if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitXor)) and isinstance(a, (SetV, ValSet)) and isinstance(b, (SetV, ValSet)):
        p, q = [seq_arr(E, x) if isinstance(x, ValSet) else items_arr(E, x.items) for x in (a, b)]
        v = z3.Const("v!un", L.Val)
        x, y = z3.Select(p, v), z3.Select(q, v)
        return ValSet(z3.Lambda([v], z3.And(x, z3.Not(y)) if isinstance(op, ast.Sub) else z3.And(x, y) if isinstance(op, ast.BitAnd) else z3.Xor(x, y)))
    if isinstance(op, ast.BitOr) and isinstance(a, DictV) and isinstance(b, DictV):
        r = DictV(a.pairs)
        method(E, r, "update", [b], {})
        return r
    if isinstance(op, ast.BitOr) and isinstance(a, Model) and hasattr(a, "m_process_or"):
        return a.m_process_or(E, b)
    if isinstance(a, Model) and hasattr(a, "op_bin"):
        return a.op_bin(E, op, b)
    if isinstance(op, ast.Add) and (isinstance(a, SeqV) or isinstance(b, SeqV)):
        kind = [tuple if isinstance(x, (tuple, NT)) else list if isinstance(x, ListV) else getattr(x, "pyclass", None) for x in (a, b)]
        if kind[0] is kind[1] and kind[0] in (list, tuple):
            r = seq_concat(E, a, b)
            r.pyclass = kind[0]
            return r
    if isinstance(a, (Model, SeqV, ValSet)) or isinstance(b, (Model, SeqV, ValSet)):
        raise Unsupported("operator %s on %r, %r" % (type(op).__name__, a, b))
    raise bexc("TypeError", "unsupported operand for %s: %r, %r" % (type(op).__name__, a, b))


def arith(E, op, a, b):
    if is_inf(a) or is_inf(b) or isinstance(a, XReal) or isinstance(b, XReal):
        if not (isinstance(a, XReal) or isinstance(b, XReal)):
            if isinstance(a, Sym) or isinstance(b, Sym):
                inf = a if is_inf(a) else b
                if isinstance(op, ast.Add) or (isinstance(op, ast.Sub) and is_inf(a)):
                    return inf
                if isinstance(op, ast.Sub):
                    return -inf
                raise Unsupported("arithmetic with infinity")
            fa, fb = float(a), float(b)
            if isinstance(op, ast.Add):
                return fa + fb
            if isinstance(op, ast.Sub):
                return fa - fb
            raise Unsupported("arithmetic with infinity")
        if isinstance(op, ast.Add):
            x, y = to_x(E, a), to_x(E, b)
            E.fresh_n += 0
            return XReal(z3.If(x.k != 0, x.k, y.k), x.r + y.r)
        x, y = num_term(E, a), num_term(E, b)
        a, b = Sym(x), Sym(y)
    conc = not isinstance(a, Sym) and not isinstance(b, Sym)
    if conc:
        a = int(a) if isinstance(a, bool) else a
        b = int(b) if isinstance(b, bool) else b
    if isinstance(op, ast.Add):
        return a + b if conc else _lin(E, a, b, lambda x, y: x + y)
    if isinstance(op, ast.Sub):
        return a - b if conc else _lin(E, a, b, lambda x, y: x - y)
    if isinstance(op, ast.Mult):
        return a * b if conc else _lin(E, a, b, lambda x, y: x * y)
    if isinstance(op, ast.Div):
        if conc:
            if b == 0:
                raise bexc("ZeroDivisionError")
            return Fraction(a) / Fraction(b)
        y = real_term(E, b)
        if E.branch(y == 0):
            raise bexc("ZeroDivisionError")
        return Sym(real_term(E, a) / y)
    if isinstance(op, (ast.FloorDiv, ast.Mod)):
        if conc:
            if b == 0:
                raise bexc("ZeroDivisionError")
            return a // b if isinstance(op, ast.FloorDiv) else a % b
        x, y = num_term(E, a), num_term(E, b)
        if x.is_int() and y.is_int() and isinstance(b, int) and b > 0:
            return Sym(x / y) if isinstance(op, ast.FloorDiv) else Sym(x % y)
        raise Unsupported("integer division")
    if isinstance(op, ast.Pow):
        if isinstance(b, int) and 0 <= b <= 4:
            if conc:
                return a ** b
            x = num_term(E, a)
            r = z3.IntVal(1) if x.is_int() else z3.RealVal(1)
            for _ in range(b):
                r = r * x
            return Sym(r)
        if conc and isinstance(b, int):
            return Fraction(a) ** b
        axiom_pow(E)
        return Sym(L.POW(real_term(E, a), real_term(E, b)))
    raise Unsupported("operator %s" % type(op).__name__)


def _lin(E, a, b, f):
    x, y = num_term(E, a), num_term(E, b)
    if x.is_int() != y.is_int():
        x, y = real_term(E, a), real_term(E, b)
    return Sym(f(x, y))


def nd_binop(E, op, a, b):
    A = a if isinstance(a, NdArr) else b
    if isinstance(a, NdArr) and isinstance(b, NdArr):
        raise Unsupported("array-array arithmetic")
    fa = a.a if isinstance(a, NdArr) else (lambda k, t=real_term(E, a): t)
    fb = b.a if isinstance(b, NdArr) else (lambda k, t=real_term(E, b): t)
    if isinstance(op, ast.Add):
        f = lambda k: fa(k) + fb(k)
    elif isinstance(op, ast.Sub):
        f = lambda k: fa(k) - fb(k)
    elif isinstance(op, ast.Mult):
        f = lambda k: fa(k) * fb(k)
    elif isinstance(op, ast.Pow):
        # numpy: 0 ** negative and negative ** fractional signal a RuntimeWarning
        k = z3.Int("k!w%d" % E.next_q())
        e = fb(k)
        bad = z3.And(k >= 0, k < A.n, A.mask(k) if A.mask is not None else z3.BoolVal(True),
                     z3.Or(z3.And(fa(k) == 0, e < 0), z3.And(fa(k) < 0, z3.Not(z3.IsInt(e)))))
        if E.branch(z3.Exists([k], bad)):
            if E.warn_error:
                raise bexc("RuntimeWarning", "invalid value or divide by zero in power")
            raise Unsupported("numpy power of a non-positive number outside an error filter")
        axiom_pow(E)
        f = lambda k: L.POW(fa(k), fb(k))
    elif isinstance(op, ast.Div):
        raise Unsupported("array division")
    else:
        raise Unsupported("array operator")
    return NdArr(A.n, f, A.mask)


# ------------------------------------------------------------------ containers
def getitem(E, o, k):
    if isinstance(o, ValV):
        o = resolve(E, o)
    if isinstance(o, SlotV):
        if isinstance(k, int):
            if E.branch(L.SV.is_svEmpty(o.t)):
                raise bexc("TypeError", "EmptyValue is not subscriptable")
            return slot_attr(E, o, ("values", "variables", "negvalues", "negvariables")[k])
        raise Unsupported("subscript of slot content")
    if o is None:
        raise bexc("TypeError", "'NoneType' object is not subscriptable")
    if isinstance(o, DictV):
        for key, v in o.pairs:
            f = keyeq(E, k, key)
            if f is True or (f is not False and E.branch(f)):
                return v
        if o.kind == "Counter":
            return 0
        raise bexc("KeyError", k)
    if isinstance(o, (tuple, ListV, NT)):
        items = as_seq_items(o)[1]
        if isinstance(k, slice):
            if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                r = items[k]
                return ListV(r) if isinstance(o, ListV) else tuple(r)
            raise Unsupported("symbolic slice")
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, int):
            if -len(items) <= k < len(items):
                return items[k]
            raise bexc("IndexError", "index out of range")
        if isinstance(k, Sym) and z3.is_int(k.t):
            for j, x in enumerate(items):
                if E.branch(z3.Or(k.t == j, k.t == j - len(items))):
                    return x
            raise bexc("IndexError", "index out of range")
        raise bexc("TypeError", "indices must be integers")
    if is_str(o):
        if isinstance(o, str) and (isinstance(k, int) or isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step))):
            try:
                return o[k]
            except IndexError:
                raise bexc("IndexError", "string index out of range")
        t = E.str_term(o)
        if isinstance(k, slice):
            return str_slice(E, t, k.start, k.stop)
        if isinstance(k, int):
            if k >= 0:
                parts = flat_concat(t)
                if z3.is_string_value(parts[0]) and len(parts[0].as_string()) > k:
                    return parts[0].as_string()[k]
                if not E.branch(z3.Length(t) > k):
                    raise bexc("IndexError", "string index out of range")
                return Sym(z3.SubString(t, k, 1))
            if not E.branch(z3.Length(t) >= -k):
                raise bexc("IndexError", "string index out of range")
            return Sym(z3.SubString(t, z3.Length(t) + k, 1))
        raise Unsupported("string index")
    if isinstance(o, SeqV):
        if o.guard is not None:
            if isinstance(k, int) and k == 0:
                try:
                    return FirstOf(o, lambda i: True).m___next__(E)
                except PyExc as e:
                    if E.exc_match(e, Ext("builtins.StopIteration")):
                        raise bexc("IndexError", "index out of range")
                    raise
            raise Unsupported("index of a filtered sequence")
        if isinstance(k, int):
            if k >= 0:
                if not E.branch(o.n > k):
                    raise bexc("IndexError", "index out of range")
                return o.elem(z3.IntVal(k))
            if not E.branch(o.n >= -k):
                raise bexc("IndexError", "index out of range")
            return o.elem(o.n + k)
        if isinstance(k, Sym) and z3.is_int(k.t):
            if not E.branch(z3.And(k.t >= -o.n, k.t < o.n)):
                raise bexc("IndexError", "index out of range")
            if E.branch(k.t >= 0):
                return o.elem(k.t)
            return o.elem(o.n + k.t)
        raise Unsupported("index of symbolic sequence")
    if isinstance(o, NdArr):
        if isinstance(k, MaskArr):
            m0 = o.mask
            return NdArr(o.n, o.a, (lambda j: z3.And(m0(j), k.f(j))) if m0 is not None else k.f)
        if isinstance(k, int) and o.mask is None:
            if not E.branch(o.n > k if k >= 0 else o.n >= -k):
                raise bexc("IndexError", "index out of range")
            return wrapnum(o.a(z3.IntVal(k) if k >= 0 else o.n + k))
        raise Unsupported("array index")
    if isinstance(o, MapDict):
        t = E.str_term(k)
        if not E.branch(o.has(t)):
            raise bexc("KeyError", k)
        return o.get(t)
    if isinstance(o, VarMap):
        kind, t = split_key(E, k)
        if kind == "=":
            if not E.branch(z3.Select(o.has, t)):
                raise bexc("KeyError", k)
            return mkval(E, z3.Select(o.val, t))
        if not E.branch(z3.Select(o.nhas, t)):
            raise bexc("KeyError", k)
        return ValSet(z3.Select(o.nset, t), (o, t))
    if isinstance(o, ObjV):
        m = E.class_lookup(o.cls, "__getitem__")
        if m is not None and not isinstance(m, Ext):
            return E.call(E.bind_member(m, o, o.cls), [k], {})
        raise bexc("TypeError", "object is not subscriptable")
    if isinstance(o, Model) and hasattr(o, "m___getitem__"):
        return o.m___getitem__(E, k)
    if isinstance(o, Ext):
        return o           # typing generics
    raise bexc("TypeError", "%r is not subscriptable" % (type(o).__name__,))


def setitem(E, o, k, v):
    if isinstance(o, DictV):
        E.write(o, "items")
        for p in o.pairs:
            f = keyeq(E, k, p[0])
            if f is True or (f is not False and E.branch(f)):
                p[1] = v
                return
        o.pairs.append([k, v])
        return
    if isinstance(o, ListV):
        E.write(o, "items")
        if isinstance(k, int):
            if -len(o.items) <= k < len(o.items):
                o.items[k] = v
                return
            raise bexc("IndexError", "assignment index out of range")
        raise Unsupported("symbolic list index")
    if isinstance(o, VarMap):
        E.write(o, "map")
        kind, t = split_key(E, k)
        if kind == "=":
            o.has = z3.Store(o.has, t, True)
            o.val = z3.Store(o.val, t, val_term(E, v))
            return
        raise Unsupported("store of a negated binding")
    if isinstance(o, MapDict):
        E.write(o, "map")
        t = E.str_term(k)
        has0, get0 = o.has, o.get
        if not E.entails(has0(t)):
            o.seq = None        # the order of the keys is no longer known
        o.has = lambda s: z3.Or(s == t, has0(s))
        o.get = lambda s: merge_val(E, s == t, v, lambda: get0(s))
        return
    if isinstance(o, ObjV):
        m = E.class_lookup(o.cls, "__setitem__")
        if m is not None and not isinstance(m, Ext):
            return E.call(E.bind_member(m, o, o.cls), [k, v], {})
    if isinstance(o, Model) and hasattr(o, "m___setitem__"):
        E.write(o, "items")
        return o.m___setitem__(E, k, v)
    if isinstance(o, SeqV) and hasattr(o, "setitem"):
        return o.setitem(E, k, v)
    raise bexc("TypeError", "%r does not support item assignment" % (type(o).__name__,))


def merge_val(E, c, a, bthunk):
    cs = z3.simplify(c)
    if z3.is_true(cs):
        return a
    b = bthunk()
    if z3.is_false(cs):
        return b
    try:
        return SlotV(z3.If(c, sv_term(E, a), sv_term(E, b)))
    except Unsupported:
        return ValV(z3.If(c, val_term(E, a), val_term(E, b)))


def delitem(E, o, k):
    if isinstance(o, DictV):
        E.write(o, "items")
        for j, p in enumerate(o.pairs):
            f = keyeq(E, k, p[0])
            if f is True or (f is not False and E.branch(f)):
                del o.pairs[j]
                return
        raise bexc("KeyError", k)
    if isinstance(o, ListV) and isinstance(k, int):
        E.write(o, "items")
        if -len(o.items) <= k < len(o.items):
            del o.items[k]
            return
        raise bexc("IndexError")
    if isinstance(o, ObjV):
        m = E.class_lookup(o.cls, "__delitem__")
        if m is not None:
            return E.call(E.bind_member(m, o, o.cls), [k], {})
    if isinstance(o, Model) and hasattr(o, "m___delitem__"):
        E.write(o, "items")
        return o.m___delitem__(E, k)
    raise Unsupported("del item of %r" % (o,))


def iterate(E, v):
    if isinstance(v, list):
        return v
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, NT):
        return list(v.vals)
    if isinstance(v, ListV):
        return list(v.items)
    if isinstance(v, SetV):
        items = list(v.items)
        if 2 <= len(items) <= 3 and not all(isinstance(x, str) for x in items):
            perms = list(itertools.permutations(items))
            if E.spec_depth:
                return items
            return list(perms[E.choose(len(perms), "set order")])
        return items
    if isinstance(v, DictV):
        return [k for k, _ in v.pairs]
    if isinstance(v, str):
        return list(v)
    if isinstance(v, (GenV, SeqV)):
        if isinstance(v, GenV) and hasattr(v, "seq"):
            return v.seq()
        if isinstance(v, GenV) and v.buffer is None and getattr(v, "func", None) is not None and E.pure_iterator(v.func):
            return E.gen_stream(v)
        return v
    if isinstance(v, ValV):
        return iterate(E, resolve(E, v))
    if isinstance(v, SlotV):
        return iterate(E, slot_resolve(E, v))
    if isinstance(v, ObjV):
        m = E.class_lookup(v.cls, "__iter__")
        if m is not None and not isinstance(m, Ext):
            return iterate(E, E.call(E.bind_member(m, v, v.cls), [], {}))
        raise bexc("TypeError", "%s object is not iterable" % v.cls.name)
    if isinstance(v, ValSet):
        return valset_seq(E, v.arr)
    if isinstance(v, Model):
        it = getattr(v, "iterate", None)
        if it:
            return it(E)
        if isinstance(v, NdArr) and v.mask is None:
            return SeqV(v.n, lambda k: wrapnum(v.a(k)), tag="ndarray")
    if isinstance(v, MapDict) and v.seq is not None:
        return v.seq
    if isinstance(v, Sym) and v.t.sort() == z3.StringSort():
        return SeqV(z3.Length(v.t), lambda k: Sym(z3.SubString(v.t, k, 1)), tag="chars")
    raise bexc("TypeError", "%r object is not iterable" % (type(v).__name__,))


def valset_seq(E, arr):
    n = E.fresh("vsn", z3.IntSort())
    at = E.fresh_fn("vsat", z3.IntSort(), L.Val)
    ix = E.fresh_fn("vsix", L.Val, z3.IntSort())
    E.assume(n >= 0)
    i = z3.Int("i!vs%d" % E.next_q())
    v = z3.Const("v!vs%d" % E.next_q(), L.Val)
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(arr, at(i))), patterns=[at(i)]))
    E.assume(z3.ForAll([v], z3.Implies(z3.Select(arr, v), z3.And(ix(v) >= 0, ix(v) < n, at(ix(v)) == v)), patterns=[ix(v)]))
    def elem(k):
        E.fact(z3.Implies(z3.And(k >= 0, k < n), ix(at(k)) == k))
        return mkval(E, at(k))
    s = SeqV(n, elem, tag=("valset", arr))
    s.ix = ix
    s.vs_arr = arr
    return s


def to_list(E, v, n=None):
    it = iterate(E, v)
    if isinstance(it, list):
        return it
    if isinstance(it, GenV):
        if it.buffer is not None:
            r = []
            while it.buffer:
                x = it.buffer.pop(0)
                if isinstance(x, PyExc) and getattr(x, "_gen", False):
                    raise x
                r.append(x)
            return r
        out = []
        it.run(lambda x: out.append(x))
        return out
    if isinstance(it, SeqV):
        if it.guard is not None:
            raise Unsupported("filtered sequence used as a concrete list")
        if n is not None:
            if not E.branch(it.n == n):
                raise bexc("ValueError", "unpacking")
            return [it.elem(z3.IntVal(k)) for k in range(n)]
        if z3.is_int_value(z3.simplify(it.n)):
            return [it.elem(z3.IntVal(k)) for k in range(z3.simplify(it.n).as_long())]
        raise Unsupported("sequence of unknown length %s used as a concrete list" % (it.tag,))
    raise Unsupported("to_list %r" % (v,))


def add_to_set(E, items, x):
    if isinstance(x, (ListV, DictV)) or isinstance(x, SetV) and not x.frozen:
        raise bexc("TypeError", "unhashable type")
    f = contains_f(E, items, x, True)
    if f is True or (f is not False and E.branch(f)):
        return
    items.append(x)


def items_arr(E, items):
    arr = z3.K(L.Val, z3.BoolVal(False))
    for x in items:
        arr = z3.Store(arr, val_term(E, x), True)
    return arr


def symbolic_seq(E, v):
    """v as a sequence of symbolic length (or None if it has a concrete number of elements)."""
    if isinstance(v, ValSet):
        return v
    if isinstance(v, (SetV, ListV, DictV, tuple, NT, str, ObjV, GenV)):
        if not (isinstance(v, GenV) and hasattr(v, "seq")):
            return None
        v = v.seq()
    it = iterate(E, v)
    if isinstance(it, SeqV) and not z3.is_int_value(z3.simplify(it.n)):
        return it
    return None


def suffixed(t, j):
    """c if the term is the j-th name of c followed by "_", as a value or a string."""
    if z3.is_app(t) and t.decl().eq(L.Val.vstr):
        t = t.arg(0)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT and t.num_args() == 2 and z3.is_string_value(t.arg(1)) and t.arg(1).as_string() == "_":
        n = t.arg(0)
        if z3.is_app(n) and n.decl().eq(L.NAMEAT) and n.arg(1).eq(j):
            return n.arg(0)
    return None


def seq_arr(E, s):
    """The set of the elements of a symbolic sequence, as a membership array over slot values."""
    if isinstance(s, ValSet):
        return s.arr
    if getattr(s, "vs_arr", None) is not None and s.guard is None:
        return s.vs_arr
    j = z3.Int("j!sa%d" % E.next_q())
    v = z3.Const("v!sa%d" % E.next_q(), L.Val)
    gd = [s.guard(j)] if s.guard is not None else []
    f = E.speculate(lambda: (val_term(E, s.elem(j)),), z3.And(j >= 0, j < s.n, *gd), __import__("pyvc.engine", fromlist=["Frame"]).Frame(None))
    if f is None:
        raise Unsupported("set of the elements of a symbolic sequence")
    fc = suffixed(f[0][0], j)
    if fc is not None and not gd:           # the names of the fields of a chunk type
        return z3.Lambda([v], z3.And(L.Val.is_vstr(v), L.FIELDOF(fc, L.Val.s(v))))
    ci = getattr(s, "cid", None)
    if ci is not None and f[0][0].eq(L.Val.vstr(L.NAMEAT(ci, j))):         # names of the slots of a chunk: each at the one position IDX
        from . import abschunk
        p = abschunk.IDX(ci, L.Val.s(v))
        return z3.Lambda([v], z3.And(L.Val.is_vstr(v), L.HASN(ci, L.Val.s(v)), *[z3.substitute(g, (L.NAMEAT(ci, j), L.Val.s(v)), (j, p)) for g in gd]))
    return z3.Lambda([v], z3.Exists([j], z3.And(j >= 0, j < s.n, f[0][0] == v, *gd)))


def arr_union(a, b):
    v = z3.Const("v!un", L.Val)
    return z3.Lambda([v], z3.Or(z3.Select(a, v), z3.Select(b, v)))


def become_valset(E, o):
    """A set with a concrete number of elements continues as one of symbolic size (same object)."""
    arr = items_arr(E, o.items)
    o.__class__ = ValSet
    o.arr, o.owner = arr, None
    del o.items
    return o


def seq_concat(E, a, b):
    """a followed by b, at least one of them of symbolic length."""
    def part(v):
        it = iterate(E, v)
        if isinstance(it, GenV):
            it = it.seq() if getattr(it, "seq", None) else to_list(E, it)
        if isinstance(it, SeqV):
            if it.guard is not None:
                raise Unsupported("concatenation of a filtered sequence")
            it = __import__("copy").copy(it)        # as it is now
            return it, it
        items = list(it)

        def elem(i):
            i = z3.simplify(i)
            if z3.is_int_value(i):
                return items[i.as_long()]
            r = items[-1]
            for j in range(len(items) - 2, -1, -1):
                r0 = r
                r = merge_val(E, i == j, items[j], lambda: r0)
            return r
        return SeqV(z3.IntVal(len(items)), elem, "items"), ListV(items)
    (p, a0), (q, b0) = part(a), part(b)
    if isinstance(b0, ListV) and not b0.items:
        q = None

    def elem(i):
        if q is None:
            return p.elem(i)
        if z3.is_int_value(z3.simplify(p.n)) and z3.simplify(p.n).as_long() == 0:
            return q.elem(i)
        return p.elem(i) if E.branch(i < p.n) else q.elem(i - p.n)
    r = SeqV(p.n if q is None else p.n + q.n, elem, tag=("joined", p.tag), pyclass=getattr(a, "pyclass", list) if not isinstance(a, ListV) else list)
    has = [(lambda x, v=v: fml(E, contains(E, v, x))) for v in (a0, b0)]
    r.contains = lambda E, x: z3.Or(*[h if z3.is_expr(h) else z3.BoolVal(h) for h in (f(x) for f in has)])
    try:
        r.vs_arr = arr_union(*[items_arr(E, v.items) if isinstance(v, ListV) else seq_arr(E, v) for v in (a0, b0)])
    except Unsupported:
        pass
    return r


def become_seq(E, o, sq):
    """A list with a concrete number of items, extended by a sequence of symbolic length (same object)."""
    items, k, f, n, g, has = list(o.items), len(o.items), sq.elem, sq.n, sq.guard, getattr(sq, "contains", None)

    def elem(i):
        if k == 0:
            return f(i)
        i = z3.simplify(i) if z3.is_expr(i) else z3.IntVal(i)
        if z3.is_int_value(i) and i.as_long() < k:
            return items[i.as_long()]
        r = f(i - k)
        for j in range(k - 1, -1, -1):
            r0 = r
            r = merge_val(E, i == j, items[j], lambda: r0)
        return r

    def contains_(E, x):
        h = fml(E, has(E, x)) if has else fml(E, contains(E, sq, x))
        return wrapb(z3.Or(h, *[fml(E, wrapb(eqf(E, y, x, False))) for y in items]) if items else h)
    tag = sq.tag
    o.__class__ = SeqV
    del o.items
    o.n, o.elem, o.tag, o.pyclass, o.guard = (n if k == 0 else n + k), elem, (tag if k == 0 else ("extended", tag)), list, None
    if g is not None:
        o.guard = g if k == 0 else (lambda i: z3.Or(i < k, g(i - k)))
    o.contains = contains_
    if k == 0:
        for a in ("cid", "base", "vs_arr", "ix", "count"):
            if hasattr(sq, a):
                setattr(o, a, getattr(sq, a))
    return o


def valset_put(E, o, arr):
    E.write(o, "set")
    o.arr = arr
    if o.owner is not None:
        vm, t = o.owner
        E.write(vm, "map")
        vm.nset = z3.Store(vm.nset, t, o.arr)


def valset_method(E, o, nm, args):
    if nm == "add":
        return valset_put(E, o, z3.Store(o.arr, val_term(E, args[0]), True))
    if nm == "discard":
        return valset_put(E, o, z3.Store(o.arr, val_term(E, args[0]), False))
    if nm == "copy":
        return ValSet(o.arr)
    if nm == "clear":
        return valset_put(E, o, z3.K(L.Val, z3.BoolVal(False)))
    if nm in ("update", "union"):
        t = o if nm == "update" else ValSet(o.arr)
        arr = o.arr
        for a in args:
            sq = symbolic_seq(E, a)
            arr = arr_union(arr, seq_arr(E, sq) if sq is not None else items_arr(E, to_list(E, a)))
        if nm == "union":
            t.arr = arr
            return t
        return valset_put(E, o, arr)
    if nm in ("issubset", "issuperset"):
        other = args[0] if isinstance(args[0], (SetV, ValSet)) else E.call(Ext("builtins.set"), [args[0]], {})
        return subset(E, *((o, other) if nm == "issubset" else (other, o)))
    if nm == "isdisjoint":
        other = args[0] if isinstance(args[0], (SetV, ValSet)) else E.call(Ext("builtins.set"), [args[0]], {})
        f = E.truth_f(binop(E, ast.BitAnd(), o, other)) if hasattr(E, "truth_f") else E.truth(binop(E, ast.BitAnd(), o, other))
        return (not f) if isinstance(f, bool) else wrapb(z3.Not(f))
    if nm in ("difference", "intersection"):
        r = o
        for a in args:
            other = a if isinstance(a, (SetV, ValSet)) else E.call(Ext("builtins.set"), [a], {})
            r = binop(E, ast.Sub() if nm == "difference" else ast.BitAnd(), r, other)
        return ValSet(o.arr) if r is o else r
    raise Unsupported("method %s of a symbolic set" % nm)


def subset(E, a, b):
    """Is every element of a in b (at least one of them of symbolic size)?"""
    x, y = [v if isinstance(v, (SetV, ValSet)) else E.call(Ext("builtins.set"), [v], {}) for v in (a, b)]
    has = lambda s, v: z3.Select(s.arr, v) if isinstance(s, ValSet) else z3.Or(*[v == val_term(E, k) for k in s.items]) if s.items else z3.BoolVal(False)
    if isinstance(x, SetV):
        return wrapb(z3.And(*[has(y, val_term(E, k)) for k in x.items]) if x.items else z3.BoolVal(True))
    v = z3.Const("v!sub%d" % E.next_q(), L.Val)
    return wrapb(z3.ForAll([v], z3.Implies(has(x, v), has(y, v)), patterns=[z3.Select(x.arr, v)] if not z3.is_quantifier(x.arr) else []))


def make_set(E, items, frozen=False):
    out = []
    for x in items:
        add_to_set(E, out, x)
    return SetV(out, frozen)


def method(E, o, nm, args, kwargs):
    if isinstance(o, ValV):
        return E.call(E.getattr(resolve(E, o), nm), args, kwargs)
    if is_str(o):
        return str_method(E, o, nm, args, kwargs)
    if isinstance(o, ListV):
        return list_method(E, o, nm, args, kwargs)
    if isinstance(o, SetV):
        return set_method(E, o, nm, args, kwargs)
    if isinstance(o, DictV):
        return dict_method(E, o, nm, args, kwargs)
    if isinstance(o, (tuple, NT)):
        items = as_seq_items(o)[1]
        if nm == "count":
            return count_eq(E, items, args[0])
        if nm == "index":
            return index_of(E, items, args[0])
        if nm == "_asdict":
            return DictV([[f, x] for f, x in zip(o.cls.fields, o.vals)])
        if nm == "_replace":
            vals = list(o.vals)
            for k, v in kwargs.items():
                vals[o.cls.fields.index(k)] = v
            return NT(o.cls, vals)
    if isinstance(o, SeqV) and nm == "extend" and o.pyclass is list:
        E.inplace(__import__("ast").Add(), o, args[0])
        return None
    if isinstance(o, VarMap):
        return varmap_method(E, o, nm, args, kwargs)
    if isinstance(o, ValSet):
        return valset_method(E, o, nm, args)
    if isinstance(o, MapDict):
        if nm == "copy":
            return o.copy()
        if nm == "get":
            t = E.str_term(args[0])
            if E.branch(o.has(t)):
                return o.get(t)
            return args[1] if len(args) > 1 else None
        if nm == "update":
            return mapdict_update(E, o, args[0])
        if nm == "items" and o.seq is not None:
            sq = o.seq
            r = SeqV(sq.n, lambda k: (sq.elem(k), o.get(E.str_term(sq.elem(k)))), tag=sq.tag)
            r.guard, r.base = sq.guard, getattr(sq, "base", sq)
            return r
        if nm == "values" and o.seq is not None:
            sq = o.seq
            r = SeqV(sq.n, lambda k: o.get(E.str_term(sq.elem(k))), tag=sq.tag)
            r.guard, r.base = sq.guard, getattr(sq, "base", sq)
            return r
        if nm == "keys":
            return o
        if nm == "setdefault":
            t = E.str_term(args[0])
            if E.branch(o.has(t)):
                return o.get(t)
            setitem(E, o, args[0], args[1])
            return args[1]
    if isinstance(o, Model):
        m = getattr(o, "m_" + nm, None)
        if m is not None:
            return m(E, *args, **kwargs)
    if isinstance(o, GenV):
        if nm == "__next__":
            return gen_next(E, o, [])
        if nm in ("send", "close", "throw"):
            raise Unsupported("generator.%s" % nm)
    if isinstance(o, SeqV):
        h = getattr(o, "m_" + nm, None)
        if h:
            return h(E, *args)
        if nm == "index":
            raise Unsupported("index in a symbolic sequence")
        if nm == "copy":
            return o
        if nm == "count":
            h = getattr(o, "count", None)
            if h:
                return h(E, args[0])
    raise Unsupported("method %s of %r" % (nm, o))


def mapdict_of(E, d):
    """A dictionary with a concrete number of (string) keys as one of symbolic size."""
    m = MapDict(lambda s: z3.BoolVal(False), lambda s: empty_obj(E), None)
    for k, v in d.pairs:
        setitem(E, m, k, v)
    return m


def mapdict_update(E, o, other):
    E.write(o, "map")
    if isinstance(other, MapDict):
        has0, get0 = o.has, o.get
        h2, g2 = other.has, other.get
        o.seq = None            # the order of the keys is no longer known
        o.has = lambda s: z3.Or(h2(s), has0(s))
        o.get = lambda s: merge_thunks(E, h2(s), lambda: g2(s), lambda: get0(s))
        return None
    if isinstance(other, DictV):
        for k, v in other.pairs:
            setitem(E, o, k, v)
        return None
    raise Unsupported("update with %r" % (other,))


def merge_thunks(E, c, ta, tb):
    cs = z3.simplify(c)
    if z3.is_true(cs):
        return ta()
    if z3.is_false(cs):
        return tb()
    a, b = ta(), tb()
    return merge_val(E, c, a, lambda: b)


def varmap_method(E, o, nm, args, kwargs):
    if nm == "copy":
        return o.snapshot()
    if nm == "get":
        kind, t = split_key(E, args[0])
        if E.branch(z3.Select(o.has if kind == "=" else o.nhas, t)):
            return getitem(E, o, args[0])
        return args[1] if len(args) > 1 else None
    if nm == "update":
        E.write(o, "map")
        d = args[0]
        if isinstance(d, DictV):
            for k, v in d.pairs:
                setitem(E, o, k, v)
            return None
        if isinstance(d, VarMap):
            x = z3.Const("x!u%d" % E.next_q(), z3.StringSort())
            lam = lambda f: z3.Lambda([x], f)
            o.val = lam(z3.If(z3.Select(d.has, x), z3.Select(d.val, x), z3.Select(o.val, x)))
            o.has = lam(z3.Or(z3.Select(d.has, x), z3.Select(o.has, x)))
            o.nset = lam(z3.If(z3.Select(d.nhas, x), z3.Select(d.nset, x), z3.Select(o.nset, x)))
            o.nhas = lam(z3.Or(z3.Select(d.nhas, x), z3.Select(o.nhas, x)))
            return None
        if d is None:
            raise bexc("TypeError", "'NoneType' object is not iterable")
    if nm == "setdefault":
        kind, t = split_key(E, args[0])
        E.write(o, "map")
        if kind == "~=":
            d = args[1]
            if isinstance(d, SetV):
                arr = z3.K(L.Val, z3.BoolVal(False))
                for x in d.items:
                    arr = z3.Store(arr, val_term(E, x), True)
            elif isinstance(d, ValSet):
                arr = d.arr
            else:
                raise Unsupported("setdefault of a negated binding with %r" % (d,))
            o.nset = z3.Store(o.nset, t, z3.If(z3.Select(o.nhas, t), z3.Select(o.nset, t), arr))
            o.nhas = z3.Store(o.nhas, t, True)
            return ValSet(z3.Select(o.nset, t), (o, t))
        if E.branch(z3.Select(o.has, t)):
            return getitem(E, o, args[0])
        setitem(E, o, args[0], args[1])
        return args[1]
    if nm == "pop":
        kind, t = split_key(E, args[0])
        if kind != "=":
            raise Unsupported("pop of a negated binding")
        if E.branch(z3.Select(o.has, t)):
            E.write(o, "map")
            v = mkval(E, z3.Select(o.val, t))
            o.has = z3.Store(o.has, t, False)
            return v
        if len(args) > 1:
            return args[1]
        raise bexc("KeyError", args[0])
    raise Unsupported("binding map method %s" % nm)


def count_eq(E, items, x):
    n = 0
    sym = []
    for it in items:
        f = eqf(E, it, x, False)
        if f is True:
            n += 1
        elif f is not False:
            sym.append(f)
    if not sym:
        return n
    return Sym(z3.IntVal(n) + sum((z3.If(f, 1, 0) for f in sym), z3.IntVal(0)))


def index_of(E, items, x):
    for k, it in enumerate(items):
        f = eqf(E, it, x, False)
        if f is True or (f is not False and E.branch(f)):
            return k
    raise bexc("ValueError", "not in list")


def list_method(E, o, nm, args, kwargs):
    if nm in ("append", "extend", "insert", "pop", "popleft", "appendleft", "remove", "sort", "reverse", "clear"):
        E.write(o, "items")
    if nm == "append":
        o.items.append(args[0])
        return None
    if nm == "appendleft":
        o.items.insert(0, args[0])
        return None
    if nm == "extend":
        sq = symbolic_seq(E, args[0])
        if isinstance(sq, SeqV):
            become_seq(E, o, sq)
            return None
        o.items.extend(to_list(E, args[0]))
        return None
    if nm == "insert" and isinstance(args[0], int):
        o.items.insert(args[0], args[1])
        return None
    if nm == "pop":
        if not o.items:
            raise bexc("IndexError", "pop from empty list")
        k = args[0] if args else -1
        if isinstance(k, int) and -len(o.items) <= k < len(o.items):
            return o.items.pop(k)
        raise bexc("IndexError", "pop index out of range")
    if nm == "popleft":
        if not o.items:
            raise bexc("IndexError", "pop from an empty deque")
        return o.items.pop(0)
    if nm == "remove":
        del o.items[index_of(E, o.items, args[0])]
        return None
    if nm == "copy":
        return ListV(o.items, o.kind)
    if nm == "count":
        return count_eq(E, o.items, args[0])
    if nm == "index":
        return index_of(E, o.items, args[0])
    if nm == "clear":
        o.items.clear()
        return None
    if nm == "reverse":
        o.items.reverse()
        return None
    if nm == "sort":
        o.items[:] = sort_list(E, o.items, kwargs)
        return None
    raise Unsupported("list.%s" % nm)


def sort_list(E, items, kwargs):
    key = kwargs.get("key")
    rev = kwargs.get("reverse", False)
    keys = [E.call(key, [x], {}) if key is not None else x for x in items]
    rev = truth(E, rev)
    # insertion sort with the program's own comparisons (stable, as Python's sort)
    out = []
    for x, k in zip(items, keys):
        pos = len(out)
        while pos > 0:
            pk = out[pos - 1][1]
            c = order(E, "lt", pk, k) if rev else order(E, "lt", k, pk)
            if truth(E, c):
                pos -= 1
            else:
                break
        out.insert(pos, (x, k))
    return [x for x, _ in out]


def set_method(E, o, nm, args, kwargs):
    if nm in ("add", "discard", "remove", "pop", "update", "clear", "difference_update"):
        if o.frozen:
            raise bexc("AttributeError", nm)
        E.write(o, "items")
    if nm == "add":
        add_to_set(E, o.items, args[0])
        return None
    if nm in ("discard", "remove"):
        for j, x in enumerate(o.items):
            f = keyeq(E, args[0], x)
            if f is True or (f is not False and E.branch(f)):
                del o.items[j]
                return None
        if nm == "remove":
            raise bexc("KeyError", args[0])
        return None
    if nm == "pop":
        if not o.items:
            raise bexc("KeyError", "pop from an empty set")
        k = E.choose(len(o.items), "set.pop") if len(o.items) > 1 else 0
        return o.items.pop(k)
    if nm == "copy":
        return SetV(o.items)
    if nm in ("update", "union"):
        t = o if nm == "update" else SetV(o.items)
        if any(symbolic_seq(E, a) is not None for a in args):
            return valset_method(E, become_valset(E, t), nm, args)
        for a in args:
            for x in to_list(E, a):
                add_to_set(E, t.items, x)
        return None if nm == "update" else t
    if nm == "clear":
        o.items.clear()
        return None
    if nm in ("difference", "difference_update", "intersection"):
        others = []
        for a in args:
            others.extend(to_list(E, a))
        keep = []
        for x in o.items:
            f = contains_f(E, others, x, True)
            isin = f if isinstance(f, bool) else E.branch(f)
            if isin == (nm == "intersection"):
                keep.append(x)
        if nm == "difference_update":
            o.items[:] = keep
            return None
        return SetV(keep)
    if nm == "isdisjoint":
        oth = to_list(E, args[0])
        fs = [contains_f(E, oth, x, True) for x in o.items]
        return wrapb(conj(E, [not f if isinstance(f, bool) else z3.Not(f) for f in fs]))
    if nm in ("issubset", "issuperset") and (isinstance(args[0], ValSet) or symbolic_seq(E, args[0]) is not None):
        return subset(E, *((o, args[0]) if nm == "issubset" else (args[0], o)))
    if nm == "issubset":
        oth = to_list(E, args[0])
        return wrapb(conj(E, [contains_f(E, oth, x, True) for x in o.items]))
    if nm == "issuperset":
        return wrapb(conj(E, [contains_f(E, o.items, x, True) for x in to_list(E, args[0])]))
    raise Unsupported("set.%s" % nm)


def dict_method(E, o, nm, args, kwargs):
    if nm in ("update", "pop", "setdefault", "clear", "popitem"):
        E.write(o, "items")
    if nm == "get":
        try:
            for key, v in o.pairs:
                f = keyeq(E, args[0], key)
                if f is True or (f is not False and E.branch(f)):
                    return v
        except PyExc:
            raise
        return args[1] if len(args) > 1 else kwargs.get("default")
    if nm == "items":
        return ListV([(k, v) for k, v in o.pairs], "view")
    if nm == "keys":
        return ListV([k for k, _ in o.pairs], "view")
    if nm == "values":
        return ListV([v for _, v in o.pairs], "view")
    if nm == "copy":
        return DictV(o.pairs, o.kind)
    if nm == "update":
        if args:
            d = args[0]
            if o.kind == "Counter" and not isinstance(d, DictV):
                for x in to_list(E, d):
                    old = getitem(E, o, x)
                    setitem(E, o, x, binop(E, ast.Add(), old, 1))
                return None
            if isinstance(d, DictV):
                for k, v in [list(p) for p in d.pairs]:
                    if o.kind == "Counter":
                        v = binop(E, ast.Add(), getitem(E, o, k), v)
                    setitem(E, o, k, v)
            elif isinstance(d, ObjV) and E.class_lookup(d.cls, "keys") is not None:
                for k in to_list(E, d):
                    setitem(E, o, k, getitem(E, d, k))
            elif d is None:
                raise bexc("TypeError", "'NoneType' object is not iterable")
            elif isinstance(d, MapDict) and o.kind in (None, "dict") and all(isinstance(k, (str, Sym)) for k, _ in o.pairs):
                m = mapdict_of(E, o) if o.pairs else d.copy()
                if o.pairs:
                    mapdict_update(E, m, d)
                __import__("pyvc.engine", fromlist=["become"]).become(o, m)
                if args[1:] or kwargs:
                    method(E, o, "update", list(args[1:]), kwargs)
                return None
            elif isinstance(d, (MapDict, VarMap)):
                raise Unsupported("update of a concrete dict with a symbolic one")
            else:
                for p in to_list(E, d):
                    kk, vv = to_list(E, p, 2)
                    setitem(E, o, kk, vv)
        for k, v in kwargs.items():
            setitem(E, o, k, v)
        return None
    if nm == "setdefault":
        for key, v in o.pairs:
            f = keyeq(E, args[0], key)
            if f is True or (f is not False and E.branch(f)):
                return v
        o.pairs.append([args[0], args[1] if len(args) > 1 else None])
        return o.pairs[-1][1]
    if nm == "pop":
        for j, (key, v) in enumerate(o.pairs):
            f = keyeq(E, args[0], key)
            if f is True or (f is not False and E.branch(f)):
                del o.pairs[j]
                return v
        if len(args) > 1:
            return args[1]
        raise bexc("KeyError", args[0])
    if nm == "clear":
        o.pairs.clear()
        return None
    if nm == "fromkeys":
        d = DictV()
        sq = symbolic_seq(E, args[0])
        if getattr(sq, "fromkeys", None):
            return sq.fromkeys(args[1] if len(args) > 1 else None)
        for x in to_list(E, args[0]):
            setitem(E, d, x, args[1] if len(args) > 1 else None)
        return d
    raise Unsupported("dict.%s" % nm)


def str_method(E, o, nm, args, kwargs):
    if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args) and nm not in ("join", "format", "encode"):
        m = getattr(o, nm, None)
        if m is None:
            raise bexc("AttributeError", nm)
        try:
            r = m(*args)
        except ValueError as e:
            raise bexc("ValueError", str(e))
        return ListV(r) if isinstance(r, list) else r
    if nm == "join":
        items = to_list(E, args[0])
        parts = []
        for k, x in enumerate(items):
            if isinstance(x, ValV):
                x = resolve(E, x)
            if not is_str(x):
                raise bexc("TypeError", "sequence item: expected str instance")
            if k:
                parts.append(o)
            parts.append(x)
        return E.concat(parts)
    t = E.str_term(o)
    if nm == "upper":
        return Sym(L.UPPER(t))
    if nm == "startswith":
        return wrapb(z3.PrefixOf(E.str_term(args[0]), t))
    if nm == "endswith":
        return wrapb(z3.SuffixOf(E.str_term(args[0]), t))
    if nm in ("format", "strip", "lower", "replace", "lstrip", "rstrip"):
        if nm == "format":
            return Sym(E.fresh("fmt", z3.StringSort()))
        raise Unsupported("str.%s on a symbolic string" % nm)
    if nm in ("copy", "pop", "append", "add", "items", "keys", "get", "values", "_fields", "removeunused", "removeempty", "decode"):
        raise bexc("AttributeError", nm)
    raise Unsupported("str.%s on a symbolic string" % nm)


STRATTRS = set(dir("")) 
LISTATTRS = set(dir([])) | {"popleft", "appendleft"}
SETATTRS, DICTATTRS, TUPATTRS = set(dir(set())), set(dir({})), set(dir(()))


def builtin_attr(E, o, nm):
    if is_str(o):
        if nm in STRATTRS:
            return BuiltinMethod(o, nm)
        raise bexc("AttributeError", nm)
    if isinstance(o, ListV):
        if nm in LISTATTRS:
            return BuiltinMethod(o, nm)
        raise bexc("AttributeError", nm)
    if isinstance(o, SetV):
        if nm in SETATTRS:
            return BuiltinMethod(o, nm)
        raise bexc("AttributeError", nm)
    if isinstance(o, DictV):
        if nm in DICTATTRS:
            return BuiltinMethod(o, nm)
        raise bexc("AttributeError", nm)
    if isinstance(o, tuple):
        if nm in TUPATTRS:
            return BuiltinMethod(o, nm)
        raise bexc("AttributeError", nm)
    if isinstance(o, SeqV):
        if nm in {list: LISTATTRS, tuple: TUPATTRS, set: SETATTRS}.get(o.pyclass, ()) or nm in ("index", "count", "copy", "append", "items"):
            return BuiltinMethod(o, nm)
        raise bexc("AttributeError", nm)
    if o is None or is_num(o) or is_boolv(o):
        raise bexc("AttributeError", "%r has no attribute %s" % (o, nm))
    if isinstance(o, BuiltinMethod) and nm == "__name__":
        return o.name
    raise Unsupported("attribute %s of %r" % (nm, o))


# ------------------------------------------------------------------ external functions
def ext_attr(E, o, nm):
    if o.name == "math" and nm == "pi":
        E.assume(z3.And(L.PI > L.rv(Fraction(314159, 100000)), L.PI < L.rv(Fraction(31416, 10000))))
        return Sym(L.PI)
    if o.name in ("math", "numpy") and nm == "inf":
        return INF
    if nm == "__name__":
        return o.name.split(".")[-1]
    rc = None
    try:
        rc = real_class(Ext(o.name + "." + nm))
    except Exception:
        pass
    if isinstance(rc, (int, str)) and not isinstance(rc, bool):
        return rc
    return Ext(o.name + "." + nm)


def gen_next(E, g, rest):
    if isinstance(g, ListV) and g.kind in ("iter", "view"):
        E.write(g, "items")
        if g.items:
            return g.items.pop(0)
        if rest:
            return rest[0]
        raise bexc("StopIteration")
    if not isinstance(g, GenV):
        if isinstance(g, Model) and hasattr(g, "m___next__"):
            return g.m___next__(E, *rest)
        raise Unsupported("next of %r" % (g,))
    if g.buffer is None and getattr(g, "qform", None) is not None:
        if not hasattr(g, "first"):
            g.first = FirstOf(g.seq(), lambda i: True)
        return g.first.m___next__(E, *rest)
    if g.buffer is None:
        buf = []
        try:
            g.run(lambda x: buf.append(x))
        except PyExc as e:
            e._gen = True
            buf.append(e)
        g.buffer = buf
    if not g.buffer:
        if rest:
            return rest[0]
        raise bexc("StopIteration")
    x = g.buffer.pop(0)
    if isinstance(x, PyExc) and getattr(x, "_gen", False):
        raise x
    return x


def py_int(E, v):
    if isinstance(v, ValV):
        v = resolve(E, v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise bexc("ValueError", "invalid literal for int()")
    if isinstance(v, Sym):
        if z3.is_bool(v.t):
            return Sym(z3.If(v.t, 1, 0))
        if z3.is_int(v.t):
            return v
        if z3.is_real(v.t):
            return Sym(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
        if v.t.sort() == z3.StringSort():
            if not E.branch(L.ISINT(v.t)):
                raise bexc("ValueError", "invalid literal for int()")
            return Sym(L.STR2INT(v.t))
    raise bexc("TypeError", "int() argument")


def py_float(E, v):
    if isinstance(v, ValV):
        v = resolve(E, v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Fraction):
        return v
    if is_inf(v) or isinstance(v, XReal):
        return v
    if isinstance(v, str):
        try:
            f = float(v)
            return f if f in (INF, -INF) else Fraction(repr(f))
        except ValueError:
            raise bexc("ValueError", "could not convert string to float")
    if isinstance(v, Sym):
        if v.t.sort() == z3.StringSort():
            if not E.branch(L.ISFLOAT(v.t)):
                raise bexc("ValueError", "could not convert string to float")
            return Sym(L.STR2REAL(v.t))
        return Sym(real_term(E, v))
    raise bexc("TypeError", "float() argument must be a string or a number")


def axiom_exp(E, x):
    t = L.EXP(x)
    E.assume(t > 0)
    return t


def axiom_pow(E):
    x, y = z3.Reals("x!pow y!pow")
    E.assume(z3.ForAll([x, y], z3.Implies(x > 0, L.POW(x, y) > 0), patterns=[L.POW(x, y)]))


def np_pos_sum(E, t, arr):
    return t


def py_len(E, v):
    if isinstance(v, ValV):
        v = resolve(E, v)
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, NT):
        return len(v.vals)
    if isinstance(v, (ListV, SetV)):
        return len(v.items)
    if isinstance(v, DictV):
        return len(v.pairs)
    if isinstance(v, Sym) and v.t.sort() == z3.StringSort():
        return Sym(z3.Length(v.t))
    if isinstance(v, SeqV):
        if v.guard is not None:
            raise Unsupported("length of a filtered sequence")
        E.assume(v.n >= 0)
        return wrapnum(v.n)
    if isinstance(v, NdArr):
        E.assume(v.n >= 0)
        if v.mask is None:
            return wrapnum(v.n)
        return Sym(nd_count(E, v))
    if isinstance(v, ObjV):
        m = E.class_lookup(v.cls, "__len__")
        if m is not None and not isinstance(m, Ext):
            return E.call(E.bind_member(m, v, v.cls), [], {})
        raise bexc("TypeError", "object has no len()")
    if isinstance(v, Model) and hasattr(v, "m___len__"):
        return v.m___len__(E)
    if isinstance(v, (GenV,)) or v is None or is_num(v):
        raise bexc("TypeError", "object has no len()")
    raise Unsupported("len of %r" % (v,))


def nd_count(E, v):
    """Number of unmasked elements: zero exactly when no element qualifies."""
    k = z3.Int("k!cnt")
    lam = z3.Lambda([k], z3.If(z3.And(k >= 0, k < v.n, v.mask(k)), z3.RealVal(1), z3.RealVal(0)))
    c = z3.ToInt(L.SUMF(lam, v.n))
    E.assume(z3.ToReal(c) == L.SUMF(lam, v.n))
    j = z3.Int("j!cnt%d" % E.next_q())
    E.assume(c >= 0)
    E.assume(c <= v.n)
    E.assume((c == 0) == z3.Not(z3.Exists([j], z3.And(j >= 0, j < v.n, v.mask(j)))))
    E.assume((c == v.n) == z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < v.n), v.mask(j))))
    return c


def py_isinstance(E, v, c):
    if isinstance(c, tuple):
        r = False
        for x in c:
            y = py_isinstance(E, v, x)
            if y is True:
                return True
            r = y if r is False else r if y is False else Sym(z3.Or(r.t, y.t))
        return r
    if isinstance(v, ValV):
        if isinstance(c, Ext) and c.name == "builtins.str":
            return wrapb(L.Val.is_vstr(v.t))
        if c is chunk_cls(E):
            return wrapb(L.Val.is_vchk(v.t))
        return py_isinstance(E, resolve(E, v), c)
    if isinstance(v, SlotV):
        if isinstance(c, NTClass):
            return wrapb(L.SV.is_sv(v.t))
        if isinstance(c, ClassV) and c is empty_cls(E):
            return wrapb(L.SV.is_svEmpty(v.t))
        if isinstance(c, ClassV):
            return False
        return py_isinstance(E, slot_resolve(E, v), c)
    if isinstance(c, ClassV):
        if isinstance(v, ObjV):
            return c in v.cls.mro()
        if isinstance(v, Model) and hasattr(v, "isa"):
            return wrapb(v.isa(E, c))
        return isinstance(v, PyExc) and E.issubclass(v.cls, c)
    if isinstance(c, NTClass):
        return isinstance(v, NT) and v.cls is c
    if isinstance(c, Ext):
        if isinstance(v, ObjV):
            if c.name == "builtins.object":
                return True
            base = c.name.split(".")[-1]
            need = {"Iterable": "__iter__", "Hashable": "__hash__", "Sized": "__len__", "Container": "__contains__", "Callable": "__call__"}.get(base)
            if need and c.name.startswith("collections.abc"):
                if need == "__hash__":
                    return True
                m = E.class_lookup(v.cls, need)
                return m is not None
            for b in v.cls.mro():
                if isinstance(b, Ext) and E.issubclass(b, c):
                    return True
            return False
        rc = real_class(c)
        if rc is None:
            raise Unsupported("isinstance against %s" % c.name)
        pc = py_type(E, v)
        if pc is None:
            raise Unsupported("type of %r" % (v,))
        if isinstance(pc, str):
            if pc == "numpy.ndarray":
                return c.name in ("numpy.ndarray", "collections.abc.Iterable", "collections.abc.Sized", "collections.abc.Container", "collections.abc.Collection", "builtins.object")
            return pc == c.name
        try:
            return issubclass(pc, rc)
        except TypeError:
            raise bexc("TypeError", "isinstance() arg 2")
    raise Unsupported("isinstance with %r" % (c,))


def py_type(E, v):
    import collections
    import types
    if v is None:
        return type(None)
    if is_boolv(v):
        return bool
    if isinstance(v, int) or isinstance(v, Sym) and z3.is_int(v.t):
        return int
    if isinstance(v, (Fraction, float)) or isinstance(v, Sym) and z3.is_real(v.t):
        return float
    if is_str(v):
        return str
    if isinstance(v, (tuple, NT)):
        return tuple
    if isinstance(v, ListV):
        return {"list": list, "deque": collections.deque, "view": type({}.items()), "iter": type(iter([]))}.get(v.kind, list)
    if isinstance(v, SetV):
        return frozenset if v.frozen else set
    if isinstance(v, DictV):
        return collections.Counter if v.kind == "Counter" else dict
    if isinstance(v, SeqV):
        return v.pyclass
    if isinstance(v, GenV):
        return types.GeneratorType
    if isinstance(v, Model):
        return v.pyclass
    if isinstance(v, (FuncV, PyFn, BoundV)):
        return types.FunctionType
    if isinstance(v, (ClassV, NTClass)):
        return type
    return None


def call_ext(E, f, args, kwargs):
    nm = f.name
    c = E.contracts.get("ext:" + nm)
    if c is not None:
        return c(E, args, kwargs)
    E.ext_log.add(nm)
    h = HANDLERS.get(nm)
    if h is not None:
        return h(E, args, kwargs)
    rc = real_class(f)
    if isinstance(rc, type) and issubclass(rc, BaseException):
        return PyExc(f, args)
    if nm.startswith("builtins.") and "." in nm[9:]:
        ty, me = nm[9:].rsplit(".", 1)
        if ty in ("str", "dict", "list", "set", "tuple"):
            if me == "fromkeys":
                return dict_method(E, DictV(), "fromkeys", args, kwargs)
            return E.call(E.getattr(args[0], me), args[1:], kwargs)
    if nm == "collections.OrderedDict.fromkeys":
        return dict_method(E, DictV(), "fromkeys", args, kwargs)
    raise Unsupported("external function %s" % nm)


HANDLERS = {}


def H(*names):
    def d(fn):
        for n in names:
            HANDLERS[n] = fn
        return fn
    return d


@H("builtins.len")
def _len(E, a, k):
    return py_len(E, a[0])


@H("builtins.isinstance")
def _isinst(E, a, k):
    return py_isinstance(E, a[0], a[1])


@H("builtins.issubclass")
def _issub(E, a, k):
    return E.issubclass(a[0], a[1])


@H("builtins.str")
def _str(E, a, k):
    return to_str(E, a[0]) if a else ""


@H("builtins.repr")
def _repr(E, a, k):
    return Sym(E.fresh("repr", z3.StringSort()))


@H("builtins.int")
def _int(E, a, k):
    return py_int(E, a[0]) if a else 0


@H("builtins.float")
def _float(E, a, k):
    return py_float(E, a[0]) if a else Fraction(0)


@H("builtins.bool")
def _bool(E, a, k):
    return truth(E, a[0]) if a else False


@H("builtins.abs", "numpy.abs")
def _abs(E, a, k):
    v = a[0]
    if not isinstance(v, Sym):
        return abs(v)
    return Sym(z3.If(v.t >= 0, v.t, -v.t))


@H("builtins.round")
def _round(E, a, k):
    v = a[0]
    nd = a[1] if len(a) > 1 else k.get("ndigits")
    if isinstance(v, ValV):
        v = resolve(E, v)
    if is_inf(v):
        return v
    if not is_num(v):
        raise bexc("TypeError", "round of a non-number")
    if nd is None:
        if not isinstance(v, Sym):
            return round(v)
        raise Unsupported("round to an integer")
    if not isinstance(nd, int):
        raise Unsupported("symbolic rounding digits")
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return Fraction(repr(round(float(v), nd)))
    return Sym(round_term(E, real_term(E, v), nd))


def round_term(E, x, nd):
    r = L.ROUND(x, z3.IntVal(nd))
    eps = L.rv(Fraction(5, 10 ** (nd + 1)))
    E.assume(z3.And(r - x <= eps, x - r <= eps))
    E.assume(L.ROUND(r, z3.IntVal(nd)) == r)
    E.assume(L.ROUND(z3.RealVal(0), z3.IntVal(nd)) == 0)
    return r


@H("builtins.max", "builtins.min")
def _max(E, a, k, which=None):
    raise Unsupported("max/min dispatch")


def _mm(ismax):
    def f(E, a, k):
        items = to_list(E, a[0]) if len(a) == 1 else list(a)
        key = k.get("key")
        if not items:
            if "default" in k:
                return k["default"]
            raise bexc("ValueError", "max() arg is an empty sequence")
        keys = [E.call(key, [x], {}) for x in items] if key is not None else items
        if key is None and all(is_num(x) for x in items) and any(isinstance(x, Sym) for x in items) and not any(is_inf(x) for x in items):
            ts = [num_term(E, x) for x in items]
            if any(not t.is_int() for t in ts):
                ts = [z3.ToReal(t) if t.is_int() else t for t in ts]
            r = ts[0]
            for t in ts[1:]:
                r = z3.If(t > r, t, r) if ismax else z3.If(t < r, t, r)
            return Sym(r)
        best, bk = items[0], keys[0]
        for x, kx in zip(items[1:], keys[1:]):
            if truth(E, order(E, "gt" if ismax else "lt", kx, bk)):
                best, bk = x, kx
        return best
    return f


HANDLERS["builtins.max"] = _mm(True)
HANDLERS["builtins.min"] = _mm(False)


_PLAIN_SUM = ast.parse("for x_ in y_: acc_ = acc_ + x_").body[0]


def sum_loop(E, v, start):
    """sum(...) over sequences of unknown length, read as the loop `acc = acc + element`."""
    from .engine import Frame
    q = getattr(v, "qform", None)
    if q is not None:
        n, fr, seq0 = q
        if not hasattr(n, "_sum_loop"):
            body = [ast.Assign(targets=[ast.Name("acc$", ast.Store())], value=ast.BinOp(ast.Name("acc$", ast.Load()), ast.Add(), n.elt))]
            for g in reversed(n.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            n._sum_loop = ast.fix_missing_locations(ast.copy_location(body[0], n))
        loop, cf, over = n._sum_loop, E.comp_frame(fr), seq0
    else:
        seq = iterate(E, v)
        n = _PLAIN_SUM
        if not hasattr(n, "_sum_loop"):
            n._sum_loop = ast.fix_missing_locations(ast.For(ast.Name("x$", ast.Store()), ast.Name("y$", ast.Load()), [
                ast.Assign(targets=[ast.Name("acc$", ast.Store())], value=ast.BinOp(ast.Name("acc$", ast.Load()), ast.Add(), ast.Name("x$", ast.Load())))], []))
            ast.copy_location(n._sum_loop, n)
            ast.fix_missing_locations(n._sum_loop)
        loop, cf, over = n._sum_loop, Frame(None), seq
    cf.locals["acc$"] = start
    E.for_over(over, loop.target, loop.body, [], cf, loop)
    return E.load_name("acc$", cf)


@H("builtins.sum")
def _sum(E, a, k):
    r = a[1] if len(a) > 1 else k.get("start", 0)
    v = a[0]
    if isinstance(v, SeqV) and not z3.is_int_value(z3.simplify(v.n)) or isinstance(v, GenV) and getattr(v, "qform", None) is not None:
        return sum_loop(E, v, r)
    for x in to_list(E, v):
        r = binop(E, ast.Add(), r, x)
    return r


@H("builtins.any", "builtins.all")
def _any(E, a, k):
    raise Unsupported("any")


def _anyall(isany):
    def f(E, a, k):
        v = a[0]
        it = iterate(E, v)
        if isinstance(it, SeqV):
            # summarised as a quantifier over the elements
            j = z3.Int("j!a%d" % E.next_q())
            from .engine import Frame
            rng_ = z3.And(j >= 0, j < it.n, *([it.guard(j)] if it.guard is not None else []))
            r = E.speculate(lambda: wrapb(truthf(E, it.elem(j))), rng_, Frame(None))
            if r is None:
                f_ = E.sub_paths(lambda i: truth(E, it.elem(i)), it, Frame(None), {}, collect=[])
                ff = f_(j)
            else:
                ff = fml(E, r[0])
                ff = z3.BoolVal(ff) if isinstance(ff, bool) else ff
            if isany:
                return Sym(z3.Exists([j], z3.And(rng_, ff)))
            return Sym(z3.ForAll([j], z3.Implies(rng_, ff)))
        if isinstance(it, GenV) and it.buffer is None:
            class Stop(Exception):
                pass
            res = [not isany]

            def cb(x):
                if truth(E, x) == isany:
                    res[0] = isany
                    raise Stop()
            try:
                it.run(cb)
            except Stop:
                pass
            return res[0]
        for x in to_list(E, it):
            if truth(E, x) == isany:
                return isany
        return not isany
    return f


def truthf(E, v):
    if isinstance(v, bool):
        return v
    if isinstance(v, Sym) and z3.is_bool(v.t):
        return v.t
    return truth(E, v)


HANDLERS["builtins.any"] = _anyall(True)
HANDLERS["builtins.all"] = _anyall(False)


@H("builtins.range")
def _range(E, a, k):
    if all(isinstance(x, int) for x in a):
        return ListV(list(range(*a)), "list")
    if len(a) == 1 and isinstance(a[0], Sym):
        return SeqV(z3.If(a[0].t > 0, a[0].t, z3.IntVal(0)), lambda i: wrapnum(i), tag=("range", a[0].t))
    raise Unsupported("symbolic range")


@H("builtins.enumerate")
def _enum(E, a, k):
    it = iterate(E, a[0])
    st = a[1] if len(a) > 1 else k.get("start", 0)
    if isinstance(it, SeqV):
        if it.guard is not None:
            raise Unsupported("enumerate of a filtered sequence")
        return SeqV(it.n, lambda i: (wrapnum(i + st), it.elem(i)), tag=it.tag)
    if isinstance(it, GenV):
        it = to_list(E, it)
    return ListV([(j + st, x) for j, x in enumerate(it)], "iter")


@H("builtins.zip")
def _zip(E, a, k):
    its = [iterate(E, x) for x in a]
    its = [to_list(E, x) if isinstance(x, GenV) else x for x in its]
    if all(isinstance(x, list) for x in its):
        return ListV([tuple(t) for t in zip(*its)], "iter")
    if all(isinstance(x, SeqV) for x in its):
        n = its[0].n
        for x in its[1:]:
            if not E.entails(x.n == n):
                raise Unsupported("zip of sequences of different symbolic length")
        s = SeqV(n, lambda i: tuple(x.elem(i) for x in its), tag=its[0].tag)
        if any(x.guard is not None for x in its):
            raise Unsupported("zip of a filtered sequence")
        s.base = getattr(its[0], "base", its[0])
        return s
    if all(isinstance(x, (list, SeqV)) for x in its):
        # as many as the shortest concrete list, if the symbolic ones are long enough
        m = min(len(x) for x in its if isinstance(x, list))
        for x in its:
            if isinstance(x, SeqV):
                if x.guard is not None:
                    raise Unsupported("zip of a filtered sequence")
                while not E.branch(x.n >= m):
                    m -= 1
        return ListV([tuple(x[i] if isinstance(x, list) else x.elem(z3.IntVal(i)) for x in its) for i in range(m)], "iter")
    raise Unsupported("zip")


@H("builtins.list")
def _list(E, a, k):
    if not a:
        return ListV([])
    it = iterate(E, a[0])
    if isinstance(it, SeqV) and not z3.is_int_value(z3.simplify(it.n)):
        s = SeqV(it.n, it.elem, tag=it.tag, pyclass=list)
        for at in ("contains", "as_dict", "count", "ix", "items_of", "guard", "base", "cid", "vs_arr"):
            if hasattr(it, at):
                setattr(s, at, getattr(it, at))
        return s
    return ListV(to_list(E, it))


@H("builtins.tuple")
def _tuple(E, a, k):
    if not a:
        return ()
    it = iterate(E, a[0])
    if isinstance(it, SeqV) and not z3.is_int_value(z3.simplify(it.n)):
        s = SeqV(it.n, it.elem, tag=it.tag)
        for at in ("contains", "as_dict", "count", "ix", "items_of", "guard", "base", "cid", "vs_arr"):
            if hasattr(it, at):
                setattr(s, at, getattr(it, at))
        return s
    return tuple(to_list(E, it))


@H("builtins.set")
def _set(E, a, k):
    if not a:
        return SetV([])
    sq = symbolic_seq(E, a[0])
    if sq is not None:
        return ValSet(seq_arr(E, sq))
    return make_set(E, to_list(E, a[0]))


@H("builtins.frozenset")
def _fset(E, a, k):
    sq = symbolic_seq(E, a[0]) if a else None
    if sq is not None:
        return ValSet(seq_arr(E, sq))
    return make_set(E, to_list(E, a[0]) if a else [], True)


def pair_seq(E, v):
    """The (key, value) pairs of a symbolic sequence, or None."""
    if isinstance(v, (DictV, ListV, SetV, tuple, dict, MapDict)) or v is None or (isinstance(v, ObjV) and E.class_lookup(v.cls, "keys") is not None):
        return None
    sq = E.iterate(v) if not (isinstance(v, GenV) and getattr(v, "seq", None)) else v.seq()
    return sq if isinstance(sq, SeqV) else None


@H("builtins.dict", "collections.OrderedDict")
def _dict(E, a, k):
    if a and isinstance(a[0], VarMap):
        return a[0].snapshot()
    if a and isinstance(a[0], MapDict):
        d = a[0].copy()
        for kk, v in k.items():
            setitem(E, d, kk, v)
        return d
    if a and isinstance(a[0], Model) and hasattr(a[0], "m_copy"):
        return a[0].m_copy(E)
    if a:
        sq = pair_seq(E, a[0])
        if sq is not None:
            d = E.sym_dict_from(sq, sq.elem)
            for kk, v in k.items():
                setitem(E, d, kk, v)
            return d
    d = DictV()
    dict_method(E, d, "update", a, k)
    return d


@H("collections.Counter")
def _counter(E, a, k):
    d = DictV(kind="Counter")
    if a:
        dict_method(E, d, "update", a, k)
    return d


@H("collections.deque")
def _deque(E, a, k):
    if len(a) > 1 or "maxlen" in k:
        raise Unsupported("deque with maxlen")
    return ListV(to_list(E, a[0]) if a else [], "deque")


@H("collections.namedtuple")
def _namedtuple(E, a, k):
    name = a[0]
    fl = a[1]
    if isinstance(fl, str):
        fields = fl.replace(",", " ").split()
    else:
        fields = to_list(E, fl)
    if not all(isinstance(x, str) for x in fields) or not isinstance(name, str):
        raise Unsupported("namedtuple with symbolic fields")
    if len(set(fields)) != len(fields):
        raise bexc("ValueError", "Encountered duplicate field name")
    for x in fields:
        if not x.isidentifier() or x.startswith("_"):
            raise bexc("ValueError", "bad field name %r" % x)
    d = k.get("defaults")
    df = to_list(E, d) if d is not None else []
    if len(df) > len(fields):
        raise bexc("TypeError", "Got more default values than field names")
    return NTClass(name, fields, df)


def subterms(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            out.append(x)
            todo += x.children()
    return out


def permuted(E, sq):
    """The elements of a symbolic sequence in some other order (what is sorted, without the order)."""
    if sq.guard is not None:
        raise Unsupported("sorted of a filtered symbolic sequence")
    P, Q = E.fresh_fn("place", L.I, L.I), E.fresh_fn("placed", L.I, L.I)

    def elem(i):
        E.fact(z3.Implies(z3.And(i >= 0, i < sq.n), z3.And(P(i) >= 0, P(i) < sq.n, Q(P(i)) == i)))
        return sq.elem(P(i))
    k = z3.Int("k!pm%d" % E.next_q())
    el = sq.elem(k)
    if isinstance(el, (Sym, ValV)):
        pat = [t for t in subterms(el.t) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(k) for a in t.children())]
        if pat:         # every element is somewhere in the new order
            E.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < sq.n), z3.And(Q(k) >= 0, Q(k) < sq.n, P(Q(k)) == k)), patterns=[pat[0]]))
    r = SeqV(sq.n, elem, tag=("sorted", sq.tag), pyclass=list)
    r.contains = lambda E, x: fml(E, contains(E, sq, x))
    try:
        r.vs_arr = seq_arr(E, sq)
    except Unsupported:
        pass
    return r


@H("builtins.sorted")
def _sorted(E, a, k):
    it = iterate(E, a[0])
    if isinstance(it, GenV) and getattr(it, "seq", None):
        it = it.seq()
    if isinstance(it, SeqV):
        h = getattr(it, "sorted_seq", None)
        if h:
            return h(E, k)
        return permuted(E, it)
    if isinstance(it, GenV):
        it = to_list(E, it)
    return ListV(sort_list(E, it, k))


@H("builtins.reversed")
def _reversed(E, a, k):
    return ListV(list(reversed(to_list(E, a[0]))), "iter")


@H("builtins.filter")
def _filter(E, a, k):
    it = iterate(E, a[1])
    if isinstance(it, SeqV) and not z3.is_int_value(z3.simplify(it.n)):
        return FirstOf(it, lambda i: truthf(E, E.call(a[0], [it.elem(i)], {}) if a[0] is not None else it.elem(i)))
    return ListV([x for x in to_list(E, a[1]) if truth(E, E.call(a[0], [x], {}) if a[0] is not None else x)], "iter")


class FirstOf(Model):
    """An iterator over the elements of a sequence of unknown length that pass a test; only its first element can be asked for."""

    def __init__(self, seq, test):
        super().__init__()
        self.seq, self.test, self.used = seq, test, False

    def m___next__(self, E, *rest):
        from .engine import Frame
        if self.used:
            raise Unsupported("second element of a filtered sequence of unknown length")
        self.used = True
        sq = self.seq

        def ok(i):
            rng_ = z3.And(i >= 0, i < sq.n, *([sq.guard(i)] if sq.guard is not None else []))
            r = E.speculate(lambda: wrapb(self.test(i)), rng_, Frame(None))
            if r is None:
                raise Unsupported("test of a filtered sequence")
            f = fml(E, r[0])
            return z3.And(rng_, z3.BoolVal(f) if isinstance(f, bool) else f)
        j = z3.Int("j!f%d" % E.next_q())
        if E.choose(2, "found"):
            i = E.fresh("first", z3.IntSort())
            E.assume(ok(i))
            E.assume(z3.ForAll([j], z3.Implies(j < i, z3.Not(ok(j)))))
            return sq.elem(i)
        E.assume(z3.Not(z3.Exists([j], ok(j))))
        if rest:
            return rest[0]
        raise bexc("StopIteration")


@H("builtins.map")
def _map(E, a, k):
    its = [to_list(E, x) for x in a[1:]]
    return ListV([E.call(a[0], list(t), {}) for t in zip(*its)], "iter")


@H("builtins.next")
def _next(E, a, k):
    return gen_next(E, a[0], a[1:])


@H("builtins.iter")
def _iter(E, a, k):
    it = iterate(E, a[0])
    return ListV(it, "iter") if isinstance(it, list) else it


@H("builtins.getattr")
def _getattr(E, a, k):
    o, nm = a[0], a[1]
    if isinstance(o, ValV):
        o = resolve(E, o)
    if isinstance(nm, ValV):
        nm = resolve(E, nm)
    if not isinstance(nm, str):
        if isinstance(nm, Sym):
            h = getattr(o, "getattr_sym", None) or (o.meta.get("getattr_sym") if isinstance(o, ObjV) else None)
            if h:
                if len(a) > 2:
                    try:
                        return h(E, nm.t)
                    except PyExc as e:
                        if E.issubclass(e.cls, Ext("builtins.AttributeError")):
                            return a[2]
                        raise
                return h(E, nm.t)
            if isinstance(o, (NT, SlotV)):
                o2 = slot_resolve(E, o) if isinstance(o, SlotV) else o
                if isinstance(o2, NT):
                    for f in o2.cls.fields:
                        if E.branch(nm.t == z3.StringVal(f)):
                            return o2.get(f)
            raise Unsupported("getattr with a symbolic name on %r" % (o,))
        raise bexc("TypeError", "attribute name must be string")
    if len(a) > 2:
        try:
            return E.getattr(o, nm)
        except PyExc as e:
            if E.issubclass(e.cls, Ext("builtins.AttributeError")):
                return a[2]
            raise
    return E.getattr(o, nm)


@H("builtins.hasattr")
def _hasattr(E, a, k):
    try:
        _getattr(E, a[:2], {})
        return True
    except PyExc as e:
        if E.issubclass(e.cls, Ext("builtins.AttributeError")):
            return False
        raise


@H("builtins.setattr")
def _setattr(E, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("setattr with a symbolic name")
    E.setattr(a[0], a[1], a[2])


@H("builtins.callable")
def _callable(E, a, k):
    return isinstance(a[0], (FuncV, PyFn, BoundV, ClassV, BuiltinMethod))


@H("builtins.print")
def _print(E, a, k):
    for x in a:
        to_str(E, x)
    return None


@H("builtins.type")
def _type(E, a, k):
    v = a[0]
    if isinstance(v, ValV):
        v = resolve(E, v)
    if isinstance(v, ObjV):
        return v.cls
    if isinstance(v, NT):
        return v.cls
    t = py_type(E, v)
    if isinstance(t, type):
        return Ext(t.__module__ + "." + t.__name__)
    raise Unsupported("type()")


@H("builtins.id")
def _id(E, a, k):
    return Sym(E.fresh("id", z3.IntSort()))


@H("builtins.super")
def _super(E, a, k):
    raise Unsupported("super")


@H("builtins.property")
def _property(E, a, k):
    return PropV(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"))


@H("builtins.staticmethod")
def _static(E, a, k):
    a[0].kind = "static"
    return a[0]


@H("builtins.object")
def _object(E, a, k):
    return ObjV(ClassV("object", [], None, "builtins.object"))


@H("warnings.warn", "warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings")
def _warn(E, a, k):
    return None


def _filterw(E, a, k):
    if a and a[0] == "error":
        E.warn_error = 1
    elif a and a[0] in ("ignore", "default", "always"):
        E.warn_error = 0
    return None


HANDLERS["warnings.filterwarnings"] = _filterw
HANDLERS["warnings.simplefilter"] = _filterw


@H("warnings.catch_warnings")
def _catch(E, a, k):
    return NullCM()


@H("math.sqrt", "numpy.sqrt")
def _sqrt(E, a, k):
    x = real_term(E, a[0])
    if E.branch(x < 0):
        raise bexc("ValueError", "math domain error")
    t = L.SQRT(x)
    E.assume(t >= 0)
    E.assume(t * t == x)
    return Sym(t)


@H("math.exp", "numpy.exp")
def _exp(E, a, k):
    if is_inf(a[0]):
        return Fraction(0) if a[0] < 0 else INF
    return Sym(axiom_exp(E, real_term(E, a[0])))


@H("math.log")
def _log(E, a, k):
    if len(a) > 1:
        raise Unsupported("log with base")
    x = real_term(E, a[0])
    if E.branch(x <= 0):
        raise bexc("ValueError", "math domain error")
    return Sym(L.LOG(x))


@H("math.pow", "numpy.power")
def _pow(E, a, k):
    return binop(E, ast.Pow(), a[0], a[1])


@H("math.isnan", "numpy.isnan")
def _isnan(E, a, k):
    return False


@H("math.atan2", "numpy.arctan2")
def _atan2(E, a, k):
    t = L.ATAN2(real_term(E, a[0]), real_term(E, a[1]))
    return Sym(t)


@H("math.tan", "numpy.tan")
def _tan(E, a, k):
    return Sym(L.TAN(real_term(E, a[0])))


@H("math.hypot")
def _hypot(E, a, k):
    x, y = real_term(E, a[0]), real_term(E, a[1])
    return _sqrt(E, [Sym(x * x + y * y)], {})


@H("math.radians")
def _radians(E, a, k):
    return Sym(real_term(E, a[0]) * L.PI / 180)


@H("math.degrees")
def _degrees(E, a, k):
    return Sym(real_term(E, a[0]) * 180 / L.PI)


@H("numpy.sum")
def _npsum(E, a, k):
    v = a[0]
    if isinstance(v, NdArr):
        t = L.SUMF(v.lam(), v.n)
        # sum of non-negative terms with a positive one is positive
        j = z3.Int("j!s%d" % E.next_q())
        inr = z3.And(j >= 0, j < v.n) if v.mask is None else z3.And(j >= 0, j < v.n, v.mask(j))
        E.assume(z3.Implies(z3.ForAll([j], z3.Implies(inr, v.a(j) >= 0)), t >= 0))
        E.assume(z3.Implies(z3.And(z3.ForAll([j], z3.Implies(inr, v.a(j) > 0)), z3.Exists([j], inr)), t > 0))
        E.assume(z3.Implies(z3.Not(z3.Exists([j], inr)), t == 0))
        return Sym(t)
    return _sum(E, a, k)


@H("numpy.max", "numpy.amax")
def _npmax(E, a, k):
    v = a[0]
    if isinstance(v, NdArr):
        return Sym(nd_max(E, v))
    return HANDLERS["builtins.max"](E, a, k)


def nd_max(E, v):
    """Greatest element: described by its defining property."""
    j = z3.Int("j!m%d" % E.next_q())
    inr = (lambda q: z3.And(q >= 0, q < v.n)) if v.mask is None else (lambda q: z3.And(q >= 0, q < v.n, v.mask(q)))
    if E.branch(z3.Not(z3.Exists([j], inr(j)))):
        raise bexc("ValueError", "zero-size array to reduction operation maximum")
    m = E.fresh("npmax", z3.RealSort())
    w = E.fresh("npargmax", z3.IntSort())
    E.assume(z3.And(inr(w), v.a(w) == m))
    E.assume(z3.ForAll([j], z3.Implies(inr(j), v.a(j) <= m)))
    return m


@H("numpy.array", "numpy.asarray")
def _nparray(E, a, k):
    v = a[0]
    if isinstance(v, NdArr):
        return v
    if isinstance(v, SeqV):
        return NdArr(v.n, lambda q: real_term(E, v.elem(q)))
    if isinstance(v, (ListV, tuple)):
        items = [real_term(E, x) for x in as_seq_items(v)[1]]

        def at(q):
            r = z3.RealVal(0)
            for j in range(len(items) - 1, -1, -1):
                r = z3.If(q == j, items[j], r)
            return r
        return NdArr(z3.IntVal(len(items)), at)
    raise Unsupported("np.array of %r" % (v,))


def nd_append(E, x, y):
    if x.mask is not None or y.mask is not None:
        raise Unsupported("concatenate of filtered arrays")
    xn, yn, xa, ya = x.n, y.n, x.a, y.a
    return NdArr(z3.simplify(xn + yn), lambda q: z3.If(q < xn, xa(q), ya(q - xn)))


@H("numpy.append")
def _npappend(E, a, k):
    x = a[0] if isinstance(a[0], NdArr) else _nparray(E, [a[0]], {})
    if isinstance(a[1], (ListV, tuple, NdArr)):
        y = _nparray(E, [a[1]], {})
    else:
        y = _nparray(E, [ListV([a[1]])], {})
    return nd_append(E, x, y)


@H("numpy.concatenate")
def _npconc(E, a, k):
    parts = [_nparray(E, [x], {}) for x in to_list(E, a[0])]
    r = parts[0]
    for p in parts[1:]:
        r = nd_append(E, r, p)
    return r


def _draw(E, fn, *args):
    E.draws = getattr(E, "draws", 0)
    t = fn(*args, z3.IntVal(E.draws))
    E.draws += 1
    return t


@H("numpy.random.logistic")
def _logistic(E, a, k):
    loc = a[0] if a else k.get("loc", 0)
    sc = a[1] if len(a) > 1 else k.get("scale", 1)
    t = _draw(E, L.LOGISTIC, real_term(E, loc), real_term(E, sc))
    if len(a) > 2 or "size" in k:
        return NdArr(z3.IntVal(1), lambda q: t)
    return Sym(t)


@H("numpy.random.gamma")
def _gamma(E, a, k):
    sh = a[0] if a else k.get("shape")
    sc = a[1] if len(a) > 1 else k.get("scale", 1)
    s = real_term(E, sc)
    if E.branch(s < 0):
        raise bexc("ValueError", "scale < 0")
    t = _draw(E, L.GAMMA, real_term(E, sh), s)
    E.assume(t >= 0)
    return Sym(t)


@H("numpy.random.multivariate_normal")
def _mvn(E, a, k):
    E.last_mvn = (a[0], a[1])
    E.draws = getattr(E, "draws", 0) + 1
    x, y = E.fresh("mvnx", z3.RealSort()), E.fresh("mvny", z3.RealSort())
    return NdArr(z3.IntVal(2), lambda q: z3.If(q == 0, x, y))


@H("re.sub")
def _resub(E, a, k):
    pat, rep, s = a[0], a[1], a[2]
    if isinstance(s, ValV):
        s = resolve(E, s)
    if isinstance(pat, str) and isinstance(rep, str) and isinstance(s, str):
        return re.sub(pat, rep, s)
    if pat == "_$" and rep == "" and isinstance(s, Sym):
        parts = flat_concat(s.t)
        if z3.is_string_value(parts[-1]) and parts[-1].as_string().endswith("_"):
            return str_slice(E, s.t, None, -1)
        if E.branch(z3.SuffixOf(z3.StringVal("_"), s.t)):
            return Sym(z3.SubString(s.t, 0, z3.Length(s.t) - 1))
        return s
    raise Unsupported("re.sub on a symbolic string")


@H("re.findall")
def _refindall(E, a, k):
    if isinstance(a[0], str) and isinstance(a[1], str):
        return ListV([tuple(x) if isinstance(x, tuple) else x for x in re.findall(a[0], a[1])])
    raise Unsupported("re.findall on a symbolic string")


@H("copy.deepcopy")
def _deepcopy(E, a, k, memo=None):
    v = a[0]
    memo = {} if memo is None else memo
    if v is None or isinstance(v, (int, float, str, bool, Fraction, Sym, ValV, ClassV, FuncV)):
        return v
    if isinstance(v, tuple):
        return tuple(_deepcopy(E, [x], {}, memo) for x in v)
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, (ListV, SetV, DictV)):
        r = memo[id(v)] = method(E, v, "copy", [], {})
        if isinstance(v, DictV):
            r.pairs[:] = [[_deepcopy(E, [x], {}, memo), _deepcopy(E, [y], {}, memo)] for x, y in v.pairs]
        else:
            r.items[:] = [_deepcopy(E, [x], {}, memo) for x in v.items]
        return r
    raise Unsupported("deepcopy of %r" % (v,))


@H("copy.copy")
def _copy(E, a, k):
    v = a[0]
    if isinstance(v, (ListV, DictV, SetV, MapDict, VarMap)):
        return method(E, v, "copy", [], {})
    raise Unsupported("copy")


@H("functools.wraps")
def _wraps(E, a, k):
    return PyFn(lambda E2, a2, k2: a2[0])
