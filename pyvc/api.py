"""Contract-writing API: tasks (functions under contract), symbolic inputs, small models."""
import z3
from . import engine, lib, logic as L
from .engine import Engine, PyExc, PathEnd, Unsupported, LoopSpec, Role, Fold, exc_name
from .models import *
from .values import *
from .values import Model
from fractions import Fraction

TASKS = {}


class Task:
    """One function (or group) under contract: `run` executes the real body and proves obligations."""
    def __init__(self, name, run, functions, setup=None, max_seconds=240, timeout_ms=20000, note="", bounded=None):
        self.name, self.run, self.functions, self.setup = name, run, list(functions), setup
        self.max_seconds, self.timeout_ms, self.note = max_seconds, timeout_ms, note
        self.bounded = bounded


def task(reg, name, functions, **kw):
    def deco(fn):
        reg.append(Task(name, fn, functions, **kw))
        return fn
    return deco


# ------------------------------------------------------------------ symbolic inputs
def real(E, nm):
    return Sym(E.fresh(nm, L.R))


def integer(E, nm, lo=None):
    s = Sym(E.fresh(nm, L.I))
    if lo is not None:
        E.assume(s.t >= lo)
    return s


def string(E, nm):
    return Sym(E.fresh(nm, L.S))


def boolean(E, nm):
    return Sym(E.fresh(nm, L.B))


def T(E, v):
    """engine number -> z3 real term"""
    return lib.real_term(E, v)


def F(E, qual):
    f = E.lookup_qual(qual)
    if f is None:
        raise Unsupported("%s is not in the source any more" % qual)
    return f


def run(E, qual, args=(), kwargs=None):
    """Execute the real body of the function under contract (its own contract is not used)."""
    f = F(E, qual)
    if isinstance(f, PropV):
        f = f.getter
    return E.run_func(f, list(args), dict(kwargs or {}))


def cls(E, qual):
    c = F(E, qual)
    if not isinstance(c, ClassV):
        raise Unsupported("%s is not a class" % qual)
    return c


def new(E, qual, **attrs):
    """An instance of a repository class with the given attributes (no __init__)."""
    return ObjV(cls(E, qual), attrs)


def attempt(E, thunk):
    """-> ('ok', value) or ('exc', PyExc)"""
    try:
        return "ok", thunk()
    except PyExc as e:
        return "exc", e


def is_exc(E, e, name):
    return exc_name(e.cls) == name or any(exc_name(c) == name for c in (e.cls.mro() if isinstance(e.cls, ClassV) else []))


def b(f):
    """bool/Sym/z3 -> z3 Bool"""
    if isinstance(f, bool):
        return z3.BoolVal(f)
    if isinstance(f, Sym):
        return f.t
    return f


def eqv(E, a, b_):
    """Python == as a z3 Bool"""
    r = lib.eqf(E, a, b_, False)
    return z3.BoolVal(r) if isinstance(r, bool) else r


def same(E, a, b_):
    return a is b_ or (isinstance(a, ObjV) and isinstance(b_, ObjV) and a.uid == b_.uid)


class Rec(Model):
    """Record with fixed string fields whose reads/writes are given by closures."""
    pyclass = dict

    def __init__(self, get, set_=None):
        super().__init__()
        self.get_, self.set_ = get, set_

    def m___getitem__(self, E, k):
        return self.get_(k)

    def m___setitem__(self, E, k, v):
        if self.set_ is None:
            raise Unsupported("write to read-only record")
        return self.set_(k, v)


class SymMap(Model):
    """Mapping with symbolic key set; behaviour given by closures."""
    pyclass = dict

    def __init__(self, get=None, has=None, set_=None, keys=None):
        super().__init__()
        self.get_, self.has_, self.set_, self.keys_ = get, has, set_, keys

    def m___getitem__(self, E, k):
        if self.has_ is not None:
            h = self.has_(k)
            if not (h if isinstance(h, bool) else E.branch(h)):
                raise engine.bexc("KeyError", k)
        return self.get_(k)

    def m_get(self, E, k, default=None):
        h = self.has_(k)
        if h if isinstance(h, bool) else E.branch(h):
            return self.get_(k)
        return default

    def m___contains__(self, E, k):
        return self.has_(k)

    def m___setitem__(self, E, k, v):
        if self.set_ is None:
            raise Unsupported("write to read-only map")
        return self.set_(k, v)

    def iterate(self, E):
        if self.keys_ is None:
            raise Unsupported("iteration of this map")
        return self.keys_
    m_keys = iterate

    def m_items(self, E):
        s = self.keys_
        return SeqV(s.n, lambda i: (s.elem(i), self.get_(s.elem(i))), tag=s.tag)

    def m_values(self, E):
        s = self.keys_
        return SeqV(s.n, lambda i: self.get_(s.elem(i)), tag=s.tag)


def fn_seq(E, nm, sort=L.S, wrap=Sym, tag=None):
    """A symbolic sequence of unknown length."""
    n = E.fresh(nm + "_n", L.I)
    f = E.fresh_fn(nm, L.I, sort)
    E.assume(n >= 0)
    s = SeqV(n, lambda i: wrap(f(i)), tag=tag or nm)
    s.f = f
    return s
