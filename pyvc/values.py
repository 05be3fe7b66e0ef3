"""Value universe of the verifier: what a Python expression of /repo can evaluate to.

Concrete values are plain Python objects (None, bool, int, str, tuple) and Fraction for
floats (machine floats are read as exact decimals / mathematical reals; see trusted base).
Everything symbolic or mutable is one of the classes below.
"""
from fractions import Fraction
import z3

_uid = [0]


def next_uid():
    _uid[0] += 1
    return _uid[0]


class Sym:
    """Symbolic scalar: z3 term of sort Bool, Int, Real or String."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "Sym(%s)" % self.t


class Unbound:
    """A local that has no value."""
    def __repr__(self):
        return "<unbound>"


UNBOUND = Unbound()


class Poison:
    """A local whose value the loop rule does not know (assigned in a loop body, no role)."""
    def __repr__(self):
        return "<poison>"


POISON = Poison()


class HeapV:
    """Base of mutable engine objects (identity semantics)."""
    def __init__(self):
        self.uid = next_uid()


class ListV(HeapV):
    def __init__(self, items=(), kind="list", maxlen=None):
        super().__init__()
        self.items = list(items)
        self.kind = kind

    def __repr__(self):
        return "%sV%r" % (self.kind, self.items)


class SetV(HeapV):
    def __init__(self, items=(), frozen=False):
        super().__init__()
        self.items = list(items)
        self.frozen = frozen

    def __repr__(self):
        return "SetV%r" % (self.items,)


class DictV(HeapV):
    """Dict with a concrete number of entries (keys may be symbolic scalars)."""
    def __init__(self, pairs=(), kind="dict"):
        super().__init__()
        self.pairs = [list(p) for p in pairs]
        self.kind = kind

    def __repr__(self):
        return "DictV%r" % (self.pairs,)


class NTClass:
    def __init__(self, name, fields, defaults=()):
        self.name = name
        self.fields = tuple(fields)
        self.defaults = tuple(defaults)
        self.ns = {}

    def __repr__(self):
        return "<namedtuple %s>" % self.name


class NT:
    """Instance of a namedtuple with known fields."""
    def __init__(self, cls, vals):
        self.cls = cls
        self.vals = tuple(vals)

    def get(self, f):
        return self.vals[self.cls.fields.index(f)]

    def __repr__(self):
        return "NT%s%r" % (self.cls.name, dict(zip(self.cls.fields, self.vals)))


class ModuleV:
    def __init__(self, name):
        self.name = name
        self.ns = {}
        self.tree = None
        self.src = None

    def __repr__(self):
        return "<module %s>" % self.name


class Ext:
    """Something outside the repository, by dotted name (function, class or module)."""
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<ext %s>" % self.name


class FuncV:
    def __init__(self, node, module, qual, closure=None, cls=None, kind="plain", defaults=None, kwdefaults=None):
        self.node = node
        self.module = module
        self.qual = qual
        self.closure = closure
        self.cls = cls
        self.kind = kind
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.is_gen = None

    def __repr__(self):
        return "<func %s>" % self.qual


class PropV:
    def __init__(self, getter, setter=None):
        self.getter = getter
        self.setter = setter


class BoundV:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class BuiltinMethod:
    def __init__(self, self_, name):
        self.self_ = self_
        self.name = name

    def __repr__(self):
        return "<method %s of %r>" % (self.name, type(self.self_).__name__)


class PyFn:
    """A function implemented by the verifier itself (used by contracts and models)."""
    def __init__(self, fn, name="<pyfn>"):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return "<pyfn %s>" % self.name


class ClassV:
    def __init__(self, name, bases, module, qual):
        self.name = name
        self.bases = bases
        self.module = module
        self.qual = qual
        self.ns = {}
        self.node = None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def __repr__(self):
        return "<class %s>" % self.qual


class ObjV(HeapV):
    """Instance of a repository class."""
    def __init__(self, cls, attrs=None):
        super().__init__()
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.meta = {}

    def __repr__(self):
        return "<%s obj %d>" % (self.cls.name, self.uid)


class SuperV:
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class GenV:
    """A generator: either a suspended call of a repo generator function or an abstract one."""
    def __init__(self, run, name=None, qual=None, args=None):
        self.run = run          # run(cb) -> return value; cb(value) for every yield
        self.name = name
        self.qual = qual
        self.args = args
        self.buffer = None
        self.uid = next_uid()


class SeqV:
    """Immutable sequence of symbolic length: elem(i) for a z3 Int term i."""
    def __init__(self, n, elem, tag=None, pyclass=tuple, fact=None):
        self.n = n
        self.elem = elem
        self.tag = tag
        self.pyclass = pyclass
        self.guard = None       # None, or index term -> formula: the element is present
        self.uid = next_uid()

    def __repr__(self):
        return "<seq %s>" % (self.tag,)


class Model:
    """Base of verifier-side abstract objects; methods are looked up as m_<name>/get_<name>."""
    pyclass = object

    def __init__(self):
        self.uid = next_uid()


class ValV:
    """Symbolic dynamic value: z3 term of datatype Val (none/empty/str/chunk/num/other)."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "ValV(%s)" % self.t


class SlotV:
    """Symbolic slot content: z3 term of datatype SV (EmptyValue object or Varval tuple)."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SlotV(%s)" % self.t


def is_num(v):
    return isinstance(v, (int, Fraction)) or (isinstance(v, float)) or (isinstance(v, Sym) and v.t.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT))


def is_str(v):
    return isinstance(v, str) or (isinstance(v, Sym) and v.t.sort().kind() == z3.Z3_SEQ_SORT)


def is_boolv(v):
    return isinstance(v, bool) or (isinstance(v, Sym) and z3.is_bool(v.t))
