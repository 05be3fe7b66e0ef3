"""C26: chunk and rule strings are read as written."""
from .cbv import *
from pyvc.models import MapDict
from pyvc.values import PyFn, ValV, NT

PROPERTY = "C26"
REG = []
CH, UT = "pyactr.chunks.", "pyactr.utilities."
S = z3.StringVal
ASSUME = ["C26: what the grammar (pyparsing) yields: a sequence of pairs of a slot and one part; a part is a word that does not start with one of = ~ ! < > ' \", a text in quotes, or one of the signs =, ~=, ~ with a word or a quoted word, or one of <, >, <=, >= with a word without quotes; words are not empty",
          "C26: at most one of the slots isa, ISA and Isa is given"]
SIGNS = ("=", "~=", "~", "<", ">", "<=", ">=")
PLAIN, DQ, SQ = 0, 1, 2
# kinds of parts: 0 plain word, 1 "quoted", 2 'quoted', then sign x (plain, double, single)
KINDS = [(None, q) for q in (PLAIN, DQ, SQ)] + [(s, q) for s in SIGNS for q in ((PLAIN, DQ, SQ) if s in ("=", "~=", "~") else (PLAIN,))]
ISA = ("isa", "ISA", "Isa")
FIELDS = ("values", "variables", "negvalues", "negvariables")


class Few(Model):
    """A set of which only matters whether it has no, one or more members."""
    pyclass = set

    def __init__(self, n, first):
        super().__init__()
        self.n, self.first = n, first           # n: 0, 1, 2 (= two or more)

    def m_add(self, E, v):
        t = lib.val_term(E, v)
        E.write(self, "set")
        self.n, self.first = added(self.n, self.first, t)

    def m___len__(self, E):
        k = E.fresh("members", L.I)
        E.fact(z3.If(self.n < 2, k == self.n, k >= 2))
        return Sym(k)

    def truth(self, E):
        return E.branch(self.n > 0)

    def m_pop(self, E):
        if E.branch(self.n == 0):
            raise engine.bexc("KeyError", "pop from an empty set")
        E.write(self, "set")
        if not E.branch(self.n == 1):
            raise Unsupported("one of several members")
        v = lib.mkval(E, self.first)
        self.n = z3.IntVal(0)
        return v

    def iterate(self, E):
        if E.branch(self.n == 0):
            return SeqV(z3.IntVal(0), lambda i: None, tag="members")
        if E.branch(self.n == 1):
            return SeqV(z3.IntVal(1), lambda i: lib.mkval(E, self.first), tag="members")
        raise Unsupported("several members")


def added(n, first, t):
    """number of members (0, 1, more) and the first member after adding t"""
    return z3.If(n == 0, z3.IntVal(1), z3.If(z3.And(n == 1, L.hasheq(first, t)), z3.IntVal(1), z3.IntVal(2))), z3.If(n == 0, t, first)


ARR = z3.ArraySort(Val, L.B)
NOTHING = z3.K(Val, z3.BoolVal(False))


class Entry:
    """What has been read for a slot."""
    def __init__(self, has, vals, vars_, nvals, nvars):
        self.has, self.vals, self.vars, self.nvals, self.nvars = has, vals, vars_, nvals, nvars

    def parts(self):
        return [self.has, self.vals[0], self.vals[1], self.vars[0], self.vars[1], self.nvals, self.nvars]

    def same(self, o):
        return z3.And(self.has == o.has, z3.Implies(self.has, z3.And(self.vals[0] == o.vals[0], z3.Implies(self.vals[0] > 0, self.vals[1] == o.vals[1]), self.vars[0] == o.vars[0], z3.Implies(self.vars[0] > 0, self.vars[1] == o.vars[1]))))


NONE = Entry(z3.BoolVal(False), (z3.IntVal(0), Val.none), (z3.IntVal(0), Val.none), NOTHING, NOTHING)


def ite(c, a, b_):
    return Entry(z3.If(c, a.has, b_.has), tuple(z3.If(c, x, y) for x, y in zip(a.vals, b_.vals)), tuple(z3.If(c, x, y) for x, y in zip(a.vars, b_.vars)), z3.If(c, a.nvals, b_.nvals), z3.If(c, a.nvars, b_.nvars))


class Parsed:
    """The parsed string: any number of slots with parts."""
    def __init__(self, E):
        self.n = E.fresh("nparts", L.I)
        E.assume(self.n >= 0)
        self.SLOTN, self.KIND, self.TEXT = E.fresh_fn("slot", L.I, L.S), E.fresh_fn("kind", L.I, L.I), E.fresh_fn("text", L.I, L.S)
        self.CH, self.CHUNK = E.fresh_fn("ischunk", L.S, L.B), E.fresh_fn("chunk", L.S, L.I)
        # the entry of slot s after i parts
        f = lambda nm, so: z3.Function("read_" + nm, L.I, L.S, so)
        self.F = [f("has", L.B), f("nvalues", L.I), f("value", Val), f("nvars", L.I), f("var", Val), f("negvalues", ARR), f("negvars", ARR)]

    def fold(self, i, s):
        h, a, b_, c, d, e, g = [f(i, s) for f in self.F]
        return Entry(h, (a, b_), (c, d), e, g)

    def base(self, E, s):
        E.assume(z3.And(*[x == y for x, y in zip(self.fold(z3.IntVal(0), s).parts(), NONE.parts())]))

    def unfold(self, E, i, s):
        """one more part"""
        old = self.fold(i, s)
        hit = self.SLOTN(i) == s
        new = self.add(old, i)
        want = ite(hit, new, old)
        E.assume(z3.And(*[x == y for x, y in zip(self.fold(i + 1, s).parts(), want.parts())]))

    def add(self, e, i):
        """SPECIFICATION: what part i adds to the slot"""
        k, t = self.KIND(i), self.TEXT(i)
        text = Val.vstr(t)
        isk = lambda *ks: z3.Or(*[k == j for j, x in enumerate(KINDS) if x in ks or x[0] in [y for y in ks if isinstance(y, str)]])
        plain = k == KINDS.index((None, PLAIN))
        quoted = isk((None, DQ), (None, SQ))
        named = z3.And(plain, self.CH(t), *[self.SLOTN(i) != S(k) for k in ISA])       # isa names a type, not a chunk
        cmp_, cmpeq = isk("<", ">"), isk("<=", ">=")
        sign = z3.If(isk("<", "<="), S("<"), S(">"))
        value = z3.Or(plain, quoted, cmp_, cmpeq)
        v = z3.If(named, Val.vchk(self.CHUNK(t)), z3.If(cmp_, Val.vstr(z3.Concat(sign, t)), z3.If(cmpeq, Val.vstr(sign), text)))
        add = lambda c, fw, x: tuple(z3.If(c, a, b_) for a, b_ in zip(added(fw[0], fw[1], x), fw))
        st = lambda c, arr: z3.If(c, z3.Store(arr, text, True), arr)
        e = ite(e.has, e, NONE)
        return Entry(z3.BoolVal(True), add(value, e.vals, v), add(z3.Or(isk("="), cmpeq), e.vars, text), st(isk("~"), e.nvals), st(isk("~="), e.nvars))

    def part(self, E, i):
        k = E.choose(len(KINDS), "part")
        sign, q = KINDS[k]
        E.assume(self.KIND(i) == k)
        t = self.TEXT(i)
        if q == PLAIN:
            E.fact(z3.Length(t) > 0)
            E.fact(z3.And(*[z3.Not(z3.SubString(t, 0, 1) == S(c)) for c in ("'\"=~!<>" if sign is None else "'\"")]))
            w = Sym(t)
        else:
            c = S('"' if q == DQ else "'")
            w = Sym(z3.Concat(c, t, c))
        return w if sign is None else ListV([sign, w])

    def seq(self, E):
        return SeqV(self.n, lambda i: ListV([Sym(self.SLOTN(i)), self.part(E, i)]), tag="parts", pyclass=list)


class Registry(Model):
    """Chunk._chunks: chunks by their names."""
    pyclass = dict

    def __init__(self, P):
        super().__init__()
        self.P = P

    def m___getitem__(self, E, k):
        t = E.str_term(k)
        if not E.branch(self.P.CH(t)):
            raise engine.bexc("KeyError", k)
        return lib.chunk_obj(E, self.P.CHUNK(t))

    def m___contains__(self, E, k):
        return Sym(self.P.CH(E.str_term(k)))

    def m_get(self, E, k, d=None):
        return self.m___getitem__(E, k) if E.branch(self.P.CH(E.str_term(k))) else d


def as_entry(E, v):
    """an engine dictionary of four sets -> Entry"""
    if not isinstance(v, DictV):
        return None
    d = {k: x for k, x in v.pairs}
    if set(d) != set(FIELDS):
        return None

    def few(x):
        if isinstance(x, Few):
            return (x.n, x.first)
        if isinstance(x, SetV):
            n, f = z3.IntVal(0), Val.none
            for y in x.items:
                n, f = added(n, f, lib.val_term(E, y))
            return (n, f)
        raise Unsupported("collection %r" % (x,))

    def arr(x):
        return x.arr if isinstance(x, ValSet) else lib.items_arr(E, x.items)
    return Entry(z3.BoolVal(True), few(d["values"]), few(d["variables"]), arr(d["negvalues"]), arr(d["negvariables"]))


def as_sets(e):
    return DictV([[f, x] for f, x in (("values", Few(*e.vals)), ("variables", Few(*e.vars)), ("negvalues", ValSet(e.nvals)), ("negvariables", ValSet(e.nvars)))])


class Read(Model):
    """chunk_dict after i parts (stage 0), or with the first j slots put together (stage 1)."""
    pyclass = dict

    def __init__(self, E, P, i, nkeys, KEY, upto=None):
        super().__init__()
        self.P, self.i, self.nkeys, self.KEY, self.upto = P, i, nkeys, KEY, upto
        self.sets, self.cache, self.gone, self.seen = [], {}, [], {}

    def entry(self, E, s):
        e = self.P.fold(self.i, s)
        E.fact(z3.And(e.vals[0] >= 0, e.vals[0] <= 2, e.vars[0] >= 0, e.vars[0] <= 2))       # as every added() gives 0, 1 or 2
        return e

    def m_get(self, E, k, d=None):
        t = E.str_term(k)
        if self.i is not None and d is not None and self.upto is None:
            # the value for one slot, as sets
            if t.sexpr() not in self.cache:
                e = self.entry(E, t)
                w = as_entry(E, d)
                if w is None or not (isinstance(d, DictV)):
                    raise Unsupported("another default")
                self.cache[t.sexpr()] = as_sets(ite(e.has, e, w))
                self.seen[t.sexpr()] = (t, self.cache[t.sexpr()])
            return self.cache[t.sexpr()]
        return self.m___getitem__(E, k) if E.branch(self.has(t)) else d

    def m_setdefault(self, E, k, d=None):
        v = self.m_get(E, k, d)
        self.m___setitem__(E, k, v)
        return v

    def m___setitem__(self, E, k, v):
        E.write(self, "map")
        t = E.str_term(k)
        self.sets.append((t, v))
        self.cache[t.sexpr()] = v

    def has(self, s):
        return z3.And(self.P.fold(self.i, s).has, *[z3.Not(s == g) for g in self.gone])

    def m___contains__(self, E, k):
        return Sym(self.has(E.str_term(k)))

    def result(self, E, s):
        """the content of a slot put together"""
        e = self.entry(E, s)
        one = lambda fw: z3.If(fw[0] == 0, Val.none, fw[1])
        return NT(varval(E), [ValV(one(e.vals)), ValV(one(e.vars)), ValSet(e.nvals), ValSet(e.nvars)])

    def m___getitem__(self, E, k):
        t = E.str_term(k)
        if t.sexpr() in self.cache:
            return self.cache[t.sexpr()]
        if not E.branch(self.has(t)):
            raise engine.bexc("KeyError", k)
        if self.upto is not None:
            E.fact(z3.And(self.place(t) >= 0, self.place(t) < self.nkeys, self.KEY(self.place(t)) == t))
        if self.upto is None or not E.branch(self.place(t) < self.upto):
            v = as_sets(self.entry(E, t))
        else:
            v = self.result(E, t)
        self.cache[t.sexpr()] = v
        return v

    def place(self, t):
        return z3.Function("slotplace", L.S, L.I)(t)

    def m_pop(self, E, k, *d):
        t = E.str_term(k)
        if not E.branch(self.has(t)):
            if d:
                return d[0]
            raise engine.bexc("KeyError", k)
        v = self.m___getitem__(E, k)
        E.write(self, "map")
        self.gone.append(t)
        return v

    def iterate(self, E):
        def elem(j):
            k = self.KEY(j)
            E.fact(z3.Implies(z3.And(j >= 0, j < self.nkeys), z3.And(self.P.fold(self.i, k).has, self.place(k) == j)))
            return Sym(k)
        sq = SeqV(self.nkeys, elem, tag="slots read")
        sq.owner = self
        return sq
    m_keys = iterate

    def m_items(self, E):
        sq = self.iterate(E)
        it = SeqV(self.nkeys, lambda j: (lambda k: (k, self.m___getitem__(E, k)))(sq.elem(j)), tag="slots read")
        it.owner = self
        return it


def varval(E):
    return E.modules["pyactr.utilities"].ns["VarvalClass"]


CCD = CH + "createchunkdict"


def readings(E, P, s):
    """Loops of createchunkdict, followed at slot s."""
    st = {}
    nkeys = E.fresh("nslots", L.I)
    KEY = E.fresh_fn("slotname", L.I, L.S)
    E.assume(nkeys >= 0)
    OK = z3.Function("fine", L.I, L.B)
    m = E.fresh("member", Val)
    two = lambda e: z3.Or(e.vals[0] >= 2, e.vars[0] >= 2)

    class Parts(LoopSpec):
        name = "parts of the string"

        def roles(self, E):
            def inj(E, i):
                st["read"] = Read(E, P, i, nkeys, KEY)
                return st["read"]

            def check(E, i, v):
                if isinstance(v, DictV):
                    return not v.pairs
                if not isinstance(v, Read):
                    return False
                if i is None or z3.is_int_value(i):
                    return True
                new = P.fold(i, s)
                cur = v.entry(E, s)
                done = set()
                for t, x in v.sets:
                    e = as_entry(E, x)
                    if e is None:
                        return False
                    done.add(t.sexpr())
                    cur = ite(s == t, e, cur)
                for t, x in v.seen.items():         # changed in place
                    if t not in done:
                        cur = ite(z3.And(s == x[0], cur.has), as_entry(E, x[1]), cur)
                return z3.And(cur.same(new), z3.Implies(cur.has, z3.And(z3.Select(cur.nvals, m) == z3.Select(new.nvals, m), z3.Select(cur.nvars, m) == z3.Select(new.nvars, m))))
            return [Role("chunk_dict", inj, check)]

        def base(self, E):
            P.base(E, s)

        def unfold(self, E, i):
            P.unfold(E, i, s)
            P.unfold(E, i, P.SLOTN(i))

    class Slots(LoopSpec):
        name = "slots read"

        def __init__(self, owner):
            st["read"] = owner

        def base(self, E):
            E.assume(OK(0))

        def modifies(self, E):
            return [(st["read"].uid, "*")]

        def roles(self, E):
            return []

        def unfold(self, E, j):
            E.assume(OK(j + 1) == z3.And(OK(j), z3.Not(two(P.fold(P.n, KEY(j))))))

        def heap_inject(self, E, j):
            r = st["read"]
            r.i, r.upto, r.sets, r.cache, r.seen = P.n, j, [], {}, {}
            E.assume(OK(j))

        def heap_check(self, E, j):
            r = st["read"]
            if z3.is_int_value(j):
                return [("no slot is put together yet", z3.BoolVal(not r.sets and not r.gone))]
            k = KEY(z3.simplify(j - 1))
            e = r.entry(E, k)
            out = [("every slot so far has at most one value and one variable", OK(j)),
                   ("each slot is put together once", z3.BoolVal(len(r.sets) == 1 and r.sets[0][0].eq(k) and isinstance(r.sets[0][1], NT)))]
            if len(r.sets) == 1 and isinstance(r.sets[0][1], NT):
                out += content_is(E, r.sets[0][1], e, m)
            return out

        def at_exit(self, E, n):
            E.assume(z3.Implies(P.fold(P.n, s).has, z3.And(st["read"].place(s) >= 0, st["read"].place(s) < n, KEY(st["read"].place(s)) == s)))
            E.assume(z3.Implies(OK(n), z3.Implies(P.fold(P.n, s).has, z3.Not(two(P.fold(P.n, s))))))     # induction over the slots
    E.loops["parts"] = lambda E, fr, seq: Parts()
    E.loops["slots read"] = lambda E, fr, seq: Slots(seq.owner)
    return st, two


def set_arr(E, v):
    if isinstance(v, ValSet):
        return v.arr
    if isinstance(v, SeqV):
        return lib.seq_arr(E, v)
    if isinstance(v, (SetV, ListV)):
        return lib.items_arr(E, v.items)
    if isinstance(v, tuple):
        return lib.items_arr(E, list(v))
    raise Unsupported("collection %r" % (v,))


def content_is(E, nt, e, m):
    one = lambda fw: z3.If(fw[0] == 0, Val.none, fw[1])
    return [("the value is the one given", lib.val_term(E, nt.get("values")) == one(e.vals)), ("the variable is the one given", lib.val_term(E, nt.get("variables")) == one(e.vars)),
            ("the negated values are those given", z3.Select(set_arr(E, nt.get("negvalues")), m) == z3.Select(e.nvals, m)),
            ("the negated variables are those given", z3.Select(set_arr(E, nt.get("negvariables")), m) == z3.Select(e.nvars, m))]


@task(REG, "createchunkdict", [CCD])
def ccd(E):
    setup(E)
    P = Parsed(E)
    cls(E, "pyactr.chunks.Chunk").ns["_chunks"] = Registry(P)
    s = E.fresh("s", L.S)
    st, two = readings(E, P, s)
    for k in ISA:
        P.base(E, S(k))
    E.cover("precondition satisfiable")
    ok, r = attempt(E, lambda: run(E, CCD, [P.seq(E)]))
    y = z3.Const("s!cc", L.S)
    end = P.fold(P.n, s)
    E.fact(z3.And(end.vals[0] >= 0, end.vals[0] <= 2, end.vars[0] >= 0, end.vars[0] <= 2))
    if ok == "exc":
        E.prove("refusing is an ACTRError", z3.BoolVal(is_exc(E, r, "ACTRError")))
        E.prove("a string is refused only if a slot has two values or two variables", z3.Exists([y], z3.And(P.fold(P.n, y).has, two(P.fold(P.n, y)))))
        return
    E.prove("two values or two variables for a slot are refused", z3.Implies(end.has, z3.Not(two(end))))
    t, d = r
    isa = [P.fold(P.n, S(k)) for k in ISA]
    given = [e.has for e in isa]
    onlyone = z3.Not(z3.Or(*[z3.And(a, c) for x, a in enumerate(given) for c in given[x + 1:]]))
    one = lambda e: z3.If(e.vals[0] == 0, Val.none, e.vals[1])
    want = z3.If(given[0], one(isa[0]), z3.If(given[1], one(isa[1]), z3.If(given[2], one(isa[2]), Val.vstr(S("")))))
    E.prove("the type is what is given for isa, ISA or Isa", z3.Implies(onlyone, lib.val_term(E, t) == want))
    E.prove("the slots are those read", isinstance(d, Read) and d is st.get("read"))
    E.prove("the slots are exactly those given, without isa", d.has(s) == z3.And(end.has, *[s != S(k) for k in ISA]))
    E.prove("nothing else is changed afterwards", not d.sets)


# ------------------------------------------------------------------ what several parts for a slot amount to
@task(REG, "several parts for one slot", [CCD])
def several(E):
    setup(E)
    P = Parsed(E)
    s = E.fresh("s", L.S)
    i, g, h = (E.fresh(x, L.I) for x in ("i", "g", "h"))
    v, w, m = (E.fresh(x, Val) for x in ("v", "w", "m"))
    P.base(E, s)
    P.unfold(E, i, s)
    old, new = P.fold(i, s), P.fold(i + 1, s)
    E.cover("precondition satisfiable")
    one = P.add(NONE, i)                            # what part i gives, alone
    E.assume(z3.Implies(z3.Not(old.has), z3.And(*[a == b_ for a, b_ in zip(old.parts(), NONE.parts())])))
    E.fact(z3.And(old.vals[0] >= 0, old.vals[0] <= 2, old.vars[0] >= 0, old.vars[0] <= 2))
    here = P.SLOTN(i) == s
    E.prove("nothing is read before the first part", z3.And(z3.Not(P.fold(z3.IntVal(0), s).has), P.fold(z3.IntVal(0), s).vals[0] == 0))
    E.prove("a slot is there from its first part on", new.has == z3.Or(old.has, here))
    E.prove("a slot not given has nothing", z3.Implies(z3.Not(new.has), z3.And(new.vals[0] == 0, new.vars[0] == 0)))
    for nm, get in (("value", lambda e: e.vals), ("variable", lambda e: e.vars)):
        o, n, x = get(old), get(new), get(one)
        inv = lambda fw, u: z3.And(fw[0] >= 1, z3.Implies(fw[0] == 1, L.hasheq(fw[1], u)))
        E.prove("a %s read is there" % nm, z3.Implies(z3.And(here, x[0] == 1, x[1] == v), inv(n, v)))
        E.prove("a %s once read stays, unless another follows" % nm, z3.Implies(inv(o, v), inv(n, v)))
        E.prove("a second different %s is noticed" % nm, z3.Implies(z3.And(inv(o, v), here, x[0] == 1, x[1] == w, z3.Not(L.hasheq(w, v)), z3.Not(L.hasheq(v, w))), n[0] == 2))
        E.prove("it is not forgotten (%s)" % nm, z3.Implies(o[0] == 2, n[0] == 2))
        E.prove("the same %s again is no second one" % nm, z3.Implies(z3.And(o[0] == 1, here, x[0] == 1, L.hasheq(o[1], x[1])), z3.And(n[0] == 1, n[1] == o[1])))
        E.prove("other parts give no %s" % nm, z3.Implies(z3.Or(z3.Not(here), x[0] == 0), z3.And(n[0] == o[0], z3.Implies(o[0] > 0, n[1] == o[1]))))
    for nm, get in (("value", lambda e: e.nvals), ("variable", lambda e: e.nvars)):
        E.prove("the negated %ss are all those given" % nm, z3.Implies(new.has, z3.Select(get(new), m) == z3.Or(z3.And(old.has, z3.Select(get(old), m)), z3.And(here, z3.Select(get(one), m)))))


# ------------------------------------------------------------------ makechunk
MC = CH + "makechunk"


class Slots26(Model):
    """Contents made so far for the first slots, when they are collected in another dictionary."""
    pyclass = dict

    def __init__(self, c, stage):
        super().__init__()
        self.c, self.stage, self.over = c, stage, []

    def has(self, s):
        return z3.Or(z3.And(L.HASN(self.c, s), abschunk.IDX(self.c, s) < self.stage), *[o == s for o, _ in self.over])

    def m___setitem__(self, E, k, v):
        E.write(self, "d")
        self.over.append((E.str_term(k), v))

    def m___contains__(self, E, k):
        s = E.str_term(k)
        abschunk.name_fact(E, self.c, s)
        return Sym(self.has(s))


class Named(Model):
    """Chunk._chunks: what is stored under which name."""
    pyclass = dict

    def __init__(self):
        super().__init__()
        self.log = []

    def m___setitem__(self, E, k, v):
        E.write(self, "names")
        self.log.append((E.str_term(k), v))


def make(named, typed):
    def run_(E):
        from . import c22
        setup(E)
        c, g, bad = E.fresh("given", L.I), E.fresh("g", L.S), E.fresh("bad", L.S)
        abschunk.name_fact(E, c, g)
        abschunk.name_fact(E, c, bad)
        ill = lambda s: z3.And(L.HASN(c, s), c22.KIND(c, s) >= 2, c22.SPERR(z3.If(c22.KIND(c, s) == 2, c22.STRV(c, s), c22.NUMSTR(c22.NUMV(c, s)))))
        BAD = E.fresh("illformed", L.B)
        E.assume(z3.Implies(BAD, ill(bad)))                     # BAD: some slot has an ill-formed text
        E.assume(z3.Implies(ill(g), BAD))
        OK = z3.Function("fine", L.I, L.B)

        class G(c22.Given):
            def raw(self, E, s):
                E.assume(z3.And(c22.KIND(c, s) >= 0, c22.KIND(c, s) <= 3))
                return c22.Given.raw(self, E, s)

            def iterate(self, E):
                if self.stage is not None:
                    raise Unsupported("slots gone through twice")
                return c22.Given.iterate(self, E)

            def m_copy(self, E):
                o = G(E, c)
                o.stage, o.over = self.stage, list(self.over)
                return o
        d = G(E, c)
        gv = [d]

        def split(E, a, k):
            t = E.str_term(a[0] if a else k["info"])
            if E.branch(c22.SPERR(t)):
                raise engine.PyExc(cls(E, "pyactr.utilities.ACTRError"), ["more than one value or variable"])
            E.fact(z3.And(L.NLEN(c22.SNG(t)) >= 0, L.NLEN(c22.SNV(t)) >= 0))
            return DictV([["variables", SetV([Sym(c22.SPX(t))] if E.branch(c22.HASX(t)) else [])], ["values", SetV([Sym(c22.SPV(t))] if E.branch(c22.HASV(t)) else [])],
                          ["negvariables", c22.Negs(E, c22.SNV(t), True)], ["negvalues", c22.Negs(E, c22.SNG(t), False)]])
        E.contracts[UT + "stringsplitting"] = split
        COUNT = z3.Function("COUNTTEXT", L.I, L.S)

        def text(E, a, k):
            v = a[0]
            if isinstance(v, Sym) and v.t.sort() == L.R:
                return Sym(c22.NUMSTR(v.t))
            if isinstance(v, Sym) and v.t.sort() == L.I:
                return Sym(COUNT(v.t))
            return lib.HANDLERS["builtins.str"](E, a, k)
        E.contracts["ext:builtins.str"] = text

        def term(E, v):
            """the content the constructor makes of v"""
            if isinstance(v, Sym) and v.t.sort() == L.S:
                return c22.of_text(v.t)
            return content_term(E, v)

        def written(over):
            return z3.And(*[z3.And(L.HASN(c, s), z3.Implies(s == g, term(E, v) == c22.wanted(c, g))) for s, v in over]) if over else z3.BoolVal(True)

        class Slots(LoopSpec):
            name = "slots given"

            def modifies(self, E):
                return [(gv[0].uid, "*")]

            def base(self, E):
                E.assume(OK(0))

            def unfold(self, E, i):
                s = abschunk.names(E, c).elem(i).t
                E.assume(OK(i + 1) == z3.And(OK(i), z3.Not(ill(s))))
                E.assume(z3.Implies(ill(s), BAD))

            def heap_inject(self, E, i):
                gv[0].stage, gv[0].over = i, []
                E.assume(OK(i))

            def heap_check(self, E, i):
                out = [("what is stored for a slot is what was given", written(gv[0].over))]
                if not z3.is_int_value(i):
                    out.append(("no ill-formed text is passed over", OK(i)))
                return out

            def at_exit(self, E, n):
                # the names are those of the slots: by induction no slot is ill-formed
                E.assume(z3.Implies(OK(n), z3.Not(BAD)))

            def roles(self, E):
                def check(E, i, v):
                    if isinstance(v, DictV) and not v.pairs:
                        return z3.IntVal(0) == i if i is not None else True
                    if not isinstance(v, Slots26):
                        return False
                    done = z3.And(L.HASN(c, g), abschunk.IDX(c, g) < i)
                    return z3.And(v.has(g) == done, written(v.over))
                return [Role("contents", lambda E, i: Slots26(c, i), check, optional=True)]

        def at(fr):
            gv[0] = next((v for v in fr.locals.values() if isinstance(v, c22.Given)), gv[0])
            return Slots()
        E.loops["given slots"] = lambda E, fr, seq: at(fr)
        made, names = [], Named()
        Chunk = cls(E, "pyactr.chunks.Chunk")
        Chunk.ns["_chunks"] = names
        n0 = E.fresh("counter", L.I)
        Chunk.ns["_undefinedchunktypecounter"] = Sym(n0)

        def new(E, args, kw):
            tn = args[0] if args else kw.pop("typename")
            x = kw.pop("**", None)
            if kw or x is None:
                raise Unsupported("slots of the chunk")
            if E.branch(BAD):
                raise engine.PyExc(cls(E, "pyactr.utilities.ACTRError"), ["a text is ill-formed"])
            if isinstance(x, Slots26):
                has, cont = x.has(g), c22.wanted(c, g)
            elif isinstance(x, c22.Given):
                has, cont = x.has(g), c22.wanted(c, g)          # texts not yet split are split by the constructor (C22)
            elif isinstance(x, DictV) and not x.pairs:
                has, cont = z3.BoolVal(False), SV.svEmpty
            else:
                raise Unsupported("slots %r" % (x,))
            for s, v in x.over if not isinstance(x, DictV) else []:
                has, cont = z3.Or(has, s == g), z3.If(s == g, term(E, v), cont)
            o = lib.chunk_obj(E, E.fresh("newchunk", L.I))
            made.append((o, E.str_term(tn), has, cont))
            return o
        E.contracts["pyactr.chunks.Chunk"] = new
        nm, tn = string(E, "nameofchunk"), string(E, "typename")
        E.assume((z3.Length(nm.t) > 0) if named else (z3.Length(nm.t) == 0))
        E.assume((z3.Length(tn.t) > 0) if typed else (z3.Length(tn.t) == 0))
        E.cover("precondition satisfiable")
        ok, r = attempt(E, lambda: E.call(F(E, MC), [nm, tn], {"**": d}))
        if ok == "exc":
            E.prove("refusing is an ACTRError, for an ill-formed text", z3.And(z3.BoolVal(is_exc(E, r, "ACTRError")), BAD))
            E.prove("nothing is stored", not names.log)
            return
        E.prove("an ill-formed text is refused", z3.Not(BAD))
        E.prove("one chunk is made and returned", len(made) == 1 and made[0][0] is r)
        if len(made) != 1:
            return
        o, t, has, cont = made[0]
        E.prove("it has exactly the slots given", has == L.HASN(c, g))
        E.prove("their contents are those given", z3.Implies(has, cont == c22.wanted(c, g)))
        E.prove("it is stored under its name", len(names.log) == 1 and names.log[0][1] is o)
        if len(names.log) == 1:
            E.prove("which is the one given", names.log[0][0] == (nm.t if named else S("unnamedchunk")))
        now = Chunk.ns["_undefinedchunktypecounter"]
        now = T(E, now)
        if typed:
            E.prove("its type is the one given", z3.And(t == tn.t, now == n0))
        else:
            E.prove("without a type it gets a new undefined one", z3.And(t == z3.Concat(S("undefined"), COUNT(n0)), now == n0 + 1))
    return run_


for _n in (True, False):
    for _t in (True, False):
        REG.append(Task("makechunk, %s, %s" % ("a name" if _n else "no name", "a type" if _t else "no type"), make(_n, _t), [MC]))


# ------------------------------------------------------------------ chunkstring
CS = CH + "chunkstring"


class Dictionary(Model):
    pyclass = dict


def forward(E, parsed, log):
    """Contracts of createchunkdict and makechunk (above) for their callers."""
    refuse = lambda: engine.PyExc(cls(E, "pyactr.utilities.ACTRError"), ["refused"])

    def read(E, a, k):
        x = E.bind(F(E, CCD), a, k)["chunk"]
        if E.branch(E.fresh("refused", L.B)):
            log.append(("refused", x))
            raise refuse()
        t, d = string(E, "type"), Dictionary()
        log.append(("read", x, t, d))
        return (t, d)

    def make_(E, a, k):
        d = k.pop("**", None)
        env = dict(zip(("nameofchunk", "typename"), a))
        env.update(k)
        if set(env) - {"nameofchunk", "typename"}:
            raise Unsupported("further slots")
        if E.branch(E.fresh("makingfails", L.B)):
            log.append(("refused", d))
            raise refuse()
        o = lib.chunk_obj(E, E.fresh("newchunk", L.I))
        log.append(("made", env.get("nameofchunk", ""), env.get("typename", ""), d, o))
        return o
    E.contracts[CCD] = read
    E.contracts[MC] = make_


@task(REG, "chunkstring", [CS])
def chunk_string(E):
    setup(E)
    nm, text = string(E, "name"), string(E, "text")
    parsed = Model()
    parsed.num = 0
    log = []
    forward(E, parsed, log)
    asked = []
    reader = Model()

    def parse(E, s, *a, **k):
        asked.append((s, bool(k.get("parse_all", k.get("parseAll", a[0] if a else False)))))
        return parsed
    reader.m_parse_string = reader.m_parseString = parse
    E.contracts[UT + "getchunk"] = lambda E, a, k: reader
    E.cover("precondition satisfiable")
    ok, r = attempt(E, lambda: run(E, CS, [nm, text]))
    E.prove("the whole string is read", len(asked) == 1 and isinstance(asked[0][0], Sym) and asked[0][0].t.eq(text.t) and asked[0][1])
    if ok == "exc":
        E.prove("refused only if its parts are refused, by an ACTRError", is_exc(E, r, "ACTRError") and any(x[0] == "refused" for x in log))
        return
    E.prove("what is read is refused or a chunk is made of it", [x[0] for x in log] == ["read", "made"])
    if [x[0] for x in log] != ["read", "made"]:
        return
    (_, x, t, d), (_, n2, t2, d2, o) = log
    E.prove("the chunk has the slots and the type read, and the name given", z3.And(z3.BoolVal(x is parsed and d2 is d and o is r), E.str_term(t2) == t.t, E.str_term(n2) == nm.t))


# ------------------------------------------------------------------ rule strings
PS = "pyactr.model.ACTRModel.productionstring"
LEFT, RIGHT = ("=", "?"), ("?", "=", "+", "!", "~", "@", "*")


class Part26(Model):
    """The slots written after one buffer, any number."""
    pyclass = list

    def __init__(self, E, num):
        super().__init__()
        self.num = num
        self.S, self.W = z3.Function("rule_slot", L.I, L.I, L.S), z3.Function("rule_word", L.I, L.I, L.S)
        self.n = z3.Function("rule_nslots", L.I, L.I)(num)
        E.fact(self.n >= 0)

    def m___len__(self, E):
        return Sym(self.n)

    def truth(self, E):
        return E.branch(self.n > 0)

    def iterate(self, E):
        sq = SeqV(self.n, lambda j: ListV([Sym(self.S(self.num, j)), Sym(self.W(self.num, j))]), tag="query parts")

        def as_dict(elem):
            j = E.fresh("j", L.I)
            E.assume(z3.And(j >= 0, j < self.n))
            k, v = elem(j)
            E.prove("each slot of a query has the word written after it", z3.And(lib.val_term(E, k) == Val.vstr(self.S(self.num, j)), lib.val_term(E, v) == Val.vstr(self.W(self.num, j))))
            return Words(self)
        sq.as_dict = as_dict
        return sq


class Words(Model):
    pyclass = dict

    def __init__(self, of):
        super().__init__()
        self.of = of


class Entries(Model):
    """One side of a rule after some of its entries."""
    pyclass = dict

    def __init__(self, side, i):
        super().__init__()
        self.side, self.i, self.log = side, i, []

    def m___setitem__(self, E, k, v):
        E.write(self, "d")
        self.log.append((E.str_term(k), v))


class Side26:
    def __init__(self, E, name, signs, base):
        self.name, self.signs, self.base = name, signs, base
        self.n = E.fresh("n" + name, L.I)
        E.assume(self.n >= 0)
        self.SIGN, self.BUF = z3.Function("sign_" + name, L.I, L.I), z3.Function("buffer_" + name, L.I, L.S)
        self.cur = None

    def elem(self, E, i):
        k = E.choose(len(self.signs), "sign")
        E.assume(self.SIGN(i) == k)
        p = Part26(E, i * 2 + self.base)
        self.cur = (i, self.signs[k], p)
        return ListV([self.signs[k], Sym(self.BUF(i)), ">", p])

    def seq(self, E):
        return SeqV(self.n, lambda i: self.elem(E, i), tag=self.name)


class Filling(LoopSpec):
    def __init__(self, side, log):
        self.side, self.log = side, log
        self.name = "entries, " + side.name

    def heap_inject(self, E, i):
        del self.log[:]

    def modifies(self, E):
        return []

    def roles(self, E):
        sd = self.side

        def check(E, i, v):
            if isinstance(v, DictV):
                return not v.pairs and (i is None or z3.is_int_value(i))
            if not isinstance(v, Entries) or v.side is not sd or sd.cur is None:
                return False
            if len(v.log) != 1:
                return False
            k, x = v.log[0]
            j, sign, p = sd.cur
            key = k == z3.Concat(S(sign), sd.BUF(j))
            if sign == "?":
                ok = isinstance(x, Words) and x.of is p
            elif sign == "~":
                ok = x is None
            elif sign == "!":
                ok = x is p
            else:
                ok = [y[0] for y in self.log] == ["read", "made"] and self.log[0][1] is p and self.log[1][2] is self.log[0][2] and self.log[1][3] is self.log[0][3] and self.log[1][4] is x
                ok = ok and self.log[1][1] == ""
            return z3.And(key, z3.BoolVal(bool(ok)))
        return [Role("lhs" if sd.name == "left" else "rhs", lambda E, i: Entries(sd, i), check)]


@task(REG, "productionstring", [PS])
def rule_string(E):
    setup(E)
    nm, text = string(E, "name"), string(E, "text")
    E.assume(z3.Length(nm.t) > 0)
    u, rw = real(E, "utility"), real(E, "reward")
    sides = [Side26(E, "left", LEFT, 0), Side26(E, "right", RIGHT, 1)]
    log = []
    forward(E, None, log)
    asked = []
    reader = Model()

    def parse(E, s, *a, **k):
        asked.append((s, bool(k.get("parse_all", k.get("parseAll", a[0] if a else False)))))
        return ListV([sides[0].seq(E), "==>", sides[1].seq(E)])
    reader.m_parse_string = reader.m_parseString = parse
    E.contracts[UT + "getrule"] = lambda E, a, k: reader
    for sd in sides:
        E.loops[sd.name] = (lambda sd: lambda E, fr, seq: Filling(sd, log))(sd)

    class Rules(Model):
        pyclass = dict
        d = None

        def m_update(self, E, x):
            if self.d is not None or not isinstance(x, DictV) or len(x.pairs) != 1:
                raise Unsupported("what is stored")
            self.d = tuple(x.pairs[0])

        def m___setitem__(self, E, k, v):
            self.m_update(E, DictV([[k, v]]))

        def m___getitem__(self, E, k):
            if self.d is None or not self.d[0] is k:
                raise Unsupported("rule asked for")
            return self.d[1]
    rules = Rules()
    m = new(E, "pyactr.model.ACTRModel", productions=rules)
    E.cover("precondition satisfiable")
    r = run(E, PS, [m, nm, text, u, rw])
    E.prove("the whole string is read", len(asked) == 1 and isinstance(asked[0][0], Sym) and asked[0][0].t.eq(text.t) and asked[0][1])
    E.prove("one rule is stored under its name", rules.d is not None and rules.d[0] is nm)
    if rules.d is None or not isinstance(rules.d[1], DictV):
        return
    d = {k: v for k, v in rules.d[1].pairs}
    E.prove("with its utility and its reward", set(d) == {"rule", "utility", "reward"} and z3.And(T(E, d["utility"]) == u.t, T(E, d["reward"]) == rw.t))
    E.prove("and returned", r is rules.d[1])
    ok, x = attempt(E, lambda: drive(E, E.call(d["rule"], [], {})))
    if ok == "exc":
        E.prove("refused only if a chunk is refused, by an ACTRError", is_exc(E, x, "ACTRError") and any(y[0] == "refused" for y in log))
        return
    out = [v for v, _ in x[0]]
    E.prove("the rule gives its two sides", len(out) == 2)
    if len(out) != 2:
        return
    for v, sd in zip(out, sides):
        E.prove("the %s side has the entries written there" % sd.name, isinstance(v, Entries) and v.side is sd and (v.i is sd.n or v.i.eq(sd.n)))
