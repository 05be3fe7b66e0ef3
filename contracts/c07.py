"""C07: declarative memory records every presentation of a chunk."""
from .common import *

PROPERTY = "C07"
REG = []
DM = "pyactr.declarative.DecMem."
FNS = [DM + "add", DM + "__setitem__", DM + "__getitem__", DM + "__contains__"]
ASSUME = ["C07: equal chunks are one key of the memory (C02); the counters used for spreading activation are those of C09 (empty here)"]


def key(E, k):
    if isinstance(k, (ListV, DictV)) or isinstance(k, SetV) and not k.frozen or isinstance(k, SeqV) and k.pyclass in (list, set) or isinstance(k, Model) and k.pyclass in (list, set, dict):
        raise engine.bexc("TypeError", "unhashable type")
    if isinstance(k, ObjV) and k.cls is lib.chunk_cls(E):
        return lib.cid_of(E, k)
    return None


class Traces(Model):
    """Any mapping from chunks to presentations: n chunks CH(0..n-1); NT(c) presentations TR(c)(0..) each."""
    pyclass = dict

    def __init__(self, E, pre="", like=None, has=None, num=None, tr=None):
        super().__init__()
        if like is None:
            self.n = E.fresh("memsize", L.I)
            E.assume(self.n >= 0)
            self.CH, self.POS = E.fresh_fn("memchunk", L.I, L.I), E.fresh_fn("memindex", L.I, L.I)
            NT, TR = E.fresh_fn("npresentations", L.I, L.I), E.fresh_fn("presentation", L.I, L.I, L.R)
            self.has0 = lambda c: z3.And(self.POS(c) >= 0, self.POS(c) < self.n, self.CH(self.POS(c)) == c)
            self.num0 = lambda c: z3.If(NT(c) > 0, NT(c), 0)
            self.tr0 = lambda c, k: TR(c, k)
        else:
            self.n, self.CH, self.POS, self.has0, self.num0, self.tr0 = like.n, like.CH, like.POS, like.has0, like.num0, like.tr0
        if has is not None:
            self.has0, self.num0, self.tr0 = has, num, tr
        self.over = []          # (chunk id, presentations or None when deleted), oldest first

    # the mapping as terms, for the specification
    def has(self, c):
        r = self.has0(c)
        for d, v in self.over:
            r = z3.If(d == c, z3.BoolVal(v is not None), r)
        return r

    def num(self, c):
        r = self.num0(c)
        for d, v in self.over:
            if v is not None:
                r = z3.If(d == c, v.n, r)
        return r

    def tr(self, c, k):
        r = self.tr0(c, k)
        for d, v in self.over:
            if v is not None:
                r = z3.If(d == c, v.a(k), r)
        return r

    # Python's view
    def m___contains__(self, E, k):
        c = key(E, k)
        return Sym(self.has(c)) if c is not None else False

    def m___getitem__(self, E, k):
        c = key(E, k)
        if c is None or not E.branch(self.has(c)):
            raise engine.bexc("KeyError", k)
        n = E.fresh("n", L.I)
        E.assume(n == self.num(c))
        snap = list(self.over)
        now = Traces(E, like=self)
        now.over = snap
        return NdArr(n, lambda q: now.tr(c, q))

    def m_get(self, E, k, default=None):
        c = key(E, k)
        if c is not None and E.branch(self.has(c)):
            return self.m___getitem__(E, k)
        return default

    def m_setdefault(self, E, k, default=None):
        c = key(E, k)
        if c is not None and E.branch(self.has(c)):
            return self.m___getitem__(E, k)
        self.m___setitem__(E, k, default)
        return default

    def m___setitem__(self, E, k, v):
        c = key(E, k)
        E.write(self, "traces")
        E.prove("only chunks are stored, each with an array of presentations", z3.BoolVal(c is not None and isinstance(v, NdArr) and v.mask is None))
        if c is None or not isinstance(v, NdArr):
            raise PathEnd()
        self.over.append((c, v))

    def m___delitem__(self, E, k):
        c = key(E, k)
        if c is None or not E.branch(self.has(c)):
            raise engine.bexc("KeyError", k)
        E.write(self, "traces")
        self.over.append((c, None))

    def m_pop(self, E, k, *d):
        self.m___delitem__(E, k)

    def m_copy(self, E):
        t = Traces(E, like=self)
        t.over = list(self.over)
        return t

    def iterate(self, E):
        if self.over:
            raise Unsupported("iteration over a changed memory")
        return SeqV(self.n, lambda i: lib.chunk_obj(E, self.CH(i)), tag="memory")
    m_keys = iterate

    def m_items(self, E):
        return SeqV(self.n, lambda i: (lib.chunk_obj(E, self.CH(i)), self.m___getitem__(E, lib.chunk_obj(E, self.CH(i)))), tag="memory")

    def m___len__(self, E):
        if self.over:
            raise Unsupported("size of a changed memory")
        return Sym(self.n)


class Acts(Model):
    """Base activations: any mapping from chunks to numbers."""
    pyclass = dict

    def __init__(self, E, like=None):
        super().__init__()
        self.H, self.A = (E.fresh_fn("hasbase", L.I, L.B), E.fresh_fn("base", L.I, L.R)) if like is None else (like.H, like.A)
        self.over = [] if like is None else list(like.over)

    def has(self, c):
        r = self.H(c)
        for d, v in self.over:
            r = z3.If(d == c, z3.BoolVal(True), r)
        return r

    def val(self, E, c):
        r = self.A(c)
        for d, v in self.over:
            r = z3.If(d == c, T(E, v), r)
        return r

    def m___contains__(self, E, k):
        c = key(E, k)
        return Sym(self.has(c)) if c is not None else False

    def m___setitem__(self, E, k, v):
        c = key(E, k)
        E.write(self, "activations")
        self.over.append((c if c is not None else z3.IntVal(-1), v))

    def m___getitem__(self, E, k):
        return Sym(self.val(E, key(E, k)))

    def m_copy(self, E):
        return Acts(E, like=self)


def pointwise(E, new, has, num, tr, what):
    """new is the mapping (has, num, tr)"""
    d, k = E.fresh("anychunk", L.I), E.fresh("k", L.I)
    E.prove(what, z3.And(new.has(d) == has(d), z3.Implies(new.has(d), z3.And(new.num(d) == num(d), z3.Implies(z3.And(0 <= k, k < num(d)), new.tr(d, k) == tr(d, k))))))


def memory(E):
    dm = decmem(E)
    dm.attrs["_data"] = Traces(E)
    dm.attrs["activations"] = Acts(E)
    return dm


def data(E, dm):
    d = dm.attrs["_data"]
    if not isinstance(d, Traces):
        raise Unsupported("the traces of the memory are %r" % (d,))
    return d


def unchanged(E, dm, old, acts, what):
    pointwise(E, data(E, dm), old.has, old.num, old.tr, what + ": the memory is unchanged")
    same_acts(E, dm, acts, what)


def same_acts(E, dm, acts, what):
    d = E.fresh("anychunk", L.I)
    a = dm.attrs["activations"]
    if isinstance(a, DictV) and not a.pairs:
        E.prove(what + ": base activations are unchanged", z3.Not(acts.has(d)))
        return
    if not isinstance(a, Acts):
        raise Unsupported("the base activations are %r" % (a,))
    E.prove(what + ": base activations are unchanged", z3.And(a.has(d) == acts.has(d), z3.Implies(a.has(d), a.val(E, d) == acts.val(E, d))))


def before(E, dm):
    return data(E, dm).m_copy(E), Acts(E, like=dm.attrs["activations"])


def append(o, c, m, at):
    """the mapping o with presentations at(0..m-1) appended to chunk c"""
    n0 = lambda d: z3.If(o.has(d), o.num(d), 0)
    return (lambda d: z3.Or(d == c, o.has(d)), lambda d: z3.If(d == c, n0(d) + m, o.num(d)),
            lambda d, k: z3.If(z3.And(d == c, k >= n0(d)), at(k - n0(d)), o.tr(d, k)))


def a_time(E):
    """-> argument, number of presentations, k -> presentation"""
    w = E.choose(5, "time given")
    if w == 0:
        t = real(E, "time")
        return t, 1, lambda k: L.ROUND(t.t, 4)
    if w == 1:
        return None, 1, lambda k: L.ROUND(z3.RealVal(0), 4)
    n, f = E.fresh("ntimes", L.I), E.fresh_fn("times", L.I, L.R)
    E.assume(n >= 0)
    if w == 2:
        return NdArr(n, lambda k: f(k)), n, f
    if w == 3:
        return SeqV(n, lambda k: Sym(f(k)), tag="times", pyclass=list), n, f
    return (real(E, "t1"), real(E, "t2")), None, None


@task(REG, "adding a chunk", FNS)
def add(E):
    dm = memory(E)
    old, acts = before(E, dm)
    c = chunk(E, "chunk")
    t, m, at = a_time(E)
    if m is None:
        m, at = 2, lambda k: z3.If(k == 0, t[0].t, t[1].t)
    E.assume(L.ROUND(z3.RealVal(0), 4) == 0)
    E.cover("precondition satisfiable")
    run(E, DM + "add", [dm, c] + ([t] if t is not None else []))
    pointwise(E, data(E, dm), *append(old, lib.cid_of(E, c), m, at), "the presentations are appended, nothing else changes")
    same_acts(E, dm, acts, "adding")
    # what is read back
    got = run(E, DM + "__getitem__", [dm, c])
    k = E.fresh("k", L.I)
    cc = lib.cid_of(E, c)
    n0 = z3.If(old.has(cc), old.num(cc), 0)
    E.prove("the presentations of the chunk are read back", z3.And(got.n == n0 + m, z3.Implies(z3.And(k >= n0, k < n0 + m), got.a(k) == at(k - n0)), z3.Implies(z3.And(k >= 0, k < n0), got.a(k) == old.tr(cc, k))))
    E.prove("the chunk is in the memory", b(eqv(E, run(E, DM + "__contains__", [dm, c]), True)))


@task(REG, "adding chunks", FNS)
def add_many(E):
    dm = memory(E)
    old, acts = before(E, dm)
    form = E.choose(3, "list, tuple or set")
    n, f = E.fresh("nelements", L.I), E.fresh_fn("element", L.I, L.I)
    E.assume(n >= 0)
    elements = SeqV(n, lambda i: lib.chunk_obj(E, f(i)), tag="elements", pyclass=[list, tuple, set][form])
    t, m, at = a_time(E)
    if m is None:
        m, at = 2, lambda k: z3.If(k == 0, t[0].t, t[1].t)
    E.assume(L.ROUND(z3.RealVal(0), 4) == 0)
    AH, AN, AT = z3.ArraySort(L.I, L.B), z3.ArraySort(L.I, L.I), z3.ArraySort(L.I, z3.ArraySort(L.I, L.R))
    mt = data(E, dm)
    # after i elements: which chunks are stored, how many presentations, which
    ADDED = E.fresh_fn("added", L.I, L.I, L.I)      # (i, c): how often c is among the first i elements
    count = lambda c: ADDED(n, c)

    def state(i):
        n0 = lambda d: z3.If(old.has(d), old.num(d), 0)
        rep = (lambda k: k % m) if not z3.is_expr(m) else None
        return (lambda d: z3.Or(ADDED(i, d) > 0, old.has(d)), lambda d: z3.If(ADDED(i, d) > 0, n0(d) + NADD(i, d), old.num(d)),
                lambda d, k: z3.If(z3.And(ADDED(i, d) > 0, k >= n0(d)), PRES(d, k - n0(d)), old.tr(d, k)))
    # presentation number q of the added ones is at(q mod m): by its definition on the block of each addition
    NADD, PRES = E.fresh_fn("nadded", L.I, L.I, L.I), E.fresh_fn("presadded", L.I, L.I, L.R)

    class Spec(LoopSpec):
        name = "elements"

        @property
        def modifies(self):
            return ((mt.uid, "traces"), (mt.uid, "items"))

        def heap_inject(self, E, i):
            mt.over = []
            mt.has0, mt.num0, mt.tr0 = state(i)

        def unfold(self, E, i):
            self.i = i

        def step(self, E, i, d, k):
            """the definition of the state after element i, for chunk d and position k"""
            c = f(i)
            q = k - z3.If(old.has(d), old.num(d), 0)
            E.assume(ADDED(i, d) >= 0)
            E.assume(z3.Implies(ADDED(i, d) == 0, NADD(i, d) == 0))
            E.assume(NADD(i, d) >= 0)
            E.assume(ADDED(i + 1, d) == ADDED(i, d) + z3.If(d == c, 1, 0))
            E.assume(NADD(i + 1, d) == NADD(i, d) + z3.If(d == c, m, 0))
            E.assume(z3.Implies(z3.And(d == c, q >= NADD(i, d), q < NADD(i, d) + m), PRES(d, q) == at(q - NADD(i, d))))

        def heap_check(self, E, i):
            d, k = E.fresh("anychunk", L.I), E.fresh("k", L.I)
            if z3.is_int_value(i):
                E.assume(z3.And(ADDED(0, d) == 0, NADD(0, d) == 0))
                now = dm.attrs["_data"]
                ok = now is mt
            else:
                self.step(E, z3.simplify(i - 1), d, k)
                ok = dm.attrs["_data"] is mt
            h, nn, tt = state(i)
            return [("each element so far got its presentations", z3.And(z3.BoolVal(ok), mt.has(d) == h(d), z3.Implies(mt.has(d), z3.And(mt.num(d) == nn(d), z3.Implies(z3.And(0 <= k, k < nn(d)), mt.tr(d, k) == tt(d, k))))))]

    E.loops["elements"] = lambda E, fr, seq: Spec()
    E.cover("precondition satisfiable")
    run(E, DM + "add", [dm, elements] + ([t] if t is not None else []))
    pointwise(E, data(E, dm), *state(n), "every element gets the presentations, in order")
    same_acts(E, dm, acts, "adding")


@task(REG, "assigning presentations", FNS)
def assign(E):
    dm = memory(E)
    old, acts = before(E, dm)
    c = chunk(E, "chunk")
    cc = lib.cid_of(E, c)
    t, m, at = a_time(E)
    if t is None:
        t = 0
    elif m is None:
        m, at = 2, lambda k: z3.If(k == 0, t[0].t, t[1].t)
    E.assume(L.ROUND(z3.RealVal(0), 4) == 0)
    run(E, DM + "__setitem__", [dm, c, t])
    pointwise(E, data(E, dm), lambda d: z3.Or(d == cc, old.has(d)), lambda d: z3.If(d == cc, m, old.num(d)), lambda d, k: z3.If(d == cc, at(k), old.tr(d, k)), "the chunk has the presentations given, other chunks are untouched")
    same_acts(E, dm, acts, "assigning")


@task(REG, "deleting a chunk", [DM + "__delitem__"])
def delete(E):
    dm = memory(E)
    old, acts = before(E, dm)
    c = chunk(E, "chunk")
    cc = lib.cid_of(E, c)
    how, r = attempt(E, lambda: run(E, DM + "__delitem__", [dm, c]))
    if how == "exc":
        E.prove("only an unknown chunk cannot be deleted", z3.And(z3.BoolVal(is_exc(E, r, "KeyError")), z3.Not(old.has(cc))))
        return
    pointwise(E, data(E, dm), lambda d: z3.And(d != cc, old.has(d)), old.num, old.tr, "exactly this chunk is deleted")


@task(REG, "only chunks", FNS)
def refuse(E):
    dm = memory(E)
    old, acts = before(E, dm)
    x = [5, string(E, "s"), "word", None, (1, 2), ListV(["ab"]), real(E, "r")][E.choose(7, "not a chunk")]
    t = [real(E, "time"), ListV([real(E, "t1")])][E.choose(2, "time")]
    fn = ["add", "__setitem__"][E.choose(2, "function")]
    if isinstance(x, Sym) and fn == "add" and x.t.sort() == L.S:
        return
    how, r = attempt(E, lambda: run(E, DM + fn, [dm, x, t]))
    E.prove("what is no chunk is refused", z3.BoolVal(how == "exc" and (is_exc(E, r, "ACTRError") or isinstance(x, ListV) and fn == "__setitem__")))
    unchanged(E, dm, old, acts, "refused")


@task(REG, "base activations", [DM + "add_activation"])
def activation(E):
    dm = memory(E)
    old, acts = before(E, dm)
    c = chunk(E, "chunk")
    cc = lib.cid_of(E, c)
    v = real(E, "activation")
    how, r = attempt(E, lambda: run(E, DM + "add_activation", [dm, c, v]))
    pointwise(E, data(E, dm), old.has, old.num, old.tr, "presentations are unchanged")
    d = E.fresh("anychunk", L.I)
    a = dm.attrs["activations"]
    if how == "exc":
        E.prove("only the activation of a chunk that is not stored is refused", z3.And(z3.Not(old.has(cc)), z3.BoolVal(not a.over)))
        return
    E.prove("the activation of a chunk that is not stored is refused", old.has(cc))
    E.prove("exactly the base activation of the chunk is set", z3.And(a.has(d) == z3.Or(d == cc, acts.has(d)), z3.Implies(a.has(d), a.val(E, d) == z3.If(d == cc, v.t, acts.val(E, d)))))


@task(REG, "copying a memory", [DM + "copy", DM + "__init__"] + FNS)
def copying(E):
    dm = memory(E)
    old, acts = before(E, dm)
    src = data(E, dm)

    class Spec(LoopSpec):
        name = "copied chunks"

        def __init__(self, obj):
            self.obj = obj

        @property
        def modifies(self):
            return ((self.obj.uid, "_data"), (self.obj.attrs["_data"].uid, "*"), (self.obj.attrs["_data"].uid, "traces"), (self.obj.attrs["_data"].uid, "items"))

        def unfold(self, E, i):
            E.assume(old.POS(old.CH(i)) == i)

        def prefix(self, i):
            return lambda d: z3.And(old.has(d), old.POS(d) < i)

        def heap_inject(self, E, i):
            self.obj.attrs["_data"] = Traces(E, like=old, has=self.prefix(i), num=old.num, tr=old.tr)

        def heap_check(self, E, i):
            v = self.obj.attrs["_data"]
            if z3.is_int_value(i):
                return [("a new memory is empty", z3.BoolVal(isinstance(v, DictV) and not v.pairs))]
            d, k = E.fresh("anychunk", L.I), E.fresh("k", L.I)
            if not isinstance(v, Traces):
                return [("the chunks so far are copied", z3.BoolVal(False))]
            return [("the chunks so far are copied", z3.And(v.has(d) == self.prefix(i)(d), z3.Implies(v.has(d), z3.And(v.num(d) == old.num(d), z3.Implies(z3.And(0 <= k, k < old.num(d)), v.tr(d, k) == old.tr(d, k))))))]

    def factory(E, fr, seq):
        for o in fr.locals.values():
            if isinstance(o, ObjV) and o is not dm and isinstance(o.attrs.get("_data"), DictV):
                return Spec(o)
        return None
    E.loops["memory"] = factory
    E.cover("precondition satisfiable")
    new_ = run(E, DM + "copy", [dm])
    if isinstance(data_of(new_), DictV):
        E.prove("an empty memory has an empty copy", z3.BoolVal(False))
        return
    E.prove("the copy is another memory", z3.BoolVal(new_ is not dm and isinstance(new_, ObjV)))
    unchanged(E, dm, old, acts, "copying")
    unchanged(E, new_, old, acts, "the copy")
    # later changes of one of the two
    a, o = (new_, dm) if E.choose(2, "which is changed") else (dm, new_)
    c = chunk(E, "later")
    t = [real(E, "time"), ListV([real(E, "t1"), real(E, "t2")])][E.choose(2, "times")]
    what = E.choose(3, "change")
    if what == 0:
        run(E, DM + "add", [a, c, t])
    elif what == 1:
        attempt(E, lambda: run(E, DM + "add_activation", [a, c, real(E, "act")]))
    else:
        attempt(E, lambda: run(E, DM + "__delitem__", [a, c]))
    unchanged(E, o, old, acts, "a change of the other memory")


def data_of(dm):
    return dm.attrs["_data"]


@task(REG, "a memory made of data", [DM + "__init__"] + FNS, bounded="two chunks with two slots each")
def construct(E):
    cs = [E.instantiate(cls(E, "pyactr.chunks.Chunk"), ["t"], dict(a="x", b="y%d" % i)) for i in range(2)]
    E.assume(z3.Not(b(lib.eqf(E, cs[0], cs[1], True))))
    E.assume(L.ROUND(z3.RealVal(0), 4) == 0)
    form = E.choose(5, "data")
    t1, t2 = real(E, "t1"), real(E, "t2")
    times = [(0,), (0,)]
    if form < 3:
        d = [ListV, tuple, SetV][form](cs)
    elif form == 3:
        d, times = DictV([[cs[0], t1], [cs[1], ListV([t1, t2])]]), None
    else:
        d = None
    dm = E.instantiate(cls(E, "pyactr.declarative.DecMem"), [d] if d is not None else [], {})
    items = dm.attrs["_data"].pairs
    if d is None:
        E.prove("a new memory is empty", z3.BoolVal(len(items) == 0))
        return
    ok = len(items) == 2 and all(any(same(E, k, c) for k, v in items) for c in cs) and all(isinstance(v, NdArr) for k, v in items)
    E.prove("the memory holds exactly the chunks given", z3.BoolVal(ok))
    if not ok:
        return
    for c, want in zip(cs, [[t1], [t1, t2]] if times is None else times):
        v = [v for k, v in items if same(E, k, c)][0]
        E.prove("presentations as given, 0 if none", conj(v.n == len(want), *[v.a(z3.IntVal(j)) == (T(E, w) if len(want) > 1 else L.ROUND(T(E, w), 4)) for j, w in enumerate(want)]))
