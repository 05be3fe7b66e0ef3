"""C09: spreading activation follows source weights and fan."""
from .cbv import *
from pyvc.models import MapDict

PROPERTY = "C09"
REG = []
UT = "pyactr.utilities."
ASSUME = ["C09: equal chunks are one key of the counters (C02); a value is not the empty string; the number of sources of a chunk and the number of them that hold a value are those of the dictionary find_chunks returns (proved to hold exactly the filled slots), logarithms satisfy ln(a/b) = ln a - ln b",
          "C09: every buffer named in buffer_spreading_activation is a buffer of the model (otherwise KeyError)"]
FC = UT + "find_chunks"
CSA = UT + "calculate_strength_association"


def value(c, s):
    return SV.vals(L.SLOT(c, s))


def filled(c, s, only):
    """slot s of chunk c is a source"""
    t = L.SLOT(c, s)
    v = SV.vals(t)
    f = z3.And(L.HASN(c, s), SV.is_sv(t), z3.Not(L.nil(v)), z3.Not(L.nonestr(v)))
    return z3.And(f, z3.Not(Val.is_vstr(v))) if only else f


def sources(only):
    def run_(E):
        c = E.fresh("chunk", L.I)
        s = E.fresh("slot", L.S)
        abschunk.name_fact(E, c, s)
        setup(E)

        class Slots(LoopSpec):
            name = "slots of the chunk"
            modifies = ()

            def roles(self, E):
                return [Role("chunk_dict", lambda E, i: MapDict(lambda t: z3.And(filled(c, t, only is not False), abschunk.IDX(c, t) < i), lambda t: lib.mkval(E, value(c, t)), None),
                             lambda E, i, v: self.check(E, i, v))]

            def unfold(self, E, i):
                abschunk.at_fact(E, c, i)

            def check(self, E, i, v):
                if type(v).__name__ != "MapDict" and not isinstance(v, DictV):
                    return False
                want = z3.And(filled(c, s, only is not False), abschunk.IDX(c, s) < i)
                h = lib.fml(E, lib.contains(E, v, Sym(s)))
                h = z3.BoolVal(h) if isinstance(h, bool) else h
                if isinstance(v, DictV) and not v.pairs:
                    return z3.Not(want)
                return z3.And(h == want, z3.Implies(want, lib.val_term(E, v.get(s)) == value(c, s)))
        E.loops[("chunk", c)] = lambda E, fr, seq: Slots()
        E.cover("precondition satisfiable")
        st, r = attempt(E, lambda: run(E, FC, [lib.chunk_obj(E, c)] + ([] if only is None else [only])))
        E.prove("no error", st == "ok")
        if st != "ok":
            return
        h = lib.fml(E, lib.contains(E, r, Sym(s)))
        E.prove("exactly the filled slots are sources", h == filled(c, s, only is not False))
        E.prove("the source is the value of the slot", z3.Implies(h, lib.val_term(E, r.get(s)) == value(c, s)))
    return run_


for _o in (None, True, False):
    REG.append(Task("sources of a chunk, chunks only: %s" % _o, sources(_o), [FC]))


# ------------------------------------------------------------------ the association strength
NSRC = z3.Function("NSOURCES", L.I, L.B, L.I)                  # number of sources of a chunk (chunks only or not)
SRCN = z3.Function("SOURCENAME", L.I, L.B, L.I, L.S)
NHOLD = z3.Function("NHOLDING", L.I, L.B, Val, L.I)            # how many of its sources hold the value
SPOS = z3.Function("SOURCEPOS", L.I, L.B, L.S, L.I)


def KEY(v):
    return z3.If(Val.is_vchk(v), Val.vchk(L.CANON(Val.c(v))), v)


class Sources(Model):
    """Contract of find_chunks: the filled slots of a chunk and their values (proved in the tasks above)."""
    pyclass = dict

    def __init__(self, E, c, only):
        super().__init__()
        self.c, self.only = c, only
        E.fact(NSRC(c, only) >= 0)

    def f(self, E, s):
        abschunk.name_fact(E, self.c, s)
        t = L.SLOT(self.c, s)
        v = SV.vals(t)
        E.fact(z3.Implies(self.filled(s), NHOLD(self.c, self.only, KEY(v)) > 0))
        return self.filled(s)

    def filled(self, s):
        t = L.SLOT(self.c, s)
        v = SV.vals(t)
        return z3.And(L.HASN(self.c, s), SV.is_sv(t), z3.Not(L.nil(v)), z3.Not(L.nonestr(v)), z3.Or(z3.Not(self.only), z3.Not(Val.is_vstr(v))))

    def held(self, E, v):
        n = NHOLD(self.c, self.only, KEY(v))
        E.fact(n >= 0)
        return n

    def name(self, E, i):
        s = SRCN(self.c, self.only, i)
        E.fact(z3.Implies(z3.And(i >= 0, i < NSRC(self.c, self.only)), z3.And(self.filled(s), SPOS(self.c, self.only, s) == i, z3.Length(s) > 0)))
        self.f(E, s)
        return s

    def val(self, E, s):
        return lib.mkval(E, value(self.c, s))

    def iterate(self, E):
        s = SeqV(NSRC(self.c, self.only), lambda i: Sym(self.name(E, i)), tag=("sources", self.c))
        s.contains = lambda E, x: self.f(E, E.str_term(x))
        return s
    m_keys = iterate

    def m_items(self, E):
        s = SeqV(NSRC(self.c, self.only), lambda i: (Sym(self.name(E, i)), self.val(E, self.name(E, i))), tag=("sources", self.c))
        s.contains = lambda E, p: z3.And(self.f(E, E.str_term(p[0])), L.valeq(value(self.c, E.str_term(p[0])), lib.val_term(E, p[1])))
        return s

    def m_values(self, E):
        s = SeqV(NSRC(self.c, self.only), lambda i: self.val(E, self.name(E, i)), tag=("sources", self.c))
        s.contains = lambda E, v: self.held(E, lib.val_term(E, v)) > 0
        s.count = lambda E, v: Sym(self.held(E, lib.val_term(E, v)))
        return s

    def m___contains__(self, E, k):
        return Sym(self.f(E, E.str_term(k)))

    def m___getitem__(self, E, k):
        t = E.str_term(k)
        if not E.branch(self.f(E, t)):
            raise engine.bexc("KeyError", k)
        return self.val(E, t)

    def m_get(self, E, k, d=None):
        t = E.str_term(k)
        return self.val(E, t) if E.branch(self.f(E, t)) else d

    def m___len__(self, E):
        return Sym(NSRC(self.c, self.only))


def flag(E, v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, Sym) and z3.is_bool(v.t):
        return v.t
    raise Unsupported("flag %r" % (v,))


def install_sources(E):
    def con(E, args, kwargs):
        env = E.bind(F(E, FC), args, kwargs)
        return Sources(E, cid(E, env["chunk"]), flag(E, env["only_chunks"]))
    E.contracts[FC] = con


def it(v):
    return z3.IntVal(v) if isinstance(v, int) else v.t


class Cache(Model):
    """A counter from values (or pairs of slot name and value) to numbers."""
    import collections as _c
    pyclass = _c.Counter

    def __init__(self, E, nm, pairs):
        super().__init__()
        srt = [L.S, Val] if pairs else [Val]
        self.pairs = pairs
        self.H, self.N = E.fresh_fn(nm + "_has", *srt, L.B), E.fresh_fn(nm + "_n", *srt, L.I)
        self.has = lambda *k: self.H(*k)
        self.n = lambda *k: self.N(*k)
        self.none = E.fresh(nm + "_empty", L.B)        # it is empty

    def key(self, E, k):
        if self.pairs:
            if not isinstance(k, tuple) or len(k) != 2:
                raise Unsupported("key of the cache %r" % (k,))
            r = (E.str_term(k[0]), KEY(lib.val_term(E, k[1])))
        else:
            r = (KEY(lib.val_term(E, k)),)
        E.fact(z3.Implies(self.none, z3.Not(self.H(*r))))
        return r

    def truth(self, E):
        return not E.branch(self.none)

    def m___contains__(self, E, k):
        return Sym(self.has(*self.key(E, k)))

    def m___getitem__(self, E, k):
        t = self.key(E, k)
        return Sym(z3.If(self.has(*t), self.n(*t), 0))

    def m_get(self, E, k, d=None):
        t = self.key(E, k)
        return Sym(self.n(*t)) if E.branch(self.has(*t)) else d

    def put(self, E, t, n):
        E.write(self, "cache")
        h0, n0 = self.has, self.n
        self.none = z3.And(self.none, h0(*t))
        hit = lambda k: z3.And(*[a == b for a, b in zip(k, t)])
        self.has = lambda *k: z3.Or(hit(k), h0(*k))
        self.n = lambda *k: z3.If(hit(k), n, n0(*k))

    def m___setitem__(self, E, k, v):
        self.put(E, self.key(E, k), it(v))

    def m_update(self, E, arg=None, **kw):
        if isinstance(arg, DictV):
            for k, v in arg.pairs:
                t = self.key(E, k)
                self.put(E, t, z3.If(self.has(*t), self.n(*t), 0) + it(v))
        elif isinstance(arg, (ListV, tuple)):
            for k in (arg.items if isinstance(arg, ListV) else arg):
                t = self.key(E, k)
                self.put(E, t, z3.If(self.has(*t), self.n(*t), 0) + 1)
        else:
            raise Unsupported("update of a cache with %r" % (arg,))

    def m_clear(self, E):
        E.write(self, "cache")
        self.has = lambda *k: z3.BoolVal(False)
        self.none = z3.BoolVal(True)

    def m_copy(self, E):
        c = Cache.__new__(Cache)
        Model.__init__(c)
        c.pairs, c.H, c.N, c.has, c.n, c.none = self.pairs, self.H, self.N, self.has, self.n, self.none
        return c


# number of slots that hold value v (slot s, in the restricted variant) among the first k slots of chunk c / in the first i chunks
HELD = z3.Function("HELD", L.I, L.B, L.S, Val, L.I, L.I)
FAN = z3.Function("FAN", L.B, L.S, Val, L.I, L.I)


class Mem(Model):
    """The contents of the memory: any number of chunks."""
    pyclass = dict

    def __init__(self, E):
        super().__init__()
        self.n = E.fresh("memsize", L.I)
        E.assume(self.n >= 0)
        self.CH = E.fresh_fn("memchunk", L.I, L.I)

    def iterate(self, E):
        return SeqV(self.n, lambda i: lib.chunk_obj(E, self.CH(i)), tag="memory")
    m_keys = iterate

    def m___len__(self, E):
        return Sym(self.n)


def holds_it(c, k, restricted, s, v):
    """slot k of chunk c holds value v (and is called s, in the restricted variant)"""
    nm = L.NAMEAT(c, k)
    t = L.SLOT(c, nm)
    return z3.And(SV.is_sv(t), z3.Not(L.nil(SV.vals(t))), L.valeq(SV.vals(t), v), z3.Or(z3.Not(restricted), nm == s))


def memory(E):
    dm = decmem(E)
    mem = Mem(E)
    dm.attrs["_data"] = mem
    U, Rr = Cache(E, "unrestricted", False), Cache(E, "restricted", True)
    dm.attrs["unrestricted_number_chunks"], dm.attrs["restricted_number_chunks"] = U, Rr
    return dm, mem, U, Rr


def a_value(E, nm, only):
    """a value that can be a source"""
    v = E.fresh(nm, Val)
    E.assume(z3.And(z3.Or(Val.is_vchk(v), Val.is_vstr(v)), z3.Not(L.nonestr(v)), z3.Implies(Val.is_vstr(v), z3.Length(Val.s(v)) > 0)))
    if only:
        E.assume(Val.is_vchk(v))
    return v


def count_loops(E, mem, RS, s, v):
    st = {}

    def fan(i):
        return FAN(RS, s, KEY(v), i)

    def held(c, k):
        return HELD(c, RS, s, KEY(v), k)

    class Outer(LoopSpec):
        name = "chunks of the memory"
        modifies = ()

        def base(self, E):
            E.assume(fan(z3.IntVal(0)) == 0)

        def unfold(self, E, i):
            st["i"] = i
            c = mem.CH(i)
            E.fact(L.NSLOTS(c) >= 0)
            E.assume(fan(i + 1) == fan(i) + held(c, L.NSLOTS(c)))
            E.fact(fan(i) >= 0)

        def roles(self, E):
            return [Role("slots_j", lambda E, i: Sym(st["from"] + fan(i)), self.check)]

        def check(self, E, i, x):
            if z3.is_int_value(i) and i.as_long() == 0 and isinstance(x, int) and not isinstance(x, bool):
                st["from"] = x          # what the count starts from
                return True
            return eqv(E, x, Sym(st.get("from", 1) + fan(i)))

    class Inner(LoopSpec):
        name = "slots of a chunk of the memory"
        modifies = ()

        def __init__(self, c):
            self.c = c

        def base(self, E):
            E.assume(held(self.c, z3.IntVal(0)) == 0)

        def unfold(self, E, k):
            abschunk.at_fact(E, self.c, k)
            E.assume(held(self.c, k + 1) == held(self.c, k) + z3.If(holds_it(self.c, k, RS, s, v), 1, 0))

        def now(self, k):
            return Sym(st["from"] + fan(st["i"]) + held(self.c, k))

        def roles(self, E):
            return [Role("slots_j", lambda E, k: self.now(k), lambda E, k, x: eqv(E, x, self.now(k)))]
    E.loops["memory"] = lambda E, fr, seq: Outer()
    E.loops["chunk"] = lambda E, fr, seq: Inner(seq.tag[1])
    return fan


def strength(restricted, only):
    def run_(E):
        setup(E)
        install_sources(E)
        dm, mem, U, Rr = memory(E)
        c = E.fresh("chunk", L.I)
        v = a_value(E, "value", only)
        S = real(E, "S")
        s = string(E, "slotname") if restricted else Sym(z3.StringVal(""))
        if restricted:
            E.assume(z3.Length(s.t) > 0)
        RS = z3.BoolVal(bool(restricted))
        fan = count_loops(E, mem, RS, s.t, v)
        C = Rr if restricted else U
        gv = a_value(E, "othervalue", False)
        gs = E.fresh("otherslot", L.S)
        k = lambda C, v_, s_: (s_, KEY(v_)) if C.pairs else (KEY(v_),)
        me = k(C, v, s.t)
        E.fact(z3.Implies(C.none, z3.Not(C.H(*me))))
        E.assume(z3.Implies(C.has(*me), C.n(*me) == 1 + fan(mem.n)))     # the invariant of the cache
        E.fact(fan(mem.n) >= 0)
        was = [(C_, C_.has(*k(C_, gv, gs)), C_.n(*k(C_, gv, gs))) for C_ in (U, Rr)]
        src = Sources(E, c, z3.BoolVal(only))
        E.cover("precondition satisfiable")
        args = [lib.mkval(E, v), lib.chunk_obj(E, c), dm, S] + ([s] if restricted else [[], [""]][E.choose(2, "unrestricted")])
        kw = {"only_chunks": only} if not only or E.choose(2, "said") else {}
        st, r = attempt(E, lambda: run(E, CSA, args, kw))
        E.prove("no error", st == "ok")
        if st != "ok":
            return
        n = src.held(E, v)
        same_ = z3.And(Val.is_vchk(v), L.CANON(Val.c(v)) == L.CANON(c))
        there = z3.And(src.f(E, s.t), L.valeq(value(c, s.t), v)) if restricted else z3.Or(same_, n > 0)
        x = z3.ToReal(1 + fan(mem.n)) / z3.ToReal(z3.If(n > 1, n, 1))
        a_, b_ = z3.ToReal(1 + fan(mem.n)), z3.ToReal(z3.If(n > 1, n, 1))
        E.fact(L.LOG(x) == L.LOG(a_) - L.LOG(b_))
        E.fact(L.LOG(b_ / a_) == -L.LOG(x))
        E.fact(L.LOG(z3.RealVal(1)) == 0)
        E.prove("the strength is S - ln(fan / slots of the chunk holding it), or 0 if the chunk neither is nor holds the value", lib.real_term(E, r) == z3.If(there, S.t - L.LOG(x), z3.RealVal(0)))
        E.prove("the cached number is the number of slots in memory that hold the value", z3.Implies(C.has(*me), C.n(*me) == 1 + fan(mem.n)))
        for C_, h, m in was:
            g = k(C_, gv, gs)
            E.prove("no other number is changed", z3.Or(z3.And(C_.has(*g) == h, z3.Implies(h, C_.n(*g) == m)), z3.And(*[a == b_ for a, b_ in zip(g, me)]) if C_ is C else z3.BoolVal(False)))
        E.prove("the memory is not changed", dm.attrs["_data"] is mem)
    return run_


for _r in (False, True):
    for _o in (True, False):
        REG.append(Task("association strength, %s, %s" % ("restricted to a slot" if _r else "unrestricted", "only chunks" if _o else "any value"), strength(_r, _o), [CSA, "pyactr.declarative.DecMem.__iter__"]))


@task(REG, "weight of a source", [UT + "weigh_buffer"])
def weigh(E):
    setup(E)
    install_sources(E)
    c, w = E.fresh("chunk", L.I), real(E, "weight")
    only = [None, True, False][E.choose(3, "only")]
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: run(E, UT + "weigh_buffer", [lib.chunk_obj(E, c), w] + ([] if only is None else [only])))
    E.prove("no error", st == "ok")
    if st != "ok":
        return
    n = NSRC(c, z3.BoolVal(only is not False))
    E.prove("the weight is divided by the number of sources", lib.real_term(E, r) == z3.If(n > 0, w.t / z3.ToReal(n), z3.RealVal(0)))


# ------------------------------------------------------------------ the sum over sources
STR = z3.Function("STRENGTH", Val, L.I, L.S, L.B, L.R, L.R)
WKJ = z3.Function("WEIGHTKJ", L.I, L.R, L.B, L.R)
SRCSUM = z3.Function("SOURCESUM", L.I, L.I, L.B, L.B, L.R, L.I, L.R)


@task(REG, "spreading_activation", [UT + "spreading_activation"])
def spread(E):
    setup(E)
    install_sources(E)
    dm = decmem(E)
    S = real(E, "S")
    m = E.fresh("nbuffers", L.I)
    E.assume(m >= 0)
    BN, W = E.fresh_fn("buffername", L.I, L.S), E.fresh_fn("weight", L.I, L.R)
    POS = E.fresh_fn("bufferindex", L.S, L.I)
    HAS, BC = E.fresh_fn("holdsachunk", L.S, L.B), E.fresh_fn("bufferchunk", L.S, L.I)
    me = E.fresh("chunk", L.I)
    restricted, only = [(False, True), (True, True), (False, False), (True, False)][E.choose(4, "variant")]
    O = z3.BoolVal(only)

    class Weights(Model):
        pyclass = dict

        def name(self, E, i):
            E.fact(z3.Implies(z3.And(i >= 0, i < m), POS(BN(i)) == i))
            return Sym(BN(i))

        def iterate(self, E):
            return SeqV(m, lambda i: self.name(E, i), tag="buffers")
        m_keys = iterate

        def m_items(self, E):
            return SeqV(m, lambda i: (self.name(E, i), Sym(W(i))), tag="buffers")

        def m___getitem__(self, E, k):
            t = E.str_term(k)
            i = POS(t)
            if not E.branch(z3.And(i >= 0, i < m, BN(i) == t)):
                raise engine.bexc("KeyError", k)
            return Sym(W(i))

        def m_get(self, E, k, d=None):
            return self.m___getitem__(E, k)

        def m___len__(self, E):
            return Sym(m)

    class Buffers(Model):
        pyclass = dict

        def m___getitem__(self, E, k):
            t = E.str_term(k)
            b_ = E.instantiate(cls(E, "pyactr.buffers.Buffer"), [dm], {})
            b_.attrs["_data"] = SetV([lib.chunk_obj(E, BC(t))]) if E.branch(HAS(t)) else SetV([])
            return b_

        def m_get(self, E, k, d=None):
            return self.m___getitem__(E, k)

        def m___contains__(self, E, k):
            return True

    def weight(E, args, kwargs):
        env = E.bind(F(E, UT + "weigh_buffer"), args, kwargs)
        return Sym(WKJ(cid(E, env["chunk"]), lib.real_term(E, env["weight_k"]), flag(E, env["only_chunks"])))

    def assoc(E, args, kwargs):
        env = E.bind(F(E, CSA), args, kwargs)
        E.prove("the strength is that for the memory", env["dm"] is dm)
        r = env["restricted"]
        r = Sym(z3.StringVal("")) if r is False or r is None or r == "" else r
        return Sym(STR(lib.val_term(E, env["chunk"]), cid(E, env["otherchunk"]), E.str_term(r), flag(E, env["only_chunks"]), lib.real_term(E, env["strength_of_association"])))
    E.contracts[UT + "weigh_buffer"] = weight
    E.contracts[CSA] = assoc
    R_ = z3.BoolVal(restricted)

    def ssum(c, k):
        return SRCSUM(c, me, R_, O, S.t, k)

    def contribution(i):
        t = BN(i)
        c = BC(t)
        return z3.If(HAS(t), WKJ(c, W(i), O) * ssum(c, NSRC(c, O)), z3.RealVal(0))
    total = Fold(E, "SA", [L.R], [z3.RealVal(0)], lambda cur, i: [cur[0] + contribution(i)], [], expand=True)

    class Outer(LoopSpec):
        name = "buffers"
        modifies = ()

        def base(self, E):
            total.base()

        def unfold(self, E, i):
            E.fact(POS(BN(i)) == i)
            E.fact(NSRC(BC(BN(i)), O) >= 0)
            total.unfold(i)

        def roles(self, E):
            return [Role("SA", lambda E, i: Sym(total.at(i)[0]), lambda E, i, v: eqv(E, v, Sym(total.at(i)[0])))]

    class Inner(LoopSpec):
        name = "sources"
        modifies = ()

        def __init__(self, c):
            self.c = c

        def base(self, E):
            E.assume(ssum(self.c, z3.IntVal(0)) == 0)

        def unfold(self, E, k):
            s = SRCN(self.c, O, k)
            E.assume(ssum(self.c, k + 1) == ssum(self.c, k) + STR(value(self.c, s), me, s if restricted else z3.StringVal(""), O, S.t))

        def roles(self, E):
            return [Role("s_ji", lambda E, k: Sym(ssum(self.c, k)), lambda E, k, v: eqv(E, v, Sym(ssum(self.c, k))))]
    E.loops["buffers"] = lambda E, fr, seq: Outer()
    E.loops["sources"] = lambda E, fr, seq: Inner(seq.tag[1])
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: run(E, UT + "spreading_activation", [lib.chunk_obj(E, me), Buffers(), dm, Weights(), S] + ([restricted, only] if E.choose(2, "all said") or not only else [restricted] if restricted else [])))
    E.prove("no error", st == "ok")
    if st == "ok":
        E.prove("the sum over the source buffers of weight times the strengths of their sources", lib.real_term(E, r) == total.at(m)[0])


# ------------------------------------------------------------------ the numbers follow the memory
from . import c07


def mentioned(E, node, fr, objs):
    """which of these attributes (name, object) a loop body speaks of"""
    import ast
    names = {n.attr for x in node.body for n in ast.walk(x) if isinstance(n, ast.Attribute)} if hasattr(node, "body") and isinstance(node.body, list) else set()
    loc = {n.id for x in (node.body if hasattr(node, "body") and isinstance(node.body, list) else []) for n in ast.walk(x) if isinstance(n, ast.Name)}
    return [o for nm, o in objs if nm in names or any(fr.locals.get(v) is o for v in loc)]


def storing(keyform, timeform):
    def run_(E):
        setup(E)
        dm, _, U, Rr = memory(E)
        tr = dm.attrs["_data"] = c07.Traces(E)
        c, g, s = E.fresh("chunk", L.I), a_value(E, "value", False), E.fresh("slotname", L.S)
        E.assume(z3.Length(s) > 0)
        abschunk.name_fact(E, c, s)
        N = {False: E.fresh("fan", L.I), True: E.fresh("fan_in_slot", L.I)}      # number of slots of the memory that hold the value

        def held(RS, k):
            return HELD(c, z3.BoolVal(RS), s if RS else z3.StringVal(""), KEY(g), k)
        cs = [(U, False, (KEY(g),)), (Rr, True, (s, KEY(g)))]
        was = {}
        for C, RS, k in cs:
            E.fact(z3.Implies(C.none, z3.Not(C.H(*k))))
            E.assume(z3.Implies(C.has(*k), C.n(*k) == 1 + N[RS]))
            was[RS] = C.has(*k), C.n(*k)
        E.fact(L.NSLOTS(c) >= 0)

        class Slots(LoopSpec):
            name = "slots of the chunk"

            def __init__(self, which):
                self.cs = which
                self.modifies = tuple((C.uid, "*") for C, _, _ in which)

            def base(self, E):
                for _, RS, _ in self.cs:
                    E.assume(held(RS, z3.IntVal(0)) == 0)

            def unfold(self, E, i):
                abschunk.at_fact(E, c, i)
                for _, RS, _ in self.cs:
                    E.assume(held(RS, i + 1) == held(RS, i) + z3.If(holds_it(c, i, z3.BoolVal(RS), s, g), 1, 0))

            def heap_inject(self, E, i):
                for C, RS, k in self.cs:
                    NN = E.fresh_fn("now", *[y.sort() for y in k], L.I)
                    C.has, C.n = (lambda C: lambda *x: C.H(*x))(C), (lambda NN: lambda *x: NN(*x))(NN)
                    E.assume(z3.Implies(C.has(*k), C.n(*k) == 1 + N[RS] + held(RS, i)))

            def heap_check(self, E, i):
                return [("numbers", z3.And(C.has(*k) == C.H(*k), z3.Implies(C.has(*k), C.n(*k) == 1 + N[RS] + held(RS, i)))) for C, RS, k in self.cs]

        def find(seq, fr, node):
            if isinstance(seq.tag, tuple) and seq.tag[0] == "chunk":
                ob = mentioned(E, node, fr, [("unrestricted_number_chunks", U), ("restricted_number_chunks", Rr)])
                return Slots([x for x in cs if x[0] in ob] or cs)
            return Engine.find_loop(E, seq, fr, node)
        E.find_loop = find
        there = tr.has(c)
        pos, other = E.fresh("position", L.I), string(E, "key")
        key = {"chunk": lambda: lib.chunk_obj(E, c), "string": lambda: other, "pairs": lambda: ((other, lib.mkval(E, g)),)}[keyform]()
        t = {"number": lambda: real(E, "time"), "array": lambda: NdArr(z3.IntVal(2), lambda k: z3.RealVal(0)), "text": lambda: string(E, "time")}[timeform]()
        E.cover("precondition satisfiable")
        st, r = attempt(E, lambda: run(E, "pyactr.declarative.DecMem.__setitem__", [dm, key, t]))
        if keyform == "chunk" and timeform != "text":
            E.prove("no error", st == "ok")
        for C, RS, k in cs:
            now = C.has(*k), C.n(*k)
            add = z3.If(there, 0, held(RS, L.NSLOTS(c))) if st == "ok" and keyform == "chunk" else z3.IntVal(0)
            E.prove("the number of slots that hold a value stays that of the memory" + (", by slot" if RS else ""), z3.Implies(now[0], z3.And(was[RS][0], now[1] == 1 + N[RS] + add)))
    return run_


for _k, _t in (("chunk", "number"), ("chunk", "array"), ("chunk", "text"), ("string", "number"), ("pairs", "number")):
    REG.append(Task("storing under a %s, time a %s" % (_k, _t), storing(_k, _t), ["pyactr.declarative.DecMem.__setitem__"]))


@task(REG, "deleting a chunk", ["pyactr.declarative.DecMem.__delitem__"])
def deleting(E):
    setup(E)
    dm, _, U, Rr = memory(E)
    tr = dm.attrs["_data"] = c07.Traces(E)
    c, g, s = E.fresh("chunk", L.I), a_value(E, "value", False), E.fresh("slotname", L.S)
    E.cover("precondition satisfiable")
    there = tr.has(c)
    st, r = attempt(E, lambda: run(E, "pyactr.declarative.DecMem.__delitem__", [dm, lib.chunk_obj(E, c)]))
    for C, k in ((E.getattr(dm, "unrestricted_number_chunks"), (KEY(g),)), (E.getattr(dm, "restricted_number_chunks"), (s, KEY(g)))):
        E.prove("no number of the old contents is left", z3.Or(z3.BoolVal(st != "ok"), z3.Not(C.has(*k)) if isinstance(C, Cache) else z3.BoolVal(not lib.truth(E, C))))
    E.prove("a chunk of the memory can be deleted", z3.Implies(there, z3.BoolVal(st == "ok")))


@task(REG, "a new memory and a copy", ["pyactr.declarative.DecMem.__init__", "pyactr.declarative.DecMem.copy"])
def fresh_memory(E):
    setup(E)
    which = E.choose(2, "copy")
    E.cover("precondition satisfiable")
    if not which:
        a, b_ = decmem(E), decmem(E)
        for nm in ("unrestricted_number_chunks", "restricted_number_chunks"):
            x, y = E.getattr(a, nm), E.getattr(b_, nm)
            E.prove("a new memory has no numbers, and its own ones", x is not y and not lib.truth(E, x))
        return
    dm, mem, U, Rr = memory(E)
    mem.m_copy = lambda E: mem
    g, s = a_value(E, "value", False), E.fresh("slotname", L.S)
    empty = decmem(E)

    def made(E, args, kwargs):
        """DecMem(data) stores every item of data, in a memory without numbers (C07, storing)"""
        env = E.bind(F(E, "pyactr.declarative.DecMem.__init__"), [empty] + args, kwargs)
        empty.attrs["_data"] = mem if env["data"] is mem else DictV()
        return empty
    E.contracts["pyactr.declarative.DecMem"] = made
    st, r = attempt(E, lambda: run(E, "pyactr.declarative.DecMem.copy", [dm]))
    E.prove("no error", st == "ok")
    if st != "ok":
        return
    for nm, C, k in (("unrestricted_number_chunks", U, (KEY(g),)), ("restricted_number_chunks", Rr, (s, KEY(g)))):
        x = E.getattr(r, nm)
        if isinstance(x, Cache):
            E.prove("the copy has its own numbers", x is not C)
            E.prove("the copy has the numbers of the memory, or none", z3.Implies(x.has(*k), z3.And(C.has(*k), x.n(*k) == C.n(*k))))
        else:
            E.prove("the copy has the numbers of the memory, or none", not lib.truth(E, x))
