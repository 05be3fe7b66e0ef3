"""Contract of DecMemBuffer.retrieve, shared by C10 (choice), C11 (time) and C12 (recency list)."""
from .cbv import *

RET = "pyactr.declarative.DecMemBuffer.retrieve"
UT = "pyactr.utilities."
RETFNS = [RET, UT + "retrieval_success", UT + "retrieval_latency", "pyactr.declarative.DecMem.__iter__", "pyactr.declarative.DecMem.__getitem__", "pyactr.chunks.Chunk.removeunused"]


class Memory(Model):
    """The traces of a declarative memory: chunks CH(0..n-1), pairwise different, each with its presentations."""
    pyclass = dict

    def __init__(self, E, empty_traces):
        super().__init__()
        self.n = E.fresh("memsize", L.I)
        E.assume(self.n >= 0)
        self.CH = E.fresh_fn("memchunk", L.I, L.I)
        self.POS = E.fresh_fn("memindex", L.I, L.I)
        self.NT = E.fresh_fn("ntraces", L.I, L.I)
        self.TR = E.fresh_fn("trace", L.I, L.I, L.R)
        self.empty_traces = empty_traces

    def known(self, E, i):
        """chunks of the memory are pairwise different"""
        E.assume(self.POS(self.CH(i)) == i)

    def elem(self, E, i):
        return lib.chunk_obj(E, self.CH(i))

    def iterate(self, E):
        return SeqV(self.n, lambda i: self.elem(E, i), tag="memory")
    m_keys = iterate

    def traces(self, E, c):
        n = self.NT(c)
        lo = z3.IntVal(0 if self.empty_traces else 1)
        a = NdArr(z3.If(n >= lo, n, lo), lambda k: self.TR(c, k))
        a.of = c
        return a

    def m___getitem__(self, E, k):
        return self.traces(E, lib.cid_of(E, k))

    def m_items(self, E):
        return SeqV(self.n, lambda i: (self.elem(E, i), self.traces(E, self.CH(i))), tag="memory")

    def m_get(self, E, k, default=None):
        return self.m___getitem__(E, k)

    def m___len__(self, E):
        return Sym(self.n)

    def m___contains__(self, E, k):
        return True


class Recent(Model):
    """The recency list: length, membership, what is appended and dropped."""
    import collections as _c
    pyclass = _c.deque

    def __init__(self, E, has):
        super().__init__()
        self.len = E.fresh("recent_len", L.I)
        E.assume(self.len >= 0)
        self.has = has
        self.appended, self.dropped = [], 0

    def m___contains__(self, E, k):
        if self.appended or self.dropped:
            raise Unsupported("membership after a change of the recency list")
        return self.has(k)

    def m___len__(self, E):
        return Sym(self.len + len(self.appended) - self.dropped)

    def m_append(self, E, v):
        E.write(self, "recent")
        self.appended.append(v)

    def m_popleft(self, E):
        E.write(self, "recent")
        if not E.branch(self.len - self.dropped > 0):
            if self.appended:
                raise Unsupported("the new item itself is dropped")
            raise engine.bexc("IndexError", "pop from an empty deque")
        self.dropped += 1


class Setting:
    pass


def retrieval_setting(E, sub=None, pm=None, simple=False, mode="choice"):
    """mode: what the search loop is proved to do: the best chunk (choice), the time of the chunk (time), any chunk (any)"""
    """A call of retrieve on any memory; returns everything the specification needs."""
    S = Setting()
    setup(E)
    opaque_chunks(E)
    S.sub = bool(E.choose(2, "subsymbolic")) if sub is None else sub
    S.log, S.news = [], []
    install(E, S.log)
    install_chunk(E, S.news)
    S.dm = decmem(E)
    S.mem = mem = Memory(E, S.sub)
    S.dm.attrs["_data"] = mem

    def length(E, args, kwargs):
        c = lib.cid_of(E, args[0])
        E.assume(L.NSLOTS(c) >= 0)
        return Sym(L.NSLOTS(c))
    E.contracts["pyactr.chunks.Chunk.__len__"] = length
    BASE = E.fresh_fn("baseact", L.I, L.R)
    HASBASE = E.fresh_fn("hasbase", L.I, L.B)
    S.dm.attrs["activations"] = SymMap(get=lambda k: Sym(BASE(lib.cid_of(E, k))), has=lambda k: HASBASE(lib.cid_of(E, k)))
    S.buf = retrieval(E, S.dm)
    RECENT = E.fresh_fn("recent", L.I, L.B)
    S.recent = Recent(E, lambda k: Sym(RECENT(lib.cid_of(E, k))))
    S.buf.attrs["recent"] = S.recent
    S.finst = integer(E, "finst", 0)
    E.setattr(S.buf, "finst", S.finst)
    E.assume(S.recent.len <= S.finst.t)
    S.time = real(E, "time")
    names = ["retrieval_threshold", "latency_factor", "latency_exponent", "decay", "instantaneous_noise", "mismatch_penalty", "rule_firing", "strength_of_association"]
    S.p = {k: real(E, k) for k in names}
    S.pm = S.sub and (bool(E.choose(2, "partial matching")) if pm is None else pm)
    flags = dict(baselevel_learning=boolean(E, "bll"), optimized_learning=boolean(E, "opt"), spreading_activation_restricted=boolean(E, "restr"), association_only_from_chunks=boolean(E, "onlychunks"))
    src = chunk(E, "sources")
    test = [None, False, "?", True][E.choose(4, "recently retrieved")] if not simple else None
    S.local = test is None and not simple and bool(E.choose(2, "parameters of the buffer"))
    glob = dict(S.p)
    if S.local:         # the settings of the buffer come first
        for k in ("retrieval_threshold", "latency_factor", "latency_exponent"):
            glob[k] = real(E, k + "_of_the_model")
    mp = params(E, subsymbolic=S.sub, partial_matching=S.pm, buffer_spreading_activation=src, **glob, **flags)
    if S.local:
        E.setattr(S.buf, "model_parameters", DictV([[k, S.p[k]] for k in ("retrieval_threshold", "latency_factor", "latency_exponent")]))
    if simple:
        E.setattr(S.buf, "finst", 0)
        S.finst = Sym(z3.IntVal(0))
    buffers = DictV()
    S.test = test
    extra = DictV() if test is None else DictV([["recently_retrieved", string(E, "testvalue") if test == "?" else test]])
    if test == "?":
        S.exclude = E.getitem(extra, "recently_retrieved").t == z3.StringVal("False")
    else:
        S.exclude = z3.BoolVal(test in (False, "False") and test is not None)
    S.o = achunk(E, "request")
    S.co = cid(E, S.o)
    S.vm = abschunk.bindings(E.fresh("bound", L.I))
    S.H, S.V = S.vm.has, S.vm.val

    prove = E.prove if mode == "choice" else lambda *a: None

    # contracts of the callees: functions of the chunk
    BLL, NOB = E.fresh_fn("bll", L.I, L.R), E.fresh_fn("nobll", L.I, L.B)
    SA, PM, LE, NOISE = E.fresh_fn("sa", L.I, L.R), E.fresh_fn("pm", L.I, L.R), E.fresh_fn("le", L.I, L.B), E.fresh_fn("noise", L.I, L.R)
    S.LE = LE
    cur = {}

    def request(o):
        return len(S.news) == 1 and same(E, o, S.news[0].obj)

    def bllc(E, args, kwargs):
        e = E.bind(F(E, UT + "baselevel_learning"), args, kwargs)
        tr = e["times"]
        if not isinstance(tr, NdArr) or not hasattr(tr, "of"):
            raise Unsupported("presentations %r" % (tr,))
        c = tr.of
        act = e["activation"]
        prove("base level is computed from the chunk's presentations, its base activation and the settings", conj(
            eqv(E, e["current_time"], S.time), eqv(E, e["bll"], flags["baselevel_learning"]), eqv(E, e["decay"], S.p["decay"]), eqv(E, e["optimized_learning"], flags["optimized_learning"]),
            z3.Not(HASBASE(c)) if act is None else z3.And(HASBASE(c), T(E, act) == BASE(c))))
        if E.branch(NOB(c)):
            raise engine.bexc("UnboundLocalError", "B")
        return Sym(BLL(c))
    E.contracts[UT + "baselevel_learning"] = bllc

    def sac(E, args, kwargs):
        e = E.bind(F(E, UT + "spreading_activation"), args, kwargs)
        prove("spreading activation is computed from the buffers, this memory and the settings", conj(
            same(E, e["buffers"], buffers), same(E, e["dm"], S.dm), same(E, e["buffer_spreading_activation"], src), eqv(E, e["strength"], S.p["strength_of_association"]),
            eqv(E, e["restricted"], flags["spreading_activation_restricted"]), eqv(E, e["only_chunks"], flags["association_only_from_chunks"])))
        return Sym(SA(lib.cid_of(E, e["chunk"])))
    E.contracts[UT + "spreading_activation"] = sac

    def noisec(E, args, kwargs):
        e = E.bind(F(E, UT + "calculate_instantaneous_noise"), args, kwargs)
        prove("noise has the scale set by the modeller", eqv(E, e["instantaneous_noise"], S.p["instantaneous_noise"]))
        if "it" not in cur or cur.get("drawn"):
            return real(E, "another_noise")
        cur["drawn"] = True
        return Sym(NOISE(mem.CH(cur["it"])))
    E.contracts[UT + "calculate_instantaneous_noise"] = noisec

    def lec(E, args, kwargs):
        if not request(args[0]):
            raise Unsupported("comparison of other chunks")
        return Sym(LE(lib.cid_of(E, args[1])))
    E.contracts["pyactr.chunks.Chunk.__le__"] = lec
    E.contracts["pyactr.chunks.Chunk.__ge__"] = lambda E, a, k: lec(E, [a[1], a[0]], k)

    def matchc(E, args, kwargs):
        e = E.bind(F(E, "pyactr.chunks.Chunk.match"), args, kwargs)
        if not request(e["self"]) or e["partialmatching"] is not True:
            raise Unsupported("another match")
        prove("the mismatch penalty is the one set", eqv(E, e["mismatch_penalty"], S.p["mismatch_penalty"]))
        return Sym(PM(lib.cid_of(E, e["otherchunk"])))
    E.contracts["pyactr.chunks.Chunk.match"] = matchc

    # ------------------------------------------------ specification
    fin = S.finst.t > 0

    def eligible(j):
        c = mem.CH(j)
        f = []
        if test is not None:
            f.append(z3.Or(z3.Not(fin), RECENT(c) == z3.Not(S.exclude)))
        if S.sub:
            if not S.pm:
                f.append(LE(c))
            f += [z3.Not(NOB(c)), S.A(j) >= S.p["retrieval_threshold"].t]
        else:
            f += [LE(c), mem.TR(c, 0) != L.ROUND(S.time.t, 4)]
        return z3.And(*f)

    def A(j):
        c = mem.CH(j)
        return BLL(c) + SA(c) + NOISE(c) + (PM(c) if S.pm else 0)
    S.A, S.eligible = A, eligible
    lat = lambda a: S.p["latency_factor"].t * L.EXP(-(S.p["latency_exponent"].t * a))
    S.latency = lat

    def step(st, i):
        has, mx = st
        ok = eligible(i)
        return [z3.Or(has, ok), z3.If(ok, z3.If(z3.And(has, mx >= A(i)), mx, A(i)), mx)]
    S.fold = fold = Fold(E, "best", [L.B, L.R], [z3.BoolVal(False), z3.RealVal(0)], step, expand=True)

    box = {}

    def winner(i):
        if "p_" not in S.__dict__ or not S.pi.eq(i):
            S.p_ = E.fresh("winner", L.I)
            S.pi = i
            mem.known(E, S.p_)
            E.assume(z3.And(S.p_ >= 0, S.p_ < i))
            if mode == "choice":
                E.assume(z3.And(eligible(S.p_), *([A(S.p_) == fold.at(i)[1]] if S.sub else [])))
        return S.p_

    some = {}

    def has_at(i):
        """something was found before iteration i"""
        if mode == "choice":
            return fold.at(i)[0]
        k = z3.simplify(i).get_id()
        if k not in some:
            some[k] = (i, E.fresh("found", L.B))
        return some[k][1]

    def unchanged(nm, v):
        w = box.get(nm, UNBOUND)
        return v is w or (isinstance(v, (int, float, str)) and type(v) is type(w) and v == w)

    def role(nm, inject, found, entry, optional=False, strong=False):
        """as before the loop while nothing was found; inject(i) afterwards"""
        def inj(E, i):
            if mode == "choice" and nm == "extra_time":
                return inject(i)
            return inject(i) if E.branch(has_at(i)) else box[nm]

        def chk(E, i, v):
            if nm == "retrieved":
                box["now"] = v
            if z3.is_int_value(i) and i.as_long() == 0:
                box[nm] = v
                return entry(v)
            if mode == "choice" and nm == "extra_time":
                return v is UNBOUND or v is None or lib.is_inf(v) or lib.is_num(v)
            if mode != "choice":
                if unchanged("retrieved", box.get("now")):      # nothing found yet
                    return True if nm == "retrieved" or mode == "any" else unchanged(nm, v) or (nm == "max_A" and not highest())
                return found(i, v)
            return z3.If(fold.at(i)[0], found(i, v) if v is not UNBOUND else z3.BoolVal(False), z3.BoolVal(unchanged(nm, v)))
        return Role(nm, inj, chk, optional, strong)

    def chk_chunk(i, v):
        if not lib.is_chunk(E, v):
            return z3.BoolVal(False)
        c = lib.cid_of(E, v)
        j = mem.POS(c)
        f = [j >= 0, j < i, mem.CH(j) == c]
        if mode == "choice":
            f += [eligible(j)] + ([A(j) == fold.at(i)[1]] if S.sub else [])
        return z3.And(*f)

    def chk_max(i, v):
        if highest() and lib.is_chunk(E, box.get("now")) and v is not UNBOUND and lib.is_num(v):
            return T(E, v) == A(mem.POS(lib.cid_of(E, box["now"])))
        if highest():
            return z3.BoolVal(False)
        if mode != "choice" or not S.sub:
            return z3.BoolVal(mode != "choice" or unchanged("max_A", v))
        x = lib.to_x(E, v) if v is not None else None
        return z3.And(x.k == 0, x.r == fold.at(i)[1]) if x is not None else z3.BoolVal(False)

    def highest():
        """in the time tasks: max_A is the activation of the chunk found, unless the code uses it for something else"""
        return mode == "time" and S.sub and (Search.name, "max_A") not in E.weak_roles

    def time_of(i):
        return lat(A(winner(i))) if S.sub else z3.RealVal(0)

    def chk_time(i, v):
        if mode != "time":
            return z3.BoolVal(True)
        if v is None or v is UNBOUND or not lib.is_chunk(E, box.get("now")):
            return z3.BoolVal(False)
        return T(E, v) == (lat(A(mem.POS(lib.cid_of(E, box["now"])))) if S.sub else z3.RealVal(0))

    class Search(LoopSpec):
        name = "search of the memory"
        modifies = ((S.buf.uid, "activation"),)

        def roles(self, E):
            return [role("retrieved", lambda i: mem.elem(E, winner(i)), chk_chunk, lambda v: v is None),
                    role("max_A", lambda i: (Sym(fold.at(i)[1]) if mode == "choice" else Sym(A(winner(i))) if highest() else real(E, "max_A")) if S.sub else box["max_A"], chk_max, lambda v: v is not UNBOUND and (v is None or lib.is_inf(v) or lib.is_num(v)), optional=not S.sub, strong=mode == "time" and S.sub),
                    role("extra_time", lambda i: Sym(time_of(i)) if mode == "time" else real(E, "some_time"), chk_time, lambda v: v is UNBOUND or v is None or lib.is_inf(v) or lib.is_num(v), optional=True)]

        def base(self, E):
            fold.base()

        def unfold(self, E, i):
            cur["it"] = i
            cur.pop("drawn", None)
            mem.known(E, i)
            fold.unfold(i)

        def heap_inject(self, E, i):
            S.buf.attrs["activation"] = real(E, "activation_sofar")

        def at_exit(self, E, n):
            cur.pop("it", None)
            S.done = True
    S.search = Search()
    E.loops["memory"] = lambda E, fr, seq: S.search
    S.args = [S.buf, S.time, S.o, S.vm, buffers, extra, mp]
    return S


def lemma(E, sub):
    """The search invariant says: something eligible was found, and the maximum over all eligible chunks (induction)."""
    A = E.fresh_fn("A", L.I, L.R)
    ok = E.fresh_fn("ok", L.I, L.B)
    j = z3.Int("j!lm")

    def inv(has, mx, i):
        return z3.And(has == z3.Exists([j], z3.And(j >= 0, j < i, ok(j))), z3.Implies(has, z3.Exists([j], z3.And(j >= 0, j < i, ok(j), A(j) == mx))), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i, ok(j)), A(j) <= mx)))
    E.prove("nothing is found in an empty memory", inv(z3.BoolVal(False), z3.RealVal(0), z3.IntVal(0)))
    i, has, mx = E.fresh("i", L.I), E.fresh("has", L.B), E.fresh("mx", L.R)
    E.assume(i >= 0)
    E.assume(inv(has, mx, i))
    found = E.choose(2, "eligible")
    E.assume(ok(i) if found else z3.Not(ok(i)))
    better = E.choose(2, "better") if found else 0
    E.assume(has if E.choose(2, "has") else z3.Not(has))
    has2, mx2 = z3.Or(has, ok(i)), z3.If(ok(i), z3.If(z3.And(has, mx >= A(i)), mx, A(i)), mx)
    E.assume((mx >= A(i)) if better else mx < A(i)) if found else None
    E.cover("induction step")
    E.prove("what was found is eligible", has2 == z3.Exists([j], z3.And(j >= 0, j < i + 1, ok(j))))
    E.prove("the maximum is reached", z3.Implies(has2, z3.Exists([j], z3.And(j >= 0, j < i + 1, ok(j), A(j) == mx2))))
    E.prove("and no eligible chunk is above it", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i + 1, ok(j)), A(j) <= mx2)))


def no_eligible(S):
    """by the lemma: nothing eligible in the whole memory"""
    return z3.Not(S.fold.at(S.mem.n)[0])


def error_case(E, S, r):
    """An error is raised only for a request that cannot be resolved."""
    true = z3.BoolVal(False)
    E.prove("an error is an ACTRError", z3.BoolVal(is_exc(E, r, "ACTRError")))
    j = z3.Int("j!ret")
    c = L.SLOT(S.co, L.NAMEAT(S.co, j))
    E.prove("an error is raised only if the request cannot be resolved", z3.Exists([j], z3.And(j >= 0, j < L.NSLOTS(S.co), used(E, c), ERR(c, S.H, S.V, true))))
