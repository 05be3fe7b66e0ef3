"""C01: exact matching of a pattern against a chunk."""
from .chunklayer import *

PROPERTY = "C01"
REG = []
MATCH = "pyactr.chunks.Chunk.match"
ASSUME = ["equality of chunks is the equivalence of C02 (an uninterpreted equality class per chunk here)"]


NB_SORTS = [L.I, Val, z3.ArraySort(L.S, L.B), z3.ArraySort(L.S, VS_SORT), L.I]
NBH = z3.Function("NBH", *NB_SORTS, z3.ArraySort(L.S, L.B))
NBS = z3.Function("NBS", *NB_SORTS, z3.ArraySort(L.S, VS_SORT))


def nb(nv, m, NH, NS, k):
    """The excluded values after m was recorded for the first k negated variables of list nv (by recursion on k)."""
    if isinstance(k, int) or z3.is_int_value(k):
        k = k if isinstance(k, int) else k.as_long()
        if k == 0:
            return NH, NS
        k = z3.IntVal(k)
    return NBH(nv, m, NH, NS, k), NBS(nv, m, NH, NS, k)


def nb_base(E, nv, m, NH, NS):
    z = z3.IntVal(0)
    E.fact(z3.And(NBH(nv, m, NH, NS, z) == NH, NBS(nv, m, NH, NS, z) == NS))


def nb_next(nv, m, NH, NS, k):
    h, s = nb(nv, m, NH, NS, k)
    y = L.NVARS(nv, k)
    old = z3.If(z3.Select(h, y), z3.Select(s, y), z3.K(Val, z3.BoolVal(False)))
    return z3.Store(h, y, True), z3.Store(s, y, z3.Store(old, m, True))


def nb_unfold(E, nv, m, NH, NS, k):
    h, s = nb(nv, m, NH, NS, k)
    h1, s1 = nb(nv, m, NH, NS, k + 1)
    y = L.NVARS(nv, k)
    old = z3.If(z3.Select(h, y), z3.Select(s, y), z3.K(Val, z3.BoolVal(False)))
    E.fact(z3.And(h1 == z3.Store(h, y, True), s1 == z3.Store(s, y, z3.Store(old, m, True))))


def norm(v):
    """None and the EmptyValue object both stand for the empty value."""
    return z3.If(Val.is_none(v), Val.empty, v)


class Parts:
    """The specification of one slot: its constraints and the bindings after it."""
    def __init__(self, E, p, o, st, i):
        H, V, NH, NS = st
        nm = L.NAMEAT(p, i)
        c = L.SLOT(p, nm)
        wf_content(E, c)
        isv = SV.is_sv(c)
        m = self.m = value_in(o, nm)
        var = SV.vars(c)
        self.hasvar = z3.And(isv, Val.is_vstr(var))
        x = self.x = Val.s(var)
        u = z3.Const("u!s", Val)
        k = self.k = z3.Int("k!s")
        self.excluded = z3.And(self.hasvar, z3.Select(NH, x), z3.Exists([u], z3.And(z3.Select(z3.Select(NS, x), u), L.valeq(u, m))))
        self.boundto = z3.And(self.hasvar, z3.Select(H, x), z3.Not(L.valeq(z3.Select(V, x), m)))
        bind = z3.And(self.hasvar, z3.Not(z3.Select(H, x)))
        self.H1 = H1 = z3.If(bind, z3.Store(H, x, True), H)
        self.V1 = V1 = z3.If(bind, z3.Store(V, x, m), V)
        nv = self.nv = SV.negvars(c)
        self.nvn = z3.If(isv, L.NLEN(nv), z3.IntVal(0))
        self.nvbad = lambda j: z3.And(z3.Select(H1, L.NVARS(nv, j)), L.valeq(z3.Select(V1, L.NVARS(nv, j)), m))
        self.negvar = z3.Exists([k], z3.And(k >= 0, k < self.nvn, self.nvbad(k)))
        nb_base(E, nv, m, NH, NS)
        self.NH1, self.NS1 = nb(nv, m, NH, NS, self.nvn)
        w = self.w = SV.vals(c)
        self.wrong = z3.And(isv, required(w), z3.Not(L.valeq(w, m)))
        ng = self.ng = SV.negvals(c)
        self.ngn = z3.If(isv, L.NLEN(ng), z3.IntVal(0))
        self.forbidden = z3.Exists([k], z3.And(k >= 0, k < self.ngn, L.valeq(norm(L.NVAL(ng, k)), m)))
        self.ok = z3.Not(z3.Or(self.excluded, self.boundto, self.negvar, self.wrong, self.forbidden))
        self.next = [self.H1, self.V1, self.NH1, self.NS1]


SORTS = [z3.ArraySort(L.S, L.B), z3.ArraySort(L.S, Val), z3.ArraySort(L.S, L.B), z3.ArraySort(L.S, VS_SORT)]


def bind_state(bv):
    return [bv.has, bv.val, bv.nhas, bv.nset]


def set_state(bv, st):
    bv.has, bv.val, bv.nhas, bv.nset = st


def match_spec(E, pat, other, partial=None):
    """Registers the loop invariants of match; returns (fold over slots, ok formula, number of slots)."""
    p, o = cid(E, pat), cid(E, other)
    n = L.NSLOTS(p)
    bv = bv_of(pat)
    fold = Fold(E, "bind", SORTS, bind_state(bv), lambda st, i: Parts(E, p, o, st, i).next, expand=True)
    ok = lambda j: Parts(E, p, o, fold.at(j), j).ok
    cur = {}

    class Slots(LoopSpec):
        name = "slots of the pattern"
        roles = [Role("similarity", lambda E, i: 0, lambda E, i, v: b(eqv(E, v, 0)) if v is not UNBOUND else False, optional=True)]
        modifies = [(bv.uid, "map")]
        join = [bv]

        def base(self, E):
            fold.base()

        def allok(self, i):
            if "it" in cur and i.eq(cur["it"] + 1):
                return z3.And(self.allok(cur["it"]), ok(cur["it"]))
            j = z3.Int("j!ok")
            return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), ok(j)))

        def heap_inject(self, E, i):
            set_state(bv, fold.at(i))
            E.assume(self.allok(i))
            cur["i"] = i

        def heap_check(self, E, i):
            st = fold.at(i)
            return [("variables bound so far", bv.has == st[0]), ("their values", bv.val == st[1]), ("negated variables recorded so far", bv.nhas == st[2]), ("their excluded values", bv.nset == st[3]),
                    ("every slot so far is satisfied", self.allok(i))]

        def unfold(self, E, i):
            fold.unfold(i)
            cur["it"] = i
            abschunk.name_fact(E, o, L.NAMEAT(p, i))

    class Negvars(LoopSpec):
        name = "negated variables of a slot"
        modifies = [(bv.uid, "map")]

        def __init__(self, seq):
            self.nv = seq.tag[1]
            self.it = None
            self.st0 = bind_state(bv)
            self.P = Parts(E, p, o, fold.at(cur["i"]), cur["i"])

        def base(self, E):
            nb_base(E, self.nv, self.P.m, self.st0[2], self.st0[3])

        def allok(self, k):
            if self.it is not None and k.eq(self.it + 1):
                return z3.And(self.allok(self.it), z3.Not(self.P.nvbad(self.it)))
            j = z3.Int("j!nv")
            return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(self.P.nvbad(j))))

        def heap_inject(self, E, k):
            h, s = nb(self.nv, self.P.m, self.st0[2], self.st0[3], k)
            set_state(bv, [self.st0[0], self.st0[1], h, s])
            E.assume(self.allok(k))

        def heap_check(self, E, k):
            if self.it is not None and k.eq(self.it + 1):
                h, s = nb_next(self.nv, self.P.m, self.st0[2], self.st0[3], self.it)
            else:
                h, s = nb(self.nv, self.P.m, self.st0[2], self.st0[3], k)
            return [("positive bindings stay", z3.And(bv.has == self.st0[0], bv.val == self.st0[1])), ("the value is recorded", bv.nhas == h), ("as excluded", bv.nset == s),
                    ("no earlier negated variable is bound to the value", self.allok(k))]

        def unfold(self, E, k):
            self.it = k
            nb_unfold(E, self.nv, self.P.m, self.st0[2], self.st0[3], k)
    E.loops[("chunk", p)] = lambda E, fr, seq: Slots() if seq.tag[1].eq(p) else None
    E.loops["negvars"] = lambda E, fr, seq: Negvars(seq)
    return fold, ok, n, cur


@task(REG, "match", [MATCH])
def match(E):
    setup(E)
    pat, other = achunk(E, "pattern"), achunk(E, "chunk")
    bv = bv_of(pat)
    fold, ok, n, cur = match_spec(E, pat, other)
    E.cover("precondition satisfiable")
    j = z3.Int("j!post")
    allok = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), ok(j)))
    r = run(E, MATCH, [pat, other, False])
    equal = lib.chunk_eq(E, pat, other)
    if r is False:
        E.prove("a pattern is refused only if a slot constraint is violated", z3.And(z3.Not(equal), z3.Exists([j], z3.And(j >= 0, j < n, z3.Not(ok(j))))))
        return
    if "i" not in cur:
        E.prove("an equal chunk always matches", z3.And(equal, b(eqv(E, r, 0)) if r is not True else True))
        E.prove("and binds nothing", same_state(bv, abschunk.bindings(cid(E, pat))))
        return
    E.prove("a pattern matches only if every slot constraint is satisfied", z3.And(r is True, allok))
    st = fold.at(n)
    E.prove("the bindings left are those of the slots, in slot order", z3.And(*[x == y for x, y in zip(bind_state(bv), st)]))


def same_state(a, b_):
    return z3.And(*[x == y for x, y in zip(bind_state(a), bind_state(b_))])


def mk_order(op):
    def run_(E):
        setup(E)
        pat, other = achunk(E, "pattern"), achunk(E, "chunk")
        R = E.fresh("matches", L.B)
        equal = lib.chunk_eq(E, pat, other)
        E.assume(z3.Implies(equal, R))
        calls = []

        def m(E, args, kwargs):
            env = E.bind(F(E, MATCH), args, kwargs)
            calls.append(env)
            # as proved of match: 0 for equal chunks, otherwise whether all constraints are satisfied
            if E.branch(equal):
                return 0
            return Sym(R)
        E.contracts[MATCH] = m
        r = run(E, "pyactr.chunks.Chunk." + op, [pat, other])
        got = b(E.truth(r))
        E.prove("match is asked about these chunks, exactly", all(same(E, c["self"], pat) and same(E, c["otherchunk"], other) and c["partialmatching"] is False for c in calls))
        if op == "__le__":
            E.prove("<= holds exactly if the pattern matches", got == R)
        else:
            E.prove("< holds exactly if the pattern matches a chunk not equal to it", got == z3.And(R, z3.Not(equal)))
    return run_


for op in ("__le__", "__lt__"):
    REG.append(Task(op, mk_order(op), ["pyactr.chunks.Chunk." + op]))
