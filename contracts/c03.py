"""C03: the score of a partial match."""
from .chunklayer import *
from .c01 import Parts, SORTS, bind_state, set_state, nb, nb_base, nb_next, nb_unfold, norm, same_state, MATCH
from pyvc.values import Model

PROPERTY = "C03"
REG = []
ASSUME = ["equality of chunks is the equivalence of C02 (an uninterpreted equality class per chunk here)",
          "a Python set holds no two equal elements; values of the compared chunk and recorded excluded values are never the string 'None' (the empty value is written without it)",
          "the table of similarities is symmetric (proved of ACTRModel.set_similarities, its only writer)"]

SIMHAS = z3.Function("SIMHAS", Val, Val, L.B)
SIMVAL = z3.Function("SIMVAL", Val, Val, L.R)


def key(v):
    """Equal slot values, one key."""
    return z3.If(L.nil(v), Val.none, z3.If(Val.is_vchk(v), Val.vchk(L.CANON(Val.c(v))), v))


class SimDict(Model):
    """Chunk._similarities: any symmetric table."""
    pyclass = dict

    def pair(self, E, k):
        if not isinstance(k, tuple) or len(k) != 2:
            raise engine.Unsupported("similarity of %r" % (k,))
        a, b_ = [key(lib.val_term(E, x)) for x in k]
        E.fact(z3.And(SIMHAS(a, b_) == SIMHAS(b_, a), SIMVAL(a, b_) == SIMVAL(b_, a)))
        return a, b_

    def m_get(self, E, k, d=None):
        a, b_ = self.pair(E, k)
        if d is None:
            return Sym(SIMVAL(a, b_)) if E.branch(SIMHAS(a, b_)) else None
        return Sym(z3.If(SIMHAS(a, b_), SIMVAL(a, b_), lib.real_term(E, d)))

    def m___contains__(self, E, k):
        return Sym(SIMHAS(*self.pair(E, k)))

    def m___getitem__(self, E, k):
        a, b_ = self.pair(E, k)
        if not E.branch(SIMHAS(a, b_)):
            raise engine.bexc("KeyError", k)
        return Sym(SIMVAL(a, b_))


NVSUM = z3.Function("NVSUM", L.I, Val, z3.ArraySort(L.S, L.B), z3.ArraySort(L.S, Val), L.I, L.R)
NGSUM = z3.Function("NGSUM", L.I, Val, L.I, L.R)


@task(REG, "partial match", [MATCH, "pyactr.utilities.get_similarity"])
def partial(E):
    setup(E)
    pen = real(E, "mismatch_penalty").t
    cls(E, "pyactr.chunks.Chunk").ns["_similarities"] = SimDict()
    pat, other = achunk(E, "pattern"), achunk(E, "chunk")
    p, o = cid(E, pat), cid(E, other)
    n = L.NSLOTS(p)
    bv = bv_of(pat)

    def sim(a, b_):
        a, b_ = key(a), key(b_)
        return z3.If(SIMHAS(a, b_), SIMVAL(a, b_), -pen)

    def symfact(a, b_):
        a, b_ = key(a), key(b_)
        E.fact(z3.And(SIMHAS(a, b_) == SIMHAS(b_, a), SIMVAL(a, b_) == SIMVAL(b_, a)))

    def zero(*fs):
        E.fact(z3.And(*[f == 0 for f in fs]))

    def nvterm(P, k):
        return z3.If(P.nvbad(k), sim(z3.Select(P.V1, L.NVARS(P.nv, k)), P.m), 0)

    def ngbad(P, k):
        return L.valeq(norm(L.NVAL(P.ng, k)), P.m)

    def ngterm(P, k):
        return z3.If(ngbad(P, k), sim(L.NVAL(P.ng, k), P.m), 0)

    def nvsum(P, k):
        return NVSUM(P.nv, P.m, P.H1, P.V1, k)

    def cost(P, st):
        """what the constraints of one slot add"""
        zero(NVSUM(P.nv, P.m, P.H1, P.V1, 0), NGSUM(P.ng, P.m, 0))
        return (z3.If(P.excluded, sim(P.m, P.m), 0), z3.If(P.boundto, sim(z3.Select(st[1], P.x), P.m), 0), nvsum(P, P.nvn),
                z3.If(P.wrong, sim(P.w, P.m), 0), NGSUM(P.ng, P.m, P.ngn))

    def step(st, i):
        P = Parts(E, p, o, st[:4], i)
        return P.next + [st[4] + z3.Sum(*cost(P, st))]
    fold = Fold(E, "score", SORTS + [L.R], bind_state(bv) + [z3.RealVal(0)], step, expand=True)
    cur = {}

    class Slots(LoopSpec):
        name = "slots of the pattern"
        roles = [Role("similarity", lambda E, i: Sym(fold.at(i)[4]), lambda E, i, v: b(eqv(E, v, Sym(fold.at(i)[4]))) if v is not UNBOUND else False)]
        modifies = [(bv.uid, "map")]
        join = [bv]

        def base(self, E):
            fold.base()

        def heap_inject(self, E, i):
            set_state(bv, fold.at(i)[:4])
            cur["i"] = i

        def heap_check(self, E, i):
            st = fold.at(i)
            return [("variables bound so far", bv.has == st[0]), ("their values", bv.val == st[1]), ("negated variables recorded so far", bv.nhas == st[2]), ("their excluded values", bv.nset == st[3])]

        def unfold(self, E, i):
            fold.unfold(i)
            abschunk.name_fact(E, o, L.NAMEAT(p, i))
            st = fold.at(i)
            cur["P"] = P = Parts(E, p, o, st[:4], i)
            symfact(z3.Select(st[1], P.x), P.m)
            symfact(P.w, P.m)
            E.fact(z3.Not(L.nonestr(P.m)))

    class Inner(LoopSpec):
        """a loop over some constraints of one slot, adding to the score"""
        def __init__(self, E, seq, name, total, bound):
            self.name = name
            self.sim0 = None
            self.it = None
            self.total = total
            self.st0 = bind_state(bv)
            self.P = Parts(E, p, o, fold.at(cur["i"])[:4], cur["i"])
            self.sim0 = bound
            self.modifies = [(bv.uid, "map")]
            self.roles = [Role("similarity", lambda E, k: Sym(self.sim0 + self.total(self, k)), lambda E, k, v: b(eqv(E, v, Sym(self.sim0 + self.total(self, k)))) if v is not UNBOUND else False)]

        def heap_inject(self, E, k):
            set_state(bv, self.st0)

        def heap_check(self, E, k):
            return [("bindings stay", z3.And(*[x == y for x, y in zip(bind_state(bv), self.st0)]))]

    class Excl(Inner):
        def seen(self, k):
            if self.it is not None and k.eq(self.it + 1):
                return z3.Or(self.seen(self.it), L.valeq(self.at(self.it), self.P.m))
            if self.n is not None and k.eq(self.n):
                # all of them: membership in the set
                u = z3.Const("u!x", Val)
                return z3.Exists([u], z3.And(z3.Select(self.arr, u), L.valeq(u, self.P.m)))
            j = z3.Int("j!x")
            return z3.Exists([j], z3.And(j >= 0, j < k, L.valeq(self.at(j), self.P.m)))

        def unfold(self, E, k):
            self.it = k
            u = self.at(k)
            E.fact(z3.Not(L.nonestr(u)))
            E.fact(z3.Not(z3.And(self.seen(k), L.valeq(u, self.P.m))))

    class Negvars(Inner):
        def base(self, E):
            nb_base(E, self.nv, self.P.m, self.st0[2], self.st0[3])
            zero(nvsum(self.P, 0))

        def heap_inject(self, E, k):
            h, s = nb(self.nv, self.P.m, self.st0[2], self.st0[3], k)
            set_state(bv, [self.st0[0], self.st0[1], h, s])

        def heap_check(self, E, k):
            if self.it is not None and k.eq(self.it + 1):
                h, s = nb_next(self.nv, self.P.m, self.st0[2], self.st0[3], self.it)
            else:
                h, s = nb(self.nv, self.P.m, self.st0[2], self.st0[3], k)
            return [("positive bindings stay", z3.And(bv.has == self.st0[0], bv.val == self.st0[1])), ("the value is recorded", bv.nhas == h), ("as excluded", bv.nset == s)]

        def unfold(self, E, k):
            self.it = k
            nb_unfold(E, self.nv, self.P.m, self.st0[2], self.st0[3], k)
            E.fact(nvsum(self.P, k + 1) == nvsum(self.P, k) + nvterm(self.P, k))
            symfact(z3.Select(self.P.V1, L.NVARS(self.P.nv, k)), self.P.m)

    class Negvals(Inner):
        def base(self, E):
            zero(NGSUM(self.P.ng, self.P.m, 0))

        def unfold(self, E, k):
            self.it = k
            E.fact(NGSUM(self.P.ng, self.P.m, k + 1) == NGSUM(self.P.ng, self.P.m, k) + ngterm(self.P, k))
            symfact(L.NVAL(self.P.ng, k), self.P.m)

    def cursim(E, fr):
        """the score when the loop starts: the one number the slot's earlier constraints have added"""
        v = fr.locals.get("similarity")
        if v is None:
            c = [x for k, x in fr.locals.items() if isinstance(x, (int, float)) and not isinstance(x, bool) or isinstance(x, Sym) and x.t.sort() == L.R and not x.t.eq(pen)]
            if len(c) != 1:
                raise engine.Unsupported("which local is the score")
            v = c[0]
        return lib.real_term(E, v)

    def excl(E, fr, seq):
        s = Excl(E, seq, "values excluded for the variable", lambda self, k: z3.If(self.seen(k), sim(self.P.m, self.P.m), 0), cursim(E, fr))
        s.arr = seq.tag[1]
        s.n = seq.n
        s.at = lambda j: lib.val_term(E, seq.elem(j))
        return s

    def negv(E, fr, seq):
        s = Negvars(E, seq, "negated variables of a slot", lambda self, k: nvsum(self.P, k), cursim(E, fr))
        s.nv = seq.tag[1]
        return s

    def negl(E, fr, seq):
        return Negvals(E, seq, "negated values of a slot", lambda self, k: NGSUM(self.P.ng, self.P.m, k), cursim(E, fr))
    E.loops[("chunk", p)] = lambda E, fr, seq: Slots() if seq.tag[1].eq(p) else None
    E.loops["valset"] = excl
    E.loops["negvars"] = negv
    E.loops["negvals"] = negl
    E.cover("precondition satisfiable")
    r = run(E, MATCH, [pat, other, True, Sym(pen)])
    equal = lib.chunk_eq(E, pat, other)
    if "i" not in cur:
        E.prove("equal chunks score 0", z3.And(equal, b(eqv(E, r, 0)) if r is not True and r is not False else False))
        E.prove("and bind nothing", same_state(bv, abschunk.bindings(p)))
        return
    E.prove("chunks that are not equal are compared slot by slot", z3.Not(equal))
    st = fold.at(n)
    E.prove("the score is the sum of the similarities of the violated constraints", b(eqv(E, r, Sym(st[4]))) if r is not True and r is not False else False)
    E.prove("the bindings left are those of the slots, in slot order", z3.And(*[x == y for x, y in zip(bind_state(bv), st)]))


@task(REG, "set_similarities", ["pyactr.model.ACTRModel.set_similarities"])
def set_similarities(E):
    """Any table, any two values, any number."""
    setup(E)
    a, c, u, w = [E.fresh(k, Val) for k in ("chunk", "otherchunk", "u", "w")]
    value = real(E, "value")
    puts = []
    has0, val0 = E.fresh_fn("has", Val, Val, L.B), E.fresh_fn("val", Val, Val, L.R)

    class Table(SimDict):
        def m___setitem__(self, E, k, v):
            if not isinstance(k, tuple) or len(k) != 2:
                raise engine.Unsupported("similarity of %r" % (k,))
            E.write(self, "table")
            puts.append((*[key(lib.val_term(E, x)) for x in k], lib.real_term(E, v)))

        def m_update(self, E, other=()):
            if not isinstance(other, DictV):
                raise engine.Unsupported("update of the similarities by %r" % (other,))
            for k, v in other.pairs:
                self.m___setitem__(E, k, v)
    store = Table()
    m = new(E, "pyactr.model.ACTRModel", _ACTRModel__similarities=store)

    def after(x, y):
        h, v = has0(x, y), val0(x, y)
        for p, q, t in puts:
            e = z3.And(p == x, q == y)
            h, v = z3.Or(h, e), z3.If(e, t, v)
        return h, v
    r = attempt(E, lambda: run(E, "pyactr.model.ACTRModel.set_similarities", [m, lib.mkval(E, a), lib.mkval(E, c), value]))
    if r[0] == "exc":
        E.prove("only a positive similarity is refused", z3.And(value.t > 0, is_exc(E, r[1], "ACTRError")))
        E.prove("and nothing is set then", not puts)
        return
    E.prove("a positive similarity is refused", value.t <= 0)
    E.prove("the table is the model's", m.attrs["_ACTRModel__similarities"] is store)
    x, y = key(u), key(w)
    h, v = after(x, y)
    one = z3.And(x == key(a), y == key(c))
    other = z3.And(x == key(c), y == key(a))
    E.prove("the similarity is set in both directions", z3.Implies(z3.Or(one, other), z3.And(h, v == value.t)))
    E.prove("and no other one is changed", z3.Implies(z3.Not(z3.Or(one, other)), z3.And(h == has0(x, y), v == val0(x, y))))
