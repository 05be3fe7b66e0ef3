"""C10: a retrieval returns the best eligible chunk."""
from .dmretrieve import *

PROPERTY = "C10"
REG = []
ASSUME = ["C10: a chunk of the memory has (symbolic retrieval) at least one presentation",
          "C10: base level, spreading activation, matching and partial matching are functions of the chunk during one retrieval (their values: C08, C09, C01, C03); the request matched has no variables left (C06), so matching it changes nothing",
          "C10: no base-level activation is NaN (presentations are numbers); `in` on the recency list compares by chunk equality (C02)"]


def mk(sub, pm):
    def retrieve(E):
        S = retrieval_setting(E, sub, pm)
        E.cover("precondition satisfiable")
        st, r = attempt(E, lambda: run(E, RET, S.args))
        if st == "exc":
            error_case(E, S, r)
            return
        E.prove("retrieve returns a chunk and a time", isinstance(r, tuple) and len(r) == 2)
        chunk_ = r[0]
        n = S.mem.n
        has, mx = S.fold.at(n)
        if chunk_ is None:
            E.prove("nothing is returned only if no chunk is eligible", z3.Not(has))
            return
        E.prove("something is returned only if a chunk is eligible", has)
        E.prove("what is returned is a chunk", bool(lib.is_chunk(E, chunk_)))
        c = lib.cid_of(E, chunk_)
        j = S.mem.POS(c)
        E.prove("the chunk returned is a chunk of the memory", z3.And(j >= 0, j < n, S.mem.CH(j) == c))
        E.prove("it is eligible", S.eligible(j))
        if sub:
            E.prove("no eligible chunk has a higher activation", S.A(j) == mx)
    return retrieve


REG.append(Task("retrieve: symbolic", mk(False, False), RETFNS))
REG.append(Task("retrieve: subsymbolic", mk(True, False), RETFNS))
REG.append(Task("retrieve: partial matching", mk(True, True), RETFNS))


@task(REG, "retrieve: the request", RETFNS)
def request(E):
    S = retrieval_setting(E, pm=False, simple=True)
    nobind = E.choose(2, "no bindings")
    if nobind:
        S.args[3] = None
        S.H, S.V = z3.K(L.S, z3.BoolVal(False)), z3.K(L.S, Val.none)
    s = E.fresh("slot", L.S)
    abschunk.name_fact(E, S.co, s)
    wf_content(E, L.SLOT(S.co, s))
    content_ = L.SLOT(S.co, s)
    named = z3.And(L.HASN(S.co, s), used(E, content_))
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: run(E, RET, S.args))
    if st == "exc":
        error_case(E, S, r)
        return
    E.prove("one chunk is built to be matched", len(S.news) == 1)
    h, got = slot_of_new(E, S.news[0], s)
    E.prove("it has the slots of the request", h == named)
    E.prove("with the resolved contents", z3.Implies(named, got == resolved(E, content_, S.H, S.V)))
    E.prove("a request that cannot be resolved is an error", z3.Not(z3.And(named, ERR(content_, S.H, S.V, z3.BoolVal(False)))))
    E.prove("negations are allowed in a retrieval", all(n_ is False for _, _, _, n_ in S.log))
    E.prove("it has the type of the request", eqv(E, S.news[0].typename, E.getattr(S.o, "typename")))


@task(REG, "the best of all", [RET])
def best(E):
    lemma(E, True)


@task(REG, "retrieval_success", [UT + "retrieval_success"])
def success(E):
    a, t = real(E, "activation"), real(E, "threshold")
    r = run(E, UT + "retrieval_success", [a, t])
    E.prove("a chunk is above the threshold if its activation is not lower", b(E.truth(r)) == (a.t >= t.t))


@task(REG, "calculate_instantaneous_noise", [UT + "calculate_instantaneous_noise"])
def noise(E):
    s = real(E, "scale")
    st, r = attempt(E, lambda: run(E, UT + "calculate_instantaneous_noise", [s]))
    if st == "exc":
        E.prove("only a negative scale is refused", s.t < 0)
        return
    E.prove("a negative scale is refused", s.t >= 0)
    E.prove("no noise if the scale is 0", z3.Implies(s.t == 0, T(E, r) == 0))
    k = z3.Int("k!n")
    E.prove("otherwise one draw of a logistic distribution with mean 0 and this scale", z3.Implies(s.t != 0, z3.Exists([k], T(E, r) == L.LOGISTIC(z3.RealVal(0), s.t, k))))
