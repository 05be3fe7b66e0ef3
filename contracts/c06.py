"""C06: values used in actions are resolved by the bindings of their variables."""
from .cbv import *

PROPERTY = "C06"
REG = []
ASSUME = ["strings are compared by code point (sorted of two strings)",
          "C06: < and > are joined only with values that are strings (joining them with a chunk is a TypeError in Python)"]


def check(E, neg):
    setup(E)
    vm = abschunk.bindings(E.fresh("bound", L.I))
    vm0 = vm.snapshot()
    s = E.fresh("content", SV)
    wf_content(E, s)
    E.assume(z3.Implies(SV.is_sv(s), z3.And(L.NLEN(SV.negvals(s)) >= 0, L.NLEN(SV.negvars(s)) >= 0)))
    P = Resolved(E, s, vm.has, vm.val)
    E.assume(z3.Implies(P.join, P.strings))
    v = z3.Const("v!ns", Val)
    fold = {kd: z3.Function("neg_" + kd, L.I, z3.ArraySort(Val, L.B)) for kd in ("negvals", "negvars")}     # negated values after i iterations
    okay = z3.Function("neg_bound", L.I, L.B)
    done = []

    def mk(kind, fr):
        sets = [x for x in fr.locals if isinstance(fr.locals[x], (SetV, ValSet))]
        o = fr.locals[sets[0]] if sets else None
        start = (lib.items_arr(E, o.items) if isinstance(o, SetV) else o.arr) if o is not None else z3.K(Val, z3.BoolVal(False))

        class Lp(LoopSpec):
            name = "negated %s of the slot" % ("values" if kind == "negvals" else "variables")
            f = fold[kind]

            def roles(self, E):
                def check(E, i, got):
                    if not isinstance(got, (SetV, ValSet)):
                        return False
                    u = E.fresh("member", Val)
                    i = z3.IntVal(i) if isinstance(i, int) else i
                    a = lib.items_arr(E, got.items) if isinstance(got, SetV) else got.arr
                    return z3.Select(a, u) == z3.Select(self.f(i), u)
                return [Role("neg_result", lambda E, i: ValSet(self.f(i)), check)]

            def elem(self, i):
                return L.NVAL(P.ng, i) if kind == "negvals" else z3.Select(vm.val, L.NVARS(P.nv, i))

            def base(self, E):
                E.assume(self.f(0) == start)
                E.assume(okay(0))

            def unfold(self, E, i):
                E.assume(self.f(i + 1) == z3.Store(self.f(i), self.elem(i), True))
                if kind == "negvars":
                    E.assume(okay(i + 1) == z3.And(okay(i), z3.Select(vm.has, L.NVARS(P.nv, i))))

            def heap_inject(self, E, i):
                if kind == "negvars":
                    E.assume(okay(i))

            def heap_check(self, E, i):
                return [("every negated variable so far is bound", okay(i))] if kind == "negvars" else []

            def at_exit(self, E, n):
                done.append((kind, n, start))
        return Lp
    for kd in ("negvals", "negvars"):
        E.loops[kd] = (lambda kd: lambda E, fr, seq: mk(kd, fr)())(kd)
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: run(E, CBV, [vm, SlotV(s), neg]))
    # what the folds of the loops amount to (induction over the number of iterations; see the lemma tasks below)
    k = z3.Int("k!06")
    if st == "exc":
        bad = z3.Or(P.unbound, P.two, z3.And(z3.BoolVal(neg), P.neg), z3.And(z3.BoolVal(not neg), P.negunbound))
        E.prove("an error is raised only for an unbound variable, a negation that is not allowed, or two values", bad)
        E.prove("the error is an ACTRError", z3.BoolVal(is_exc(E, r, "ACTRError")))
        return
    for kd, n, start in done:
        if kd == "negvars":
            E.assume(okay(n) == z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(vm.has, L.NVARS(P.nv, k)))))
    for kd, n, start in done:
        el = (lambda k: L.NVAL(P.ng, k)) if kd == "negvals" else (lambda k: z3.Select(vm.val, L.NVARS(P.nv, k)))
        u = z3.Const("u!06", Val)
        E.assume(fold[kd](n) == z3.Lambda([u], z3.Or(z3.Select(start, u), z3.Exists([k], z3.And(k >= 0, k < n, el(k) == u)))))
    E.prove("an unbound variable is an error", z3.Not(P.unbound))
    E.prove("two different values for a slot are an error", z3.Not(P.two))
    if neg:
        E.prove("negated values and variables are an error where a chunk is created or modified", z3.Not(P.neg))
    else:
        E.prove("an unbound negated variable is an error", z3.Not(P.negunbound))
    t = r.get("values") if isinstance(r, NT) else E.getattr(r, "values")
    got = lib.val_term(E, t)
    E.prove("the value is the binding of the variable, or the value given", z3.Implies(z3.Not(P.join), L.valeq(got, P.value)))
    E.prove("nothing is added to an empty slot", z3.Implies(z3.And(z3.Not(P.hasw), z3.Not(P.hasx)), Val.is_none(got)))
    E.prove("a comparison sign and a number are joined", z3.Implies(P.plain, got == P.joined))
    E.prove("no variable is left", E.getattr(r, "variables") is None)
    nv = E.getattr(r, "negvariables")
    E.prove("no negated variable is left", isinstance(nv, tuple) and len(nv) == 0)
    ng = E.getattr(r, "negvalues")
    u = E.fresh("any", Val)
    arr = lib.seq_arr(E, ng) if isinstance(ng, (SeqV, ValSet)) else lib.items_arr(E, list(ng))
    E.prove("the negated values are those given and the bindings of the negated variables", z3.Select(arr, u) == (z3.BoolVal(False) if neg else P.negset(u)))
    E.prove("the bindings are unchanged", z3.And(vm.has == vm0.has, vm.val == vm0.val, vm.nhas == vm0.nhas, vm.nset == vm0.nset))


REG.append(Task("check_bound_vars, negation allowed", lambda E: check(E, False), [CBV]))
REG.append(Task("check_bound_vars, negation not allowed", lambda E: check(E, True), [CBV]))


@task(REG, "lemma: negated values collected by the loops", [])
def lemma(E):
    """The set after n steps of adding el(k) is the starting set with all el(k), k < n; by induction on n."""
    F_, el = z3.Function("lemF", L.I, z3.ArraySort(Val, L.B)), z3.Function("lemel", L.I, Val)
    a0 = E.fresh("start", z3.ArraySort(Val, L.B))
    u, k = z3.Const("u!lm", Val), z3.Int("k!lm")
    n = E.fresh("n", L.I)
    E.assume(n >= 0)
    m = E.fresh("m", Val)

    def claim(n, m):
        return z3.Select(F_(n), m) == z3.Or(z3.Select(a0, m), z3.Exists([k], z3.And(k >= 0, k < n, el(k) == m)))
    E.assume(F_(0) == a0)
    E.prove("negated values: base", claim(z3.IntVal(0), m))
    E.assume(claim(n, m))
    E.assume(F_(n + 1) == z3.Store(F_(n), el(n), True))
    E.prove("negated values: step", claim(n + 1, m))
    ok, has = z3.Function("lemok", L.I, L.B), z3.Function("lemhas", L.I, L.B)

    def claim2(n):
        return ok(n) == z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), has(k)))
    E.assume(ok(0))
    E.prove("all bound: base", claim2(z3.IntVal(0)))
    E.assume(claim2(n))
    E.assume(ok(n + 1) == z3.And(ok(n), has(n)))
    E.prove("all bound: step", claim2(n + 1))


@task(REG, "Goal.create", ["pyactr.goals.Goal.create", "pyactr.chunks.Chunk.removeunused", "pyactr.goals.Goal.add"])
def create(E):
    setup(E)
    log, news = [], []
    install(E, log)
    install_chunk(E, news)
    from .c04 import spy_add
    adds = []
    spy_add(E, adds)
    dm = E.instantiate(cls(E, "pyactr.declarative.DecMem"), [], {})
    g = E.instantiate(cls(E, "pyactr.goals.Goal"), [None, dm], {})
    c0 = None
    if E.choose(2, "full"):
        c0 = achunk(E, "c0")
        run(E, "pyactr.buffers.Buffer.add", [g, c0])
    o = achunk(E, "request")
    vm = abschunk.bindings(E.fresh("bound", L.I))
    s = E.fresh("slot", L.S)
    abschunk.name_fact(E, cid(E, o), s)
    wf_content(E, L.SLOT(cid(E, o), s))
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: run(E, "pyactr.goals.Goal.create", [g, o, None, vm]))
    content = L.SLOT(cid(E, o), s)
    us = z3.And(L.HASN(cid(E, o), s), used(E, content))
    err = ERR(content, vm.has, vm.val, z3.BoolVal(True))
    if st == "exc":
        E.prove("an error is an ACTRError", z3.BoolVal(is_exc(E, r, "ACTRError")))
        j = z3.Int("j!gc")
        c = L.SLOT(cid(E, o), L.NAMEAT(cid(E, o), j))
        E.prove("an error is raised only if some content cannot be resolved", z3.Exists([j], z3.And(j >= 0, j < L.NSLOTS(cid(E, o)), used(E, c), ERR(c, vm.has, vm.val, z3.BoolVal(True)))))
        E.prove("nothing is created then", len(news) == 0)
        return
    E.prove("exactly one chunk is created, of the type of the request", len(news) == 1 and b(eqv(E, news[0].typename, E.getattr(o, "typename"))))
    has, got = slot_of_new(E, news[0], s)
    E.prove("a slot that cannot be resolved is an error", z3.Not(z3.And(us, err)))
    E.prove("the new chunk gets exactly the slots the request fills", has == us)
    E.prove("each slot gets the resolved value", z3.Implies(us, got == resolved(E, content, vm.has, vm.val)))
    E.prove("negations are not allowed", all(n is True for _, _, _, n in log))
    items = E.to_list(g)
    E.prove("afterwards the buffer holds exactly the new chunk", len(items) == 1 and items[0] is news[0].obj)
    E.prove("setting the goal harvests nothing by itself", len(adds) == 0)
