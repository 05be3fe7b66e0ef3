"""C13 utility learning: modify_utilities is the sequential delta rule over every recorded firing."""
from pyvc.api import *

PROPERTY = "C13"
REG = []
U = z3.ArraySort(L.S, L.R)


@task(REG, "modify_utilities", ["pyactr.utilities.modify_utilities"])
def modify_utilities(E):
    time, reward, alpha = real(E, "time"), real(E, "reward"), real(E, "alpha")
    names = fn_seq(E, "rulename", tag="rulenames")
    nf = E.fresh_fn("nfirings", L.S, L.I)
    ft = E.fresh_fn("firing", L.S, L.I, L.R)
    # used rule names are keys of a dict: pairwise distinct; every recorded name is a rule
    q, w = z3.Ints("q w")
    E.assume(z3.ForAll([q, w], z3.Implies(z3.And(0 <= q, q < w, w < names.n), names.f(q) != names.f(w))))
    s0 = z3.Const("s0", L.S)
    E.assume(z3.ForAll([s0], nf(s0) >= 0))
    U0 = E.fresh("U0", U)

    state = {"U": U0}
    holder = Model()

    def rule_rec(k):
        t = E.str_term(k)

        def get(f):
            if f == "utility":
                return Sym(z3.Select(state["U"], t))
            raise Unsupported("rule field %r" % (f,))

        def set_(f, v):
            if f != "utility":
                raise Unsupported("writes rule field %r" % (f,))
            E.write(holder, "U")
            state["U"] = z3.Store(state["U"], t, T(E, v))
        return Rec(get, set_)
    rules = SymMap(get=rule_rec)

    def times_of(k):
        t = E.str_term(k)
        return SeqV(nf(t), lambda j: Sym(ft(t, j)), tag=("times", t))
    rulenames = SymMap(get=times_of, keys=names)
    params = DictV([["utility_alpha", alpha], ["utility_learning", True]])

    # specification: UI(i, j) = utilities after j firings of the i-th rule, UO(i) before the i-th rule
    UO = E.fresh_fn("UO", L.I, U)
    UI = E.fresh_fn("UI", L.I, L.I, U)

    def step(cur, name, j):
        u = z3.Select(cur, name)
        return z3.Store(cur, name, L.ROUND(u + alpha.t * (reward.t - (time.t - ft(name, j)) - u), 4))

    class Outer(LoopSpec):
        name = "rules loop"
        modifies = ((holder.uid, "U"),)

        def base(self, E):
            E.assume(UO(0) == U0)

        def unfold(self, E, i):
            self.i = i
            E.assume(UI(i, 0) == UO(i))
            E.assume(UO(i + 1) == UI(i, nf(names.f(i))))

        def heap_inject(self, E, i):
            state["U"] = UO(i)

        def heap_check(self, E, i):
            return [("utilities", state["U"] == UO(i))]

    outer = Outer()

    class Inner(LoopSpec):
        name = "firings loop"
        modifies = ((holder.uid, "U"),)

        def __init__(self, t):
            self.t = t

        def heap_inject(self, E, j):
            state["U"] = UI(outer.i, j)

        def unfold(self, E, j):
            E.assume(UI(outer.i, j + 1) == step(UI(outer.i, j), self.t, j))

        def heap_check(self, E, j):
            return [("utilities", state["U"] == UI(outer.i, j))]

    E.loops["rulenames"] = lambda E, fr, seq: outer
    oldfind = E.find_loop

    def find(seq, fr, node):
        if isinstance(seq.tag, tuple) and seq.tag[0] == "times":
            return Inner(seq.tag[1])
        return Engine.find_loop(E, seq, fr, node)
    E.find_loop = find
    E.cover("precondition satisfiable")
    run(E, "pyactr.utilities.modify_utilities", [time, reward, rulenames, rules, params])
    E.prove("every rule's utility follows the sequential delta rule", state["U"] == UO(names.n))
    # frame: rules without recorded firings keep their utility
