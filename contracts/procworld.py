"""One cycle of the production system (ProductionRules.procedural_process) over any number of rules; shared by C14 and C15."""
from .common import *

PR = "pyactr.productions.ProductionRules."
PROC = PR + "procedural_process"
UT = "pyactr.utilities."


class Side(Model):
    """The conditions (0) or the action (1) of rule i."""
    def __init__(self, i, which):
        super().__init__()
        self.i, self.which = i, which


class State(Model):
    """Bindings of variables, as a value."""
    pyclass = dict

    def __init__(self, st):
        super().__init__()
        self.st = st

    def m_copy(self, E):
        return State(self.st)


class Rules(Model):
    """Any number of rules with different names."""

    def __init__(self, E):
        super().__init__()
        self.n = E.fresh("nrules", L.I)
        E.assume(self.n >= 0)
        self.NAME, self.U = E.fresh_fn("rulename", L.I, L.S), E.fresh_fn("utility", L.I, L.R)
        self.IDX = E.fresh_fn("ruleindex", L.S, L.I)
        self.reward = {}
        self.hasreward = E.fresh_fn("hasreward", L.I, L.B)
        self.R = E.fresh_fn("reward", L.I, L.R)
        self.used = []          # recorded firings
        self.cleared = 0
        self.ghosts = []
        self.made = {}

    def rng(self, i):
        return z3.And(i >= 0, i < self.n)

    def at(self, E, i):
        E.fact(z3.Implies(self.rng(i), z3.And(self.IDX(self.NAME(i)) == i, z3.Length(self.NAME(i)) > 0)))
        return i

    def index(self, E, k):
        t = E.str_term(k)
        if z3.is_app(t) and t.decl().eq(self.NAME(z3.IntVal(0)).decl()):
            return t.arg(0)
        raise Unsupported("a rule by another name")

    def names(self, E):
        return self.seq(E, lambda i: Sym(self.NAME(self.at(E, i))))

    def seq(self, E, wrap):
        sq = SeqV(self.n, wrap, tag="rules")
        sq.rule, sq.pos = (lambda i: i), (lambda x: x)
        sq.sorted_seq = lambda E, kw: self.sorted_(E, kw, wrap)
        return sq

    def sorted_(self, E, kw, wrap):
        """sorted(...): a permutation in the order of the key function."""
        f, rev = kw.get("key"), kw.get("reverse", False)
        if f is None or not isinstance(rev, bool):
            raise Unsupported("sorting the rules by themselves")
        key = lambda i: T(E, E.call(f, [wrap(i)], {}))
        P, POS = E.fresh_fn("sorted", L.I, L.I), E.fresh_fn("place", L.I, L.I)

        def at(i):
            E.fact(z3.Implies(self.rng(i), z3.And(self.rng(P(i)), POS(P(i)) == i)))
            for g in self.ghosts:
                E.fact(z3.Implies(self.rng(g), z3.And(self.rng(POS(g)), P(POS(g)) == g)))
                a, b_ = (key(P(i)), key(g)) if not rev else (key(g), key(P(i)))
                E.fact(z3.Implies(z3.And(self.rng(i), self.rng(g), i <= POS(g)), a <= b_))
            return P(i)
        sq = SeqV(self.n, lambda i: wrap(at(i)), tag="rules", pyclass=list)
        sq.rule, sq.pos = at, POS
        sq.sorted_seq = lambda E, kw: self.sorted_(E, kw, wrap)
        for g in self.ghosts:
            E.fact(z3.Implies(self.rng(g), z3.And(self.rng(POS(g)), P(POS(g)) == g)))
        return sq

    def iterate(self, E):
        return self.names(E)
    m_keys = m___iter__ = iterate

    def m_items(self, E):
        return self.seq(E, lambda i: (Sym(self.NAME(self.at(E, i))), self.rule(E, i)))

    def rule(self, E, i):
        def get(k):
            if k == "utility":
                return Sym(self.U(i))
            if k == "reward":
                return Sym(self.R(i)) if E.branch(self.hasreward(i)) else None
            if k == "rule":
                def make(E, args, kwargs):
                    return ListV([Side(i, 0), Side(i, 1)], "iter")
                return PyFn(make, "rule")
            raise engine.bexc("KeyError", k)
        return Rec(get)

    def m___getitem__(self, E, k):
        i = self.index(E, k)
        return self.rule(E, i)

    def get_used_rulenames(self, E):
        return UsedNames(self)

    def setattr(self, E, nm, v):
        raise Unsupported("attribute %s of the rules" % nm)


class UsedNames(Model):
    """Productions.used_rulenames: what is recorded is kept."""
    pyclass = dict

    def __init__(self, rules):
        super().__init__()
        self.rules = rules

    def m_setdefault(self, E, k, v):
        rules = self.rules

        class Times(Model):
            def m_append(self, E, t):
                E.write(rules, "used")
                rules.used.append((k, t))
        return Times()


def world(E, noisy=None):
    class W:
        pass
    w = W()
    w.rules = R = Rules(E)
    w.k = E.fresh("k", L.I)
    R.ghosts = [w.k]
    E.assume(R.rng(w.k))
    R.at(E, w.k)
    w.sub = bool(E.choose(2, "subsymbolic")) if noisy is None else noisy
    w.noise = real(E, "utility_noise")
    E.assume(w.noise.t >= 0)
    w.NZ = E.fresh_fn("noise", L.I, L.R)
    w.APPL = E.fresh_fn("applies", L.I, L.B)
    w.AGAIN = E.fresh_fn("applies_later", L.I, L.B)
    w.cur = {}
    w.tests, w.updates, w.draws = [], [], []
    w.start = State(E.fresh("bindings0", L.I))
    w.start.init = True
    w.later = State(E.fresh("bindings1", L.I))
    w.firing = real(E, "rule_firing")
    w.learning = bool(E.choose(2, "utility learning")) if noisy is None else False
    mp = params(E, subsymbolic=w.sub, utility_noise=w.noise, rule_firing=w.firing, utility_learning=w.learning)
    w.buf = visual(E, decmem(E))
    w.pr = rules_obj(E, DictV([["visual", w.buf]]), DictV(), mp)
    E.setattr(w.pr, "rules", R)
    E.setattr(w.pr, "ordered_rulenames", Model())
    E.setattr(w.pr, "_ProductionRules__actrvariables", DictV([["=x", "left from the cycle before"]]))
    w.procs = ListV(["other process"])
    E.setattr(w.pr, "procs", w.procs)
    w.phase = 0             # 0 conflict resolution, 1 a rule is selected, 2 its firing time is over
    E.contracts[PR + "LHStest"] = lambda E, a, k: lhstest(E, w, E.bind(F(E, PR + "LHStest"), a, k))
    E.contracts[UT + "calculate_instantaneous_noise"] = lambda E, a, k: draw(E, w, a)
    loops(E, w)
    return w


def lhstest(E, w, e):
    d, v, upd = e["dictionary"], e["actrvariables"], e["update"]
    if not isinstance(d, Side):
        raise Unsupported("conditions %r" % (d,))
    E.prove("what is tested are the conditions of a rule", d.which == 0)
    if w.phase == 0:
        E.prove("no bindings are left from before", isinstance(v, DictV) and not v.pairs)
        E.prove("testing for selection does not bind", b(eqv(E, upd, False)))
        E.prove("testing gets a copy of the bindings", v is not E.getattr(w.pr, "_ProductionRules__actrvariables"))
        return Sym(w.APPL(d.i))
    w.tests.append((d.i, w.phase, upd))
    E.prove("no bindings are left from the selection", isinstance(v, DictV) and not v.pairs)
    ok = E.branch(w.AGAIN(d.i))
    if ok and upd is True:
        E.setattr(w.pr, "_ProductionRules__actrvariables", w.later)
    return ok


def draw(E, w, a):
    """A draw of noise: the first one made for a rule in its turn is that rule's."""
    E.prove("the noise is the utility noise", eqv(E, a[0], w.noise))
    i = w.cur.get("rule")
    if i is None or w.cur.get("drawn"):
        return real(E, "another_noise")
    w.cur["drawn"] = True
    E.fact(z3.Implies(w.noise.t == 0, w.NZ(i) == 0))
    return Sym(w.NZ(i))


def utility(w, i):
    return w.rules.U(i) + w.NZ(i) if w.sub else w.rules.U(i)


def loops(E, w):
    R = w.rules

    class Selection(LoopSpec):
        name = "search for a rule"

        def __init__(self, seq):
            self.seq, self.memo = seq, {}
            for x in (w.k,):
                if w.sub:
                    E.fact(z3.Implies(w.noise.t == 0, w.NZ(x) == 0))

        def modifies(self, E):
            return [(w.pr.uid, "used_rulename")]

        def seen(self, i):
            return z3.And(self.seq.pos(w.k) < i, w.APPL(w.k))

        def winner(self, i):
            key = z3.simplify(i).get_id()
            if key not in self.memo:
                p = None
                if E.branch(E.fresh("found", L.B)):
                    p = E.fresh("winner", L.I)
                    R.at(E, p)
                    E.assume(z3.And(R.rng(p), w.APPL(p), z3.Implies(self.seen(i), utility(w, w.k) <= utility(w, p))))
                    if w.sub:
                        E.fact(z3.Implies(w.noise.t == 0, w.NZ(p) == 0))
                else:
                    E.assume(z3.Not(self.seen(i)))
                self.memo[key] = (i, p)
            return self.memo[key][1]

        def chk_name(self, E, i, v):
            self.now = v
            if v is None:
                return z3.Not(self.seen(i))
            if not lib.is_str(v):
                return z3.BoolVal(False)
            j = R.IDX(E.str_term(v))
            return z3.And(R.rng(j), R.NAME(j) == E.str_term(v), w.APPL(j), z3.Implies(self.seen(i), utility(w, w.k) <= utility(w, j)))

        def chk_max(self, E, i, v):
            if v is UNBOUND or v is None:
                return z3.BoolVal(False)
            x = lib.to_x(E, v)
            if self.now is None:
                return x.k == -1
            if not lib.is_str(self.now):
                return z3.BoolVal(False)
            return z3.And(x.k == 0, x.r == utility(w, R.IDX(E.str_term(self.now))))

        def roles(self, E):
            return [Role("used_rulename", lambda E, i: None if self.winner(i) is None else Sym(R.NAME(self.winner(i))), self.chk_name),
                    Role("max_utility", lambda E, i: float("-inf") if self.winner(i) is None else Sym(utility(w, self.winner(i))), self.chk_max)]

        def unfold(self, E, i):
            r = self.seq.rule(i)
            R.at(E, r)
            w.cur["rule"] = r
            w.cur.pop("drawn", None)

        def heap_inject(self, E, i):
            w.pr.attrs["used_rulename"] = E.fresh_str("some_rule")

        def at_exit(self, E, n):
            w.cur.clear()

        def on_break(self, E, i):
            w.cur.clear()
    E.loops["rules"] = lambda E, fr, seq: Selection(seq)


def selected(E, evs, w, t):
    """Of the events of a cycle: (index term of the rule selected or None, position of the event) ; proves there is at most one."""
    R = w.rules
    hits = [(n, v) for n, (v, _) in enumerate(evs) if is_event(v) and lib.is_str(v.get("action")) and not isinstance(v.get("action"), str)]
    return hits


def cycle(E, w, at=None):
    """Runs the cycle; a snapshot at every event; the phase follows the events."""
    g = run(E, PROC, [w.pr, w.time])
    out = []

    def cb(v):
        out.append((v, dict(tests=len(w.tests), updates=len(w.updates), proc="PROCEDURAL" in w.procs.items, bindings=E.getattr(w.pr, "_ProductionRules__actrvariables"))))
        if is_event(v):
            w.phase = len(out) - 1
    g.run(cb)
    return out
