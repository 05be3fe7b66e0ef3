"""C15: a rule fires only if all its conditions hold under one consistent binding."""
from .procworld import *
from .chunklayer import setup, achunk, cid, Val
from pyvc import abschunk
from pyvc.models import VarMap, fresh_varmap

PROPERTY = "C15"
REG = []
LHS, TEST, QUERY = PR + "LHStest", PR + "test", PR + "query"
ASSUME = ["C15: whether a pattern matches a chunk, and the bindings of the match, is C01; equality of chunks is C02",
          "C15: the conditions of a rule have different keys; the attributes queried exist"]


# ------------------------------------------------------------------ firing
def firing(E):
    w = world(E, bool(E.choose(2, "noisy")))
    R = w.rules
    w.time = real(E, "time")
    updates, learnt, compiled = [], [], []
    SELF = "_ProductionRules__actrvariables"

    def upd(env, cb):
        updates.append((env, w.phase, E.getattr(w.pr, SELF)))
        cb(("EV", "action"))
    spy_gen(E, PR + "update", [], body=upd)
    spy(E, PR + "compile_rules", compiled, result=(None, None))
    spy(E, UT + "modify_utilities", learnt)
    last = string(E, "last_rule")
    E.setattr(w.pr, "last_rule", last)
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: cycle(E, w))
    E.prove("no error", st == "ok")
    if st != "ok":
        return
    evs = [v for v, _ in r]
    if len(w.tests) == 0:
        E.prove("nothing is carried out if no rule is selected", not updates and E.branch(conj(is_event(evs[1]), lambda: eqv(E, evs[1].get("action"), "NO RULE FOUND"))))
        E.prove("the bindings are unchanged", state_vars(E, w, SELF))
        return
    i, phase, u = w.tests[0]
    t = w.time.t + w.firing.t
    E.prove("the selected rule is tested once more, one firing time after selection", conj(len(w.tests) == 1, phase == 2, ev_time(E, evs[1], w.time.t), ev_time(E, evs[2], t)))
    if not E.branch(w.AGAIN(i)):
        E.prove("it stops if its conditions do not hold any more", conj(len(evs) == 5, ev_at(E, evs[3], t, "PROCEDURAL"), lambda: E.str_term(evs[3].get("action")) == z3.Concat(z3.StringVal("RULE STOPPED FROM FIRING: "), R.NAME(i))))
        E.prove("nothing is carried out, learnt or compiled", not updates and not learnt and not compiled)
        E.prove("the bindings are unchanged", state_vars(E, w, SELF))
        E.prove("the rule fired last is unchanged", E.getattr(w.pr, "last_rule") is last)
        return
    E.prove("its action is carried out once, at the time of firing", conj(len(updates) == 1, lambda: updates[0][1] >= 2, lambda: T(E, updates[0][0]["time"]) == t))
    if not updates:
        return
    what = updates[0][0]["RHSdictionary"]
    E.prove("what is carried out is the action of that rule", conj(isinstance(what, Side), lambda: what.which == 1, lambda: what.i == i))
    E.prove("with the bindings of the last test", updates[0][2] is w.later)
    k = [n for n, v in enumerate(evs) if v == ("EV", "action")]
    E.prove("the firing is reported", conj(len(k) == 1, lambda: ev_at(E, evs[k[0] - 1], t, "PROCEDURAL"), lambda: E.str_term(evs[k[0] - 1].get("action")) == z3.Concat(z3.StringVal("RULE FIRED: "), R.NAME(i))))


def state_vars(E, w, attr):
    v = E.getattr(w.pr, attr)
    return isinstance(v, DictV) and not v.pairs


REG.append(Task("firing", firing, [PROC]))


# ------------------------------------------------------------------ the conditions, from left to right
OK = z3.Function("COND_OK", L.I, L.I, L.B)
RES = z3.Function("COND_RES", L.I, L.I, L.I)


class What(Model):
    def __init__(self, i):
        super().__init__()
        self.i = i


class Buf(Model):
    def __init__(self, nm):
        super().__init__()
        self.nm = nm


class Bufs(Model):
    """The buffers of the model: any names."""
    pyclass = dict

    def __init__(self, E):
        super().__init__()
        self.has = E.fresh_fn("isbuffer", L.S, L.B)

    def m_get(self, E, k, d=None):
        t = E.str_term(k)
        return Buf(t) if E.branch(self.has(t)) else d

    def m___contains__(self, E, k):
        return Sym(self.has(E.str_term(k)))

    def m___getitem__(self, E, k):
        t = E.str_term(k)
        if not E.branch(self.has(t)):
            raise engine.bexc("KeyError", k)
        return Buf(t)


class Binds(State):
    """Bindings that can be updated."""
    def m_copy(self, E):
        return Binds(self.st)

    def m_update(self, E, o):
        if not isinstance(o, State):
            raise Unsupported("bindings updated with %r" % (o,))
        E.write(self, "st")
        self.st = o.st

    def iterate(self, E):
        raise Unsupported("going through the bindings")


class Conds(Model):
    """Any number of conditions; the sign of each distinguished."""
    pyclass = dict

    def __init__(self, E):
        super().__init__()
        self.n = E.fresh("nconditions", L.I)
        E.assume(self.n >= 0)
        self.SIGN, self.NAME = E.fresh_fn("sign", L.I, L.S), E.fresh_fn("name", L.I, L.S)
        self.last = None

    def rng(self, i):
        return z3.And(i >= 0, i < self.n)

    def valid(self, i):
        return z3.Or(self.SIGN(i) == z3.StringVal("="), self.SIGN(i) == z3.StringVal("?"))

    def key(self, E, i):
        self.last = i
        k = E.choose(3, "sign")
        if k == 2:
            E.assume(z3.And(z3.Length(self.SIGN(i)) == 1, z3.Not(self.valid(i))))
            return Sym(z3.Concat(self.SIGN(i), self.NAME(i)))
        s = z3.StringVal("=?"[k])
        E.assume(self.SIGN(i) == s)
        return Sym(z3.Concat(s, self.NAME(i)))

    def iterate(self, E):
        return SeqV(self.n, lambda i: self.key(E, i), tag="conditions")
    m_keys = iterate

    def m_items(self, E):
        return SeqV(self.n, lambda i: (self.key(E, i), What(i)), tag="conditions")

    def m___getitem__(self, E, k):
        t = lib.flat_concat(E.str_term(k))
        if len(t) == 2 and z3.is_app(t[1]) and t[1].decl().eq(self.NAME(z3.IntVal(0)).decl()):
            return What(t[1].arg(0))
        raise Unsupported("a condition by another key")


def lhs(update):
    def run_(E):
        setup(E)
        C, B = Conds(E), Bufs(E)
        pr = rules_obj(E, DictV(), DictV(), params(E))
        E.setattr(pr, "buffers", B)
        E.setattr(pr, "used_rulename", "rule")
        SELF = "_ProductionRules__actrvariables"
        before = State(E.fresh("own_bindings", L.I))
        E.setattr(pr, SELF, before)
        st0 = E.fresh("start", L.I)
        binds = Binds(st0)
        S = E.fresh_fn("after", L.I, L.I)
        E.assume(S(z3.IntVal(0)) == st0)
        k = E.fresh("k", L.I)
        E.assume(C.rng(k))
        log = []

        def holds_(which, sign):
            def c(E, a, kw):
                e = E.bind(F(E, PR + which), a, kw)
                i = e["testchunk" if which == "test" else "testdict"]
                if not isinstance(i, What):
                    raise Unsupported("condition %r" % (i,))
                i = i.i
                nm = E.str_term(e["submodule_name"])
                E.prove("%s is for conditions written with %s" % (which, sign), C.SIGN(i) == z3.StringVal(sign))
                E.prove("the condition is tested on the buffer it names", conj(nm == C.NAME(i), b(z3.BoolVal(e["tested"] is None)) == z3.Not(B.has(C.NAME(i))), True if e["tested"] is None else isinstance(e["tested"], Buf), lambda: e["tested"] is None or e["tested"].nm == C.NAME(i)))
                v = e["temp_actrvariables"]
                if not isinstance(v, State):
                    raise Unsupported("bindings %r" % (v,))
                E.prove("the bindings are those of the conditions to the left", v.st == S(i))
                log.append(i)
                if E.branch(OK(i, v.st)):
                    return (True, State(RES(i, v.st)))
                return (False, None if which == "test" else State(E.fresh("rejected", L.I)))
            E.contracts[PR + which] = c
        holds_("test", "=")
        holds_("query", "?")

        class Left(LoopSpec):
            name = "conditions from left to right"

            def modifies(self, E):
                return [(binds.uid, "st")]

            def roles(self, E):
                def inj(E, i):
                    binds.st = S(i)
                    return binds
                return [Role("actrvariables", inj, lambda E, i, v: conj(isinstance(v, State), lambda: v.st == S(i)), optional=True)]

            def unfold(self, E, i):
                E.assume(S(i + 1) == RES(i, S(i)))

            def heap_inject(self, E, i):
                binds.st = S(i)

            def assume_iter(self, E, i):
                E.assume(z3.Implies(k < i, z3.And(OK(k, S(k)), C.valid(k))))
            at_exit = assume_iter

            def heap_check(self, E, i):
                return [("all conditions so far hold", z3.Implies(k < i, z3.And(OK(k, S(k)), C.valid(k))))]
        E.loops["conditions"] = lambda E, fr, seq: Left()
        E.cover("precondition satisfiable")
        st, r = attempt(E, lambda: run(E, LHS, [pr, C, binds] + ([] if update is None else [update])))
        if st == "exc":
            E.prove("an error only for a condition with an invalid sign", conj(is_exc(E, r, "ACTRError"), C.last is not None, lambda: z3.Not(C.valid(C.last))))
            E.prove("the bindings of the model are unchanged", E.getattr(pr, SELF) is before)
            return
        own = E.getattr(pr, SELF)
        if r is True:
            E.prove("the conditions hold only if each holds, under the bindings of those to its left", z3.And(OK(k, S(k)), C.valid(k)))
            if update is True:
                E.prove("when fired, the bindings become those after the last condition", conj(isinstance(own, State), lambda: own.st == S(C.n)))
            else:
                E.prove("the bindings of the model are unchanged", own is before)
        else:
            E.prove("the conditions fail only if one fails under the bindings of those to its left", conj(r is False, len(log) > 0, lambda: C.rng(log[-1]), lambda: z3.Not(OK(log[-1], S(log[-1])))))
            E.prove("the bindings of the model are unchanged", own is before)
    return run_


for _u, _n in ((None, "selection"), (True, "firing"), (False, "no update")):
    REG.append(Task("conditions at " + _n, lhs(_u), [LHS]))


# ------------------------------------------------------------------ one condition on a buffer
class Named(Model):
    """The buffers, of which one has the given name."""
    pyclass = dict

    def __init__(self, nm, buf):
        super().__init__()
        self.nm, self.buf = nm, buf

    def m___getitem__(self, E, k):
        if not E.str_term(k).eq(self.nm):
            raise Unsupported("another buffer")
        return self.buf

    def m_get(self, E, k, d=None):
        return self.m___getitem__(E, k)


def test_world(E, full):
    class W:
        pass
    w = W()
    setup(E)
    w.c = achunk(E, "content") if full else None
    w.name = string(E, "buffer")
    E.assume(z3.Length(w.name.t) > 0)
    w.buf = visual(E, decmem(E), w.c)
    w.pr = rules_obj(E, DictV(), DictV(), params(E))
    E.setattr(w.pr, "buffers", Named(w.name.t, w.buf))
    w.pattern = achunk(E, "pattern")
    w.binds = fresh_varmap(E, "bindings")
    w.start = w.binds.snapshot()
    w.after = fresh_varmap(E, "matched")
    w.MATCH = E.fresh("matches", L.B)
    w.log = []

    def le(E, a, k):
        bv = E.getattr(a[0], "boundvars")
        w.log.append((a[0], a[1], bv.snapshot() if isinstance(bv, VarMap) else None, bv is w.binds))
        E.setattr(a[0], "boundvars", VarMap(w.after.has, w.after.val, w.after.nhas, w.after.nset))
        return E.branch(w.MATCH)
    E.contracts["pyactr.chunks.Chunk.__le__"] = le
    return w


def test_full(E):
    w = test_world(E, True)
    key = w.name.t          # bindings are indexed by the name after =
    other = z3.And(z3.Select(w.start.has, key), z3.Not(L.valeq(Val.vchk(cid(E, w.c)), z3.Select(w.start.val, key))))
    E.assume(z3.Implies(z3.Select(w.start.has, key), Val.is_vchk(z3.Select(w.start.val, key))))
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: run(E, TEST, [w.pr, w.name, w.buf, w.pattern, w.binds]))
    E.prove("no error", st == "ok")
    if st != "ok":
        return
    E.prove("the bindings it was given are unchanged", w.binds.same(w.start))
    E.prove("the buffer is unchanged", holds(E, w.buf, w.c))
    E.prove("a pair is returned", isinstance(r, tuple) and len(r) == 2)
    if E.branch(other):
        E.prove("fails if the name of the buffer is bound to another chunk", r[0] is False)
        return
    E.prove("the pattern is matched once with the chunk in the buffer, under the bindings given",
            conj(len(w.log) == 1, lambda: same(E, w.log[0][0], w.pattern), lambda: same(E, w.log[0][1], w.c), lambda: w.log[0][2] is not None, lambda: w.log[0][2].same(w.start)))
    if not E.branch(w.MATCH):
        E.prove("fails if the pattern does not match", r[0] is False)
        return
    E.prove("holds if the pattern matches", r[0] is True)
    v = r[1]
    E.prove("the bindings after are those of the match, and the buffer's name for its chunk",
            conj(isinstance(v, VarMap), lambda: z3.And(
                v.has == z3.Store(w.after.has, w.name.t, z3.BoolVal(True)), v.nhas == w.after.nhas, v.nset == w.after.nset,
                v.val == z3.Store(w.after.val, w.name.t, Val.vchk(cid(E, w.c))))))


def test_empty(E):
    w = test_world(E, False)
    buf = None if E.choose(2, "no such buffer") else w.buf
    st, r = attempt(E, lambda: run(E, TEST, [w.pr, w.name, buf, w.pattern, w.binds]))
    E.prove("an empty or missing buffer fails", conj(st == "ok", lambda: isinstance(r, tuple) and r[0] is False))
    E.prove("the bindings it was given are unchanged", w.binds.same(w.start))
    E.prove("the buffer stays empty", holds(E, w.buf, None))


REG.append(Task("test of a full buffer", test_full, [TEST]))
REG.append(Task("test of an empty buffer", test_empty, [TEST]))


# ------------------------------------------------------------------ queries
class Asked(Model):
    """A query: any number of (attribute, value)."""
    pyclass = dict

    def __init__(self, E):
        super().__init__()
        self.n = E.fresh("nqueries", L.I)
        E.assume(self.n >= 0)
        self.KEY, self.VALUE = E.fresh_fn("attribute", L.I, L.S), E.fresh_fn("inquiry", L.I, L.S)
        self.last, self.met = None, []

    def rng(self, i):
        return z3.And(i >= 0, i < self.n)

    def isbuf(self, i):
        return self.KEY(i) == z3.StringVal("buffer")

    def key(self, E, i):
        self.last = i
        self.met.append(i)
        return Sym(self.KEY(i))

    def iterate(self, E):
        return SeqV(self.n, lambda i: self.key(E, i), tag="query")
    m_keys = iterate

    def m_items(self, E):
        return SeqV(self.n, lambda i: (self.key(E, i), Sym(self.VALUE(i))), tag="query")

    def m___getitem__(self, E, k):
        t = E.str_term(k)
        if z3.is_app(t) and t.decl().eq(self.KEY(z3.IntVal(0)).decl()):
            return Sym(self.VALUE(t.arg(0)))
        if self.last is not None and k == "buffer":
            # the entry just met, if that is the one
            if E.branch(self.isbuf(self.last)):
                return Sym(self.VALUE(self.last))
        raise Unsupported("a query by another key")

    def m_get(self, E, k, d=None):
        return self.m___getitem__(E, k)


def query(E):
    setup(E)
    Q = Asked(E)
    k = E.fresh("k", L.I)
    E.assume(Q.rng(k))
    buf = visual(E, decmem(E), achunk(E, "content"))
    pr = rules_obj(E, DictV(), DictV(), params(E))
    binds = fresh_varmap(E, "bindings")
    start = binds.snapshot()
    AGREE = z3.Function("AGREES", L.S, L.S, L.B)
    FULL = z3.Function("BUFFER_IS", L.S, L.B)
    good = lambda i: z3.If(Q.isbuf(i), FULL(Q.VALUE(i)), AGREE(Q.KEY(i), Q.VALUE(i)))

    def c(E, a, kw):
        E.prove("the buffer named is asked", same(E, a[0], buf))
        return Sym(AGREE(E.str_term(a[1]), E.str_term(a[2])))

    def d(E, a, kw):
        E.prove("the buffer named is asked", same(E, a[0], buf))
        return Sym(FULL(E.str_term(a[1])))
    E.contracts["pyactr.vision.Visual.test"] = c
    E.contracts["pyactr.buffers.Buffer.test_buffer"] = d

    class Sp(LoopSpec):
        name = "queries"

        def assume_iter(self, E, i):
            E.assume(z3.Implies(k < i, good(k)))
        at_exit = assume_iter

        def heap_check(self, E, i):
            return [("all queries so far agree", z3.Implies(k < i, good(k)))]
    E.loops["query"] = lambda E, fr, seq: Sp()
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: run(E, QUERY, [pr, string(E, "name"), buf, Q, binds]))
    E.prove("no error", st == "ok")
    if st != "ok":
        return
    E.prove("the bindings it was given are unchanged", binds.same(start))
    E.prove("a pair is returned", isinstance(r, tuple) and len(r) == 2)
    J = z3.Int("j!query")
    ok = r[0] if isinstance(r[0], bool) else E.branch(b(r[0]))
    if ok:
        E.prove("holds only if every query agrees with the buffer", good(k))
        E.prove("and the bindings stay as they are", conj(isinstance(r[1], VarMap), lambda: r[1].same(start)))
    else:
        E.prove("fails only if some query does not agree", z3.Or(z3.Exists([J], z3.And(Q.rng(J), z3.Not(good(J)))), *[z3.And(Q.rng(i), z3.Not(good(i))) for i in Q.met]))


REG.append(Task("queries", query, [QUERY]))


@task(REG, "Buffer.test_buffer", ["pyactr.buffers.Buffer.test_buffer"])
def test_buffer(E):
    setup(E)
    full = bool(E.choose(2, "full"))
    c = achunk(E, "content") if full else None
    buf = visual(E, decmem(E), c)
    q = string(E, "inquiry")
    r = run(E, "pyactr.buffers.Buffer.test_buffer", [buf, q])
    E.prove("full and empty are what the buffer is", b(eqv(E, r, True)) == (q.t == z3.StringVal("full" if full else "empty")))
    E.prove("the answer is yes or no", z3.Or(b(eqv(E, r, True)), b(eqv(E, r, False))))
    E.prove("the buffer is unchanged", holds(E, buf, c))


def mk_state(qual, make, attrs):
    def run_(E):
        setup(E)
        buf = make(E)
        vals = {}
        for a in attrs:
            vals[a] = string(E, a)
            E.setattr(buf, a, vals[a])
        q = string(E, "inquiry")
        a = attrs[E.choose(len(attrs), "attribute")]
        r = run(E, qual, [buf, a, q])
        E.prove("the answer is whether the state is the one asked for", b(eqv(E, r, True)) == (vals[a].t == q.t))
        E.prove("the answer is yes or no", z3.Or(b(eqv(E, r, True)), b(eqv(E, r, False))))
        E.prove("the state is unchanged", all(E.getattr(buf, x) is vals[x] for x in attrs))
    REG.append(Task(qual.split(".", 1)[1], run_, [qual]))


def motorbuf(E):
    return E.instantiate(cls(E, "pyactr.motor.Motor"), [], {})


mk_state("pyactr.goals.Goal.test", goal, ["state"])
mk_state("pyactr.declarative.DecMemBuffer.test", lambda E: retrieval(E, decmem(E)), ["state"])
mk_state("pyactr.vision.VisualLocation.test", lambda E: visual(E, None, None, True), ["state"])
mk_state("pyactr.vision.Visual.test", visual, ["state", "preparation", "processor", "execution", "autoattending"])
mk_state("pyactr.motor.Motor.test", motorbuf, ["state", "preparation", "processor", "execution", "last_key"])
