"""C16: the actions of a rule are carried out in order, each once."""
from .common import *

PROPERTY = "C16"
REG = []
PR = "pyactr.productions.ProductionRules."
METHODS = ("extra_test", "execute", "modify", "overwrite", "modify_request", "retrieveorset", "clear")
ASSUME = ["C16: every buffer named in the action exists; the names of variables are not names of buffers; what each action does is its own contract (C17, C18, C20)"]
# the specification: the sign of an action, the action, its place in the order, whether it runs concurrently
SIGNS = {"!": ("execute", 0, False), "?": ("extra_test", 0, False), "=": ("modify", 1, False), "@": ("overwrite", 2, False),
         "*": ("modify_request", 3, True), "+": ("retrieveorset", 4, True), "~": ("clear", 5, False)}


def by_sign(code, f, default):
    r = default
    for s, v in SIGNS.items():
        r = z3.If(code == z3.StringVal(s), f(v), r)
    return r


class What(Model):
    """What is written for a key of the action (a chunk, a test, commands or nothing)."""
    def __init__(self, i):
        super().__init__()
        self.i = i


class Rhs(Model):
    """The action of a rule: any number of entries with different keys."""
    pyclass = dict

    def __init__(self, E, bad=False):
        super().__init__()
        self.n = E.fresh("nactions", L.I)
        E.assume(self.n >= 0)
        self.CODE, self.NAME = E.fresh_fn("sign", L.I, L.S), E.fresh_fn("buffer", L.I, L.S)
        self.P, self.POS = E.fresh_fn("sorted", L.I, L.I), E.fresh_fn("place", L.I, L.I)
        self.IDX = E.fresh_fn("keyindex", L.S, L.I)
        self.ghosts, self.bad, self.facts = [], None, []
        if bad:
            self.bad = E.fresh("badentry", L.I)
            E.assume(z3.And(self.bad >= 0, self.bad < self.n))

    def rng(self, i):
        return z3.And(i >= 0, i < self.n)

    def facts_at(self, E, i):
        """of the i-th entry: its sign is one of the signs; no other entry has its key"""
        f = [by_sign(self.CODE(i), lambda v: z3.BoolVal(True), z3.BoolVal(False)) if self.bad is None else z3.BoolVal(True)]
        f += [z3.Implies(z3.And(self.CODE(i) == self.CODE(g), self.NAME(i) == self.NAME(g)), i == g) for g in self.ghosts]
        f += [h(i) for h in self.facts]
        E.fact(z3.Implies(self.rng(i), z3.And(*f)))

    def key(self, E, i):
        """The key of entry i, its sign distinguished."""
        self.facts_at(E, i)
        k = E.choose(len(SIGNS), "sign")
        s = z3.StringVal(list(SIGNS)[k])
        E.assume(self.CODE(i) == s)
        if not E.feasible(z3.BoolVal(True)):
            raise engine.PathEnd()
        return Sym(z3.Concat(s, self.NAME(i)))

    def seq(self, E, wrap):
        sq = SeqV(self.n, lambda i: wrap(i, self.key(E, i)), tag="action")
        sq.sorted_seq = lambda E, kw: self.sorted_(E, kw, wrap)
        return sq

    def sorted_(self, E, kw, wrap):
        """sorted(...): a permutation of the entries in the order of the key function given (evaluated for every sign)."""
        f, rev = kw.get("key"), kw.get("reverse", False)
        if f is None or not isinstance(rev, bool):
            raise Unsupported("sorting the actions by themselves")
        if self.bad is not None:
            self.facts_at(E, self.bad)
            E.call(f, [wrap(self.bad, Sym(z3.Concat(self.CODE(self.bad), self.NAME(self.bad))))], {})
        x = E.fresh("any", L.I)
        val = {}
        for s in SIGNS:
            v = E.call(f, [wrap(x, Sym(z3.Concat(z3.StringVal(s), self.NAME(x))))], {})
            if not isinstance(v, (int, Fraction)):
                raise Unsupported("sorting the actions by something else than a number for their sign")
            val[s] = -v if rev else v
        keyval = lambda c: z3.simplify(z3.substitute(by_sign_dict(c, val)))
        for a in self.ghosts:
            E.assume(z3.And(self.rng(self.POS(a)), self.P(self.POS(a)) == a))
            for c in self.ghosts:
                E.assume(z3.Implies(by_sign_dict(self.CODE(a), val) < by_sign_dict(self.CODE(c), val), self.POS(a) < self.POS(c)))

        def at(i):
            E.fact(z3.Implies(self.rng(i), z3.And(self.rng(self.P(i)), self.POS(self.P(i)) == i)))
            return self.P(i)
        sq = SeqV(self.n, lambda i: wrap(at(i), self.key(E, at(i))), tag="sorted actions", pyclass=list)
        sq.fromkeys = lambda v: Ordered(self, sq)

        def as_dict(elem):
            # {key: what is written for it ...}, in the sorted order
            x = E.fresh("any", L.I)
            k, v = elem(x)
            t = lib.flat_concat(E.str_term(k))
            if not (len(t) == 2 and z3.is_string_value(t[0]) and t[1].eq(self.NAME(self.P(x))) and isinstance(v, What) and v.i.eq(self.P(x))):
                raise Unsupported("actions under other keys")
            d = Ordered(self, sq)
            d.filled = True
            return d
        sq.as_dict = as_dict
        return sq

    def iterate(self, E):
        return self.seq(E, lambda i, k: k)
    m_keys = iterate

    def m_items(self, E):
        return self.seq(E, lambda i, k: (k, What(i)))

    def m___getitem__(self, E, k):
        t = lib.flat_concat(E.str_term(k))
        if len(t) == 2 and t[1].decl().eq(self.NAME(z3.IntVal(0)).decl()):
            return What(t[1].arg(0))
        raise Unsupported("an entry of the action by another key")


def by_sign_dict(c, val):
    r = z3.RealVal(0)
    for s, v in val.items():
        r = z3.If(c == z3.StringVal(s), L.rv(v), r)
    return r


class Ordered(Model):
    """An ordered dictionary with the keys of the action."""
    pyclass = dict

    def __init__(self, rhs, sq):
        super().__init__()
        self.rhs, self.sq, self.filled = rhs, sq, False

    def m_update(self, E, o):
        if o is not self.rhs:
            raise Unsupported("another dictionary merged into the actions")
        E.write(self, "map")
        self.filled = True

    def iterate(self, E):
        return self.sq
    m_keys = iterate

    def m___getitem__(self, E, k):
        return self.rhs.m___getitem__(E, k) if self.filled else None

    def m_items(self, E):
        return SeqV(self.sq.n, lambda i: (lambda k: (k, self.m___getitem__(E, k)))(self.sq.elem(i)), tag=self.sq.tag)


class Vars(Model):
    """The bindings of the rule: any keys =x, ~=x."""
    pyclass = dict

    def __init__(self, E, like=None):
        super().__init__()
        self.live = []
        if like is None:
            self.n = E.fresh("nbindings", L.I)
            E.assume(self.n >= 0)
            self.NEG, self.VN = E.fresh_fn("negated", L.I, L.B), E.fresh_fn("variable", L.I, L.S)
            self.AT = E.fresh_fn("bindingindex", L.S, L.I)
            self.has = E.fresh("bound", z3.ArraySort(L.S, L.B))
            self.inbuf = None
        else:
            self.n, self.NEG, self.VN, self.AT, self.has, self.inbuf = like.n, like.NEG, like.VN, like.AT, like.has, like.inbuf
            self.orig = like
            like.live.append(self)

    def m_copy(self, E):
        return Vars(E, self)

    def m_pop(self, E, k, *d):
        t = E.str_term(k)
        if not E.branch(z3.Select(self.has, t)):
            if d:
                return d[0]
            raise engine.bexc("KeyError", k)
        E.write(self, "has")
        self.has = z3.Store(self.has, t, z3.BoolVal(False))
        return What(z3.IntVal(-1))

    def m___delitem__(self, E, k):
        self.m_pop(E, k)

    def m___contains__(self, E, k):
        return Sym(z3.Select(self.has, E.str_term(k)))

    def iterate(self, E):
        has, orig = self.has, self

        def key(i):
            # the keys are those bound at the start, each at one place
            if E.branch(self.NEG(i)):
                E.fact(z3.Not(self.inbuf(z3.Concat(z3.StringVal("="), self.VN(i)))))
                return Sym(z3.Concat(z3.StringVal("~="), self.VN(i)))
            E.fact(z3.Implies(z3.And(i >= 0, i < self.n), self.AT(self.VN(i)) == i))
            return Sym(z3.Concat(z3.StringVal("="), self.VN(i)))
        sq = SeqV(self.n, key, tag="bindings")
        sq.guard = lambda i: z3.Select(has, z3.Concat(z3.If(self.NEG(i), z3.StringVal("~="), z3.StringVal("=")), self.VN(i)))
        return sq
    m_keys = iterate


class Names(Model):
    """A collection of names (or keys) of the buffers used so far, for code that keeps one."""
    pyclass = set

    def __init__(self, has):
        super().__init__()
        self.has = has

    def m_add(self, E, k):
        E.write(self, "has")
        self.has = z3.Store(self.has, E.str_term(k), z3.BoolVal(True))
    m_append = m_add

    def m___contains__(self, E, k):
        return Sym(z3.Select(self.has, E.str_term(k)))


class Procs(Model):
    """The list of processes started by the rule; what is added is handed to the contract."""
    pyclass = list

    def __init__(self, on):
        super().__init__()
        self.on = on

    def m_append(self, E, x):
        E.write(self, "items")
        self.on(E, x)


def world(E, strict, mentioned=None, bad=False):
    """Everything update works on; ghosts: two actions a, b with different places in the order, a buffer g."""
    class W:
        pass
    w = W()
    w.rhs = rhs = Rhs(E, bad)
    w.a, w.b = E.fresh("a", L.I), E.fresh("b", L.I)
    rhs.ghosts = [w.a, w.b]
    E.assume(z3.And(rhs.rng(w.a), rhs.rng(w.b)))
    w.order = lambda i: by_sign(rhs.CODE(i), lambda v: z3.IntVal(v[1]), z3.IntVal(0))
    w.g = E.fresh("g", L.S)
    w.m = E.fresh("m", L.I)
    w.mentioned = mentioned
    if mentioned:
        rhs.ghosts.append(w.m)
        E.assume(z3.And(rhs.rng(w.m), rhs.NAME(w.m) == w.g))
    elif mentioned is False:
        rhs.facts.append(lambda i: rhs.NAME(i) != w.g)
    for x in rhs.ghosts:
        rhs.facts_at(E, x)
    w.inbuf = E.fresh_fn("isbuffer", L.S, L.B)
    rhs.facts.append(lambda i: w.inbuf(rhs.NAME(i)))
    w.vars = Vars(E)
    w.vars.inbuf = w.inbuf
    E.assume(w.inbuf(w.g))
    gk = z3.Concat(z3.StringVal("="), w.g)
    # a buffer bound at the start is at its place among the keys
    k = w.vars.AT(w.g)
    E.assume(z3.Implies(z3.Select(w.vars.has, gk), z3.And(k >= 0, k < w.vars.n, w.vars.VN(k) == w.g, z3.Not(w.vars.NEG(k)))))
    w.has0 = z3.Select(w.vars.has, gk)
    w.gk = gk
    w.time = real(E, "time")
    w.store = Model()
    w.da, w.db, w.dg = z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)      # times a, b were carried out; times g was cleared by harvesting
    w.late = z3.BoolVal(False)                                     # a was carried out after b
    mp = params(E, strict_harvesting=strict)

    def buffer(k):
        o = ObjV(cls(E, "pyactr.buffers.Buffer"), {"state": E.fresh_str("state")})
        o.meta["name"] = E.str_term(k)
        return o
    w.buffers = SymMap(get=buffer, has=lambda k: w.inbuf(E.str_term(k)))
    w.pr = rules_obj(E, DictV(), DictV(), mp)
    E.setattr(w.pr, "buffers", w.buffers)
    E.setattr(w.pr, "used_rulename", "rule")
    E.setattr(w.pr, "_ProductionRules__actrvariables", w.vars)
    w.procs = Procs(lambda E, x: queued(E, w, x))
    E.setattr(w.pr, "procs", w.procs)
    for m in METHODS:
        action(E, w, m)
    return w


def action(E, w, m):
    def c(E, args, kwargs):
        env = E.bind(F(E, PR + m), args, kwargs)
        vals = list(env.values())           # self, name, buffer, what, bindings, time
        name, buf, what, bindings, time = vals[1], vals[2], vals[3], vals[4], vals[5]

        def run_(cb):
            done(E, w, m, name, what, True)
            cb(("EV", m))
        nm = E.str_term(name)
        E.prove("the action works on the buffer it names", isinstance(buf, ObjV) and z3.is_expr(buf.meta.get("name")) and buf.meta["name"] == nm)
        E.prove("with the bindings of the rule", bindings is w.vars or isinstance(bindings, Vars) and bindings.has.eq(w.vars.has))
        E.prove("at the time of firing", eqv(E, time, w.time))
        g = GenV(run_, name=m, qual=PR + m, args=dict(env))
        g.what = what
        return g
    E.contracts[PR + m] = c


def done(E, w, m, name, what, now):
    """The action m on the named buffer is carried out (or left to run concurrently)."""
    E.write(w.store, "done")
    nm = E.str_term(name)
    if what is None:                        # strict harvesting
        E.prove("only clearing is done without being asked for", m == "clear" and not now)
        w.dg = z3.If(nm == w.g, w.dg + 1, w.dg)
        return
    i = what.i
    E.prove("what is carried out is what was written for it", z3.And(w.rhs.rng(i), w.rhs.NAME(i) == nm, z3.Or(*[z3.And(w.rhs.CODE(i) == z3.StringVal(s), z3.BoolVal(v[0] == m)) for s, v in SIGNS.items()])))
    E.prove("requests and modification requests run concurrently, all else is carried out at once", now == (m not in ("retrieveorset", "modify_request")))
    w.late = z3.Or(w.late, z3.And(i == w.a, w.db > 0))
    w.da = z3.If(i == w.a, w.da + 1, w.da)
    w.db = z3.If(i == w.b, w.db + 1, w.db)


def queued(E, w, x):
    if not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], GenV) and hasattr(x[1], "what")):
        E.prove("only actions are started", False)
        return
    g = x[1]
    name = list(g.args.values())[1]
    E.prove("a process is recorded under the name of its buffer", eqv(E, x[0], name))
    done(E, w, g.name, name, g.what, False)


def loops(E, w):
    rhs = w.rhs

    w.used = None

    class Actions(LoopSpec):
        name = "actions loop"

        def collected(self, what, ghost):
            """a set of the names (keys) of the buffers used so far, if the code has one"""
            def inject(E, i):
                w.used = (Names(E.fresh("used", z3.ArraySort(L.S, L.B))), ghost)
                E.assume(self.is_used(i))
                return w.used[0]

            def check(E, i, v):
                if z3.is_int_value(i) and i.as_long() == 0:
                    return isinstance(v, (SetV, ListV)) and not v.items
                if not isinstance(v, Names):
                    return False
                w.used = (v, ghost)
                return self.is_used(i)
            return Role(what, inject, check, optional=True)

        def is_used(self, i):
            h = z3.Select(w.used[0].has, w.used[1])
            return z3.BoolVal(True) if w.mentioned is None else z3.Implies(rhs.POS(w.m) < i, h) if w.mentioned else z3.Not(h)

        def roles(self, E):
            return [self.collected("keys of the buffers used", w.gk), self.collected("names of the buffers used", w.g)]

        def modifies(self, E):
            return [(w.store.uid, "done"), (w.procs.uid, "items")] + [(v.uid, "has") for v in w.vars.live]

        def after(self, x, i):
            return z3.If(rhs.POS(x) < i, z3.IntVal(1), z3.IntVal(0))

        def heap_inject(self, E, i):
            w.da, w.db = self.after(w.a, i), self.after(w.b, i)
            w.late, w.dg = z3.BoolVal(False), z3.IntVal(0)
            for v in w.vars.live:
                v.has = E.fresh("stillbound", z3.ArraySort(L.S, L.B))
                for _, f in self.bound(v, i):
                    E.assume(f)

        def bound(self, v, i):
            h = z3.Select(v.has, w.gk)
            want = w.has0 if w.mentioned is False else z3.And(w.has0, rhs.POS(w.m) >= i) if w.mentioned else None
            # another entry may name the same buffer before: then it is gone already
            return [] if want is None else [("a buffer not mentioned stays bound", h == want)] if w.mentioned is False else [("a buffer mentioned does not stay bound", z3.Implies(h, want))]

        def heap_check(self, E, i):
            out = [("each action is carried out once", z3.And(w.da == self.after(w.a, i), w.db == self.after(w.b, i))),
                   ("in the order of the kinds of actions", z3.Or(w.order(w.a) >= w.order(w.b), z3.Not(w.late))),
                   ("nothing else is cleared", w.dg == 0)]
            for v in w.vars.live:
                out += self.bound(v, i)
            return out

        def assume_iter(self, E, i):
            pass

        def at_exit(self, E, n):
            pass
    E.loops["sorted actions"] = lambda E, fr, seq: Actions()

    class Harvest(LoopSpec):
        name = "harvesting loop"
        modifies = [(w.store.uid, "done"), (w.procs.uid, "items")]

        def base(self, E):
            self.da, self.db, self.late = w.da, w.db, w.late

        def want(self, i):
            k = w.vars.AT(w.g)
            h = z3.Select(w.vars.live[-1].has, w.gk) if w.vars.live else z3.And(w.has0, z3.Not(z3.Select(w.used[0].has, w.used[1]))) if w.used else z3.BoolVal(False)
            return z3.If(z3.And(h, k < i), z3.IntVal(1), z3.IntVal(0))

        def heap_inject(self, E, i):
            w.da, w.db, w.late, w.dg = self.da, self.db, self.late, self.want(i)

        def heap_check(self, E, i):
            return [("a buffer is cleared once if it was tested and is not mentioned", w.dg == self.want(i)),
                    ("the actions are not carried out again", z3.And(w.da == self.da, w.db == self.db))]
    E.loops["bindings"] = lambda E, fr, seq: Harvest()


def mk(strict, mentioned):
    def run_(E):
        w = world(E, strict, mentioned)
        loops(E, w)
        if mentioned:
            E.assume(z3.And(rhs_pos(w, w.m)))
        E.cover("precondition satisfiable")
        st, r = attempt(E, lambda: drive(E, run(E, PR + "update", [w.pr, w.rhs, w.time])))
        E.prove("no error", st == "ok")
        if st != "ok":
            return
        E.prove("each action is carried out exactly once", z3.And(w.da == 1, w.db == 1))
        E.prove("actions are carried out in the order of their kinds", z3.Or(w.order(w.a) >= w.order(w.b), z3.Not(w.late)))
        if strict and not mentioned:
            E.prove("a tested buffer that is not mentioned is cleared exactly once, no other is", w.dg == z3.If(w.has0, z3.IntVal(1), z3.IntVal(0)))
        else:
            E.prove("no buffer is cleared that should not be", w.dg == 0)
    return run_


def rhs_pos(w, x):
    return z3.BoolVal(True)


for _s in (True, False):
    for _m in (True, False):
        REG.append(Task("update: %s, buffer %s" % ("strict harvesting" if _s else "no strict harvesting", "mentioned" if _m else "not mentioned"), mk(_s, _m), [PR + "update"]))


@task(REG, "update: an action with an unknown sign", [PR + "update"])
def invalid(E):
    w = world(E, bool(E.choose(2, "strict")), None, bad=True)
    loops(E, w)
    c = w.rhs.CODE(w.rhs.bad)
    E.assume(z3.Length(c) == 1)
    for s in SIGNS:
        E.assume(c != z3.StringVal(s))
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: drive(E, run(E, PR + "update", [w.pr, w.rhs, w.time])))
    E.prove("it is refused", z3.BoolVal(st == "exc" and is_exc(E, r, "ACTRError")))
    E.prove("nothing is carried out", z3.And(w.da == 0, w.db == 0, w.dg == 0))
