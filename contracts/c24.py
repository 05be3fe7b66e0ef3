"""C24: two rules are compiled only when the result is safe; renaming and substitution of variables."""
from .cbv import *
from pyvc.models import MapDict
from pyvc.values import PyFn

PROPERTY = "C24"
REG = []
UT = "pyactr.utilities."
PS = "pyactr.productions.Productions."
ASSUME = ["C24: there is at least one buffer",
          "C24: the signs of the keys of a rule are signs of the rule language (the reader of rules admits no others); keys of one side of a rule are different",
          "C24: the values known for variables are values of slots (strings or chunks)"]
RULE = z3.StringVal("__rule__")
NOTHING = z3.K(Val, z3.BoolVal(False))


def set_arr(E, v):
    """membership of what is held in a set, a tuple or a list"""
    if isinstance(v, ValSet):
        return v.arr
    if isinstance(v, SeqV):
        return lib.seq_arr(E, v)
    if isinstance(v, (SetV, ListV)):
        return lib.items_arr(E, v.items)
    if isinstance(v, tuple):
        return lib.items_arr(E, list(v))
    raise Unsupported("collection %r" % (v,))


def field(E, r, f):
    return r.get(f) if isinstance(r, NT) else E.getattr(r, f)


class Collected(LoopSpec):
    """A loop over the negated variables of a slot that fills sets."""
    name = "negated variables of the slot"

    def __init__(self, sets):
        self.sets = sets        # [(name, start array, elem(i) -> (condition, Val))]

    def roles(self, E):
        def role(nm, f):
            def check(E, i, got):
                if not isinstance(got, (SetV, ValSet)):
                    return False
                u = E.fresh("member", Val)
                i = z3.IntVal(i) if isinstance(i, int) else i
                return z3.Select(set_arr(E, got), u) == z3.Select(f(i), u)
            return Role(nm, lambda E, i: ValSet(f(i)), check)
        return [role(nm, f) for nm, f, _, _ in self.sets]

    def base(self, E):
        for nm, f, start, elem in self.sets:
            E.assume(f(0) == start)

    def unfold(self, E, i):
        for nm, f, start, elem in self.sets:
            c, v = elem(i)
            E.assume(f(i + 1) == z3.If(c, z3.Store(f(i), v, True), f(i)))


def collected(f, n, start, elem):
    """what the fold amounts to (proved by induction in the lemma below)"""
    u, k = z3.Const("u!24", Val), z3.Int("k!24")
    c, v = elem(k)
    return f(n) == z3.Lambda([u], z3.Or(z3.Select(start, u), z3.Exists([k], z3.And(k >= 0, k < n, c, v == u))))


@task(REG, "lemma: what the loops over negated variables collect", [])
def lemma(E):
    f, el, co = z3.Function("l24F", L.I, z3.ArraySort(Val, L.B)), z3.Function("l24el", L.I, Val), z3.Function("l24c", L.I, L.B)
    a0, n, m, k = E.fresh("start", z3.ArraySort(Val, L.B)), E.fresh("n", L.I), E.fresh("m", Val), z3.Int("k!l24")

    def claim(n, m):
        return z3.Select(f(n), m) == z3.Or(z3.Select(a0, m), z3.Exists([k], z3.And(k >= 0, k < n, co(k), el(k) == m)))
    E.assume(n >= 0)
    E.assume(f(0) == a0)
    E.prove("base", claim(z3.IntVal(0), m))
    E.assume(claim(n, m))
    E.assume(f(n + 1) == z3.If(co(n), z3.Store(f(n), el(n), True), f(n)))
    E.prove("step", claim(n + 1, m))


def slot(E, nm="content"):
    s = E.fresh(nm, SV)
    wf_content(E, s)
    E.assume(z3.Implies(SV.is_sv(s), z3.And(L.NLEN(SV.negvals(s)) >= 0, L.NLEN(SV.negvars(s)) >= 0)))
    isv = SV.is_sv(s)
    return s, z3.If(isv, SV.vals(s), Val.none), z3.If(isv, SV.vars(s), Val.none), z3.If(isv, SV.negvals(s), z3.IntVal(0)), z3.If(isv, SV.negvars(s), z3.IntVal(0))


def has_var(v):
    return z3.And(Val.is_vstr(v), z3.Length(Val.s(v)) > 0)


@task(REG, "make_chunkparts_without_varconflicts", [UT + "make_chunkparts_without_varconflicts", UT + "splitting"])
def rename(E):
    setup(E)
    s, w, x, ng, nv = slot(E)
    name = E.fresh("rulename", L.S)
    avoid = E.fresh("avoid", z3.ArraySort(Val, L.B))
    new = lambda t: z3.Concat(t, RULE, name)
    f = z3.Function("renamed", L.I, z3.ArraySort(Val, L.B))
    elem = lambda i: (z3.BoolVal(True), Val.vstr(new(L.NVARS(SV.negvars(s), i))))
    E.loops["negvars"] = lambda E, fr, seq: Collected([("temp_negvar", f, NOTHING, elem)])
    clash = lambda t: z3.Or(z3.Select(avoid, Val.vstr(new(t))), z3.Select(avoid, Val.vstr(z3.Concat(z3.StringVal("="), new(t)))), z3.Select(avoid, Val.vstr(z3.StringVal("=new_name"))))
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: run(E, UT + "make_chunkparts_without_varconflicts", [SlotV(s), Sym(name), ValSet(avoid)]))
    k = z3.Int("k!rn")
    if st == "exc":
        E.prove("a refusal to rename is an ACTRError", z3.BoolVal(is_exc(E, r, "ACTRError")))
        E.prove("renaming is refused only if a new name is taken", z3.Or(z3.And(has_var(x), clash(Val.s(x))), z3.Exists([k], z3.And(k >= 0, k < L.NLEN(nv), clash(L.NVARS(nv, k))))))
        return
    E.assume(collected(f, L.NLEN(nv), NOTHING, elem))
    E.prove("the value is kept", lib.val_term(E, field(E, r, "values")) == w)
    E.prove("the variable is renamed", z3.If(has_var(x), lib.val_term(E, field(E, r, "variables")) == Val.vstr(new(Val.s(x))), L.nil(lib.val_term(E, field(E, r, "variables")))))
    u = E.fresh("any", Val)
    E.prove("the negated values are kept", z3.Select(set_arr(E, field(E, r, "negvalues")), u) == z3.Exists([k], z3.And(k >= 0, k < L.NLEN(ng), L.NVAL(ng, k) == u)))
    E.prove("the negated variables are renamed in the same way", z3.Select(set_arr(E, field(E, r, "negvariables")), u) == z3.Exists([k], z3.And(k >= 0, k < L.NLEN(nv), u == Val.vstr(new(L.NVARS(nv, k))))))


class Subst(Model):
    """variable_dict: variables to be replaced by variables."""
    pyclass = dict

    def __init__(self, E):
        super().__init__()
        self.has, self.look = E.fresh("replaced", z3.ArraySort(L.S, L.B)), E.fresh("replacement", z3.ArraySort(L.S, L.S))
        self.look0 = self.look

    def at(self, E, k):
        """a variable that is not in the dictionary stands for itself"""
        E.fact(z3.Implies(z3.Not(z3.Select(self.has, k)), z3.Select(self.look, k) == k))

    def m_setdefault(self, E, k, d=None):
        t, d = E.str_term(k), E.str_term(d)
        self.at(E, t)
        E.write(self, "map")
        r = z3.If(z3.Select(self.has, t), z3.Select(self.look, t), d)
        self.has, self.look = z3.Store(self.has, t, True), z3.Store(self.look, t, r)
        return Sym(r)

    def m_get(self, E, k, d=None):
        t = E.str_term(k)
        self.at(E, t)
        if not E.branch(z3.Select(self.has, t)):
            return d
        return Sym(z3.Select(self.look, t))

    def m___contains__(self, E, k):
        return Sym(z3.Select(self.has, E.str_term(k)))

    def m___getitem__(self, E, k):
        t = E.str_term(k)
        if not E.branch(z3.Select(self.has, t)):
            raise engine.bexc("KeyError", k)
        return Sym(z3.Select(self.look, t))

    def m___setitem__(self, E, k, v):
        t = E.str_term(k)
        E.write(self, "map")
        self.has, self.look = z3.Store(self.has, t, True), z3.Store(self.look, t, E.str_term(v))


@task(REG, "make_chunkparts_with_new_vars", [UT + "make_chunkparts_with_new_vars", UT + "splitting"])
def substitute(E):
    setup(E)
    s, w, x, ng, nv = slot(E)
    D = Subst(E)
    look = D.look
    KH, KV = E.fresh_fn("known", L.S, L.B), E.fresh_fn("knownvalue", L.S, Val)
    known = lambda t: KH(t)
    E.known_value = KV
    vd = MapDict(lambda t: KH(t), lambda t: val(E, KV, t), None)
    gv, gn = z3.Function("newnegvars", L.I, z3.ArraySort(Val, L.B)), z3.Function("newnegvals", L.I, z3.ArraySort(Val, L.B))
    q = lambda i: L.NVARS(SV.negvars(s), i)
    ev = lambda i: (z3.Not(KH(q(i))), Val.vstr(z3.Select(look, q(i))))
    en = lambda i: (KH(q(i)), KV(q(i)))
    u = z3.Const("u!sv", Val)
    k = z3.Int("k!sv")
    negs = z3.Lambda([u], z3.Exists([k], z3.And(k >= 0, k < L.NLEN(ng), L.NVAL(ng, k) == u)))

    def mk(E, fr, seq):
        sp = Collected([("temp_negvar", gv, NOTHING, ev), ("temp_negval", gn, negs, en)])
        h = E.fresh_fn("replaced_after", L.I, z3.ArraySort(L.S, L.B))
        sp.modifies = lambda E: [(D.uid, "*")]

        def inject(E, i):
            D.look, D.has = look, h(i)

        def check(E, i):
            y = E.fresh("anyvariable", L.S)
            D.at(E, y)
            return [("what variables stand for", z3.Select(D.look, y) == z3.Select(look, y))]
        sp.heap_inject, sp.heap_check = inject, check
        return sp
    E.loops["negvars"] = mk
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: run(E, UT + "make_chunkparts_with_new_vars", [SlotV(s), D, vd]))
    hasx = has_var(x)
    xs = Val.s(x)
    two = z3.And(hasx, KH(xs), truthy(w), z3.Not(L.valeq(KV(xs), w)))
    if st == "exc":
        E.prove("a refusal to substitute is an ACTRError", z3.BoolVal(is_exc(E, r, "ACTRError")))
        E.prove("substitution is refused only if the slot would have two values", two)
        return
    E.prove("two different values for a slot are an error", z3.Not(two))
    E.assume(collected(gv, L.NLEN(nv), NOTHING, ev))
    E.assume(collected(gn, L.NLEN(nv), negs, en))
    rv, rx = lib.val_term(E, field(E, r, "values")), lib.val_term(E, field(E, r, "variables"))
    E.prove("a variable with a known value becomes the value", z3.Implies(z3.And(hasx, KH(xs)), z3.And(L.valeq(rv, KV(xs)), L.nil(rx))))
    E.prove("any other variable is replaced by the variable chosen for it", z3.Implies(z3.And(hasx, z3.Not(KH(xs))), rx == Val.vstr(z3.Select(look, xs))))
    E.prove("otherwise the value is kept", z3.Implies(z3.Not(z3.And(hasx, KH(xs))), rv == w))
    E.prove("a slot without a variable gets none", z3.Implies(z3.Not(hasx), L.nil(rx)))
    m = E.fresh("any", Val)
    E.prove("the negated values are those given and the known values of negated variables", z3.Select(set_arr(E, field(E, r, "negvalues")), m) ==
            z3.Or(z3.Exists([k], z3.And(k >= 0, k < L.NLEN(ng), L.NVAL(ng, k) == m)), z3.Exists([k], z3.And(k >= 0, k < L.NLEN(nv), KH(L.NVARS(nv, k)), KV(L.NVARS(nv, k)) == m))))
    E.prove("the other negated variables are replaced by those chosen for them", z3.Select(set_arr(E, field(E, r, "negvariables")), m) ==
            z3.Exists([k], z3.And(k >= 0, k < L.NLEN(nv), z3.Not(KH(L.NVARS(nv, k))), m == Val.vstr(z3.Select(look, L.NVARS(nv, k))))))
    y = E.fresh("anyvariable", L.S)
    D.at(E, y)
    E.prove("what variables stand for is not changed", z3.Select(D.look, y) == z3.Select(look, y))


def val(E, KV, t):
    v = KV(t)
    E.fact(z3.Or(z3.And(Val.is_vstr(v), z3.Length(Val.s(v)) > 0), Val.is_vchk(v)))
    return lib.mkval(E, v)


@task(REG, "merge_chunkparts", [UT + "merge_chunkparts", UT + "splitting"])
def merge(E):
    setup(E)
    s1, w1, x1, ng1, nv1 = slot(E, "first")
    s2, w2, x2, ng2, nv2 = slot(E, "second")
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: run(E, UT + "merge_chunkparts", [SlotV(s1), SlotV(s2)]))
    if st == "exc":
        return E.prove("merging never fails", False)
    says = z3.Or(truthy(w1), has_var(x1), L.NLEN(ng1) > 0, L.NLEN(nv1) > 0)
    pick = lambda a, c: z3.If(says, a, c)
    k = z3.Int("k!mg")
    m = E.fresh("any", Val)
    E.prove("the value is that of the first content, if that says anything, or else of the second", lib.val_term(E, field(E, r, "values")) == pick(w1, w2))
    rx = lib.val_term(E, field(E, r, "variables"))
    E.prove("so is the variable", z3.Or(rx == pick(x1, x2), z3.And(L.nil(rx), L.nil(pick(x1, x2)))))
    mem = lambda n, el: z3.Exists([k], z3.And(k >= 0, k < L.NLEN(n), el(n, k)))
    E.prove("so are the negated values", z3.Select(set_arr(E, field(E, r, "negvalues")), m) == pick(mem(ng1, lambda n, k: L.NVAL(n, k) == m), mem(ng2, lambda n, k: L.NVAL(n, k) == m)))
    E.prove("so are the negated variables", z3.Select(set_arr(E, field(E, r, "negvariables")), m) == pick(mem(nv1, lambda n, k: Val.vstr(L.NVARS(n, k)) == m), mem(nv2, lambda n, k: Val.vstr(L.NVARS(n, k)) == m)))


# ------------------------------------------------------------------ when a compilation is refused
PLAIN, MOTOR, VISUAL, VISLOC, DM = range(5)
KINDS = {"pyactr.motor.Motor": (MOTOR,), "pyactr.vision.Visual": (VISUAL,), "pyactr.vision.VisualLocation": (VISLOC,), "pyactr.declarative.DecMemBuffer": (DM,),
         "pyactr.goals.Goal": (PLAIN,), "pyactr.buffers.Buffer": (PLAIN, MOTOR, VISUAL, VISLOC, DM)}


class Buf(Model):
    def __init__(self, bufs, nm):
        super().__init__()
        self.bufs, self.nm = bufs, nm

    def isa(self, E, c):
        ks = next((k for q, k in KINDS.items() if cls(E, q) is c), None)
        if ks is None:
            raise Unsupported("kind of buffer %r" % (c,))
        return z3.Or(*[self.bufs.KIND(self.nm) == k for k in ks])

    def truth(self, E):
        return E.branch(self.bufs.FULL(self.nm))


class Named(Model):
    """{name for buffers if ...}"""
    pyclass = set

    def __init__(self, has):
        super().__init__()
        self.has = has

    def m___contains__(self, E, x):
        return Sym(self.has(E.str_term(x)))


class Bufs(Model):
    """The buffers: any number, of any kind."""
    pyclass = dict

    def __init__(self, E):
        super().__init__()
        self.n = E.fresh("nbuffers", L.I)
        E.assume(self.n >= 1)
        self.HAS, self.KIND, self.FULL, self.AT = E.fresh_fn("isbuffer", L.S, L.B), E.fresh_fn("kind", L.S, L.I), E.fresh_fn("full", L.S, L.B), E.fresh_fn("buffername", L.I, L.S)

    def iterate(self, E):
        def elem(i):
            E.fact(z3.Implies(z3.And(i >= 0, i < self.n), self.HAS(self.AT(i))))
            return Sym(self.AT(i))
        sq = SeqV(self.n, elem, tag="buffers")
        sq.contains = lambda E, x: self.HAS(E.str_term(x))

        def as_set(r):
            # the names with a property that depends on the name alone
            j = E.fresh("anybuffer", L.I)
            E.assume(z3.And(j >= 0, j < self.n))
            e = r.elem(j)
            if not (isinstance(e, Sym) and e.t.eq(self.AT(j))):
                raise Unsupported("a set of something else than buffer names")
            y = E.fresh("somename", L.S)
            g = z3.substitute(r.guard(j), (self.AT(j), y)) if r.guard is not None else z3.BoolVal(True)
            if any(x.eq(j) for x in z3util_vars(g)):
                raise Unsupported("a condition on the place of a buffer")
            return Named(lambda x: z3.And(self.HAS(x), z3.substitute(g, (y, x))))
        sq.as_set = as_set
        return sq
    m_keys = iterate

    def m_items(self, E):
        sq = self.iterate(E)
        it = SeqV(self.n, lambda i: (sq.elem(i), Buf(self, self.AT(i))), tag="buffers")
        it.as_set = sq.as_set
        return it

    def m___contains__(self, E, k):
        return Sym(self.HAS(E.str_term(k)))

    def m___getitem__(self, E, k):
        t = E.str_term(k)
        if not E.branch(self.HAS(t)):
            raise engine.bexc("KeyError", k)
        return Buf(self, t)

    def m_get(self, E, k, d=None):
        t = E.str_term(k)
        return Buf(self, t) if E.branch(self.HAS(t)) else d


def z3util_vars(t):
    seen, todo = [], [t]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            seen.append(x)
        todo += x.children()
    return seen


class Part(Model):
    """What is written for a key of a rule."""
    def __init__(self, side, i):
        super().__init__()
        self.side, self.i = side, i

    def eq(self, E, o):
        if isinstance(o, DictV):
            p = [(E.str_term(k), v) for k, v in o.pairs]
            if len(p) == 1 and z3.is_string_value(p[0][0]) and p[0][0].as_string() == "state" and engine.is_str(p[0][1]):
                return z3.And(self.side.ONLYSTATE(self.i), self.side.STATE(self.i) == E.str_term(p[0][1]))
        raise Unsupported("comparison of a condition with %r" % (o,))


class Side(Model):
    """One side of a rule: any number of entries with different keys; the sign of each distinguished."""
    pyclass = dict

    def __init__(self, E, nm, signs):
        super().__init__()
        self.nm, self.signs = nm, signs
        self.n = E.fresh(nm + "_n", L.I)
        E.assume(self.n >= 0)
        self.SIGN, self.NAME = E.fresh_fn(nm + "_sign", L.I, L.S), E.fresh_fn(nm + "_buffer", L.I, L.S)
        self.ONLYSTATE, self.STATE = E.fresh_fn(nm + "_onlystate", L.I, L.B), E.fresh_fn(nm + "_state", L.I, L.S)

    def rng(self, i):
        return z3.And(i >= 0, i < self.n)

    def key(self, E, i):
        k = E.choose(len(self.signs), "sign")
        s = z3.StringVal(self.signs[k])
        E.assume(self.SIGN(i) == s)
        if not E.feasible(z3.BoolVal(True)):
            raise engine.PathEnd()
        return Sym(z3.Concat(s, self.NAME(i)))

    def iterate(self, E):
        return SeqV(self.n, lambda i: self.key(E, i), tag=("side", self.nm))
    m_keys = iterate

    def m_items(self, E):
        return SeqV(self.n, lambda i: (self.key(E, i), Part(self, i)), tag=("side", self.nm))

    def parts(self, E, k):
        t = lib.flat_concat(E.str_term(k))
        if not (z3.is_string_value(t[0]) and len(t[0].as_string()) == 1):
            raise Unsupported("an entry of a rule by its key")
        return t[0], (t[1] if len(t) == 2 else z3.Concat(*t[1:]))

    def there(self, E, k):
        s, nm = self.parts(E, k)
        j = z3.Int("j!key")
        return z3.Exists([j], z3.And(self.rng(j), self.SIGN(j) == s, self.NAME(j) == nm))

    def m___contains__(self, E, k):
        return Sym(self.there(E, k))

    def find(self, E, k):
        s, nm = self.parts(E, k)
        if z3.is_app(nm) and nm.decl().eq(self.NAME(z3.IntVal(0)).decl()):
            return Part(self, nm.arg(0))
        j, i = E.fresh("entry", L.I), z3.Int("i!key")
        E.assume(z3.And(self.rng(j), self.SIGN(j) == s, self.NAME(j) == nm))
        E.assume(z3.ForAll([i], z3.Implies(z3.And(self.rng(i), self.SIGN(i) == s, self.NAME(i) == nm), i == j)))
        return Part(self, j)

    def m___getitem__(self, E, k):
        s, nm = self.parts(E, k)
        if z3.is_app(nm) and nm.decl().eq(self.NAME(z3.IntVal(0)).decl()):
            return Part(self, nm.arg(0))
        if not E.branch(self.there(E, k)):
            raise engine.bexc("KeyError", k)
        return self.find(E, k)

    def m_get(self, E, k, d=None):
        return self.find(E, k) if E.branch(self.there(E, k)) else d


def unsafe(bufs, p12, p21, p22):
    """The conditions under which merging two rules is unsafe."""
    i, j = z3.Int("i!us"), z3.Int("j!us")
    K, H = bufs.KIND, bufs.HAS
    nm = p12.NAME(i)
    is_ = lambda *ks: z3.And(H(nm), z3.Or(*[K(nm) == k for k in ks]))
    S = z3.StringVal
    some = lambda p, c: z3.Exists([j], z3.And(p.rng(j), p.NAME(j) == nm, c(j)))
    requests = some(p22, lambda j: p22.SIGN(j) == S("+"))
    query = lambda c: some(p21, lambda j: z3.And(p21.SIGN(j) == S("?"), c(z3.And(p21.ONLYSTATE(j)), p21.STATE(j))))
    notbusy = query(lambda o, st: z3.Not(z3.And(o, st == S("busy"))))
    return z3.Exists([i], z3.And(p12.rng(i), p12.SIGN(i) == S("+"), z3.Or(
        z3.And(requests, z3.Not(is_(DM))),
        z3.And(is_(MOTOR, VISUAL, VISLOC), notbusy),
        z3.And(is_(VISUAL, VISLOC), some(p21, lambda j: p21.SIGN(j) == S("="))),
        z3.And(is_(DM), query(lambda o, st: z3.And(o, st == S("error")))))))


RHS_SIGNS, LHS_SIGNS = "+=!~@*?", "=?"


class RuleOf(Model):
    """self[name]["rule"]: a generator function with the two sides."""
    def __init__(self, sides, **other):
        super().__init__()
        self.sides, self.other = sides, other

    def m___getitem__(self, E, k):
        if k != "rule":
            return self.other.get(k)
        return PyFn(lambda E, a, kw: ListV(self.sides(E), "iter"))


def productions(E, rules):
    """The productions as an object whose items are the given rules."""
    ps = new(E, "pyactr.productions.Productions", _Productions__DFT_UTILITY=real(E, "dft_utility"), _Productions__DFT_REWARD=real(E, "dft_reward"))

    def get(E, a, kw):
        k = a[1]
        for nm, r in rules:
            if isinstance(k, Sym) and isinstance(nm, Sym) and k.t.eq(nm.t):
                return r
        raise Unsupported("another rule")
    E.contracts[PS + "__getitem__"] = get
    return ps


@task(REG, "__check_valid_compilation__", [PS + "__check_valid_compilation__"])
def valid(E):
    n1, n2 = string(E, "first"), string(E, "second")
    B = Bufs(E)
    p11, p12, p21, p22 = Side(E, "first_if", LHS_SIGNS), Side(E, "first_then", RHS_SIGNS), Side(E, "second_if", LHS_SIGNS), Side(E, "second_then", RHS_SIGNS)
    ps = productions(E, [(n1, RuleOf(lambda E: [p11, p12])), (n2, RuleOf(lambda E: [p21, p22]))])
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: run(E, PS + "__check_valid_compilation__", [ps, n1, n2, B]))
    if st == "exc":
        return E.prove("the check never fails", False)
    E.prove("compilation is refused exactly if it is unsafe", b(lib.truth(E, r)) == unsafe(B, p12, p21, p22))


# ------------------------------------------------------------------ renaming and substitution in a whole rule
PARTERR = z3.Function("PARTERR", SV, L.B)
PART = z3.Function("PART", SV, SV)


class RuleSide(Side):
    """One side of a rule, its chunks as objects; an entry can be set to another chunk."""
    def __init__(self, E, nm, signs):
        super().__init__(E, nm, signs)
        self.CID = E.fresh_fn(nm + "_chunk", L.I, L.I)
        self.sets, self.done = [], False

    def place(self, k, E):
        s, nm = self.parts(E, k)
        if z3.is_app(nm) and nm.decl().eq(self.NAME(z3.IntVal(0)).decl()):
            return s.as_string(), nm.arg(0)
        raise Unsupported("another entry of the rule")

    def m___getitem__(self, E, k):
        s, i = self.place(k, E)
        if s in CHUNKLESS[self.kind]:
            return What(s, i)
        for s_, j, v in reversed(self.sets):
            if j.eq(i):
                return v
        o = lib.chunk_obj(E, self.CID(i))
        E.fact(L.NSLOTS(self.CID(i)) >= 0)
        return o

    def m___setitem__(self, E, k, v):
        s, i = self.place(k, E)
        E.write(self, "map")
        self.sets.append((s, i, v))

    def m_items(self, E):
        return SeqV(self.n, lambda i: (lambda k: (k, self.m___getitem__(E, k)))(self.key(E, i)), tag=("side", self.nm))


class What(Model):
    def __init__(self, s, i):
        super().__init__()
        self.s, self.i = s, i


CHUNKLESS = {"if": "?", "then": "!?~"}


def side(E, kind):
    r = RuleSide(E, kind, LHS_SIGNS if kind == "if" else RHS_SIGNS)
    r.kind = kind
    return r


def rewriting(fn, helper):
    def run_(E):
        setup(E)
        news = []
        install_chunk(E, news)
        made = []

        def production(E, a, kw):
            e = E.bind(F(E, "pyactr.productions.Production.__init__"), [None] + list(a), kw)
            made.append(e)
            return DictV()
        E.contracts["pyactr.productions.Production"] = production
        if_, then = side(E, "if"), side(E, "then")
        name = string(E, "name")
        rule = RuleOf(lambda E: [if_, then], utility=real(E, "utility"), reward=real(E, "reward"))
        ps = productions(E, [(name, rule)])
        extra = [Rec(lambda f: None), Rec(lambda f: None)]
        log = []

        def part(E, a, kw):
            e = list(E.bind(F(E, UT + helper), a, kw).values())
            log.append(e[1:])
            s = slot_term(E, e[0])
            if E.branch(PARTERR(s)):
                raise engine.PyExc(cls(E, "pyactr.utilities.ACTRError"), ["part"])
            return SlotV(PART(s))
        E.contracts[UT + helper] = part

        class Entries(LoopSpec):
            name = "entries of the rule"

            def __init__(self, s):
                self.s = s

            def modifies(self, E):
                return [(self.s.uid, "*")]

            def roles(self, E):
                return []

            def heap_inject(self, E, i):
                self.s.sets = []
                del news[:]

            def heap_check(self, E, i):
                if z3.is_int_value(i):
                    return [("nothing is changed yet", z3.BoolVal(not self.s.sets))]
                y = E.fresh("slot", L.S)
                out = []
                for sg, j, v in self.s.sets:
                    nc = next((c for c in news if c.obj is v), None)
                    if nc is None:
                        return [("an entry becomes a new chunk", z3.BoolVal(False))]
                    c = self.s.CID(j)
                    abschunk.name_fact(E, c, y)
                    has, got = slot_of_new(E, nc, y)
                    old = lib.chunk_obj(E, c)
                    out += [("the new chunk has the type of the old", b(eqv(E, nc.typename, E.getattr(old, "typename")))),
                            ("it has exactly the slots of the old", has == L.HASN(c, y)),
                            ("each slot gets the rewritten content", z3.Implies(has, got == PART(L.SLOT(c, y)))),
                            ("only entries with chunks are rewritten", z3.BoolVal(sg not in CHUNKLESS[self.s.kind]))]
                cur = z3.simplify(i - 1)
                hit = [1 for sg, j, v in self.s.sets if z3.simplify(j).eq(cur)]
                chunkless = z3.Or(*[self.s.SIGN(cur) == z3.StringVal(x) for x in CHUNKLESS[self.s.kind]])
                out.append(("every entry with a chunk is rewritten, once", chunkless if not hit else z3.BoolVal(len(hit) == 1 == len(self.s.sets))))
                out.append(("the rewriting is the one asked for", z3.BoolVal(all(len(e) == 2 and all(given(x, y) for x, y in zip(e, want)) for e in log))))
                return out

            def at_exit(self, E, n):
                self.s.done = True
        want = [name, extra[1]] if fn == "__rename__" else extra
        given = lambda x, y: x is y or (isinstance(x, Sym) and isinstance(y, Sym) and x.t.eq(y.t))
        E.loops["side"] = lambda E, fr, seq: Entries(if_ if seq.tag[1] == "if" else then)
        E.cover("precondition satisfiable")

        def go():
            run(E, PS + fn, [ps, name, extra[1]] if fn == "__rename__" else [ps, rule] + extra)
            if len(made) != 1:
                return None
            g = E.call(made[0]["rule"], [], {})
            return drive(E, g, lambda: (if_.done, then.done))[0]
        st, out = attempt(E, go)
        if st == "exc":
            return E.prove("only a content that cannot be rewritten is an error", z3.BoolVal(is_exc(E, out, "ACTRError")))
        E.prove("a rule is made with the same two sides, each fully rewritten", z3.BoolVal(out is not None and len(out) == 2 and out[0][0] is if_ and out[1][0] is then and out[0][1][0] and all(out[1][1])))
        if fn == "__substitute__":
            E.prove("utility and reward are those of the rule", z3.And(b(eqv(E, made[0]["utility"], rule.other["utility"])), b(eqv(E, made[0]["reward"], rule.other["reward"]))))
    return run_


REG.append(Task("__rename__", rewriting("__rename__", "make_chunkparts_without_varconflicts"), [PS + "__rename__"]))
REG.append(Task("__substitute__", rewriting("__substitute__", "make_chunkparts_with_new_vars"), [PS + "__substitute__"]))


# ------------------------------------------------------------------ compile_rules
class Known(Model):
    """What is known of a buffer after the first rule: a list for the retrieval buffer, a dictionary of slots otherwise."""
    def __init__(self, sv, nm, lst):
        super().__init__()
        self.sv, self.nm = sv, nm
        self.pyclass = list if lst else dict

    def truth(self, E):
        return True

    def iterate(self, E):
        c = self.sv.CID(self.nm)
        if self.pyclass is list:
            return SeqV(z3.IntVal(2), lambda i: E_unsupported("going through a retrieved chunk"), tag="known list")
        sq = abschunk.names(E, c)
        sq.tag = ("knownslots", 0)
        return sq

    def m___getitem__(self, E, k):
        if self.pyclass is list:
            raise Unsupported("retrieved chunk")
        t = E.str_term(k)
        c = self.sv.CID(self.nm)
        E.fact(z3.Or(SV.is_svEmpty(L.SLOT(c, t)), SV.is_sv(L.SLOT(c, t))))
        wf_content(E, L.SLOT(c, t))
        return SlotV(L.SLOT(c, t))


def E_unsupported(msg):
    raise Unsupported(msg)


class SlotVals(Model):
    """What is known of the buffers after the first rule: any number of buffers."""
    pyclass = dict

    def __init__(self, E, bufs):
        super().__init__()
        self.bufs = bufs
        self.ANY, self.LIST, self.CID = E.fresh_fn("anything", L.S, L.B), E.fresh_fn("retrieved", L.S, L.B), E.fresh_fn("known", L.S, L.I)

    def m_copy(self, E):
        return self

    def m___len__(self, E):
        return Sym(self.bufs.n)

    def iterate(self, E):
        sq = self.bufs.iterate(E)
        sq.tag = ("slotvals", 0)
        return sq
    m_keys = iterate

    def m___getitem__(self, E, k):
        t = E.str_term(k)
        if not E.branch(self.ANY(t)):
            return None
        return Known(self, t, E.branch(self.LIST(t)))

    def m_items(self, E):
        sq = self.bufs.iterate(E)
        return SeqV(sq.n, lambda i: (lambda k: (k, self.m___getitem__(E, k)))(sq.elem(i)), tag=("slotvals", 0))


class Reached(Exception):
    pass


@task(REG, "compile_rules", [PS + "compile_rules"])
def compile_(E):
    setup(E)
    n1, n2 = string(E, "first"), string(E, "second")
    B = Bufs(E)
    SVS = SlotVals(E, B)
    uns = E.fresh("unsafe", L.B)
    ps = productions(E, [])
    asked, reached = [], []

    def check(E, a, kw):
        e = E.bind(F(E, PS + "__check_valid_compilation__"), a, kw)
        asked.append([e["rule_name1"], e["rule_name2"], e["buffers"]])
        return Sym(uns)
    E.contracts[PS + "__check_valid_compilation__"] = check

    def begins(E, a, kw):
        reached.append(1)
        raise engine.PyExc(cls(E, "pyactr.utilities.ACTRError"), ["the two rules are merged"])
    for f in ("__rename__", "__substitute__", "__collapse__"):
        E.contracts[PS + f] = begins
    E.contracts[UT + "match"] = begins
    left = lambda t: z3.And(B.HAS(t), SVS.ANY(t), SVS.LIST(t), B.FULL(t))
    OK = z3.Function("retrieved_gone", L.I, L.B)
    MOD = z3.Function("modified", L.I, z3.ArraySort(Val, L.B))

    class Buffers(LoopSpec):
        name = "buffers with something known"

        def roles(self, E):
            return [Role("modified_actrvariables", lambda E, i: ValSet(MOD(i)), lambda E, i, v: isinstance(v, (SetV, ValSet)), optional=True),
                    Role("retrieval", lambda E, i: None, lambda E, i, v: True, optional=True)]

        def base(self, E):
            E.assume(OK(0))

        def unfold(self, E, i):
            E.assume(OK(i + 1) == z3.And(OK(i), z3.Not(left(B.AT(i)))))

        def heap_inject(self, E, i):
            E.assume(OK(i))

        def heap_check(self, E, i):
            return [("no retrieved chunk is left so far", OK(i))]

    class Slots(LoopSpec):
        name = "slots known of a buffer"
        G = z3.Function("modified_by_slots", L.I, z3.ArraySort(Val, L.B))

        def roles(self, E):
            return [Role("modified_actrvariables", lambda E, i: ValSet(self.G(i)), lambda E, i, v: isinstance(v, (SetV, ValSet)), optional=True)]
    E.loops["slotvals"] = lambda E, fr, seq: Buffers()
    E.loops["knownslots"] = lambda E, fr, seq: Slots()
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: run(E, PS + "compile_rules", [ps, n1, n2, SVS, B, params(E)]))
    E.prove("whether the merge is safe is asked for the two rules and the buffers", z3.BoolVal(len(asked) == 1 and asked[0][2] is B and asked[0][0].t.eq(n1.t) and asked[0][1].t.eq(n2.t)))
    i = z3.Int("i!cr")
    some = z3.Exists([i], z3.And(i >= 0, i < B.n, left(B.AT(i))))
    if st == "exc" and reached:
        E.assume(OK(B.n) == z3.Not(some))       # induction over the buffers
        E.prove("unsafe rules are never merged", z3.Not(uns))
        E.prove("rules are never merged while the retrieved chunk is still in its buffer", z3.Not(some))
        return
    if st == "exc":
        return E.prove("refusing never fails", False)
    E.prove("a refusal changes nothing and gives no rule", isinstance(r, tuple) and len(r) == 2 and r[0] is False and r[1] is False)
    E.prove("a merge is refused only if it is unsafe or a retrieved chunk is left", z3.Or(uns, some))
