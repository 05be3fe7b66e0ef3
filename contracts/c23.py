"""C23: model set-up."""
import ast
from fractions import Fraction
from .common import *
from pyvc.models import MapDict
from pyvc.engine import LoopSpec, Role

PROPERTY = "C23"
REG = []
M = "pyactr.model.ACTRModel"
Val = L.Val
ASSUME = ["C23: the two visual buffers are given different names; the parameter values and the environment given by the caller may be shared (they are the caller's)"]
DOC = {"subsymbolic": False, "rule_firing": 0.05, "latency_factor": 0.1, "latency_exponent": 1.0, "decay": 0.5, "baselevel_learning": True,
       "optimized_learning": False, "instantaneous_noise": 0, "retrieval_threshold": 0, "buffer_spreading_activation": {}, "spreading_activation_restricted": False,
       "strength_of_association": 0, "association_only_from_chunks": True, "partial_matching": False, "mismatch_penalty": 1, "activation_trace": False,
       "utility_noise": 0, "utility_learning": False, "utility_alpha": 0.2, "motor_prepared": False, "strict_harvesting": False, "production_compilation": False,
       "automatic_visual_search": True, "emma": True, "emma_noise": True, "emma_landing_site_noise": False, "eye_mvt_angle_parameter": 1, "eye_mvt_scaling_parameter": 0.01}
DOC = {k: Fraction(str(v)) if isinstance(v, float) else v for k, v in DOC.items()}


def given(E, nm, known):
    """Any dictionary of parameters: all of them documented, or at least one of them not."""
    keys = E.fresh(nm + "_keys", z3.ArraySort(Val, L.B))
    at = E.fresh_fn(nm + "_name", L.I, L.S)
    pos = E.fresh_fn(nm + "_pos", L.S, L.I)
    value = E.fresh_fn(nm + "_value", L.S, Val)
    n = E.fresh(nm + "_n", L.I)
    v, s = z3.Const("v!%s" % nm, Val), z3.Const("s!%s" % nm, L.S)
    docs = [Val.vstr(z3.StringVal(k)) for k in DOC]
    E.assume(n >= 0)
    E.assume(z3.ForAll([v], z3.Implies(z3.Select(keys, v), Val.is_vstr(v)), patterns=[z3.Select(keys, v)]))
    i = z3.Int("i!%s" % nm)
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(keys, Val.vstr(at(i)))), patterns=[at(i)]))
    w = None
    if known:
        E.assume(z3.ForAll([v], z3.Implies(z3.Select(keys, v), z3.Or(*[v == d for d in docs])), patterns=[z3.Select(keys, v)]))
    else:
        w = E.fresh(nm + "_other", L.S)
        E.assume(z3.And(z3.Select(keys, Val.vstr(w)), *[w != z3.StringVal(k) for k in DOC]))
        E.assume(z3.And(pos(w) >= 0, pos(w) < n, at(pos(w)) == w))
    def key_at(k):
        E.fact(z3.Implies(z3.And(k >= 0, k < n), z3.Select(keys, Val.vstr(at(k)))))
        return Sym(at(k))
    sq = SeqV(n, key_at, tag=("given", nm))
    sq.vs_arr = keys

    def has(s):
        f = z3.Select(keys, Val.vstr(s))
        return z3.BoolVal(E.branch(f)) if z3.is_string_value(z3.simplify(s)) else f
    d = MapDict(has, lambda s: lib.mkval(E, value(s)), sq)
    def as_part(elem, guard):
        j = E.fresh("i", L.I)
        e0 = elem(j)
        if not isinstance(e0, tuple) or not isinstance(e0[0], Sym) or not e0[0].t.eq(at(j)):
            raise Unsupported("dictionary over the parameters")

        def has2(s):
            E.fact(z3.Implies(z3.Select(keys, Val.vstr(s)), z3.And(pos(s) >= 0, pos(s) < n, at(pos(s)) == s)))
            f = z3.And(z3.Select(keys, Val.vstr(s)), guard(pos(s)) if guard is not None else z3.BoolVal(True))
            return z3.BoolVal(E.branch(f)) if z3.is_string_value(z3.simplify(s)) else f
        return MapDict(has2, lambda s: elem(pos(s))[1], None)
    sq.as_part = as_part
    d.keys, d.value, d.w = keys, value, w
    return d


def parameters(E, m):
    return E.getattr(m, "model_parameters")


def same_default(E, got, want):
    if isinstance(want, dict):
        return isinstance(got, DictV) and not got.pairs
    if isinstance(want, bool) != isinstance(got, bool) and not isinstance(got, (Sym, ValV)):
        return False
    return b(eqv(E, got, want))


def build(E, env=None, given_=None):
    c = cls(E, M)
    return E.call(c, [] if env is None else [env], {} if given_ is None else {"**": given_})


def reach(v, out, skip):
    """Everything mutable that can be reached from v."""
    if v is None or id(v) in out or id(v) in skip or isinstance(v, (ClassV, FuncV, str, int, float)):
        return out
    if isinstance(v, ObjV):
        out[id(v)] = v
        for x in v.attrs.values():
            reach(x, out, skip)
    elif isinstance(v, DictV):
        out[id(v)] = v
        for k, x in v.pairs:
            reach(k, out, skip)
            reach(x, out, skip)
    elif isinstance(v, (ListV, SetV)):
        out[id(v)] = v
        for x in v.items:
            reach(x, out, skip)
    elif isinstance(v, (tuple, NT)):
        for x in (v.vals if isinstance(v, NT) else v):
            reach(x, out, skip)
    elif isinstance(v, Model):
        out[id(v)] = v
    return out


OWN = ("visbuffers", "goals", "retrievals", "decmems", "productions", "model_parameters", "_ACTRModel__buffers", "_ACTRModel__similarities")


def names(E, part):
    ks = sorted(DOC)
    ks = ks[part::4]
    return ks[E.choose(len(ks), "parameter")]


def values_(part):
    def run_(E):
        mode = E.choose(2, "are parameters given")
        g = given(E, "given", True) if mode else None
        k = names(E, part)
        E.cover("precondition satisfiable")
        st, m = attempt(E, lambda: build(E, None, g))
        E.prove("no error", st == "ok")
        if st != "ok":
            return
        st, v = attempt(E, lambda: E.getitem(parameters(E, m), k))
        E.prove("every documented parameter has a value", st == "ok")
        if st != "ok":
            return
        if mode and E.branch(z3.Select(g.keys, Val.vstr(z3.StringVal(k)))):
            E.prove("the given value overrides the default", b(eqv(E, v, lib.mkval(E, g.value(z3.StringVal(k))))))
        else:
            E.prove("a parameter that is not given has its default", same_default(E, v, DOC[k]))
            E.prove("the defaults of the class are not handed out", not isinstance(v, (DictV, ListV, SetV)) or v is not E.getitem(cls(E, M).ns["MODEL_PARAMETERS"], k))
        o = E.fresh("undocumented", L.S)
        E.assume(z3.And(*[o != z3.StringVal(x) for x in DOC]))
        h = lib.fml(E, lib.contains(E, parameters(E, m), Sym(o)))
        E.prove("there are no other parameters", z3.Not(h) if z3.is_expr(h) else not h)
    return run_


for _p in range(4):
    REG.append(Task("parameters (part %d)" % _p, values_(_p), [M + ".__init__"]))


@task(REG, "unknown parameters are refused", [M + ".__init__"])
def unknown(E):
    g = given(E, "given", False)
    E.cover("precondition satisfiable")
    st, e = attempt(E, lambda: build(E, None, g))
    E.prove("an unknown parameter is refused with ACTRError", st == "exc" and is_exc(E, e, "ACTRError"))


@task(REG, "models share nothing", [M + ".__init__", M + ".set_goal", M + ".set_retrieval", M + ".set_decmem", M + ".visualBuffer", M + ".set_productions"])
def shared(E):
    env = sym_env(E) if E.choose(2, "environment") else None
    ms = []

    def one(k):
        m = build(E, env)
        use = E.choose(2, "set up further")
        if use:
            run(E, M + ".set_goal", [m, "extra"])
            run(E, M + ".set_retrieval", [m, "second"])
            run(E, M + ".set_decmem", [m])
            if env is not None:
                run(E, M + ".visualBuffer", [m, "v", "vl"])
            run(E, M + ".set_productions", [m])
        return m
    before = reach(cls(E, M).ns["MODEL_PARAMETERS"], {}, set())
    st, r = attempt(E, lambda: [one(0), one(1)])
    E.prove("no error", st == "ok")
    if st != "ok":
        return
    skip = reach(env, {}, set())
    a, b2 = reach(r[0], {}, skip), reach(r[1], {}, skip)
    com = [x for x in a if x in b2]
    E.prove("two models have no mutable object in common", not com, "shared: %s" % [type(a[x]).__name__ for x in com])
    E.prove("a model does not hold the defaults themselves", not [x for x in before if x in a])
    glob = {}
    for q in ("pyactr.model.ACTRModel", "pyactr.goals.Goal", "pyactr.declarative.DecMem", "pyactr.declarative.DecMemBuffer", "pyactr.buffers.Buffer", "pyactr.vision.Visual", "pyactr.vision.VisualLocation", "pyactr.productions.Productions"):
        for x in cls(E, q).ns.values():
            if isinstance(x, (DictV, ListV, SetV, ObjV)):
                reach(x, glob, set())
    com = [x for x in glob if x in a]
    E.prove("a model holds no mutable object of a class", not com)
    for nm in OWN:
        x, y = [attempt(E, lambda: E.getattr(m, nm)) for m in r]
        if x[0] == y[0] == "ok":
            E.prove("each model has its own %s" % nm.replace("_ACTRModel__", ""), x[1] is not y[1])
    for m in r:
        E.prove("the parameters are the model's own dictionary", not (parameters(E, m) is cls(E, M).ns["MODEL_PARAMETERS"]))


# ------------------------------------------------------------------ the buffers of a model
class Buf(Model):
    """A buffer made earlier, under the name s: only the memory it harvests into matters."""

    def __init__(self, reg, s):
        super().__init__()
        self.reg, self.s = reg, s

    def get_dm(self, E):
        return self.reg.dm(E, self.s)

    def set_dm(self, E, v):
        self.reg.set(E, self.s, v)

    def get_default_harvest(self, E):
        return self.get_dm(E)

    def set_default_harvest(self, E, v):
        self.set_dm(E, v)

    def eq(self, E, o):
        if isinstance(o, Buf):
            return self.s == o.s
        return False
    is_ = eq


class Reg(Model):
    """name -> buffer: any buffers under any names; each of them harvests into no memory, the memory, or another one."""
    pyclass = dict

    def __init__(self, E, nm, mem):
        super().__init__()
        self.nm, self.mem = nm, mem
        self.has0 = E.fresh_fn(nm + "_has", L.S, L.B)
        self.at = E.fresh_fn(nm + "_name", L.I, L.S)
        self.pos = E.fresh_fn(nm + "_pos", L.S, L.I)
        self.n = E.fresh(nm + "_n", L.I)
        self.arr = E.fresh(nm + "_harvest", z3.ArraySort(L.S, L.I))
        self.made = []
        self.others = {}
        E.assume(self.n >= 0)
        E.assume(z3.Not(self.has0(z3.StringVal("manual"))))

    def has(self, E, s):
        E.fact(z3.Implies(self.has0(s), z3.And(self.pos(s) >= 0, self.pos(s) < self.n, self.at(self.pos(s)) == s)))
        return self.has0(s)

    def name(self, E, i):
        s = self.at(i)
        E.fact(z3.Implies(z3.And(i >= 0, i < self.n), z3.And(self.has0(s), self.pos(s) == i)))
        return s

    def dm(self, E, s):
        t = z3.Select(self.arr, s)
        if E.branch(t == 1):
            return self.mem
        if E.branch(t == 0):
            return None
        return OtherMem(t)

    def set(self, E, s, v):
        E.write(self, "harvest")
        t = z3.IntVal(0) if v is None else z3.IntVal(1) if v is self.mem else v.t if isinstance(v, OtherMem) else None
        if t is None:
            raise Unsupported("harvest into %r" % (v,))
        self.arr = z3.Store(self.arr, s, t)

    def find(self, E, k):
        s = E.str_term(k)
        for nm, v in reversed(self.made):
            if E.branch(nm == s):
                return v
        return Buf(self, s) if E.branch(self.has(E, s)) else None

    def m___getitem__(self, E, k):
        v = self.find(E, k)
        if v is None:
            raise engine.bexc("KeyError", k)
        return v

    def m_get(self, E, k, d=None):
        v = self.find(E, k)
        return d if v is None else v

    def m___contains__(self, E, k):
        s = E.str_term(k)
        return Sym(z3.Or(self.has(E, s), *[nm == s for nm, _ in self.made]))

    def m___setitem__(self, E, k, v):
        E.write(self, "harvest")
        self.made.append((E.str_term(k), v))

    def m_setdefault(self, E, k, v=None):
        r = self.find(E, k)
        if r is None:
            self.m___setitem__(E, k, v)
            return v
        return r

    def m_update(self, E, d=None, **kw):
        for k, v in (d.pairs if isinstance(d, DictV) else []):
            self.m___setitem__(E, k, v)
        for k, v in kw.items():
            self.m___setitem__(E, k, v)
        if d is not None and not isinstance(d, DictV):
            raise Unsupported("buffers updated with %r" % (d,))

    def place(self, E, s):
        """position of a name: the buffers there were before, then those added"""
        t = self.pos(s)
        for j, (nm, _) in enumerate(self.made):
            t = z3.If(s == nm, self.n + j, t)
        return t

    def seq(self, E, f):
        new = [nm for nm, _ in self.made]

        def name(i):
            s = self.name(E, i)
            for j, nm in enumerate(new):
                s = z3.If(i == self.n + j, nm, s)
            return z3.simplify(s)
        r = SeqV(self.n + len(new), lambda i: f(name(i)), tag=("buffers", self.nm))

        def as_dict(elem, guard):
            i = E.fresh("i", L.I)
            E.assume(self.n > 0)                        # every model has a goal buffer
            E.assume(z3.And(i >= 0, i < r.n))
            e0 = elem(i)
            if not isinstance(e0, tuple) or not isinstance(e0[0], Sym) or not e0[0].t.eq(name(i)):
                raise Unsupported("dictionary over the buffers")
            d = MapDict(lambda s: z3.And(z3.Or(self.has(E, s), *[s == nm for nm in new]), guard(self.place(E, s)) if guard is not None else z3.BoolVal(True)),
                        lambda s: elem(self.place(E, s))[1], None)
            if guard is None or not E.feasible(z3.And(i >= 0, i < r.n, z3.Not(guard(i)))):
                d.seq = SeqV(r.n, lambda k: Sym(name(k)), tag=("buffers", self.nm))
            return d
        r.as_part = as_dict
        return r

    def iterate(self, E):
        return self.seq(E, lambda s: Sym(s))
    m_keys = iterate

    def m_values(self, E):
        return self.seq(E, lambda s: self.find(E, Sym(s)))

    def m_items(self, E):
        return self.seq(E, lambda s: (Sym(s), self.find(E, Sym(s))))


class OtherMem(Model):
    def __init__(self, t):
        super().__init__()
        self.t = t

    def eq(self, E, o):
        return self.t == o.t if isinstance(o, OtherMem) else False
    is_ = eq


def a_model(E, env=None, regs=("goals", "retrievals", "_ACTRModel__buffers"), given_=None):
    m = build(E, env, given_)
    mem = E.getitem(E.getattr(m, "decmems"), "decmem")
    rs = {}
    for r in regs:
        rs[r] = Reg(E, r, mem)
        E.write(m, r)
        m.attrs[r] = rs[r]
    return m, mem, rs


def setter(fn, table, qual):
    def run_(E):
        m, mem, rs = a_model(E)
        if E.choose(2, "name") == 1:
            bad = real(E, "not_a_name")
            st, e = attempt(E, lambda: run(E, M + "." + fn, [m, bad]))
            E.prove("a name that is no string is refused", st == "exc" and is_exc(E, e, "ValueError"))
            return
        nm, other = string(E, "name"), string(E, "another_name")
        E.assume(other.t != nm.t)
        buf0 = rs["_ACTRModel__buffers"]
        had = [(r, rs[r].find(E, other)) for r in rs]
        args, kw = [m, nm], {}
        delay = None
        if fn == "set_goal" and E.choose(2, "delay"):
            delay = real(E, "delay")
            E.assume(delay.t >= 0)
            args.append(delay)
        E.cover("precondition satisfiable")
        st, g = attempt(E, lambda: run(E, M + "." + fn, args))
        E.prove("no error", st == "ok")
        if st != "ok":
            return
        E.prove("the result is a new buffer of the right kind", isinstance(g, ObjV) and g.cls.qual == qual)
        if not isinstance(g, ObjV):
            return
        E.prove("it is empty", len(E.to_list(g)) == 0)
        E.prove("it is reachable under its name", rs[table].find(E, nm) is g)
        E.prove("the rules refer to it by its name", rs["_ACTRModel__buffers"].find(E, nm) is g)
        if fn == "set_goal":
            E.prove("it has the delay given", b(eqv(E, E.getattr(g, "delay"), 0 if delay is None else delay)))
        for r, v in had:
            now = rs[r].find(E, other)
            E.prove("the other buffers are left alone", (now is None) == (v is None) and (v is None or isinstance(now, Buf)))
    return run_


REG.append(Task("setting a goal buffer", setter("set_goal", "goals", "pyactr.goals.Goal"), [M + ".set_goal"]))
REG.append(Task("setting a retrieval buffer", setter("set_retrieval", "retrievals", "pyactr.declarative.DecMemBuffer"), [M + ".set_retrieval"]))


@task(REG, "the buffers every model has", [M + ".__init__", M + ".goal", M + ".retrieval", M + ".decmem"])
def initial(E):
    m = build(E, sym_env(E) if E.choose(2, "environment") else None)
    bufs = E.getattr(m, "_ACTRModel__buffers")
    for nm, table, prop, qual in (("g", "goals", "goal", "pyactr.goals.Goal"), ("retrieval", "retrievals", "retrieval", "pyactr.declarative.DecMemBuffer")):
        x = E.getitem(E.getattr(m, table), nm)
        E.prove("the %s buffer" % nm, isinstance(x, ObjV) and x.cls.qual == qual)
        E.prove("it is the buffer the rules refer to", E.getitem(bufs, nm) is x)
        E.prove("it is the buffer shown", E.getattr(m, prop) is x)
        E.prove("there is no other one", len(E.getattr(m, table).pairs) == 1)
    d = E.getattr(m, "decmem")
    E.prove("one declarative memory, empty", isinstance(d, ObjV) and d.cls.qual == "pyactr.declarative.DecMem" and E.getitem(E.getattr(m, "decmems"), "decmem") is d and len(E.to_list(d)) == 0)
    E.prove("no visual buffers yet", len(E.getattr(m, "visbuffers").pairs) == 0)
    E.prove("no rules yet", len(E.to_list(E.getattr(m, "productions"))) == 0)


@task(REG, "visual buffers under their names", [M + ".visualBuffer"])
def visuals(E):
    env = sym_env(E)
    m, mem, rs = a_model(E, env, ("goals", "retrievals", "_ACTRModel__buffers", "visbuffers"))
    nv, nl, other = string(E, "name_visual"), string(E, "name_location"), string(E, "another_name")
    E.assume(z3.And(nv.t != nl.t, other.t != nv.t, other.t != nl.t))
    had = rs["visbuffers"].find(E, other)
    harvest = mem if E.choose(2, "harvest") else None
    fin = integer(E, "finst") if E.choose(2, "finst given") else None
    if fin is not None:
        E.assume(fin.t >= 0)
    kw = {"finst": fin} if fin is not None else {}
    st, r = attempt(E, lambda: run(E, M + ".visualBuffer", [m, nv, nl, harvest], kw))
    E.prove("no error", st == "ok" and isinstance(r, (tuple, ListV)))
    if st != "ok":
        return
    v, l = E.to_list(r)
    E.prove("a visual and a visual-location buffer", v.cls.qual == "pyactr.vision.Visual" and l.cls.qual == "pyactr.vision.VisualLocation")
    E.prove("the visual buffer is reachable under its name", rs["visbuffers"].find(E, nv) is v)
    E.prove("the visual-location buffer is reachable under its name", rs["visbuffers"].find(E, nl) is l)
    E.prove("both look at the environment of the model", E.getattr(v, "environment") is env and E.getattr(l, "environment") is env)
    E.prove("the finst is the one given", b(eqv(E, E.getattr(l, "finst"), 4 if fin is None else fin)))
    E.prove("both harvest as asked", E.getattr(v, "dm") is harvest and E.getattr(l, "dm") is harvest)
    now = rs["visbuffers"].find(E, other)
    E.prove("the other buffers are left alone", (now is None) == (had is None) and (had is None or isinstance(now, Buf)))


@task(REG, "setting the declarative memory", [M + ".set_decmem", M + ".decmem"])
def memory(E):
    m = build(E)
    n = E.choose(3, "earlier memories")
    old = None
    for _ in range(n):
        old = run(E, M + ".set_decmem", [m])
    data = DictV([[chunk(E, "chunk"), integer(E, "time")]]) if False else None
    st, d = attempt(E, lambda: run(E, M + ".set_decmem", [m, data]))
    E.prove("no error", st == "ok")
    if st == "ok":
        E.prove("the memory of the model is the new one", E.getattr(m, "decmem") is d and isinstance(d, ObjV) and d is not old)


# ------------------------------------------------------------------ preparing a simulation
def prepare(vis):
    def run_(E):
        env = sym_env(E) if vis or E.choose(2, "environment") else None
        m, mem, rs = a_model(E, env, ("_ACTRModel__buffers",), given(E, "given", True))
        R = rs["_ACTRModel__buffers"]
        g = E.fresh("buffer", L.S)
        E.assume(R.has(E, g))
        E.assume(z3.And(R.has(E, z3.StringVal("g")), R.has(E, z3.StringVal("retrieval")), g != z3.StringVal("visual"), g != z3.StringVal("visual_location")))
        arr0 = R.arr
        made = None
        if vis:
            made = E.to_list(run(E, M + ".visualBuffer", [m, "look", "where"] + ([mem] if vis == 2 else [])))
            E.assume(z3.And(z3.Not(R.has0(z3.StringVal("look"))), z3.Not(R.has0(z3.StringVal("where")))))
        pr = E.getattr(m, "productions")
        if E.choose(2, "rules fired in an earlier simulation"):
            E.setattr(pr, "used_rulenames", DictV([[string(E, "rule"), ListV([real(E, "when")])]]))
        sim_, ca, cb, sval = E.getattr(m, "_ACTRModel__similarities"), chunk(E, "chunk"), chunk(E, "otherchunk"), real(E, "similarity")
        E.assume(lib.cid_of(E, ca) != lib.cid_of(E, cb))
        cls(E, "pyactr.chunks.Chunk").ns["_similarities"] = DictV([[(cb, ca), real(E, "similarity_elsewhere")]])
        E.setitem(sim_, (ca, cb), sval)
        log = []
        made_by(E, "pyactr.productions.ProductionRules", log, ("RULES",))
        made_by(E, "pyactr.simulation.Simulation", log, ("SIMULATION",))
        install_loops(E, R, arr0, mem, made or [])
        E.cover("precondition satisfiable")
        st, r = attempt(E, lambda: run(E, M + ".simulation", [m], {}))
        E.prove("no error", st == "ok")
        if st != "ok":
            return
        E.prove("the rules and the simulation are set up once", len(log) == 2 and r == ("SIMULATION",))
        if len(log) != 2:
            return
        rules, sim = log
        if vis:
            for nm, v in zip(("look", "where"), made):
                E.prove("the visual buffers of the user are the ones used", R.find(E, nm) is v)
                E.prove("visual buffers harvest into the only memory", E.getattr(v, "dm") is mem)
        elif env is not None:
            for nm, q in (("visual", "Visual"), ("visual_location", "VisualLocation")):
                v = R.find(E, nm)
                E.prove("the built-in visual buffers are there", isinstance(v, ObjV) and v.cls.qual == "pyactr.vision." + q)
                if isinstance(v, ObjV):
                    E.prove("visual buffers harvest into the only memory", E.getattr(v, "dm") is mem)
                    E.prove("visual buffers look at the environment", E.getattr(v, "environment") is env)
        E.prove("every buffer harvests into the only memory", z3.Select(R.arr, g) == 1)
        E.prove("the buffer keeps its name", isinstance(R.find(E, g if False else Sym(g)), Buf))
        mot = R.find(E, "manual")
        E.prove("the motor buffer is there", isinstance(mot, ObjV) and mot.cls.qual == "pyactr.motor.Motor")
        E.prove("the record of fired rules is empty", len(E.getattr(pr, "used_rulenames").pairs) == 0)
        E.prove("rules and simulation get the buffers of the model", rules.get("buffers") is R and sim.get("buffers") is R)
        E.prove("rules get the rules and the parameters of the model", rules.get("rules") is pr and rules.get("model_parameters") is parameters(E, m))
        E.prove("the simulation gets these rules", sim.get("used_productions", sim.get("productions")) == ("RULES",))
        dms = rules.get("dm")
        h = lib.fml(E, lib.contains(E, dms, Sym(g)))
        E.prove("the rules know the memory of every buffer", h)
        E.prove("the memory the rules use for a buffer is the only one", E.getitem(dms, Sym(g)) is mem)
        now = cls(E, "pyactr.chunks.Chunk").ns["_similarities"]
        E.prove("the similarities are those of the model", isinstance(now, DictV) and len(now.pairs) == 1 and b(eqv(E, now.pairs[0][1], sval)))
    return run_


def made_by(E, qual, log, result):
    """Contract of a constructor: its arguments are recorded."""
    def c(E, args, kwargs):
        log.append(E.bind(F(E, qual + ".__init__"), [None] + list(args), kwargs))
        return result
    E.contracts[qual] = c


def install_loops(E, R, arr0, mem, made):
    s = z3.Const("s!harvest", L.S)
    DM = "_Buffer__dm"
    before = [v.attrs[DM] for v in made]

    def arr(i):
        return z3.Lambda([s], z3.If(z3.And(R.has0(s), R.pos(s) < i), z3.IntVal(1), z3.Select(arr0, s)))
    ghost = E.fresh("ghost", L.S)
    R.has(E, ghost)

    class All(LoopSpec):
        name = "all buffers"
        roles = []
        modifies = [(R.uid, "*")] + [(v.uid, DM) for v in made]

        def unfold(self, E, i):
            R.name(E, i)
            R.has(E, ghost)

        def heap_inject(self, E, i):
            R.arr = arr(i)
            for j, v in enumerate(made):
                v.attrs[DM] = mem if before[j] is mem or E.branch(i > R.n + j) else None

        def heap_check(self, E, i):
            r = [("memory of a buffer", z3.Select(R.arr, ghost) == z3.Select(arr(i), ghost))]
            for j, v in enumerate(made):
                want = mem if before[j] is mem or E.branch(i > R.n + j) else None
                r.append(("memory of a visual buffer", z3.BoolVal(v.attrs[DM] is want)))
            return r
    def find(seq, fr, node):
        if getattr(seq, "tag", None) == ("buffers", R.nm) and any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) or isinstance(x, ast.Call) for st in node.body for x in ast.walk(st)):
            return All()
        return engine.Engine.find_loop(E, seq, fr, node)
    E.find_loop = find


for _v, _nm in ((0, "built-in visual buffers"), (1, "visual buffers without a memory"), (2, "visual buffers with the memory")):
    REG.append(Task("preparing a simulation: %s" % _nm, prepare(_v), [M + ".simulation"]))
