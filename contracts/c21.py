"""C21: the environment shows each stimulus for its time and knows its trigger."""
from .common import *

PROPERTY = "C21"
REG = []
EP = "pyactr.environment.Environment.environment_process"
ASSUME = ["C21: the lists of stimuli, triggers and times are Python lists; times are numbers"]


def environment(E, initial):
    env = sym_env(E)
    for k, v in dict(stimuli=None, triggers=None, times=None, stimulus=None, trigger=None, gui=True, initial_time=initial).items():
        E.setattr(env, k, v)
    return env


class SymList(Model):
    """A list of symbolic length; items may be replaced in place."""
    pyclass = list

    def __init__(self, n, item, tag):
        super().__init__()
        self.n, self.item, self.tag, self.writes = n, item, tag, []

    def at(self, E, i):
        for k, v in reversed(self.writes):
            if E.branch(k == i):
                return v
        return self.item(E, i)

    def iterate(self, E):
        return SeqV(self.n, lambda i: self.at(E, i), tag=self.tag, pyclass=list)

    def m___len__(self, E):
        return Sym(self.n)

    def index(self, E, k):
        k = z3.IntVal(k) if isinstance(k, int) else k.t
        if not E.branch(z3.And(k >= -self.n, k < self.n)):
            raise engine.bexc("IndexError", "list index out of range")
        return k if E.branch(k >= 0) else k + self.n

    def m___getitem__(self, E, k):
        return self.at(E, self.index(E, k))

    def m___setitem__(self, E, k, v):
        E.write(self, "items")
        self.writes.append((self.index(E, k), v))

    def m_append(self, E, v):
        E.write(self, "items")
        self.writes.append((self.n, v))
        self.n = self.n + 1

    def m_copy(self, E):
        c = SymList(self.n, self.item, self.tag)
        c.writes = list(self.writes)
        return c

    def m___mul__(self, E, k):
        if not E.branch(self.n == 1):
            raise Unsupported("repetition of a list of several elements")
        k = z3.IntVal(k) if isinstance(k, int) else k.t
        return SymList(z3.If(k > 0, k, z3.IntVal(0)), lambda E, i: self.at(E, z3.IntVal(0)), ("repeated", self.tag))


class StimV(Model):
    """The i-th stimulus: a dictionary with any number of entries, each a dictionary or not."""
    pyclass = dict

    def __init__(self, S, i):
        super().__init__()
        self.S, self.i = S, i

    def iterate(self, E):
        return SeqV(self.S.m(self.i), lambda j: Sym(self.S.KEY(self.i, j)), tag="entries")
    m_keys = iterate

    def entry(self, E, j):
        if E.branch(self.S.EV(self.i, j)):
            return DictV([["position", (0, 0)]])
        return Sym(self.S.KEY(self.i, j))

    def m___getitem__(self, E, k):
        t = E.str_term(k)
        if not (z3.is_app(t) and t.decl().eq(self.S.KEY) and z3.eq(t.arg(0), self.i)):
            raise Unsupported("entry %s of a stimulus" % t)
        return self.entry(E, t.arg(1))

    def m_values(self, E):
        return SeqV(self.S.m(self.i), lambda j: self.entry(E, j), tag="entries")

    def m_items(self, E):
        return SeqV(self.S.m(self.i), lambda j: (Sym(self.S.KEY(self.i, j)), self.entry(E, j)), tag="entries")

    def m_copy(self, E):
        return self

    def eq(self, E, o):
        return z3.Or(self.i == o.i, self.S.EQUAL(self.i, o.i)) if isinstance(o, StimV) else False

    def is_(self, E, o):
        return z3.Or(self.i == o.i, self.S.SAME(self.i, o.i)) if isinstance(o, StimV) else False


class Stimuli:
    def __init__(self, E):
        self.n = E.fresh("nstimuli", L.I)
        E.assume(self.n >= 0)
        self.m = E.fresh_fn("nentries", L.I, L.I)
        self.EQUAL, self.SAME = E.fresh_fn("equal", L.I, L.I, L.B), E.fresh_fn("same", L.I, L.I, L.B)    # the list may hold equal, or the same, stimuli
        self.KEY = E.fresh_fn("entry", L.I, L.I, L.S)
        self.EV, self.ISMAP, self.NAME = E.fresh_fn("entry_is_dict", L.I, L.I, L.B), E.fresh_fn("is_dict", L.I, L.B), E.fresh_fn("name", L.I, L.S)

    def valid(self, i):
        j = z3.Int("j!v")
        return z3.Or(z3.Not(self.ISMAP(i)), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.m(i)), self.EV(i, j)), patterns=[self.EV(i, j), self.KEY(i, j)]))

    def raw(self, E, i):
        return StimV(self, i) if E.branch(self.ISMAP(i)) else Sym(self.NAME(i))

    def shown(self, E, i):
        return StimV(self, i) if E.branch(self.ISMAP(i)) else DictV([[Sym(self.NAME(i)), DictV([["position", (320, 180)]])]])

    def is_shown(self, E, i, v):
        """v is what is shown for stimulus i"""
        if isinstance(v, StimV):
            return z3.And(self.ISMAP(i), v.i == i)
        if not isinstance(v, DictV) or len(v.pairs) != 1:
            return z3.BoolVal(False)
        k, d = v.pairs[0]
        if not isinstance(d, DictV) or [x[0] for x in d.pairs] != ["position"] or not E.branch(b(eqv(E, d.pairs[0][1], (320, 180)))):
            return z3.BoolVal(False)
        return z3.And(z3.Not(self.ISMAP(i)), b(eqv(E, k, Sym(self.NAME(i)))))


def arr(E, v):
    if isinstance(v, ValSet):
        return v.arr
    if isinstance(v, SetV):
        return lib.items_arr(E, v.items)
    return None


def show(E, forms):
    """forms: for stimuli, triggers, times: is it a list (or a single one)?"""
    S = Stimuli(E)
    init, start = real(E, "initial_time"), real(E, "start_time")
    env = environment(E, init)
    given_start = E.choose(2, "start time given")
    # the arguments
    m, k = E.fresh("ntriggers", L.I), E.fresh("ntimes", L.I)
    E.assume(z3.And(m >= 0, k >= 0))
    TR, TI = E.fresh_fn("trigger", L.I, L.I, L.S), E.fresh_fn("duration", L.I, L.R)
    stimuli = SymList(S.n, S.raw, "stimuli")
    triggers = SymList(m, lambda E, i: ListV([Sym(TR(i, z3.IntVal(0))), Sym(TR(i, z3.IntVal(1)))]), "triggers")
    times = SymList(k, lambda E, i: Sym(TI(i)), "times")
    if not forms[0]:
        E.assume(S.n == 1)
        stimuli = S.raw(E, z3.IntVal(0))
    if not forms[1]:
        m = z3.IntVal(1)
        triggers = ["a", "sPace", "Ab"][E.choose(3, "the trigger")]
        up0 = lib.items_arr(E, {"a": ["A"], "sPace": ["SPACE"], "Ab": ["A", "B"]}[triggers])
    if not forms[2]:
        k = z3.IntVal(1)
        times = real(E, "time")
    n = S.n

    # specification
    okt, N = z3.Or(n == m, n == 1, m == 1), z3.If(n == 1, m, n)
    okd = z3.Or(k == N, k == 1)
    sidx = lambda i: z3.If(n == 1, z3.IntVal(0), i)
    tidx = lambda i: z3.If(m == 1, z3.IntVal(0), i)
    up = (lambda i: lib.items_arr(E, [Sym(L.UPPER(TR(tidx(i), z3.IntVal(0)))), Sym(L.UPPER(TR(tidx(i), z3.IntVal(1))))])) if forms[1] else (lambda i: up0)
    dur = (lambda i: TI(z3.If(k == 1, z3.IntVal(0), i))) if forms[2] else (lambda i: times.t)
    begin = init.t + (start.t if given_start else 0)
    TS = Fold(E, "end", [L.R], [begin], lambda cur, i: [cur[0] + dur(i)])
    i_, st = z3.Int("i!ok"), dict(phase="validation", yielded=0, i=None)
    allvalid = lambda upto: z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < upto), S.valid(i_))) if forms[0] else S.valid(z3.IntVal(0))

    class Validation(LoopSpec):
        name = "validation"
        modifies = ((stimuli.uid, "items"),) if isinstance(stimuli, SymList) else ()

        def mixed(self, upto):
            return lambda E, i: S.shown(E, i) if E.branch(i < upto) else S.raw(E, i)

        def heap_inject(self, E, i):
            stimuli.item, stimuli.writes = self.mixed(i), []
            E.assume(allvalid(i))
            self.i = i

        def heap_check(self, E, i):
            r = [("every stimulus so far is valid", allvalid(i))]
            if z3.is_int_value(i):
                return r
            j = z3.simplify(i - 1)
            if not self.role:
                r.append(("the stimulus is kept, or shown at the default position", z3.And(z3.BoolVal(all(E.branch(w[0] == j) for w in stimuli.writes)), S.is_shown(E, j, stimuli.at(E, j)))))
            else:
                r.append(("the list given is not changed", z3.BoolVal(not stimuli.writes)))
            return r

        role = False

        def out_inject(self, E, i):
            self.role = True
            return SymList(i, S.shown, "normalised")

        def out_check(self, E, i, v):
            if isinstance(v, ListV):
                return len(v.items) == 0
            if not isinstance(v, SymList) or v.tag != "normalised":
                return False
            if z3.is_int_value(i):
                return False
            j = z3.simplify(i - 1)
            return z3.And(v.n == i, S.is_shown(E, j, v.at(E, j)), z3.BoolVal(len(v.writes) <= 1))

        @property
        def roles(self):
            return [Role("list of stimuli", self.out_inject, self.out_check, optional=True)]

    class Triggers(LoopSpec):
        name = "triggers"

        @property
        def modifies(self):
            return ((env.attrs["triggers"].uid, "*"), (env.attrs["triggers"].uid, "items"), (env.uid, "triggers"))

        def heap_inject(self, E, i):
            env.attrs["triggers"] = SymList(i, lambda E, k: ValSet(up(k)), "uppertriggers")
            self.cur = env.attrs["triggers"]

        def heap_check(self, E, i):
            v = env.attrs["triggers"]
            if z3.is_int_value(i):
                return [("no trigger yet", z3.BoolVal(isinstance(v, ListV) and not v.items))]
            if not isinstance(v, SymList) or len(v.writes) > 1:
                return [("one trigger per screen", z3.BoolVal(False))]
            j = z3.simplify(i - 1)
            a = arr(E, v.at(E, j))
            return [("the trigger is kept in upper case", z3.And(v.n == i, a == up(j)) if a is not None else z3.BoolVal(False))]

    class Present(LoopSpec):
        name = "presentation"
        modifies = tuple((env.uid, x) for x in ("run_time", "trigger", "stimulus", "_Environment__time"))
        roles = [Role("time", lambda E, i: Sym(TS.at(i)[0]), lambda E, i, v: T(E, v) == TS.at(i)[0] if lib.is_num(v) else False, optional=True),
                 Role("elapsed", lambda E, i: Sym(TS.at(i)[0] - begin), lambda E, i, v: T(E, v) == TS.at(i)[0] - begin if lib.is_num(v) else False, optional=True)]

        def base(self, E):
            TS.base()

        def unfold(self, E, i):
            TS.unfold(i)
            st["i"] = i

        def heap_inject(self, E, i):
            st["yielded"] = i
            if E.branch(i > 0):
                env.attrs.update(stimulus=S.shown(E, sidx(i - 1)), trigger=ValSet(up(i - 1)), run_time=Sym(dur(i - 1)))

        def heap_check(self, E, i):
            y = st["yielded"]
            return [("one event per stimulus", (y if z3.is_expr(y) else z3.IntVal(y)) == i)]

    val = Validation()

    def factory(E, fr, seq):
        if st["phase"] == "presentation":
            return Present()
        if seq.tag == "stimuli" or isinstance(seq.tag, tuple) and seq.tag[0] == "range" and isinstance(stimuli, SymList) and seq.n is not None and z3.eq(z3.simplify(seq.n), z3.simplify(z3.If(S.n > 0, S.n, 0))) and st["phase"] == "validation":
            st["phase"] = "triggers"
            return val
        if isinstance(env.attrs["triggers"], ListV) and not env.attrs["triggers"].items:
            return Triggers()
        return None

    def find(seq, fr, node):
        if seq.tag in ("entries", "chars") or "environment" not in (fr.func.module.name if fr.func is not None and hasattr(fr.func, "module") and fr.func.module is not None else "environment"):
            return None
        return factory(E, fr, seq)
    E.find_loop = find

    def on_yield(v):
        if st["phase"] != "presentation":
            st["phase"] = "presentation"
            E.prove("the environment starts at its start time", ev_time(E, v, begin))
            return None
        i = st["i"]
        if i is None:       # a loop over a known number of stimuli
            i = z3.IntVal(st["yielded"])
            TS.base()
            TS.unfold(i)
        E.prove("the event is at the end of the stimulus: start time plus the durations so far", ev_time(E, v, TS.raw(z3.simplify(i + 1))[0]))
        E.prove("the stimulus is the current one", S.is_shown(E, sidx(i), E.getattr(env, "stimulus")))
        a = arr(E, E.getattr(env, "trigger"))
        E.prove("its trigger (upper case) is the current one", a == up(i) if a is not None else z3.BoolVal(False))
        E.prove("its duration is the running time", T(E, E.getattr(env, "run_time")) == dur(i))
        st["yielded"] = st["yielded"] + 1
        return None

    kw = {"start_time": start} if given_start else {}
    E.cover("precondition satisfiable")
    how, r = attempt(E, lambda: run(E, EP, [env, stimuli, triggers, times], kw).run(on_yield))
    if how == "exc":
        E.prove("only an ACTRError is raised", is_exc(E, r, "ACTRError"))
        E.prove("nothing was shown", st["phase"] != "presentation")
        E.prove("refused only if some stimulus is invalid or the lengths differ", z3.Or(z3.Not(okt), z3.Not(okd), z3.Not(allvalid(n))))
        return
    E.prove("lists of different lengths and stimuli that are not dictionaries of dictionaries are refused", z3.And(okt, okd, allvalid(n)))
    E.prove("every stimulus was shown", (st["yielded"] if z3.is_expr(st["yielded"]) else z3.IntVal(st["yielded"])) == N)


for _f in range(8):
    REG.append(Task("presentation " + ", ".join(("list of " if _f >> _k & 1 else "single ") + w for _k, w in enumerate(("stimuli", "triggers", "times"))),
                    (lambda f: lambda E: show(E, [f >> k & 1 for k in range(3)]))(_f), [EP, "pyactr.environment.Environment.output"]))


@task(REG, "forms of triggers", [EP, "pyactr.environment.Environment.output"], bounded="two stimuli and two triggers, each trigger one of 12 forms (strings of any length, lists of up to two strings)")
def forms(E):
    env = environment(E, real(E, "initial_time"))
    E.setattr(env, "gui", bool(E.choose(2, "gui")))
    sym, sym2 = string(E, "trigger"), string(E, "trigger2")
    i = E.choose(12, "first trigger")
    mk = lambda x: [("a", ["A"]), ("space", ["SPACE"]), ("SPACE", ["SPACE"]), ("sPacE", ["SPACE"]), (sym, "chars"), (ListV(["left", sym]), ["LEFT", Sym(L.UPPER(sym.t))]),
                    (("SPACE", "b"), ["SPACE", "B"]), (5, None), (None, None), (ListV(["x", 5]), None), ("", []), (sym2, "chars")][x]
    t1, t2 = mk(i), mk([0, 4, 7][E.choose(3, "second trigger")])
    s1, s2 = DictV([["s1", DictV([["text", string(E, "text")], ["position", (real(E, "x"), real(E, "y"))]])], ["frequency", DictV([["text", "f"], ["position", (5, 5)]])]]), DictV()
    d1, d2 = real(E, "time1"), real(E, "time2")
    ts = [(t1, s1), (t2, s2)]
    log, r = [], None
    E.contracts["builtins.print"] = lambda E, a, k: None
    how, r = attempt(E, lambda: drive_log(E, run(E, EP, [env, ListV([s1, s2]), ListV([t1[0], t2[0]]), ListV([d1, d2])]), env, log))
    if t1[1] is None or t2[1] is None:
        E.prove("triggers that are not strings are refused", z3.BoolVal(how == "exc" and is_exc(E, r, "ACTRError") and not log))
        return
    E.prove("no error", z3.BoolVal(how == "ok" and len(log) == 3))
    for (t, s), (ev, stim, trig) in zip(ts, log[1:]):
        E.prove("the stimulus given is shown", z3.BoolVal(stim is s and [k for k, v in s.pairs] == (["s1", "frequency"] if s is s1 else [])))
        a = arr(E, trig)
        v = z3.Const("v!tr", L.Val)
        if t[1] == "chars":
            j = z3.Int("j!tr")
            tt = t[0].t
            chars = z3.Lambda([v], z3.Exists([j], z3.And(0 <= j, j < z3.Length(tt), v == lib.val_term(E, Sym(L.UPPER(z3.SubString(tt, j, 1)))))))
            x = E.fresh("x", L.Val)
            E.prove("the trigger is SPACE or the characters of the string in upper case", z3.BoolVal(False) if a is None else z3.If(L.UPPER(tt) == "SPACE", z3.Select(a, x) == z3.Select(lib.items_arr(E, ["SPACE"]), x), z3.Select(a, x) == z3.Select(chars, x)))
        else:
            E.prove("the trigger is the set of its strings in upper case", a == lib.items_arr(E, t[1]) if a is not None else z3.BoolVal(False))


def drive_log(E, g, env, log):
    def cb(v):
        log.append((v, E.getattr(env, "stimulus"), E.getattr(env, "trigger")))
    g.run(cb)
