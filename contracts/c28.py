"""C28: the simulation reports every event at its time, wakes the rule cycle, and starts and replaces module processes."""
from .common import *
from pyvc import models
from . import procworld

PROPERTY = "C28"
REG = []
VS = z3.ArraySort(L.Val, L.B)
SIM = "pyactr.simulation.Simulation"
PRC = "pyactr.productions.ProductionRules"
INF = float("inf")
ASSUME = ["C28: simpy is outside: timeouts, processes, events and interrupts are objects whose calls are recorded; whatever can happen while a process waits is tried at each wait",
          "C28: the time of the simulation is always a multiple of 0.0001 (all event times are rounded to 4 decimals), and no event lies in the past",
          "C28: no graphical window (gui is off)"]


def interrupt():
    return engine.PyExc(Ext("simpy.Interrupt"), [])


class Timeout(Model):
    def __init__(self, d, of):
        super().__init__()
        self.d, self.of = d, of


class Either(Model):
    def __init__(self, a, b_):
        super().__init__()
        self.parts = [a, b_]


class Proc(Model):
    """A process handed to simpy."""

    def __init__(self, g):
        super().__init__()
        self.g, self.triggered, self.interrupts = g, False, 0

    def get_triggered(self, E):
        return self.triggered

    def get_is_alive(self, E):
        return not self.triggered

    def m_interrupt(self, E, *a):
        E.write(self, "interrupts")
        self.interrupts += 1

    def m___or__(self, E, o):
        return Either(self, o)


class Lock(Model):
    """A simpy event used as a lock."""

    def __init__(self, triggered=False):
        super().__init__()
        self.triggered = triggered

    def get_triggered(self, E):
        return self.triggered

    def m_succeed(self, E, value=None):
        if self.triggered:
            raise engine.bexc("RuntimeError", "already triggered")
        E.write(self, "triggered")
        self.triggered = True

    def m___or__(self, E, o):
        return Either(self, o)


class Sim(Model):
    def __init__(self, now):
        super().__init__()
        self.now, self.procs, self.runs, self.steps, self.empty = now, [], [], 0, False
        self.on_step, self.stopped, self.next = None, False, now

    def get_now(self, E):
        return Sym(self.now)

    def m_timeout(self, E, d):
        return Timeout(d, self)

    def m_process(self, E, g):
        p = Proc(g)
        self.procs.append(p)
        return p

    def m_event(self, E):
        return Lock()

    def m_run(self, E, until=None):
        self.runs.append(until)
        self.now, self.stopped = T(E, until), True      # simpy 4.1: the event that ends a run is scheduled again, before all others

    def m_step(self, E):
        self.steps += 1
        if self.stopped:
            self.stopped = False
            return
        if self.on_step:
            self.on_step()

    def m_peek(self, E):
        if self.stopped:
            return Sym(self.now)
        return INF if self.empty else Sym(self.next)


class Gen(Model):
    """A module process: its next event, or something that is not an event, or its end."""

    def __init__(self, w, kinds=3):
        super().__init__()
        self.w, self.kinds, self.got = w, kinds, []

    def m___next__(self, E, *rest):
        k = E.choose(self.kinds, "what a process gives")
        if k == 2:
            if rest:
                return rest[0]
            raise engine.bexc("StopIteration")
        v = an_event(E, self.w) if k == 0 else Going()
        self.got.append(v)
        return v


class Going(Model):
    """What a process hands back: the process to go on with."""


def named(E, nm):
    g = GenV(lambda cb: None, name=nm)
    return g


def an_event(E, w):
    t = real(E, "event_time")
    E.assume(z3.And(t.t >= w.sim.now, L.ROUND(t.t, 4) == t.t))
    return E.call(E.modules["pyactr.utilities"].ns["Event"], [t, E.fresh_str("module"), E.fresh_str("action")], {})


def world(E, env=None, trace=False, buffers=("a", "b"), realtime=False):
    class W:
        pass
    w = W()
    w.start = real(E, "initial_time")
    now = real(E, "now")
    E.assume(L.ROUND(now.t, 4) == now.t)
    w.sim = Sim(now.t)

    def made(E, a, k):
        w.made = (a, k)
        return w.sim
    E.contracts["ext:simpy.Environment"] = made
    E.contracts["ext:simpy.RealtimeEnvironment"] = made
    w.prints = []
    E.contracts["ext:builtins.print"] = lambda E, a, k: w.prints.append(a)
    w.bufs = DictV([[n, n2] for n, n2 in (buffers if not isinstance(buffers, tuple) else [(n, ObjV(cls(E, "pyactr.buffers.Buffer"), {})) for n in buffers])])
    w.pr = rules_obj(E)
    w.cycles = []

    def cycle(E, a, k):
        g = named(E, "procedural_process")
        w.cycles.append(list(E.bind(F(E, PRC + ".procedural_process"), a, k).values())[1])
        return g
    E.contracts[PRC + ".procedural_process"] = cycle
    w.compiled = []
    E.contracts[PRC + ".compile_rules"] = lambda E, a, k: w.compiled.append(1)
    w.env = env
    w.stimuli = named(E, "stimuli")
    w.m = E.instantiate(cls(E, SIM), [env, realtime, trace, False, w.bufs, w.pr, w.start] + ([FuncEP(w)] if env is not None else []), {})
    return w


class FuncEP(Model):
    """The process of the environment, called by the simulation."""

    def __init__(self, w):
        super().__init__()
        self.w = w

    def m___call__(self, E, *a, **k):
        return self.w.source


def private(E, w, nm, v=None):
    k = "_Simulation__" + nm
    if v is None:
        return E.getattr(w.m, k)
    E.setattr(w.m, k, v)
    return v


def lock(E, w, nm, k=None):
    """the lock nm, in an arbitrary state"""
    x = Lock(bool(E.choose(2, nm)))
    if k is None:
        return private(E, w, nm, x)
    E.setitem(private(E, w, nm), k, x)
    return x


class Once(LoopSpec):
    """A process that runs for ever: one round of its loop from an arbitrary state."""

    def __init__(self, name, head=None, end=None, local=None):
        self.name, self._head, self._end, self._local = name, head, end, local

    def entry(self, E):
        return []

    def head(self, E):
        if self._head:
            self._head()

    def local(self, E, nm, old):
        return self._local(nm, old) if self._local else engine.POISON

    def end(self, E):
        if self._end:
            self._end()


def rounds(E, qual, spec):
    E.whiles = lambda E, fr, s: spec if fr.func is not None and fr.func.qual == SIM + "." + qual else None


def is_proc(v, name, gen):
    """v runs generator gen as a process of module `name`"""
    if not isinstance(v, Proc) or not isinstance(v.g, GenV) or not (v.g.qual or "").endswith("__localprocess__"):
        return False
    args = list(v.g.args.values())
    return args[1] == name and args[2] is gen


def wakes(E, w, e):
    return z3.And(z3.Not(b(eqv(E, e.get("action"), "UNKNOWN"))), z3.Not(b(eqv(E, e.get("proc"), "PROCEDURAL"))))


def reported(E, w, e, old, trace):
    known = z3.Not(b(eqv(E, e.get("action"), "UNKNOWN")))
    cur = E.getattr(w.m, "current_event")
    E.prove("the event is the current one now, unless its action is unknown", z3.If(known, z3.BoolVal(cur is e), z3.BoolVal(cur is old)))
    E.prove("it is printed once if the trace is on", z3.If(z3.And(known, z3.BoolVal(trace)), z3.BoolVal(len(w.prints) == 1), z3.BoolVal(len(w.prints) == 0)))
    if w.prints and trace:
        p = w.prints[0][0]
        E.prove("with its time, module and action", conj(isinstance(p, tuple), lambda: len(p) == 3, lambda: z3.And(*[b(eqv(E, x, e.get(f))) for x, f in zip(p, ("time", "proc", "action"))])))


def local_task(env, trace):
    def run_(E):
        en = sym_env(E) if env else None
        w = world(E, en, trace, realtime=not env and bool(E.choose(2, "real time")))
        gen = Gen(w)
        act = [None]
        S = {}
        pressed = trig = None

        def head():
            S["lock"] = lock(E, w, "proc_activate")
            S["was"] = S["lock"].triggered
            S["old"] = NT_old(E)
            E.setattr(w.m, "current_event", S["old"])
            private(E, w, "interruptibles", DictV([["b", named(E, "running")]] if E.choose(2, "another module works") else []))
            if env:
                S["envlock"] = lock(E, w, "environment_activate")
                S["told"] = S["envlock"].triggered
                S["keys"], S["trigs"] = (E.fresh(n, VS) for n in ("keys", "triggers"))
                E.setattr(w.pr, "env_interaction", models.ValSet(S["keys"]))
                S["none"] = bool(E.choose(2, "no trigger"))
                E.setattr(en, "trigger", None if S["none"] else models.ValSet(S["trigs"]))
                S["waited"] = S["gave"] = None

        def cb(v):
            e = gen.got[-1]
            E.prove("the process waits for the time of its event", conj(isinstance(v, Timeout) and is_event(e), lambda: T(E, v.d) == T(E, e.get("time")) - w.sim.now))
            E.prove("nothing is reported before that", E.getattr(w.m, "current_event") is S["old"] and S["lock"].triggered == S["was"] and not w.prints)
            if E.choose(2, "interrupted"):
                S["cut"] = True
                raise interrupt()
            w.sim.now = T(E, e.get("time"))
            S["waited"] = e
            return None

        def after():
            e = S.get("waited")
            E.prove("an event is reported after every wait, and nothing else", e is not None and not S.get("cut") and e is gen.got[-1])
            if e is None:
                return
            reported(E, w, e, S["old"], trace)
            E.prove("the rule cycle is woken, unless the event is its own or unknown", z3.If(wakes(E, w, e), z3.BoolVal(S["lock"].triggered is True), z3.BoolVal(S["lock"].triggered == S["was"])))
            E.prove("the same lock is waited for", private(E, w, "proc_activate") is S["lock"])
            if env:
                v = z3.Const("v!k", L.Val)
                hit = z3.BoolVal(False) if S["none"] else z3.Exists([v], z3.And(z3.Select(S["keys"], v), z3.Select(S["trigs"], v)))
                E.prove("the environment goes on if a key pressed is a trigger of the stimulus", z3.BoolVal(S["envlock"].triggered is True) == z3.Or(hit, z3.BoolVal(S["told"])))
                E.prove("it is the lock of the environment", private(E, w, "environment_activate") is S["envlock"])
                left = E.getattr(w.pr, "env_interaction")
                E.prove("a key pressed counts once", z3.Not(z3.Exists([v], z3.Select(left.arr, v))) if isinstance(left, models.ValSet) else not E.to_list(left))
                trig = E.getattr(en, "trigger")
                E.prove("the trigger is left as it is", trig is None if S["none"] else conj(isinstance(trig, models.ValSet), lambda: trig.arr == S["trigs"]))
        rounds(E, "__localprocess__", Once("process of a module", head, after))
        g = E.call(E.getattr(w.m, "__localprocess__"), ["a", gen], {})
        E.cover("precondition satisfiable")
        st, r = attempt(E, lambda: g.run(cb))
        E.prove("no error", st == "ok")
        if st != "ok":
            return
        cut = S.get("cut")
        last = gen.got[-1] if gen.got else None
        E.prove("a process ends when it is over, interrupted, or hands on to another process", bool(cut) or last is None or isinstance(last, Going))
        E.prove("what it hands on is returned, nothing otherwise", r is (last if isinstance(last, Going) and not cut else None))
        E.prove("an interrupted process reports nothing", E.getattr(w.m, "current_event") is S["old"] and S["lock"].triggered == S["was"] and not w.prints)
    return run_


def NT_old(E):
    return E.call(E.modules["pyactr.utilities"].ns["Event"], [real(E, "earlier"), E.fresh_str("emodule"), E.fresh_str("eaction")], {}) if E.choose(2, "reported before") else None


LP = [SIM + "." + x for x in ("__localprocess__", "__activate__", "__printevent__")]
for _e in (False, True):
    for _t in (False, True):
        REG.append(Task("module process: %s, %s" % ("environment" if _e else "no environment", "trace" if _t else "no trace"), local_task(_e, _t), LP))


@task(REG, "environment process", [SIM + "." + x for x in ("__envprocess__", "__activate__", "__printenv__")])
def envprocess(E):
    w = world(E, sym_env(E))
    lk = lock(E, w, "proc_activate")
    was = lk.triggered
    old = NT_old(E)
    E.setattr(w.m, "current_event", old)
    e = an_event(E, w)
    waits, cut = [], []

    def cb(v):
        waits.append(v)
        E.prove("the stimulus stays until its time", conj(isinstance(v, Timeout), lambda: T(E, v.d) == T(E, e.get("time")) - w.sim.now))
        E.prove("nothing is reported before that", E.getattr(w.m, "current_event") is old and lk.triggered == was)
        if E.choose(2, "interrupted"):
            cut.append(1)
            raise interrupt()
    E.cover("precondition satisfiable")
    g = E.call(E.getattr(w.m, "__envprocess__"), [e], {})
    st, r = attempt(E, lambda: g.run(cb))
    E.prove("no error, one wait", st == "ok" and len(waits) == 1)
    known = z3.Not(b(eqv(E, e.get("action"), "UNKNOWN")))
    cur = E.getattr(w.m, "current_event")
    E.prove("the end of the stimulus is reported, unless it is cut short", z3.BoolVal(cur is old) if cut else z3.If(known, z3.BoolVal(cur is e), z3.BoolVal(cur is old)))
    E.prove("the rule cycle is woken in both cases", z3.If(wakes(E, w, e), z3.BoolVal(lk.triggered is True), z3.BoolVal(lk.triggered == was)))


class Started(Model):
    """The processes started by the rule fired last: any number of them, for any modules."""
    pyclass = list

    def __init__(self, E):
        super().__init__()
        self.n = E.fresh("nstarted", L.I)
        E.assume(self.n >= 0)
        self.NAME = E.fresh_fn("module_of", L.I, L.S)
        self.gens, self.removed = {}, []

    def gen(self, i):
        k = z3.simplify(i).get_id()
        if k not in self.gens:
            self.gens[k] = (i, GenV(lambda cb: None, name="process"))
            self.gens[k][1].at = i
        return self.gens[k][1]

    def iterate(self, E):
        return SeqV(self.n, lambda i: (Sym(self.NAME(i)), self.gen(i)), tag="started")

    def m_remove(self, E, x):
        E.write(self, "items")
        ok = isinstance(x, tuple) and len(x) == 2 and hasattr(x[1], "at")
        E.prove("what is removed is one of the processes started", conj(ok, lambda: b(eqv(E, x[0], Sym(self.NAME(x[1].at))))))
        self.removed.append(x[1])


def search_loop(E, started):
    """A loop over the processes started that stops at one of the module: none before it is of this module."""
    class Search(LoopSpec):
        name = "processes started"

        def none_before(self, i):
            j = z3.Int("j!s")
            return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), started().NAME(j) != z3.StringVal("a")))

        def heap_inject(self, E, i):
            E.assume(self.none_before(i))

        def heap_check(self, E, i):
            return [("none before it is of this module", self.none_before(i))]
    E.loops["started"] = lambda E, fr, seq: Search()


@task(REG, "module: starting its processes", [SIM + ".__extraprocessGenerator__"])
def extra(E):
    w = world(E)
    S = dict(yields=[])
    other = Lock(bool(E.choose(2, "other")))
    search_loop(E, lambda: S["list"])
    run_before = named(E, "running")

    def head():
        S["list"] = private(E, w, "procs_started", Started(E))
        S["lock"] = lock(E, w, "dict_extra_proc_activate", "a")
        S["was"] = S["lock"].triggered
        E.setitem(private(E, w, "dict_extra_proc_activate"), "b", other)
        S["other"] = other.triggered
        S["known"] = E.choose(2, "registered as interruptible")
        private(E, w, "interruptibles", DictV(([["a", run_before]] if S["known"] else []) + [["b", run_before]]))
        w.sim.procs.clear()
        S["n"] = 0

    def first():
        """the process of this module found first, if there is one"""
        sq = S["list"]
        return sq.removed[0] if sq.removed else None

    def cb(v):
        S["yields"].append(v)
        sq, j = S["list"], z3.Int("j!m")
        act = private(E, w, "dict_extra_proc_activate")
        if len(S["yields"]) == 1:
            if isinstance(v, Proc):
                p = first()
                E.prove("a process started for the module is taken off the list and run", len(sq.removed) == 1 and is_proc(v, "a", p))
                E.prove("the others stay on it", private(E, w, "procs_started") is sq)
                if p is None:
                    raise engine.PathEnd()
                E.prove("it is the first one of this module", z3.And(p.at >= 0, p.at < sq.n, sq.NAME(p.at) == z3.StringVal("a"), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p.at), sq.NAME(j) != z3.StringVal("a")))))
                E.prove("the module is marked as working", E.getitem(act, "a") is S["lock"] and S["lock"].triggered is True)
                S["main"] = v
                k = E.choose(4, "how it goes on")
                S["how"] = ("ends", "hands on", "interrupted", "interrupted when over")[k]
                if k == 1:
                    S["going"] = Going()
                v.triggered = k != 2
                if k >= 2:
                    raise interrupt()
                return S["going"] if k == 1 else None
            E.prove("without a process the module waits to be started", v is S["lock"] and not sq.removed and not w.sim.procs)
            E.prove("because none was started for it", z3.Not(z3.Exists([j], z3.And(j >= 0, j < sq.n, sq.NAME(j) == z3.StringVal("a")))))
            E.prove("what ran before is over", not E.branch(b(E.contains(private(E, w, "interruptibles"), "a"))) if hasattr(E, "contains") else "a" not in [k for k, _ in private(E, w, "interruptibles").pairs])
            S["how"] = "waits"
            S["lock"].triggered = True
            if E.choose(2, "to be replaced before it has started"):
                raise interrupt()
            return None
        E.prove("only what the first process hands on is run afterwards", S["how"] == "hands on" and len(S["yields"]) == 2 and is_proc(v, "a", S["going"]))
        if E.choose(2, "interrupted"):
            v.triggered = bool(E.choose(2, "over"))
            raise interrupt()
        return None

    def after():
        how = S.get("how")
        E.prove("something was waited for", how is not None)
        if how is None:
            return
        E.prove("another module is left alone", E.getitem(private(E, w, "dict_extra_proc_activate"), "b") is other and other.triggered == S["other"])
        E.prove("and what runs there too", any(k == "b" and v is run_before for k, v in private(E, w, "interruptibles").pairs))
        if how == "waits":
            new = E.getitem(private(E, w, "dict_extra_proc_activate"), "a")
            E.prove("then it can be started again", isinstance(new, Lock) and new is not S["lock"] and not new.triggered and len(S["yields"]) == 1)
            return
        E.prove("what is handed on is run", len(S["yields"]) == (2 if how == "hands on" else 1))
        E.prove("a process that is replaced is interrupted, one that is over is not", S["main"].interrupts == (1 if how == "interrupted" else 0))
    rounds(E, "__extraprocessGenerator__", Once("module", head, after))
    g = E.call(E.getattr(w.m, "__extraprocessGenerator__"), ["a"], {})
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: g.run(cb))
    E.prove("a module never stops", False)


def processes(E, k):
    """k processes started by a rule, for modules a or b, interruptible or not"""
    names = sorted(x for x in E.to_list(E.getattr(E.modules["pyactr.productions"].ns["ProductionRules"], "_INTERRUPTIBLE")))
    return [("ab"[E.choose(2, "module")], named(E, names[0] if E.choose(2, "interruptible") else "clear")) for _ in range(k)]


def start_oracle(E, procs, act, inter, running, always=False):
    """what starting the processes does: module -> started / interrupted"""
    trig = {n: act[n].triggered for n in act}
    inter = dict(inter)
    cuts = {n: 0 for n in act}
    names = E.to_list(E.getattr(E.modules["pyactr.productions"].ns["ProductionRules"], "_INTERRUPTIBLE"))
    for n, g in procs:
        if not trig[n]:
            if always or g.name in names:
                inter[n] = g
            trig[n] = True
        elif n in inter and inter[n] is not g:
            inter[n] = g
            cuts[n] += 1
    return trig, inter, cuts


class PGen(Model):
    """The process started as number `at` (-1: one that was there before)."""

    def __init__(self, l, at):
        super().__init__()
        self.l, self.at = l, at

    def get___name__(self, E):
        return Sym(self.l.KIND(self.at))

    def eq(self, E, o):
        return self.at == o.at if isinstance(o, PGen) else False


class StartedBy(Model):
    """What a rule cycle hands over: the processes started by the rule (any number, for any modules), and that a rule fired."""
    pyclass = list

    def __init__(self, E, fired):
        super().__init__()
        self.fired, self.taken = fired, False
        self.n = E.fresh("nstarted", L.I)
        E.assume(self.n >= 0 if fired else self.n == 0)
        self.NAME, self.KIND = E.fresh_fn("module_of", L.I, L.S), E.fresh_fn("kind_of", L.I, L.S)

    def iterate(self, E):
        if self.fired and not self.taken:
            raise Unsupported("the sign that a rule fired is among the processes")
        return SeqV(self.n, lambda i: (Sym(self.NAME(i)), PGen(self, i)), tag="started")

    def m___contains__(self, E, x):
        if x != "PROCEDURAL":
            raise Unsupported("is it among the processes started")
        return self.fired and not self.taken

    def m_remove(self, E, x):
        E.write(self, "items")
        if x != "PROCEDURAL":
            raise Unsupported("a started process is removed")
        if not self.fired or self.taken:
            raise engine.bexc("ValueError")
        self.taken = True


class OneLock(Model):
    def __init__(self, t, followed=True):
        super().__init__()
        self.t, self.followed = t, followed

    def get_triggered(self, E):
        return Sym(self.t)

    def m_succeed(self, E, value=None):
        if self.followed:
            E.prove("a module is started once", z3.Not(self.t))
        E.write(self, "t")
        self.t = z3.BoolVal(True)


class OneProc(Model):
    def __init__(self, cuts):
        super().__init__()
        self.cuts = cuts

    def m_interrupt(self, E, *a):
        E.write(self, "cuts")
        self.cuts = self.cuts + 1


class ByModule(Model):
    """A dictionary by modules, followed at one arbitrary module a; others are arbitrary at every look."""
    pyclass = dict

    def __init__(self, mine, other):
        super().__init__()
        self.mine, self.other = mine, other

    def is_a(self, E, k):
        return E.branch(E.str_term(k) == z3.StringVal("a"))

    def m___contains__(self, E, k):
        return True

    def m___getitem__(self, E, k):
        return self.mine if self.is_a(E, k) else self.other()

    def m___setitem__(self, E, k, v):
        raise Unsupported("a lock or process of a module is replaced")


class Replaceable(ByModule):
    """The processes that can be replaced: at the module followed, has it one and which."""

    def __init__(self, l, has, who):
        super().__init__(None, None)
        self.l, self.has, self.who = l, has, who

    def m___contains__(self, E, k):
        return Sym(self.has) if self.is_a(E, k) else Sym(E.fresh("other", L.B))

    def m___getitem__(self, E, k):
        if not self.is_a(E, k):
            return PGen(self.l, E.fresh("which", L.I))
        if not E.branch(self.has):
            raise engine.bexc("KeyError", k)
        return PGen(self.l, self.who)

    def m_get(self, E, k, d=None):
        if not self.is_a(E, k):
            return PGen(self.l, E.fresh("which", L.I)) if E.branch(E.fresh("other", L.B)) else d
        return PGen(self.l, self.who) if E.branch(self.has) else d

    def m___setitem__(self, E, k, v):
        E.write(self, "who")
        if self.is_a(E, k):
            self.has, self.who = z3.BoolVal(True), v.at if isinstance(v, PGen) else z3.IntVal(-2)


def starting(E, S):
    """The state of module a after the first i processes: started, has a replaceable process, which one, times interrupted."""
    l = S["list"]
    names = E.to_list(E.getattr(E.modules["pyactr.productions"].ns["ProductionRules"], "_INTERRUPTIBLE"))

    def step(c, i):
        trig, has, who, cuts = c
        mine = l.NAME(i) == z3.StringVal("a")
        new = z3.And(mine, z3.Not(trig))
        keep = z3.And(new, z3.Or(*[l.KIND(i) == z3.StringVal(x) for x in names]))
        cut = z3.And(mine, trig, has, who != i)
        return [z3.Or(trig, mine), z3.Or(has, keep), z3.If(z3.Or(keep, cut), i, who), z3.If(cut, cuts + 1, cuts)]
    return engine.Fold(E, "starting", [L.B, L.B, L.I, L.I], S["init"], step)


@task(REG, "rule cycle: starting processes and going on", [SIM + ".__procprocessGenerator__", SIM + ".__init__"])
def cycle(E):
    w = world(E, realtime=bool(E.choose(2, "real time")))
    S = dict(yields=[], zero=0)
    E.prove("from the start, the modules look at the list to which the rule cycle adds", private(E, w, "procs_started") is E.getattr(w.pr, "procs"))
    E.prove("the simulation starts at the initial time", conj(len(w.made[0]) + len(w.made[1]) >= 1, lambda: T(E, (list(w.made[0]) + list(w.made[1].values()))[0]) == L.ROUND(w.start.t, 4)))

    def state():
        return [S["act"].t, S["inter"].has, S["inter"].who, S["run"].cuts]

    class Starting(LoopSpec):
        name = "processes started"

        def base(self, E):
            S["fold"].base()

        def unfold(self, E, i):
            S["fold"].unfold(i)

        def heap_inject(self, E, i):
            S["act"].t, S["inter"].has, S["inter"].who, S["run"].cuts = S["fold"].at(i)
            E.assume(S["inter"].who < i)

        def heap_check(self, E, i):
            return [("state of a module", z3.And(*[x == y for x, y in zip(state(), S["fold"].at(i))])), ("it runs one of those started before", S["inter"].who < i)]

        def modifies(self, E):
            return [(x.uid, "*") for x in (S["act"], S["inter"], S["run"])]
    E.loops["started"] = lambda E, fr, seq: Starting()

    def head():
        S["fired"] = bool(E.choose(2, "rule fired"))
        S["list"] = private(E, w, "procs_started", StartedBy(E, S["fired"]))
        S["init"] = [E.fresh("working", L.B), E.fresh("replaceable", L.B), z3.IntVal(-1), z3.IntVal(0)]
        S["fold"] = starting(E, S)
        S["act"], S["run"] = OneLock(S["init"][0]), OneProc(z3.IntVal(0))
        S["inter"] = private(E, w, "interruptibles", Replaceable(S["list"], S["init"][1], S["init"][2]))
        private(E, w, "dict_extra_proc_activate", ByModule(S["act"], lambda: OneLock(E.fresh("other_working", L.B), False)))
        private(E, w, "dict_extra_proc", ByModule(S["run"], lambda: OneProc(z3.IntVal(0))))
        S["wake"] = lock(E, w, "proc_activate")
        w.sim.procs.clear()
        w.cycles.clear()
        S["yields"].clear()
        S["on"] = True

    def cb(v):
        if not S.get("on"):
            E.prove("the first cycle starts at once", isinstance(v, Proc) and is_proc(v, "PROCEDURAL", v.g.args and list(v.g.args.values())[2]) and len(w.cycles) == 1 and b(T(E, w.cycles[0]) == w.sim.now))
            return ListV([])
        first = not S["yields"]
        S["yields"].append(v)
        if isinstance(v, Timeout):
            E.prove("the cycle does not let time pass", T(E, v.d) == 0)
            E.prove("without a rule that fired the cycle waits for a change", S["fired"] or not first)
            return None
        if isinstance(v, Lock):
            E.prove("after a rule fired the cycle goes on at once, otherwise it waits to be woken", first and not S["fired"] and v is S["wake"])
            v.triggered = True
            w.sim.now = E.fresh("later", L.R)
            return None
        E.prove("then the next cycle starts", isinstance(v, Proc) and (v.g.qual or "").endswith("__localprocess__") and list(v.g.args.values())[1] == "PROCEDURAL" and list(v.g.args.values())[2].name == "procedural_process" and not S.get("next"))
        E.prove("at the current time", conj(len(w.cycles) == 1, lambda: T(E, w.cycles[0]) == w.sim.now))
        S["next"] = ListV([])
        trig, has, who, cuts = S["fold"].at(S["list"].n) if S["fired"] else S["init"]
        E.prove("a module that is not working is started by the process for it", S["act"].t == trig)
        E.prove("a working module is interrupted for a new process if what it does can be replaced", S["run"].cuts == cuts)
        E.prove("the latest process that can be replaced is known", z3.And(S["inter"].has == has, S["inter"].who == who))
        E.prove("the modules find their processes", private(E, w, "procs_started") is S["list"] and S["list"].taken == S["fired"])
        return S["next"]

    def after():
        E.prove("a cycle was run", S.get("next") is not None and private(E, w, "procs_started") is S["next"])
        new = private(E, w, "proc_activate")
        E.prove("a change is waited for anew", isinstance(new, Lock) and new is not S["wake"] and not new.triggered)
    rounds(E, "__procprocessGenerator__", Once("rule cycle", head, after))
    E.cover("precondition satisfiable")
    g = E.call(E.getattr(w.m, "__procprocessGenerator__"), [], {})
    st, r = attempt(E, lambda: g.run(cb))
    E.prove("the rule cycle never stops", False)


@task(REG, "environment: stimuli and automatic attention", [SIM + ".__envGenerator__"], bounded="two visual buffers and one other buffer")
def envgen(E):
    en = sym_env(E)
    other = sym_env(E)
    vl, vi = visual(E, loc=True), visual(E)
    mine = [bool(E.choose(2, "its environment")), bool(E.choose(2, "its environment"))]
    for x, ok in zip((vl, vi), mine):
        E.setattr(x, "environment", en if ok else other)
    auto = bool(E.choose(2, "automatic"))
    E.setattr(vi, "attend_automatic", auto)
    E.setattr(vi, "current_focus", ListV([real(E, "x"), real(E, "y")]))
    stim = DictV([["s", DictV([["position", (0, 0)]])]])
    E.setattr(en, "stimulus", stim)
    calls = []
    for m in ("automatic_search", "automatic_buffering"):
        def c(E, a, k, m=m):
            env = list(E.bind(F(E, PRC + "." + m), a, k).values())
            g = named(E, m)
            calls.append((m, env[1:], g))
            return g
        E.contracts[PRC + "." + m] = c
    S = {}
    w = world(E, en, buffers=[["b", vi], ["a", vl], ["g", ObjV(cls(E, "pyactr.buffers.Buffer"), {})]])
    w.source = Gen(w, 3)
    w.source.kinds = 1

    def head():
        S["act"] = {n: Lock(bool(E.choose(2, "working"))) for n in "ab"}
        S["act"]["g"] = Lock()
        S["inter"] = {n: named(E, "old") for n in "ab" if E.choose(2, "can be replaced")}
        S["trig0"] = {n: S["act"][n].triggered for n in "abg"}
        private(E, w, "dict_extra_proc_activate", DictV([[n, S["act"][n]] for n in "abg"]))
        private(E, w, "interruptibles", DictV([[n, S["inter"][n]] for n in "ab" if n in S["inter"]]))
        S["run"] = {n: Proc(None) for n in "abg"}
        private(E, w, "dict_extra_proc", DictV([[n, S["run"][n]] for n in "abg"]))
        S["list"] = private(E, w, "procs_started", ListV([]))
        S["lock"] = private(E, w, "environment_activate", Lock())
        S["event"] = an_event(E, w)
        w.source.got[:] = [S["event"]]
        w.source.kinds = 3
        w.sim.procs.clear()
        calls.clear()
        S["on"] = True

    def cb(v):
        if not S.get("on"):
            return None
        parts = v.parts if isinstance(v, Either) else [v]
        p = [x for x in parts if isinstance(x, Proc)]
        E.prove("the stimulus is shown until its time or until the environment is told to go on", len(parts) == 2 and len(p) == 1 and any(x is S["lock"] for x in parts)
                and (p[0].g.qual or "").endswith("__envprocess__") and list(p[0].g.args.values())[1] is w.source.got[0] and "pro" not in S)
        if len(p) != 1:
            raise engine.PathEnd()
        S["pro"] = p[0]
        how = E.choose(3, "how it ends")
        S["early"] = how == 1
        S["lock"].triggered, S["pro"].triggered = how > 0, how != 1      # 2: both at once
        w.sim.now = E.fresh("later", L.R)
        return None

    def shown(over):
        E.prove("a stimulus was shown", "pro" in S)
        if "pro" not in S:
            return
        E.prove("a stimulus cut short is interrupted, once", S["pro"].interrupts == (1 if S["early"] else 0))
        new = private(E, w, "environment_activate")
        E.prove("the next stimulus can be cut short again", isinstance(new, Lock) and not new.triggered)

    def after():
        shown(False)
        want = ([("automatic_buffering", "b", vi)] if mine[1] and auto else []) + ([("automatic_search", "a", vl)] if mine[0] else [])
        got = [(m, a[0], a[1]) for m, a, g in calls]
        E.prove("visual buffers in this environment look at the new stimulus, no others do", sorted(x[:2] for x in got) == sorted(x[:2] for x in want) and all(any(x[2] is y[2] for y in want) for x in got))
        E.prove("at the current time, at what is shown", all(len(E.to_list(a[2])) == 1 and E.to_list(a[2])[0] is stim.pairs[0][1] for m, a, g in calls) and z3.And(z3.BoolVal(True), *[T(E, a[3]) == w.sim.now for m, a, g in calls]))
        left = E.to_list(S["list"]) if private(E, w, "procs_started") is S["list"] else E.to_list(private(E, w, "procs_started"))
        E.prove("the modules find these processes", len(left) == len(calls) and all(any(x[0] == a[0] and x[1] is g for m, a, g in calls) for x in left))
        trig, inter, cuts = start_oracle(E, [(a[0], g) for m, a, g in calls], {n: Lock(S["trig0"][n]) for n in "abg"}, S["inter"], S["run"], always=True)
        known = dict((k, v) for k, v in private(E, w, "interruptibles").pairs)
        E.prove("the latest process that can be replaced is known", set(known) == set(inter) and all(known[n] is inter[n] for n in inter))
        E.prove("modules not working are started, working ones are interrupted", all((S["act"][n].triggered is True) == trig[n] and S["run"][n].interrupts == cuts[n] for n in "abg"))
    spec = Once("environment", head, after)
    rounds(E, "__envGenerator__", EnvRounds(spec, S, w))
    E.cover("precondition satisfiable")
    g = E.call(E.getattr(w.m, "__envGenerator__"), [], {"ep": FuncEP(w)})
    st, r = attempt(E, lambda: g.run(cb))
    E.prove("no error", st == "ok")
    E.prove("the environment ends only after its last stimulus", bool(S.get("on")) and len(w.source.got) == 1)
    shown(True)
    E.prove("and nothing is looked at any more", not calls)


class EnvRounds(Once):
    """The event to be shown is carried into each round."""

    def __init__(self, spec, S, w):
        super().__init__(spec.name, spec._head, spec._end)
        self.S, self.w = S, w

    def local(self, E, nm, old):
        if is_event(old):
            e = an_event(E, self.w)
            self.S["carried"] = e
            return e
        return engine.POISON

    def head(self, E):
        super().head(E)
        if "carried" in self.S:
            self.w.source.got[:] = [self.S["carried"]]


@task(REG, "the list shared by the rule cycle and the modules", [procworld.PROC, PRC + ".__init__", SIM + ".__init__"])
def shared(E):
    w = procworld.world(E, False)
    w.time = real(E, "time")
    E.contracts[procworld.PR + "update"] = lambda E, a, k: GenV(lambda cb: None, name="update")
    E.contracts[procworld.PR + "compile_rules"] = lambda E, a, k: (None, None)
    before = list(w.procs.items)
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: procworld.cycle(E, w))
    E.prove("no error", st == "ok")
    if st != "ok":
        return
    E.prove("a cycle hands over the list it adds to, so no process put there meanwhile is lost", r[-1][0] is w.procs and E.getattr(w.pr, "procs") is w.procs)
    fired = w.updates or w.tests
    E.prove("with the processes that were there, and a sign if a rule was selected", [x for x in w.procs.items if x != "PROCEDURAL"] == before and w.procs.items.count("PROCEDURAL") == (1 if w.tests else 0))


def marked(E):
    """A module looks for its processes while a rule is being selected."""
    w = world(E, buffers=("P", "a"))
    nm = ("P", "a")[E.choose(2, "module")]
    ps = [(("P", "a")[E.choose(2, "module of")], named(E, "process")) for _ in range(E.choose(3, "processes"))]
    at = E.choose(len(ps) + 1, "place of the sign")
    mine = [p for p in ps if p[0] == nm]
    seen = []

    def head():
        S["list"] = private(E, w, "procs_started", ListV(ps[:at] + ["PROCEDURAL"] + ps[at:]))
        lock(E, w, "dict_extra_proc_activate", nm)
        w.sim.procs.clear()
    S = {}

    def cb(v):
        seen.append(v)
        E.prove("its first process is run, without one it waits", is_proc(v, nm, mine[0][1]) if mine else isinstance(v, Lock))
        E.prove("the sign that a rule is being selected stays", [x for x in S["list"].items] == [x for x in ps[:at] + ["PROCEDURAL"] + ps[at:] if not mine or x is not mine[0]])
        raise engine.PathEnd()
    rounds(E, "__extraprocessGenerator__", Once("module", head, lambda: None))
    g = E.call(E.getattr(w.m, "__extraprocessGenerator__"), [nm], {})
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: g.run(cb))
    E.prove("no error", False)


REG.append(Task("module: looking while a rule is being selected", marked, [SIM + ".__extraprocessGenerator__"], bounded="at most two processes"))


@task(REG, "run", [SIM + ".run", SIM + ".show_time"])
def run_task(E):
    w = world(E)
    w.sim.empty = bool(E.choose(2, "over"))
    t = real(E, "max_time")
    E.cover("precondition satisfiable")
    w.sim.next = real(E, "next").t
    E.assume(w.sim.next > t.t)
    E.call(E.getattr(w.m, "run"), [t], {})
    E.prove("nothing more is done", w.sim.steps <= 1 and not w.sim.stopped or w.sim.steps == 0)
    E.prove("the simulation is run up to that time", conj(len(w.sim.runs) == 1, lambda: T(E, w.sim.runs[0]) == t.t))
    E.prove("the last rules are compiled when nothing is left to do, only then", len(w.compiled) == (1 if w.sim.empty else 0))
    E.prove("the time is that of the simulation", T(E, E.call(E.getattr(w.m, "show_time"), [], {})) == w.sim.now)


@task(REG, "step", [SIM + ".step"])
def step_task(E):
    w = world(E)
    S = {}

    def head():
        S["before"] = NT_old(E)
        if S["before"] is not None:
            E.assume(z3.Not(b(eqv(E, S["before"].get("action"), "UNKNOWN"))))
        last = NT_old(E)
        private(E, w, "last_event", last)
        E.setattr(w.m, "current_event", S["before"])
        S["last"] = last
        w.sim.empty = bool(E.choose(2, "over"))
        w.compiled.clear()

        def on_step():
            if E.choose(2, "reported"):
                S["now"] = an_event(E, w)
                E.assume(z3.Not(b(eqv(E, S["now"].get("action"), "UNKNOWN"))))       # see module process, environment process
                E.setattr(w.m, "current_event", S["now"])
            else:
                S["now"] = S["before"]
        w.sim.on_step = on_step
        w.sim.steps = 0

    def new():
        e = S.get("now")
        return z3.BoolVal(False) if e is None else z3.And(z3.Not(b(eqv(E, e.get("action"), "UNKNOWN"))), z3.Not(b(eqv(E, e, S["last"]))) if S["last"] is not None else z3.BoolVal(True))

    def after():
        E.prove("a step goes on until an event is reported", z3.And(z3.BoolVal(w.sim.steps == 1), z3.Not(new())))
        E.prove("the last rules are compiled when nothing is left to do, only then", len(w.compiled) == (1 if w.sim.empty else 0))
    rounds(E, "step", Once("steps", head, after))
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: E.call(E.getattr(w.m, "step"), [], {}))
    E.prove("no error", st == "ok")
    E.prove("a step ends with the next event reported", z3.And(z3.BoolVal(w.sim.steps == 1), new()))
    E.prove("which is remembered", private(E, w, "last_event") is S["now"])
