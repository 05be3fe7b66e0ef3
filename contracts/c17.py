"""C17: every action of a buffer ends in its documented state after its documented time."""
from .common import *

PROPERTY = "C17"
REG = []
PR = "pyactr.productions.ProductionRules."
ASSUME = ["chunk contents are opaque here: Buffer.modify, Goal.create, Chunk._asdict, VisualLocation.find and DecMem.add are used through their contracts (proved in C05, C06, C19, C07)"]


def chunk_dict(E, args, kwargs):
    """Contract for Chunk._asdict: some dictionary (used for compilation only)."""
    return DictV()


def setup(E, kind, full, mp=None, delay=None):
    log = []
    spy(E, "pyactr.declarative.DecMem.add", log)
    E.contracts["pyactr.chunks.Chunk._asdict"] = chunk_dict
    dm = decmem(E)
    c0 = chunk(E, "c0") if full else None
    opaque_chunks(E)
    if kind == "goal":
        buf = goal(E, dm, delay, c0)
    elif kind == "retrieval":
        buf = retrieval(E, dm, c0)
    else:
        buf = visual(E, dm, c0, loc=(kind == "visual_location"))
    bufs = DictV([["b", buf]])
    pr = rules_obj(E, bufs, DictV([["b", dm]]), mp)
    return log, dm, c0, buf, pr


def snap(E, buf, log=()):
    return lambda: (state(E, buf), list(content(E, buf)), len(log))


def harvested(E, recs, dm, c0, time):
    if c0 is None:
        return len(recs) == 0
    return conj(len(recs) == 1, lambda: same(E, recs[0]["self"], dm), lambda: same(E, recs[0]["element"], c0), lambda: eqv(E, recs[0]["time"], time))


@task(REG, "clear", [PR + "clear"])
def clear(E):
    kind = ["goal", "retrieval", "visual", "visual_location"][E.choose(4, "kind")]
    full = E.choose(2, "full")
    log, dm, c0, buf, pr = setup(E, kind, full)
    time = real(E, "time")
    freeing = bool(E.choose(2, "freeing"))
    nomem = kind == "goal" and E.choose(2, "own memory")
    if nomem:
        E.setattr(buf, "dm", None)
    E.cover("precondition satisfiable")
    evs, _ = drive(E, run(E, PR + "clear", [pr, "b", buf, None, DictV(), time, freeing]), snap(E, buf, log))
    E.prove("exactly one event, at the time of the action", len(evs) == 1 and ev_at(E, evs[0][0], time.t, "b", "CLEARED"))
    E.prove("the chunk went to the memory once, at that time", harvested(E, log, dm, c0, time))
    E.prove("the buffer is empty when the event is reported", evs[0][1][1] == [] and evs[0][1][2] == len(log))
    E.prove("the buffer is busy until then", evs[0][1][0] == BUSY)
    E.prove("afterwards it is free (or still busy if this is part of another action)", state(E, buf) == (FREE if freeing else BUSY))
    E.prove("the buffer is empty", holds(E, buf, None))


@task(REG, "clear: which memory", [PR + "clear"])
def clear_memory(E):
    full = E.choose(2, "full")
    log, dm, c0, buf, pr = setup(E, "goal", full)
    E.setattr(buf, "dm", None)
    dm2, dm3 = decmem(E), decmem(E)
    E.setattr(pr, "dm", DictV([["x", dm2], ["y", dm3]]))
    opt = [None, "x", "y"][E.choose(3, "optional")]
    own = E.choose(2, "own entry")
    if own:
        E.setattr(pr, "dm", DictV([["x", dm2], ["b", dm3], ["y", dm]]))
    time = real(E, "time")
    st, r = attempt(E, lambda: drive(E, run(E, PR + "clear", [pr, "b", buf, opt, DictV(), time])))
    if c0 is None:
        E.prove("an empty buffer is cleared without a memory", st == "ok" and log == [])
    elif opt is None and not own:
        E.prove("it is an error if no memory is known", st == "exc" and is_exc(E, r, "ACTRError"))
        E.prove("nothing is lost then", holds(E, buf, c0) and log == [])
    else:
        want = {"x": dm2, "y": dm if own else dm3, None: dm3}[opt]
        E.prove("the named memory (or the buffer's own) receives the chunk", st == "ok" and harvested(E, log, want, c0, time))


@task(REG, "extra_test", [PR + "extra_test"])
def extra_test(E):
    log, dm, c0, buf, pr = setup(E, ["retrieval", "visual_location"][E.choose(2, "kind")], E.choose(2, "full"))
    E.setattr(pr, "extra_tests", DictV([["other", "t0"]]))
    test = DictV([["recently_retrieved", string(E, "v")]])
    time = real(E, "time")
    evs, _ = drive(E, run(E, PR + "extra_test", [pr, "b", buf, test, DictV(), time]), snap(E, buf))
    d = E.getattr(pr, "extra_tests")
    E.prove("one event at the time of the action", len(evs) == 1 and ev_at(E, evs[0][0], time.t, "b"))
    E.prove("the test is registered for this buffer", same(E, E.getitem(d, "b"), test) and E.getitem(d, "other") == "t0")
    E.prove("buffer free, content unchanged", state(E, buf) == FREE and holds(E, buf, c0) and log == [])


@task(REG, "execute", [PR + "execute"])
def execute(E):
    log, dm, c0, buf, pr = setup(E, "goal", E.choose(2, "full"))
    calls = []
    arg = string(E, "arg")

    def show(E, args, kwargs):
        calls.append(list(args))
        if len(args) != 2:
            raise engine.bexc("TypeError", "wrong number of arguments")
        return None
    E.contracts["pyactr.buffers.Buffer.show"] = show
    cmd = ListV([ListV(["show", ListV([arg])])])
    time = real(E, "time")
    st, r = attempt(E, lambda: drive(E, run(E, PR + "execute", [pr, "b", buf, cmd, DictV(), time]), snap(E, buf)))
    E.prove("the command is executed once with its argument", st == "ok" and len(calls) == 1 and same(E, calls[0][0], buf) and b(eqv(E, calls[0][1], arg)))
    evs = r[0]
    E.prove("one event at the time of the action", len(evs) == 1 and ev_at(E, evs[0][0], time.t, "b", "EXECUTED"))
    E.prove("buffer free", state(E, buf) == FREE)


def spy_modify(E, log, new):
    def c(E, args, kwargs):
        env = E.bind(F(E, "pyactr.buffers.Buffer.modify"), args, kwargs)
        log.append((env["self"], env["otherchunk"], env["actrvariables"]))
        put(E, env["self"], new)
        return None
    E.contracts["pyactr.buffers.Buffer.modify"] = c


def mk_modify(fn, request):
    def run_(E):
        comp = bool(E.choose(2, "compilation"))
        delay = real(E, "delay")
        E.assume(delay.t >= 0)
        kind = ["goal", "retrieval", "visual"][E.choose(3, "kind")]
        log, dm, c0, buf, pr = setup(E, kind, True, params(E, production_compilation=comp), delay if kind == "goal" else None)
        E.setattr(pr, "used_rulename", "r")
        lhs = GenV(lambda cb: cb(DictV([["=b", chunk(E, "lhs")]])), name="rule")
        E.setattr(pr, "rules", SymMap(get=lambda k: Rec(lambda f: PyFn(lambda *a: lhs))))
        mods = []
        new = chunk(E, "new")
        spy_modify(E, mods, new)
        other = chunk(E, "other")
        time = real(E, "time")
        vs = DictV([["=x", string(E, "x")]])
        cost = delay.t if (request and kind == "goal") else z3.RealVal(0)
        evs, _ = drive(E, run(E, PR + fn, [pr, "b", buf, other, vs, time]), snap(E, buf))
        E.prove("the buffer is modified exactly once, as requested", len(mods) == 1 and same(E, mods[0][0], buf) and same(E, mods[0][1], other) and same(E, mods[0][2], vs))
        E.prove("every event is at the end of the action", z3.And(*[ev_at(E, e, time.t + cost, "b") for e, _ in evs]))
        E.prove("the modification is reported last", len(evs) >= 1 and ev_at(E, evs[-1][0], time.t + cost, "b", "MODIFIED"))
        E.prove("the new content is there when it is reported", evs[-1][1][1] == [new])
        if request:
            E.prove("before that the buffer is busy and unchanged", len(evs) == 2 and evs[0][1][0] == BUSY and evs[0][1][1] == [c0])
        else:
            E.prove("there is no other event", len(evs) == 1)
        E.prove("buffer free, nothing harvested", state(E, buf) == FREE and log == [] and holds(E, buf, new))
    return run_


REG.append(Task("modify", mk_modify("modify", False), [PR + "modify"]))
REG.append(Task("modify_request", mk_modify("modify_request", True), [PR + "modify_request", "pyactr.utilities.calculate_setting_time"]))


def spy_create(E, log, new):
    def c(E, args, kwargs):
        env = E.bind(F(E, "pyactr.goals.Goal.create"), args, kwargs)
        log.append((env["self"], env["otherchunk"], env["harvest"], env["actrvariables"]))
        put(E, env["self"], new)
        return None
    E.contracts["pyactr.goals.Goal.create"] = c


def mk_set(fn):
    def run_(E):
        comp = bool(E.choose(2, "compilation"))
        delay = real(E, "delay")
        E.assume(delay.t >= 0)
        log, dm, c0, buf, pr = setup(E, "goal", E.choose(2, "full"), params(E, production_compilation=comp), delay)
        made = []
        new = chunk(E, "new")
        spy_create(E, made, new)
        other = chunk(E, "other")
        time = real(E, "time")
        vs = DictV([["=x", string(E, "x")]])
        evs, _ = drive(E, run(E, PR + fn, [pr, "b", buf, other, vs, time]), snap(E, buf, log))
        E.prove("the goal is created exactly once, from the request and the bindings", len(made) == 1 and same(E, made[0][0], buf) and same(E, made[0][1], other) and same(E, made[0][3], vs))
        E.prove("it is reported after the delay", ev_at(E, evs[-1][0], time.t + delay.t, "b"))
        E.prove("the new content is there when it is reported, not before", evs[-1][1][1] == [new] and all(s[1] != [new] for _, s in evs[:-1]))
        E.prove("buffer busy before, free at the end", all(s[0] == BUSY for _, s in evs[:-1]) and state(E, buf) == FREE)
        if fn == "overwrite":
            E.prove("overwriting takes only the delay and harvests nothing", len(evs) == 2 and log == [] and evs[0][1][1] == ([c0] if c0 is not None else []) and ev_time(E, evs[0][0], time.t + delay.t))
        else:
            E.prove("first the old goal is cleared to memory, at the start", 
                    conj(len(evs) == 3, harvested(E, log, dm, c0, time), lambda: ev_at(E, evs[0][0], time.t, "b", "CLEARED"), lambda: evs[0][1][1] == [] and evs[0][1][2] == len(log)))
            E.prove("then the delay passes with an empty goal", ev_time(E, evs[1][0], time.t + delay.t) if evs[1][1][1] == [] else False)
    return run_


REG.append(Task("overwrite", mk_set("overwrite"), [PR + "overwrite", "pyactr.utilities.calculate_setting_time"]))
REG.append(Task("retrieveorset: goal", mk_set("retrieveorset"), [PR + "retrieveorset", PR + "clear", "pyactr.utilities.calculate_setting_time"]))


@task(REG, "retrieveorset: visual location", [PR + "retrieveorset", PR + "clear", "pyactr.vision.VisualLocation.add"])
def set_location(E):
    log, dm, c0, buf, pr = setup(E, "visual_location", E.choose(2, "full"))
    found = chunk(E, "found") if E.choose(2, "found") else None
    stim = DictV([["text", string(E, "text")]]) if found is not None else None
    finds = []
    tests = DictV([["attended", string(E, "att")]])
    E.setattr(pr, "extra_tests", DictV([["b", tests]]) if E.choose(2, "tests") else DictV())
    has_tests = len(E.getattr(pr, "extra_tests").pairs) == 1
    spy(E, "pyactr.vision.VisualLocation.find", finds, result=(found, stim))
    other = chunk(E, "other")
    time = real(E, "time")
    vs = DictV([["=x", string(E, "x")]])
    evs, _ = drive(E, run(E, PR + "retrieveorset", [pr, "b", buf, other, vs, time]), snap(E, buf, log))
    E.prove("the search is made once, with the request, the bindings and the tests of this buffer",
            len(finds) == 1 and same(E, finds[0]["self"], buf) and same(E, finds[0]["otherchunk"], other) and same(E, finds[0]["actrvariables"], vs)
            and (same(E, finds[0]["extra_tests"], tests) if has_tests else len(finds[0]["extra_tests"].pairs) == 0))
    E.prove("a visual search takes no time", z3.And(*[ev_time(E, e, time.t) for e, _ in evs]))
    E.prove("the buffer is busy until the result is reported", all(s[0] == BUSY for _, s in evs[:-1]))
    if found is not None:
        E.prove("the location found is in the buffer, which is free", holds(E, buf, found) and state(E, buf) == FREE and evs[-1][1][1] == [found])
        E.prove("the old location went to memory once", harvested(E, log, dm, c0, time))
        E.prove("its stimulus is remembered as attended", [same(E, x, stim) for x in E.getattr(buf, "recent").items] == [True])
    else:
        E.prove("a failed search leaves the content and the error state", holds(E, buf, c0) and state(E, buf) == ERROR and log == [])
        E.prove("and nothing is remembered as attended", len(E.getattr(buf, "recent").items) == 0)


@task(REG, "retrieveorset: other modules", [PR + "retrieveorset"])
def dispatch(E):
    kind = ["retrieval", "manual", "visual-shift", "visual-clear", "visual-bad"][E.choose(5, "kind")]
    mp = params(E)
    log, calls = [], []
    dm = decmem(E)
    time = real(E, "time")
    vs = DictV([["=x", string(E, "x")]])
    other = chunk(E, "other")
    fn = {"retrieval": "retrieve", "manual": "motorset"}.get(kind, "visualshift")
    cont = ("CONT",)
    spy_gen(E, PR + fn, calls, nyields=2, ret=cont)
    if kind == "retrieval":
        buf = retrieval(E, dm)
    elif kind == "manual":
        buf = E.instantiate(cls(E, "pyactr.motor.Motor"), [], {})
    else:
        buf = visual(E, dm)
        word = {"visual-shift": "move_attention", "visual-clear": "clear"}.get(kind)
        if word is None:
            w = string(E, "cmd")
            for x in ("move_attention", "clear", "None"):
                E.assume(w.t != z3.StringVal(x))
            word = [w, None][E.choose(2, "none")]
        vv = E.modules["pyactr.utilities"].ns["VarvalClass"]
        E.contracts["pyactr.chunks.Chunk.removeunused"] = lambda E, a, k: ListV([("cmd", "RAW")])
        E.contracts["pyactr.utilities.check_bound_vars"] = lambda E, a, k: NT(vv, (word, None, (), ()))
    pr = rules_obj(E, DictV([["b", buf]]), DictV([["b", dm]]), mp)
    st, r = attempt(E, lambda: drive(E, run(E, PR + "retrieveorset", [pr, "b", buf, other, vs, time])))
    if kind == "visual-bad":
        E.prove("an unknown visual command is refused", st == "exc" and is_exc(E, r, "ACTRError") and calls == [])
        return
    evs = [e for e, _ in r[0]]
    if kind == "visual-clear":
        E.prove("clear stops automatic buffering at once", len(evs) == 1 and ev_at(E, evs[0], time.t, "b"))
        E.prove("it is free and starts nothing", state(E, buf) == FREE and calls == [] and E.getattr(buf, "attend_automatic") is False)
        return
    E.prove("the request is carried out once by the module, from the given time", len(calls) == 1 and same(E, [v for k, v in calls[0].items() if k not in ("self", "name", "otherchunk", "temp_actrvariables", "time", "__name")][0], buf)
            and same(E, calls[0]["otherchunk"], other) and same(E, calls[0]["temp_actrvariables"], vs) and b(eqv(E, calls[0]["time"], time)))
    want = [("EV", PR + fn, 0), ("EV", PR + fn, 1)] + ([] if kind == "retrieval" else [cont])
    E.prove("its events, and its continuation, are passed on unchanged", evs == want)


@task(REG, "calculate_setting_time", ["pyactr.utilities.calculate_setting_time", "pyactr.goals.Goal.delay"])
def setting_time(E):
    dm = decmem(E)
    d = real(E, "delay")
    g = goal(E, dm)
    st, r = attempt(E, lambda: E.setattr(g, "delay", d))
    E.prove("a negative delay is refused, any other accepted", z3.Not(d.t < 0) if st == "ok" else (d.t < 0 if is_exc(E, r, "ValueError") else False))
    if st == "ok":
        E.prove("setting a goal takes the goal's delay", T(E, run(E, "pyactr.utilities.calculate_setting_time", [g])) == d.t)
    E.prove("setting any other buffer takes no time", T(E, run(E, "pyactr.utilities.calculate_setting_time", [visual(E, dm)])) == 0)
