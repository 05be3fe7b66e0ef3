from .modelkit import *

UNK = "UNKNOWN"


def setup(rng, kind, full, delay=0.0, **p):
    dm = spydm()
    env = environment.Environment(focus_position=(0, 0))
    if kind == "goal":
        b = goals.Goal(None, dm, delay=delay)
    elif kind == "retrieval":
        b = declarative.DecMemBuffer(dm)
    elif kind == "visual":
        b = vision.Visual(env, dm)
    else:
        b = vision.VisualLocation(env, dm)
    c0 = None
    if full:
        c0 = rand_chunk(rng)
        buffers.Buffer.add(b, c0)
    rs = productions.Productions()
    lhs = {"=b": rand_chunk(rng)} if rng.random() < .5 else {"=x": rand_chunk(rng)}

    def rule():
        yield dict(lhs)
        yield {}
    rs.update({"r": {"rule": rule, "utility": 0, "reward": None}})
    pr = prules({"b": b}, {"b": dm}, params(**p), rs)
    pr.used_rulename = "r"
    pr.extra_tests = {}
    return dm, b, c0, pr


def snapper(b, dm):
    return lambda: (b.state, list(b), len(dm.log))


def harvested(dm, c0, t):
    if c0 is None:
        return not dm.log
    return len(dm.log) == 1 and dm.log[0][0] is c0 and abs(float(dm.log[0][1]) - t) < 6e-5


@case
def clears(rng, C):
    kind = rng.choice(["goal", "retrieval", "visual", "visual_location"])
    full = rng.random() < .6
    dm, b, c0, pr = setup(rng, kind, full)
    if kind == "goal" and rng.random() < .5:
        b.dm = None
    t = rng.real(0, 20)
    C.note(kind=kind, full=full, time=t)
    ev, _ = drive(pr.clear("b", b, None, {}, t), snapper(b, dm))
    C.check(len(ev) == 1 and when(ev[0][0], t) and ev[0][0].action == "CLEARED" and ev[0][0].proc == "b", "clearing does not yield exactly CLEARED now")
    C.check(harvested(dm, c0, t), "the cleared chunk is not in memory exactly once")
    C.check(list(b) == [] and b.state == b._FREE and ev[0][1][0] == b._BUSY, "the buffer is not empty and free after clearing")


@case
def clear_named(rng, C):
    dm, b, c0, pr = setup(rng, "goal", rng.random() < .8)
    b.dm = None
    mems = {"x": spydm(), "y": spydm()}
    own = rng.random() < .5
    if own:
        mems["b"] = spydm()
    pr.dm = mems
    opt = rng.choice([None, "x", "y"])
    t = rng.real(0, 9)
    C.note(optional=opt, own=own, full=c0 is not None)
    if c0 is not None and opt is None and not own:
        C.raises(actr.utilities.ACTRError, lambda: drive(pr.clear("b", b, opt, {}, t)), "clearing to an unknown memory is not refused")
        C.check(list(b) == [c0], "the chunk is lost")
        return
    drive(pr.clear("b", b, opt, {}, t))
    for k, m in mems.items():
        want = c0 is not None and k == (opt or "b")
        C.check(len(m.log) == (1 if want else 0), "the chunk went to the wrong memory", memory=k)


@case
def executes(rng, C):
    dm, b, c0, pr = setup(rng, "goal", True)
    got = []
    b.command = lambda *a: got.append(a)
    args = [rng.word() for _ in range(rng.randint(1, 3))]
    t = rng.real(0, 9)
    ev, _ = drive(pr.execute("b", b, [["command", args]], {}, t), snapper(b, dm))
    C.check(got == [tuple(args)], "the command was not executed once with its arguments", got=got, args=args)
    C.check(len(ev) == 1 and when(ev[0][0], t) and ev[0][0].action == "EXECUTED" and b.state == b._FREE, "executing is not immediate or leaves the buffer busy")


@case
def tests(rng, C):
    dm, b, c0, pr = setup(rng, rng.choice(["retrieval", "visual_location"]), rng.random() < .5)
    t = rng.real(0, 9)
    test = {"recently_retrieved": rng.choice(["True", "False"])}
    pr.extra_tests = {"other": 1}
    ev, _ = drive(pr.extra_test("b", b, test, {}, t), snapper(b, dm))
    C.check(len(ev) == 1 and when(ev[0][0], t), "an extra test takes time")
    C.check(pr.extra_tests == {"other": 1, "b": test}, "the test is not registered for its buffer", tests=repr(pr.extra_tests))
    C.check(b.state == b._FREE and list(b) == ([c0] if c0 is not None else []), "an extra test changes the buffer")


@case
def modifies(rng, C):
    req = rng.random() < .5
    kind = rng.choice(["goal", "goal", "retrieval", "visual"])
    delay = rng.choice([0.0, rng.real(0, 3)])
    comp = rng.random() < .5
    dm, b, c0, pr = setup(rng, kind, True, delay, production_compilation=comp)
    t = rng.real(0, 9)
    v = rng.choice("uvwx")
    other = mk("refchunk", a="=x", b="v", c=None) if rng.random() < .5 else mk("refchunk", a="=x")
    C.note(request=req, kind=kind, delay=delay, time=t, compilation=comp)
    old = str(c0)
    g = (pr.modify_request if req else pr.modify)("b", b, other, {"=x": v}, t)
    ev, _ = drive(g, lambda: (b.state, ids(b)))
    cost = delay if req and kind == "goal" else 0
    C.check(all(when(e, t + cost) for e, _ in ev), "wrong time of a modification", events=repr([e for e, _ in ev]))
    C.check(ev and ev[-1][0].action == "MODIFIED", "MODIFIED not reported")
    new = list(b)[0]
    C.check(len(b) == 1 and new is not c0 and new.a.values == v, "the buffer was not modified")
    C.check(ev[-1][1][1] == [id(new)], "the new content is not there when reported")
    if req:
        C.check(len(ev) == 2 and ev[0][1] == (b._BUSY, [id(c0)]), "the change is visible before the end of the delay, or the buffer is not busy")
    C.check(b.state == b._FREE and not dm.log and str(c0) == old, "wrong end of a modification")


@case
def sets(rng, C):
    over = rng.random() < .4
    delay = rng.choice([0.0, rng.real(0, 3)])
    full = rng.random() < .6
    dm, b, c0, pr = setup(rng, "goal", full, delay, production_compilation=rng.random() < .5)
    t = rng.real(0, 9)
    v = rng.choice("uvwx")
    other = mk("refnew", p="=x", q="k")
    C.note(overwrite=over, delay=delay, full=full, time=t)
    ev, _ = drive((pr.overwrite if over else pr.retrieveorset)("b", b, other, {"=x": v}, t), lambda: (b.state, ids(b), len(dm.log)))
    new = list(b)[0]
    C.check(len(b) == 1 and new.p.values == v and new.q.values == "k" and new.typename == "refnew", "the goal is not the requested chunk")
    C.check(b.state == b._FREE, "the goal is not free at the end")
    C.check(all(s[0] == b._BUSY for _, s in ev[:-1]), "the goal is not busy while being set")
    C.check(when(ev[-1][0], t + delay) and ev[-1][1][1] == [id(new)], "the chunk is not set at the end of the delay", events=repr([e for e, _ in ev]))
    C.check(all(s[1] != [id(new)] for _, s in ev[:-1]), "the chunk is visible too early")
    if over:
        C.check(not dm.log and all(when(e, t + delay) for e, _ in ev), "overwriting harvests or takes other time")
    else:
        C.check(harvested(dm, c0, t), "the old goal was not cleared to memory once")
        C.check(ev[0][0].action == "CLEARED" and when(ev[0][0], t) and ev[0][1][1] == [], "setting does not clear first")


@case
def searches(rng, C):
    dm, b, c0, pr = setup(rng, "visual_location", rng.random() < .5)
    stim = {"x": {"text": rng.choice("uv"), "position": (rng.randint(1, 300), rng.randint(1, 300))}}
    b.environment.stimulus = stim
    want = rng.choice("uv")
    t = rng.real(0, 9)
    other = mk("_visuallocation", value=want)
    C.note(stimulus=repr(stim), requested=want)
    ev, _ = drive(pr.retrieveorset("b", b, other, {}, t), lambda: (b.state, ids(b)))
    C.check(all(when(e, t) for e, _ in ev), "a visual search takes time", events=repr([e for e, _ in ev]))
    C.check(all(s[0] == b._BUSY for _, s in ev[:-1]), "not busy during the search")
    if want == stim["x"]["text"]:
        C.check(len(b) == 1 and list(b)[0] is not c0 and b.state == b._FREE, "location not in the buffer")
        C.check(harvested(dm, c0, t), "the old location was not harvested once")
        C.check(len(b.recent) == 1, "the stimulus is not remembered")
    else:
        C.check(b.state == b._ERROR and list(b) == ([c0] if c0 is not None else []) and not dm.log, "a failed search does not end in error with the content kept")


@case
def delays(rng, C):
    g = goals.Goal()
    d = rng.real(-3, 3)
    if d < 0:
        def f():
            g.delay = d
        C.raises(ValueError, f, "negative goal delay accepted")
    else:
        g.delay = d
        C.check(utilities.calculate_setting_time(g) == d, "setting a goal does not take its delay")
