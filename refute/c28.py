"""C28 on the real simulation (real simpy), with scripted rules, module processes and stimuli."""
import collections
import contextlib
import io
import simpy
from .modelkit import *
from .common import *
from pyactr import simulation

Event = utilities.Event
PROC = productions.ProductionRules._PROCEDURAL
UNKNOWN = productions.ProductionRules._UNKNOWN


class Rules:
    """Stands for the rules of a model: fires what the script says, and records when it was asked."""
    _UNKNOWN, _PROCEDURAL, _INTERRUPTIBLE = UNKNOWN, PROC, productions.ProductionRules._INTERRUPTIBLE

    def __init__(self, script):
        self.script, self.asked, self.fired, self.compiled, self.env_interaction = list(script), [], [], 0, set()
        self.procs = []

    def compile_rules(self):
        self.compiled += 1

    def procedural_process(self, start_time=0):
        t = start_time
        self.asked.append(t)
        self.procs.append(PROC)
        yield Event(round(t, 4), PROC, "CONFLICT RESOLUTION")
        what = self.script.pop(0) if self.script else None
        if what is None:
            self.procs.remove(PROC)
            yield Event(round(t, 4), PROC, "NO RULE FOUND")
            yield self.procs
            return
        t = t + 0.05
        yield Event(round(t, 4), PROC, "RULE FIRED")
        procs = [j.start(t) for j in what]
        self.fired.append((round(t, 4), what))
        self.procs.extend(procs)
        yield self.procs


class Job:
    """A module process with a script: waits, and what it hands on to."""

    def __init__(self, n, module, name, waits, hidden, then=None, key=None):
        self.n, self.module, self.name, self.waits, self.hidden, self.then, self.key = n, module, name, waits, hidden, then, key
        self.start_time, self.rules = None, None

    def start(self, t):
        self.start_time = round(t, 4)
        g = self.run(t)
        g.__name__ = self.name
        return (self.module, g)

    def events(self):
        t, out = self.start_time, []
        for k, d in enumerate(self.waits):
            t = round(t + d, 4)
            out.append((t, self.module, UNKNOWN if k in self.hidden else "%d.%d" % (self.n, k)))
        return out

    def run(self, t):
        self.start_time = round(t, 4)
        for k, e in enumerate(self.events()):
            yield Event(*e)
        if self.key:
            self.rules.env_interaction = {self.key}
            yield Event(e[0], self.module, "PRESSED")
        if self.then is not None:
            e = self.events()
            yield self.then.run(e[-1][0] if e else self.start_time)


def a_wait(rng):
    return rng.choice([0, 0, 0.05, 0.05, 0.1, round(rng.uniform(0, 2), rng.choice([1, 2, 4]))])


def a_job(rng, n, module, name=None):
    name = name or rng.choice(["retrieveorset", "modify_request", "retrieveorset", "clear"])
    if name == "clear":
        return Job(n, module, name, [0], [])
    waits = [a_wait(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    hidden = [k for k in range(len(waits)) if rng.random() < .2]
    then = Job(1000 + n, module, "continue", [a_wait(rng) for _ in range(rng.choice([1, 2]))], []) if rng.random() < .3 else None
    return Job(n, module, name, waits, hidden, then)


def watched(sim, limit=400):
    """steps through the simulation: (time, event) for every event reported"""
    out = []
    for _ in range(limit):
        try:
            sim.step()
        except simpy.core.EmptySchedule:
            return out
        out.append((sim.show_time(), sim.current_event))
    return out


def real_sim(rng, env, trace, bufs, rs, start, **kw):
    return simulation.Simulation(env, False, trace, False, bufs, rs, start, **kw)


def common_checks(C, rs, seen):
    for t, e in seen:
        C.check(close(t, e.time, 1e-4), "an event is not reported at its time", event=tuple(e), at=t)
        C.check(e.action != UNKNOWN, "an unknown action is reported")
    for (_, e), (_, f) in zip(seen, seen[1:]):
        C.check(f.time >= e.time - 1e-9, "events are out of order", events=[tuple(e), tuple(f)])
    for t, e in seen:
        if e.proc != PROC and e.action != UNKNOWN:
            C.check(any(e.time - 1e-9 <= a <= e.time + 0.0501 for a in rs.asked), "no rule cycle follows an event", event=tuple(e), cycles=rs.asked[:20])


@case
def modules(rng, C):
    mods = rng.choice([["a"], ["a", "b"], ["a", "b", "c"]])
    n = [0]
    script = []
    for _ in range(rng.choice([1, 2, 2, 3, 5])):
        if rng.random() < .15:
            script.append(None)
            continue
        ms = [m for m in mods if rng.random() < .6]
        jobs = []
        for m in ms:
            n[0] += 1
            jobs.append(a_job(rng, n[0], m))
        script.append(jobs)
    start = rng.choice([0, 0, round(rng.uniform(0, 3), 4)])
    rs = Rules(script)
    C.note(script=[[(j.n, j.module, j.name, j.waits, j.hidden, j.then and j.then.waits) for j in s] if s is not None else None for s in script], start=start)
    sim = real_sim(rng, None, False, {m: object() for m in mods}, rs, start)
    seen = watched(sim)
    C.check(seen and close(seen[0][0], round(start, 4)) and seen[0][1].proc == PROC, "the first rule cycle does not run at the initial time")
    common_checks(C, rs, seen)
    got = collections.Counter(tuple(e) for _, e in seen)
    # what each module does: a list of jobs with the time each was started
    for m in mods:
        jobs = [j for t, what in rs.fired for j in what if j.module == m]
        for k, j in enumerate(jobs):
            evs = j.events()
            after = [] if j.then is None else [j.then]
            if j.then is not None:
                j.then.start_time = evs[-1][0]
            end = evs[-1][0]
            nxt = jobs[k + 1].start_time if k + 1 < len(jobs) else None
            prev_busy = k > 0 and (jobs[k - 1].events() + (jobs[k - 1].then.events() if jobs[k - 1].then is not None and jobs[k - 1].then.start_time is not None else []))[-1][0] >= j.start_time
            if prev_busy:
                continue        # started while another one was there: see below
            for e in evs:
                if e[2] == UNKNOWN:
                    continue
                if nxt is None or e[0] < nxt:
                    C.check(got[e] == 1, "an event of a module is not reported once", event=e, reported=got[e])
            if after and (nxt is None or j.then.events()[-1][0] < nxt):
                for e in j.then.events():
                    C.check(got[e] == 1, "what a process hands on is not run", event=e)
            if nxt is not None and j.name != "clear" and jobs[k + 1].name != "clear" and evs[-1][0] > nxt and j.start_time < nxt:
                for e in evs:
                    C.check(e[0] <= nxt or not got[e], "a process that was replaced goes on", event=e, replaced=nxt)
                for e in jobs[k + 1].events()[:1]:
                    two = k + 2 < len(jobs) and jobs[k + 2].start_time <= e[0]
                    C.check(e[2] == UNKNOWN or two or got[e] == 1, "the process that replaces another is not run", event=e)
    C.check(rs.compiled >= 1, "the last rules are not compiled at the end")


@case
def waking(rng, C):
    """Without a rule that applies the cycle sleeps until something happens, and is then asked at once."""
    ds = [round(rng.uniform(0.06, 3), 4) for _ in range(rng.choice([1, 2]))]
    d = round(sum(ds), 4)
    j = Job(1, "a", "retrieveorset", ds, list(range(len(ds) - 1)))
    rs = Rules([[j]] + [None] * 3)
    sim = real_sim(rng, None, False, {"a": object(), "b": object()}, rs, 0)
    seen = watched(sim)
    C.note(d=ds)
    C.check([round(x, 4) for x in rs.asked] == [0, 0.05, round(0.05 + d, 4)], "the rule cycle is not run exactly after the rule and after the event", cycles=rs.asked)
    common_checks(C, rs, seen)


@case
def printing(rng, C):
    trace = rng.random() < .5
    j = Job(1, "a", "retrieveorset", [0.1, 0.2], [rng.choice([0, 1])])
    rs = Rules([[j]])
    sim = real_sim(rng, None, trace, {"a": object()}, rs, 0)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        seen = watched(sim)
    lines = out.getvalue().splitlines()
    C.note(trace=trace, lines=lines)
    C.check(lines == ([str(tuple(e)) for _, e in seen] if trace else []), "what is printed is not what is reported")


@case
def running(rng, C):
    d = [round(rng.uniform(0.01, 1), 4) for _ in range(3)]
    rs = Rules([[Job(1, "a", "retrieveorset", d, [])]])
    sim = real_sim(rng, None, False, {"a": object()}, rs, 0)
    t = round(rng.uniform(0.06, 4), 3)
    C.note(waits=d, t=t)
    if any(abs(0.05 + sum(d[:k + 1]) - t) < 1e-3 for k in range(3)):
        raise Skip()
    sim.run(t)
    end = round(0.05 + sum(d), 4)
    C.check(close(sim.show_time(), t, 1e-4), "a run does not last the time given", now=sim.show_time())
    C.check(rs.compiled == (1 if end < t else 0), "the last rules are compiled exactly when nothing is left to do", compiled=rs.compiled)
    times = [0.05] + [round(0.05 + sum(d[:k + 1]), 4) for k in range(3)]
    last = max(x for x in times if x <= t)
    C.check(close(sim.current_event.time, last, 1e-4), "the current event is not the last one up to that time", event=tuple(sim.current_event))


@case
def stepping(rng, C):
    d = [round(rng.uniform(0.01, 1), 4) for _ in range(4)]
    rs = Rules([[Job(1, "a", "retrieveorset", d, [1])]])
    sim = real_sim(rng, None, False, {"a": object()}, rs, 0)
    k = rng.choice([1, 2, 3, 4])
    sim.steps(k)
    rs2 = Rules([[Job(1, "a", "retrieveorset", d, [1])]])
    sim2 = real_sim(rng, None, False, {"a": object()}, rs2, 0)
    for _ in range(k):
        sim2.step()
    C.note(waits=d, steps=k)
    C.check(sim.current_event == sim2.current_event, "several steps are not that many single steps", events=[tuple(sim.current_event), tuple(sim2.current_event)])
    C.raises(AssertionError, lambda: sim.steps(rng.choice([0, -1])), "no steps are accepted")


class Looker:
    pass


@case
def stimuli(rng, C):
    """Stimuli stay until their time, or until a key that is a trigger is pressed."""
    env = environment.Environment(focus_position=(100, 100))
    m = rng.choice([2, 3, 4])
    times = [round(rng.uniform(.2, 2), 3) for _ in range(m)]
    keys = [rng.choice("ABC") for _ in range(m)]
    stims = [{"s%d" % k: {"text": "t%d" % k, "position": (100, 100)}} for k in range(m)]
    at = round(rng.uniform(.02, 2.5), 4)
    key = rng.choice("ABC")
    j = Job(1, "a", "retrieveorset", [at], [], key=key)
    rs = Rules([[j]] if rng.random() < .8 else [])
    j.rules = rs
    dm = declarative.DecMem()
    mine = rng.random() < .8
    vl = vision.VisualLocation(env if mine else environment.Environment(focus_position=(1, 1)), dm)
    vi = vision.Visual(env, dm)
    auto = vi.attend_automatic = rng.random() < .5
    looked = []

    def looks(kind):
        def f(name, buf, stimuli_, t):
            def g():
                looked.append((kind, name, round(t, 4), [s["text"] for s in stimuli_]))
                yield Event(round(t, 4), name, UNKNOWN)
            return g()
        return f
    rs.automatic_search, rs.automatic_buffering = looks("search"), looks("buffering")
    env.initial_time = 0
    sim = real_sim(rng, env, False, {"vl": vl, "a": object(), "vi": vi}, rs, 0, environment_process=env.environment_process, stimuli=[dict(s) for s in stims], triggers=keys, times=times)
    C.note(times=times, keys=keys, at=at, key=key, mine=mine, auto=auto, rule=bool(rs.script))
    pressing = round(0.05 + at, 4) if rs.script else None
    seen = watched(sim)
    common_checks(C, rs, seen)
    # when each stimulus appears
    ends, total = [], 0
    for k in range(m):
        total = round(total + times[k], 4)
        ends.append(total)
    if pressing is not None and any(abs(x - pressing) < 1e-3 for x in ends):
        raise Skip()
    shows, t = [], 0
    for k in range(m):
        shows.append(round(t, 4))
        end = ends[k]
        if pressing is not None and t < pressing < end and keys[k] == key:
            end = pressing
        t = max(end, t)
    real_ends = [x for x in shows[1:]] + [t]
    for k in range(m):
        if ends[k] > real_ends[k] + 1e-3 and all(abs(ends[k] - x) > .11 and abs(ends[k] - .05 - x) > .11 for x in real_ends + [pressing or 0, 0, .05]):
            C.check(not any(abs(a - ends[k]) < .01 for a in rs.asked), "a stimulus that was cut short still wakes the rules at its time", cycles=rs.asked, cut=[shows[k], real_ends[k], ends[k]])
    for kind, want in (("search", mine), ("buffering", auto)):
        got = [(x[2], x[3]) for x in looked if x[0] == kind]
        if not want:
            C.check(not got, "a buffer that is not automatic, or is of another environment, looks", got=got)
            continue
        C.check(len(got) == m and all(close(a[0], b_, 1e-4) and a[1] == ["t%d" % k] for k, (a, b_) in enumerate(zip(got, shows))), "the stimuli are not looked at when they appear", got=got, want=shows)


@case
def idle(rng, C):
    """Nothing to do: one rule cycle, no more."""
    start = rng.choice([0, round(rng.uniform(0, 3), 4)])
    rs = Rules([])
    sim = real_sim(rng, None, False, {"a": object()}, rs, start)
    seen = watched(sim)
    C.note(start=start)
    C.check(rs.asked == [start], "the rule cycle wakes itself", cycles=rs.asked)
    C.check([tuple(e) for _, e in seen] == [(start, PROC, "CONFLICT RESOLUTION"), (start, PROC, "NO RULE FOUND")], "events are not reported as they happen", events=[tuple(e) for _, e in seen])


@case
def twice(rng, C):
    """A rule clears a module and asks it for something new: both are done, in that order."""
    d = round(rng.uniform(0.01, 1), 4)
    a, b_ = Job(1, "a", "clear", [0], []), Job(2, "a", "retrieveorset", [d], [])
    before = [Job(3, "a", "retrieveorset", [d], [])] if rng.random() < .5 else []
    rs = Rules(([before, None] if before else []) + [[a, b_]])
    sim = real_sim(rng, None, False, {"a": object(), "b": object()}, rs, 0)
    seen = [tuple(e) for _, e in watched(sim) if e.proc == "a"]
    C.note(d=d, before=bool(before))
    C.check(seen == [e for j in before for e in j.events()] + a.events() + b_.events(), "not everything a rule starts in a module is done", events=seen)


@case
def later(rng, C):
    """A process that ends while a rule is being selected, in a module of any name."""
    nm = rng.choice(["P", "PROC", "a", "R"])
    d = round(rng.uniform(0.01, 1), 4)
    a = Job(1, nm, "retrieveorset", [d], [])
    rs = Rules([[a]] + [[]] * rng.choice([0, 5, 30]))
    real = rng.random() < .2
    start = rng.choice([0, round(rng.uniform(0, 3), 3)])
    C.note(module=nm, d=d, rules=len(rs.script), start=start)
    sim = real_sim(rng, None, False, {nm: object()}, rs, start)
    seen = [tuple(e) for _, e in watched(sim) if e.proc == nm]
    C.check(seen == a.events(), "a process of a module is not run", events=seen)
    if real:
        sim = simulation.Simulation(None, True, False, False, {nm: object()}, Rules([]), start)
        C.check(close(sim.show_time(), start), "a simulation does not start at its initial time", time=sim.show_time())


@case
def models(rng, C):
    """Real models with stimuli, keys pressed and buffers cleared at all moments: no crash, every stimulus is noticed."""
    env = environment.Environment(focus_position=(0, 0))
    r = rng.choice([.07, .05, .21, .105, .035, .03])
    key = rng.choice("AB")
    strict = rng.random() < .5
    m = model.ACTRModel(environment=env, rule_firing=r, strict_harvesting=strict)
    chunks.chunktype("s28", "state")
    m.goal.add(chunks.chunkstring(string="isa s28 state 0"))
    m.set_goal("g2"), m.set_goal("g3")
    press = rng.random() < .6
    m.productionstring(name="press", string="=g> isa s28 state 0 ==> =g> isa s28 state 1" + (" +manual> isa _manual cmd press_key key %s" % key if press else ""))
    loc = "=visual_location> isa _visuallocation screen_x =x " if strict and rng.random() < .7 else ""
    for k in range(1, 14):
        ex = ["+g2> isa s28 state 1", "+g3> isa s28 state 1", "~g2>", "+retrieval> isa s28 state 0"] + ([] if press else ["+manual> isa _manual cmd press_key key %s" % key])
        rng.shuffle(ex)
        m.productionstring(name="w%d" % k, string="=g> isa s28 state %d %s==> =g> isa s28 state %d %s" % (k, loc if rng.random() < .5 else "", k + 1, " ".join(ex[:rng.choice([0, 0, 1, 2, 3])])))
    n = 6
    times = [rng.choice([2, r, 2 * r, 3 * r, r / 2, 3 * r / 2, r + .28, .28 + 2 * r]) for _ in range(n)]
    C.note(rule_firing=r, key=key, strict_harvesting=strict, press=press, times=times)
    out, events = set(), 0
    sim = m.simulation(gui=False, trace=False, environment_process=env.environment_process, stimuli=[{"s%d" % k: {"text": "t%d" % k, "position": (10 + k, 10)}} for k in range(n)], triggers=[key] * n, times=times)
    with contextlib.redirect_stdout(io.StringIO()):
        for _ in range(300):
            try:
                sim.step()
            except simpy.core.EmptySchedule:
                break
            e = sim.current_event
            events += 1
            if e.proc == "visual_location" and "ENCODED" in e.action:
                out.add(e.action)
    if not strict and events < 300:
        C.check(len(out) == n, "a stimulus that appears is not noticed", noticed=sorted(out), times=times)


@case
def clearing(rng, C):
    """Stimuli that appear at any moment while rules clear the visual module, or start something there."""
    env = environment.Environment(focus_position=(100, 100))
    rs = Rules([None if rng.random() < .2 else [Job(k, "vl", rng.choice(["clear", "retrieveorset"]), [0], [])] for k in range(rng.choice([1, 2, 4]))])      # a search of the visual field takes no time
    vl = vision.VisualLocation(env, declarative.DecMem())
    rs.automatic_search = lambda name, buf, st, t: (Event(round(t, 4), name, "SEARCH") for _ in range(1))
    env.initial_time = 0
    n = rng.choice([2, 3])
    times = [rng.choice([.05, .1, .15, 1]) for _ in range(n)]
    C.note(times=times, rules=[x and (x[0].name, x[0].waits) for x in rs.script])
    seen = watched(real_sim(rng, env, False, {"vl": vl}, rs, 0, environment_process=env.environment_process, stimuli=[{"s%d" % k: {"text": "t", "position": (100, 100)}} for k in range(n)], triggers=["A"] * n, times=times))
    common_checks(C, rs, seen)
