"""C21 on the real environment process."""
import copy
from .modelkit import *
from .common import *
from pyactr import environment


def a_stimulus(rng, C):
    k = rng.random()
    if k < .75:
        return {rng.word(): {"text": rng.word(), "position": (rng.nat(0, 600), rng.nat(0, 600))} for _ in range(rng.choice([0, 1, 1, 2, 3]))}
    return rng.word()


def a_trigger(rng):
    k = rng.random()
    if k < .3:
        return rng.word(.1)
    if k < .5:
        return rng.choice(["space", "SPACE", "Space", "sPACe"])
    return rng.choice([list, tuple])(rng.choice([rng.word(.1), "Space", "left", "A"]) for _ in range(rng.choice([0, 1, 2, 3])))


def upper(t):
    if isinstance(t, str):
        return {"SPACE"} if t.upper() == "SPACE" else {c.upper() for c in t}
    return {x.upper() for x in t}


def shown(s):
    return s if isinstance(s, dict) else {s: {"position": (320, 180)}}


def setting(rng):
    env = environment.Environment(focus_position=(rng.nat(0, 600), rng.nat(1, 600)))
    env.initial_time = rng.choice([0, 0, rng.real(0, 5)])
    return env


def sizes(rng):
    n = rng.choice([0, 1, 1, 2, 3, 4, 6, rng.nat(5, 40)])
    m = rng.choice([n, n, 1, n + 1, 2, rng.nat(5, 40)])
    k = rng.choice([n, n, 1, m, max(n, m), n + 1, 3])
    return n, m, k


@case
def presentation(rng, C):
    env = setting(rng)
    n, m, k = sizes(rng)
    stimuli = [a_stimulus(rng, C) for _ in range(n)]
    triggers = [a_trigger(rng) for _ in range(m)]
    times = [rng.real(0, 4) for _ in range(k)]
    for l in (stimuli, triggers, times):
        if len(l) > 1 and rng.random() < .2:
            l[-1] = copy.deepcopy(l[0])
    if n > 1 and rng.random() < .1:
        stimuli[rng.choice([-1, 1])] = stimuli[0]
    kw = {}
    if rng.random() < .5:
        kw["start_time"] = rng.choice([0, rng.real(0, 3)])
    a, b, c = copy.deepcopy(stimuli), copy.deepcopy(triggers), list(times)
    args = [stimuli, triggers, times]
    for i, l in enumerate((stimuli, triggers, times)):
        if len(l) == 1 and rng.random() < .4 and (i != 1 or isinstance(l[0], str)):
            args[i] = l[0]
    C.note(stimuli=copy.deepcopy(args[0]), triggers=copy.deepcopy(args[1]), times=copy.deepcopy(args[2]), initial=env.initial_time, **kw)
    N = m if n == 1 else n
    ok = (n == m or n == 1 or m == 1) and (k == N or k == 1)
    if rng.random() < .3:
        env.gui = False
    if not ok:
        C.raises(utilities.ACTRError, lambda: list(env.environment_process(*args, **kw)), "lists of different lengths are refused")
        return
    a, b, c = [l * N if len(l) == 1 else l for l in (a, b, c)]
    g = env.environment_process(*args, **kw)
    t = env.initial_time + kw.get("start_time", 0)
    ev = next(g)
    C.check(close(ev.time, round(t, 4)), "the environment starts at its start time", got=ev)
    for i in range(N):
        ev = next(g, None)
        C.check(ev is not None, "one event per stimulus")
        t += c[i]
        C.check(abs(ev.time - t) < 2e-4, "the event is at the end of the stimulus", got=ev, expected=t)
        C.check(env.stimulus == shown(a[i]), "the stimulus is the current one", got=env.stimulus, expected=shown(a[i]))
        C.check(env.trigger == upper(b[i]), "its trigger in upper case is the current one", got=env.trigger, expected=upper(b[i]))
    rest = list(g)
    C.check(not rest, "one event per stimulus", more=rest)


@case
def refused(rng, C):
    env = setting(rng)
    n = rng.choice([1, 1, 2, 3, 5])
    stimuli = [{rng.word() + str(i): {"text": "a", "position": (1, 1)} for i in range(rng.choice([0, 1, 2, 3]))} for _ in range(n)]
    triggers = [a_trigger(rng) for _ in range(n)]
    if rng.random() < .5:
        s = rng.choice(stimuli)
        s["zz" + rng.word()] = rng.choice(["text", 5, None, (1, 2), ["text"]])
        if rng.random() < .5:
            s["zzz" + rng.word()] = {"text": "b", "position": (2, 2)}
    else:
        i = rng.randrange(n)
        triggers[i] = rng.choice([5, None, 0, 1.5, ["a", 5], [None], [["a"]]])
    C.note(stimuli=stimuli, triggers=triggers)
    C.raises(utilities.ACTRError, lambda: list(env.environment_process(stimuli, triggers, 1)), "wrong stimuli and triggers are refused")
