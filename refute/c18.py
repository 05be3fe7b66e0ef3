"""C18 on the real motor module."""
from .modelkit import *
from . import chunkkit

LEFT = "1 2 3 4 5 Q W E R T A S D F G Z X C V B SPACE".split()
RIGHT = "6 7 8 9 0 Y U I O P H J K L N M SPACE".split()
KEYS = sorted(set(LEFT + RIGHT))
HOME = "A S D F J K L SPACE".split()


def dur(k):
    return (0.15, 0.05, 0.01, 0.09) if k in HOME else (0.25, 0.05, 0.11, 0.16) if k in ("5", "6") else (0.25, 0.05, 0.1, 0.15)


def prep_time(k, last, prepared):
    d = dur(k)[0]
    if k == last or prepared:
        return 0
    if last and (k in HOME) == (last in HOME):
        return d - (0.1 if (k in LEFT) == (last in LEFT) else 0.05)
    return d


def cased(rng, k):
    return k.lower() if rng.random() < .4 else k


@case
def presses(rng, C):
    """A history of presses, each started when the processor is free again."""
    m = motor.Motor()
    prepared = rng.random() < .3
    p = params(motor_prepared=prepared)
    pr = productions.ProductionRules(productions.Productions(), {"manual": m}, {}, p)
    pr.env_interaction = set()
    n = rng.choice([1, 2, 2, 3, 4])
    pool = rng.sample(KEYS, rng.randint(1, 3)) if rng.random() < .5 else KEYS
    keys = [rng.choice(pool) for _ in range(n)]
    gaps = [rng.choice([0, 0.001, rng.real(0, .3), rng.real(0, 2)]) for _ in range(n)]
    t0 = rng.choice([0, rng.real(0, 5)])
    C.note(keys=keys, gaps=gaps, start=t0, motor_prepared=prepared)
    # oracle
    exp, busy_until, last, t = [], 0, None, t0
    for k, g in zip(keys, gaps):
        t = t + g
        d = dur(k)
        pe = t + prep_time(k, last, prepared)
        prepared = False
        st = max(pe, busy_until) if busy_until > pe else pe
        i, x = st + d[1], st + d[1] + d[2]
        f = x + d[3]
        exp.append(dict(key=k, begin=t, prep=pe, init=i, exec_=x, fin=f))
        busy_until, last = f, k
        t = i
    # real run: code between two steps runs at the time of the earlier one
    agenda, got, seen, cnt = [], [], [], 0
    for j, e in enumerate(exp):
        req = chunkkit.build("_manual", {"cmd": utilities.VarvalClass(values="press_key", variables=None, negvalues=(), negvariables=()),
                                         "key": utilities.VarvalClass(values=cased(rng, e["key"]), variables=None, negvalues=(), negvariables=())})
        agenda.append([e["begin"], j, 0, pr.motorset("manual", m, req, {}, e["begin"]), None])
    steps = 0
    while agenda:
        agenda.sort(key=lambda a: (round(a[0], 6), a[1]))
        a = agenda.pop(0)
        try:
            v = next(a[3])
        except StopIteration:
            v = None
        seen.append((a[0], set(pr.env_interaction), m.state, m.preparation, m.execution, m.processor))
        steps += 1
        if steps > 100:
            raise Failure("the presses do not come to an end")
        if v is None:
            continue
        if isev(v):
            if v.action != UNK:
                got.append((a[1], float(v.time), v.action))
            a[0] = max(a[0], float(v.time)) if v.action == UNK or True else a[0]
            agenda.append(a)
        else:
            agenda.append([a[0], a[1], 1, v, None])
    for j, e in enumerate(exp):
        g = [x for x in got if x[0] == j]
        want = [("COMMAND", "begin"), ("PREPARATION COMPLETE", "prep"), ("INITIATION COMPLETE", "init"), ("KEY PRESSED", "exec_"), ("MOVEMENT FINISHED", "fin")]
        C.check(len(g) == len(want), "press %d has %d events" % (j, len(g)), events=repr(got))
        for (a, b), x in zip(want, g):
            C.check(x[2].startswith(a), "press %d: %s instead of %s" % (j, x[2], a))
            C.check(abs(x[1] - e[b]) < 2e-4, "press %d (%s): %s at %s instead of %s" % (j, e["key"], a, x[1], round(e[b], 4)), events=repr(got))
    # keys visible to the environment, and the state of the module, at each point in time
    for idx, (t, ks, st, prep, ex, proc) in enumerate(seen):
        if idx + 1 < len(seen) and seen[idx + 1][0] - t < 1e-3:
            continue            # more happens at this time
        if any(abs(t - e[q]) < 1e-3 for e in exp for q in ("begin",) if abs(t - e[q]) > 1e-9):
            continue
        want = {e["key"] for e in exp if e["exec_"] <= t + 1e-3 and t + 1e-3 < e["fin"]}
        C.check(ks == want, "at %s the environment sees the keys %s instead of %s" % (t, sorted(ks), sorted(want)), events=repr(got))
        running = any(e["begin"] <= t + 1e-3 and t + 1e-3 < e["fin"] for e in exp)
        C.check((st == "busy") == running, "at %s the module is %s" % (t, st), events=repr(got))
    C.check((m.state, m.preparation, m.execution, m.processor) == ("free",) * 4, "in the end the module is not free")
    C.check(pr.env_interaction == set(), "in the end keys are still pressed")


UNK = productions.ProductionRules._UNKNOWN


@case
def create(rng, C):
    m = motor.Motor()
    k = rng.choice(KEYS + ["Ä", "ENTER", "F1", "QW", "", "-", "AB", "TAB", "12", "LEFT", "SPACEBAR"] + [rng.word()])
    if not k:
        raise Skip()
    cmd = rng.choice(["press_key"] * 8 + ["None", "press", "click", "hold_key", "PRESS_KEY"])
    k = cased(rng, k)
    bv = {"=x": k}
    V = lambda v, x=None: utilities.VarvalClass(values=v, variables=x, negvalues=(), negvariables=())
    byvar = rng.random() < .4
    req = chunkkit.build("_manual", {"cmd": V(cmd), "key": V(None, "x") if byvar else V(k)})
    bound = rng.random() < .9
    C.note(key=k, cmd=cmd, by_variable=byvar, bound=bound)
    if cmd != "press_key" or k.upper() not in KEYS or (byvar and not bound):
        C.raises(utilities.ACTRError, lambda: m.create(req, bv if bound else {}), "a press that is not possible is accepted")
        C.check(len(m) == 0, "something is in the manual buffer")
        return
    r = m.create(req, bv if bound else {})
    C.check(r.key.values == k.upper() and r.cmd.values == "press_key" and r.typename == "_manual", "the chunk created is %r" % r)


@case
def model_run(rng, C):
    """Presses driven by rules, seen in the trace of a whole model."""
    keys = [rng.choice(KEYS) for _ in range(rng.randint(1, 3))]
    prepared = rng.random() < .3
    overlap = rng.random() < .5
    m = model.ACTRModel(motor_prepared=prepared)
    chunks.Chunk._chunktypes.pop("st", None)
    chunks.chunktype("st", ("n",))
    m.goal.add(mk("st", n="0"))
    for j, k in enumerate(keys):
        m.productionstring(name="p%d" % j, string="""
        =g>
        isa st
        n %d
        ?manual>
        %s free
        ==>
        =g>
        isa st
        n %d
        +manual>
        isa _manual
        cmd press_key
        key %s
        """ % (j, "processor" if overlap else "state", j + 1, k))
    C.note(keys=keys, motor_prepared=prepared, overlap=overlap)
    ev = [e for e in trace(m, 10)[0] if e[1] == "manual"]
    last, busy, begin = None, 0, None
    fire = 0.05
    want = []
    for j, k in enumerate(keys):
        if begin is not None:
            free_at = want[-3][0] if overlap else want[-1][0]
            fire = max(free_at, fire) + 0.05
        d = dur(k)
        pe = fire + prep_time(k, last, prepared)
        prepared = False
        st = max(pe, busy)
        want += [(fire, "COMMAND"), (pe, "PREP"), (st + d[1], "INIT"), (st + d[1] + d[2], "KEY PRESSED: %s" % k), (st + sum(d[1:]), "MOVE")]
        busy, last, begin = st + sum(d[1:]), k, fire
    if not overlap:
        C.check([e[2][:4] for e in ev] == [w[1][:4] for w in want], "the phases of the presses are %r" % (ev,))
        for e, w in zip(ev, want):
            C.check(e[2].startswith(w[1]) and abs(e[0] - w[0]) < 2e-3, "%r instead of %r at %s" % (e, w[1], round(w[0], 4)), events=repr(ev))
    else:
        g = sorted((e[2][:12], round(e[0], 2)) for e in ev)
        C.check(len(ev) == len(want), "the presses have %d events" % len(ev), events=repr(ev))
        fin = [e[0] for e in ev if e[2].startswith("MOVE")]
        ini = [e[0] for e in ev if e[2].startswith("INIT")]
        for j in range(1, len(keys)):
            C.check(ini[j] >= fin[j - 1] + 0.05 - 2e-3, "the initiation of press %d overlaps the press before" % j, events=repr(ev))
