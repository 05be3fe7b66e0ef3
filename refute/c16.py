"""C16 on the real method, with recording stand-ins for the actions, and on whole models."""
from .modelkit import *
from pyactr import goals, declarative

SIGNS = {"!": ("execute", 0, False), "?": ("extra_test", 0, False), "=": ("modify", 1, False), "@": ("overwrite", 2, False),
         "*": ("modify_request", 3, True), "+": ("retrieveorset", 4, True), "~": ("clear", 5, False)}


@case
def update(rng, C):
    names = ["g", "imaginal", "retrieval", "visual", "manual", rng.word(0.5) or "x"]
    names = [n for n in dict.fromkeys(names) if n and n[0] not in "=~"]
    dm = declarative.DecMem()
    buffers = {n: goals.Goal(None, dm) for n in names}
    strict = rng.choice([True, False])
    pr = prules(buffers, {"dm": dm}, params(strict_harvesting=strict))
    pr.used_rulename = "rule"
    for buf in buffers.values():
        buf.state = rng.choice(["free", "busy", "error"])
    log = []
    t = rng.real(0, 10)
    vals = {}

    def stand_in(m):
        def f(name, buffer, what, bindings, time, *rest, **kw):
            log.append((m, name, what))
            C.check(buffer is buffers[name], "an action works on another buffer", action=m, name=name)
            C.check(time == t, "an action is not carried out at the time of firing", action=m, time=time)
            C.check(dict(bindings) == vals, "an action gets other bindings", action=m)
            yield ("event", m, name)
        f.__name__ = m
        return f
    for m, _, _ in SIGNS.values():
        setattr(pr, m, stand_in(m))
    for n in names:
        if rng.random() < 0.5:
            vals["=" + n] = "chunk of " + n
    for v in "xyz":
        if rng.random() < 0.4:
            vals[rng.choice(["=", "~="]) + v] = v
    if rng.random() < 0.3:
        vals["~=" + rng.choice(names)] = {"a"}
    items = list(vals.items())
    rng.shuffle(items)
    vals = dict(items)
    pr._ProductionRules__actrvariables = dict(vals)
    keys = [s + n for s in SIGNS for n in names]
    rng.shuffle(keys)
    rhs = {k: "what " + k for k in keys[:rng.nat(0, 8)]}
    C.note(action=list(rhs), bound=list(vals), strict=strict)
    before = dict(rhs)
    if rng.random() < 0.15:
        bad = rng.choice(["%", "x", "-", "/"]) + rng.choice(names)
        rhs = dict(sorted(list(rhs.items()) + [(bad, 1)], key=lambda x: rng.random()))
        C.note(action=list(rhs))
        C.raises(utilities.ACTRError, lambda: list(pr.update(rhs, t)), "an action with an unknown sign is accepted")
        C.check(log == [] and pr.procs == [], "actions are carried out although one is invalid", log=log)
        return
    for ev in pr.update(rhs, t):
        pass
    now = list(log)
    queued = []
    for name, g in pr.procs:
        log.clear()
        for _ in g:
            pass
        C.check(len(log) == 1 and log[0][1] == name, "a process is recorded under another name", name=name, log=log)
        queued += log
    C.check(rhs == before, "the action of the rule is altered")
    C.check(pr._ProductionRules__actrvariables == vals, "the bindings are altered")
    harvested = sorted(x[1] for x in queued if x[2] is None)
    queued = [x for x in queued if x[2] is not None]
    C.check(sorted(now + queued) == sorted((SIGNS[k[0]][0], k[1:], v) for k, v in before.items()), "not every action is carried out exactly once", carried_out=now + queued)
    C.check(all(not SIGNS[x[2][5]][2] for x in now) and all(SIGNS[x[2][5]][2] for x in queued), "the wrong actions run concurrently", now=now, queued=queued)
    for part in (now, queued):
        order = [SIGNS[x[2][5]][1] for x in part]
        C.check(order == sorted(order), "actions are out of order", carried_out=part)
    want = sorted(n for n in names if "=" + n in vals and not any(k[1:] == n for k in before)) if strict else []
    C.check(harvested == want, "the wrong buffers are harvested", harvested=harvested, want=want)


@case
def order_of_starting(rng, C):
    """concurrent actions are started in their place among the others"""
    names = ["g", "imaginal", "retrieval"]
    dm = declarative.DecMem()
    pr = prules({n: goals.Goal(None, dm) for n in names}, {"dm": dm}, params(strict_harvesting=False))
    log = []

    class Procs(list):
        def append(self, x):
            log.append(x[1].gi_frame.f_locals["what"] if hasattr(x[1], "gi_frame") else "?")
            list.append(self, x)
    pr.procs = Procs()

    def stand_in(m):
        def f(name, buffer, what, bindings, time, *rest, **kw):
            log.append(what)
            yield "event"
        f.__name__ = m
        return f
    for m, _, _ in SIGNS.values():
        setattr(pr, m, stand_in(m))
    keys = [s + n for s in SIGNS for n in names]
    rng.shuffle(keys)
    rhs = {k: k for k in keys[:rng.nat(2, 7)]}
    C.note(action=list(rhs))
    for _ in pr.update(rhs, 1.0):
        pass
    order = [SIGNS[k[0]][1] for k in log]
    C.check(order == sorted(order), "actions are out of order", carried_out=log)
