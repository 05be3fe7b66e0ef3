"""C12 on real buffers: recency lists over sequences of calls."""
from .retrkit import *
from pyactr import vision, environment


@case
def one(rng, C):
    r = retrieval(rng, C)
    if r.error:
        C.raises(utilities.ACTRError, lambda: call(rng, r), "a request that cannot be resolved is not an ACTRError")
        C.check(list(r.buf.recent) == r.recent, "a refused request is remembered")
        return
    got, _ = call(rng, r)
    want = (r.recent + [got])[-r.finst:] if r.finst else []
    have = list(r.buf.recent)
    C.check(len(have) == len(want) and all(x is y for x, y in zip(have, want)), "the recency list is not the last finst results", got=repr(have), want=repr(want))


@case
def history(rng, C):
    dm = declarative.DecMem()
    n = rng.randint(1, 4)
    chunk_ = [chunks.makechunk("", "histc", a="v%d" % j) for j in range(n)]
    for c in chunk_:
        dm.add(c, 0)
    finst = rng.choice([0, 1, 2, 3])
    b = declarative.DecMemBuffer(dm, finst=finst)
    p = dict(model.ACTRModel.MODEL_PARAMETERS)
    want = []
    steps = []
    C.note(finst=finst, steps=steps)
    for k in range(rng.nat(0, 9)):
        j = rng.choice(list(range(n)) + ["missing"])
        test = rng.choice([{}, {"recently_retrieved": False}, {"recently_retrieved": True}])
        steps.append((j, test))
        req = chunks.makechunk("", "histc", a="v%s" % j)
        got, _ = b.retrieve(1 + k, req, {}, {}, test, p)
        exp = None if j == "missing" else chunk_[j]
        if exp is not None and test and finst and any(x is exp for x in want) != test["recently_retrieved"]:
            exp = None
        C.check(got is exp, "retrieval %d returns %r" % (k, got), want=repr(exp))
        if finst:
            want = (want + [got])[-finst:]
        C.check(len(b.recent) == len(want) and all(x is y for x, y in zip(b.recent, want)), "the recency list is not the last finst results", got=repr(list(b.recent)), want=repr(want))


@case
def locations(rng, C):
    env = environment.Environment(focus_position=(0, 0))
    finst = rng.choice([0, 1, 2, 4])
    dm = declarative.DecMem()
    v = vision.VisualLocation(env, dm, finst)
    want = []
    steps = []
    C.note(finst=finst, steps=steps)
    for k in range(rng.nat(0, 9)):
        stim = None if rng.random() < 0.25 else {"text": "t%d" % rng.randint(0, 3), "position": (k, k)}
        op = "modify" if len(v) and rng.random() < 0.5 else "add"
        steps.append((op, stim))
        c = chunks.makechunk("", "_visuallocation", screen_x=k)
        if op == "add":
            v.add(c, stim, 0.1 * k)
        else:
            v.modify(c, stim)
        if finst and stim:
            want = (want + [stim])[-finst:]
        C.check(len(v.recent) == len(want) and all(x is y for x, y in zip(v.recent, want)), "the recency list is not the last finst stimuli", got=repr(list(v.recent)), want=repr(want))


@case
def settings(rng, C):
    env = environment.Environment(focus_position=(0, 0))
    dm = declarative.DecMem()
    v = rng.choice([-1, -3, 0, 1, 5, -0.5, 0.5])
    kind = rng.choice(["retrieval", "visloc", "goal"])
    C.note(kind=kind, value=v)
    new = dict(retrieval=lambda *a: declarative.DecMemBuffer(dm, None, *a), visloc=lambda *a: vision.VisualLocation(env, dm, *a), goal=lambda *a: goals.Goal(None, dm, *a))[kind]
    attr = "delay" if kind == "goal" else "finst"
    b = new()
    old = getattr(b, attr)
    if v < 0:
        C.raises(ValueError, lambda: new(v), "a negative %s is accepted at creation" % attr)
        C.raises(ValueError, lambda: setattr(b, attr, v), "a negative %s is accepted" % attr)
        C.check(getattr(b, attr) == old, "a refused value is kept")
    else:
        C.check(getattr(new(v), attr) == v, "the value given at creation is not kept")
        setattr(b, attr, v)
        C.check(getattr(b, attr) == v, "the value set is not kept")
