import pyactr as actr
from pyactr import buffers, goals, declarative, vision, motor, chunks, environment
from .common import *


def chunk(rng):
    return chunks.makechunk("", "refutec04", a=rng.choice("xyz") + str(rng.randint(0, 3)))


def buf(rng, dm, kind):
    if kind == "goal":
        return goals.Goal(None, dm)
    if kind == "retrieval":
        return declarative.DecMemBuffer(dm, None, rng.nat(0, 5))
    env = environment.Environment(focus_position=(1, 1))
    if kind == "visual":
        return vision.Visual(env, dm)
    return vision.VisualLocation(env, dm, rng.nat(0, 3))


class Spy(declarative.DecMem):
    log = None

    def add(self, element, time=0):
        if self.log is not None:
            self.log.append((element, time))
        return super().add(element, time)


@case
def sequence(rng, C):
    dm = Spy()
    dm.log = []
    kind = rng.choice(["goal", "retrieval", "visual", "visual_location"])
    b = buf(rng, dm, kind)
    if kind == "goal":
        b.delay = rng.real(0, 1)
    cur, t, hist = None, 0.0, []
    C.note(kind=kind, history=hist)
    C.check(len(b) == 0 and list(b) == [], "a new buffer is not empty")
    for _ in range(rng.randint(1, 6)):
        t += rng.real(0.01, 2)
        op = rng.choice(["add", "add", "clear", "bad", "copy"])
        c = chunk(rng)
        hist.append((op, t, str(c)))
        n = len(dm.log)
        other = Spy() if kind in ("visual", "visual_location") and rng.random() < .4 else None
        if other is not None:
            other.log = []
        h = {} if other is None else {"harvest": other}
        if op == "add":
            if kind == "visual_location":
                b.add(c, {"text": rng.word()}, t, **h)
            elif other is not None:
                b.add(c, t, **h)
            else:
                b.add(c, t)
            want = c
            # the goal's add does not harvest by itself
            harvest = kind != "goal" and cur is not None
        elif op == "clear":
            b.clear(t, **h)
            want, harvest = None, cur is not None
        elif op == "bad":
            bad = rng.choice([None, "text", 3, [], c.actrchunk])
            try:
                if kind == "visual_location":
                    b.add(bad, None, t)
                else:
                    b.add(bad, t)
                C.check(False, "a value that is no chunk was accepted", value=repr(bad))
            except TypeError:
                pass
            C.check(all(isinstance(x, chunks.Chunk) for x in b) and len(b) <= 1, "refused value is in the buffer")
            return
        else:
            if kind not in ("goal", "retrieval"):
                continue
            d = b.copy()
            C.check(list(d) == list(b), "the copy holds something else")
            C.check(d.delay == b.delay if kind == "goal" else d.finst == b.finst, "the copy lost a setting")
            d.add(c, t) if kind == "goal" else d.clear(t)
            del dm.log[n:]
            want, harvest = cur, False
        C.check(len(b) == (want is not None), "wrong number of chunks in the buffer")
        C.check([id(x) for x in b] == ([id(want)] if want is not None else []), "the buffer does not hold exactly the expected chunk")
        new = dm.log[n:]
        if other is not None and op in ("add", "clear"):
            C.check(not new, "harvested into the buffer's own memory although another one was named", log=repr(new))
            new = other.log
        if harvest:
            C.check(len(new) == 1 and new[0][0] is cur and close(float(new[0][1]), t), "the old chunk was not sent to memory exactly once", log=repr(new))
        else:
            C.check(not new, "something was sent to memory that was not cleared", log=repr(new))
        cur = want


@case
def initial(rng, C):
    k = rng.randint(0, 3)
    cs = {chunks.makechunk("", "refutec04", a="v%d" % i) for i in range(k)}
    if k > 1:
        C.raises(AssertionError, lambda: buffers.Buffer(None, cs), "more than one initial chunk accepted")
    else:
        C.check(len(buffers.Buffer(None, cs)) == k, "initial chunk lost")


@case
def discards(rng, C):
    dm = Spy()
    b = goals.Goal(None, dm)
    c, d = chunk(rng), chunk(rng)
    b.add(c, 0)
    dm.log = []
    b.discard(d)
    C.check(len(b) == (c != d), "discard removed the wrong thing", c=str(c), d=str(d))
    C.check(dm.log == [], "discard harvests")


@case
def motor_refuses(rng, C):
    m = motor.Motor()
    try:
        m.add(chunk(rng))
    except Exception:
        pass
    C.check(len(m) == 0, "the motor buffer accepted a chunk")
