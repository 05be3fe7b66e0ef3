"""C04: every buffer holds at most one chunk, only chunks, and harvests the old chunk exactly once."""
from pyvc.api import *

PROPERTY = "C04"
b_ = b
REG = []


def spy_add(E, log):
    def c(E, args, kwargs):
        env = E.bind(F(E, "pyactr.declarative.DecMem.add"), args, kwargs)
        log.append((env["self"], env["element"], env["time"]))
        return None
    E.contracts["pyactr.declarative.DecMem.add"] = c


def sym_env(E):
    env = ObjV(cls(E, "pyactr.environment.Environment"))
    env.attrs["_Environment__current_focus"] = ListV([real(E, "fx"), real(E, "fy")])
    return env


KINDS = ["pyactr.buffers.Buffer", "pyactr.goals.Goal", "pyactr.declarative.DecMemBuffer", "pyactr.vision.Visual", "pyactr.vision.VisualLocation"]


def make(E, kind, dm):
    c = cls(E, kind)
    if kind.endswith("Visual"):
        b = E.instantiate(c, [sym_env(E), dm], {})
    elif kind.endswith("VisualLocation"):
        b = E.instantiate(c, [sym_env(E), dm, integer(E, "finst", 0)], {})
    elif kind.endswith("Goal"):
        b = E.instantiate(c, [None, dm], {})
    else:
        b = E.instantiate(c, [dm, None], {})
    return b


def fresh_chunk(E, nm):
    return lib.chunk_obj(E, E.fresh(nm, L.I))


def fill(E, b, c):
    """Put the buffer in the state 'holds exactly c'."""
    run(E, "pyactr.buffers.Buffer.add", [b, c])


def content(E, b):
    return E.to_list(b)


def holds(E, b, c):
    items = content(E, b)
    n = run(E, "pyactr.buffers.Buffer.__len__", [b])
    if c is None:
        return len(items) == 0 and n == 0
    return len(items) == 1 and n == 1 and same(E, items[0], c)


def start(E, kind):
    """A buffer of this kind in an arbitrary legal state: empty, or holding one chunk."""
    log = []
    spy_add(E, log)
    dm = E.instantiate(cls(E, "pyactr.declarative.DecMem"), [], {})
    b = make(E, kind, dm)
    E.prove("new buffer is empty", holds(E, b, None))
    c0 = None
    if E.choose(2, "full"):
        c0 = fresh_chunk(E, "c0")
        fill(E, b, c0)
        E.prove("holds exactly the added chunk", holds(E, b, c0))
    E.prove("no harvest so far", len(log) == 0)
    return b, dm, c0, log


def harvested(E, log, dm, c0, time):
    if c0 is None:
        return len(log) == 0
    return len(log) == 1 and same(E, log[0][0], dm) and same(E, log[0][1], c0) and b(eqv(E, log[0][2], time))


def mk_add(kind):
    short = kind.split(".")[-1]

    def run_(E):
        b, dm, c0, log = start(E, kind)
        c1 = fresh_chunk(E, "c1")
        time = real(E, "time")
        E.cover("precondition satisfiable")
        other = E.instantiate(cls(E, "pyactr.declarative.DecMem"), [], {})
        use_other = short in ("Visual", "VisualLocation", "Goal") and E.choose(2, "harvest")
        h = [other] if use_other else []
        if short == "Buffer":
            run(E, kind + ".add", [b, c1])
        elif short == "VisualLocation":
            stim = None if E.choose(2, "stim") else DictV([["text", string(E, "t")]])
            run(E, kind + ".add", [b, c1, stim, time] + h)
        else:
            run(E, kind + ".add", [b, c1, time] + h)
        E.prove("afterwards the buffer holds exactly the new chunk", holds(E, b, c1))
        if short not in ("Buffer", "Goal"):
            E.prove("the replaced chunk went once to the buffer's memory, or the memory named in the call, at the time of the operation", harvested(E, log, other if use_other else dm, c0, time))
        else:
            E.prove("nothing is harvested", len(log) == 0)
    return run_


def mk_add_bad(kind):
    short = kind.split(".")[-1]

    def run_(E):
        b, dm, c0, log = start(E, kind)
        bad = [None, string(E, "s"), real(E, "r"), ListV([])][E.choose(4, "bad")]
        args = [b, bad] if short == "Buffer" else ([b, bad, None, real(E, "time")] if short == "VisualLocation" else [b, bad, real(E, "time")])
        st, r = attempt(E, lambda: run(E, kind + ".add", args))
        E.prove("a value that is not a chunk is refused with TypeError", st == "exc" and is_exc(E, r, "TypeError"))
        items = content(E, b)
        E.prove("the refused value is not in the buffer", all(lib.is_chunk(E, x) for x in items) and len(items) <= 1)
    return run_


def mk_clear(kind):
    def run_(E):
        b, dm, c0, log = start(E, kind)
        time = real(E, "time")
        other = E.instantiate(cls(E, "pyactr.declarative.DecMem"), [], {})
        use_other = (not kind.endswith("DecMemBuffer")) and E.choose(2, "harvest")
        args = [b, time] + ([other] if use_other else [])
        run(E, kind + ".clear", args)
        E.prove("afterwards the buffer is empty", holds(E, b, None))
        E.prove("the cleared chunk went to the memory exactly once, at the time of clearing", harvested(E, log, other if use_other else dm, c0, time))
        run(E, kind + ".clear", args)
        E.prove("clearing again adds nothing", len(log) == (0 if c0 is None else 1) and holds(E, b, None))
    return run_


for _k in KINDS:
    _s = _k.split(".")[-1]
    REG.append(Task(_s + ".add", mk_add(_k), [_k + ".add", "pyactr.buffers.Buffer.__len__", "pyactr.buffers.Buffer.__iter__"] + ([_k + ".clear"] if _s not in ("Buffer", "Goal") else [])))
    REG.append(Task(_s + ".add refuses", mk_add_bad(_k), [_k + ".add"]))
    if _s != "Buffer":
        REG.append(Task(_s + ".clear", mk_clear(_k), [_k + ".clear"]))


@task(REG, "Buffer.__init__", ["pyactr.buffers.Buffer.__init__"])
def init(E):
    n = E.choose(4, "n")
    items = [fresh_chunk(E, "c%d" % k) for k in range(n)]
    st, r = attempt(E, lambda: E.instantiate(cls(E, "pyactr.buffers.Buffer"), [None, SetV(items)], {}))
    if n <= 1:
        E.prove("at most one initial chunk is accepted", st == "ok")
    else:
        E.prove("two or more initial chunks are refused", st == "exc" and is_exc(E, r, "AssertionError"))


@task(REG, "Buffer.discard", ["pyactr.buffers.Buffer.discard"])
def discard(E):
    b, dm, c0, log = start(E, "pyactr.buffers.Buffer")
    c1 = fresh_chunk(E, "c1")
    if c0 is not None and E.choose(2, "same"):
        c1 = c0
    run(E, "pyactr.buffers.Buffer.discard", [b, c1])
    items = content(E, b)
    E.prove("discarding never adds", len(items) <= (0 if c0 is None else 1))
    E.prove("discarding never harvests", len(log) == 0)
    if c0 is not None:
        gone = L.CANON(lib.cid_of(E, c1)) == L.CANON(lib.cid_of(E, c0))
        E.prove("an equal chunk is removed, any other stays", gone if not items else z3.Not(gone))


@task(REG, "Motor.add", ["pyactr.motor.Motor.add"])
def motor_add(E):
    b = E.instantiate(cls(E, "pyactr.motor.Motor"), [], {})
    st, r = attempt(E, lambda: run(E, "pyactr.motor.Motor.add", [b, fresh_chunk(E, "c")]))
    E.prove("the motor buffer accepts no chunk", st == "exc")
    E.prove("it stays empty", holds(E, b, None))


@task(REG, "Goal.copy", ["pyactr.goals.Goal.copy"])
def goal_copy(E):
    b, dm, c0, log = start(E, "pyactr.goals.Goal")
    delay = real(E, "delay")
    E.assume(delay.t >= 0)
    E.setattr(b, "delay", delay)
    own = E.choose(2, "own")
    other = E.instantiate(cls(E, "pyactr.declarative.DecMem"), [], {})
    c = run(E, "pyactr.goals.Goal.copy", [b, other] if own else [b])
    E.prove("the copy holds the same chunk", holds(E, c, c0))
    E.prove("the copy keeps the delay", b_(eqv(E, E.getattr(c, "delay"), delay)))
    E.prove("the copy harvests into the memory named, or that of the original", same(E, E.getattr(c, "dm"), other if own else dm))
    c1 = fresh_chunk(E, "c1")
    run(E, "pyactr.buffers.Buffer.add", [c, c1])
    E.prove("changing the copy leaves the original alone", holds(E, b, c0))
    run(E, "pyactr.goals.Goal.clear", [c, real(E, "time")])
    E.prove("clearing the copy leaves the original alone", holds(E, b, c0) and holds(E, c, None))


@task(REG, "DecMemBuffer.copy", ["pyactr.declarative.DecMemBuffer.copy"])
def dmb_copy(E):
    b, dm, c0, log = start(E, "pyactr.declarative.DecMemBuffer")
    finst = integer(E, "finst", 0)
    E.setattr(b, "finst", finst)
    own = E.choose(2, "own")
    other = E.instantiate(cls(E, "pyactr.declarative.DecMem"), [], {})
    c = run(E, "pyactr.declarative.DecMemBuffer.copy", [b, other] if own else [b])
    E.prove("the copy holds the same chunk", holds(E, c, c0))
    E.prove("the copy keeps finst", b_(eqv(E, E.getattr(c, "finst"), finst)))
    E.prove("the copy harvests into the memory named, or that of the original", same(E, E.getattr(c, "dm"), other if own else dm))
    run(E, "pyactr.declarative.DecMemBuffer.clear", [c, real(E, "time")])
    E.prove("clearing the copy leaves the original alone", holds(E, b, c0) and holds(E, c, None))
