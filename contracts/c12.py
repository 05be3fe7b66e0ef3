"""C12: recency lists keep exactly the last finst items."""
from .dmretrieve import *

PROPERTY = "C12"
REG = []
ASSUME = ["C12: the recency list is not longer than finst before the call (the invariant; finst is not lowered while items are remembered)"]


def mk(sub):
    def recent(E):
        S = retrieval_setting(E, sub, False, mode="any")
        E.cover("precondition satisfiable")
        st, r = attempt(E, lambda: run(E, RET, S.args))
        rec = S.recent
        if st == "exc":
            E.prove("a request that is refused is not remembered", rec.appended == [] and rec.dropped == 0)
            return
        same_list(E, S.buf, rec)
        fin = S.finst.t
        kept = rec.len + len(rec.appended) - rec.dropped
        E.prove("no more than finst results are remembered", kept <= fin)
        E.prove("nothing is remembered if finst is 0", z3.Implies(fin == 0, z3.BoolVal(rec.appended == [])))
        if rec.appended:
            E.prove("the result is remembered once, a failure too", len(rec.appended) == 1 and (rec.appended[0] is None if r[0] is None else rec.appended[0] is not None and same(E, rec.appended[0], r[0])))
        else:
            E.prove("every result is remembered unless finst is 0", fin == 0)
        E.prove("the oldest item is dropped only when there are more than finst", z3.BoolVal(rec.dropped == 0) if not rec.dropped else z3.And(z3.BoolVal(rec.dropped == 1), rec.len == fin))
    return recent


def same_list(E, buf, rec):
    cur = buf.attrs.get("recent")
    if cur is not rec:
        raise Unsupported("the recency list is replaced")


REG.append(Task("retrieve: symbolic", mk(False), RETFNS))
REG.append(Task("retrieve: subsymbolic", mk(True), RETFNS))


def loc(fn):
    def run_(E):
        adds = []
        spy(E, "pyactr.declarative.DecMem.add", adds)
        spy(E, "pyactr.buffers.Buffer.modify", adds)
        opaque_chunks(E)
        dm = decmem(E)
        full = chunk(E, "old") if E.choose(2, "full") else None
        buf = visual(E, dm, full, loc=True)
        finst = integer(E, "finst", 0)
        E.setattr(buf, "finst", finst)
        rec = Recent(E, lambda k: boolean(E, "in"))
        buf.attrs["recent"] = rec
        E.assume(rec.len <= finst.t)
        stim = [None, DictV([["text", string(E, "text")], ["position", (integer(E, "x"), integer(E, "y"))]])][E.choose(2, "stimulus")]
        c = chunk(E, "location")
        E.cover("precondition satisfiable")
        args = [buf, c, stim] + ([real(E, "time")] if fn == "add" else [])
        run(E, "pyactr.vision.VisualLocation." + fn, args)
        same_list(E, buf, rec)
        kept = rec.len + len(rec.appended) - rec.dropped
        E.prove("no more than finst stimuli are remembered", kept <= finst.t)
        if stim is None:
            E.prove("nothing is remembered without a stimulus", rec.appended == [] and rec.dropped == 0)
        elif rec.appended:
            E.prove("the stimulus is remembered once", len(rec.appended) == 1 and same(E, rec.appended[0], stim))
            E.prove("nothing is remembered if finst is 0", finst.t > 0)
        else:
            E.prove("every stimulus encoded is remembered unless finst is 0", finst.t == 0)
        E.prove("the oldest item is dropped only when there are more than finst", z3.BoolVal(rec.dropped == 0) if not rec.dropped else z3.And(z3.BoolVal(rec.dropped == 1), rec.len == finst.t))
    return run_


for _f in ("add", "modify"):
    REG.append(Task("VisualLocation." + _f, loc(_f), ["pyactr.vision.VisualLocation." + _f]))


@task(REG, "settings", ["pyactr.declarative.DecMemBuffer.finst", "pyactr.declarative.DecMemBuffer.__init__", "pyactr.vision.VisualLocation.finst", "pyactr.vision.VisualLocation.__init__", "pyactr.goals.Goal.delay", "pyactr.goals.Goal.__init__"])
def settings(E):
    dm = decmem(E)
    kind = E.choose(3, "setting")
    creation = E.choose(2, "at creation")
    v = integer(E, "value") if kind < 2 else real(E, "value")
    attr = "delay" if kind == 2 else "finst"
    make = [lambda *a: E.instantiate(cls(E, "pyactr.declarative.DecMemBuffer"), [dm, None] + list(a), {}),
            lambda *a: E.instantiate(cls(E, "pyactr.vision.VisualLocation"), [sym_env(E), dm] + list(a), {}),
            lambda *a: E.instantiate(cls(E, "pyactr.goals.Goal"), [None, dm] + list(a), {})][kind]
    old = None
    if creation:
        st, r = attempt(E, lambda: make(v))
        buf = r
    else:
        buf = make()
        old = integer(E, "old", 0)
        E.setattr(buf, attr, old)
        st, r = attempt(E, lambda: E.setattr(buf, attr, v))
    if st == "exc":
        E.prove("only a negative value is refused, as a ValueError", z3.And(v.t < 0, z3.BoolVal(is_exc(E, r, "ValueError"))))
        if old is not None:
            E.prove("the setting stays as it was", eqv(E, E.getattr(buf, attr), old))
    else:
        E.prove("a negative value is refused", v.t >= 0)
        E.prove("the value is set", eqv(E, E.getattr(buf, attr), v))


@task(REG, "default sizes", ["pyactr.vision.VisualLocation.__init__", "pyactr.declarative.DecMemBuffer.__init__"])
def defaults(E):
    dm = decmem(E)
    vl = visual(E, dm, loc=True)
    E.prove("recency lists start empty", len(E.to_list(E.getattr(vl, "recent"))) == 0 and len(E.to_list(E.getattr(retrieval(E, dm), "recent"))) == 0)
