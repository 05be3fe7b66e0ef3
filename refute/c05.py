"""C05 on real buffers."""
from .chunkkit import *
from .c06 import bindings, resolve, MARK
from . import common
common.CASES.clear()
from pyactr import buffers, goals, declarative, vision, environment


@case
def modify(rng, C):
    at = atoms(rng)
    bv = bindings(rng, at)
    names = ["a", "b", "c", "d", "e", "f"]
    if rng.random() < 0.2:
        names += ["n%d" % i for i in range(20)]
    olds = {s: content(rng, at, pattern=rng.random() < 0.2)[0] for s in rng.sample(names, rng.randint(1, len(names)))}
    mods, ds = {}, {}
    for s in rng.sample(names, rng.randint(1, len(names))):
        v, d = content(rng, at, vars_=("x", "y", "z"), neg=rng.random() < 0.05)
        if d["val"] is None and d["var"] and rng.random() < 0.3:
            d["val"] = ""
            v = v._replace(values="")
        mods[s], ds[s] = v, d
    tn = "modtype" if rng.random() < 0.5 else "oldtype"
    old = build("oldtype", olds)
    if tn == "oldtype":
        chunks.Chunk._chunktypes.pop("oldtype", None)
    o = build(tn, mods)
    dm = declarative.DecMem()
    env = environment.Environment(focus_position=(0, 0))
    kind = rng.choice(["goal", "retrieval", "visual", "visloc"])
    g = dict(goal=lambda: goals.Goal(None, dm), retrieval=lambda: declarative.DecMemBuffer(dm), visual=lambda: vision.Visual(env, dm), visloc=lambda: vision.VisualLocation(env, dm, rng.randint(0, 3)))[kind]()
    g._data = {old}
    C.note(kind=kind, old=repr(slots_of(old)), modification=repr(slots_of(o)), bindings=repr(bv))
    before = repr(slots_of(old)), old.typename, repr(old.boundvars), repr(sorted(slots_of(o).items())), repr(o.boundvars)
    want = {s: resolve(d, bv, False) for s, d in ds.items()}
    args = [o] + ([None if rng.random() < 0.5 else {"text": "t"}] if kind == "visloc" else []) + [bv]
    if "error" in want.values():
        C.raises(utilities.ACTRError, lambda: g.modify(*args), "a modification that cannot be resolved is not an ACTRError")
    else:
        g.modify(*args)
        items = list(g)
        C.check(len(items) == 1, "the buffer holds %d chunks" % len(items))
        c = items[0]
        exp = {s: (dict(d, val=canon(d["val"]))) for s, d in slots_of(old).items()}
        for s, d in ds.items():
            w = want[s]
            if d["val"] is None and not d["var"]:
                exp.setdefault(s, dict(val=None, var=None, nvals=[], nvars=[]))
            else:
                exp[s] = dict(val=w[0], var=None, nvals=[], nvars=[])
        got = {s: dict(d, val=canon(d["val"])) for s, d in slots_of(c).items()}
        for s in exp:
            C.check(s in got, "slot %s is missing afterwards" % s, after=repr(got))
            C.check(repr(got[s]) == repr(exp[s]), "slot %s is %r afterwards" % (s, got[s]), want=repr(exp[s]))
        C.check(all(s in exp or got[s]["val"] is None for s in got), "there are further slots", after=repr(got))
        C.check(c is not old, "the old chunk object was altered in place")
    C.check((repr(slots_of(old)), old.typename, repr(old.boundvars), repr(sorted(slots_of(o).items())), repr(o.boundvars)) == before, "the old chunk or the modification was altered")
    C.check(not dm, "something was harvested")
