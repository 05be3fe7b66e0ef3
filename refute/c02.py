"""C02 on real chunks."""
from pyactr import declarative
from .chunkkit import *
from .c01 import copybv
from . import common
common.CASES.clear()


def has_none(ch):
    return any("None" in (d["val"], *d["nvals"]) for d in slots_of(ch).values()) or any("None" in (v if isinstance(v, set) else [v]) for v in ch.boundvars.values())


def variant(rng, C, ch):
    """A chunk written differently, sometimes with one detail changed."""
    slots = [(f[:-1], y if isinstance(y, utilities.VarvalClass) else None) for f, y in zip(ch.actrchunk._fields, ch.actrchunk)]
    rng.shuffle(slots)
    out = []
    for s, y in slots:
        if y is not None:
            d = y._asdict()
            nv, ng = list(d["negvariables"]), list(d["negvalues"])
            rng.shuffle(nv), rng.shuffle(ng)
            if ng and rng.random() < 0.2:
                ng.append(rng.choice(ng))
            if nv and rng.random() < 0.2:
                nv.append(rng.choice(nv))
            d["negvariables"], d["negvalues"] = tuple(nv), tuple(ng)
            if rng.random() < 0.06:
                k = rng.choice(list(d))
                d[k] = rng.choice(["u", "x", None]) if k in ("values", "variables") else rng.choice([("u",), ("x", "y"), ()])
            x = d["variables"]
            if x and "=" + x in ch.boundvars and d["values"] is None and rng.random() < 0.5:
                v = ch.boundvars["=" + x]
                if not isinstance(v, chunks.Chunk.EmptyValue):      # the bound value written instead of the variable
                    d["variables"], d["values"] = None, v
            y = utilities.VarvalClass(**d)
        out.append((s, y))
    extra = [s for s in ("e", "f") if s not in dict(out)]
    if extra and rng.random() < 0.3:
        out.insert(rng.nat(0, len(out)), (rng.choice(extra), rng.choice([None, utilities.VarvalClass(values=rng.choice([None, "None"]), variables=None, negvalues=(), negvariables=())])))
    if len(out) > 1 and rng.random() < 0.1:
        out.pop()
    o = build(rng.choice(["patt2", "othr2"]), dict(out))
    o.boundvars = copybv(ch.boundvars)
    return o


@case
def equality(rng, C):
    a, o, bv = pair(rng)
    c = variant(rng, C, a) if rng.random() < 0.8 else o
    if has_none(a) or has_none(o):
        raise Skip
    if c is o:
        c.boundvars = {}
    C.note(a=repr(slots_of(a)), b=repr(slots_of(c)), a_bindings=repr(a.boundvars), b_bindings=repr(c.boundvars))
    for step in range(rng.nat(1, 4)):
        want = key_of(a) == key_of(c)
        C.check((a == c) == want and (c == a) == want, "the chunks are %s" % ("unequal" if want else "equal"), step=step)
        if want:
            C.check(hash(a) == hash(c), "equal chunks have different hashes", step=step)
        C.check((a in {c}) == want, "set membership disagrees with equality", step=step)
        if rng.random() < 0.2:
            m = declarative.DecMem()
            m.add(c, 0.0)
            C.check((a in m) == want, "membership in a declarative memory disagrees with equality", step=step)
        C.check(a == a and hash(a) == hash(a), "a chunk is not equal to itself", step=step)
        x = rng.choice([a, c])          # bindings change: compared by the new ones
        k = rng.choice(["=x", "=y"])
        r = rng.random()
        if r < 0.3 and k in x.boundvars:
            del x.boundvars[k]
        elif r < 0.5:
            x.boundvars = {}
        else:
            x.boundvars[k] = rng.choice([v for v in atoms(rng) if v != "None"])
        C.note(**{"change%d" % step: repr((x is a, x.boundvars))})
