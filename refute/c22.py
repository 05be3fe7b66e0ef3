"""C22 on real declarations and chunks."""
from .chunkkit import *
from . import common

common.CASES.clear()
NAMES = ["a", "b", "color", "value", "isab", "Isa2", "x1", "cmd", "k_", "sub_slot"]
BUILTIN = {"_manual": "cmd, key", "_visual": "cmd, value, color, screen_pos", "_visuallocation": "screen_x, screen_y, color, value"}
TYPES = ["t0", "t1", "t2", "t3"]


def reset():
    for t in list(chunks.Chunk._chunktypes):
        if t not in BUILTIN:
            chunks.Chunk._chunktypes.pop(t)


def fields(t):
    return [f[:-1] for f in chunks.Chunk._chunktypes[t]._fields]


@case
def declaration(rng, C):
    reset()
    known = {}
    for step in range(rng.nat(1, 4)):
        t = rng.choice(TYPES + (["_manual", "_visual"] if rng.random() < 0.2 else []))
        names = rng.sample(NAMES, rng.nat(0, 4))
        if rng.random() < 0.12:
            names.insert(rng.nat(0, len(names)), rng.choice(["isa", "ISA"]))
        form = rng.choice(["list", "tuple", "string", "commas", "mixed"])
        if t in BUILTIN and rng.random() < 0.5:
            decl, names = BUILTIN[t], BUILTIN[t].replace(",", " ").split()
        else:
            decl = {"list": list(names), "tuple": tuple(names), "string": " ".join(names), "commas": ", ".join(names), "mixed": ",".join(names[:2]) + (" , " if names[2:] else "") + " ".join(names[2:])}[form]
        cand = sorted(set(list(known) + (["nosuch"] if rng.random() < 0.2 else []) + (["_visual"] if rng.random() < 0.2 else [])))
        parents = rng.sample(cand, rng.nat(0, min(3, len(cand)))) if rng.random() < 0.6 else []
        kw = {}
        if parents or rng.random() < 0.2:
            kw["include"] = parents[0] if len(parents) == 1 and rng.random() < 0.5 else rng.choice([list, tuple])(parents)
        if rng.random() < 0.25:
            kw["defaults"] = rng.choice([None, ["x"], ["x"] * 9])
        C.note(type=t, declared=decl, include=kw.get("include"), defaults=kw.get("defaults"), known=known)
        before = {k: fields(k) for k in chunks.Chunk._chunktypes}
        bad = "isa" in names or "ISA" in names or "nosuch" in parents or (t in BUILTIN and (decl != BUILTIN[t] or parents))
        if bad:
            C.raises(utilities.ACTRError, lambda: chunks.chunktype(t, decl, **kw), "an isa slot, an unknown parent or a redefinition of a built-in type is refused")
            C.check({k: fields(k) for k in chunks.Chunk._chunktypes} == before, "a refused declaration changed the types")
            continue
        try:
            chunks.chunktype(t, decl, **kw)
        except Exception as e:
            C.check(False, "a proper declaration is refused", error=repr(e))
            continue
        want = set(names)
        for p in parents:
            want |= set(before[p])
        C.check(sorted(fields(t)) == sorted(want), "the slots of the type", got=fields(t), want=sorted(want))
        C.check({k: v for k, v in before.items() if k != t} == {k: fields(k) for k in chunks.Chunk._chunktypes if k != t}, "another type is changed")
        known[t] = sorted(want)
    reset()


COMPOSED = {}
for _v in (None, "red"):
    for _x in (None, "x"):
        for _n in ((), ("n",), ("n", "m2")):
            for _k in ((), ("k",), ("k", "q3")):
                _t = ("!" + _v if _v else "") + ("=" + _x if _x else "") + "".join("~!" + w for w in _n) + "".join("~=" + w for w in _k)
                if _t and not (_v and not (_x or _n or _k)):
                    COMPOSED[_t] = (_v, _x, _n, _k)


def written(v):
    """(value, variable, negvalues, negvariables) of what is given for a slot"""
    if isinstance(v, utilities.VarvalClass):
        return v.values, v.variables, tuple(v.negvalues), tuple(v.negvariables)
    if isinstance(v, chunks.Chunk):
        return v, None, (), ()
    s = str(v)
    if s in COMPOSED:
        return COMPOSED[s]
    return {"=": lambda: (None, s[1:], (), ()), "~": lambda: (None, None, (), (s[2:],)) if s[1:2] == "=" else (None, None, (s[2:],), ())}.get(s[:1], lambda: (s, None, (), ()))()


@case
def slots(rng, C):
    reset()
    declared = None
    t = rng.choice(["t0", "_visual", "_manual"]) if rng.random() < 0.3 else "t0"
    if t == "t0" and rng.random() < 0.7:
        declared = rng.sample(NAMES, rng.nat(0, 4))
        chunks.chunktype(t, declared)
    elif t in BUILTIN:
        declared = BUILTIN[t].replace(",", " ").split()
    inner = build("inner22", {"z": utilities.VarvalClass(values="1", variables=None, negvalues=(), negvariables=())})
    pool = (NAMES if t not in BUILTIN else NAMES[:2]) if rng.random() < 0.5 else []
    given = {}
    for s in rng.sample(list(set(pool) | set(declared or [])), rng.nat(0, min(4, len(set(pool) | set(declared or []))))):
        given[s] = rng.choice([rng.choice(["u", "w w", 3, 0, 2.5, None, "=x", "~=x", "~!3", "", "None"]), rng.choice(sorted(COMPOSED)), inner,
                               utilities.VarvalClass(values=rng.choice([None, "v", inner]), variables=rng.choice([None, "y"]), negvalues=rng.choice([(), ("n", "m")]), negvariables=rng.choice([(), ("k",)]))])
    C.note(type=t, declared=declared, given={k: str(v) for k, v in given.items()})
    old = fields(t) if declared is not None else []
    kw = dict(given)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if t in BUILTIN and set(given) - set(declared):
            try:
                ch = chunks.Chunk(t, **kw)
                C.check(False, "a further slot of a built-in type is refused")
            except Exception:
                C.check(fields(t) == old, "the built-in type is changed")
            return
        ch = chunks.Chunk(t, **kw)
    got = dict(zip([f[:-1] for f in ch.actrchunk._fields], ch.actrchunk))
    want = set(old) | set(given)
    C.check(sorted(got) == sorted(want) and len(ch.actrchunk) == len(want), "one content for every slot of the type", got=sorted(got), want=sorted(want))
    C.check(sorted(fields(t)) == sorted(want), "the type has the slots given and those it had", got=fields(t), want=sorted(want))
    for s, y in got.items():
        if s not in given:
            C.check(isinstance(y, chunks.Chunk.EmptyValue) or y is None, "a slot not given is empty", slot=s, got=str(y))
        else:
            w = written(given[s])
            g = (y.values, y.variables, tuple(y.negvalues), tuple(y.negvariables))
            g, w = g[:2] + (sorted(g[2]), sorted(g[3])), w[:2] + (sorted(w[2]), sorted(w[3]))
            C.check(g == w or (g[0] is w[0] and g[1:] == w[1:]), "a slot given has the content given", slot=s, got=str(g), want=str(w))
    C.check(ch.boundvars == {}, "a new chunk has bound variables")
    # the same chunk again, and a second one: the type does not lose slots
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        chunks.Chunk(t)
    C.check(sorted(fields(t)) == sorted(want), "the type lost slots", got=fields(t))
    reset()
