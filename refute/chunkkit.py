"""Random chunk contents with an independent reading of them (oracles for C01-C03, C06)."""
import keyword
import warnings
from pyactr import chunks, utilities
from .common import *

EMPTY = None


def content(rng, atoms, vars_=("x", "y"), pattern=True, neg=True):
    """-> (VarvalClass or None, dict) of one slot"""
    if rng.random() < 0.15:
        return None, dict(val=None, var=None, nvals=[], nvars=[])
    d = dict(val=None, var=None, nvals=[], nvars=[])
    if rng.random() < 0.6:
        d["val"] = rng.choice(atoms)
    if pattern and rng.random() < 0.45:
        d["var"] = rng.choice(vars_)
    if pattern and neg and rng.random() < 0.3:
        d["nvals"] = [rng.choice(atoms) for _ in range(rng.choice([1, 1, 2, 3]))]
    if pattern and neg and rng.random() < 0.3:
        d["nvars"] = [rng.choice(vars_) for _ in range(rng.choice([1, 1, 2]))]
    return utilities.VarvalClass(values=d["val"], variables=d["var"], negvalues=tuple(d["nvals"]), negvariables=tuple(d["nvars"])), d


def build(name, slots):
    """A chunk with the given (slot -> VarvalClass/None), in this order."""
    if name not in utilities.SPECIALCHUNKTYPES:
        chunks.Chunk._chunktypes.pop(name, None)
        chunks.chunktype(name, tuple(slots))
    kw = {s: v for s, v in slots.items() if v is not None}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return chunks.Chunk(name, **kw)


def canon(v):
    """Value of a slot as a comparable thing: None for the empty value."""
    if v is None or v == "None" or isinstance(v, chunks.Chunk.EmptyValue):
        return None
    if isinstance(v, chunks.Chunk):
        return ("chunk", key_of(v))
    return ("str", str(v))


def slots_of(ch):
    out = {}
    for f, y in zip(ch.actrchunk._fields, ch.actrchunk):
        s = f[:-1]
        if isinstance(y, utilities.VarvalClass):
            out[s] = dict(val=y.values, var=y.variables, nvals=list(y.negvalues or ()), nvars=list(y.negvariables or ()))
        else:
            out[s] = dict(val=None, var=None, nvals=[], nvars=[])
    return out


def key_of(ch):
    """What equality of chunks depends on."""
    bv = ch.boundvars
    ents = set()
    for s, d in slots_of(ch).items():
        if d["var"] is not None and d["var"] != "":
            if "=" + d["var"] in bv:
                ents.add((s, "values", canon(bv["=" + d["var"]])))
            else:
                ents.add((s, "variables", d["var"]))
        for y in d["nvars"]:
            if "=" + y in bv:
                ents.add((s, "negvalues", canon(bv["=" + y])))
            else:
                ents.add((s, "negvariables", y))
        if canon(d["val"]) is not None:
            ents.add((s, "values", canon(d["val"])))
        for v in d["nvals"]:
            ents.add((s, "negvalues", canon(v)))
    return frozenset(ents)


def raw(v):
    """bindings compare by ==; keep as canonical"""
    return canon(v)


def match_oracle(pat, oth, bv):
    """-> (matches, bindings after) by the statement of C01; bv: canonical bindings {"=x": c} / {"~=x": set}"""
    bv = {k: (set(v) if isinstance(v, set) else v) for k, v in bv.items()}
    o = slots_of(oth)
    viol = []
    for s, d in slots_of(pat).items():
        m = canon(o[s]["val"]) if s in o else None
        x = d["var"]
        if x:
            for e in bv.get("~=" + x, ()):
                if e == m:
                    viol.append((s, "excluded", e, m))
            if "=" + x in bv:
                if bv["=" + x] != m:
                    viol.append((s, "binding", bv["=" + x], m))
            else:
                bv["=" + x] = m
        for y in d["nvars"]:
            if "=" + y in bv and bv["=" + y] == m:
                viol.append((s, "negbinding", bv["=" + y], m))
            bv.setdefault("~=" + y, set()).add(m)
        if d["val"] is not None and d["val"] != "" and canon(d["val"]) != m and canon(d["val"]) is not None:
            viol.append((s, "value", canon(d["val"]), m))
        elif isinstance(d["val"], str) and d["val"] == "None" and m is not None:
            viol.append((s, "value", None, m))
        for v in d["nvals"]:
            if canon(v) == m:
                viol.append((s, "negvalue", canon(v), m))
    return viol, bv


def canon_bv(bv):
    return {k: ({canon(e) for e in v} if k.startswith("~") else canon(v)) for k, v in bv.items()}


def atoms(rng):
    a = ["u", "v", "None"]
    if rng.random() < 0.3:
        a.append(rng.word(0.6))
    if rng.random() < 0.5:
        a.append(build("atomA", {"p": utilities.VarvalClass(values="u", variables=None, negvalues=(), negvariables=())}))
        a.append(build("atomB", {"p": utilities.VarvalClass(values="u", variables=None, negvalues=(), negvariables=()), "q": None}))
        a.append(build("atomC", {"p": utilities.VarvalClass(values="v", variables=None, negvalues=(), negvariables=())}))
    if rng.random() < 0.15:
        a.append(build("atomD", {}))
    return a


def pair(rng):
    """A pattern, a chunk, and bindings to start with."""
    at = atoms(rng)
    names = ["a", "b", "c", "d"]
    if rng.random() < 0.2:
        names += [n for n in sorted({rng.word(0.5) for _ in range(8)} - {"isa", "ISA", "Isa"}) if n.isidentifier() and not keyword.iskeyword(n) and not n.startswith("_")]
    big = len(names) if rng.random() < 0.4 else 4
    ps = rng.sample(names, min(len(names), rng.nat(1, big)))
    os_ = rng.sample(names, min(len(names), rng.nat(1, big)))
    if rng.random() < 0.3:
        os_ = list(ps)
        rng.shuffle(os_)
    pat = build("patt", {s: content(rng, at)[0] for s in ps})
    oth = build("othr", {s: content(rng, at, pattern=rng.random() < 0.1)[0] for s in os_})
    bv = {}
    for x in ("x", "y"):
        if rng.random() < 0.35:
            v = rng.choice(at)
            bv["=" + x] = v if v != "None" else chunks.Chunk.EmptyValue()
        if rng.random() < 0.3:
            bv["~=" + x] = {v if v != "None" else chunks.Chunk.EmptyValue() for v in rng.sample(at, rng.randint(0, 2))}
    pat.boundvars = dict(bv)
    return pat, oth, bv
