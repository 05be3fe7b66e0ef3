"""C26 on real chunk and rule strings."""
from .chunkkit import *
from . import common
import pyactr

common.CASES.clear()
SLOTS = ["a", "b", "c", "isa", "ISA", "Isa", "isab", "value", "s_", "state"]
WORDS = ["one", "two", "7", "3.5", "x", "a_b", "n1", "free", "isa", "red", "Mary"]
CHUNKS = ["one", "Mary", "tt", "n1"]
TYPES = ["t26", "tt", "u26"]
QUOTED = ["", "one two", "=x", "~y", "Mary", "a'b", "don''t", "''", "==>", "x", "'q"]


def setup(rng):
    for t in list(chunks.Chunk._chunktypes):
        if t not in utilities.SPECIALCHUNKTYPES:
            chunks.Chunk._chunktypes.pop(t)
    chunks.Chunk._chunks.clear()
    chunks.chunktype("named26", ("v",))
    made = {}
    for n in rng.sample(CHUNKS, rng.nat(0, 3)):
        made[n] = chunks.makechunk(n, "named26", v=n + "x")
    return made


def written(rng, slots, refused=0.15):
    """-> list of (slot, text of the part, what it adds)"""
    out, seen = [], {}
    for s in slots:
        for _ in range(rng.choice([1, 1, 1, 2, 3, 4])):
            k = rng.choice(["plain", "plain", "=", "~", "~=", "quoted", "<", ">", "<=", ">="])
            w = rng.choice(WORDS)
            if k == "plain":
                add = ("val", w)
            elif k == "quoted":
                w = rng.choice(QUOTED)
                q = "'" if '"' in w else '"' if "'" in w else rng.choice("'\"")
                out.append((s, q + w + q, [("qval", w)]))
                continue
            elif k in ("=", "~", "~="):
                q = rng.choice(["", "", "'", '"'])
                if q and rng.random() < 0.15:
                    w = {"'": 'a"b"', '"': "'a'"}[q]
                out.append((s, k + q + w.replace(".", "") + q, [({"=": "var", "~": "nval", "~=": "nvar"}[k], w.replace(".", ""))]))
                continue
            elif k in ("<", ">"):
                out.append((s, k + w.replace(".", ""), [("qval", k + w.replace(".", ""))]))
                continue
            else:
                out.append((s, k + "v1", [("qval", k[0]), ("var", "v1")]))
                continue
            out.append((s, w, [add]))
    return out


def reading(parts, made):
    """SPECIFICATION: slot -> contents, or None where it is refused"""
    d = {}
    for s, _, adds in parts:
        e = d.setdefault(s, dict(val=[], var=[], nvals=set(), nvars=set()))
        for k, w in adds:
            if k == "val":
                x = made[w] if w in made and s not in ("isa", "ISA", "Isa") else w
                if not any(x is y or x == y for y in e["val"]):
                    e["val"].append(x)
            elif k == "qval":
                if not any(w == y for y in e["val"] if isinstance(y, str)):
                    e["val"].append(w)
            elif k == "var":
                if w not in e["var"]:
                    e["var"].append(w)
            else:
                e[k + "s"].add(w)
    return d, not any(len(e["val"]) > 1 or len(e["var"]) > 1 for e in d.values())


def draw(rng, isa=True):
    slots = rng.sample([s for s in SLOTS if s.lower() != "isa"], rng.nat(1, 4))
    parts = written(rng, slots)
    tname = None
    if isa and rng.random() < 0.7:
        tname = rng.choice(TYPES)
        q = rng.choice(["", "", "'", '"'])
        parts.append((rng.choice(["isa", "ISA", "Isa"]), q + tname + q, [("val", tname)]))
    rng.shuffle(parts)
    return parts, tname


def string_of(rng, parts):
    return rng.choice([" ", "  ", "\n", "\t "]).join("%s %s" % (s, t) for s, t, _ in parts)


def same(C, what, got, want):
    g = slots_of(got)
    used = {s: e for s, e in want.items() if s not in ("isa", "ISA", "Isa")}
    C.check(set(g) >= set(used), what + ": the slots", got=sorted(g), want=sorted(used))
    for s in g:
        e = used.get(s, dict(val=[], var=[], nvals=set(), nvars=set()))
        h = g[s]
        v = e["val"][0] if e["val"] else None
        if isinstance(v, chunks.Chunk):
            C.check(h["val"] is v or h["val"] == v, what + ": a named chunk stands for the chunk", slot=s, got=repr(h))
        else:
            C.check(not isinstance(h["val"], chunks.Chunk) and (h["val"] == v or (v is None and canon(h["val"]) is None)), what + ": the value", slot=s, got=repr(h), want=v)
        C.check((h["var"] or None) == (e["var"][0] if e["var"] else None), what + ": the variable", slot=s, got=repr(h), want=e["var"])
        C.check(sorted(map(str, h["nvals"])) == sorted(e["nvals"]), what + ": the negated values", slot=s, got=repr(h), want=e["nvals"])
        C.check(sorted(map(str, h["nvars"])) == sorted(e["nvars"]), what + ": the negated variables", slot=s, got=repr(h), want=e["nvars"])


@case
def chunk_strings(rng, C):
    made = setup(rng)
    parts, tname = draw(rng)
    text = string_of(rng, parts)
    C.note(string=text, named=sorted(made))
    want, ok = reading(parts, made)
    if not ok:
        C.raises(utilities.ACTRError, lambda: chunks.chunkstring("new", text), "several values or variables for a slot are refused")
        return
    if rng.random() < 0.1:
        C.raises(Exception, lambda: chunks.chunkstring("new", text + rng.choice([" =", " a ~", " ) b c"])), "a string that cannot be read to its end is refused")
        return
    counter = chunks.Chunk._undefinedchunktypecounter
    name = rng.choice(["new", "", "Mary"])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ch = chunks.chunkstring(name, text)
    except Exception as e:
        C.check(False, "a proper string is refused", error=repr(e))
        return
    C.check(ch.typename == (tname if tname else "undefined%d" % counter), "the type", got=ch.typename, want=tname)
    same(C, "the chunk", ch, want)
    C.check(chunks.Chunk._chunks.get(name or "unnamedchunk") is ch, "the chunk is known by its name")


COMPOSED = {"word": ("word", None, (), ()), "=x": (None, "x", (), ()), "=x~=y!two": ("two", "x", (), ("y",)), "=x~!one": (None, "x", ("one",), ()), "~=y~=z": (None, None, (), ("y", "z")),
            "!two": ("two", None, (), ()), "~!one~!two": (None, None, ("one", "two"), ()), "=x!one~!two~=y": ("one", "x", ("two",), ("y",)), "~=x=y": (None, "y", (), ("x",))}


@case
def made_chunks(rng, C):
    made = setup(rng)
    slots, want = {}, {}
    bad = False
    for s in rng.sample(["a", "b", "c", "d"], rng.nat(0, 4)):
        k = rng.nat(0, 4)
        if k == 0:
            slots[s], d = content(rng, ["one", "two"])
            if slots[s] is None:
                del slots[s]
                continue
            want[s] = dict(val=[d["val"]] if d["val"] else [], var=[d["var"]] if d["var"] else [], nvals=set(d["nvals"]), nvars=set(d["nvars"]))
            slots[s] = slots[s]._replace(negvalues=tuple(sorted(want[s]["nvals"])), negvariables=tuple(sorted(want[s]["nvars"])))
        elif k == 1 and made:
            slots[s] = rng.choice(list(made.values()))
            want[s] = dict(val=[slots[s]], var=[], nvals=set(), nvars=set())
        elif k == 2:
            slots[s] = rng.choice([3, 2.5, 0, -1])
            want[s] = dict(val=[str(slots[s])], var=[], nvals=set(), nvars=set())
        elif rng.random() < 0.1:
            slots[s], bad = rng.choice(["=x=y", "!one!two"]), True
        else:
            t = rng.choice(list(COMPOSED))
            v, x, n, k = COMPOSED[t]
            slots[s] = t
            want[s] = dict(val=[v] if v else [], var=[x] if x else [], nvals=set(n), nvars=set(k))
    tname, name = rng.choice(["", "t26"]), rng.choice(["", "nn"])
    C.note(type=tname, name=name, slots=repr(slots), named=sorted(made))
    if bad:
        C.raises(utilities.ACTRError, lambda: chunks.makechunk(name, tname, **slots), "an ill-formed text is refused")
        return
    counter = chunks.Chunk._undefinedchunktypecounter
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ch = chunks.makechunk(name, tname, **slots)
    except Exception as e:
        C.check(False, "proper slots are refused", error=repr(e))
        return
    C.check(ch.typename == (tname or "undefined%d" % counter), "the type", got=ch.typename)
    C.check(chunks.Chunk._undefinedchunktypecounter == counter + (not tname), "the number of undefined types")
    C.check(chunks.Chunk._chunks.get(name or "unnamedchunk") is ch, "the chunk is known by its name")
    C.check(set(slots_of(ch)) == set(want), "exactly the slots given", got=sorted(slots_of(ch)))
    same(C, "the chunk", ch, want)


@case
def rule_strings(rng, C):
    made = setup(rng)
    m = pyactr.ACTRModel()
    sides, text, ok = [], [], True
    for signs in ("=?", "?=+!~@*"):
        side = {}
        for b in rng.sample(["g", "imaginal", "retrieval", "manual", "g2"], rng.nat(1, 4)):
            sign = rng.choice(signs)
            if sign == "?":
                q = {s: rng.choice(WORDS) for s in rng.sample(["state", "buffer", "a"], rng.nat(1, 2))}
                side["?" + b] = ("query", q)
                text.append("?%s> %s" % (b, " ".join("%s %s" % x for x in q.items())))
            elif sign == "~":
                side["~" + b] = ("clear", None)
                text.append("~%s>" % b)
            elif sign == "!":
                side["!" + b] = ("execute", None)
                text.append("!%s> show one" % b)
            else:
                parts, tname = draw(rng) if rng.random() < 0.85 else ([], None)
                want, good = reading(parts, made)
                ok = ok and good
                side[sign + b] = ("chunk", (want, tname))
                text.append("%s%s> %s" % (sign, b, string_of(rng, parts)))
        sides.append(side)
        text.append("==>")
    text = "\n".join(text[:-1])
    C.note(rule=text, named=sorted(made))
    u, rw = rng.real(-5, 5), rng.choice([None, 3.0, 0])
    try:
        r = m.productionstring("rule", text, utility=u, reward=rw)
    except Exception as e:
        C.check(False, "a rule that can be read is refused", error=repr(e))
        return
    C.check(m.productions["rule"] is r or m.productions["rule"] == r, "the rule is stored under its name")
    C.check(r["utility"] == u and r["reward"] == rw and (r["reward"] is None) == (rw is None), "its utility and reward", got=repr((r["utility"], r["reward"])))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if not ok:
            C.raises(utilities.ACTRError, lambda: list(r["rule"]()), "several values or variables for a slot are refused")
            return
        try:
            out = list(r["rule"]())
        except Exception as e:
            C.check(False, "a proper rule is refused", error=repr(e))
            return
    C.check(len(out) == 2, "two sides")
    C.check({k: v for k, v in chunks.Chunk._chunks.items() if k != "unnamedchunk"} == made, "the chunks of a rule have no names", got=sorted(chunks.Chunk._chunks))
    for got, want in zip(out, sides):
        C.check(set(got) == set(want), "the entries of a side", got=sorted(got), want=sorted(want))
        for k, (kind, x) in want.items():
            if kind == "query":
                C.check(got[k] == x, "a query", got=repr(got[k]), want=x)
            elif kind == "clear":
                C.check(got[k] is None, "clearing", got=repr(got[k]))
            elif kind == "chunk":
                C.check(isinstance(got[k], chunks.Chunk), "a chunk", key=k)
                C.check(x[1] is None or got[k].typename == x[1], "the type of a chunk of the rule", key=k, got=got[k].typename)
                same(C, "the chunk of the rule", got[k], x[0])
