"""C09 on real memories: spreading activation along random histories against a direct count."""
import copy
import math
import warnings
import numpy as np
from .chunkkit import *
from . import common

common.CASES.clear()
from pyactr import buffers, chunks, declarative, goals, utilities

warnings.simplefilter("ignore")
SLOTS = ["a", "b", "c", "d_"]


def content_of(v):
    return utilities.VarvalClass(values=v, variables=None, negvalues=(), negvariables=()) if v is not None else None


def slots(ch):
    """slot -> value held (None if it holds none)"""
    out = {}
    for f, x in zip(ch.actrchunk._fields, ch.actrchunk):
        v = getattr(x, "values", None)
        if v is not None and not (isinstance(v, str) and v == "None") and not isinstance(v, chunks.Chunk.EmptyValue):
            out[f[:-1]] = v
    return out


def sources(ch, only):
    return {s: v for s, v in slots(ch).items() if not only or isinstance(v, chunks.Chunk)}


def eq(a, b):
    return isinstance(a, chunks.Chunk) == isinstance(b, chunks.Chunk) and a == b


def fan(mem, v, slot=None):
    return 1 + sum(1 for c in mem for s, w in slots(c).items() if eq(w, v) and (slot is None or s == slot))


def strength(mem, v, ch, S, slot, only):
    src = sources(ch, only)
    n = sum(1 for w in src.values() if eq(w, v))
    if slot is not None:
        if not (slot in src and eq(src[slot], v)):
            return 0
    elif not n and not eq(v, ch):
        return 0
    return S - math.log(fan(mem, v, slot) / max(1, n))


def spreading(mem, ch, bufs, weights, S, restricted, only):
    r = 0
    for b, w in weights.items():
        held = list(bufs[b])
        if not held:
            continue
        src = sources(held[0], only)
        if src:
            r += w / len(src) * sum(strength(mem, v, ch, S, s if restricted else None, only) for s, v in src.items())
    return r


@case
def history(rng, C):
    leaf = [build("leafa", {"z": content_of("1")}), build("leafa", {"z": content_of("2")}), build("leafb", {}), build("leafc", {"z": content_of("1"), "y": content_of("x")})]
    atoms_ = leaf + ["x", "y", "1", "None"]

    def mk(k=None):
        d = {}
        for s in rng.sample(SLOTS, rng.randint(0, 4)):
            v = rng.choice(atoms_ + leaf)
            if rng.random() < 0.1:
                continue
            d[s] = content_of(v)
        return build(rng.choice(["memx", "memy"]), d)
    pool = [mk() for _ in range(rng.choice([2, 4, 7]))] + leaf[:2] + leaf[2:3]
    pool += [mk() for _ in range(2)]
    if rng.random() < 0.5:
        top = build("topc", {"a": content_of(rng.choice(pool)), "b": content_of(rng.choice(pool))})
        pool.append(top)
    dm = declarative.DecMem({c: 0 for c in rng.sample(pool, rng.nat(0, len(pool)))}) if rng.random() < 0.5 else declarative.DecMem(rng.sample(pool, rng.nat(0, 3)))
    bufs = {"g": goals.Goal(None, dm), "h": goals.Goal(None, dm), "retrieval": declarative.DecMemBuffer(dm)}
    log = []
    mems = [dm]
    for step in range(rng.nat(2, 9)):
        dm = rng.choice(mems)
        op = rng.choice(["add", "set", "addlist", "del", "pop", "copy", "bad", "ask", "ask", "ask", "clear", "update", "buffer"])
        c = rng.choice(pool)
        log.append((op, str(c)))
        if op == "add":
            dm.add(c, rng.choice([step, [0.5, float(step)]]))
        elif op == "addlist":
            dm.add(rng.sample(pool, 2), step)
        elif op == "set":
            dm[c] = rng.choice([step, np.array([1.0]), [1.0]])
        elif op == "update":
            dm.update({c: step, rng.choice(pool): 1})
        elif op == "del" and c in dm:
            del dm[c]
        elif op == "pop":
            dm.pop(c, None)
        elif op == "copy" and len(mems) < 3:
            mems.append(dm.copy())
        elif op == "clear" and rng.random() < 0.2:
            dm.clear()
        elif op == "buffer":
            b = bufs["g"]
            b.dm = dm
            b.add(c, step)
            b.clear(step)
        elif op == "bad":
            try:
                k = rng.choice([c, "ab", ((rng.choice(SLOTS), content_of(rng.choice(leaf))),), (("a", content_of("x")),)])
                dm[k] = "soon" if isinstance(k, chunks.Chunk) else 1
            except (utilities.ACTRError, ValueError, TypeError):
                pass
        elif op == "ask":
            for b in bufs.values():
                b._data.clear()
                if rng.random() < 0.7:
                    b._data.add(rng.choice(pool + [mk()]))
            weights = {n: rng.choice([0, 1, rng.real(0.1, 3)]) for n in rng.sample(sorted(bufs), rng.nat(0, 3))}
            S, restricted, only = rng.real(0, 4), rng.random() < 0.5, rng.random() < 0.5
            x = rng.choice(pool + list(dm))
            C.note(history=log, memory=[str(z) for z in dm], buffers={n: [str(z) for z in b] for n, b in bufs.items()}, weights=weights, S=S, restricted=restricted, only_chunks=only, chunk=str(x))
            got = utilities.spreading_activation(x, bufs, dm, weights, S, restricted, only)
            want = spreading(list(dm), x, bufs, weights, S, restricted, only)
            C.check(close(got, want), "spreading activation", got=got, expected=want)
    for dm in mems:
        for v in leaf + ["x", "y"]:
            if v in dm.unrestricted_number_chunks:
                C.check(dm.unrestricted_number_chunks[v] == fan(list(dm), v), "number of slots that hold a value", value=str(v), got=dm.unrestricted_number_chunks[v], expected=fan(list(dm), v), history=log)
            for s in SLOTS:
                if (s, v) in dm.restricted_number_chunks:
                    C.check(dm.restricted_number_chunks[(s, v)] == fan(list(dm), v, s), "number of slots of that name that hold a value", value=str(v), slot=s, got=dm.restricted_number_chunks[(s, v)], expected=fan(list(dm), v, s), history=log)


@case
def parts(rng, C):
    """the parts on their own"""
    leaf = [build("leafa", {"z": content_of("1")}), build("leafb", {}), "x", "None", None]
    ch = build("memz", {s: content_of(rng.choice(leaf)) for s in rng.sample(SLOTS, rng.randint(0, 4))})
    only = rng.random() < 0.5
    w = rng.real(0, 5)
    C.note(chunk=str(ch), only=only, weight=w)
    src = sources(ch, only)
    got = utilities.find_chunks(ch, only)
    C.check(set(got) == set(src) and all(eq(got[s], src[s]) for s in src), "sources of a chunk", got={k: str(v) for k, v in got.items()}, expected={k: str(v) for k, v in src.items()})
    g = utilities.weigh_buffer(ch, w, only)
    C.check(close(g, w / len(src) if src else 0), "weight divided by the number of sources", got=g)
