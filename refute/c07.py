"""C07 on real declarative memories: random histories against a plain record."""
import numpy as np
from .chunkkit import *
from . import common
common.CASES.clear()
from pyactr import chunks, declarative, utilities


def some(rng):
    tn = rng.choice(["dm_a", "dm_b", "dm_c"])
    return chunks.makechunk("", tn, **{s: rng.choice("uvw") for s in rng.sample("abc", rng.randint(1, 3))})


def times(rng):
    """-> argument, presentations recorded"""
    k = rng.random()
    if k < .55:
        t = rng.choice([rng.real(0, 20), rng.nat(0, 9), rng.real(0, 5) + 0.00003, rng.real(0, 1e5)])
        return t, [round(float(t), 4)]
    ts = [rng.choice([rng.real(0, 10), rng.nat(0, 9)]) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, rng.nat(2, 120)]))]
    if rng.random() < .2 and ts:
        ts[-1] = ts[0]
    return rng.choice([list, tuple, np.array])(ts), [float(x) for x in ts]


def agree(C, dm, rec, act, what):
    C.check(set(dm) == set(rec) and len(dm) == len(rec), what + ": chunks stored", got=list(dm), expected=list(rec))
    for c, ts in rec.items():
        got = [float(x) for x in dm[c]]
        C.check(len(got) == len(ts) and all(close(a, b) for a, b in zip(got, ts)), what + ": presentations", chunk=c, got=got, expected=ts)
        C.check(c in dm, what + ": membership")
    C.check(dict(dm.activations) == act, what + ": base activations", got=dict(dm.activations), expected=act)


@case
def history(rng, C):
    pool = [some(rng) for _ in range(rng.choice([2, 3, 6]))]
    mems = [(declarative.DecMem(), {}, {})]
    if rng.random() < .5:
        k = rng.random()
        cs = [some(rng) for _ in range(rng.randint(1, 3))]
        if k < .5:
            dm = declarative.DecMem(rng.choice([list, tuple, set])(cs))
            rec = {c: [0.0] for c in cs}
        else:
            rec = {c: [float(rng.nat(0, 9))] for c in cs}
            dm = declarative.DecMem({c: t[0] for c, t in rec.items()})
        mems = [(dm, rec, {})]
        C.note(data=cs)
    log = []
    C.note(history=log)
    for _ in range(rng.choice([1, 3, 6, 12])):
        i = rng.randrange(len(mems))
        dm, rec, act = mems[i]
        op = rng.random()
        fresh = lambda: some(rng) if rng.random() < .3 else chunks.makechunk("", rng.choice(pool).typename, **{k: v for k, v in rng.choice(pool)}) if False else rng.choice(pool)
        if op < .4:
            c = fresh()
            arg, ts = times(rng)
            log.append((i, "add", c, arg))
            dm.add(c, arg)
            rec.setdefault(c, []).extend(ts)
        elif op < .6:
            cs = [fresh() for _ in range(rng.choice([0, 1, 2, 3]))]
            f = rng.choice([list, tuple, set, frozenset, iter])
            if f in (set, frozenset):
                cs = list(set(cs))
            arg, ts = times(rng)
            log.append((i, "add " + f.__name__, cs, arg))
            dm.add(f(cs), arg)
            for c in cs:
                rec.setdefault(c, []).extend(ts)
        elif op < .68:
            c = fresh()
            arg, ts = times(rng)
            log.append((i, "assign", c, arg))
            dm[c] = arg
            rec[c] = list(ts)
        elif op < .75:
            c = fresh()
            log.append((i, "delete", c))
            if c in rec:
                del dm[c]
                del rec[c]
            else:
                C.raises(KeyError, lambda: dm.__delitem__(c), "an unknown chunk cannot be deleted")
        elif op < .85:
            c, v = fresh(), rng.choice([0, 0.0, rng.real(-3, 3)])
            log.append((i, "activation", c, v))
            if c in rec:
                dm.add_activation(c, v)
                act[c] = v
            else:
                C.raises(AttributeError, lambda: dm.add_activation(c, v), "the base activation of a chunk that is not stored is refused")
        elif op < .93:
            log.append((i, "copy"))
            n = dm.copy()
            mems.append((n, {c: list(t) for c, t in rec.items()}, dict(act)))
        else:
            x = rng.choice([5, None, "word", 1.5, ("a", "b"), [1, 2], [("a", "b")]])
            log.append((i, "add", x))
            C.raises(utilities.ACTRError, lambda: dm.add(x, 1), "only chunks can be stored")
            C.raises((utilities.ACTRError, TypeError), lambda: dm.__setitem__(x, 1), "only chunks can be stored")
        for j, (d, r, a) in enumerate(mems):
            agree(C, d, r, a, "memory %d" % j)
