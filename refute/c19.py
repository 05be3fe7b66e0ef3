"""C19 on real screens."""
import math
from .modelkit import *

WORDS = ("lowest", "highest", "closest", "onewayclosest")


def rand_screen(rng, wide):
    out = {}
    for k in range(rng.nat(0, 6)):
        lim = 400 if wide else 4
        pos = (rng.randint(0, lim), rng.randint(0, lim))
        if rng.random() < 0.15:
            pos = (pos[0] + 0.75, pos[1] + 0.25)
        s = {"text": rng.choice(["A", "B", "A", "B", "AB", "a"]), "position": pos}
        if rng.random() < 0.25:
            s.update(color=rng.choice(["red", "blue"]), externally_visible=["color"])
        if rng.random() < 0.2:
            s["vis_delay"] = rng.choice([1, 5])
        out[rng.choice(["s%d", "t%d"]) % k] = s
    return out


def rand_coord(rng, lim):
    kind = rng.choice(["none", "none", "exact", "<", ">"] + list(WORDS))
    n = rng.randint(0, lim)
    return {"none": (None, None), "exact": ("exact", n), "<": ("<", n), ">": (">", n)}.get(kind, (kind, None))


def written(c):
    kind, n = c
    return None if kind is None else str(n) if kind == "exact" else kind + str(n) if kind in "<>" else kind


def fits(kind, n, v):
    return v == n if kind == "exact" else v < n if kind == "<" else v > n if kind == ">" else True


def ipos(s):
    return int(s["position"][0]), int(s["position"][1])


def costs(cx, cy, s, focus):
    x, y = ipos(s)
    out = []
    for kind, v, f in ((cx[0], x, focus[0]), (cy[0], y, focus[1])):
        if kind == "lowest":
            out.append(v)
        elif kind == "highest":
            out.append(-v)
        elif kind == "closest":
            out.append(math.hypot(x - focus[0], y - focus[1]))
        elif kind == "onewayclosest":
            out.append(abs(v - f))
    return out


def better(a, b):
    return all(x <= y + 1e-12 for x, y in zip(a, b)) and any(x < y - 1e-9 for x, y in zip(a, b))


def slots(ch):
    return {f[:-1]: (y.values if isinstance(y, utilities.VarvalClass) else None) for f, y in zip(ch.actrchunk._fields, ch.actrchunk)}


@case
def search(rng, C):
    wide = rng.random() < 0.4
    lim = 400 if wide else 4
    focus = (rng.randint(0, lim), rng.randint(0, lim))
    env = environment.Environment(focus_position=focus)
    env.stimulus = screen = rand_screen(rng, wide)
    vl = vision.VisualLocation(env, declarative.DecMem())
    vl.finst = finst = rng.choice([1, 2, 4])
    for s in rng.sample(list(screen.values()), min(len(screen), rng.nat(0, finst))):
        vl.recent.append(s)
    rec = list(vl.recent)
    cx, cy = rand_coord(rng, lim), rand_coord(rng, lim)
    text = rng.choice([None, None, "A", "B", "AB"])
    color = rng.choice([None, None, "red"])
    req, bv = {}, {}
    for nm, v in (("screen_x", written(cx)), ("screen_y", written(cy)), ("value", text), ("color", color)):
        if v is None:
            continue
        if rng.random() < 0.2 and not v[:1] in "<>":
            bv["=" + nm[-1] + "v"] = v
            v = "=" + nm[-1] + "v"
        req[nm] = v
    att = rng.choice([None, None, False, "False", True, "True"])
    o = mk("_visuallocation", **req)
    C.note(screen=screen, request=req, bindings=bv, focus=focus, attended=att, remembered=rec)
    kw = {} if att is None and rng.random() < 0.5 else {"extra_tests": {} if att is None else {"attended": att}}
    found, stim = vl.find(o, actrvariables=dict(bv) if bv or rng.random() < 0.5 else None, **kw)

    def sat(s):
        x, y = ipos(s)
        ok = fits(*cx, x) and fits(*cy, y) and (text is None or s["text"] == text)
        ok = ok and (s.get("color") if "color" in s.get("externally_visible", ()) else None) in (None, color)
        if att is not None:
            ok = ok and ((s in rec) == (att in (True, "True")))
        return ok
    ok = [s for s in screen.values() if sat(s)]
    C.check(list(vl.recent) == rec, "searching changed what is remembered")
    if not ok:
        C.check(found is None and stim is None, "something is returned though nothing satisfies the request", got=str(found))
        return
    C.check(found is not None and stim is not None, "nothing is returned though a stimulus satisfies the request", satisfying=ok)
    C.check(any(stim is s for s in screen.values()), "the stimulus returned is not on the screen", got=stim)
    C.check(any(stim is s for s in ok), "the stimulus returned does not satisfy the request", got=stim)
    d = slots(found)
    C.check((str(d.get("screen_x")), str(d.get("screen_y"))) == tuple(map(str, ipos(stim))), "the location is not that of the stimulus", got=d, stimulus=stim)
    c = costs(cx, cy, stim, focus)
    for s in ok:
        C.check(not better(costs(cx, cy, s, focus), c), "another satisfying stimulus is lower, higher or closer", got=stim, other=s)
    vl.add(found, stim)
    C.check(vl.recent[-1] is stim and len(vl.recent) <= finst, "the stimulus remembered", got=list(vl.recent))


@case
def automatic(rng, C):
    lim = rng.choice([4, 400])
    focus = (rng.randint(0, lim), rng.randint(0, lim))
    env = environment.Environment(focus_position=focus)
    stims = list(rand_screen(rng, lim == 400).values())
    vl = vision.VisualLocation(env, declarative.DecMem())
    for s in rng.sample(stims, min(len(stims), rng.nat(0, 3))):
        vl.recent.append(s)
    rec = list(vl.recent)
    C.note(stimuli=stims, remembered=rec, focus=focus)
    found, stim = vl.automatic_search(stims)
    ok = [s for s in stims if s not in rec]
    if not ok:
        C.check(found is None and stim is None, "something is found though everything was attended")
        return
    C.check(any(stim is s for s in ok), "the stimulus found", got=stim)
    dist = lambda s: math.hypot(s["position"][0] - focus[0], s["position"][1] - focus[1])
    C.check(all(dist(stim) <= dist(s) + 1e-9 for s in ok), "a closer stimulus was not found", got=stim)
    d = slots(found)
    C.check((str(d.get("screen_x")), str(d.get("screen_y"))) == tuple(map(str, ipos(stim))), "the location is not that of the stimulus", got=d)


@case
def distances(rng, C):
    a, b_ = [rng.real(-5, 400), rng.randint(0, 300)], [rng.randint(0, 300), rng.real(-5, 400)]
    C.note(a=a, b=b_)
    w = rng.choice([tuple, list])
    C.check(close(utilities.calculate_pythagorean_distance(w(a), w(b_)), math.hypot(a[0] - b_[0], a[1] - b_[1])), "distance")
    C.check(close(utilities.calculate_onedimensional_distance(w(a), w(b_), True), abs(a[0] - b_[0])), "horizontal distance")
    C.check(close(utilities.calculate_onedimensional_distance(w(a), w(b_), horizontal=False), abs(a[1] - b_[1])), "vertical distance")
