"""C25 on real stimuli."""
from pyactr import vision, environment
from .chunkkit import *
from . import common

CONTROL = ['text', 'position', 'vis_delay', 'visual_location_typename', 'visual_typename', 'externally_visible']


def fresh_types():
    for t in ("mystim", "myloc"):
        chunks.Chunk._chunktypes.pop(t, None)


def value(d):
    return canon(d["val"])


def mkstim(rng):
    st = {"position": (rng.choice([0, 10, 320, 5.7, -3, 100.99]), rng.choice([0, 20, 240, 7.2, 51.5, 9.9, -0.6]))}
    if rng.random() < 0.2:
        st["position"] = list(st["position"])
    feats = ["color", "shape", "size", "kind"]
    rng.shuffle(feats)
    for f in feats[:rng.nat(0, 4)]:
        st[f] = rng.choice(["red", "green", "w1", 12, 0])
    if rng.random() < 0.8:
        st["text"] = rng.choice(["A", "word", "", "B1"])
    if rng.random() < 0.3:
        st["vis_delay"] = rng.choice([1, 3.5])
    if rng.random() < 0.3:
        st["visual_typename"] = "mystim"
    if rng.random() < 0.3:
        st["visual_location_typename"] = "myloc"
    if rng.random() < 0.2:
        st["value"] = "odd"
    if rng.random() < 0.15:
        st[rng.choice(["screen_x", "screen_y"])] = 17
    if rng.random() < 0.7:
        st["externally_visible"] = rng.sample(["color", "shape", "size", "kind", "absent", "text", "screen_x"], rng.nat(0, 4))
        if rng.random() < 0.3:
            st["externally_visible"] = tuple(st["externally_visible"])
    # the built-in types have fixed slots: other features need a type of one's own
    for w, t in (("visual", "mystim"), ("visual_location", "myloc")):
        own = {x.strip() for x in utilities.SPECIALCHUNKTYPES[utilities.VISUAL if w == "visual" else utilities.VISUALLOCATION].split(",")}
        if set(want_slots(st, w, True)) - own - {"screen_x", "screen_y"} or (w == "visual" and ("screen_x" in st or "screen_y" in st or rng.random() < 0.3)):
            st[w + "_typename"] = t
    items = list(st.items())
    rng.shuffle(items)
    return dict(items)


def want_slots(st, which, position):
    d = {}
    if which == "visual_location":
        for k in st.get("externally_visible", ()):
            if k in st:
                d[k] = st[k]
    else:
        d.update({k: v for k, v in st.items() if k not in CONTROL})
    if position:
        d["screen_x"], d["screen_y"] = int(st["position"][0]), int(st["position"][1])
    if which == "visual":
        d["value"] = st.get("text", "")
    return d


def compare(C, ch, st, which, position):
    want = want_slots(st, which, position)
    got = {s: d for s, d in slots_of(ch).items() if d["val"] is not None or d["var"] or d["nvals"] or d["nvars"]}
    names = set(got) - ({"screen_pos"} if which == "visual" else set())
    C.check(names == set(want), "the %s chunk does not have exactly the slots it should" % which, got=sorted(names), want=sorted(want))
    for s, v in want.items():
        C.check(got[s]["val"] == str(v) and not got[s]["var"] and not got[s]["nvals"], "slot %s of the %s chunk is wrong" % (s, which), got=repr(got[s]), want=str(v))
    tn = st.get(which + "_typename", {"visual": utilities.VISUAL, "visual_location": utilities.VISUALLOCATION}[which])
    C.check(ch.typename == tn, "the %s chunk has the wrong type" % which, got=ch.typename, want=tn)
    if which == "visual":
        loc = got.get("screen_pos", {"val": None})["val"]
        C.check(isinstance(loc, chunks.Chunk), "the visual chunk has no location chunk")
        compare(C, loc, st, "visual_location", True)


@case
def from_stimulus(rng, C):
    fresh_types()
    st = mkstim(rng)
    C.note(stimulus=repr(st))
    which = rng.choice(["visual", "visual_location"])
    position = rng.choice([True, False])
    before = repr(st)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if position and which == "visual":
            st["visual_typename"] = "mystim"
            C.note(stimulus=repr(st))
            before = repr(st)
        ch = vision.chunk_from_stimulus(st, which, position) if not position or rng.random() < 0.5 else vision.chunk_from_stimulus(st, which)
    C.note(which=which, position=position, chunk=repr(ch))
    C.check(repr(st) == before, "the stimulus was altered")
    compare(C, ch, st, which, position)


@case
def automatic(rng, C):
    fresh_types()
    st = mkstim(rng)
    C.note(stimulus=repr(st))
    env = environment.Environment(focus_position=(0, 0))
    v = vision.Visual(env)
    from pyactr import model
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ch, t = v.automatic_buffering(st, model.ACTRModel().model_parameters)
    compare(C, ch, st, "visual", False)


@case
def other_buffer(rng, C):
    nm = rng.choice(["visuallocation", "goal", "Visual", "", rng.word(0.5)])
    if nm in ("visual", "visual_location"):
        raise Skip
    C.raises(ValueError, lambda: vision.chunk_from_stimulus(mkstim(rng), nm), "another buffer name is accepted: %r" % nm)
