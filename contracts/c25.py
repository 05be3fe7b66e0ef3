"""C25: the chunk made from a stimulus."""
from .cbv import *
from pyvc.models import MapDict
from .c20 import UT

PROPERTY = "C25"
REG = []
CFS = "pyactr.vision.chunk_from_stimulus"
CONTROL = ["text", "position", "vis_delay", "visual_location_typename", "visual_typename", "externally_visible"]
ASSUME = ["C25: externally_visible, if given, is a list of names of features, without 'position' and 'externally_visible'; position is a pair of numbers; features are strings, numbers, chunks or None",
          "C25: a new Chunk has the slots it is constructed with (proved in C22)"]
FVAL = z3.Function("FVAL", L.I, L.S, Val)


class Stim:
    """A stimulus with any features."""
    def __init__(self, E):
        c = self.c = E.fresh("stimulus", L.I)
        self.x, self.y = real(E, "x"), real(E, "y")
        self.ev = E.fresh_fn("externally_visible", L.S, L.B)
        self.evn = E.fresh("nvisible", L.I)
        self.evat = E.fresh_fn("visible", L.I, L.S)
        E.assume(self.evn >= 0)
        E.assume(z3.Not(self.ev(z3.StringVal("position"))))
        E.assume(z3.Not(self.ev(z3.StringVal("externally_visible"))))
        E.assume(L.HASN(c, z3.StringVal("position")))
        abschunk.name_fact(E, c, z3.StringVal("position"))
        for k in ("text", "visual_location_typename", "visual_typename", "vis_delay"):
            E.assume(Val.is_vstr(FVAL(c, z3.StringVal(k))))
            abschunk.name_fact(E, c, z3.StringVal(k))
        E.assume(z3.Length(Val.s(FVAL(c, z3.StringVal("visual_typename")))) > 0)
        E.assume(z3.Length(Val.s(FVAL(c, z3.StringVal("visual_location_typename")))) > 0)
        evs = SeqV(self.evn, lambda i: Sym(self.evat(i)), tag=("externally_visible", c), pyclass=list)
        evs.contains = lambda E, x: self.ev(E.str_term(x))

        def get(s):
            t = z3.simplify(s)
            if z3.is_string_value(t):
                k = t.as_string()
                if k == "position":
                    return (self.x, self.y)
                if k == "externally_visible":
                    return evs
            return lib.mkval(E, FVAL(c, s))
        self.map = MapDict(lambda s: self.has(E, s), get, abschunk.names(E, c))

    def has(self, E, s):
        if z3.is_app(s) and s.decl().eq(L.NAMEAT) and s.arg(0).eq(self.c):      # the name of a feature met while going through them
            return z3.BoolVal(True)
        abschunk.name_fact(E, self.c, s)
        return L.HASN(self.c, s)

    def visible(self, E, s):
        """s is a feature the stimulus has and shows from outside"""
        return z3.And(self.has(E, s), self.has(E, z3.StringVal("externally_visible")), self.ev(s))


def val_of(E, v):
    """what was passed for a slot, as a slot value"""
    if v is None:
        return Val.none
    return lib.val_term(E, v)


def given(E, nc, s):
    """(has, value as a Val or None for numbers) of slot s of what was passed to the constructor"""
    if isinstance(nc.d, dict):
        return None
    return nc.d.has(s), nc.d.get(s)


def num(E, x):
    return Val.vnum(z3.ToReal(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t))))


def slot_given(E, nc, s):
    """(present, Val) at slot s"""
    if isinstance(nc.d, dict):
        has, val = z3.BoolVal(False), Val.none
        for k, v in nc.d.items():
            hit = s == z3.StringVal(k)
            has, val = z3.Or(hit, has), z3.If(hit, val_of(E, v), val)
        return has, val
    return nc.d.has(s), val_of(E, nc.d.get(s))


def typename(E, S, key, default):
    k = z3.StringVal(key)
    return z3.If(S.has(E, k), Val.s(FVAL(S.c, k)), z3.StringVal(default))


def mk(which, position):
    def run_(E):
        setup(E)
        S = Stim(E)
        news = []
        install_chunk(E, news)
        s = E.fresh("slot", L.S)
        E.assume(z3.Length(s) > 0)
        abschunk.name_fact(E, S.c, s)
        before = S.map.has, S.map.get
        E.cover("precondition satisfiable")
        args = [S.map, which] + ([] if position is None else [position])
        st, r = attempt(E, lambda: run(E, CFS, args))
        E.prove("no error", st == "ok")
        if st != "ok":
            return
        E.prove("the stimulus is not altered", before == (S.map.has, S.map.get))
        main = news[-1] if news else None
        E.prove("the result is the chunk made", main is not None and same(E, r, main.obj))
        pos = position is not False
        sx, sy = s == z3.StringVal("screen_x"), s == z3.StringVal("screen_y")
        ut = E.modules["pyactr.utilities"].ns

        def location_ok(nc, pos, label):
            h, v = slot_given(E, nc, s)
            coord = z3.Or(sx, sy) if pos else z3.BoolVal(False)
            E.prove(label + " has exactly its coordinates (if asked for) and its externally visible features", h == z3.Or(coord, S.visible(E, s)))
            E.prove(label + ": the coordinates are the stimulus's, as integers", z3.Implies(coord, v == z3.If(sx, num(E, S.x), num(E, S.y))))
            E.prove(label + ": the features are the stimulus's", z3.Implies(z3.And(h, z3.Not(coord)), v == FVAL(S.c, s)))
            E.prove(label + " has the type named for it, or the built-in one", E.str_term(nc.typename) == typename(E, S, "visual_location_typename", ut["VISUALLOCATION"]))
        if which == "visual_location":
            E.prove("one chunk is made", len(news) == 1)
            return location_ok(main, pos, "the location chunk")
        E.prove("two chunks are made", len(news) == 2)
        if len(news) != 2:
            return
        loc = news[0]
        location_ok(loc, True, "its location chunk")
        h, v = slot_given(E, main, s)
        control = z3.Or(*[s == z3.StringVal(k) for k in CONTROL])
        feature = z3.And(S.has(E, s), z3.Not(control))
        coord = z3.Or(sx, sy) if pos else z3.BoolVal(False)
        isval, isloc = s == z3.StringVal("value"), s == z3.StringVal("screen_pos")
        E.prove("the visual chunk has its text, its location and every feature that is no control key", h == z3.Or(isval, isloc, coord, feature))
        text = z3.StringVal("text")
        E.prove("its value is the text", z3.Implies(isval, v == z3.If(S.has(E, text), FVAL(S.c, text), Val.vstr(z3.StringVal("")))))
        E.prove("its position is its location chunk", z3.Implies(isloc, v == Val.vchk(cid(E, loc.obj))))
        E.prove("the coordinates are the stimulus's, as integers", z3.Implies(coord, v == z3.If(sx, num(E, S.x), num(E, S.y))))
        E.prove("its features are the stimulus's", z3.Implies(z3.And(feature, z3.Not(z3.Or(isval, isloc, coord))), v == FVAL(S.c, s)))
        E.prove("it has the type named for it, or the built-in one", E.str_term(main.typename) == typename(E, S, "visual_typename", ut["VISUAL"]))
    return run_


for _p, _n in ((True, "with position"), (False, "without position"), (None, "position not said")):
    REG.append(Task("visual location " + _n, mk("visual_location", _p), [CFS]))
    REG.append(Task("visual " + _n, mk("visual", _p), [CFS]))


@task(REG, "Visual.automatic_buffering", ["pyactr.vision.Visual.automatic_buffering"])
def automatic(E):
    setup(E)
    S = Stim(E)
    dm = decmem(E)
    buf = visual(E, dm)
    env = E.getattr(buf, "environment")
    for k, v in dict(size=(real(E, "px"), real(E, "py")), simulated_screen_size=(real(E, "cmx"), real(E, "cmy")), viewing_distance=real(E, "viewing")).items():
        E.setattr(env, k, v)
    c = achunk(E, "made")
    made, delays = [], []
    E.contracts[CFS] = lambda E, a, k: (made.append(E.bind(F(E, CFS), a, k)), c)[1]
    spy(E, UT + "calculate_visual_angle", [], result=real(E, "angle"))
    spy(E, UT + "calculate_delay_visual_attention", delays, result=real(E, "delay"))
    E.cover("precondition satisfiable")
    r = run(E, "pyactr.vision.Visual.automatic_buffering", [buf, S.map, params(E)])
    E.prove("the chunk returned is the one made for the visual buffer from the stimulus, without coordinates",
            conj(len(made) == 1, lambda: made[0]["stimulus"] is S.map, lambda: b(eqv(E, made[0]["buffer_name"], "visual")), lambda: made[0]["position"] is False,
                 isinstance(r, tuple) and len(r) == 2, lambda: same(E, r[0], c)))


@task(REG, "other buffers", [CFS])
def other(E):
    setup(E)
    S = Stim(E)
    news = []
    install_chunk(E, news)
    nm = string(E, "buffer")
    E.assume(z3.And(nm.t != z3.StringVal("visual"), nm.t != z3.StringVal("visual_location")))
    st, r = attempt(E, lambda: run(E, CFS, [S.map, nm]))
    E.prove("any other buffer is refused", z3.BoolVal(st == "exc" and is_exc(E, r, "ValueError")) if st == "exc" else False)
