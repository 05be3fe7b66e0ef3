"""C19: a visual search returns a location that satisfies the request."""
from .cbv import *
from . import c20
from .c20 import UT, varval
from .dmretrieve import Recent
from pyvc.models import VarMap

PROPERTY = "C19"
REG = []
VL = "pyactr.vision.VisualLocation."
CFS = "pyactr.vision.chunk_from_stimulus"
PYTH = z3.Function("DISTANCE", L.R, L.R, L.R, L.R, L.R)
ASSUME = ["C19: the coordinates in the request are integers, alone or after < or >, or one of lowest, highest, closest, onewayclosest (stored by the chunk as written); the text requested, if any, is plain text",
          "C19: a stimulus satisfies a request only if its externally visible features fit the chunk searched for (Chunk.__le__, C01)",
          "C19: two stimuli with equal features are one and the same for the list of attended stimuli; with finst 0 nothing is remembered and the attended test is off",
          "C19: check_bound_vars resolves content as proved in C06; chunks from stimuli as proved in C25; a new Chunk has the slots it is constructed with (C22)"]


class Stim(c20.Stim):
    def m___getitem__(self, E, k):
        if k == "text":
            return Sym(self.S.TEXT(self.i))
        return super().m___getitem__(E, k)

    def m_get(self, E, k, default=None):
        return self.m___getitem__(E, k) if k == "text" else super().m_get(E, k, default)

    def eq(self, E, o):
        if not isinstance(o, Stim):
            return False
        return True if o is self else Sym(o.i == self.i)


class Screen(c20.Screen):
    def __init__(self, E):
        super().__init__(E)
        self.TEXT = E.fresh_fn("text", L.I, L.S)
        self.REC = E.fresh_fn("attended", L.I, L.B)
        # the coordinates as integers, by name (their definition is not needed to compare them)
        IX, IY = self.IX, self.IY = E.fresh_fn("intx", L.I, L.I), E.fresh_fn("inty", L.I, L.I)

        def int_(E, a, k):
            t = a[0].t if a and isinstance(a[0], Sym) else None
            for f, g in ((self.PX, IX), (self.PY, IY)):
                if t is not None and z3.is_app(t) and t.decl().eq(f(0).decl()):
                    return Sym(g(t.arg(0)))
            return lib.py_int(E, a[0]) if a else 0
        E.contracts["ext:builtins.int"] = int_

    def rng(self, i):
        return z3.And(i >= 0, i < self.n)

    def at(self, E, i):
        E.fact(self.IDX(self.NAME(i)) == i)
        return i

    def m___getitem__(self, E, k):
        t = E.str_term(k)
        if z3.is_app(t) and t.decl().eq(self.NAME(z3.IntVal(0)).decl()):
            return Stim(self, t.arg(0))
        raise Unsupported("a stimulus by another name")

    def m_items(self, E):
        return SeqV(self.n, lambda i: (self.key(E, i), Stim(self, i)), tag="screen")

    def m_values(self, E):
        return SeqV(self.n, lambda i: Stim(self, i), tag="screen")


def Loc(E, i, pos):
    """The location chunk made from stimulus i, with or without coordinates."""
    o = ObjV(cls(E, "pyactr.chunks.Chunk"))
    o.meta["loc"] = (i, pos)
    return o


def loc(v):
    """(stimulus, with coordinates) of such a chunk"""
    return v.meta.get("loc") if isinstance(v, ObjV) else None


def of(v):
    return loc(v)[0]


def withpos(v):
    return loc(v) is not None and loc(v)[1] is True


WORDS = ("lowest", "highest", "closest", "onewayclosest")
KINDS = ("none", "exact", "<", ">") + WORDS


def coordinate(E, kind, nm):
    """(what is written in the slot, number or None)"""
    if kind == "none":
        return None, None
    if kind in WORDS:
        return kind, None
    n = E.fresh(nm + "_number", L.S)
    E.assume(L.ISINT(n))
    E.assume(z3.And(z3.Length(n) > 0, z3.Not(z3.PrefixOf(z3.StringVal("<"), n)), z3.Not(z3.PrefixOf(z3.StringVal(">"), n))))
    for w_ in WORDS:
        E.assume(n != z3.StringVal(w_))
    if kind == "exact":
        return Sym(n), L.STR2INT(n)
    E.assume(z3.Not(L.ISINT(z3.Concat(z3.StringVal(kind), n))))
    return Sym(z3.Concat(z3.StringVal(kind), n)), L.STR2INT(n)


def world(E, xk, yk, fixed=None):
    class W:
        pass
    w = W()
    setup(E)
    opaque_chunks(E)
    w.news = []
    install(E)
    w.buf = visual(E, decmem(E), None, loc=True)
    env = E.getattr(w.buf, "environment")
    w.scr = S = Screen(E)
    E.setattr(env, "stimulus", S)
    w.env = env
    f = E.to_list(E.getattr(env, "current_focus"))
    w.fx, w.fy = f[0].t, f[1].t
    w.x, w.nx = coordinate(E, xk, "x")
    w.y, w.ny = coordinate(E, yk, "y")
    w.xk, w.yk = xk, yk
    w.text = string(E, "text_asked") if E.choose(2, "text") else None
    if w.text is not None:
        E.assume(z3.Length(w.text.t) > 0)
    att = E.choose(3, "attended")
    t = w.text is None      # the forms of the test vary with the request
    w.extra = [None if t else DictV(), DictV([["attended", False if t else "False"]]), DictV([["attended", True if t else "True"]])][att]
    w.finst = integer(E, "finst", 0)
    E.setattr(w.buf, "finst", w.finst)
    w.att = [None, False, True][att]

    def has(k):
        if not isinstance(k, Stim):
            raise Unsupported("membership of %r" % (k,))
        return Sym(S.REC(k.i))
    w.recent = Recent(E, has)
    w.buf.attrs["recent"] = w.recent
    w.k = E.fresh("k", L.I)
    E.assume(S.rng(w.k))
    S.at(E, w.k)
    w.FITS = E.fresh_fn("fits", L.I, L.B)
    E.contracts[CFS] = lambda E, a, k: made(E, w, E.bind(F(E, CFS), a, k))
    E.contracts[UT + "calculate_pythagorean_distance"] = lambda E, a, k: dist(E, w, E.bind(F(E, UT + "calculate_pythagorean_distance"), a, k), None)
    E.contracts[UT + "calculate_onedimensional_distance"] = lambda E, a, k: dist(E, w, E.bind(F(E, UT + "calculate_onedimensional_distance"), a, k), True)
    return w


def made(E, w, e):
    if not isinstance(e["stimulus"], Stim):
        raise Unsupported("a chunk from %r" % (e["stimulus"],))
    E.prove("the chunks made are for the visual location buffer", b(eqv(E, e["buffer_name"], "visual_location")))
    pos = e["position"]
    if not isinstance(pos, bool):
        raise Unsupported("position not a constant")
    return Loc(E, e["stimulus"].i, pos)


def dist(E, w, e, one):
    def pair(v):
        v = E.to_list(v)
        if len(v) != 2:
            raise Unsupported("a position with %d coordinates" % len(v))
        return [L.rv(x) if not isinstance(x, Sym) else z3.ToReal(x.t) if z3.is_int(x.t) else x.t for x in v]
    a, c = pair(e["x"]), pair(e["y"])
    if not one:
        r = PYTH(a[0], a[1], c[0], c[1])
        E.fact(r == PYTH(c[0], c[1], a[0], a[1]))
        return Sym(r)
    h = e["horizontal"]
    if not isinstance(h, bool):
        h = E.branch(b(h))
    d = (a[0] - c[0]) if h else (a[1] - c[1])
    return Sym(z3.If(d >= 0, d, -d))


class Spec:
    def __init__(self, w):
        self.w = w

    def ix(self, i):
        return self.w.scr.IX(i)

    def iy(self, i):
        return self.w.scr.IY(i)

    def coord(self, kind, n, v):
        if kind == "exact":
            return v == n
        if kind == "<":
            return v < n
        if kind == ">":
            return v > n
        return z3.BoolVal(True)

    def sat(self, i):
        w = self.w
        f = [self.coord(w.xk, w.nx, self.ix(i)), self.coord(w.yk, w.ny, self.iy(i)), w.FITS(i)]
        if w.text is not None:
            f.append(w.scr.TEXT(i) == w.text.t)
        if w.att is not None:
            f.append(z3.Or(w.finst.t == 0, w.scr.REC(i) == z3.BoolVal(w.att)))
        return z3.And(*f)

    def dist(self, i):
        return PYTH(self.w.fx, self.w.fy, z3.ToReal(self.ix(i)), z3.ToReal(self.iy(i)))

    def one(self, i, horizontal):
        d = self.w.fx - z3.ToReal(self.ix(i)) if horizontal else self.w.fy - z3.ToReal(self.iy(i))
        return z3.If(d >= 0, d, -d)

    def costs(self, i):
        """what is to be least, for each superlative asked for"""
        w, out = self.w, []
        for k, v, h in ((w.xk, self.ix, True), (w.yk, self.iy, False)):
            if k == "lowest":
                out.append(z3.ToReal(v(i)))
            elif k == "highest":
                out.append(-z3.ToReal(v(i)))
            elif k == "closest":
                out.append(self.dist(i))
            elif k == "onewayclosest":
                out.append(self.one(i, h))
        return out

    def notbetter(self, k, p):
        """k is not better than p: worse in one respect, or not better in any"""
        ck, cp = self.costs(k), self.costs(p)
        if not ck:
            return z3.BoolVal(True)
        return z3.Or(z3.And(*[y <= x for x, y in zip(ck, cp)]), *[y < x for x, y in zip(ck, cp)])


class Content(Model):
    """What is written in one slot of the request."""
    def __init__(self, nm):
        super().__init__()
        self.nm = nm


def request(E, w, anyslots):
    """The request, and the contract of the chunk made from it. anyslots: a request with any slots, else with those asked for."""
    S = Spec(w)
    w.o = achunk(E, "request")
    asked = [(n, v) for n, v in (("screen_x", w.x), ("screen_y", w.y), ("value", w.text)) if v is not None]
    vm = abschunk.bindings(E.fresh("bound", L.I))
    w.binds = vm
    w.nobind = w.extra is None
    w.req = None

    def made_(E, typename):
        E.prove("it is a visual location", b(eqv(E, typename, "_visuallocation")))
        o = ObjV(cls(E, "pyactr.chunks.Chunk"))
        o.attrs.update(screen_x=slot(E, w.x), screen_y=slot(E, w.y), value=slot(E, w.text))
        o.meta["request"] = True
        w.req = o
        return o
    if anyslots:
        any_slots(E, w, made_)
    else:
        bad = E.choose(2, "unresolvable") and bool(asked)

        def unused(E, a, k):
            if not same(E, a[0], w.o):
                raise Unsupported("another chunk")
            return ListV([(n, Content(n)) for n, _ in asked])
        E.contracts["pyactr.chunks.Chunk.removeunused"] = unused

        def resolve_(E, a, k):
            e = E.bind(F(E, CBV), a, k)
            if not isinstance(e["elem"], Content):
                raise Unsupported("content %r" % (e["elem"],))
            bv = e["actrvariables"]
            E.prove("the request is resolved with the bindings given, negations allowed", conj(e.get("negative_impossible", True) is False, bv is vm or isinstance(bv, VarMap) and bv.same(vm) or w.nobind and isinstance(bv, DictV) and not bv.pairs))
            if bad:
                raise engine.PyExc(cls(E, "pyactr.utilities.ACTRError"), ["check_bound_vars"])
            return varval(E, dict(asked)[e["elem"].nm])
        E.contracts[CBV] = resolve_
        w.error = lambda E: E.prove("an error is raised only if the request cannot be resolved", bool(bad))

        def c(E, args, kwargs):
            d = dict(kwargs)
            typename = args[0] if args else d.pop("typename")
            m = d.pop("**", None)
            if m is not None:
                raise Unsupported("a chunk with any slots")
            E.prove("the chunk searched with has the slots of the request, resolved", set(d) == {n for n, _ in asked} and all(isinstance(v, NT) and v.get("values") is dict(asked)[n] for n, v in d.items()))
            return made_(E, typename)
        E.contracts["pyactr.chunks.Chunk"] = c
    def fit(E, small, big):
        if loc(small) and isinstance(big, ObjV) and big.meta.get("request"):
            if loc(small)[1]:
                raise Unsupported("the features with coordinates compared")
            return Sym(w.FITS(of(small)))
        raise Unsupported("comparison of other chunks")
    E.contracts["pyactr.chunks.Chunk.__le__"] = lambda E, a, k: fit(E, a[0], a[1])
    E.contracts["pyactr.chunks.Chunk.__ge__"] = lambda E, a, k: fit(E, a[1], a[0])
    return S


def any_slots(E, w, made_):
    co = cid(E, w.o)
    H, V = (z3.K(L.S, z3.BoolVal(False)), z3.K(L.S, Val.none)) if w.nobind else (w.binds.has, w.binds.val)
    s = E.fresh("slot", L.S)
    abschunk.name_fact(E, co, s)
    wf_content(E, L.SLOT(co, s))
    false = z3.BoolVal(False)

    def error(E):
        j = z3.Int("j!find")
        c = L.SLOT(co, L.NAMEAT(co, j))
        E.prove("an error is raised only if the request cannot be resolved", z3.Exists([j], z3.And(j >= 0, j < L.NSLOTS(co), used(E, c), ERR(c, H, V, false))))
    w.error = error

    def c(E, args, kwargs):
        d = dict(kwargs)
        typename = args[0] if args else d.pop("typename")
        m = d.pop("**", None)
        nc = NewChunk(None, typename, m if m is not None else d)
        has, got = slot_of_new(E, nc, s)
        named = z3.And(L.HASN(co, s), used(E, L.SLOT(co, s)))
        E.prove("the chunk searched with has the slots of the request, resolved", z3.And(has == named, z3.Implies(named, got == resolved(E, L.SLOT(co, s), H, V)), z3.Not(z3.And(named, ERR(L.SLOT(co, s), H, V, false)))))
        return made_(E, typename)
    E.contracts["pyactr.chunks.Chunk"] = c


def slot(E, v):
    return lib.empty_obj(E) if v is None else varval(E, v)


def same_found(E, v, i):
    return conj(withpos(v), lambda: of(v) == i)


def search_loop(E, w, S):
    scr = w.scr

    class Search(LoopSpec):
        name = "search of the screen"

        def __init__(self):
            self.memo = {}

        def seen(self, i):
            return z3.And(w.k < i, S.sat(w.k))

        def winner(self, i):
            key = z3.simplify(i).get_id()
            if key not in self.memo:
                p = None
                if E.branch(E.fresh("found", L.B)):
                    p = E.fresh("winner", L.I)
                    scr.at(E, p)
                    E.assume(z3.And(scr.rng(p), p < i, S.sat(p), z3.Implies(self.seen(i), S.notbetter(w.k, p))))
                else:
                    E.assume(z3.Not(self.seen(i)))
                self.memo[key] = (i, p)
            return self.memo[key][1]

        def chk_found(self, E, i, v):
            self.now = of(v) if loc(v) else None
            if v is None:
                return z3.Not(self.seen(i))
            if not withpos(v):
                return z3.BoolVal(False)
            p = of(v)
            return z3.And(scr.rng(p), p < i, S.sat(p), z3.Implies(self.seen(i), S.notbetter(w.k, p)))

        def role(self, nm, value, start, check, optional=False):
            def inj(E, i):
                p = self.winner(i)
                return start if p is None else value(p)

            def chk(E, i, v):
                if self.now is None:
                    return v is start or (start is not None and lib.is_inf(v) and v > 0)
                return check(v, self.now)
            return Role(nm, inj, chk, optional)

        def roles(self, E):
            num = lambda f: (lambda v, p: z3.BoolVal(False) if v is None or lib.is_inf(v) else T(E, v) == f(p))
            inf = float("inf")
            return [Role("found", lambda E, i: None if self.winner(i) is None else Loc(E, self.winner(i), True), self.chk_found),
                    self.role("found_stim", lambda p: Stim(scr, p), None, lambda v, p: conj(isinstance(v, Stim), lambda: v.i == p)),
                    self.role("current_x", lambda p: Sym(S.ix(p)), None, num(S.ix), optional=True),
                    self.role("current_y", lambda p: Sym(S.iy(p)), None, num(S.iy), optional=True),
                    self.role("closest", lambda p: Sym(S.dist(p)), inf, num(S.dist), optional=True),
                    self.role("x_closest", lambda p: Sym(S.one(p, True)), inf, num(lambda p: S.one(p, True)), optional=True),
                    self.role("y_closest", lambda p: Sym(S.one(p, False)), inf, num(lambda p: S.one(p, False)), optional=True)]

        def unfold(self, E, i):
            scr.at(E, i)
    E.loops["screen"] = lambda E, fr, seq: Search()


def find(xk, yk, anyslots=False):
    def run_(E):
        w = world(E, xk, yk)
        S = request(E, w, anyslots)
        search_loop(E, w, S)
        E.cover("precondition satisfiable")
        st, r = attempt(E, lambda: run(E, VL + "find", [w.buf, w.o, None if w.nobind else w.binds, w.extra]))
        if st == "exc":
            E.prove("an error is an ACTRError", z3.BoolVal(is_exc(E, r, "ACTRError")), str(r))
            w.error(E)
            return
        E.prove("one location and its stimulus are returned", isinstance(r, tuple) and len(r) == 2)
        found, stim = r
        E.prove("nothing is remembered by searching", w.recent.appended == [] and w.recent.dropped == 0)
        if found is None:
            E.prove("nothing is returned only if no stimulus satisfies the request", z3.And(stim is None, z3.Not(S.sat(w.k))))
            return
        E.prove("the location is one made with coordinates", withpos(found))
        p = of(found)
        E.prove("the stimulus found is the one whose location is returned", conj(isinstance(stim, Stim), lambda: stim.i == p))
        E.prove("it is on the screen and satisfies the request", z3.And(w.scr.rng(p), S.sat(p)))
        E.prove("no other satisfying stimulus is lower, higher or closer", z3.Implies(S.sat(w.k), S.notbetter(w.k, p)))
    return run_


REG.append(Task("find: a request with any slots", find("none", "none", True), [VL + "find", "pyactr.chunks.Chunk.removeunused"], max_seconds=900))
for _x in KINDS:
    for _y in KINDS:
        REG.append(Task("find: x %s, y %s" % (_x, _y), find(_x, _y), [VL + "find"], max_seconds=900))


# ------------------------------------------------------------------ automatic search
def automatic(E):
    w = world(E, "none", "none")
    S = Spec(w)
    scr = w.scr
    fresh_ = lambda i: z3.Not(scr.REC(i))
    D = lambda i: PYTH(w.fx, w.fy, scr.PX(i), scr.PY(i))
    stims = SeqV(scr.n, lambda i: Stim(scr, scr.at(E, i)), tag="stimuli", pyclass=list)

    class Search(LoopSpec):
        name = "automatic search"

        def __init__(self):
            self.memo = {}

        def seen(self, i):
            return z3.And(w.k < i, fresh_(w.k))

        def winner(self, i):
            key = z3.simplify(i).get_id()
            if key not in self.memo:
                p = None
                if E.branch(E.fresh("found", L.B)):
                    p = E.fresh("winner", L.I)
                    E.assume(z3.And(scr.rng(p), p < i, fresh_(p), z3.Implies(self.seen(i), D(p) <= D(w.k))))
                else:
                    E.assume(z3.Not(self.seen(i)))
                self.memo[key] = (i, p)
            return self.memo[key][1]

        def chk_found(self, E, i, v):
            self.now = v.i if isinstance(v, Stim) else None
            if v is None:
                return z3.Not(self.seen(i))
            if not isinstance(v, Stim):
                return z3.BoolVal(False)
            return z3.And(scr.rng(v.i), v.i < i, fresh_(v.i), z3.Implies(self.seen(i), D(v.i) <= D(w.k)))

        def roles(self, E):
            def role(nm, val, start, chk, optional=False):
                return Role(nm, lambda E, i: start if self.winner(i) is None else val(self.winner(i)), lambda E, i, v: (v is start or start is not None and lib.is_inf(v)) if self.now is None else chk(v, self.now), optional)
            return [Role("found", lambda E, i: None if self.winner(i) is None else Stim(scr, self.winner(i)), self.chk_found),
                    role("new_chunk", lambda p: Loc(E, p, True), None, lambda v, p: same_found(E, v, p), optional=True),
                    role("closest", lambda p: Sym(D(p)), float("inf"), lambda v, p: z3.BoolVal(False) if v is None or lib.is_inf(v) else T(E, v) == D(p))]
    E.loops["stimuli"] = lambda E, fr, seq: Search()
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: run(E, VL + "automatic_search", [w.buf, stims]))
    E.prove("no error", st == "ok")
    if st != "ok":
        return
    E.prove("one location and its stimulus are returned", isinstance(r, tuple) and len(r) == 2)
    if r[0] is None:
        E.prove("nothing is returned only if every stimulus was attended", z3.And(r[1] is None, z3.Not(fresh_(w.k))))
        return
    E.prove("the location is that of the stimulus returned", conj(isinstance(r[1], Stim), lambda: same_found(E, r[0], r[1].i)))
    p = r[1].i
    E.prove("it was not attended recently, and no other such stimulus is closer", z3.And(scr.rng(p), fresh_(p), z3.Implies(fresh_(w.k), D(p) <= D(w.k))))


REG.append(Task("automatic_search", automatic, [VL + "automatic_search"]))


@task(REG, "distances", [UT + "calculate_pythagorean_distance", UT + "calculate_onedimensional_distance"])
def distances(E):
    a, c = [real(E, "x0"), real(E, "y0")], [real(E, "x1"), real(E, "y1")]
    mk = [tuple, ListV]
    A, C = mk[E.choose(2, "list")](a), mk[E.choose(2, "list2")](c)
    r = T(E, run(E, UT + "calculate_pythagorean_distance", [A, C]))
    dx, dy = a[0].t - c[0].t, a[1].t - c[1].t
    n = dx * dx + dy * dy
    E.prove("the distance", z3.Or(r == L.SQRT(n), r == L.SQRT((c[0].t - a[0].t) * (c[0].t - a[0].t) + (c[1].t - a[1].t) * (c[1].t - a[1].t))))
    h = E.choose(3, "direction")
    r = T(E, run(E, UT + "calculate_onedimensional_distance", [A, C] + [[], [True], [False]][h]))
    d = dy if h == 2 else dx
    E.prove("the distance in one direction", r == z3.If(d >= 0, d, -d))
    E.prove("the positions are not altered", all(x is y for x, y in zip(E.to_list(A) + E.to_list(C), a + c)))
