"""C20: attention shifts follow the EMMA timing."""
from .common import *

PROPERTY = "C20"
REG = []
PR = "pyactr.productions.ProductionRules."
UT = "pyactr.utilities."
VIS = "pyactr.vision.Visual."
ASSUME = ["C20: exp, atan2, sqrt are uninterpreted functions; a gamma-distributed draw is an uninterpreted function of shape and scale (its mean is shape*scale)",
          "C20: the chunk made from a stimulus has the stimulus's integer position as its location (C25); check_bound_vars is used through its contract (C06)",
          "C20: several stimuli at exactly the requested position: the last one listed is the one attended"]


def gamma(E, mean):
    return lambda t: z3.Exists([z3.Int("k!g")], t == L.GAMMA(z3.RealVal(9), mean / 9, z3.Int("k!g")))


@task(REG, "encoding time", [UT + "calculate_delay_visual_attention"])
def delay(E):
    d, K, k = real(E, "distance"), real(E, "K"), real(E, "k")
    noise = bool(E.choose(2, "noise"))
    what = E.choose(4, "delay of the stimulus")
    v = real(E, "delay")
    given = [v, None, 0, string(E, "delay_written")][what]
    if what == 3:
        E.assume(L.ISFLOAT(given.t))
        E.assume(z3.Length(given.t) > 0)
    E.assume(z3.And(K.t >= 0, v.t >= 0, L.STR2REAL(given.t) >= 0 if what == 3 else v.t >= 0))
    base = [v.t, L.rv(0), L.rv(0), L.STR2REAL(given.t) if what == 3 else None][what]
    x = L.EXP(k.t * d.t)
    E.assume(x > 0)
    mean = K.t * base * x
    E.cover("precondition satisfiable")
    args = [d, K, k, noise] + ([given] if given is not None or E.choose(2, "explicitly") else [])
    r = T(E, run(E, UT + "calculate_delay_visual_attention", args))
    if noise:
        E.prove("with noise, encoding time is gamma distributed with mean K*delay*e^(k*distance)", gamma(E, mean)(r))
    else:
        E.prove("encoding takes K*delay*e^(k*distance), 0 without a delay", r == mean)


@task(REG, "preparation and execution time", [UT + "calculate_preparation_time", UT + "calculate_execution_time"])
def phases(E):
    noise = bool(E.choose(2, "noise"))
    d = real(E, "distance")
    E.assume(d.t >= 0)
    ex = L.rv("0.07") + L.rv("0.002") * (180 * d.t / L.PI)
    E.assume(z3.And(L.PI > 3, L.PI < 4))
    E.assume(d.t / L.PI >= 0)
    p = T(E, run(E, UT + "calculate_preparation_time", [noise]))
    e = T(E, run(E, UT + "calculate_execution_time", [d, noise]))
    if noise:
        E.prove("with noise, preparation is gamma distributed with mean 0.135 s", gamma(E, L.rv("0.135"))(p))
        E.prove("with noise, execution is gamma distributed with mean 0.07 s + 2 ms per degree", gamma(E, ex)(e))
    else:
        E.prove("preparation takes 0.135 s", p == L.rv("0.135"))
        E.prove("execution takes 0.07 s + 2 ms per degree", e == ex)


@task(REG, "visual angle", [UT + "calculate_visual_angle"])
def angle(E):
    a, c = [real(E, "x0"), real(E, "y0")], [real(E, "x1"), real(E, "y1")]
    size, screen, dist = (real(E, "px"), real(E, "py")), (real(E, "cmx"), real(E, "cmy")), real(E, "viewing")
    E.assume(z3.And(size[0].t > 0, screen[0].t > 0, dist.t > 0))
    mk = [tuple, ListV]
    E.cover("precondition satisfiable")
    r = T(E, run(E, UT + "calculate_visual_angle", [mk[E.choose(2, "list")](a), mk[E.choose(2, "list2")](c), size, screen, dist]))
    dx, dy = c[0].t - a[0].t, c[1].t - a[1].t
    n = dx * dx + dy * dy
    cm = L.SQRT(n) / (size[0].t / screen[0].t)
    k = E.fresh("k", L.R)
    E.assume(z3.And(k * (size[0].t / screen[0].t) == L.SQRT(n)))
    E.prove("the angle at which the distance on the screen (in cm) is seen", z3.Or(r == L.ATAN2(cm, dist.t), r == L.ATAN2(k, dist.t)))


@task(REG, "landing site", [UT + "calculate_landing_site"])
def landing(E):
    pos = [real(E, "x"), real(E, "y")]
    d = real(E, "distance")
    noise = bool(E.choose(2, "noise"))
    r = run(E, UT + "calculate_landing_site", [ListV(pos), d, noise])
    if noise:
        E.prove("with noise there is a landing site", E.branch(d.t == 0) or len(E.to_list(r)) == 2)
    else:
        r = E.to_list(r)
        E.prove("without noise the eye lands at the target", conj(len(r) == 2, lambda: T(E, r[0]) == pos[0].t, lambda: T(E, r[1]) == pos[1].t))


class Stim(Model):
    """A stimulus: position, optional delay, other features."""
    pyclass = dict

    def __init__(self, S, i, upd=()):
        super().__init__()
        self.S, self.i, self.upd = S, i, list(upd)

    def m___getitem__(self, E, k):
        if k == "position":
            return (Sym(self.S.PX(self.i)), Sym(self.S.PY(self.i)))
        if k == "vis_delay":
            if E.branch(self.S.HASD(self.i)):
                return Sym(self.S.D(self.i))
            raise engine.bexc("KeyError", "vis_delay")
        for a, v in self.upd:
            if a == k:
                return v
        raise Unsupported("feature %r of a stimulus" % (k,))

    def m_get(self, E, k, default=None):
        if k == "vis_delay":
            return Sym(self.S.D(self.i)) if E.branch(self.S.HASD(self.i)) else default
        return self.m___getitem__(E, k)

    def m___contains__(self, E, k):
        if k == "vis_delay":
            return Sym(self.S.HASD(self.i))
        if k == "position":
            return True
        raise Unsupported("feature %r of a stimulus" % (k,))

    def m_copy(self, E):
        return Stim(self.S, self.i, self.upd)

    def m_update(self, E, d):
        E.write(self, "stimulus")
        self.upd += [(k, v) for k, v in d.pairs]

    def m___setitem__(self, E, k, v):
        E.write(self, "stimulus")
        self.upd.append((k, v))


class Screen(Model):
    """The stimuli on the screen: any number, in order."""
    pyclass = dict

    def __init__(self, E):
        super().__init__()
        self.n = E.fresh("nstimuli", L.I)
        E.assume(self.n >= 0)
        self.PX, self.PY = E.fresh_fn("posx", L.I, L.R), E.fresh_fn("posy", L.I, L.R)
        self.HASD, self.D = E.fresh_fn("hasdelay", L.I, L.B), E.fresh_fn("visdelay", L.I, L.R)
        self.NAME = E.fresh_fn("stimulus", L.I, L.S)
        self.IDX = E.fresh_fn("stimidx", L.S, L.I)

    def iterate(self, E):
        return SeqV(self.n, lambda i: self.key(E, i), tag="screen")
    m_keys = iterate

    def key(self, E, i):
        E.assume(self.IDX(self.NAME(i)) == i)
        return Sym(self.NAME(i))

    def m___getitem__(self, E, k):
        return Stim(self, self.IDX(k.t))

    def m_items(self, E):
        return SeqV(self.n, lambda i: (self.key(E, i), Stim(self, i)), tag="screen")

    def m_values(self, E):
        return SeqV(self.n, lambda i: Stim(self, i), tag="screen")


def location(E, x, y):
    """a location chunk with the given written coordinates"""
    vv = E.modules["pyactr.utilities"].ns["VarvalClass"]
    c = chunk(E, "location")
    for nm, v in (("screen_x", x), ("screen_y", y)):
        c.attrs[nm] = NT(vv, (v, None, (), ())) if vv.fields == ("values", "variables", "negvalues", "negvariables") else E.call(vv, [], dict(variables=None, values=v, negvariables=(), negvalues=()))
    return c


def varval(E, v):
    return E.call(E.modules["pyactr.utilities"].ns["VarvalClass"], [], dict(variables=None, values=v, negvariables=(), negvalues=()))


@task(REG, "Visual.shift", [VIS + "shift"])
def shift(E):
    dm = decmem(E)
    buf = visual(E, dm)
    env = E.getattr(buf, "environment")
    scr = Screen(E)
    for k, v in dict(stimulus=scr, size=(real(E, "px"), real(E, "py")), simulated_screen_size=(real(E, "cmx"), real(E, "cmy")), viewing_distance=real(E, "viewing")).items():
        E.setattr(env, k, v)
    emma = bool(E.choose(2, "emma"))
    noise, lnoise = (bool(E.choose(2, "noise")), bool(E.choose(2, "landing noise"))) if emma else (False, False)
    own = bool(E.choose(2, "parameters of the buffer"))
    K, k = real(E, "K"), real(E, "k")
    mp = params(E, emma=emma, emma_noise=noise, emma_landing_site_noise=lnoise, eye_mvt_scaling_parameter=real(E, "K_model") if own else K, eye_mvt_angle_parameter=k)
    if own:
        E.setattr(buf, "model_parameters", DictV([["eye_mvt_scaling_parameter", K]]))
    # the request
    x, y = string(E, "wx"), string(E, "wy")
    for s in (x, y):
        E.assume(L.ISFLOAT(s.t))
    wx, wy = L.STR2REAL(x.t), L.STR2REAL(y.t)
    loc = location(E, x, y)
    cmd = varval(E, "move_attention")
    bad = E.choose(2, "request not resolved")
    other = chunk(E, "request")
    vs = DictV([["=x", string(E, "bound")]])
    E.contracts["pyactr.chunks.Chunk.removeunused"] = lambda E, a, kw: ListV([("screen_pos", "RAW1"), ("cmd", "RAW2")]) if same(E, a[0], other) else ListV()
    opaque_chunks(E)
    ok = []

    def cbv(E, args, kwargs):
        e = E.bind(F(E, UT + "check_bound_vars"), args, kwargs)
        if bad:
            raise PyExc(cls(E, "pyactr.utilities.ACTRError"), ["not bound"])
        ok.append(same(E, e["actrvariables"], vs) and e["negative_impossible"] is True)
        return varval(E, loc) if e["elem"] == "RAW1" else cmd
    E.contracts[UT + "check_bound_vars"] = cbv
    # the chunk made from the stimulus
    made = []

    def cfs(E, args, kwargs):
        e = E.bind(F(E, "pyactr.vision.chunk_from_stimulus"), args, kwargs)
        st = e["stimulus"]
        if not isinstance(st, Stim):
            raise Unsupported("a chunk from %r" % (st,))
        c = chunk(E, "encoded")
        nx, ny = string(E, "nx"), string(E, "ny")
        for s, f in ((nx, scr.PX), (ny, scr.PY)):
            E.assume(L.ISFLOAT(s.t))
            E.assume(L.STR2REAL(s.t) == z3.ToReal(trunc(f(st.i))))
        c.attrs["screen_pos"] = varval(E, location(E, nx, ny))
        made.append((c, st, e["buffer_name"], e["position"]))
        return c
    E.contracts["pyactr.vision.chunk_from_stimulus"] = cfs
    calls = {}
    for fn in ("calculate_visual_angle", "calculate_delay_visual_attention", "calculate_preparation_time", "calculate_execution_time", "calculate_landing_site"):
        log = calls[fn] = []
        spy(E, UT + fn, log, (real(E, "lx"), real(E, "ly")) if fn == "calculate_landing_site" else real(E, fn[10:]))
    res = {}
    for fn in calls:
        f = E.contracts[UT + fn]

        def wrap(f, fn):
            def g(E, a, kw):
                res[fn] = f(E, a, kw)
                return res[fn]
            return g
        E.contracts[UT + fn] = wrap(f, fn)
    at = lambda i: z3.And(scr.PX(i) == wx, scr.PY(i) == wy)
    LAST = Fold(E, "last", [L.I], [z3.IntVal(-1)], lambda st, i: [z3.If(at(i), i, st[0])], expand=True)

    def chk_delay(E, i, v):
        w = LAST.at(i)[0]
        if v is None:
            return z3.Or(w < 0, z3.Not(scr.HASD(w)))
        if not lib.is_num(v):
            return z3.BoolVal(False)
        return z3.And(w >= 0, scr.HASD(w), T(E, v) == scr.D(w))

    def inj_delay(E, i):
        w = LAST.at(i)[0]
        return Sym(scr.D(w)) if E.branch(z3.And(w >= 0, scr.HASD(w))) else None

    def chk_stim(E, i, v):
        w = LAST.at(i)[0]
        if v is UNBOUND or v is None:
            return w < 0
        if not isinstance(v, Stim):
            return False
        return z3.And(w >= 0, v.i == w, z3.BoolVal(v.upd == [] or (len(v.upd) == 1 and v.upd[0][0] == "cmd" and same(E, v.upd[0][1], cmd))))

    def inj_stim(E, i):
        w = LAST.at(i)[0]
        return Stim(scr, w, [("cmd", cmd)]) if E.branch(w >= 0) else UNBOUND

    class Find(LoopSpec):
        name = "the stimulus attended"

        def roles(self, E):
            return [Role("vis_delay", inj_delay, chk_delay, True), Role("stim", inj_stim, chk_stim)]

        def base(self, E):
            LAST.base()

        def unfold(self, E, i):
            LAST.unfold(i)
            scr.key(E, i)
            E.assume(z3.And(LAST.at(i)[0] < i, LAST.at(i)[0] >= -1))

        def at_exit(self, E, n):
            E.assume(z3.And(LAST.at(n)[0] < n, LAST.at(n)[0] >= -1))
    E.loops["screen"] = lambda E, fr, seq: Find()
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: run(E, VIS + "shift", [buf, other, None, vs, mp]))
    w = LAST.at(scr.n)[0]
    if st == "exc":
        E.prove("an error is raised only if the request is not resolved or nothing is at the requested position", z3.BoolVal(True) if bad else w < 0)
        if bad:
            E.prove("an unresolved request is an ACTRError", is_exc(E, r, "ACTRError"))
        return
    E.prove("an unresolved request is refused", not bad and ok and all(ok))
    E.prove("there is a stimulus at the requested position", w >= 0)
    E.prove("returns chunk, times, landing site", isinstance(r, tuple) and len(r) == 3)
    c, times, site = r
    times = E.to_list(times)
    E.prove("the chunk is made from the stimulus at the requested position", conj(len(made) == 1, lambda: c is made[0][0], lambda: made[0][1].i == w, made[0][2] == "visual", made[0][3] is False))
    E.prove("the command of the request is passed on to the chunk", len(made[0][1].upd) == 1 and made[0][1].upd[0][0] == "cmd")
    tx, ty = z3.ToReal(trunc(scr.PX(w))), z3.ToReal(trunc(scr.PY(w)))
    site = E.to_list(site)
    E.prove("three times", len(times) == 3 and len(site) == 2)
    if not emma:
        E.prove("without EMMA encoding takes 0.085 s, preparation 0, execution 0.085 s", conj(T(E, times[0]) == L.rv("0.085"), T(E, times[1]) == 0, T(E, times[2]) == L.rv("0.085")))
        E.prove("without EMMA the eye lands at the stimulus", conj(T(E, site[0]) == tx, T(E, site[1]) == ty))
        return
    one = lambda fn: len(calls[fn]) == 1
    a = calls["calculate_visual_angle"]
    ang = res.get("calculate_visual_angle")
    pair = lambda v, p, q: conj(len(E.to_list(v)) == 2, lambda: T(E, E.to_list(v)[0]) == p, lambda: T(E, E.to_list(v)[1]) == q)
    fx, fy = [T(E, v) for v in E.to_list(E.getattr(env, "current_focus"))]
    E.prove("the angle is from the current focus to the stimulus", conj(len(a) >= 1, *[lambda q=q: conj(pair(q["start_position"], fx, fy), pair(q["final_position"], tx, ty), eqv(E, q["screen_size"], E.getattr(env, "size")),
            eqv(E, q["simulated_screen_size"], E.getattr(env, "simulated_screen_size")), eqv(E, q["viewing_distance"], E.getattr(env, "viewing_distance"))) for q in a]))
    dl = calls["calculate_delay_visual_attention"]
    E.prove("encoding time from this angle, the settings and the stimulus's delay", conj(one("calculate_delay_visual_attention"), lambda: T(E, times[0]) == T(E, res["calculate_delay_visual_attention"]), lambda: eqv(E, dl[0]["angle_distance"], ang),
            lambda: eqv(E, dl[0]["K"], K), lambda: eqv(E, dl[0]["k"], k), lambda: dl[0]["emma_noise"] is noise,
            lambda: (z3.Not(scr.HASD(w)) if dl[0]["vis_delay"] is None else z3.And(scr.HASD(w), T(E, dl[0]["vis_delay"]) == scr.D(w)))))
    E.prove("preparation time by the settings", conj(one("calculate_preparation_time"), lambda: T(E, times[1]) == T(E, res["calculate_preparation_time"]), lambda: calls["calculate_preparation_time"][0]["emma_noise"] is noise))
    E.prove("execution time from this angle", conj(one("calculate_execution_time"), lambda: T(E, times[2]) == T(E, res["calculate_execution_time"]), lambda: eqv(E, calls["calculate_execution_time"][0]["angle_distance"], ang), lambda: calls["calculate_execution_time"][0]["emma_noise"] is noise))
    ls = calls["calculate_landing_site"]
    E.prove("landing site around the stimulus", conj(one("calculate_landing_site"), lambda: pair(ls[0]["position"], tx, ty), lambda: eqv(E, ls[0]["angle_distance"], ang), lambda: ls[0]["emma_landing_site_noise"] is lnoise,
            lambda: eqv(E, site[0], res["calculate_landing_site"][0]), lambda: eqv(E, site[1], res["calculate_landing_site"][1])))


def trunc(t):
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def module(E):
    log = []
    spy(E, "pyactr.declarative.DecMem.add", log)
    opaque_chunks(E)
    dm = decmem(E)
    old = chunk(E, "old") if E.choose(2, "full") else None
    buf = visual(E, dm, old)
    pr = rules_obj(E, DictV([["visual", buf]]), DictV([["visual", dm]]), params(E))
    return log, dm, old, buf, pr


def snap_(E, buf, log):
    return lambda: dict(state=state(E, buf), prep=state(E, buf, "preparation"), proc=state(E, buf, "processor"), exe=state(E, buf, "execution"), content=list(content(E, buf)), log=len(log), focus=[v for v in E.to_list(E.getattr(E.getattr(buf, "environment"), "current_focus"))])


@task(REG, "visualencode", [PR + "visualencode", PR + "clear", VIS + "add", VIS + "clear"])
def encode(E):
    log, dm, old, buf, pr = module(E)
    new = chunk(E, "new")
    time, extra = real(E, "time"), real(E, "encoding")
    E.assume(extra.t >= 0)
    E.cover("precondition satisfiable")
    evs, _ = drive(E, run(E, PR + "visualencode", [pr, "visual", buf, new, DictV(), time, extra, (real(E, "sx"), real(E, "sy"))]), snap_(E, buf, log))
    t = time.t + extra.t
    E.prove("every event is at the encoding time", z3.And(*[ev_at(E, e, t, "visual") for e, _ in evs]))
    E.prove("the chunk is there when its encoding is reported, not before the encoding time", len(evs) >= 2 and evs[-1][1]["content"] == [new] and evs[0][1]["content"] != [new])
    E.prove("the buffer ends up free with the new chunk", state(E, buf) == FREE and holds(E, buf, new) and evs[-1][1]["state"] == FREE)
    E.prove("the buffer is busy until then", all(s["state"] == BUSY for _, s in evs[:-1]))
    if old is None:
        E.prove("nothing is harvested from an empty buffer", log == [])
    else:
        E.prove("the old chunk is harvested once, at the encoding time", conj(len(log) == 1, lambda: same(E, log[0]["self"], dm), lambda: same(E, log[0]["element"], old), lambda: T(E, log[0]["time"]) == t))


def spy_encode(E, encs, buf):
    def body(e, cb):
        st = state(E, buf)
        E.setattr(buf, "state", BUSY)
        cb(("ENC", len(encs)))
        put(E, buf, e["chunk"])
        E.setattr(buf, "state", FREE)
        cb(("ENCODED", len(encs)))
    spy_gen(E, PR + "visualencode", encs, body=body)


def spy_shift(E, shifts, results):
    def res(rec):
        c = chunk(E, "encoded")
        t = (real(E, "encoding"), real(E, "preparation"), real(E, "execution"))
        for x in t:
            E.assume(x.t >= 0)
        site = (real(E, "landx"), real(E, "landy"))
        results.append((c, t, site))
        return c, t, site
    spy(E, VIS + "shift", shifts, res)


@task(REG, "visualshift", [PR + "visualshift"])
def preparation(E):
    log, dm, old, buf, pr = module(E)
    encs, shifts, results, conts = [], [], [], []
    spy_encode(E, encs, buf)
    spy_shift(E, shifts, results)

    def cont(E, args, kwargs):
        g = GenV(lambda cb: None, name="visualcontinue")
        conts.append((g, dict(E.bind(F(E, PR + "visualcontinue"), args, kwargs))))
        return g
    E.contracts[PR + "visualcontinue"] = cont
    other, vs, time = chunk(E, "request"), DictV(), real(E, "time")
    E.cover("precondition satisfiable")
    evs, _ = drive(E, run(E, PR + "visualshift", [pr, "visual", buf, other, vs, time]), snap_(E, buf, log))
    E.prove("the shift is computed once for the request", conj(len(shifts) == 1, lambda: same(E, shifts[0]["self"], buf), lambda: same(E, shifts[0]["otherchunk"], other), lambda: same(E, shifts[0]["actrvariables"], vs), lambda: same(E, shifts[0]["model_parameters"], E.getattr(pr, "model_parameters"))))
    c, (enc, prep, exe), site = results[0]
    plain = [i for i, (e, _) in enumerate(evs) if is_event(e)]
    E.prove("the start and the end of the preparation are reported", conj(len(plain) == 2, plain[0] == 0, lambda: ev_at(E, evs[0][0], time.t, "visual"), lambda: ev_at(E, evs[plain[1]][0], time.t + prep.t, "visual")))
    E.prove("busy from the start", evs[0][1]["state"] == BUSY and evs[0][1]["prep"] == BUSY and evs[0][1]["proc"] == BUSY)
    E.prove("preparation is not over before its end", all(s["prep"] == BUSY for _, s in evs[:plain[1] + 1]))
    enc_at = [i for i, (e, _) in enumerate(evs) if not is_event(e) and isinstance(e, tuple)]
    if enc_at:
        e = encs[0]
        E.prove("encoding ends at the encoding time, counted from the start", conj(len(encs) == 1, lambda: T(E, e["time"]) + T(E, e["extra_time"]) == time.t + enc.t))
        E.prove("the chunk of the stimulus is encoded, into this buffer, from the landing site", conj(same(E, e["chunk"], c), same(E, e["visualbuffer"], buf), e["name"] == "visual", eqv(E, e["site"], site)))
        E.prove("only an encoding that ends before the movement is carried out here", enc.t <= prep.t + exe.t)
        E.prove("it runs before the end of the preparation exactly if it ends before", (enc.t <= prep.t) if enc_at[0] < plain[1] else (enc.t > prep.t))
        E.prove("one encoding", enc_at == [enc_at[0], enc_at[0] + 1])
    else:
        E.prove("an encoding that ends before the movement does is carried out here", conj(len(encs) == 0, enc.t > prep.t + exe.t))
    E.prove("the shift goes on with the movement, once, after the preparation", conj(len(conts) == 1, lambda: evs[-1][0] is conts[0][0], lambda: T(E, conts[0][1]["time"]) == time.t + prep.t, lambda: same(E, conts[0][1]["visualbuffer"], buf), lambda: conts[0][1]["name"] == "visual",
            lambda: eqv(E, conts[0][1]["extra_time"], (enc, prep, exe)), lambda: eqv(E, conts[0][1]["landing_site"], site), lambda: same(E, conts[0][1]["otherchunk"], c)))
    E.prove("nothing else happens", conj(len(evs) == 3 + len(enc_at), log == []))


@task(REG, "visualcontinue", [PR + "visualcontinue", VIS + "move_eye", "pyactr.environment.Environment.current_focus"])
def movement(E):
    log, dm, old, buf, pr = module(E)
    for a in ("state", "preparation", "processor"):
        E.setattr(buf, a, BUSY)
    last, time = real(E, "end_of_last_movement"), real(E, "time")
    E.setattr(buf, "last_mvt", last)
    encs, shifts, results = [], [], []
    spy_encode(E, encs, buf)
    spy_shift(E, shifts, results)
    c, vs = chunk(E, "encoded"), DictV()
    enc, prep, exe = real(E, "encoding"), real(E, "preparation"), real(E, "execution")
    for x in (enc, prep, exe):
        E.assume(x.t >= 0)
    sx, sy = real(E, "sx"), real(E, "sy")
    f0 = E.to_list(E.getattr(E.getattr(buf, "environment"), "current_focus"))
    E.cover("precondition satisfiable")
    shift_focus = []
    old_shift = E.contracts[VIS + "shift"]

    def sh(E, a, k):
        shift_focus.append(E.to_list(E.getattr(E.getattr(buf, "environment"), "current_focus")))
        return old_shift(E, a, k)
    E.contracts[VIS + "shift"] = sh
    snap = snap_(E, buf, log)
    evs, _ = drive(E, run(E, PR + "visualcontinue", [pr, "visual", buf, c, vs, time, (enc, prep, exe), (sx, sy)]), lambda: dict(snap(), last=E.getattr(buf, "last_mvt")))
    start = z3.If(last.t > time.t, last.t, time.t)
    end = start + exe.t
    moved = lambda f: conj(len(f) == 2, lambda: T(E, f[0]) == z3.ToReal(trunc(sx.t)), lambda: T(E, f[1]) == z3.ToReal(trunc(sy.t)))
    still = lambda f: conj(len(f) == 2, lambda: T(E, f[0]) == T(E, f0[0]), lambda: T(E, f[1]) == T(E, f0[1]))
    plain = [i for i, (e, _) in enumerate(evs) if is_event(e)]
    E.prove("the movement starts when the last one is over, and its end is reported", conj(len(plain) == 2, plain == [0, 1], lambda: ev_at(E, evs[0][0], end, "visual"), lambda: ev_at(E, evs[1][0], end, "visual")))
    E.prove("the eye does not move before the end of the execution", still(evs[0][1]["focus"]))
    E.prove("the eye moves to the landing site at the end of the execution", moved(evs[1][1]["focus"]))
    E.prove("the next movement will wait for this one", conj(T(E, evs[0][1]["last"]) == end, T(E, E.getattr(buf, "last_mvt")) == end))
    E.prove("preparation is free, execution busy during the movement", evs[0][1]["prep"] == FREE and evs[0][1]["exe"] == BUSY and evs[0][1]["proc"] == BUSY)
    if encs:
        e = encs[0]
        E.prove("encoding goes on after the movement only if it outlasts it", enc.t > prep.t + exe.t)
        E.prove("the encoding is computed again from the landing site", conj(len(shifts) == 1, lambda: same(E, shifts[0]["otherchunk"], c), lambda: same(E, shifts[0]["self"], buf), lambda: same(E, shifts[0]["model_parameters"], E.getattr(pr, "model_parameters")), lambda: moved(shift_focus[0])))
        new = results[0][1][0]
        rem = E.fresh("rem", L.R)
        E.assume(rem * enc.t == (prep.t + exe.t))
        E.prove("the share of encoding that is left, of the new encoding time, follows the movement", conj(len(encs) == 1, lambda: z3.Implies(enc.t > 0, T(E, e["time"]) + T(E, e["extra_time"]) == end + (1 - rem) * new.t)))
        E.prove("the chunk is encoded in this buffer", conj(same(E, e["chunk"], c) or same(E, e["chunk"], results[0][0]), same(E, e["visualbuffer"], buf)))
        E.prove("the buffer ends up with the new chunk", holds(E, buf, e["chunk"]) and len(evs) == 4)
    else:
        E.prove("an encoding that outlasts the movement goes on after it", conj(enc.t <= prep.t + exe.t, len(evs) == 2))
        E.prove("otherwise the movement leaves the content as it is", holds(E, buf, old))
    E.prove("everything is free at the end", state(E, buf) == FREE and state(E, buf, "processor") == FREE and state(E, buf, "execution") == FREE and state(E, buf, "preparation") == FREE)
    E.prove("nothing is harvested by the movement", log == [])
