"""C18: the phases of a key press."""
from .common import *
from . import cbv

PROPERTY = "C18"
REG = []
PR = "pyactr.productions.ProductionRules."
LEFT = ("1", "2", "3", "4", "5", "Q", "W", "E", "R", "T", "A", "S", "D", "F", "G", "Z", "X", "C", "V", "B", "SPACE")
RIGHT = ("6", "7", "8", "9", "0", "Y", "U", "I", "O", "P", "H", "J", "K", "L", "N", "M", "SPACE")
KEYS = sorted(set(LEFT + RIGHT))
HOME = ("A", "S", "D", "F", "J", "K", "L", "SPACE")
ASSUME = ["C18: the documented durations (preparation, initiation, execution, finish): home keys and space .15 .05 .01 .09; 5 and 6 .25 .05 .11 .16; other keys .25 .05 .1 .15 (as in Lisp ACT-R); SPACE counts as a left-hand key",
          "C18: rely of a running press: other presses of the module may set last_key and the states between its steps as motorcontinue does (last_key[1] is then a later time)"]


def isin(k, xs):
    return z3.Or([k == z3.StringVal(x) for x in xs])


def durations(k):
    """(preparation, initiation, execution, finish) of key k"""
    t = lambda a, b, c: z3.If(isin(k, HOME), L.rv(a), z3.If(isin(k, ("5", "6")), L.rv(b), L.rv(c)))
    return t("0.15", "0.25", "0.25"), t("0.05", "0.05", "0.05"), t("0.01", "0.11", "0.1"), t("0.09", "0.16", "0.15")


def varval(E, v):
    return E.call(E.modules["pyactr.utilities"].ns["VarvalClass"], [], dict(variables=None, values=v, negvariables=(), negvalues=()))


def press(E, key):
    r = lib.chunk_obj(E, E.fresh("press", L.I))
    r.attrs["key"] = varval(E, key)
    r.attrs["cmd"] = varval(E, "press_key")
    return r


@task(REG, "motorset", [PR + "motorset"])
def motorset(E):
    m = E.instantiate(cls(E, "pyactr.motor.Motor"), [], {})
    key, last = string(E, "key"), string(E, "last")
    E.assume(isin(key.t, KEYS))
    E.assume(isin(last.t, KEYS))
    fin = real(E, "finish")
    E.assume(fin.t >= 0)
    first = E.choose(2, "first press")
    prepared = bool(E.choose(2, "motor_prepared"))
    E.setattr(m, "last_key", ListV([None, 0]) if first else ListV([last, fin]))
    created = []
    chunk_ = press(E, key)
    spy(E, "pyactr.motor.Motor.create", created, chunk_)
    conts = []

    def cont(E, args, kwargs):
        g = GenV(lambda cb: None, name="motorcontinue")
        conts.append((g, dict(E.bind(F(E, PR + "motorcontinue"), args, kwargs))))
        return g
    E.contracts[PR + "motorcontinue"] = cont
    pr = rules_obj(E, DictV([["manual", m]]), None, params(E, motor_prepared=prepared))
    var = DictV()
    req = chunk(E, "req")
    opaque_chunks(E)
    time = real(E, "time")
    E.cover("precondition satisfiable")
    snap = lambda: (state(E, m), state(E, m, "preparation"), state(E, m, "processor"), state(E, m, "execution"), E.to_list(E.getattr(m, "last_key")))
    evs, _ = drive(E, run(E, PR + "motorset", [pr, "manual", m, req, var, time]), snap)
    D = durations(key.t)
    k, l = key.t, last.t
    if first:
        prep = L.rv(0) if prepared else D[0]
    else:
        prep = z3.If(z3.Or(z3.BoolVal(prepared), k == l), L.rv(0), z3.If(isin(k, HOME) == isin(l, HOME), z3.If(isin(k, LEFT) == isin(l, LEFT), D[0] - L.rv("0.1"), D[0] - L.rv("0.05")), D[0]))
    E.prove("the chunk to press is created once, from the request and the bindings", conj(len(created) == 1, lambda: same(E, created[0]["otherchunk"], req), lambda: same(E, created[0]["actrvariables"], var)))
    E.prove("two events and the rest of the press", len(evs) == 3 and len(conts) == 1 and evs[2][0] is conts[0][0])
    E.prove("the command is reported at once", conj(lambda: ev_at(E, evs[0][0], time.t, "manual")))
    E.prove("preparation ends after its documented time", conj(lambda: ev_at(E, evs[1][0], time.t + prep, "manual", "PREPARATION COMPLETE")))
    c = conts[0][1]
    E.prove("the press goes on with the same key from the end of the preparation", conj(same(E, c["otherchunk"], chunk_), T(E, c["time"]) == time.t + prep, same(E, c["motorbuffer"], m), c["name"] == "manual"))
    tp = E.to_list(c["time_presses"])
    E.prove("the durations of the key are the documented ones", conj(len(tp) == 4, *[T(E, tp[j]) == D[j] for j in range(4)]))
    for j in (0, 1):
        E.prove("state, preparation and processor are busy during the preparation, execution is not yet", evs[j][1][:3] == (BUSY, BUSY, BUSY) and evs[j][1][3] == FREE)
    E.prove("the prepared first movement is used up", E.getitem(E.getattr(pr, "model_parameters"), "motor_prepared") is False or not prepared)
    E.prove("the previous key stays the last one until initiation", conj(*[eqv(E, a, b_) for a, b_ in zip(evs[2][1][4], [None, 0] if first else [last, fin])]))


@task(REG, "motorcontinue", [PR + "motorcontinue"])
def motorcontinue(E):
    m = E.instantiate(cls(E, "pyactr.motor.Motor"), [], {})
    key, last = string(E, "key"), string(E, "last")
    E.assume(isin(key.t, KEYS))
    run_end = real(E, "end_of_running_press")
    time = real(E, "time")
    E.assume(time.t >= 0)
    E.assume(run_end.t >= 0)
    first = E.choose(2, "first press")
    E.assume(z3.Or(run_end.t == 0, run_end.t >= time.t))         # a press that is recorded as running is not over yet
    E.setattr(m, "last_key", ListV([None, 0]) if first else ListV([last, run_end]))
    for a in ("state", "preparation", "processor"):
        E.setattr(m, a, BUSY)
    D = durations(key.t)
    pr = rules_obj(E, DictV([["manual", m]]))
    others = [string(E, "other%d" % j) for j in range(1)]
    E.setattr(pr, "env_interaction", SetV([]))
    E.cover("precondition satisfiable")
    # another press may start its own continuation between two steps (at most the last of them counts)
    step = E.choose(5, "another press goes on to initiation")
    prep = 0 if step else E.choose(4, "another press is prepared")          # its preparation lasts beyond the end of this one
    if prep:
        prep += 1           # not before the end of the initiation
    later = real(E, "later_end")
    okey = string(E, "okey")
    start = time.t if first else z3.If(run_end.t != 0, run_end.t, time.t)
    t1 = start + D[1]
    t2 = t1 + D[2]
    t3 = t2 + D[3]
    E.assume(later.t > t3)
    out = []

    def cb(v):
        out.append((v, state(E, m), state(E, m, "preparation"), state(E, m, "processor"), state(E, m, "execution"), list(E.to_list(E.getattr(pr, "env_interaction"))), E.to_list(E.getattr(m, "last_key"))))
        if step and len(out) == step:
            lk = E.getattr(m, "last_key")
            E.setitem(lk, 0, okey)
            E.setitem(lk, 1, later)
            E.setattr(m, "preparation", FREE)
            E.setattr(m, "execution", BUSY)
            E.setattr(m, "state", BUSY)
            E.setattr(m, "processor", BUSY)
        if prep and len(out) == prep:
            for a in ("state", "preparation", "processor"):
                E.setattr(m, a, BUSY)
    g = run(E, PR + "motorcontinue", [pr, "manual", m, press(E, key), DictV(), time, tuple(Sym(x) for x in D)])
    g.run(cb)
    E.prove("the press has four further steps", len(out) == 4)
    E.prove("initiation starts when the previous press has finished, and takes its time", ev_at(E, out[0][0], t1, "manual", "INITIATION COMPLETE"))
    E.prove("execution takes its time", z3.And(ev_at(E, out[1][0], t2, "manual"), ev_at(E, out[2][0], t2, "manual")))
    E.prove("the finishing movement takes its time", ev_at(E, out[3][0], t3, "manual", "MOVEMENT FINISHED"))
    E.prove("during initiation the preparation is over and the module is busy", out[0][1:5] == (BUSY, FREE, BUSY, BUSY))
    E.prove("the key and the end of its movement are recorded", conj(eqv(E, out[0][6][0], key), T(E, out[0][6][1]) == t3))
    E.prove("after initiation the processor is free", out[1][3] == FREE if step != 1 else True)
    for j in (1, 2, 3):
        E.prove("the module is busy until the movement has finished", out[j][1] == BUSY and out[j][4] == BUSY)
    E.prove("the key does not count as pressed before the end of execution", out[0][5] == [] and out[1][5] == [])
    for j in (2, 3):
        E.prove("the key counts as pressed from the end of execution to the end of the movement", conj(len(out[j][5]) == 1, lambda: eqv(E, out[j][5][0], key)))
    E.prove("afterwards the key no longer counts as pressed", E.to_list(E.getattr(pr, "env_interaction")) == [])
    lk = E.to_list(E.getattr(m, "last_key"))
    if step:
        E.prove("while another press waits the module stays busy", state(E, m) == BUSY and state(E, m, "execution") == BUSY)
        E.prove("the waiting press keeps its end and key", conj(T(E, lk[1]) == later.t, eqv(E, lk[0], okey)))
    elif prep:
        E.prove("while another press is prepared the module stays busy", (state(E, m), state(E, m, "preparation"), state(E, m, "processor"), state(E, m, "execution")) == (BUSY, BUSY, BUSY, FREE))
        E.prove("no press is running any more, and the key is remembered", conj(T(E, lk[1]) == 0, eqv(E, lk[0], key)))
    else:
        E.prove("afterwards the module is free", (state(E, m), state(E, m, "preparation"), state(E, m, "processor"), state(E, m, "execution")) == (FREE, FREE, FREE, FREE))
        E.prove("no press is running any more, and the key is remembered", conj(T(E, lk[1]) == 0, eqv(E, lk[0], key)))


UP = L.UPPER


@task(REG, "Motor.create", ["pyactr.motor.Motor.create"])
def create(E):
    cbv.setup(E)
    calls, news = [], []
    cbv.install(E, calls)
    cbv.install_chunk(E, news, ("cmd", "key"))
    m = E.instantiate(cls(E, "pyactr.motor.Motor"), [], {})
    o = cbv.achunk(E, "request")
    co = cbv.cid(E, o)
    vm = cbv.abschunk.bindings(E.fresh("bound", L.I))
    nobind = E.choose(2, "no bindings given")
    H, V = (z3.K(L.S, z3.BoolVal(False)), z3.K(L.S, cbv.Val.none)) if nobind else (vm.has, vm.val)
    want = {}
    for s in ("cmd", "key"):
        t = z3.StringVal(s)
        cbv.abschunk.name_fact(E, co, t)
        cbv.wf_content(E, L.SLOT(co, t))
        content = L.SLOT(co, t)
        us = z3.And(L.HASN(co, t), cbv.used(E, content))
        E.assume(us)            # a command and a key are given
        want[s] = cbv.VALUE(content, H, V)
        err = cbv.ERR(content, H, V, z3.BoolVal(True))
        want[s, "err"] = err
        E.assume(z3.Or(cbv.Val.is_vstr(want[s]), cbv.Val.is_none(want[s])) if s == "cmd" else cbv.Val.is_vstr(want[s]))
    E.cover("precondition satisfiable")
    st, r = attempt(E, lambda: run(E, "pyactr.motor.Motor.create", [m, o] + ([] if nobind else [vm])))
    ok_cmd = want["cmd"] == cbv.Val.vstr(z3.StringVal("press_key"))
    ok_key = isin(UP(cbv.Val.s(want["key"])), KEYS)
    if st == "exc":
        E.prove("a refusal is an ACTRError", z3.BoolVal(is_exc(E, r, "ACTRError")))
        j = z3.Int("j!mc")
        c = L.SLOT(co, L.NAMEAT(co, j))
        anyerr = z3.Exists([j], z3.And(j >= 0, j < L.NSLOTS(co), cbv.used(E, c), cbv.ERR(c, H, V, z3.BoolVal(True))))
        E.prove("a press is refused only for an unresolvable value, another command or a key that does not exist", z3.Or(anyerr, z3.Not(ok_cmd), z3.Not(ok_key)))
        return
    E.prove("only the command press_key is carried out", ok_cmd)
    E.prove("a key that does not exist is refused", ok_key)
    new = news[-1]
    E.prove("the chunk returned is the one created, of the manual type", conj(r is new.obj, eqv(E, new.typename, "_manual")))
    has, got = cbv.slot_of_new(E, new, z3.StringVal("key"))
    E.prove("its key is the requested key in upper case", z3.And(has, cbv.SV.is_sv(got), cbv.SV.vals(got) == cbv.Val.vstr(UP(cbv.Val.s(want["key"])))))
    has, got = cbv.slot_of_new(E, new, z3.StringVal("cmd"))
    E.prove("its command is the requested one", z3.And(has, cbv.SV.vals(got) == want["cmd"]))
    E.prove("unresolvable values are refused", z3.And(z3.Not(want["cmd", "err"]), z3.Not(want["key", "err"])))
