"""C15 on real buffers: conditions of a rule, and changes between selection and firing."""
from .modelkit import *
from .chunkkit import atoms, build, content, canon, canon_bv, match_oracle, slots_of
from . import common
common.CASES.clear()

NAMES = ["g", "h", "visual", "r", "m", "loc"]


def rand_buffers(rng, at):
    dm = declarative.DecMem()
    env = environment.Environment(focus_position=(0, 0))
    bufs = {"g": goals.Goal(), "h": goals.Goal(), "r": declarative.DecMemBuffer(dm), "visual": vision.Visual(env, dm), "loc": vision.VisualLocation(env, dm), "m": motor.Motor()}
    for nm, b in bufs.items():
        b.state = rng.choice(["free", "busy", "error"])
        if nm in ("visual", "m"):
            b.preparation = rng.choice(["free", "busy"])
            b.processor = rng.choice(["free", "busy"])
            b.execution = rng.choice(["free", "busy"])
        if nm != "m" and rng.random() < 0.85:
            b._data = {rand_content(rng, at, nm)}
    return bufs


def rand_content(rng, at, nm):
    return build("chunk" + nm, {s: content(rng, at, pattern=False)[0] for s in rng.sample(["a", "b", "c"], rng.nat(1, 3))})


def rand_conditions(rng, at, bufs, names=NAMES):
    conds = {}
    for _ in range(rng.nat(0, 4)):
        nm = rng.choice(names)
        if rng.random() < 0.6 and nm != "m":
            slots = {s: content(rng, at)[0] for s in rng.sample(["a", "b", "c"], rng.nat(0, 2))}
            if rng.random() < 0.5 and bufs[nm]._data:       # likely to match
                real = slots_of(list(bufs[nm])[0])
                slots = {s: (v if rng.random() < 0.3 or s not in real or not isinstance(real[s]["val"], str) else
                             utilities.VarvalClass(values=real[s]["val"] if rng.random() < 0.5 else None, variables=rng.choice([None, "x", "y", "g"]), negvalues=(), negvariables=())) for s, v in slots.items()}
            conds["=" + nm] = build("pat" + nm, slots)
        else:
            q = {}
            for _ in range(rng.nat(0, 2)):
                k = rng.choice(["buffer", "state"] + (["preparation", "processor", "execution"] if nm in ("visual", "m") else []))
                q[k] = rng.choice(["full", "empty", "busy", "free", "other"]) if k == "buffer" else getattr(bufs[nm], k) if rng.random() < 0.7 else rng.choice(["free", "busy", "error"])
                if k == "buffer" and rng.random() < 0.6:
                    q[k] = "full" if bufs[nm]._data else "empty"
            conds["?" + nm] = q
    ks = list(conds)
    rng.shuffle(ks)
    return {k: conds[k] for k in ks}


def oracle(conds, bufs):
    """-> (holds, bindings), by the statement"""
    bv = {}
    for k, what in conds.items():
        buf = bufs.get(k[1:])
        if k[0] == "?":
            for a, v in what.items():
                if a == "buffer":
                    if v != ("full" if buf._data else "empty"):
                        return False, None
                elif getattr(buf, a) != v:
                    return False, None
        else:
            if buf is None or not buf._data:
                return False, None
            c = list(buf._data)[0]
            if k in bv and bv[k] != canon(c):
                return False, None
            viol, bv = match_oracle(what, c, bv)
            if viol:
                return False, None
            bv[k] = canon(c)
    return True, bv


def shot(bufs):
    return {nm: (b.state, sorted(map(id, b._data)), [getattr(b, a, None) for a in ("preparation", "processor", "execution")]) for nm, b in bufs.items()}


@case
def conditions(rng, C):
    at = atoms(rng)
    bufs = rand_buffers(rng, at)
    conds = rand_conditions(rng, at, bufs)
    pr = prules(bufs, {}, params())
    pr._ProductionRules__actrvariables = own = {"=own": "1"}
    upd = rng.choice([None, True, False])
    before = shot(bufs)
    C.note(conditions={k: str(v) for k, v in conds.items()}, contents={k: str(b) for k, b in bufs.items()}, update=upd)
    want, bv = oracle(conds, bufs)
    got = pr.LHStest(conds, {}) if upd is None else pr.LHStest(conds, {}, upd)
    C.check(got is want, "the conditions hold", expected=want, got=got)
    C.check(shot(bufs) == before, "testing changed a buffer")
    now = pr._ProductionRules__actrvariables
    if upd and want:
        C.check(canon_bv(now) == bv, "bindings after the test", expected=bv, got=canon_bv(now))
    else:
        C.check(now is own and own == {"=own": "1"}, "the bindings changed without firing", got=now)


@case
def refused(rng, C):
    at = atoms(rng)
    bufs = rand_buffers(rng, at)
    pr = prules(bufs, {}, params())
    pr.used_rulename = "rule"
    sign = rng.choice([c for c in "~!+*@#$a 1" if c not in "=?"])
    C.note(sign=sign)
    C.raises(utilities.ACTRError, lambda: pr.LHStest({sign + "g": {}}, {}), "a condition with an invalid sign is taken")


@case
def firing(rng, C):
    at = atoms(rng)
    bufs = {"g": goals.Goal(), "h": goals.Goal()}
    for nm, b in bufs.items():
        if rng.random() < 0.9:
            b._data = {rand_content(rng, at, nm)}
    conds = rand_conditions(rng, at, bufs, "gh")
    acts = []

    def rule():
        yield conds
        yield {"mark": 1}
    rs = productions.Productions()
    rs["r"] = {"rule": rule, "utility": 0, "reward": rng.choice([None, 3])}
    p = params(rule_firing=rng.choice([0.05, 0.1, 0]), utility_learning=rng.choice([True, False]), utility_alpha=0.2, strict_harvesting=False)
    pr = prules(bufs, {}, p, rs)

    def update(rhs, time):
        acts.append((rhs, time, canon_bv(pr._ProductionRules__actrvariables), phase[0]))
        return iter([])
    pr.update = update
    phase = [0]
    t0 = rng.real(0, 9)
    if rng.random() < 0.5:
        pr._ProductionRules__actrvariables = {"=x": rng.choice(at), "=g": rng.choice(at)}      # left from the cycle before
    first, _ = oracle(conds, bufs)
    change = rng.choice(["nothing", "content", "clear", "state"])
    when_ = rng.choice(["selected", "time"])
    C.note(conditions={k: str(v) for k, v in conds.items()}, change=change, at=when_, start=t0, contents={k: str(b) for k, b in bufs.items()})

    def disturb():
        b = bufs[rng.choice("gh")]
        if change == "content":
            b._data = {rand_content(rng, at, "g")}
        elif change == "clear":
            b._data = set()
        elif change == "state":
            b.state = rng.choice(["busy", "error"])
    evs = []
    again = bv = None
    for e in pr.procedural_process(t0):
        if not isev(e):
            continue
        evs.append(e)
        if e.action.startswith("RULE SELECTED") and when_ == "selected":
            disturb()
        if len(evs) == 3:
            phase[0] = 1
            if when_ == "time":
                disturb()
            again, bv = oracle(conds, bufs)
            C.note(later={k: str(b) for k, b in bufs.items()})
    names = [e.action for e in evs]
    if not first:
        C.check("NO RULE FOUND" in names and not acts, "a rule fires though its conditions do not hold", events=names)
        return
    t = t0 + p["rule_firing"]
    C.check(len(evs) == 4 and names[1] == "RULE SELECTED: r", "events of the cycle", events=names)
    C.check(when(evs[1], t0) and when(evs[2], t) and when(evs[3], t), "times of the cycle", events=evs)
    if again:
        C.check(names[3] == "RULE FIRED: r" and len(acts) == 1, "a rule does not fire though its conditions still hold", events=names)
        rhs, at_, b, ph = acts[0]
        C.check(rhs == {"mark": 1} and abs(at_ - t) < 1e-9 and ph == 1, "what is carried out, and when", got=acts)
        C.check(b == bv, "bindings when firing", expected=bv, got=b)
    else:
        C.check(names[3] == "RULE STOPPED FROM FIRING: r" and not acts, "a rule fires though its conditions do not hold any more", events=names)
        C.check(rs["r"]["utility"] == 0 and pr.last_rule is None, "a stopped rule changed something", utility=rs["r"]["utility"])
        C.check(pr._ProductionRules__actrvariables == {}, "bindings after a stopped rule", got=pr._ProductionRules__actrvariables)
