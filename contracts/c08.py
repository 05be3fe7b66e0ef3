"""C08: base-level activation is the ACT-R equation over the presentations strictly before now."""
from pyvc.api import *

PROPERTY = "C08"
REG = []
ASSUME = ["presentation times are finite numbers", "exp and log are uninterpreted functions with exp(x) > 0; x**y > 0 for x > 0"]


@task(REG, "baselevel_learning", ["pyactr.utilities.baselevel_learning"])
def bll(E):
    n = E.fresh("n", L.I)
    E.assume(n >= 0)
    a = E.fresh_fn("time", L.I, L.R)
    now, d = real(E, "now"), real(E, "decay")
    times = NdArr(n, lambda k: a(k))
    on = bool(E.choose(2, "bll"))
    opt = bool(E.choose(2, "optimized"))
    act = real(E, "act") if E.choose(2, "activation") else None
    if opt:
        E.assume(z3.And(d.t > 0, d.t < 1))
    E.cover("precondition satisfiable")
    k = z3.Int("k")
    past = lambda q: z3.And(q >= 0, q < n, a(q) < now.t)
    some = z3.Exists([k], past(k))
    st, r = attempt(E, lambda: run(E, "pyactr.utilities.baselevel_learning", [now, times, on, d, act, opt]))
    if not on:
        B = z3.RealVal(0)
        has = True
    else:
        has = E.branch(some)
        if has:
            # specification of B
            if not opt:
                B = L.LOG(L.SUMF(z3.Lambda([k], z3.If(a(k) < now.t, L.POW(now.t - a(k), -d.t), z3.RealVal(0))), n))
            else:
                cnt = L.SUMF(z3.Lambda([k], z3.If(z3.And(k >= 0, k < n, a(k) < now.t), z3.RealVal(1), z3.RealVal(0))), n)
                last = E.fresh("last", L.R)     # the latest presentation before now
                E.assume(z3.Exists([k], z3.And(past(k), a(k) == last)))
                E.assume(z3.ForAll([k], z3.Implies(past(k), a(k) <= last)))
                B = L.LOG(cnt / (1 - d.t)) - d.t * L.LOG(now.t - last)
    if not has and act is None:
        E.prove("a chunk with no past presentation and no base activation has no base level", st == "exc" and is_exc(E, r, "UnboundLocalError"))
        return
    E.prove("a value is returned", st == "ok")
    if st != "ok":
        return
    got = T(E, r)
    if not has:
        E.prove("without past presentations the base activation alone counts", got == act.t)
    elif act is None:
        E.prove("base level follows the equation", got == B)
    else:
        E.prove("base level and base activation are combined as ln(e^B + e^a)", got == L.LOG(L.EXP(B) + L.EXP(act.t)))
