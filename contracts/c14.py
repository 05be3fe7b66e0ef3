"""C14: the rule selected is an applicable rule of highest utility."""
from .procworld import *

PROPERTY = "C14"
REG = []
ASSUME = ["C14: rules have different, non-empty names; whether the conditions of a rule hold is LHStest (C15); one draw of noise per call of calculate_instantaneous_noise, 0 if the noise is 0 (C10)"]


def mk(noisy):
    def run_(E):
        w = world(E, noisy)
        R = w.rules
        w.time = real(E, "time")
        E.contracts[PR + "update"] = lambda E, a, k: GenV(lambda cb: None, name="update")
        E.contracts[PR + "compile_rules"] = lambda E, a, k: (None, None)
        E.cover("precondition satisfiable")
        st, r = attempt(E, lambda: cycle(E, w))
        E.prove("no error", st == "ok")
        if st != "ok":
            return
        evs = [v for v, _ in r]
        E.prove("the cycle starts with conflict resolution", ev_at(E, evs[0], w.time.t, "PROCEDURAL", "CONFLICT RESOLUTION"))
        second = evs[1]
        none = conj(is_event(second), lambda: eqv(E, second.get("action"), "NO RULE FOUND"))
        if E.branch(none):
            E.prove("no rule is selected only if no rule applies", z3.Not(w.APPL(w.k)))
            E.prove("at the same time", ev_at(E, second, w.time.t, "PROCEDURAL"))
            E.prove("nothing else happens", len(evs) == 3 and R.used == [] and w.tests == [])
            return
        act = E.str_term(second.get("action"))
        pre = "RULE SELECTED: "
        name = z3.SubString(act, len(pre), z3.Length(act) - len(pre))
        p = R.IDX(name)
        E.prove("otherwise a rule is selected, at the same time", z3.And(ev_time(E, second, w.time.t), b(eqv(E, second.get("proc"), "PROCEDURAL")), z3.PrefixOf(z3.StringVal(pre), act), R.rng(p), R.NAME(p) == name))
        E.prove("the rule selected applies", w.APPL(p))
        E.prove("no applicable rule has a higher utility", z3.Implies(w.APPL(w.k), utility(w, w.k) <= utility(w, p)))
        E.prove("its use is recorded", conj(len(R.used) == 1, lambda: E.str_term(R.used[0][0]) == name, lambda: T(E, R.used[0][1]) == w.time.t))
        E.prove("it is the rule whose conditions are tested when it fires", conj(len(w.tests) == 1, lambda: w.tests[0][0] == p))
    return run_


REG.append(Task("selection with subsymbolic level", mk(True), [PROC]))
REG.append(Task("selection without subsymbolic level", mk(False), [PROC]))
