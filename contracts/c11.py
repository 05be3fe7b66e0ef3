"""C11: retrieval time follows the latency equation and the buffer follows the result."""
from .dmretrieve import *

PROPERTY = "C11"
REG = []
PR = "pyactr.productions.ProductionRules."
ASSUME = ["C11: which chunk is retrieved, and that its activation is the highest, is proved in C10; exp is an uninterpreted function",
          "C11: DecMemBuffer.retrieve is used in the retrieval process through its contract: a chunk or nothing, and a time (proved in C10 and here)"]


def mk(sub, pm):
    def time_(E):
        S = retrieval_setting(E, sub, pm, mode="time")
        E.cover("precondition satisfiable")
        st, r = attempt(E, lambda: run(E, RET, S.args))
        if st == "exc":
            return
        E.prove("retrieve returns a chunk and a time", isinstance(r, tuple) and len(r) == 2)
        t = T(E, r[1])
        if r[0] is None:
            E.prove("a failure takes the latency of the threshold" if sub else "a failure takes one rule firing", t == (S.latency(S.p["retrieval_threshold"].t) if sub else S.p["rule_firing"].t))
        elif sub:
            E.prove("a success takes F*e^(-f*A) for the activation of the chunk retrieved", t == S.latency(S.A(S.mem.POS(lib.cid_of(E, r[0])))))
        else:
            E.prove("a symbolic retrieval takes no time", t == 0)
    return time_


REG.append(Task("time: symbolic", mk(False, False), RETFNS))
REG.append(Task("time: subsymbolic", mk(True, False), RETFNS))
REG.append(Task("time: partial matching", mk(True, True), RETFNS))


@task(REG, "retrieval_latency", [UT + "retrieval_latency"])
def latency(E):
    a, f, e = real(E, "activation"), real(E, "factor"), real(E, "exponent")
    E.prove("latency is F*e^(-f*A)", T(E, run(E, UT + "retrieval_latency", [a, f, e])) == f.t * L.EXP(-(e.t * a.t)))


@task(REG, "process", [PR + "retrieve", "pyactr.declarative.DecMemBuffer.add", "pyactr.declarative.DecMemBuffer.clear"])
def process(E):
    log, calls = [], []
    spy(E, "pyactr.declarative.DecMem.add", log)
    E.contracts["pyactr.chunks.Chunk._asdict"] = lambda E, a, k: DictV()
    opaque_chunks(E)
    dm = decmem(E)
    c0 = chunk(E, "old") if E.choose(2, "full") else None
    buf = retrieval(E, dm, c0)
    E.setattr(buf, "state", BUSY)
    comp = bool(E.choose(2, "compilation"))
    mp = params(E, production_compilation=comp)
    found = chunk(E, "found") if E.choose(2, "found") else None
    extra = real(E, "extra_time")
    E.assume(extra.t >= 0)
    other = chunk(E, "request")
    time = real(E, "time")
    vs = DictV([["=x", string(E, "x")]])
    bufs = DictV([["b", buf]])
    tests = DictV([["recently_retrieved", string(E, "v")]])
    has_tests = E.choose(2, "tests")
    pr = rules_obj(E, bufs, DictV([["b", dm]]), mp)
    E.setattr(pr, "extra_tests", DictV([["b", tests]]) if has_tests else DictV([["other", tests]]))
    ownparams = DictV() if E.choose(2, "own") else DictV([["latency_factor", real(E, "F")]])
    E.setattr(buf, "model_parameters", ownparams)

    def before(rec):
        rec["content"] = list(content(E, buf))
        rec["state"] = state(E, buf)
        rec["events"] = len(out)
    spy(E, RET, calls, lambda rec: (found, extra), before=before)
    out = []
    E.cover("precondition satisfiable")
    g = run(E, PR + "retrieve", [pr, "b", buf, other, vs, time])
    ret = g.run(lambda v: out.append((v, (state(E, buf), list(content(E, buf)), len(log)))))
    end = time.t + extra.t
    E.prove("the memory is searched once, for the request, at the start", conj(len(calls) == 1, lambda: same(E, calls[0]["self"], buf), lambda: eqv(E, calls[0]["time"], time), lambda: same(E, calls[0]["otherchunk"], other),
            lambda: same(E, calls[0]["actrvariables"], vs), lambda: same(E, calls[0]["model_parameters"], mp) or b(eqv(E, calls[0]["model_parameters"], mp)), lambda: same(E, calls[0]["buffers"], bufs)))
    E.prove("with the tests registered for this buffer only", same(E, calls[0]["extra_tests"], tests) if has_tests else len(E.to_list(calls[0]["extra_tests"])) == 0)
    E.prove("the start is reported at once", conj(len(out) >= 2, lambda: ev_at(E, out[0][0], time.t, "b", "START RETRIEVAL")))
    E.prove("every other event is at the end of the retrieval", z3.And(*[ev_at(E, e, end, "b") for e, _ in out[1:]]))
    before_end = [s for _, s in out[:-1]]
    E.prove("until the end the buffer keeps its content, is busy, and nothing is harvested", all(s[0] == BUSY and s[1] == ([c0] if c0 is not None else []) and s[2] == 0 for s in before_end))
    E.prove("the passing of the retrieval time is waited for", conj(len(out) >= 3, lambda: ev_time(E, out[1][0], end)))
    last = out[-1][1]
    if found is not None:
        E.prove("at the end the retrieved chunk is in the buffer, which is free", last[0] == FREE and last[1] == [found] and state(E, buf) == FREE and holds(E, buf, found))
        if c0 is None:
            E.prove("nothing is harvested from an empty buffer", len(log) == 0)
        else:
            E.prove("the old chunk is harvested once, at that time", conj(len(log) == 1, lambda: same(E, log[0]["self"], dm), lambda: same(E, log[0]["element"], c0), lambda: T(E, log[0]["time"]) == end))
    else:
        E.prove("after a failure the buffer keeps its content and is in the error state", last[0] == ERROR and state(E, buf) == ERROR and holds(E, buf, c0) and len(log) == 0)
