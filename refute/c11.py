"""C11 on real buffers: latency, and the process of a retrieval."""
from .retrkit import *
from . import modelkit as K


@case
def latency(rng, C):
    r = retrieval(rng, C)
    if r.error:
        raise Skip()
    got, t = call(rng, r)
    p = r.p
    if got is None:
        want = p["latency_factor"] * math.exp(-p["latency_exponent"] * p["retrieval_threshold"]) if r.sub else p["rule_firing"]
    elif not r.sub:
        want = 0
    else:
        js = [j for j in range(len(r.mem)) if r.mem[j] is got]
        if not js or js[0] not in r.A:
            raise Skip()        # C10
        want = p["latency_factor"] * math.exp(-p["latency_exponent"] * r.A[js[0]])
    C.check(close(t, want), "the retrieval takes %r" % (t,), want=want, got=repr(got))


@case
def process(rng, C):
    dm = K.spydm()
    found = rng.random() < 0.6
    full = rng.random() < 0.7
    b = declarative.DecMemBuffer(dm)
    c0 = K.mk("oldchunk", a="1")
    if full:
        b.add(c0)
    F = rng.choice([0.0, 0.1, rng.real(0, 2)])
    sub = rng.random() < 0.7
    if found:
        dm[K.mk("wanted", a="x")] = np.array([0.0])
    p = K.params(subsymbolic=sub, latency_factor=F, retrieval_threshold=-50 if found else rng.real(-1, 2), rule_firing=rng.choice([0.05, 0.1]), production_compilation=rng.random() < 0.3)
    if sub and rng.random() < 0.3:
        b.model_parameters = {"latency_factor": F}
        p["latency_factor"] = 17
    now = round(rng.real(0.5, 5), rng.choice([2, 4, 7]))
    req = K.mk("wanted", a="x")
    pr = K.prules({"retrieval": b}, {"retrieval": dm}, p)
    pr.extra_tests = rng.choice([{}, {"other": {"recently_retrieved": True}}])
    b.finst = rng.choice([0, 1])
    if found:
        want = F * math.exp(-utilities.baselevel_learning(now, dm[req], p["baselevel_learning"], p["decay"])) if sub else 0
    else:
        want = F * math.exp(-p["retrieval_threshold"]) if sub else p["rule_firing"]
    C.note(found=found, full=full, subsymbolic=sub, latency_factor=F, time=now, takes=want)
    dm.log.clear()
    b.state = b._BUSY
    evs, _ = K.drive(pr.retrieve("retrieval", b, req, {}, now), lambda: (b.state, [repr(x) for x in b], list(dm.log)))
    C.check(K.isev(evs[0][0]) and K.when(evs[0][0], now) and evs[0][0].action == "START RETRIEVAL", "the start is not reported at once", events=repr(evs))
    C.check(len(evs) >= 3 and all(K.when(e, now + want) for e, _ in evs[1:]), "an event is not at the end of the retrieval", events=repr(evs))
    C.check(all(s[0] == b._BUSY and s[1] == ([repr(c0)] if full else []) and not s[2] for _, s in evs[:-1]), "the buffer changes before the end", events=repr(evs))
    last = evs[-1][1]
    if found:
        C.check(b.state == b._FREE and last[0] == b._FREE, "the buffer is not free afterwards", events=repr(evs))
        C.check([repr(x) for x in b] == [repr(req)], "the buffer does not hold the retrieved chunk", events=repr(evs))
        C.check(len(dm.log) == (1 if full else 0) and all(c is c0 and close(t, now + want) for c, t in dm.log), "the old chunk is not harvested exactly once, at the end", log=repr(dm.log))
    else:
        C.check(b.state == b._ERROR and last[0] == b._ERROR, "a failure does not leave the error state", events=repr(evs))
        C.check([repr(x) for x in b] == ([repr(c0)] if full else []) and not dm.log, "a failure changes the buffer", events=repr(evs))
