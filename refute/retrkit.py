"""A random retrieval from a random memory, with what the statements of C10-C12 say about it."""
import math
import numpy as np
from .chunkkit import *
from .c06 import bindings, resolve
from . import common
common.CASES.clear()
from pyactr import declarative, goals, model


class R:
    pass


def retrieval(rng, C, finst=None):
    r = R()
    at = atoms(rng)
    names = ["a", "b", "c"]
    r.dm = declarative.DecMem()
    sub = r.sub = rng.random() < 0.7
    pm = r.pm = sub and rng.random() < 0.35
    now = r.now = rng.choice([0.05 * rng.randint(1, 40), 0.1 + 0.05, round(rng.real(0.1, 5), rng.choice([2, 4, 9]))])
    stored = []
    cand = []
    for _ in range(rng.nat(0, 7)):
        tn = rng.choice(["memA", "memB"])
        slots = {s: content(rng, at, pattern=False)[0] for s in rng.sample(names, rng.randint(0 if rng.random() < 0.2 else 1, 3))}
        cand.append(build(tn, slots))
    for c in cand:
        ts = sorted(round(rng.real(0, now), 4) for _ in range(rng.randint(1, 3)))
        if rng.random() < 0.25:
            ts = [now]
        elif rng.random() < 0.1:
            ts = [now + 1]
        elif rng.random() < 0.1:
            ts.append(now)
        for t in ts:
            r.dm.add(c, t)
        if rng.random() < 0.25:
            r.dm.add_activation(c, rng.choice([0, rng.real(-2, 2)]))
    finst = r.finst = rng.choice([0, 0, 1, 2, 3]) if finst is None else finst
    b = r.buf = declarative.DecMemBuffer(r.dm, finst=finst)
    mem = r.mem = list(r.dm)
    for _ in range(rng.nat(0, finst)):
        b.recent.append(rng.choice(mem + [None, build("othr", {"a": None})]))
    r.recent = list(b.recent)
    p = r.p = dict(model.ACTRModel.MODEL_PARAMETERS)
    p.update(subsymbolic=sub, partial_matching=pm, baselevel_learning=rng.random() < 0.8, optimized_learning=rng.random() < 0.3, retrieval_threshold=rng.choice([0.0, -100, rng.real(-3, 3)]),
             latency_factor=rng.real(0.01, 2), latency_exponent=rng.choice([1.0, rng.real(0.1, 2)]), decay=rng.real(0.1, 0.9), mismatch_penalty=rng.choice([1, rng.real(0.1, 3)]), rule_firing=rng.choice([0.05, rng.real(0, 1)]),
             instantaneous_noise=rng.choice([0, 0, 0.5]), buffer_spreading_activation=rng.choice([{}, {"g": 1.5}]), strength_of_association=rng.real(0, 4))
    glob = dict(p)
    if rng.random() < 0.3:
        own = {k: p[k] for k in rng.sample(["retrieval_threshold", "latency_factor", "latency_exponent", "decay", "rule_firing"], 2)}
        b.model_parameters = own
        for k in own:
            glob[k] = rng.real(0.1, 2)
    r.glob = glob
    g = goals.Goal(None, r.dm)
    if rng.random() < 0.8:
        g.add(build("srct", {s: content(rng, at + (mem[:2]), pattern=False)[0] for s in ("x", "y")}))
    r.bufs = {"g": g, "retrieval": b}
    r.tests = rng.choice([{}, {}, {"recently_retrieved": False}, {"recently_retrieved": "False"}, {"recently_retrieved": True}, {"recently_retrieved": "True"}])
    bv = r.bv = bindings(rng, at)
    want, ds = {}, {}
    for s in rng.sample(names, rng.randint(1, 2)):
        v, d = content(rng, at, vars_=("x", "y", "z"))
        if d["val"] and d["var"]:
            d = dict(d, val=None)
            v = v._replace(values=None)
        want[s], ds[s] = v, d
    r.req = build("reqt", want)
    r.res = {s: resolve(d, bv, True) for s, d in ds.items()}
    shift = r.shift = rng.real(-2, 2) if p["instantaneous_noise"] else 0
    C.note(memory=repr(r.dm), activations=repr(r.dm.activations), recent=repr(r.recent), finst=finst, request=repr(r.req), bindings=repr(bv), tests=repr(r.tests), time=now, noise=shift,
           parameters={k: repr(glob[k]) for k in glob if glob[k] != model.ACTRModel.MODEL_PARAMETERS.get(k)}, own=repr(b.model_parameters), goal=repr(g))
    if "error" in r.res.values():
        r.error = True
        return r
    r.error = False
    pat = {s: utilities.VarvalClass(values=bv["=" + d["var"]] if d["var"] else d["val"], variables=None, negvalues=once(list(d["nvals"]) + [bv["=" + y] for y in d["nvars"]]), negvariables=()) for s, d in ds.items()}
    if pm and any(sum(canon(x) is None for x in list(d["nvals"]) + [bv["=" + y] for y in d["nvars"]]) > 1 for d in ds.values()):
        raise Skip()        # "None" and the empty value are one forbidden value
    fresh = lambda: chunks.Chunk("reqt", **pat)
    r.A = {}
    r.ok = []
    for j, c in enumerate(mem):
        if r.tests and finst:
            inside = any(x is not None and key_of(x) == key_of(c) for x in r.recent)
            if inside != (str(r.tests["recently_retrieved"]) != "False"):
                continue
        if not pm:
            viol, _ = match_oracle(fresh(), c, {})
            if viol and key_of(fresh()) != key_of(c):
                continue
        if not sub:
            if r.dm[c][0] != round(now, 4):
                r.ok.append(j)
            continue
        try:
            a = utilities.baselevel_learning(now, r.dm[c], p["baselevel_learning"], p["decay"], r.dm.activations.get(c), p["optimized_learning"])
        except UnboundLocalError:
            continue
        a += utilities.spreading_activation(c, r.bufs, r.dm, p["buffer_spreading_activation"], p["strength_of_association"], p["spreading_activation_restricted"], p["association_only_from_chunks"])
        if pm:
            a += fresh().match(c, partialmatching=True, mismatch_penalty=p["mismatch_penalty"])
        a += shift
        if abs(a - p["retrieval_threshold"]) < 1e-9:
            raise Skip()
        if a >= p["retrieval_threshold"]:
            r.ok.append(j)
            r.A[j] = a
    r.dm.restricted_number_chunks.clear()
    r.dm.unrestricted_number_chunks.clear()
    return r


def once(xs):
    out = {}
    for x in xs:
        out.setdefault(canon(x), x)
    return tuple(out.values())


def call(rng, r):
    old = np.random.logistic
    np.random.logistic = lambda mu=0, s=1, n=1: np.array([r.shift])
    try:
        return r.buf.retrieve(r.now, r.req, r.bv, r.bufs, r.tests, r.glob)
    finally:
        np.random.logistic = old
