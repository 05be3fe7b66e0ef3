"""C23 on real models."""
from .modelkit import *
from . import common
import copy
import pyactr
from pyactr import model, goals, declarative, vision, environment, simulation, productions, chunks, utilities

common.CASES.clear()
DOC = {"subsymbolic": False, "rule_firing": 0.05, "latency_factor": 0.1, "latency_exponent": 1.0, "decay": 0.5, "baselevel_learning": True,
       "optimized_learning": False, "instantaneous_noise": 0, "retrieval_threshold": 0, "buffer_spreading_activation": {}, "spreading_activation_restricted": False,
       "strength_of_association": 0, "association_only_from_chunks": True, "partial_matching": False, "mismatch_penalty": 1, "activation_trace": False,
       "utility_noise": 0, "utility_learning": False, "utility_alpha": 0.2, "motor_prepared": False, "strict_harvesting": False, "production_compilation": False,
       "automatic_visual_search": True, "emma": True, "emma_noise": True, "emma_landing_site_noise": False, "eye_mvt_angle_parameter": 1, "eye_mvt_scaling_parameter": 0.01}
BAD = ["Decay", "noise", "subsymbolic_", "latency", "environment2", "decay "]


def reach(v, out, skip=()):
    if isinstance(v, (str, int, float, bool, type(None), type)) or callable(v) or id(v) in out or any(v is x for x in skip):
        return out
    if isinstance(v, dict):
        out[id(v)] = v
        for k, x in v.items():
            reach(k, out, skip)
            reach(x, out, skip)
    elif isinstance(v, (list, set)) or type(v).__name__ == "deque":
        out[id(v)] = v
        for x in v:
            reach(x, out, skip)
    elif isinstance(v, tuple):
        for x in v:
            reach(x, out, skip)
    elif type(v).__module__.startswith("pyactr"):
        out[id(v)] = v
        reach(vars(v), out, skip)
    return out


def given(rng):
    ks = rng.sample(sorted(DOC), rng.nat(0, 6))
    return {k: rng.choice([True, False, 0, 1, 0.3, -2, None, "x", {"g": 1}]) for k in ks}


def some_env(rng):
    return environment.Environment(focus_position=(rng.nat(0, 9), 2)) if rng.random() < 0.6 else None


@case
def parameters(rng, C):
    g = given(rng)
    C.note(given=g)
    if rng.random() < 0.3:
        g[rng.choice(BAD)] = rng.choice([1, None, 0.5])
        C.raises(utilities.ACTRError, lambda: model.ACTRModel(**g), "an unknown parameter is refused")
        return
    env = some_env(rng)
    m = model.ACTRModel(env, **g) if rng.random() < 0.5 else model.ACTRModel(environment=env, **g)
    want = dict(DOC)
    want.update(g)
    got = m.model_parameters
    C.check(set(got) == set(want), "the names of the parameters", got=sorted(set(got) ^ set(want)))
    for k in want:
        C.check(got[k] == want[k] and type(got[k]) is type(want[k]), "the parameter %s" % k, got=got[k], want=want[k])
    other = model.ACTRModel()
    k = rng.choice(sorted(DOC))
    m.model_parameters[k] = "changed"
    m.model_parameters["buffer_spreading_activation"] = m.model_parameters.get("buffer_spreading_activation")
    if k != "buffer_spreading_activation" and "buffer_spreading_activation" not in g:
        m.model_parameters["buffer_spreading_activation"]["zz"] = 3
    for x in (other, model.ACTRModel()):
        C.check(x.model_parameters == DOC, "another model has the defaults", got={y: x.model_parameters[y] for y in DOC if x.model_parameters.get(y) != DOC[y]})
    C.check(model.ACTRModel.MODEL_PARAMETERS == DOC, "the defaults are changed", got=model.ACTRModel.MODEL_PARAMETERS)


def furnish(rng, m, env):
    done = []
    for _ in range(rng.nat(0, 4)):
        w = rng.choice(["goal", "retrieval", "decmem", "vis", "prod", "delay", "sim"])
        if w == "goal":
            m.set_goal(rng.choice(["g", "imaginal", "g2"]))
        elif w == "delay":
            m.set_goal("g3", rng.choice([0, 0.2]))
        elif w == "retrieval":
            m.set_retrieval(rng.choice(["retrieval", "second"]))
        elif w == "decmem":
            m.set_decmem(rng.choice([None, {}]))
        elif w == "vis" and env is not None:
            m.visualBuffer("look", "where", rng.choice([None, m.decmem]))
        elif w == "prod":
            m.set_productions()
        elif w == "sim":
            m.simulation(gui=False, trace=False)
        done.append(w)
    return done


@case
def sharing(rng, C):
    env = some_env(rng)
    a, b = model.ACTRModel(env), model.ACTRModel(env)
    C.note(a=furnish(rng, a, env), b=furnish(rng, b, env), environment=env is not None)
    x, y, e = reach(a, {}), reach(b, {}), reach(env, {})
    com = [v for k, v in x.items() if k in y and k not in e]
    C.check(not com, "the models share an object", shared=repr(com)[:300])
    for nm in ("_ACTRModel__similarities", "_ACTRModel__buffers", "visbuffers", "goals", "retrievals", "decmems", "productions", "model_parameters"):
        if hasattr(a, nm):
            C.check(getattr(a, nm) is not getattr(b, nm), "the models share %s" % nm)
    C.check(id(model.ACTRModel.MODEL_PARAMETERS) not in x and id(model.ACTRModel.MODEL_PARAMETERS["buffer_spreading_activation"]) not in x, "the model holds the defaults themselves")


@case
def named(rng, C):
    env = some_env(rng)
    m = model.ACTRModel(env)
    C.note(env=env is not None)
    bufs = m._ACTRModel__buffers
    C.check(m.goal is m.goals["g"] is bufs["g"] and m.retrieval is m.retrievals["retrieval"] is bufs["retrieval"], "the first goal and retrieval buffers")
    for _ in range(rng.nat(1, 4)):
        w = rng.choice(["goal", "retrieval", "vis"])
        nm = rng.choice(["g", "x", "imaginal", "retrieval", "long name", "manual2"])
        before = [dict(m.goals), dict(m.retrievals), dict(bufs), dict(m.visbuffers)]
        if w == "goal":
            d = rng.choice([None, 0, 0.3])
            r = m.set_goal(nm) if d is None else m.set_goal(nm, d)
            C.check(type(r) is goals.Goal and m.goals[nm] is r and bufs[nm] is r and r.delay == (d or 0) and len(r) == 0, "the goal buffer under its name", name=nm)
            now = [{**before[0], nm: r}, before[1], {**before[2], nm: r}, before[3]]
        elif w == "retrieval":
            r = m.set_retrieval(nm)
            C.check(type(r) is declarative.DecMemBuffer and m.retrievals[nm] is r and bufs[nm] is r and len(r) == 0, "the retrieval buffer under its name", name=nm)
            now = [before[0], {**before[1], nm: r}, {**before[2], nm: r}, before[3]]
        else:
            if env is None:
                continue
            f, h = rng.nat(0, 6), rng.choice([None, m.decmem])
            v, l = m.visualBuffer(nm, nm + "_loc", h, f)
            C.check(type(v) is vision.Visual and type(l) is vision.VisualLocation and m.visbuffers[nm] is v and m.visbuffers[nm + "_loc"] is l and v.dm is h and l.dm is h and l.finst == f and v.environment is env and l.environment is env,
                    "the visual buffers under their names", name=nm)
            now = [before[0], before[1], before[2], {**before[3], nm: v, nm + "_loc": l}]
        got = [m.goals, m.retrievals, bufs, m.visbuffers]
        C.check(all(set(p) == set(q) and all(p[k] is q[k] for k in p) for p, q in zip(got, now)), "the other buffers are left alone")
    C.raises(ValueError, lambda: rng.choice([m.set_goal, m.set_retrieval])(rng.choice([1, None, ("g",)])), "a name that is no string is refused")


@case
def prepared(rng, C):
    env = some_env(rng)
    m = model.ACTRModel(env, **given(rng))
    m.model_parameters["subsymbolic"] = False
    m.model_parameters["buffer_spreading_activation"] = {}
    did = furnish(rng, m, env)
    C.note(did=did, env=env is not None)
    for _ in range(rng.nat(1, 2)):
        if rng.random() < 0.5:
            m.productions.used_rulenames = {"r": [0.05]}
        if rng.random() < 0.3:
            m.set_decmem()
        if rng.random() < 0.4:
            old = declarative.DecMem()
            old.add(chunks.makechunk(typename="c23t", a=rng.choice(["x", "y"])), 0)
            rng.choice(list(m.goals.values()) + list(m.retrievals.values()) + list(m.visbuffers.values())).dm = old
        a, b = chunks.makechunk(typename="c23t", a="p"), chunks.makechunk(typename="c23t", a="q")
        chunks.Chunk._similarities = {("elsewhere", "b"): -0.3, (a, "b"): -0.1}
        want = {}
        if rng.random() < 0.5:
            m.set_similarities(a, b, -0.5)
            want = {(a, b): -0.5, (b, a): -0.5}
        else:
            want = dict(m._ACTRModel__similarities)
        seen = []
        orig = productions.ProductionRules
        productions.ProductionRules = lambda *a: seen.append(a) or orig(*a)
        try:
            m.simulation(gui=False, trace=False)
        finally:
            productions.ProductionRules = orig
        rules, bufs, dms, p = seen[0]
        C.check(rules is m.productions and p is m.model_parameters, "the rules and parameters used are those of the model")
        C.check(chunks.Chunk._similarities == want, "the similarities are those of the model", got=repr(chunks.Chunk._similarities))
        C.check(m.productions.used_rulenames == {}, "the record of fired rules is empty", got=m.productions.used_rulenames)
        for nm in bufs:
            if nm != "manual":
                C.check(bufs[nm].dm is m.decmem, "the buffer harvests into the only memory", buffer=nm)
                if nm in m.goals or nm in m.retrievals:
                    C.check(dms[nm] is m.decmem, "the rules know the memory of the buffer", buffer=nm)
        for t in [m.goals, m.retrievals] + ([m.visbuffers] if env is not None else []):
            for nm in t:
                if sum(nm in x for x in (m.goals, m.retrievals, m.visbuffers)) == 1:
                    C.check(bufs[nm] is t[nm], "the buffer is used under its name", buffer=nm)
        if env is not None and not m.visbuffers:
            C.check(type(bufs["visual"]) is vision.Visual and type(bufs["visual_location"]) is vision.VisualLocation, "built-in visual buffers")
        C.check("manual" in bufs, "there is a motor buffer")
