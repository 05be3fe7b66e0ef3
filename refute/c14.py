"""C14 on real rules, goals and utilities, over several cycles."""
from .modelkit import *
from .chunkkit import match_oracle
from . import common
common.CASES.clear()


def mkrule(pattern):
    def rule():
        yield {"=" + b: mk("c14chunk", **p) for b, p in pattern.items()}
        yield {}
    return rule


def applies(pattern, content):
    """patterns here: values, and variables that may repeat, also across buffers"""
    bound = {}
    for b, p in pattern.items():
        for s, v in p.items():
            if v.startswith("="):
                if bound.setdefault(v, content[b][s]) != content[b][s]:
                    return False
            elif v != content[b][s]:
                return False
    return True


@case
def selection(rng, C):
    slots = ("a", "b")
    noise = rng.choice([0, 0.05, 0.5, 2])
    sub = rng.choice([True, False])
    rs = productions.Productions()
    pats = {}

    def add():
        nm = "r%d" % len(pats)
        p = {b: {s: rng.choice(["u", "v", "=x", "=y"]) for s in slots if rng.random() < 0.7} for b in rng.sample("gh", rng.nat(1, 2))}
        pats[nm] = p
        rs[nm] = {"rule": mkrule(p), "utility": rng.choice([0, 1, 2, -1, -3.5, 0.25]), "reward": None}
    for _ in range(rng.nat(0, 5)):
        add()
    g, h = goals.Goal(), goals.Goal()
    pr = prules({"g": g, "h": h}, {}, params(subsymbolic=sub, utility_noise=noise, strict_harvesting=False, utility_learning=False), rs)
    draws = []
    real_noise = utilities.calculate_instantaneous_noise

    def drawn(n):
        draws.append(rng.choice([0, 0, 10, -10, 100]) if n else real_noise(n))
        return draws[-1]
    utilities.calculate_instantaneous_noise = drawn
    try:
        for cyc in range(rng.nat(1, 4)):
            content = {b: {s: rng.choice("uv") for s in slots} for b in "gh"}
            g._data, h._data = {mk("c14chunk", **content["g"])}, {mk("c14chunk", **content["h"])}
            if cyc:
                if rng.random() < 0.5:
                    add()
                for nm in pats:
                    if rng.random() < 0.5:
                        rs[nm]["utility"] = rng.choice([0, 1, 2, -1, -3.5, 0.25])
            us = {nm: rs[nm]["utility"] for nm in pats}
            ok = [nm for nm in pats if applies(pats[nm], content)]
            draws.clear()
            C.note(cycle=cyc, rules={nm: (pats[nm], us[nm]) for nm in pats}, contents=content, subsymbolic=sub, noise=noise)
            chosen = "?"
            pr.procs = []
            for e in pr.procedural_process(rng.real(0, 5)):
                if not isev(e):
                    continue
                if e.action.startswith("RULE SELECTED: "):
                    C.check(chosen == "?", "more than one selection in a cycle")
                    chosen = e.action[len("RULE SELECTED: "):]
                elif e.action == "NO RULE FOUND":
                    C.check(chosen == "?", "both a selection and none")
                    chosen = None
            C.note(selected=chosen, draws=list(draws))
            if not ok:
                C.check(chosen is None, "a rule is selected though none applies")
                continue
            C.check(chosen is not None and chosen != "?", "no rule is selected though some apply", applicable=ok)
            C.check(chosen in ok, "the rule selected does not apply", applicable=ok)
            if not sub or not noise:
                C.check(us[chosen] == max(us[x] for x in ok), "an applicable rule has a higher utility", utilities=us, applicable=ok)
            else:
                C.check(len(ok) <= len(draws) <= len(pats), "noise is not drawn once for each rule", ndraws=len(draws), nrules=len(pats))
                # the draws in the order of the rules by utility, as long as every rule gets one
                if len(draws) == len(pats):
                    best = any(us[chosen] + d >= max([us[x] + min(draws[:j] + draws[j + 1:]) for x in ok if x != chosen], default=-1e9) for j, d in enumerate(draws))
                    C.check(best, "no assignment of the noise makes the rule selected the best", utilities=us)
    finally:
        utilities.calculate_instantaneous_noise = real_noise


@case
def noise_by_rule(rng, C):
    """noise of every rule, found by which rule was looked at last"""
    rs = productions.Productions()
    names = ["r%d" % k for k in range(rng.nat(1, 5))]
    last, noise = [], {}
    us = {}

    def mk1(nm):
        def rule():
            last.append(nm)
            yield {"=g": mk("c14chunk", a="u")}
            yield {}
        return rule
    for nm in names:
        us[nm] = rng.choice([0, 1, 2, -1])
        rs[nm] = {"rule": mk1(nm), "utility": us[nm], "reward": None}
    g = goals.Goal()
    g._data = {mk("c14chunk", a="u", b="v")}
    pr = prules({"g": g}, {}, params(subsymbolic=True, utility_noise=rng.choice([0.1, 1]), strict_harvesting=False, utility_learning=False), rs)
    seq = []
    real_noise = utilities.calculate_instantaneous_noise

    def drawn(n):
        d = rng.choice([0, 3, -3, 1])
        seq.append((len(last), d))
        return d
    utilities.calculate_instantaneous_noise = drawn
    try:
        chosen = None
        for e in pr.procedural_process(0):
            if isev(e) and e.action.startswith("RULE SELECTED: "):
                chosen = e.action[15:]
                break
    finally:
        utilities.calculate_instantaneous_noise = real_noise
    # only if rules are looked at one by one, with one draw each, do we know whose draw it was
    looked = [last[k - 1] for k, _ in seq if k]
    if sorted(looked) != sorted(names) or last != looked:
        raise Skip
    noise = dict(zip(looked, [d for _, d in seq]))
    C.note(utilities=us, noise=noise, selected=chosen)
    best = max(us[x] + noise[x] for x in names)
    C.check(chosen is not None and us[chosen] + noise[chosen] == best, "an applicable rule has a higher utility with noise")
