from pyactr import utilities
from .common import *


@case
def delta_rule(rng, C):
    names = list(dict.fromkeys(rng.word() for _ in range(rng.randint(1, 4))))
    rules = {n: {"utility": rng.real(-5, 10)} for n in names + ["unused"]}
    used = {n: [rng.real(0, 5) for _ in range(rng.nat(0, 40 if rng.random() < .2 else 4))] for n in names}
    time = rng.real(5, 10)
    reward, alpha = rng.real(-5, 20), rng.real(0, 1)
    C.note(rules={k: dict(v) for k, v in rules.items()}, used=used, time=time, reward=reward, alpha=alpha)
    want = {n: r["utility"] for n, r in rules.items()}
    for n in used:
        for t in used[n]:
            want[n] = round(want[n] + alpha * (reward - (time - t) - want[n]), 4)
    utilities.modify_utilities(time, reward, used, rules, {"utility_alpha": alpha, "utility_learning": True})
    for n in want:
        C.check(close(rules[n]["utility"], want[n], 2e-4), "utility of a rule differs from the delta rule", rule=n, got=rules[n]["utility"], want=want[n])
