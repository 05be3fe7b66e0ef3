import math
import numpy as np
from pyactr import utilities
from .common import *


@case
def baselevel(rng, C):
    now = round(rng.real(0, 20), 4)
    times = [round(rng.real(0, 20), 4) for _ in range(rng.nat(0, 8))]
    times += [now] * rng.choice([0, 0, 0, 1, 2])
    if rng.random() < 0.5:
        times = [t for t in times if t <= now]
    rng.shuffle(times)
    opt = rng.random() < 0.5
    bll = rng.random() < 0.85
    d = rng.real(0.01, 0.99) if opt else rng.real(0, 1.5)
    act = rng.choice([None, rng.real(-5, 5), 0, 0.0])
    C.note(now=now, times=times, opt=opt, bll=bll, decay=d, activation=act)
    arr = np.array(times, dtype=float)
    keep = arr.copy()
    past = [t for t in times if t < now]
    try:
        got = utilities.baselevel_learning(now, arr, bll, d, act, opt)
    except UnboundLocalError:
        got = None
    C.check((arr == keep).all(), "the presentation list was changed")
    if not bll:
        B = 0.0
    elif not past:
        B = None
    elif opt:
        B = math.log(len(past) / (1 - d)) - d * math.log(now - max(past))
    else:
        B = math.log(sum((now - t) ** (-d) for t in past))
    if act is not None:
        B = act if B is None else math.log(math.exp(B) + math.exp(act))
    if B is None:
        C.check(got is None, "a chunk with no past presentation and no base activation has a base level", got=got)
    else:
        C.check(got is not None and close(got, B), "base level differs from the equation", got=got, want=B)
