"""C20 on the real visual module."""
import math

import numpy as np

from .modelkit import *


def mean_of(fn):
    """Calls fn with gamma draws replaced by their mean."""
    old = np.random.gamma

    def gamma(shape, scale=1.0, size=None):
        return shape * scale
    np.random.gamma = gamma
    try:
        return fn()
    finally:
        np.random.gamma = old


def angle(a, b, size, screen, dist):
    d = math.sqrt((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) / (size[0] / screen[0])
    return math.atan2(d, dist)


def enc_time(ang, K, k, delay):
    return K * float(delay) * math.exp(k * ang) if delay else 0


def exe_time(ang):
    return 0.07 + 0.002 * (180 * ang / math.pi)


@case
def formulas(rng, C):
    a, b = [rng.real(0, 700), rng.real(0, 400)], [rng.real(0, 700), rng.real(0, 400)]
    if rng.random() < .2:
        b = list(a)
    size, screen, dist = (rng.randint(100, 2000), 360), (rng.randint(5, 90), 28), rng.randint(20, 90)
    K, k = rng.real(0, .1), rng.real(0, 3)
    delay = rng.choice([None, 0, rng.real(0, 20), "7", 3])
    noise = rng.random() < .4
    C.note(start=a, target=b, size=size, screen=screen, distance=dist, K=K, k=k, delay=delay, noise=noise)
    g = angle(a, b, size, screen, dist)
    C.check(close(utilities.calculate_visual_angle(rng.choice([tuple, list])(a), rng.choice([tuple, list])(b), size, screen, dist), g), "the visual angle", want=g)
    x = rng.choice([g, 0, rng.real(0, 2)])
    r = mean_of(lambda: (utilities.calculate_delay_visual_attention(x, K, k, noise, delay), utilities.calculate_preparation_time(noise), utilities.calculate_execution_time(x, noise)))
    C.check(close(r[0], enc_time(x, K, k, delay)), "encoding takes %r" % (r[0],), want=enc_time(x, K, k, delay))
    C.check(close(r[1], .135), "preparation takes %r" % (r[1],))
    C.check(close(r[2], exe_time(x)), "execution takes %r" % (r[2],), want=exe_time(x), angle=x)
    C.check([float(v) for v in utilities.calculate_landing_site(a, x, False)] == [float(v) for v in a], "the landing site without noise is not the target")


@case
def shifts(rng, C):
    """One or two attention shifts, the second started while the first one moves."""
    size, screen, dist = rng.choice([(640, 360), (1366, 768)]), rng.choice([(50, 28), (30, 20)]), rng.choice([50, 60])
    f0 = (rng.randint(0, 600), rng.randint(0, 300))
    env = environment.Environment(size=size, simulated_screen_size=screen, viewing_distance=dist, focus_position=f0)
    n = rng.randint(1, 4)
    pos = [(rng.randint(0, 600), rng.randint(0, 300)) for _ in range(n)]
    if rng.random() < .15:
        pos[0] = f0
    if n > 1 and rng.random() < .25:
        pos[1] = pos[0]
    delays = [rng.choice([None, rng.real(0, 10), rng.real(0, 60), "4"]) for _ in range(n)]
    env.stimulus = {"s%d" % j: dict({"text": "t%d" % j, "position": pos[j]}, **({} if delays[j] is None else {"vis_delay": delays[j]})) for j in range(n)}
    emma = rng.random() < .8
    noise = rng.random() < .2
    K, k = rng.choice([.01, .02, .005]), rng.choice([.4, 1.0])
    p = params(emma=emma, emma_noise=noise, emma_landing_site_noise=False, eye_mvt_scaling_parameter=K, eye_mvt_angle_parameter=k)
    dm = spydm()
    v = vision.Visual(env, dm)
    if rng.random() < .2:
        v.model_parameters = {"eye_mvt_scaling_parameter": K}
        p["eye_mvt_scaling_parameter"] = 77
    old = mk("_visual", value="old") if rng.random() < .5 else None
    if old is not None:
        v.add(old)
    pr = prules({"visual": v}, {"visual": dm}, p)
    m = 1 if rng.random() < .5 else 2
    begin = round(rng.real(0, 3), 3)
    targets = [rng.randrange(n) for _ in range(m)]
    targets = [max(j for j in range(n) if pos[j] == pos[t]) for t in targets]
    C.note(focus=f0, positions=pos, delays=delays, targets=targets, emma=emma, K=K, k=k, start=begin, size=size, screen=screen, distance=dist, noise=noise)
    focus, last = f0, 0
    t = begin
    for r_, j in enumerate(targets):
        fs = v.environment.current_focus
        C.check([float(x) for x in fs] == [float(x) for x in focus], "the focus before shift %d is %r" % (r_, fs))
        ang = angle(focus, pos[j], size, screen, dist)
        enc, prep, exe = (enc_time(ang, K, k, delays[j]), .135, exe_time(ang)) if emma else (.085, 0, .085)
        req = chunks.Chunk("_visual", cmd="move_attention", screen_pos=mk("_visuallocation", screen_x=pos[j][0], screen_y=pos[j][1]))
        blocked = rng.choice([0, 0, t + prep + rng.real(0, .3)])
        v.last_mvt = max(last, blocked)
        start = max(t + prep, v.last_mvt)
        end = start + exe
        dm.log.clear()
        was = [repr(x) for x in v]

        def snap():
            return dict(state=v.state, content=[c.value.values for c in v], focus=[float(x) for x in env.current_focus], prep=v.preparation, exe=v.execution)

        def both():
            a, _ = drive(pr.visualshift("visual", v, req, {}, t), snap)
            c = a[-1][0]
            C.check(not isev(c) and hasattr(c, "send"), "the shift does not go on with the movement", events=repr(a))
            b_, _ = drive(c, snap)
            return a[:-1], b_
        a, b_ = mean_of(both)
        evs = a + b_
        C.note(events=repr([(e, s) for e, s in evs]), encoding=enc, preparation=prep, execution=exe, begin=t, movement=(start, end))
        C.check(when(evs[0][0], t), "the start is not reported at once")
        C.check(any(when(e, t + prep) and "COMPLETED" in e.action for e, _ in a), "the end of the preparation is not reported at its time")
        moves = [i for i, (e, _) in enumerate(evs) if "SHIFT COMPLETE" in str(e.action)]
        C.check(len(moves) == 1 and when(evs[moves[0]][0], end), "the eye does not move at the end of the execution", want=end)
        C.check(all(s["focus"] == [float(x) for x in focus] for _, s in evs[:moves[0]]) and evs[moves[0]][1]["focus"] == [float(x) for x in pos[j]], "the eye is not at the target exactly from the end of the execution on")
        C.check(close(v.last_mvt, end), "the end of the movement is not remembered", have=v.last_mvt, want=end)
        if enc > prep + exe:
            rest = enc_time(angle(pos[j], pos[j], size, screen, dist), K, k, delays[j]) if emma else .085
            at = end + (1 - (prep + exe) / enc) * rest
        else:
            at = t + enc
        encs = [i for i, (e, _) in enumerate(evs) if "ENCODED" in str(e.action)]
        C.check(len(encs) == 1 and when(evs[encs[0]][0], at), "the chunk is not encoded once at the encoding time", want=at)
        C.check(evs[encs[0]][1]["content"] == ["t%d" % j] and all(s["content"] != ["t%d" % j] or "t%d" % j in str(was) for _, s in evs[:encs[0]]), "the chunk is not in the buffer exactly from the encoding time on")
        C.check([c.value.values for c in v] == ["t%d" % j] and v.state == v._FREE and v.preparation == v._FREE and v.execution == v._FREE and v.processor == v._FREE, "the buffer does not end up free with the new chunk", state=v.state)
        C.check(len(dm.log) == len(was) and all(close(x, at) for _, x in dm.log), "the old chunk is not harvested once, at the encoding time", log=repr(dm.log))
        C.check(evs[0][1]["state"] == v._BUSY and evs[0][1]["prep"] == v._BUSY, "the module is not busy at the start")
        if enc != prep + exe:
            C.check((encs[0] < moves[0]) == (enc <= prep + exe), "encoding and movement are in the wrong order")
        focus, last = pos[j], end
        t = max(at, end)
