"""Building blocks for refuters that drive processes of the production system on real objects."""
import ast
import contextlib
import io

import pyactr as actr
from pyactr import buffers, chunks, declarative, environment, goals, model, motor, productions, utilities, vision
from .common import *

_n = [0]


def params(**over):
    p = dict(actr.ACTRModel.MODEL_PARAMETERS)
    p.update(over)
    return p


def mk(typename, **slots):
    return chunks.makechunk("", typename, **slots)


def rand_chunk(rng, typename="refchunk", slots=("a", "b", "c"), values="uvw"):
    return mk(typename, **{s: rng.choice(values) for s in slots})


class SpyDM(declarative.DecMem):
    """A declarative memory that records what is added to it."""
    log = None

    def add(self, element, time=0):
        if self.log is not None:
            self.log.append((element, time))
        return super().add(element, time)


def spydm():
    d = SpyDM()
    d.log = []
    return d


def rules(pr_rules=None):
    return pr_rules if pr_rules is not None else productions.Productions()


def prules(bufs, dm, p=None, rs=None):
    return productions.ProductionRules(rules(rs), bufs, dm, p or params())


def drive(gen, snap=lambda: None, limit=200):
    """Runs a process by hand: events with a snapshot taken at each of them, and the return value."""
    out = []
    ret = None
    while True:
        try:
            e = next(gen)
        except StopIteration as s:
            ret = s.value
            break
        out.append((e, snap()))
        if len(out) > limit:
            raise Failure("a process does not come to an end")
    return out, ret


def isev(e):
    return hasattr(e, "_fields") and tuple(e._fields) == ("time", "proc", "action")


def when(e, t):
    return isev(e) and abs(float(e.time) - t) < 6e-5


def ids(buf):
    return [id(x) for x in buf]


def trace(m, seconds, **kw):
    """Events of a simulation run, as printed."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sim = m.simulation(realtime=False, gui=False, trace=True, **kw)
        sim.run(seconds)
    ev = []
    for l in out.getvalue().splitlines():
        if l.startswith("("):
            try:
                ev.append(ast.literal_eval(l))
            except Exception:
                pass
    return ev, sim
