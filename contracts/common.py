"""Shared vocabulary of the contracts on processes (generator methods) and buffers."""
from pyvc.api import *

FREE, BUSY, ERROR = "free", "busy", "error"


def chunk(E, nm):
    return lib.chunk_obj(E, E.fresh(nm, L.I))


def spy(E, qual, log, result=None, before=None):
    """Contract for a callee: records the call (arguments by parameter name), returns result()."""
    def c(E, args, kwargs):
        env = E.bind(F(E, qual), args, kwargs)
        rec = dict(env)
        rec["__name"] = qual
        if before:
            before(rec)
        log.append(rec)
        return result(rec) if callable(result) else result
    E.contracts[qual] = c


def spy_gen(E, qual, log, nyields=1, ret=None, body=None):
    """Contract for a callee that is a process: yields opaque events; each step is logged."""
    def c(E, args, kwargs):
        env = E.bind(F(E, qual), args, kwargs)

        def run_(cb):
            log.append(dict(env, __name=qual))
            if body:
                return body(env, cb)
            for k in range(nyields):
                cb(("EV", qual, k))
            return ret
        return GenV(run_, name=qual.rsplit(".", 1)[1], qual=qual, args=dict(env))
    E.contracts[qual] = c


def drive(E, g, snap=lambda: None):
    """Runs a process to its end: list of (yielded value, snapshot at that point), return value."""
    out = []
    if not isinstance(g, GenV):
        raise Unsupported("not a process: %r" % (g,))
    ret = g.run(lambda v: out.append((v, snap())))
    return out, ret


def is_event(v):
    return isinstance(v, NT) and v.cls.fields == ("time", "proc", "action")


def ev_time(E, v, t):
    """v is an event at roundtime(t)"""
    if not is_event(v):
        return z3.BoolVal(False)
    return T(E, v.get("time")) == L.ROUND(t if z3.is_expr(t) else L.rv(t), 4)


def ev_at(E, v, t, proc=None, action=None):
    if not is_event(v):
        return z3.BoolVal(False)
    f = [ev_time(E, v, t)]
    if proc is not None:
        f.append(b(eqv(E, v.get("proc"), proc)))
    if action is not None:
        f.append(b(eqv(E, v.get("action"), action)))
    return z3.And(*f)


def params(E, **over):
    d = E.modules["pyactr.model"].ns["ACTRModel"].ns["MODEL_PARAMETERS"]
    p = DictV([list(x) for x in d.pairs])
    for k, v in over.items():
        E.setitem(p, k, v)
    return p


def rules_obj(E, buffers=None, dm=None, mp=None, rules=None):
    c = cls(E, "pyactr.productions.ProductionRules")
    return E.instantiate(c, [rules if rules is not None else DictV(), buffers if buffers is not None else DictV(), dm if dm is not None else DictV(), mp if mp is not None else params(E)], {})


def decmem(E):
    return E.instantiate(cls(E, "pyactr.declarative.DecMem"), [], {})


def sym_env(E):
    env = ObjV(cls(E, "pyactr.environment.Environment"))
    E.setattr(env, "current_focus", ListV([real(E, "fx"), real(E, "fy")]))
    return env


def goal(E, dm=None, delay=None, full=None):
    g = E.instantiate(cls(E, "pyactr.goals.Goal"), [None, dm], {})
    if delay is not None:
        E.setattr(g, "delay", delay)
    if full is not None:
        run(E, "pyactr.buffers.Buffer.add", [g, full])
    return g


def retrieval(E, dm, full=None):
    g = E.instantiate(cls(E, "pyactr.declarative.DecMemBuffer"), [dm, None], {})
    if full is not None:
        run(E, "pyactr.buffers.Buffer.add", [g, full])
    return g


def visual(E, dm=None, full=None, loc=False):
    c = cls(E, "pyactr.vision.VisualLocation" if loc else "pyactr.vision.Visual")
    g = E.instantiate(c, [sym_env(E), dm], {})
    if full is not None:
        run(E, "pyactr.buffers.Buffer.add", [g, full])
    return g


def content(E, buf):
    return E.to_list(buf)


def holds(E, buf, c):
    items = content(E, buf)
    if c is None:
        return len(items) == 0
    return len(items) == 1 and same(E, items[0], c)


def state(E, buf, attr="state"):
    return E.getattr(buf, attr)


def put(E, buf, c):
    """Contract-side effect: the buffer now holds exactly c (or nothing)."""
    s = SetV([] if c is None else [c])
    E.write(buf, "_data")
    buf.attrs["_data"] = s


def conj(*fs):
    """Conjunction of bools, z3 terms and thunks (later thunks only matter if the earlier parts are not False)."""
    out = []
    for f in fs:
        if callable(f) and not z3.is_expr(f):
            f = f()
        if isinstance(f, Sym):
            f = f.t
        if f is False or f is None:
            return z3.BoolVal(False)
        if f is not True:
            out.append(f)
    return z3.And(*out) if out else z3.BoolVal(True)


def opaque_chunks(E):
    """Chunk.__len__ and chunk printing of an opaque chunk."""
    def length(E, args, kwargs):
        n = L.NSLOTS(lib.cid_of(E, args[0]))
        E.assume(n >= 0)
        return Sym(n)
    E.contracts["pyactr.chunks.Chunk.__len__"] = length
    E.contracts["pyactr.chunks.Chunk.__repr__"] = lambda E, a, k: E.fresh_str("chunk")
