"""C06 on real code: check_bound_vars, Goal.create."""
from .chunkkit import *
from pyactr import goals, declarative

MARK = (">", "<")


def bindings(rng, at):
    bv = {}
    for x in ("x", "y", "z"):
        if rng.random() < 0.7:
            v = rng.choice(at)
            bv["=" + x] = v if v != "None" else chunks.Chunk.EmptyValue()
        if rng.random() < 0.2:
            bv["~=" + x] = set()
    return bv


def resolve(d, bv, negok):
    """-> "error" | (canonical value, set of canonical negated values)"""
    u = bv.get("=" + d["var"]) if d["var"] else None
    if (d["val"] in MARK and u is not None and not isinstance(u, str)) or (u in MARK and d["val"] and not isinstance(d["val"], str)):
        raise Skip()
    if (d["nvals"] or d["nvars"]) and not negok:
        return "error"
    if any("=" + y not in bv for y in d["nvars"]):
        return "error"
    if d["var"] and "=" + d["var"] not in bv:
        return "error"
    w = d["val"]
    neg = {canon(v) for v in d["nvals"]} | {canon(bv["=" + y]) for y in d["nvars"]}
    if not d["var"]:
        return (canon(w) if w != "" else None), neg
    x = bv["=" + d["var"]]
    if w is None or w == "":
        return canon(x), neg
    if canon(x) == canon(w):
        return canon(w), neg
    if w in MARK or x in MARK:
        if not (isinstance(w, str) and isinstance(x, str)):
            raise Skip()
        m, n = (w, x) if w in MARK else (x, w)
        if not n < "<":
            raise Skip()
        return ("str", m + n), neg
    return "error"


def slot(rng, at):
    v, d = content(rng, at, vars_=("x", "y", "z"))
    if v is not None and rng.random() < 0.25:
        d["val"] = rng.choice(MARK)
        v = v._replace(values=d["val"])
    return v, d


@case
def bound(rng, C):
    at = atoms(rng) + ["100", "3"]
    bv = bindings(rng, at)
    v, d = slot(rng, at)
    neg = rng.random() < 0.5
    elem = v if v is not None else chunks.Chunk.EmptyValue()
    C.note(content=repr(elem), bindings=repr(bv), negative_impossible=neg)
    want = resolve(d, bv, not neg)
    before = repr(sorted(bv.items(), key=lambda x: x[0]))
    if want == "error":
        C.raises(utilities.ACTRError, lambda: utilities.check_bound_vars(bv, elem, negative_impossible=neg), "content that cannot be resolved is not an ACTRError")
        return
    r = utilities.check_bound_vars(bv, elem, negative_impossible=neg)
    C.check(canon(r.values) == want[0], "the resolved value is %r" % (r.values,), want=repr(want))
    C.check({canon(x) for x in r.negvalues} == want[1], "the negated values are %r" % (r.negvalues,), want=repr(want))
    C.check(not r.variables and not r.negvariables, "variables are left")
    C.check(repr(sorted(bv.items(), key=lambda x: x[0])) == before, "the bindings were changed")


@case
def create(rng, C):
    at = atoms(rng)
    bv = bindings(rng, at)
    slots = {}
    ds = {}
    for s in rng.sample(["a", "b", "c", "d", "e"], rng.randint(1, 5)):
        v, d = content(rng, at, vars_=("x", "y", "z"), neg=rng.random() < 0.1)
        slots[s], ds[s] = v, d
    o = build("goaltype", slots)
    dm = declarative.DecMem()
    g = goals.Goal(None, dm)
    if rng.random() < 0.5:
        g.add(build("oldgoal", {"q": utilities.VarvalClass(values="old", variables=None, negvalues=(), negvariables=())}))
    C.note(request=repr(slots_of(o)), bindings=repr(bv))
    want = {s: resolve(d, bv, False) for s, d in ds.items()}
    if "error" in want.values():
        C.raises(utilities.ACTRError, lambda: g.create(o, dm, bv), "a request that cannot be resolved is not an ACTRError")
        return
    g.create(o, dm, bv)
    items = list(g)
    C.check(len(items) == 1, "the goal buffer holds %d chunks" % len(items))
    c = items[0]
    C.check(c.typename == "goaltype", "the new chunk has type %s" % c.typename)
    got = {s: canon(d["val"]) for s, d in slots_of(c).items()}
    C.check(got == {s: w[0] for s, w in want.items()}, "the new chunk is %r" % (c,), want=repr(want))
    C.check(all(not d["var"] and not d["nvals"] and not d["nvars"] for d in slots_of(c).values()), "variables or negations are left in %r" % (c,))
    C.check(not dm, "creating a goal added to memory")


VL = ("_visuallocation", "_visual")


@case
def passing(rng, C):
    """Resolved negations are passed on in requests for retrieval."""
    from pyactr import model
    m = model.ACTRModel(subsymbolic=False)
    chunks.chunktype("fact06", ("k", "v"))
    vals = ["u", "v", "w"]
    for i, x in enumerate(vals):
        m.decmem.add(chunks.makechunk(typename="fact06", k="k%d" % i, v=x), time=-1)
    chunks.chunktype("goal06", ("s", "n"))
    bound_to = rng.choice(vals)
    m.goal.add(chunks.makechunk(typename="goal06", s="go", n=bound_to))
    kind = rng.choice(["~=n", "~" + bound_to, "=n"])
    C.note(slot="v " + kind, n=bound_to)
    m.productionstring(name="r", string="""
    =g>
    isa goal06
    s go
    n =n
    ==>
    ~g>
    +retrieval>
    isa fact06
    v %s
    """ % kind)
    sim = m.simulation(realtime=False, trace=False)
    for _ in range(60):
        try:
            sim.step()
        except Exception:
            break
    r = list(m.retrieval)
    C.check(len(r) == 1, "nothing was retrieved")
    got = str(r[0].v.values)
    C.check((got == bound_to) == (kind == "=n"), "retrieved %s although v %s with n=%s" % (got, kind, bound_to))
