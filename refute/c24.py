"""C24 on the real functions: when two rules may be merged, renaming and substitution."""
from .chunkkit import *
from .modelkit import params
from pyactr import goals, declarative, motor, vision, productions, environment

VV = utilities.VarvalClass


def buffer(kind, dm):
    env = environment.Environment(focus_position=(0, 0))
    return {"goal": lambda: goals.Goal(None, dm), "dm": lambda: declarative.DecMemBuffer(None), "motor": lambda: motor.Motor(),
            "visual": lambda: vision.Visual(env, None), "visloc": lambda: vision.VisualLocation(env, None)}[kind]()


KINDS = ("goal", "dm", "motor", "visual", "visloc")
WORDS = ("a", "b", "c")
VARS = ("x", "y", "z", "rule", "a")


def rpart(rng, empty=True):
    """any content of a slot"""
    if empty and rng.random() < 0.2:
        return None
    return VV(variables=rng.choice([None, None] + list(VARS)), values=rng.choice([None, None] + list(WORDS)),
              negvariables=tuple(sorted(set(rng.choice(VARS) for _ in range(rng.nat(0, 2))))), negvalues=tuple(sorted(set(rng.choice(WORDS) for _ in range(rng.nat(0, 2))))))


def norm(p):
    return (p.variables, p.values, frozenset(p.negvariables), frozenset(p.negvalues))


E0 = VV(variables=None, values=None, negvariables=(), negvalues=())


@case
def renaming(rng, C):
    p, name = rpart(rng), rng.word() or "r"
    q = p or E0
    C.note(part=repr(tuple(q)), name=name)
    r = utilities.make_chunkparts_without_varconflicts(p, name, {v for v in VARS if rng.random() < 0.5})
    new = lambda v: v + "__rule__" + name
    C.check(norm(r) == (q.variables and new(q.variables), q.values, frozenset(new(v) for v in q.negvariables), frozenset(q.negvalues)), "renaming does something else than renaming the variables", got=repr(tuple(r)))


@case
def substitution(rng, C):
    p = rpart(rng)
    q = p or E0
    d = {v: rng.choice(VARS) for v in VARS if rng.random() < 0.4}
    k = {v: rng.choice(WORDS) for v in VARS if rng.random() < 0.4}
    C.note(part=repr(tuple(q)), variables=dict(d), values=k)
    d0 = dict(d)
    two = q.variables in k and q.values and k[q.variables] != q.values
    if two:
        C.raises(utilities.ACTRError, lambda: utilities.make_chunkparts_with_new_vars(p, d, k), "two values for one slot are accepted")
        return
    r = utilities.make_chunkparts_with_new_vars(p, d, k)
    x = q.variables
    want = (d0.get(x, x) if x and x not in k else None, k[x] if x in k else q.values,
            frozenset(d0.get(v, v) for v in q.negvariables if v not in k), frozenset(list(q.negvalues) + [k[v] for v in q.negvariables if v in k]))
    C.check(norm(r) == want, "variables are not replaced by what they stand for", got=repr(tuple(r)), want=want)
    C.check(all(d.get(v, v) == d0.get(v, v) for v in VARS), "what variables stand for changes", after=d)


@case
def merging(rng, C):
    a, c = rpart(rng), rpart(rng)
    C.note(first=repr(a and tuple(a)), second=repr(c and tuple(c)))
    says = a is not None and any(a)
    C.check(norm(utilities.merge_chunkparts(a, c)) == norm((a if says else c) or E0), "merged content is not that of the first, or else of the second", got=repr(tuple(utilities.merge_chunkparts(a, c))))


def rule(lhs, rhs):
    def f():
        yield dict(lhs)
        yield dict(rhs)
    return f


def rsides(rng, names, n):
    lhs, rhs = {}, {}
    for nm in names:
        if rng.random() < 0.6:
            lhs["=" + nm] = build(n, {s: rpart(rng, True) for s in ("s", "t")})
        if rng.random() < 0.4:
            lhs["?" + nm] = rng.choice([{"state": "busy"}, {"state": "free"}, {"state": "error"}, {"buffer": "full"}, {"state": "busy", "buffer": "full"}])
        for sg in "+=@*~!?":
            if rng.random() < (0.45 if sg == "+" else 0.12):
                rhs[sg + nm] = build(n, {s: rpart(rng, True) for s in ("s", "t")}) if sg in "+=@*" else ({"k": "v"} if sg == "?" else None)
    items = list(rhs.items())
    rng.shuffle(items)
    return lhs, dict(items)


def unsafe(kinds, rhs1, lhs2, rhs2):
    for key in rhs1:
        if key[0] != "+":
            continue
        nm = key[1:]
        kd = kinds.get(nm)
        if "+" + nm in rhs2 and kd != "dm":
            return True
        q = lhs2.get("?" + nm)
        if q is not None and kd in ("motor", "visual", "visloc") and q != {"state": "busy"}:
            return True
        if kd in ("visual", "visloc") and "=" + nm in lhs2:
            return True
        if kd == "dm" and q == {"state": "error"}:
            return True
    return False


@case
def compilation(rng, C):
    dm = declarative.DecMem()
    names = ["g", "m", "v", "l", "r"][:rng.nat(1, 5)]
    rng.shuffle(names)
    kinds = {n: rng.choice(KINDS) for n in names}
    buffers = {n: buffer(kinds[n], dm) for n in names}
    ps = productions.Productions()
    l1, r1 = rsides(rng, names, "c24one")
    l2, r2 = rsides(rng, names, "c24one")
    ps.update({"one": {"rule": rule(l1, r1), "utility": 1, "reward": None}, "two": {"rule": rule(l2, r2), "utility": 2, "reward": 3}})
    second = "two"
    if rng.random() < 0.15:
        second, l2, r2 = "one", l1, r1
    uns = unsafe(kinds, r1, l2, r2)
    C.note(second=second, kinds=kinds, then1=list(r1), if2={k: (v if k[0] == "?" else "...") for k, v in l2.items()}, then2=list(r2))
    got = ps.__check_valid_compilation__("one", second, buffers)
    C.check(bool(got) == uns, "unsafe rules may be merged" if uns else "a safe merge is refused", answer=got)
    slotvals = {n: None for n in names}
    left = False
    for n in names:
        if rng.random() < 0.4:
            if kinds[n] == "dm" and rng.random() < 0.7:
                slotvals[n] = [{"s": rpart(rng), "t": rpart(rng)}, build("c24one", {"s": VV(variables=None, values="a", negvariables=(), negvalues=()), "t": None})]
                if rng.random() < 0.5:
                    buffers[n].add(build("c24one", {"s": VV(variables=None, values="a", negvariables=(), negvalues=())}))
                    left = True
            else:
                slotvals[n] = {s: rpart(rng, False) for s in ("s", "t")}
    before = {n: (repr(ps[n]), ps[n]["utility"]) for n in ("one", "two")}
    try:
        r = ps.compile_rules("one", second, slotvals, buffers, params())
    except utilities.ACTRError:
        r = "error"
    except (KeyError, AttributeError, TypeError, ValueError, IndexError):
        raise Skip("the rules cannot be merged for another reason")
    if uns or left:
        C.check(r == (False, False) and set(ps.keys()) == {"one", "two"}, "unsafe rules are merged" if uns else "rules are merged while the retrieved chunk is in its buffer", result=r)
    elif r != "error":
        C.check(r[0] in ps.keys(), "a safe merge is refused", result=r)
    C.check({n: (repr(ps[n]), ps[n]["utility"]) for n in ("one", "two")} == before, "merging changes the two rules")


@case
def whole_rules(rng, C):
    ps = productions.Productions()
    l1, r1 = rsides(rng, ["g", "m"], "c24one")
    ps.update({"one": {"rule": rule(l1, r1), "utility": 1.5, "reward": 2}})
    d = {v: rng.choice(VARS) for v in VARS if rng.random() < 0.4}
    k = {v: rng.choice(WORDS) for v in VARS if rng.random() < 0.3}
    chunked = lambda s, key: key[0] in ("=" if s == 0 else "=@*+")
    ren = rng.choice([True, False])
    C.note(rename=ren, sides=(list(l1), list(r1)))

    def want(p):
        p = utilities.splitting(None) if isinstance(p, chunks.Chunk.EmptyValue) else p
        return norm(utilities.make_chunkparts_without_varconflicts(p, "one", set()) if ren else utilities.make_chunkparts_with_new_vars(p, dict(d), k))
    try:
        expect = [{key: {e[0]: want(e[1]) for e in v} if chunked(s, key) else v for key, v in side.items()} for s, side in enumerate((l1, r1))]
    except utilities.ACTRError:
        raise Skip("two values")
    p = ps.__rename__("one", set()) if ren else ps.__substitute__(ps["one"], d, k)
    sides = [dict(x) for x in p["rule"]()]
    got = [{key: {e[0]: norm(utilities.splitting(None) if isinstance(e[1], chunks.Chunk.EmptyValue) else e[1]) for e in v} if chunked(s, key) else v for key, v in side.items()} for s, side in enumerate(sides)]
    C.check(got == expect, "not every variable of the rule is rewritten, or more than variables", got=got, want=expect)
    C.check(all(v.typename == (l1, r1)[s][key].typename for s, side in enumerate(sides) for key, v in side.items() if chunked(s, key)), "a chunk gets another type")
    if not ren:
        C.check(p["utility"] == 1.5 and p["reward"] == 2, "substitution changes utility or reward")
