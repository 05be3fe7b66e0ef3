"""C03 on real chunks: the score of a partial match, and the table of similarities."""
from pyactr import model
from .chunkkit import *

RESET = chunks.Chunk._similarities


def table(rng, C, at):
    """A model with random similarities set, and the table as it should be."""
    m = model.ACTRModel()
    want = {}
    log = []
    vals = list(at) + [None]
    for _ in range(rng.nat(0, 6)):
        a, c = rng.choice(vals), rng.choice(vals)
        v = rng.choice([0, -0.5, -1, -0.25, -2, -rng.real(0, 3), 0.1, 1])
        log.append((repr(a), repr(c), v))
        try:
            m.set_similarities(a, c, v)
            ok = True
        except utilities.ACTRError:
            ok = False
        C.note(similarities=log)
        C.check(ok == (v <= 0), "a positive similarity is %s" % ("accepted" if ok else "the reason to refuse a non-positive one"), value=v)
        if ok:
            want[(canon(a), canon(c))] = v
            want[(canon(c), canon(a))] = v
    return m, want


@case
def partial(rng, C):
    pat, oth, bv = pair(rng)
    if any("None" in (d["val"], *d["nvals"]) for ch in (pat, oth) for d in slots_of(ch).values() if True):
        raise Skip
    at = [a for a in atoms(rng) if a != "None"]
    for ch in (pat, oth):
        for d in slots_of(ch).values():
            at += [v for v in [d["val"], *d["nvals"]] if v is not None and v != ""]
    m, want = table(rng, C, at)
    pen = rng.choice([1, 0.5, 2, rng.real(0, 4), 0])
    pat.boundvars = {k: (set(v) if isinstance(v, set) else v) for k, v in bv.items()}
    viol, after = match_oracle(pat, oth, canon_bv(bv))
    equal = key_of(pat) == key_of(oth)
    C.note(pattern=repr(slots_of(pat)), chunk=repr(slots_of(oth)), bindings=repr(bv), penalty=pen, violated=repr(viol))
    score = 0 if equal else sum(want.get((x[2], x[3]), -pen) for x in viol)
    try:
        if rng.random() < 0.3:
            m.simulation(gui=False, trace=False)
        else:
            chunks.Chunk._similarities = m._ACTRModel__similarities
        got = pat.match(oth, True, pen) if pen != 1 or rng.random() < 0.5 else pat.match(oth, True)
    finally:
        chunks.Chunk._similarities = RESET
    C.check(got is not True and got is not False and close(got, score), "the score is not the sum over the violated constraints", got=got, want=score)
    if equal:
        C.check(canon_bv(pat.boundvars) == canon_bv(bv), "matching an equal chunk changed the bindings", after=repr(pat.boundvars))
    else:
        C.check(canon_bv(pat.boundvars) == after, "the bindings are not those of the slots", after=repr(pat.boundvars), want=repr(after))
    a, c = rng.choice(at + ["zz"]), rng.choice(at + ["zz"])
    s = [utilities.get_similarity(m._ACTRModel__similarities, x, y, pen) for x, y in ((a, c), (c, a))]
    C.check(s[0] == s[1] == want.get((canon(a), canon(c)), -pen), "a similarity is not the one set, or not symmetric", values=(repr(a), repr(c)), got=s)
