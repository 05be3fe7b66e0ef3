"""C01 on real chunks."""
from .chunkkit import *


def copybv(bv):
    return {k: (set(v) if isinstance(v, set) else v) for k, v in bv.items()}


@case
def match(rng, C):
    pat, oth, bv = pair(rng)
    C.note(pattern=repr(pat), chunk=repr(oth), pattern_slots=repr(slots_of(pat)), chunk_slots=repr(slots_of(oth)), bindings=repr(bv))
    pat.boundvars = copybv(bv)
    equal = key_of(pat) == key_of(oth)
    viol, want = match_oracle(pat, oth, canon_bv(bv))
    before = repr(slots_of(oth)), repr(oth.boundvars)
    how = rng.choice(["match", "<=", "<"])
    if how == "match":
        r = pat.match(oth, False)
        got = r is not False
    elif how == "<=":
        got = pat <= oth
    else:
        got = pat < oth
    C.note(how=how)
    exp = (equal or not viol) if how != "<" else (not equal and not viol)
    C.check(bool(got) == exp, "the pattern %s although %s" % ("is refused" if not got else "matches", viol or ("the chunks are equal" if equal else "every constraint holds")))
    C.check((repr(slots_of(oth)), repr(oth.boundvars)) == before, "the matched chunk was changed")
    if equal:
        C.check(canon_bv(pat.boundvars) == canon_bv(bv), "matching an equal chunk changed the bindings", after=repr(pat.boundvars))
    elif not viol:
        C.check(canon_bv(pat.boundvars) == want, "the bindings are not those of the slots", after=repr(pat.boundvars), want=repr(want))


@case
def itself(rng, C):
    pat, _, bv = pair(rng)
    C.note(pattern=repr(pat), bindings=repr(bv))
    pat.boundvars = copybv(bv)
    C.check(pat <= pat, "a pattern does not match itself")
    C.check(not pat < pat, "a pattern is a proper part of itself")
