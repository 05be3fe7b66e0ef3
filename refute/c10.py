"""C10 on real memories: the choice is compared with the statement."""
from .retrkit import *


@case
def choice(rng, C):
    r = retrieval(rng, C)
    if r.error:
        C.raises(utilities.ACTRError, lambda: call(rng, r), "a request that cannot be resolved is not an ACTRError")
        return
    got, _ = call(rng, r)
    if not r.ok:
        C.check(got is None, "a chunk is returned although none is eligible", got=repr(got))
        return
    C.check(got is not None, "nothing is returned although a chunk is eligible", eligible=repr([r.mem[j] for j in r.ok]))
    js = [j for j in range(len(r.mem)) if r.mem[j] is got or key_of(r.mem[j]) == key_of(got)]
    C.check(js and js[0] in r.ok, "the chunk returned is not eligible", got=repr(got), eligible=repr([r.mem[j] for j in r.ok]))
    if r.sub:
        C.check(close(r.A[js[0]], max(r.A.values())), "another eligible chunk has a higher activation", got=repr(got), activations=repr({repr(r.mem[j]): a for j, a in r.A.items()}))


@case
def noise(rng, C):
    s = rng.choice([0, 0.0, 0.5, rng.real(0.01, 3)])
    calls = []
    old = np.random.logistic
    np.random.logistic = lambda *a: (calls.append(a), np.array([0.7]))[1]
    C.note(scale=s)
    try:
        v = utilities.calculate_instantaneous_noise(s)
    finally:
        np.random.logistic = old
    C.check(v == (0 if s == 0 else 0.7), "the noise is not the one drawn", got=v)
    C.check(s == 0 or (len(calls) == 1 and tuple(calls[0][:2]) == (0, s)), "the distribution is not logistic with mean 0 and the scale set", calls=repr(calls))
