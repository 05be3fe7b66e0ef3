"""Search for failing inputs on the real code (run under the repository's interpreter).

A refuter module refute/cXX.py registers cases: case(rng, C) draws one input, calls the real code and
calls C.check(condition, what) for every consequence of the property.  It reports failing inputs; it
proves nothing (the verifier does), and everything it covers is labelled bounded in the evidence.
"""
import ast
import glob
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


class Failure(Exception):
    def __init__(self, what):
        Exception.__init__(self, what)


class Timeout(BaseException):
    pass


class Skip(Exception):
    """The drawn input is outside the property's precondition."""


def mined():
    """Numbers and strings that the current source compares against or uses: they steer the inputs."""
    nums, strs = set(), set()
    for f in sorted(glob.glob(os.path.join(REPO, "pyactr", "*.py"))):
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    continue
                if isinstance(n.value, (int, float)) and abs(n.value) < 1e5:
                    nums.add(n.value)
                elif isinstance(n.value, str) and n.value.isidentifier() and len(n.value) < 20:
                    strs.add(n.value)
    return sorted(nums), sorted(strs)


NUMS, STRS = mined()


class Ctx:
    def __init__(self):
        self.inputs = {}
        self.checks = 0

    def note(self, **kw):
        self.inputs.update(kw)

    def check(self, cond, what, **kw):
        self.checks += 1
        if not cond:
            self.inputs.update(kw)
            raise Failure(what)

    def raises(self, exc, thunk, what):
        self.checks += 1
        try:
            r = thunk()
        except exc:
            return
        except (Timeout, Skip):
            raise
        except Exception as e:
            self.inputs["raised"] = repr(e)
            raise Failure(what)
        self.inputs["returned"] = repr(r)
        raise Failure(what)


class Rng(random.Random):
    def real(self, lo=0.0, hi=10.0):
        """a float in [lo, hi], biased towards round values, bounds and constants of the source"""
        k = self.random()
        if k < 0.25:
            return min(hi, max(lo, round(self.uniform(lo, hi), self.choice([0, 1, 2, 3]))))
        if k < 0.4:
            c = [float(x) for x in NUMS if lo <= x <= hi]
            if c:
                return self.choice(c)
        if k < 0.5:
            c = [float(x) + d for x in NUMS for d in (-1, 1, -0.5, 0.5) if lo <= x + d <= hi]
            if c:
                return self.choice(c)
        return self.uniform(lo, hi)

    def nat(self, lo=0, hi=10):
        k = self.random()
        if k < 0.3:
            c = [int(x) + d for x in NUMS for d in (-1, 0, 1) if x == int(x) and lo <= x + d <= hi]
            if c:
                return self.choice(c)
        return self.randint(lo, hi)

    def word(self, mine=0.2):
        if self.random() < mine and STRS:
            return self.choice(STRS)
        return "".join(self.choice("abcdefghkmnqrstuvwxz") for _ in range(self.randint(1, 8)))


CASES = {}


def case(fn):
    CASES[fn.__name__] = fn
    return fn


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def _alarm(sig, frm):
    raise Timeout()


def plain(x):
    """inputs in a form that json can write"""
    if isinstance(x, dict):
        return {k if isinstance(k, str) else repr(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def run_case(name, seed, rnd, limit=20):
    """-> None (fine) | dict(kind='violation'|'harness', ...)"""
    C = Ctx()
    rng = Rng("%s/%s/%s" % (seed, name, rnd))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            CASES[name](rng, C)
    except Skip:
        return None, 0
    except Failure as e:
        return dict(kind="violation", what=str(e), inputs=plain(C.inputs)), C.checks
    except Timeout:
        return dict(kind="violation", what="no answer within %d s" % limit, inputs=plain(C.inputs)), C.checks
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        own = os.path.dirname(os.path.abspath(__file__))
        inner = [f for f in tb if f.filename.startswith(REPO) or f.filename.startswith(own)]
        kind = "violation" if inner and inner[-1].filename.startswith(REPO) else "harness"
        return dict(kind=kind, what="unexpected %s: %s" % (type(e).__name__, e), inputs=plain(C.inputs),
                    trace=traceback.format_exc()[-2500:]), C.checks
    finally:
        signal.alarm(0)
    return None, C.checks


def main(argv):
    import argparse
    import importlib
    import io
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--seconds", type=float, default=10)
    ap.add_argument("--rounds", type=int, default=10**9)
    ap.add_argument("--case")
    ap.add_argument("--round", type=int)
    ap.add_argument("--out")
    a = ap.parse_args(argv)
    import pyactr
    here = os.path.realpath(pyactr.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("pyactr is imported from %s, not from %s" % (here, REPO))
    importlib.import_module("refute." + a.prop.lower())
    t0 = time.time()
    res = dict(cases=0, checks=0, failures=[], harness=[], per_case={})
    real_out = sys.stdout
    if a.case:
        r, n = run_case(a.case, a.seed, a.round)
        print(json.dumps(r, default=repr, indent=1) if r else "holds for this input (%d checks)" % n)
        return 1 if r else 0
    sys.stdout = io.StringIO()
    rnd = 0
    bad = set()
    while rnd < a.rounds and (time.time() - t0 < a.seconds or rnd < 3):
        for nm in list(CASES):
            if nm in bad:
                continue
            r, n = run_case(nm, a.seed, rnd)
            res["cases"] += 1
            res["checks"] += n
            res["per_case"][nm] = res["per_case"].get(nm, 0) + 1
            if r:
                r.update(case=nm, round=rnd, seed=a.seed)
                bad.add(nm)
                res["failures" if r["kind"] == "violation" else "harness"].append(r)
        sys.stdout.seek(0)
        sys.stdout.truncate()
        rnd += 1
        if res["failures"] or len(bad) == len(CASES) or (time.time() - t0 > 3 * a.seconds + 60):
            break
    sys.stdout = real_out
    res["rounds"] = rnd
    res["seconds"] = time.time() - t0
    txt = json.dumps(res, default=repr)
    if a.out:
        open(a.out, "w").write(txt)
    else:
        print(json.dumps(res, default=repr, indent=1))
    return 0
